// P22: concurrent use of one reader, its tiles, accessors and cache gives the serial results (run under the thread sanitizer)
#include "compose.hpp"
#include <thread>
#include <atomic>
#include <fstream>
#include <unistd.h>
#include <sys/wait.h>
#include <poll.h>
using namespace std; using namespace czi; using namespace cmp; using pbt::Gen; using pbt::cat;

/// spreads the threads: each access may give way to others
class Swaying : public IStream
{
    shared_ptr<MemStream> m_; uint64_t seed_; atomic<uint64_t> n_{ 0 };
public:
    atomic<int> inside{ 0 }, most{ 0 };
    Swaying(shared_ptr<MemStream> m, uint64_t seed) : m_(move(m)), seed_(seed) {}
    void Read(uint64_t off, void* pv, uint64_t size, uint64_t* got) override
    {
        const int k = ++inside; int w = most; while (k > w && !most.compare_exchange_weak(w, k)) {}
        const uint64_t r = pbt::Rng(seed_ + n_++).next(); if (r % 4 == 0) this_thread::yield(); else if (r % 16 == 1) this_thread::sleep_for(chrono::microseconds(r / 16 % 60));
        struct Leave { atomic<int>& i; ~Leave() { --i; } } l{ inside }; m_->Read(off, pv, size, got); // reading from the memory is thread-safe
    }
};
enum { oRead, oTile, oAtt, oAttInfo, oAttEnum, oMeta, oStats, oPyr, oEnum, oEnumEx, oSubset, oInfo, oChannel, oHeader, oTransform, oTileAcc, oPyrAcc, oScaleAcc, oNewAcc, oSharedAtt, oSharedMeta, oLock, oCache, oCompose, oCount };
static const char* names[] = { "ReadSubBlock", "shared tile", "ReadAttachment", "TryGetAttachmentInfo", "EnumerateAttachments", "ReadMetadataSegment", "GetStatistics", "GetPyramidStatistics", "EnumerateSubBlocks", "EnumerateSubBlocksEx", "EnumSubset", "TryGetSubBlockInfo", "TryGetSubBlockInfoOfArbitrarySubBlockInChannel", "GetFileHeaderInfo", "TransformPoint", "tile accessor", "pyramid accessor", "scaling accessor", "CreateAccessor", "shared attachment", "shared metadata", "lock shared bitmap", "cache", "compose shared bitmaps" };
struct Op { int kind = 0; uint32_t a = 0, b = 0, c = 0; };
struct Job { IntRect box{ 0,0,1,1 }; vector<map<DimensionIndex, int>> planes; vector<IntRect> rois; };

/// everything that the threads share
struct World
{
    Job job; shared_ptr<ICZIReader> r; int tiles = 0, atts = 0; vector<shared_ptr<ISubBlock>> sb; vector<shared_ptr<IAttachment>> at; shared_ptr<IMetadataSegment> ms; vector<shared_ptr<IBitmapData>> bm; shared_ptr<ISubBlockCache> cache;
    shared_ptr<ISingleChannelTileAccessor> ta; shared_ptr<ISingleChannelPyramidLayerTileAccessor> pa; shared_ptr<ISingleChannelScalingTileAccessor> sa;
    World(const shared_ptr<IStream>& s, const Job& j, int nt, int na, bool shared) : job(j), tiles(nt), atts(na)
    {
        r = CreateCZIReader(); r->Open(s); cache = CreateSubBlockCache(); ta = dynamic_pointer_cast<ISingleChannelTileAccessor>(CreateAccesor(r, AccessorType::SingleChannelTileAccessor)); pa = dynamic_pointer_cast<ISingleChannelPyramidLayerTileAccessor>(CreateAccesor(r, AccessorType::SingleChannelPyramidLayerTileAccessor)); sa = dynamic_pointer_cast<ISingleChannelScalingTileAccessor>(CreateAccesor(r, AccessorType::SingleChannelScalingTileAccessor));
        if (!shared) return; for (int i = 0; i < nt; ++i) sb.push_back(r->ReadSubBlock(i)); for (int i = 0; i < na; ++i) at.push_back(r->ReadAttachment(i)); try { ms = r->ReadMetadataSegment(); } catch (exception&) {} for (auto& x : sb) { try { bm.push_back(x->CreateBitmap()); } catch (exception&) { bm.push_back(nullptr); } }
    }
};
static string attStr(const AttachmentInfo& a) { return cat("{", guidStr(a.contentGuid), " ", a.contentFileType, " ", a.name, "}"); }
static string bytesOf(const shared_ptr<const void>& p, size_t n) { const Bytes b = raw(p, n); return cat(n, ":", std::hex, hashBytes(b)); }
static string bmp(const shared_ptr<IBitmapData>& b) { return str(fromBitmap(b)); }
static string tileStr(ISubBlock& s)
{
    string t = infoStr(s.GetSubBlockInfo()); size_t n = 0; for (auto k : { ISubBlock::Data, ISubBlock::Metadata, ISubBlock::Attachment }) { auto p = s.GetRawData(k, &n); t += " " + bytesOf(p, n); const void* q = nullptr; size_t m = 0; s.DangerousGetRawData(k, q, m); if (m != n || q != p.get()) t += " raw data differ"; }
    try { t += " " + bmp(s.CreateBitmap()); } catch (exception&) { t += " no bitmap"; } return t;
}
static string statStr(const SubBlockStatistics& s) { string d; s.dimBounds.EnumValidDimensions([&](DimensionIndex i, int a, int b) { d += cat((int)i, ":", a, "+", b, " "); return true; }); auto rs = [](const IntRect& r) { return r.IsValid() ? cat(r.x, ",", r.y, ",", r.w, ",", r.h) : string("-"); }; string sc; for (auto& x : s.sceneBoundingBoxes) sc += cat(x.first, "=", rs(x.second.boundingBox), "/", rs(x.second.boundingBoxLayer0), " "); return cat(s.subBlockCount, " ", s.minMindex, " ", s.maxMindex, " ", rs(s.boundingBox), " ", rs(s.boundingBoxLayer0Only), " ", d, sc); }
template <class O> static void options(O& o, World& w, const Op& q) { o.Clear(); o.backGroundColor = { (float)(q.c % 3) / 2, (float)(q.c % 5) / 4, 0.25f }; o.sortByM = true; if (q.c / 8 % 3) { o.subBlockCache = w.cache; o.onlyUseSubBlockCacheForCompressedData = q.c / 32 % 2; } }
static string run(World& w, const Op& q)
{
    auto nt = [&] { return w.tiles ? (int)(q.a % (uint32_t)w.tiles) : 0; }; const IntRect roi = w.job.rois[q.b % w.job.rois.size()]; const CDimCoordinate plane = toCoord(w.job.planes[q.a % w.job.planes.size()]);
    switch (q.kind)
    {
    case oRead: { auto s = w.r->ReadSubBlock(q.b % 9 ? nt() : w.tiles + (int)(q.a % 3)); return s ? tileStr(*s) : "none"; }
    case oTile: return w.sb.empty() ? "" : tileStr(*w.sb[(size_t)nt()]);
    case oAtt: { auto a = w.r->ReadAttachment((int)(q.a % (uint32_t)(w.atts + 1))); if (!a) return "none"; size_t n = 0; auto p = a->GetRawData(&n); return attStr(a->GetAttachmentInfo()) + " " + bytesOf(p, n); }
    case oAttInfo: { AttachmentInfo i; return w.r->TryGetAttachmentInfo((int)(q.a % (uint32_t)(w.atts + 1)), &i) ? attStr(i) : "none"; }
    case oAttEnum: { string s = cat(w.r->GetAttachmentCount()); w.r->EnumerateAttachments([&](int i, const AttachmentInfo& x) { s += cat(i, attStr(x)); return true; }); w.r->EnumerateSubset(nullptr, nullptr, [&](int i, const AttachmentInfo& x) { s += cat(i, attStr(x)); return i < (int)(q.a % 4); }); return s; }
    case oMeta: { auto m = w.r->ReadMetadataSegment(); size_t n = 0; auto p = m->GetRawData(IMetadataSegment::XmlMetadata, &n); string s = bytesOf(p, n); auto x = m->CreateMetaFromMetadataSegment(); return s + (x->IsXmlValid() ? " " + cat(hash<string>()(x->GetXml())) : " invalid"); }
    case oStats: return statStr(w.r->GetStatistics());
    case oPyr: { auto p = w.r->GetPyramidStatistics(); string s; for (auto& sc : p.scenePyramidStatistics) { s += cat("[", sc.first); for (auto& l : sc.second) s += cat(" ", (int)l.layerInfo.minificationFactor, "^", (int)l.layerInfo.pyramidLayerNo, "x", l.count); s += "]"; } return s; }
    case oEnum: { string s; w.r->EnumerateSubBlocks([&](int i, const SubBlockInfo& x) { s += cat(i, infoStr(x)); return i != (int)(q.a % 32); }); return s; }
    case oEnumEx: { string s; w.r->EnumerateSubBlocksEx([&](int i, const DirectorySubBlockInfo& x) { s += cat(i, infoStr(x), "@", x.filePosition); return i != (int)(q.a % 32); }); return s; }
    case oSubset: { string s; w.r->EnumSubset(&plane, q.c % 2 ? &roi : nullptr, q.c & 4, [&](int i, const SubBlockInfo& x) { s += cat(i, infoStr(x)); return true; }); return s; }
    case oInfo: { SubBlockInfo i; return w.r->TryGetSubBlockInfo(q.b % 9 ? nt() : w.tiles, &i) ? infoStr(i) : "none"; }
    case oChannel: { SubBlockInfo i; return w.r->TryGetSubBlockInfoOfArbitrarySubBlockInChannel((int)(q.a % 4), i) ? infoStr(i) : "none"; }
    case oHeader: { auto h = w.r->GetFileHeaderInfo(); return cat(guidStr(h.fileGuid), h.majorVersion, ".", h.minorVersion); }
    case oTransform: { auto p = w.r->TransformPoint({ CZIFrameOfReference::PixelCoordinateSystem, { (int)(q.a % 1000), (int)(q.b % 1000) } }, CZIFrameOfReference::RawSubBlockCoordinateSystem); return cat(p.point.x, ",", p.point.y); }
    case oTileAcc: { ISingleChannelTileAccessor::Options o; options(o, w, q); o.useVisibilityCheckOptimization = q.c / 64 % 2; o.maskAware = q.c / 128 % 2; return bmp(q.c % 7 == 0 ? w.ta->Get(roi, &plane, &o) : w.ta->Get(PixelType::Gray8, roi, &plane, &o)); }
    case oPyrAcc: { ISingleChannelPyramidLayerTileAccessor::Options o; options(o, w, q); ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo l{ 2, (uint8_t)(q.c % 3) }; return bmp(w.pa->Get(PixelType::Bgr24, roi, &plane, l, &o)); }
    case oScaleAcc: { ISingleChannelScalingTileAccessor::Options o; options(o, w, q); o.useVisibilityCheckOptimization = q.c / 64 % 2; o.maskAware = q.c / 128 % 2; return bmp(w.sa->Get(PixelType::Gray16, roi, &plane, (float)(1 + q.c % 10) / 10, &o)); }
    case oNewAcc: { auto a = dynamic_pointer_cast<ISingleChannelTileAccessor>(w.r->CreateAccessor(AccessorType::SingleChannelTileAccessor)); ISingleChannelTileAccessor::Options o; options(o, w, q); return bmp(a->Get(PixelType::Gray8, roi, &plane, &o)); }
    case oSharedAtt: { if (w.at.empty()) return ""; auto& a = w.at[q.a % w.at.size()]; size_t n = 0, m = 0; auto p = a->GetRawData(&n); const void* d = nullptr; a->DangerousGetRawData(d, m); return attStr(a->GetAttachmentInfo()) + bytesOf(p, n) + (d == p.get() && m == n ? "" : " differ"); }
    case oSharedMeta: { if (!w.ms) return ""; size_t n = 0; auto p = w.ms->GetRawData(IMetadataSegment::XmlMetadata, &n); auto x = w.ms->CreateMetaFromMetadataSegment(); return bytesOf(p, n) + (x->IsXmlValid() ? cat(hash<string>()(x->GetXml())) : " invalid"); }
    case oLock: { if (w.bm.empty()) return ""; auto& b = w.bm[q.a % w.bm.size()]; if (!b) return "-"; string s = bmp(b); ScopedBitmapLockerSP l{ b }; ScopedBitmapLockerSP l2{ l }; if (b->GetLockCount() < 2) s += " lock count too small"; return s; }
    case oCache:
    {
        if (w.bm.empty()) return ""; const int i = nt(); if (q.b % 4 == 0) { ISubBlockCache::PruneOptions p; if (q.c % 2) p.maxSubBlockCount = q.c / 2 % 4; else p.maxMemoryUsage = q.c % 3000; w.cache->Prune(p); return "pruned"; }
        if (q.b % 4 == 1) { auto s = w.cache->GetStatistics(ISubBlockCacheStatistics::kMemoryUsage | ISubBlockCacheStatistics::kElementsCount); return s.elementsCount > (uint32_t)w.tiles || (s.elementsCount == 0) != (s.memoryUsage == 0) ? cat("impossible statistics ", s.elementsCount, " ", s.memoryUsage) : "statistics"; }
        auto c = w.cache->Get(i); string want; try { want = bmp(w.sb[(size_t)i]->CreateBitmap()); } catch (exception&) { want = "?"; } return !c.bitmap || bmp(c.bitmap) == want ? "cached " + want : "wrong bitmap in the cache";
    }
    case oCompose: { vector<IBitmapData*> v; vector<Compositors::ChannelInfo> ci; for (auto& b : w.bm) if (b && (v.empty() || (b->GetWidth() == v[0]->GetWidth() && b->GetHeight() == v[0]->GetHeight()))) { Compositors::ChannelInfo c; c.Clear(); c.weight = 0.5f; c.enableTinting = q.a & 1; c.tinting.color = { (uint8_t)q.b, 200, (uint8_t)q.c }; c.blackPoint = 0.1f; c.whitePoint = 0.9f; v.push_back(b.get()); ci.push_back(c); } if (v.empty()) return ""; return bmp(Compositors::ComposeMultiChannel_Bgr24((int)v.size(), v.data(), ci.data())); }
    }
    return "";
}
static string attempt(World& w, const Op& q) { try { return run(w, q); } catch (const exception&) { return "error"; } catch (const pbt::Fail& f) { return "fail: " + f.msg; } }

struct Case { shared_ptr<MemStream> file; Job job; int tiles = 0, atts = 0; string what; vector<vector<Op>> ops; };
static Case generate(Gen& g, bool forClose)
{
    Case c; POpts po; po.pyramid = g.coin(); po.masks = g.chance(1, 3); po.maxTiles = 6; po.jxr = g.chance(1, 3); PDoc p = genPDoc(g, po); if (g.chance(1, 8)) { p.doc.sbs.clear(); p.tiles.clear(); }
    for (int k = (int)g.range(0, 2); k > 0; --k) { At a = genAtt(g, 60); a.name = cat(k, a.name).substr(0, 79); p.doc.atts.push_back(a); } p.doc.hasMeta = g.chance(5, 6); if (p.doc.hasMeta) p.doc.xml = "<ImageDocument><Metadata><Information><Image><SizeX>7</SizeX></Image></Information></Metadata></ImageDocument>";
    WriteOpts wo; wo.allowDup = true; c.file = writeDoc(p.doc, wo); c.tiles = (int)p.doc.sbs.size(); c.atts = (int)p.doc.atts.size(); for (int k = 0; k < 3; ++k) { c.job.planes.push_back(p.doc.sbs.empty() ? map<DimensionIndex, int>() : genPlane(g, p)); IntRect r = p.doc.sbs.empty() ? IntRect{ 0, 0, 5, 5 } : genRoi(g, p); r.w = min(r.w, 60); r.h = min(r.h, 60); c.job.rois.push_back(r); }
    const int n = (int)g.range(2, 5), per = (int)g.size(2, 14); const bool focused = g.chance(1, 3); const int focus = (int)g.below(oCount);
    auto rnd = [&] { return (uint32_t)g.below(1u << 20); };
    for (int t = 0; t < n; ++t) { c.ops.emplace_back(); for (int k = 0; k < per; ++k) { Op o; o.kind = focused && g.coin() ? focus : (int)g.below(oCount); o.a = rnd(); o.b = rnd(); o.c = rnd(); c.ops.back().push_back(o); } }
    c.what = describe(p) + cat(" ", c.atts, " attachments", p.doc.hasMeta ? " metadata" : ""); g.d() << c.what; for (int t = 0; t < n; ++t) { g.d() << "\n  thread " << t << ":"; for (auto& o : c.ops[(size_t)t]) g.d() << " " << names[o.kind] << "(" << o.a << "," << o.b << "," << o.c << ")"; } (void)forClose; return c;
}
static vector<vector<string>> concurrently(World& w, const Case& c, const function<void()>* also = nullptr)
{
    vector<vector<string>> got(c.ops.size()); vector<thread> th; atomic<int> ready{ 0 }; const int all = (int)c.ops.size() + (also ? 1 : 0);
    auto meet = [&] { ++ready; while (ready < all) this_thread::yield(); };
    for (size_t t = 0; t < c.ops.size(); ++t) th.emplace_back([&, t] { meet(); for (auto& o : c.ops[t]) got[t].push_back(attempt(w, o)); });
    if (also) th.emplace_back([&] { meet(); (*also)(); });
    for (auto& t : th) t.join(); return got;
}
static void compare(const Case& c, const vector<vector<string>>& got, bool errorsAllowed, uint64_t* errors = nullptr)
{
    World s(c.file, c.job, c.tiles, c.atts, true);
    for (size_t t = 0; t < c.ops.size(); ++t) for (size_t k = 0; k < c.ops[t].size(); ++k)
    {
        const Op& o = c.ops[t][k]; const string want = attempt(s, o); if (errorsAllowed && got[t][k] == "error" && want != "error") { PBT_REQUIRE("shared-object", o.kind != oTile && o.kind != oSharedAtt && o.kind != oSharedMeta && o.kind != oLock && o.kind != oCache && o.kind != oCompose, names[o.kind], " fails because the reader was closed"); if (errors) ++*errors; continue; }
        PBT_REQUIRE("result", got[t][k] == want, "thread ", t, " call ", k, " (", names[o.kind], ") gives ", got[t][k].substr(0, 300), " instead of ", want.substr(0, 300));
    }
}
static void reading(Gen& g)
{
    Case c = generate(g, false); auto st = make_shared<Swaying>(c.file, g.seed64()); World w(st, c.job, c.tiles, c.atts, true); auto got = concurrently(w, c); compare(c, got, false); const int m = st->most; if (m > 1) g.cls("stream accesses overlapped"); g.count("calls", (int64_t)(c.ops.size() * c.ops[0].size())); if (c.tiles > 0) g.nontrivial();
}
static void closing(Gen& g)
{
    Case c = generate(g, true); auto st = make_shared<Swaying>(c.file, g.seed64()); World w(st, c.job, c.tiles, c.atts, true); const unsigned wait = (unsigned)g.below(400); bool closed = true; string second;
    const function<void()> cl = [&] { if (wait) this_thread::sleep_for(chrono::microseconds(wait)); try { w.r->Close(); } catch (exception&) { closed = false; } }; g.d() << "\n  closed after " << wait << " us";
    auto got = concurrently(w, c, &cl); PBT_REQUIRE("close", closed, "closing reports an error"); uint64_t errors = 0; compare(c, got, true, &errors);
    // once closed, every call that needs the reader reports it
    for (int k : { (int)oRead, (int)oAtt, (int)oMeta }) { Op o; o.kind = k; if (k == oRead && !c.tiles) continue; if (k == oAtt && !c.atts) continue; PBT_REQUIRE("closed", attempt(w, o) == "error", names[k], " succeeds after the reader has been closed"); }
    const long uses = st.use_count(); PBT_REQUIRE("stream-released", uses == 1, "the stream of a closed reader is still referenced (", uses - 1, ")");
    if (errors) g.cls("some calls came too late"); size_t total = 0; for (auto& x : c.ops) total += x.size(); if (errors < total) g.cls("some calls completed"); if (c.tiles > 0) g.nontrivial();
}
/// overwriting an item by one of the same size changes no statistics, at no time
static void usage(Gen& g)
{
    auto cache = CreateSubBlockCache(); const int keys = (int)g.range(1, 4); uint64_t total = 0; vector<pair<uint32_t, uint32_t>> size; for (int k = 0; k < keys; ++k) { size.push_back({ (uint32_t)g.range(1, 30), (uint32_t)g.range(1, 30) }); total += (uint64_t)size.back().first * size.back().second; cache->Add(k, { make_shared<UserBitmap>(PixelType::Gray8, size.back().first, size.back().second, 0, 0) }); }
    const int writers = (int)g.range(1, 3), n = (int)g.range(50, 400); g.d() << keys << " items " << total << " bytes, " << writers << " writers"; atomic<bool> stop{ false }; atomic<int> ready{ 0 }; string bad; vector<thread> th; vector<vector<int>> order((size_t)writers); for (auto& o : order) for (int k = 0; k < n; ++k) o.push_back((int)g.below((uint64_t)keys));
    for (int t = 0; t < writers; ++t) th.emplace_back([&, t] { ++ready; while (ready < writers + 1) {} for (int k : order[(size_t)t]) cache->Add(k, { make_shared<UserBitmap>(PixelType::Gray8, size[(size_t)k].first, size[(size_t)k].second, 0, 0) }); });
    int64_t looks = 0; thread look([&] { ++ready; while (!stop) { ++looks; const auto s = cache->GetStatistics(ISubBlockCacheStatistics::kMemoryUsage); const auto e = cache->GetStatistics(ISubBlockCacheStatistics::kElementsCount); const auto b = cache->GetStatistics(ISubBlockCacheStatistics::kMemoryUsage | ISubBlockCacheStatistics::kElementsCount); if (s.memoryUsage != total || b.memoryUsage != total || e.elementsCount != (uint32_t)keys || b.elementsCount != (uint32_t)keys) { bad = cat("the cache reports ", s.memoryUsage, " / ", b.memoryUsage, " bytes in ", e.elementsCount, " / ", b.elementsCount, " items"); break; } } });
    for (auto& t : th) t.join(); stop = true; look.join(); PBT_REQUIRE("usage", bad.empty(), bad, " while items are replaced by ones of the same size (", total, " bytes in ", keys, " items)"); if (looks > 3) g.nontrivial(); g.count("observations", looks);
}
// ---------------------------------------------------------- the first use of everything, by several threads at once
static string allTiles(ISubBlockRepository& r, int n) { string s; for (int i = 0; i < n; ++i) { auto b = r.ReadSubBlock(i); s += b ? tileStr(*b) + "\n" : "none\n"; } return s; }
static string pack(uint64_t seed)
{
    Bytes px(64 * 16 * 2); pbt::Rng r(seed); for (auto& x : px) x = (uint8_t)(r.next() % 7); string s; auto blob = [&](const shared_ptr<IMemoryBlock>& m) { Bytes b((const uint8_t*)m->GetPtr(), (const uint8_t*)m->GetPtr() + m->GetSizeOfData()); s += cat(b.size(), ":", hashBytes(b), " "); };
    CompressParametersOnMap p; p.map[(int)CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING] = CompressParameter(true); blob(ZstdCompress::CompressZStd1Alloc(64, 16, 128, PixelType::Gray16, px.data(), &p)); blob(ZstdCompress::CompressZStd0Alloc(64, 16, 128, PixelType::Gray16, px.data(), nullptr)); return s;
}
static int coldChild(int argc, char** argv)
{
    const string path = argv[2]; const int tiles = atoi(argv[3]), n = atoi(argv[4]); const uint64_t seed = strtoull(argv[5], nullptr, 10); const wstring wp(path.begin(), path.end());
    auto own = [&] { auto r = CreateCZIReader(); r->Open(CreateStreamFromFile(wp.c_str())); return r; };
    shared_ptr<ICZIReader> shared; if (seed % 2) shared = own(); vector<string> got((size_t)n); vector<thread> th; atomic<int> ready{ 0 };
    for (int t = 0; t < n; ++t) th.emplace_back([&, t] { ++ready; while (ready < n) {} try { const bool first = (seed >> (t + 1)) & 1; string p; if (first) p = pack(seed); auto r = shared ? shared : own(); string s = allTiles(*r, tiles); if (!first) p = pack(seed); string k; StreamsFactory::StreamClassInfo ci; for (int i = 0; i < StreamsFactory::GetStreamClassesCount(); ++i) if (StreamsFactory::GetStreamInfoForClass(i, ci)) k += ci.class_name; got[(size_t)t] = s + p + k; } catch (exception& e) { got[(size_t)t] = cat("error: ", e.what()); } catch (pbt::Fail& f) { got[(size_t)t] = "fail: " + f.msg; } });
    for (auto& t : th) t.join();
    string k; StreamsFactory::StreamClassInfo ci; for (int i = 0; i < StreamsFactory::GetStreamClassesCount(); ++i) if (StreamsFactory::GetStreamInfoForClass(i, ci)) k += ci.class_name; const string want = allTiles(*own(), tiles) + pack(seed) + k;
    for (int t = 0; t < n; ++t) if (got[(size_t)t] != want) { fprintf(stderr, "thread %d gives\n%sinstead of\n%s", t, got[(size_t)t].c_str(), want.c_str()); return 3; } return 0;
}
static void cold(Gen& g)
{
    POpts po; po.maxTiles = 5; po.pyramid = g.coin(); PDoc p = genPDoc(g, po); WriteOpts wo; wo.allowDup = true; auto f = writeDoc(p.doc, wo); const string path = pbt::scratchDir() + cat("/p22-", getpid(), ".czi"); ofstream(path, ios::binary).write((const char*)f->b.data(), (streamsize)f->b.size());
    const string tiles = to_string(p.doc.sbs.size()), n = to_string(g.range(2, 6)), seed = to_string(g.below(1u << 20)); g.d() << describe(p) << "\n  " << n << " threads seed " << seed; int fd[2]; if (pipe(fd)) throw pbt::Discard(); const pid_t pid = fork(); if (pid < 0) throw pbt::Discard();
    if (pid == 0) { dup2(fd[1], 2); dup2(fd[1], 1); close(fd[0]); execl("/proc/self/exe", "p22", "--cold", path.c_str(), tiles.c_str(), n.c_str(), seed.c_str(), (char*)nullptr); _exit(120); }
    close(fd[1]); string out; char buf[4096]; for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) > 0;) if (out.size() < 6000) out.append(buf, (size_t)k); close(fd[0]); int st = 0; waitpid(pid, &st, 0); unlink(path.c_str());
    if (WIFEXITED(st) && WEXITSTATUS(st) == 120) throw pbt::Discard(); PBT_REQUIRE("first-use", WIFEXITED(st) && WEXITSTATUS(st) == 0, "the first use of the library by ", n, " threads at once fails (status ", st, "): ", out.substr(0, 4000)); if (!p.doc.sbs.empty()) g.nontrivial();
}
int main(int argc, char** argv)
{
    if (argc == 6 && string(argv[1]) == "--cold") return coldChild(argc, argv);
    pbt::Config c; c.property = "P22"; c.hangIsViolation = true; c.maxWorkers = 4; c.schedules = true;
    c.rule = "a case is non-trivial when the document has tiles and at least two threads made calls (or the statistics of the cache were observed more than three times while it was changed)";
    c.assumptions = { "the thread sanitizer reports an unsynchronised access when both sides are executed, whatever the order in time", "the stream supplied by the caller is thread-safe, as its interface demands", "schedules are those of the operating system, varied by yielding and sleeping in the stream" };
    c.subs = { { "reading", 7000, 150000, reading }, { "closing", 4500, 100000, closing }, { "usage", 800, 10000, usage }, { "cold", 300, 5000, cold } };
    return pbt::main(argc, argv, c);
}
