// P17: the tile cache is a faithful least-recently-used cache (histories; with -DTHREADS: schedules)
#include "compose.hpp"
#include <thread>
#include <atomic>
using namespace cmp;
using namespace std;
typedef ISubBlockCacheStatistics St;

class TagMask : public IBitonalBitmapData
{
    IntSize sz_; Bytes mem_;
public:
    TagMask(uint32_t w, uint32_t h) : sz_{ w, h }, mem_((size_t)(w + 7) / 8 * h + 1) {}
    IntSize GetSize() const override { return sz_; }
    BitonalBitmapLockInfo Lock() override { return { mem_.data(), (sz_.w + 7) / 8, (uint64_t)(sz_.w + 7) / 8 * sz_.h }; }
    void Unlock() override {}
    int GetLockCount() const override { return 0; }
};
/// a bitmap that only has a size
class TagBitmap : public IBitmapData
{
    PixelType pt_; IntSize sz_;
public:
    const int tag;
    TagBitmap(PixelType pt, uint32_t w, uint32_t h, int tag_) : pt_(pt), sz_{ w, h }, tag(tag_) {}
    PixelType GetPixelType() const override { return pt_; }
    IntSize GetSize() const override { return sz_; }
    BitmapLockInfo Lock() override { return {}; }
    void Unlock() override {}
    int GetLockCount() const override { return 0; }
};
struct Held { shared_ptr<IBitmapData> b; shared_ptr<IBitonalBitmapData> m; uint64_t size; uint64_t stamp; };

static void history(Gen& g)
{
    auto cache = CreateSubBlockCache(); map<int, Held> model; uint64_t clock = 0; string log; int evictions = 0, overwrites = 0;
    const int keys = (int)g.range(1, 9), n = (int)g.size(1, 60); const bool big = g.chance(1, 10);
    auto usage = [&] { uint64_t s = 0; for (auto& kv : model) s += kv.second.size; return s; };
    auto stats = [&]
    {
        const auto a = cache->GetStatistics(St::kMemoryUsage), b = cache->GetStatistics(St::kElementsCount), c = cache->GetStatistics(St::kMemoryUsage | St::kElementsCount);
        PBT_REQUIRE("statistics", a.validityMask == St::kMemoryUsage && b.validityMask == St::kElementsCount && c.validityMask == (St::kMemoryUsage | St::kElementsCount), "after", log, ": the statistics do not contain what was asked for");
        PBT_REQUIRE("statistics", a.memoryUsage == usage() && c.memoryUsage == usage(), "after", log, ": memory usage is reported as ", a.memoryUsage, " and ", c.memoryUsage, ", it is ", usage());
        PBT_REQUIRE("statistics", b.elementsCount == model.size() && c.elementsCount == model.size(), "after", log, ": ", b.elementsCount, " and ", c.elementsCount, " elements are reported, there are ", model.size());
    };
    stats();
    for (int k = 0; k < n; ++k)
    {
        int key = (int)g.range0(-1, keys); if (g.chance(1, 40)) key = g.of<int>({ INT32_MAX, INT32_MIN });
        switch (g.weighted({ 5, 4, 3 }))
        {
        case 0:
        {
            const PixelType pt = g.of<PixelType>({ PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float, PixelType::Bgra32 });
            const uint32_t w = big ? (uint32_t)g.range(1, 200000) : (uint32_t)g.range(1, 20), h = big ? (uint32_t)g.range(1, 200000) : (uint32_t)g.range(1, 20);
            Held e; e.b = make_shared<TagBitmap>(pt, w, h, key); e.size = (uint64_t)w * h * (uint64_t)bpp(pt);
            if (g.chance(1, 3)) { const uint32_t mw = (uint32_t)g.range(1, 40), mh = (uint32_t)g.range(1, 9); e.m = make_shared<TagMask>(mw, mh); e.size += (uint64_t)((mw + 7) / 8) * mh; }
            e.stamp = ++clock; overwrites += (int)model.count(key); cache->Add(key, e.m ? ISubBlockCacheOperation::CacheItem(e.b, e.m) : ISubBlockCacheOperation::CacheItem(e.b)); model[key] = e; log += pbt::cat(" add ", key, "(", e.size, ")"); break;
        }
        case 1:
        {
            log += pbt::cat(" get ", key); const auto it = cache->Get(key); auto f = model.find(key);
            if (f == model.end()) PBT_REQUIRE("get", !it.IsValid() && !it.bitmap && !it.mask, "after", log, ": something is returned for an index that is not there");
            else { f->second.stamp = ++clock; PBT_REQUIRE("get", it.IsValid() && it.bitmap == f->second.b && it.mask == f->second.m, "after", log, ": not the last item added for the index"); }
            break;
        }
        default:
        {
            ISubBlockCacheControl::PruneOptions o; const uint64_t u = usage();
            if (g.chance(2, 3)) { switch (g.below(4)) { case 0: o.maxMemoryUsage = u; break; case 1: o.maxMemoryUsage = u ? u - 1 : 0; break; case 2: o.maxMemoryUsage = (uint64_t)g.range(0, (int64_t)min<uint64_t>(u + 1, 1000000000)); break; default: { uint64_t best = UINT64_MAX, s = 0; for (auto& kv : model) if (kv.second.stamp < best) { best = kv.second.stamp; s = kv.second.size; } o.maxMemoryUsage = u - s; break; } } }
            if (g.coin()) o.maxSubBlockCount = (uint32_t)g.range(0, (int64_t)model.size() + 1);
            log += pbt::cat(" prune(", o.maxMemoryUsage == UINT64_MAX ? string("-") : to_string(o.maxMemoryUsage), ",", o.maxSubBlockCount == UINT32_MAX ? string("-") : to_string(o.maxSubBlockCount), ")");
            cache->Prune(o);
            while (!model.empty() && (usage() > o.maxMemoryUsage || model.size() > o.maxSubBlockCount)) { auto m = min_element(model.begin(), model.end(), [](const pair<const int, Held>& a, const pair<const int, Held>& b) { return a.second.stamp < b.second.stamp; }); model.erase(m); ++evictions; }
            break;
        }
        }
        stats();
    }
    g.d() << log;
    // everything held is returned, nothing else (in the order of recency, so that the content is checked as a whole)
    for (int key = -2; key <= keys + 1; ++key) { const auto it = cache->Get(key); auto f = model.find(key); PBT_REQUIRE("content", f == model.end() ? !it.IsValid() : it.bitmap == f->second.b && it.mask == f->second.m, "after", log, ": the item for ", key, " is wrong"); }
    // an evicted or replaced item is not kept alive by the cache
    for (auto& kv : model) PBT_REQUIRE("held", kv.second.b.use_count() == 2, "after", log, ": item of ", kv.first, " has ", kv.second.b.use_count(), " owners");
    if (evictions > 0 && overwrites > 0) g.nontrivial(); if (evictions) g.cls("evictions"); if (overwrites) g.cls("overwrites"); if (big) g.cls("huge items");
}

/// several threads; all items have the same size, so that a snapshot of the statistics can be judged at any time
static void threads(Gen& g)
{
    auto cache = CreateSubBlockCache(); const int nt = (int)g.range(2, 4), per = (int)g.range(1, 5), rounds = (int)g.range(1, 12); const uint64_t S = 12; const bool prune = g.coin();
    const uint64_t seed = g.seed64(); atomic<int> go{ 0 }; atomic<bool> bad{ false }; string msg; mutex mm; auto err = [&](const string& s) { lock_guard<mutex> l(mm); if (!bad) { bad = true; msg = s; } };
    const int total = nt * per; auto item = [](int key) { return ISubBlockCacheOperation::CacheItem(make_shared<TagBitmap>(PixelType::Bgr24, 2, 2, key)); };
    g.d() << nt << " threads, " << per << " keys each, " << rounds << " rounds" << (prune ? ", pruning" : "");
    auto check = [&](int key, const ISubBlockCacheOperation::CacheItem& i) { if (i.IsValid() && static_cast<TagBitmap*>(i.bitmap.get())->tag != key) err(pbt::cat("item of ", static_cast<TagBitmap*>(i.bitmap.get())->tag, " returned for ", key)); };
    auto snap = [&] { const auto s = cache->GetStatistics(St::kMemoryUsage | St::kElementsCount); if (s.memoryUsage != s.elementsCount * S) err(pbt::cat("statistics with ", s.elementsCount, " elements and ", s.memoryUsage, " bytes, each has ", S)); };
    vector<thread> th;
    auto run = [&](const function<void(int, pbt::Rng&)>& f) { go = 0; for (int t = 0; t < nt; ++t) th.emplace_back([&, t] { pbt::Rng r(seed + (uint64_t)t * 77); ++go; while (go < nt) this_thread::yield(); f(t, r); }); for (auto& x : th) x.join(); th.clear(); };
    // phase 1: anything goes, on all keys
    run([&](int, pbt::Rng& r)
    {
        for (int k = 0; k < rounds && !bad; ++k)
        {
            const int key = (int)(r.next() % (uint64_t)total);
            switch (r.next() % 4)
            {
            case 0: cache->Add(key, item(key)); break;
            case 1: check(key, cache->Get(key)); break;
            case 2: snap(); break;
            default: if (prune) { ISubBlockCacheControl::PruneOptions o; if (r.next() & 1) o.maxSubBlockCount = (uint32_t)(r.next() % (uint64_t)total); else o.maxMemoryUsage = r.next() % (S * (uint64_t)total); cache->Prune(o); } else cache->Add(key, item(key)); break;
            }
        }
    });
    if (!bad) { uint32_t n = 0; for (int k = 0; k < total; ++k) { auto i = cache->Get(k); check(k, i); n += i.IsValid(); } const auto s = cache->GetStatistics(St::kMemoryUsage | St::kElementsCount); if (s.elementsCount != n || s.memoryUsage != n * S) err(pbt::cat("at the end ", n, " items are there, the statistics say ", s.elementsCount, " with ", s.memoryUsage, " bytes")); }
    // phase 2: each thread adds its own keys; phase 3: each uses a part of them, so the others are the least recently used
    run([&](int t, pbt::Rng&) { for (int k = 0; k < per; ++k) cache->Add(t * per + k, item(t * per + k)); });
    set<int> used; for (int k = 0; k < total; ++k) if (pbt::Rng(seed + 1000 + (uint64_t)k).next() & 1) used.insert(k);
    run([&](int t, pbt::Rng& r) { for (int k = 0; k < per; ++k) { const int key = t * per + k; if (!used.count(key)) continue; if (r.next() & 1) { if (!cache->Get(key).IsValid()) err(pbt::cat("item ", key, " has vanished")); } else cache->Add(key, item(key)); } });
    ISubBlockCacheControl::PruneOptions o; o.maxSubBlockCount = (uint32_t)used.size(); cache->Prune(o);
    for (int k = 0; k < total && !bad; ++k) if (cache->Get(k).IsValid() != (used.count(k) > 0)) err(pbt::cat("after pruning to ", used.size(), " elements item ", k, used.count(k) ? ", used recently, is gone" : ", not used recently, is still there"));
    if (bad) pbt::fail("threads", msg);
    if (rounds > 2) g.nontrivial(); g.cls(pbt::cat(nt, " threads"));
}
#ifndef THREADS
/// what the composing accessors put into a cache, and that they do not read again what it holds
struct CountingStream : IStream
{
    shared_ptr<MemStream> s; size_t reads = 0;
    explicit CountingStream(shared_ptr<MemStream> m) : s(std::move(m)) {}
    void Read(uint64_t offset, void* pv, uint64_t size, uint64_t* n) override { ++reads; s->Read(offset, pv, size, n); }
};
static void accessors(Gen& g)
{
    POpts o; o.pyramid = g.coin(); o.masks = g.coin(); o.mixedScenes = false; o.maxTiles = 8; PDoc p = genPDoc(g, o);
    auto stream = make_shared<CountingStream>(p.file); auto repo = CreateCZIReader(); repo->Open(stream); const auto sbs = readDoc(*repo).sbs; vector<Img> imgs; for (size_t i = 0; i < sbs.size(); ++i) imgs.push_back(fromBitmap(repo->ReadSubBlock((int)i)->CreateBitmap())); auto cache = CreateSubBlockCache(); set<int> held;
    auto a0 = repo->CreateSingleChannelTileAccessor(); auto a1 = repo->CreateSingleChannelPyramidLayerTileAccessor(); auto a2 = repo->CreateSingleChannelScalingTileAccessor();
    g.d() << describe(p);
    for (int q = (int)g.range(1, 4); q > 0; --q)
    {
        const int which = (int)g.weighted({ 3, 1, 1 }); auto plane = genPlane(g, p); CDimCoordinate co = toCoord(plane); const IntRect roi = genRoi(g, p);
        const bool vis = g.chance(1, 4), only = g.coin(), mask = g.coin(); const int lay = (int)g.range(0, p.maxLayer); const float zoom = g.coin() ? 1.f : (float)g.range(200, 1000) / 1000.f;
        set<int> drawn; set<PixelType> used; for (size_t i = 0; i < sbs.size(); ++i) { const Sb& s = sbs[i]; if (onPlane(s, plane) && s.x < roi.x + roi.w && s.x + s.w > roi.x && s.y < roi.y + roi.h && s.y + s.h > roi.y && (which != 0 || isLayer0(s))) { drawn.insert((int)i); used.insert(s.pt); } }
        const PixelType want = used.empty() ? PixelType::Gray8 : *used.begin(); bool can = true; for (auto t : used) can = can && ref::canCopy(t, want); if (!can) continue;
        const string what = pbt::cat("accessor ", which, " ", dimsStr(plane), " roi(", roi.x, ",", roi.y, ",", roi.w, "x", roi.h, ")", vis ? " vis" : "", only ? " compressed only" : "", mask ? " masks" : "", which == 1 ? pbt::cat(" layer ", lay) : which == 2 ? pbt::cat(" zoom ", zoom) : string()); g.d() << "\n " << what;
        auto run = [&]
        {
            auto set = [&](auto& opt) { opt.Clear(); opt.backGroundColor = { 0, 0, 0 }; opt.maskAware = mask; opt.onlyUseSubBlockCacheForCompressedData = only; opt.subBlockCache = cache; };
            if (which == 0) { ISingleChannelTileAccessor::Options op; set(op); op.useVisibilityCheckOptimization = vis; return fromBitmap(a0->Get(want, roi, &co, &op)); }
            if (which == 1) { ISingleChannelPyramidLayerTileAccessor::Options op; set(op); return fromBitmap(a1->Get(want, roi, &co, ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo{ (uint8_t)p.pyrFactor, (uint8_t)lay }, &op)); }
            ISingleChannelScalingTileAccessor::Options op; set(op); op.useVisibilityCheckOptimization = vis; return fromBitmap(a2->Get(want, roi, &co, zoom, &op));
        };
        Img first; try { first = run(); } catch (pbt::Fail&) { throw; } catch (exception&) { g.cls("refused"); continue; }
        const auto st = cache->GetStatistics(St::kElementsCount | St::kMemoryUsage); set<int> now; uint64_t mem = 0;
        for (size_t i = 0; i < sbs.size(); ++i)
        {
            const auto item = cache->Get((int)i); const Sb& s = sbs[i]; const bool may = drawn.count((int)i) && (!only || s.comp != 0);
            if (item.IsValid()) now.insert((int)i);
            PBT_REQUIRE("filling", item.IsValid() ? may || held.count((int)i) : !held.count((int)i), what, ": tile ", i, item.IsValid() ? " was put into the cache" : " has vanished from the cache");
            if (which == 0 && !vis) PBT_REQUIRE("filling", !may || item.IsValid(), what, ": tile ", i, " which was drawn is not in the cache");
            if (item.IsValid()) { PBT_REQUIRE("filling-content", fromBitmap(item.bitmap) == imgs[i], what, ": the cache holds another image for tile ", i, ", ", str(sbs[i])); mem += (uint64_t)bpp(s.pt) * item.bitmap->GetWidth() * item.bitmap->GetHeight(); }
        }
        PBT_REQUIRE("filling", st.elementsCount == now.size(), what, ": ", st.elementsCount, " items reported, tiles held: ", now.size());
        PBT_REQUIRE("filling", st.memoryUsage >= mem, what, ": memory usage ", st.memoryUsage, " is less than the ", mem, " bytes of the bitmaps");
        if (now.size() > held.size()) { g.cls("filled"); g.nontrivial(); } held = now;
        bool all = true; for (auto i : drawn) all = all && held.count(i);
        const size_t before = stream->reads; const Img again = run();
        PBT_REQUIRE("again", again == first, what, ": the second image differs");
        if (all && !drawn.empty()) { PBT_REQUIRE("again", stream->reads == before, what, ": although all ", drawn.size(), " tiles are in the cache, the file was read again"); g.cls("from the cache alone"); }
        if (g.chance(1, 6)) { ISubBlockCacheControl::PruneOptions po; po.maxSubBlockCount = (uint32_t)g.range(0, 3); cache->Prune(po); held.clear(); for (size_t i = 0; i < sbs.size(); ++i) if (cache->Get((int)i).IsValid()) held.insert((int)i); }
    }
}
#endif

int main(int argc, char** argv)
{
    pbt::Config c; c.property = "P17";
    c.rule = "histories: at least one item evicted and one overwritten; accessors: tiles were put into the cache; threads: more than two operations per thread";
    c.assumptions = { "items have a bitmap (as the interface demands)", "schedules are the ones the machine produces, each case starts its threads together; data races are reported by the thread sanitizer independently of the outcome" };
#ifdef THREADS
    c.subs = { { "threads", 6000, 150000, threads } }; c.maxWorkers = 4; c.hangIsViolation = true; c.schedules = true;
#else
    c.subs = { { "history", 150000, 3000000, history }, { "accessors", 30000, 400000, accessors }, { "threads", 6000, 100000, threads } };
#endif
    return pbt::main(argc, argv, c);
}
