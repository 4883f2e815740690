// P25: tile metadata and tile attachments read back what was stored
#include "compose.hpp"
#include "xmltree.hpp"
using namespace cmp;
using namespace std;
using xt::Node; using xt::utf8; using xt::show;

static shared_ptr<ISubBlock> storedTile(Gen& g, const Bytes& meta, const Bytes& att)
{
    Doc d; d.guid = GUID{ 1,2,3,{4,5,6,7,8,9,10,11} }; Sb t; t.w = t.h = t.pw = t.ph = 1; t.data = Bytes(1); t.dims[DimensionIndex::C] = 0; t.mValid = true; t.meta = meta; t.att = att; d.sbs.push_back(t);
    const auto bytes = writeDoc(d); auto r = openReader(bytes); return r->ReadSubBlock(0);
}
template <typename F> static bool throwsXml(F f) { try { f(); return false; } catch (LibCZIXmlParseException&) { return true; } }
template <typename F> static bool throwsCzi(F f) { try { f(); return false; } catch (LibCZIException&) { return true; } }
static Bytes bytesOf(const string& s) { return Bytes(s.begin(), s.end()); }

static void xml(Gen& g)
{
    Node root; root.name = g.chance(1, 15) ? L"META" : L"METADATA"; root.attrs = xt::genAttrs(g); vector<pair<wstring, xt::Num>> tags; bool hasTags = g.chance(5, 6); Node tg; tg.name = L"Tags"; auto strNum = [](const wstring& s) { xt::Num n; n.text = s; n.judge = false; return n; };
    auto addTag = [&](const wstring& nm, const xt::Num& v, bool empty) { Node k; k.name = nm; k.hasText = !empty; k.text = v.text; tg.kids.push_back(k); };
    map<wstring, pair<bool, xt::Num>> first; const int n = (int)g.range(0, 5); static const wstring pool[] = { L"StageXPosition", L"StageYPosition", L"FocusPosition", L"AcquisitionTime", L"\u00c4x", L"t1" };
    for (int k = 0; k < n; ++k) { const wstring nm = g.chance(3, 5) ? pool[g.below(2)] : pool[g.below(6)]; const bool empty = g.chance(1, 12); const xt::Num v = g.chance(2, 3) ? xt::genNum(g) : strNum(xt::genText(g)); addTag(nm, v, empty); if (!first.count(nm)) first[nm] = { !empty, v }; }
    Node as; as.name = L"AttachmentSchema"; bool hasFmt = g.coin(); wstring fmt; if (hasFmt) { fmt = g.of<wstring>({ L"CHUNKCONTAINER", L"chunkcontainer", L"RAW", L"\u00e9" }); Node f; f.name = L"DataFormat"; f.hasText = true; f.text = fmt; as.kids.push_back(f); }
    vector<Node> kids; if (hasTags) kids.push_back(tg); if (hasFmt || g.chance(1, 4)) kids.push_back(as); const int extra = (int)g.range(0, 2); for (int k = 0; k < extra; ++k) kids.push_back(xt::genTree(g, 2, xt::genName(g, 4))); g.shuffle(kids); root.kids = kids;
    const bool meta = root.name == L"METADATA"; if (!meta || !hasTags) first.clear(); if (!meta) hasFmt = false;
    string text = xt::write(g, root, true); bool bad = false; const string closing = "</" + utf8(root.name) + ">";
    if (g.chance(1, 6)) { bad = true; switch (g.below(4)) { case 0: text = text.size() > closing.size() && text.substr(text.size() - closing.size()) == closing ? text.substr(0, text.size() - (size_t)g.range(1, (int64_t)closing.size())) : "<METADATA>"; break; case 1: text = ""; break; case 2: text = "<METADATA><Tags></METADATA></Tags>"; break; default: text = "no xml at all"; } } else if (g.chance(1, 4)) text = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n" + text;
    if (g.tracing()) g.d() << text; g.cls(bad ? "xml-malformed" : meta ? "xml" : "xml-other-root");
    auto sb = storedTile(g, bytesOf(text), {}); auto m = CreateSubBlockMetadataFromSubBlock(sb.get()); PBT_REQUIRE("xml-valid", (bool)m && m->IsXmlValid() == !bad, "the XML is reported as ", m->IsXmlValid() ? "valid" : "invalid", ": ", text); g.nontrivial();
    double d = 0; wstring s; tuple<double, double> st;
    if (bad)
    {
        PBT_REQUIRE("xml-error", throwsXml([&] { m->TryGetTagAsDouble(L"t1", &d); }) && throwsXml([&] { m->TryGetTagAsString(L"t1", &s); }) && throwsXml([&] { m->TryGetStagePositionFromTags(&st); }) && throwsXml([&] { m->TryGetAttachmentDataFormat(&s); }) && throwsXml([&] { m->GetXml(); }) && throwsXml([&] { m->Name(); }) && throwsXml([&] { m->TryGetValue(&s); }) && throwsXml([&] { m->TryGetAttribute(L"a", &s); }) && throwsXml([&] { m->GetChildNodeReadonly("METADATA"); }) && throwsXml([&] { m->EnumChildren([](shared_ptr<IXmlNodeRead>) { return true; }); }) && throwsXml([&] { m->EnumAttributes([](const wstring&, const wstring&) { return true; }); }), "malformed metadata are not reported as an error by every function: ", text);
        auto a = CreateSubBlockAttachmentAccessor(sb, nullptr); PBT_REQUIRE("xml-error", !a->HasChunkContainer(), "malformed metadata announce a chunk container"); return;
    }
    for (auto& nm : pool)
    {
        const auto f = first.find(nm); const bool there = f != first.end() && f->second.first; s = L"?"; const bool b = m->TryGetTagAsString(nm, &s); PBT_REQUIRE("tag-string", b == there && s == (there ? f->second.second.text : L"?"), "tag ", show(nm), " is reported as ", b, " ", show(s), " for ", text);
        if (there && f->second.second.judge) { const xt::Num& v = f->second.second; d = 0.125; const bool e = m->TryGetTagAsDouble(nm, &d); PBT_REQUIRE("tag-double", e == v.asDbl && d == (e ? v.d : 0.125), "tag ", show(nm), " as a number is ", e, " ", d, " for ", text); xt::judgeNum("tag-value", m->GetChildNodeReadonly(("METADATA/Tags/" + utf8(nm)).c_str()).get(), v); } else if (!there) { d = 0.125; PBT_REQUIRE("tag-double", !m->TryGetTagAsDouble(nm, &d) && d == 0.125, "a number is reported for the absent tag ", show(nm), " for ", text); }
    }
    auto good = [&](const wstring& nm, double& v, bool& judge) { auto f = first.find(nm); if (f == first.end() || !f->second.first) return false; judge = judge && f->second.second.judge; v = f->second.second.d; return f->second.second.asDbl; };
    double x = 0, y = 0; bool judge = true; const bool gx = good(L"StageXPosition", x, judge), gy = good(L"StageYPosition", y, judge); if (judge) { st = make_tuple(0.125, 0.25); const bool b = m->TryGetStagePositionFromTags(&st); g.cls(b ? "stage-position" : "no-stage-position"); PBT_REQUIRE("stage", b == (gx && gy) && st == (b ? make_tuple(x, y) : make_tuple(0.125, 0.25)), "stage position is reported as ", b, " ", get<0>(st), ",", get<1>(st), " for ", text); }
    s = L"?"; const bool bf = m->TryGetAttachmentDataFormat(&s); PBT_REQUIRE("format", bf == hasFmt && s == (hasFmt ? fmt : L"?"), "attachment format is reported as ", bf, " ", show(s), " for ", text);
    auto acc = CreateSubBlockAttachmentAccessor(sb, g.coin() ? m : nullptr); PBT_REQUIRE("container", acc->HasChunkContainer() == (hasFmt && fmt == L"CHUNKCONTAINER"), "chunk container ", acc->HasChunkContainer(), " for ", text);
    Node doc; doc.kids.push_back(root); xt::same("tree", m->GetChildNodeReadonly(utf8(root.name).c_str()).get(), root, "root"); xt::byPath(g, "path", m.get(), doc, 4);
    // the XML given back means the same
    const string again = m->GetXml(); auto m2 = CreateSubBlockMetadataFromSubBlock(storedTile(g, bytesOf(again), {}).get()); PBT_REQUIRE("get-xml", m2->IsXmlValid(), "the delivered XML is malformed: ", again); bool mixed = false; function<void(const Node&)> scan = [&](const Node& q) { mixed = mixed || (q.hasText && !q.kids.empty()); for (auto& k : q.kids) scan(k); }; scan(root); if (!mixed) xt::same("get-xml", m2->GetChildNodeReadonly(utf8(root.name).c_str()).get(), root, "root of the delivered XML");
}

static void chunks(Gen& g)
{
    struct C { Bytes guid, data; }; vector<C> cs; const int n = (int)g.range(1, 5); int mask = -1; Mask mk; string kind; Bytes mp;
    for (int k = 0; k < n; ++k)
    {
        C c; c.guid = g.bytes(16); c.data = g.bytes(g.chance(1, 8) ? 0 : (size_t)g.range(1, 60));
        if (g.chance(1, 2)) { c.guid = maskGuid(); if (g.chance(1, 10)) c.guid[g.below(16)] ^= (uint8_t)(1 << g.below(8)); else if (mask < 0) { mask = k; mk = genMask(g, (int)g.range(1, 30), (int)g.range(1, 12)); mp = maskPayload(mk, g.chance(1, 3) ? (int)g.range(1, 5) : 0, g.coin() ? 0xff : 0); c.data = mp; } }
        cs.push_back(c);
    }
    // what the mask's chunk holds
    uint32_t W = (uint32_t)mk.w, H = (uint32_t)mk.h, type = 0, stride = 0; size_t minSize = 0; bool general = mask >= 0, uncompressed = general, bitmap = general;
    auto set32 = [](Bytes& b, size_t p, uint32_t v) { for (int k = 0; k < 4; ++k) b[p + (size_t)k] = (uint8_t)(v >> (8 * k)); }; auto get32 = [](const Bytes& b, size_t p) { uint32_t v = 0; for (int k = 3; k >= 0; --k) v = v << 8 | b[p + (size_t)k]; return v; };
    if (mask >= 0)
    {
        Bytes& b = cs[(size_t)mask].data; const uint32_t line = (W + 7) / 8;
        switch (g.weighted({ 6, 1, 1, 1, 1, 1, 1 })) { case 0: kind = "mask"; break; case 1: b.resize((size_t)g.range(0, 15)); kind = "mask-head-cut"; break; case 2: set32(b, 8, (uint32_t)g.range(1, 3)); kind = "mask-other-type"; break; case 3: set32(b, (size_t)g.below(2) * 4, g.chance(1, 2) ? 0 : (uint32_t)(g.seed64() | 0x10000000)); kind = "mask-wrong-size"; break; case 4: set32(b, 12, g.chance(1, 2) ? (uint32_t)g.range(0, line) : (uint32_t)(g.seed64() | 0x1000)); kind = "mask-wrong-stride"; break; case 5: b.resize((size_t)g.range(16, (int64_t)b.size())); kind = "mask-cut"; break; default: { Bytes e = g.bytes((size_t)g.range(1, 30)); b.insert(b.end(), e.begin(), e.end()); kind = "mask-surplus"; } }
        if (b.size() < 12) general = uncompressed = bitmap = false; else { W = get32(b, 0); H = get32(b, 4); type = get32(b, 8); if (type != 0 || b.size() < 16) uncompressed = bitmap = false; else { stride = get32(b, 12); const uint64_t l = ((uint64_t)W + 7) / 8; bitmap = W && H && stride >= l && b.size() - 16 >= (uint64_t)(H - 1) * stride + l; } } (void)minSize;
    }
    Bytes att; for (auto& c : cs) { Bytes b = chunk(c.guid, c.data); att.insert(att.end(), b.begin(), b.end()); }
    // chunks as delivered: at least 21 bytes must be left for a further chunk
    size_t tail = 0; int badAt = -1; if (g.chance(1, 4)) { Bytes e = g.bytes(tail = (size_t)g.range(1, 20)); att.insert(att.end(), e.begin(), e.end()); } else if (g.chance(1, 5)) { badAt = (int)g.below(cs.size()); size_t o = 0; for (int k = 0; k < badAt; ++k) o += 20 + cs[(size_t)k].data.size(); const uint64_t rest = att.size() - o - 20; set32(att, o + 16, g.chance(1, 3) ? UINT32_MAX : (uint32_t)(rest + (uint64_t)g.range(1, 50))); } else if (g.chance(1, 12)) { att.resize((size_t)g.range(0, 20)); badAt = 0; }
    const bool container = g.chance(9, 10); g.cls(!container ? "no-container" : badAt >= 0 ? "damaged-container" : kind.empty() ? "no-mask" : kind); g.nontrivial();
    vector<pair<Bytes, pair<size_t, size_t>>> want; { size_t o = 0; for (size_t k = 0; k < cs.size(); ++k) { if (badAt == (int)k) break; if (k && att.size() < o + 21) break; want.push_back({ cs[k].guid, { o + 20, cs[k].data.size() } }); o += 20 + cs[k].data.size(); } }
    if (g.tracing()) { for (auto& c : cs) g.d() << " chunk " << hex(c.guid, 16) << ":" << c.data.size(); g.d() << " mask " << mask << " " << kind << " tail " << tail << " bad " << badAt << " container " << container << " " << hex(att, 200); }
    if (badAt > 0) { size_t o = 0; for (int k = 0; k < badAt; ++k) o += 20 + cs[(size_t)k].data.size(); if (att.size() < o + 21) badAt = -1; } // too short to be looked at
    if (badAt < 0 && att.size() < 21) { badAt = 0; want.clear(); }
    auto sb = storedTile(g, container ? bytesOf(maskXml()) : g.coin() ? Bytes() : bytesOf("<METADATA/>"), att); auto a = CreateSubBlockAttachmentAccessor(sb, g.coin() ? CreateSubBlockMetadataFromSubBlock(sb.get()) : nullptr);
    PBT_REQUIRE("container", a->HasChunkContainer() == container, "chunk container reported: ", a->HasChunkContainer());
    vector<pair<Bytes, pair<size_t, size_t>>> got; auto asBytes = [](const GUID& q) { Bytes b; put32(b, q.Data1); b.push_back((uint8_t)q.Data2); b.push_back((uint8_t)(q.Data2 >> 8)); b.push_back((uint8_t)q.Data3); b.push_back((uint8_t)(q.Data3 >> 8)); for (auto c : q.Data4) b.push_back(c); return b; };
    bool threw = false, res = false; try { res = a->EnumerateChunksInChunkContainer([&](int i, const ISubBlockAttachmentAccessor::ChunkInfo& c) { PBT_REQUIRE("chunks", i == (int)got.size(), "chunk index ", i); got.push_back({ asBytes(c.guid), { c.offset, c.size } }); return true; }); } catch (LibCZIException&) { threw = true; }
    if (!container) { PBT_REQUIRE("chunks", threw && got.empty(), "chunks are delivered where no container is announced"); PBT_REQUIRE("mask-error", throwsCzi([&] { a->GetValidPixelMaskFromChunkContainer(); }) && throwsCzi([&] { a->GetValidPixelMaskAsUncompressedBitonalBitmap(); }) && throwsCzi([&] { a->CreateBitonalBitmapFromMaskInfo(); }), "a mask is delivered where no container is announced"); return; }
    // a damaged size in the middle may make the remainder unreadable, but what is delivered must be stored there
    PBT_REQUIRE("chunks", got == want, got.size(), " chunks are delivered, stored were ", want.size(), " (or they differ)"); PBT_REQUIRE("chunks", threw == (badAt >= 0), "damaged container is ", threw ? "" : "not ", "reported as an error"); if (!threw) PBT_REQUIRE("chunks", res, "enumeration reports that nothing was delivered");
    if (!want.empty()) { const size_t stop = (size_t)g.range(1, (int64_t)want.size()); size_t c = 0; a->EnumerateChunksInChunkContainer([&](int, const ISubBlockAttachmentAccessor::ChunkInfo&) { return ++c < stop; }); PBT_REQUIRE("chunks", c == stop, "enumeration does not stop when asked to"); }
    if (mask >= 0 && (size_t)mask >= want.size()) general = uncompressed = bitmap = false;
    const Bytes* b = mask >= 0 ? &cs[(size_t)mask].data : nullptr;
    try { const auto i = a->GetValidPixelMaskFromChunkContainer(); PBT_REQUIRE("mask", general, "a mask is delivered though there is none"); PBT_REQUIRE("mask", i.width == W && i.height == H && i.type_of_representation == type && i.size_data == b->size() - 12 && (i.size_data == 0 || memcmp(i.data.get(), b->data() + 12, i.size_data) == 0), "the mask information differs from what was stored (", i.width, "x", i.height, " type ", i.type_of_representation, " ", i.size_data, " bytes)"); } catch (LibCZIException& e) { PBT_REQUIRE("mask", !general, "the mask is refused: ", e.what()); }
    try { const auto i = a->GetValidPixelMaskAsUncompressedBitonalBitmap(); PBT_REQUIRE("mask", uncompressed, "an uncompressed mask is delivered though there is none"); PBT_REQUIRE("mask", i.width == W && i.height == H && i.stride == stride && i.size_data == b->size() - 16 && (i.size_data == 0 || memcmp(i.data.get(), b->data() + 16, i.size_data) == 0), "the uncompressed mask differs from what was stored (", i.width, "x", i.height, " stride ", i.stride, " ", i.size_data, " bytes)"); } catch (LibCZIException& e) { PBT_REQUIRE("mask", !uncompressed, "the uncompressed mask is refused: ", e.what()); }
    shared_ptr<IBitonalBitmapData> bm; try { bm = a->CreateBitonalBitmapFromMaskInfo(); PBT_REQUIRE("mask", bitmap, "a bitmap of the mask is delivered though its data do not fit (", W, "x", H, " stride ", stride, " with ", b->size() - 16, " bytes)"); } catch (LibCZIException& e) { PBT_REQUIRE("mask", !bitmap, "the bitmap of the mask is refused: ", e.what()); }
    if (bm)
    {
        a.reset(); sb.reset(); PBT_REQUIRE("mask-bits", bm->GetWidth() == W && bm->GetHeight() == H, "size of the mask is ", bm->GetWidth(), "x", bm->GetHeight());
        const auto lk = bm->Lock(); for (uint32_t y = 0; y < H; ++y) for (uint32_t x = 0; x < W; ++x) { const bool v = ((*b)[16 + (size_t)y * stride + x / 8] >> (7 - x % 8)) & 1; PBT_REQUIRE("mask-bits", ((static_cast<const uint8_t*>(lk.ptrData)[(size_t)y * lk.stride + x / 8] >> (7 - x % 8)) & 1) == v, "mask pixel ", x, ",", y, " is wrong"); } bm->Unlock();
    }
}

/// metadata built with the helper for sub-block metadata
static void built(Gen& g)
{
    vector<pair<string, wstring>> tags; const int n = (int)g.range(0, 5); for (int k = 0; k < n; ++k) tags.push_back({ g.of<string>({ "StageXPosition", "StageYPosition", "A", "B", "Focus" }), g.coin() ? xt::genText(g) : xt::genNum(g).text }); map<string, wstring> last; for (auto& t : tags) last[t.first] = t.second;
    auto bld = Utils::CreateSubBlockMetadata(g.chance(1, 10) && n == 0 ? nullptr : function<bool(int, tuple<string, string>&)>([&](int k, tuple<string, string>& t) { PBT_REQUIRE("builder", k <= (int)tags.size(), "asked for tag ", k); if (k == (int)tags.size()) return false; t = make_tuple(tags[(size_t)k].first, utf8(tags[(size_t)k].second)); return true; }));
    const string text = bld->GetXml(g.coin()); if (g.tracing()) g.d() << text; auto sb = storedTile(g, bytesOf(text), {}); auto m = CreateSubBlockMetadataFromSubBlock(sb.get()); PBT_REQUIRE("builder", m->IsXmlValid(), "the XML built is malformed: ", text);
    for (auto& nm : { "StageXPosition", "StageYPosition", "A", "B", "Focus" }) { wstring s = L"?"; const bool b = m->TryGetTagAsString(wstring(nm, nm + strlen(nm)), &s); PBT_REQUIRE("builder", b == (last.count(nm) != 0) && s == (b ? last[nm] : L"?"), "tag ", nm, " reads back as ", b, " ", show(s), " from ", text); } if (n > 1) g.nontrivial();
}

int main(int argc, char** argv)
{
    pbt::Config c; c.property = "P25"; c.rule = "every stored piece of metadata or attachment with at least one tag, chunk or malformation";
    c.assumptions = { "values that consist of blanks only, and line breaks in attribute values, are not preserved by XML and not generated" };
    c.subs = { { "xml", 9000, 200000, xml }, { "chunks", 30000, 600000, chunks }, { "built", 4000, 60000, built } };
    return pbt::main(argc, argv, c);
}
