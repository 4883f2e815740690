// P26: coordinate frames and open policies
#include "compose.hpp"
#include "rawczi.hpp"
using namespace cmp;
using namespace std;
typedef CZIFrameOfReference F;
typedef ICZIReader::OpenOptions OO;

class RwInfo : public CCziReaderWriterInfo
{
    F f_;
public:
    explicit RwInfo(F f) : f_(f) {}
    CZIFrameOfReference GetDefaultFrameOfReference() const override { return f_; }
};
static const char* fname(F f) { switch (f) { case F::Invalid: return "Invalid"; case F::Default: return "Default"; case F::RawSubBlockCoordinateSystem: return "Raw"; case F::PixelCoordinateSystem: return "Pixel"; } return "?"; }
static F genFrame(Gen& g) { return g.of<F>({ F::RawSubBlockCoordinateSystem, F::PixelCoordinateSystem, F::Default }); }
static F plain(F f, F def) { return f == F::Default ? def : f; }

struct Opened { shared_ptr<ISubBlockRepository> repo; F def; string how; };
static Opened open(Gen& g, const shared_ptr<MemStream>& file)
{
    Opened o; const F d = g.of<F>({ F::Invalid, F::Default, F::RawSubBlockCoordinateSystem, F::PixelCoordinateSystem });
    o.def = d == F::PixelCoordinateSystem ? d : F::RawSubBlockCoordinateSystem;
    if (g.chance(1, 3))
    {
        auto rw = CreateCZIReaderWriter(); auto s = make_shared<MemStream>(file->b);
        if (d == F::Invalid && g.coin()) rw->Create(s); else rw->Create(s, make_shared<RwInfo>(d));
        o.repo = rw; o.how = "editor";
    }
    else
    {
        OO oo; oo.default_frame_of_reference = d;
        if (g.coin()) { oo.lax_subblock_coordinate_checks = false; oo.ignore_sizem_for_pyramid_subblocks = g.coin(); }
        o.repo = d == F::Invalid && g.coin() ? openReader(file) : openReader(file, &oo); o.how = "reader";
    }
    o.how += pbt::cat(" with default frame ", fname(d));
    return o;
}
static bool layer0Origin(const Doc& d, int& x, int& y)
{
    bool any = false;
    for (auto& s : d.sbs) if (isLayer0(s)) { if (!any) { x = s.x; y = s.y; any = true; } x = min(x, s.x); y = min(y, s.y); }
    return any;
}

// ------------------------------------------------------------------------------------- conversions
static void convert(Gen& g)
{
    DocGen dg; dg.maxTiles = 8; dg.maxAtts = 0; dg.maxData = 8; dg.meta = false; dg.allowEdgeCoords = false;
    Doc d = genDoc(g, dg);
    for (auto& s : d.sbs)
    {
        const int far = g.chance(1, 4) ? 500000000 : 2000;
        s.x = (int)g.range0(-far, far); s.y = (int)g.range0(-far, far);
    }
    auto file = writeDoc(d); auto o = open(g, file);
    for (auto& s : d.sbs) g.d() << "\n  " << str(s);
    g.d() << "\n " << o.how;
    int ox = 0, oy = 0; const bool any = layer0Origin(d, ox, oy);
    if (any && (ox != 0 || oy != 0)) g.nontrivial();
    g.cls(any ? "full-resolution tiles" : "no full-resolution tile");
    for (int q = (int)g.range(1, 5); q > 0; --q)
    {
        const int lim = 500000000;
        const IntRect r{ (int)g.range0(-lim, lim), (int)g.range0(-lim, lim), g.chance(1, 6) ? 0 : (int)g.size(1, 500000000), g.chance(1, 6) ? 0 : (int)g.size(1, 500000000) };
        F a = genFrame(g), b = genFrame(g);
        const bool bad = g.chance(1, 10); if (bad) { const F w = g.coin() ? F::Invalid : (F)g.range(4, 255); (g.coin() ? a : b) = w; }
        const string what = pbt::cat(o.how, ": (", r.x, ",", r.y, ",", r.w, "x", r.h, ") from ", fname(a), " to ", fname(b));
        IntPointAndFrameOfReference p; IntRectAndFrameOfReference q2; bool thrown = false, thrown2 = false;
        try { p = o.repo->TransformPoint({ a, { r.x, r.y } }, b); } catch (exception&) { thrown = true; }
        try { q2 = o.repo->TransformRectangle({ a, r }, b); } catch (exception&) { thrown2 = true; }
        if (bad) { PBT_REQUIRE("bad-frame", thrown && thrown2, what, ": accepted"); g.cls("invalid frame"); continue; }
        PBT_REQUIRE("convert", !thrown && !thrown2, what, ": reported an error");
        const F pa = plain(a, o.def), pb = plain(b, o.def);
        PBT_REQUIRE("frame", p.frame_of_reference == pb && q2.frame_of_reference == pb, what, ": result is in frame ", fname(p.frame_of_reference), "/", fname(q2.frame_of_reference));
        if (any || pa == pb)
        {
            const int s = pa == pb ? 0 : pa == F::PixelCoordinateSystem ? 1 : -1;
            PBT_REQUIRE("convert", p.point.x == r.x + s * ox && p.point.y == r.y + s * oy, what, ": gives point (", p.point.x, ",", p.point.y, "), origin of the full-resolution tiles is (", ox, ",", oy, ")");
            PBT_REQUIRE("convert", q2.rectangle.x == r.x + s * ox && q2.rectangle.y == r.y + s * oy && q2.rectangle.w == r.w && q2.rectangle.h == r.h, what, ": gives rectangle (", q2.rectangle.x, ",", q2.rectangle.y, ",", q2.rectangle.w, "x", q2.rectangle.h, "), origin (", ox, ",", oy, ")");
        }
        const auto p2 = o.repo->TransformPoint(p, a); const auto r2 = o.repo->TransformRectangle(q2, a);
        PBT_REQUIRE("convert-back", p2.point.x == r.x && p2.point.y == r.y && p2.frame_of_reference == pa, what, ": and back gives point (", p2.point.x, ",", p2.point.y, ")");
        PBT_REQUIRE("convert-back", r2.rectangle.x == r.x && r2.rectangle.y == r.y && r2.rectangle.w == r.w && r2.rectangle.h == r.h, what, ": and back gives rectangle (", r2.rectangle.x, ",", r2.rectangle.y, ",", r2.rectangle.w, "x", r2.rectangle.h, ")");
        if (pa != pb) g.cls("translation");
    }
}

// ------------------------------------------------------------------------------------- accessors
static void compose(Gen& g)
{
    POpts po; po.pyramid = g.coin(); po.mixedScenes = false; po.maxTiles = 8;
    PDoc p = genPDoc(g, po); auto o = open(g, p.file); auto ref = openReader(p.file);
    g.d() << describe(p) << "\n " << o.how;
    int ox = 0, oy = 0; if (!layer0Origin(p.doc, ox, oy)) throw pbt::Discard();
    for (int q = (int)g.range(1, 4); q > 0; --q)
    {
        auto plane = genPlane(g, p); CDimCoordinate co = toCoord(plane); const IntRect roi = genRoi(g, p); const int kind = (int)g.below(3), mode = (int)g.below(3);
        const F f = genFrame(g); const F pf = plain(f, o.def);
        IntRect rf = roi; if (pf == F::PixelCoordinateSystem) { rf.x -= ox; rf.y -= oy; }
        const PixelType pt = genType(g); const Bg bg{ false, 0.2f, 0.4f, 0.6f };
        ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo pli{ (uint8_t)p.pyrFactor, (uint8_t)g.range(0, p.maxLayer + 1) };
        const float zoom = (float)g.range(100, 1000) / 1000.f;
        Img want, got; bool e1 = false, e2 = false; string m1, m2;
        const string what = pbt::cat(o.how, ": accessor ", kind, " form ", mode, " region (", rf.x, ",", rf.y, ",", rf.w, "x", rf.h, ") in frame ", fname(f), ", raw (", roi.x, ",", roi.y, ")");
        g.d() << "\n " << what << " " << dimsStr(plane);
        auto run = [&](const shared_ptr<ISubBlockRepository>& repo, bool framed, Img& out)
        {
            const IntRectAndFrameOfReference fr{ f, rf }; const IntPointAndFrameOfReference fp{ f, { rf.x, rf.y } };
            if (kind == 0)
            {
                auto a = dynamic_pointer_cast<ISingleChannelTileAccessor>(CreateAccesor(repo, AccessorType::SingleChannelTileAccessor)); ISingleChannelTileAccessor::Options op; op.Clear(); op.backGroundColor = toColor(bg);
                if (mode == 0) out = fromBitmap(framed ? a->Get(fr, &co, &op) : a->Get(roi, &co, &op));
                else if (mode == 1) out = fromBitmap(framed ? a->Get(pt, fr, &co, &op) : a->Get(pt, roi, &co, &op));
                else { UserBitmap u(pt, (uint32_t)roi.w, (uint32_t)roi.h, 3, 0x5A); if (framed) a->Get(&u, fp, &co, &op); else a->Get(&u, roi.x, roi.y, &co, &op); out = u.get(); }
            }
            else if (kind == 1)
            {
                auto a = dynamic_pointer_cast<ISingleChannelPyramidLayerTileAccessor>(CreateAccesor(repo, AccessorType::SingleChannelPyramidLayerTileAccessor)); ISingleChannelPyramidLayerTileAccessor::Options op; op.Clear(); op.backGroundColor = toColor(bg);
                if (mode == 0) out = fromBitmap(framed ? a->Get(fr, &co, pli, &op) : a->Get(roi, &co, pli, &op));
                else if (mode == 1) out = fromBitmap(framed ? a->Get(pt, fr, &co, pli, &op) : a->Get(pt, roi, &co, pli, &op));
                else { UserBitmap u(pt, (uint32_t)roi.w, (uint32_t)roi.h, 3, 0x5A); if (framed) a->Get(&u, fp, &co, pli, &op); else a->Get(&u, roi.x, roi.y, &co, pli, &op); out = u.get(); }
            }
            else
            {
                auto a = dynamic_pointer_cast<ISingleChannelScalingTileAccessor>(CreateAccesor(repo, AccessorType::SingleChannelScalingTileAccessor)); ISingleChannelScalingTileAccessor::Options op; op.Clear(); op.backGroundColor = toColor(bg);
                if (mode == 0) out = fromBitmap(framed ? a->Get(fr, &co, zoom, &op) : a->Get(roi, &co, zoom, &op));
                else if (mode == 1) out = fromBitmap(framed ? a->Get(pt, fr, &co, zoom, &op) : a->Get(pt, roi, &co, zoom, &op));
                else { const IntSize s = a->CalcSize(roi, zoom); if (!s.w || !s.h) throw pbt::Discard(); UserBitmap u(pt, s.w, s.h, 3, 0x5A); if (framed) a->Get(&u, fr, &co, zoom, &op); else a->Get(&u, roi, &co, zoom, &op); out = u.get(); }
            }
        };
        try { run(ref, false, want); } catch (pbt::Fail&) { throw; } catch (exception& e) { e1 = true; m1 = e.what(); }
        try { run(o.repo, true, got); } catch (pbt::Fail&) { throw; } catch (exception& e) { e2 = true; m2 = e.what(); }
        PBT_REQUIRE("compose", e1 == e2, what, ": error '", m2, "', in the raw frame '", m1, "'");
        if (e1) { g.cls("refused"); continue; }
        PBT_REQUIRE("compose", want.pt == got.pt && want.w == got.w && want.h == got.h && want.px == got.px, what, ": differs from the image of the region in the raw frame");
        set<uint8_t> vals(want.px.begin(), want.px.end());
        g.cls(pf == F::PixelCoordinateSystem ? "pixel frame" : "raw frame");
        if (pf == F::PixelCoordinateSystem && (ox != 0 || oy != 0) && vals.size() > 8) g.nontrivial();
        // a frame that does not exist
        if (g.chance(1, 8) && kind == 0)
        {
            auto a = dynamic_pointer_cast<ISingleChannelTileAccessor>(CreateAccesor(o.repo, AccessorType::SingleChannelTileAccessor)); bool thrown = false;
            try { a->Get(pt, IntRectAndFrameOfReference{ F::Invalid, rf }, &co, nullptr); } catch (exception&) { thrown = true; }
            PBT_REQUIRE("bad-frame", thrown, o.how, ": a region in an invalid frame was accepted");
        }
    }
}

// ------------------------------------------------------------------------------------- policies
struct DirEntry { size_t off; int n; };
static vector<DirEntry> dirEntries(const Bytes& b)
{
    vector<DirEntry> v; const size_t dir = (size_t)rawczi::i64(b, 32 + 52); const int n = rawczi::i32(b, dir + 32); size_t o = dir + 32 + 128;
    for (int i = 0; i < n; ++i) { const int k = rawczi::i32(b, o + 28); v.push_back({ o, k }); o += 32 + 20 * (size_t)k; }
    return v;
}
static void put(Bytes& b, size_t o, int32_t v) { memcpy(&b[o], &v, 4); }
static size_t dimAt(size_t entry, int k) { return entry + 32 + 20 * (size_t)k; }

static void strict(Gen& g)
{
    DocGen dg; dg.maxTiles = 6; dg.maxAtts = 2; dg.maxData = 20; dg.meta = false;
    Doc d = genDoc(g, dg); if (d.sbs.empty()) throw pbt::Discard();
    auto file = writeDoc(d); d.sbs = readDoc(*openReader(file)).sbs; Bytes& b = file->b; auto ents = dirEntries(b);
    bool laxOk = true, xyMissing = false, otherSize = false, mPlain = false, mPyr = false;
    string what;
    const int changes = g.chance(1, 6) ? 0 : (int)g.range(1, 3);
    for (int c = 0; c < changes; ++c)
    {
        auto& e = g.pick(ents); const int k = (int)g.range(0, e.n - 1); const size_t o = dimAt(e.off, k); const char dim = (char)b[o];
        const int32_t v = g.of<int32_t>({ 0, 2, 3, 17, -1, INT32_MAX, INT32_MIN });
        if (dim == 'X' || dim == 'Y')
        {
            if (!g.chance(1, 3)) { --c; if (g.chance(1, 40)) break; continue; }
            // make it another dimension of the same size
            b[o] = (uint8_t)g.of<char>({ 'Z', 'C', 'B', 'M' }); what += pbt::cat(" ", dim, "->", (char)b[o]);
        }
        else if (g.coin() || dim == 'M') { put(b, o + 8, v); what += pbt::cat(" size of ", dim, "=", v); }
        else { put(b, o + 16, v); what += pbt::cat(" stored size of ", dim, "=", v); }
    }
    // what the document is now
    for (auto& e : ents)
    {
        bool x = false, y = false, mBad = false; int w = -1, h = -1, sw = -1, sh = -1; 
        for (int k = 0; k < e.n; ++k)
        {
            const size_t o = dimAt(e.off, k); const char c = (char)b[o]; const int32_t size = rawczi::i32(b, o + 8), st = rawczi::i32(b, o + 16);
            if (c == 'X') { x = true; w = size; sw = st; } else if (c == 'Y') { y = true; h = size; sh = st; }
            else if (c == 'M') { if (size != 1) mBad = true; }
            else if (size != 1 || st != 1) otherSize = true;
        }
        if (!x || !y) { xyMissing = true; }
        if (mBad) { if (!x || !y) mPlain = true; else if (w == sw && h == sh) mPlain = true; else mPyr = true; }
    }
    if (!xyMissing && !what.empty()) g.nontrivial();
    g.d() << "changes:" << what; for (auto& s : d.sbs) g.d() << "\n  " << str(s);
    OO lax, str1, str2; lax.subBlockDirectoryInfoPolicy = OO::SubBlockDirectoryInfoPolicy::IgnoreDiscrepancy; str1 = str2 = lax;
    lax.ignore_sizem_for_pyramid_subblocks = g.coin(); str1.lax_subblock_coordinate_checks = str2.lax_subblock_coordinate_checks = false; str2.ignore_sizem_for_pyramid_subblocks = true;
    const bool strictOk = !xyMissing && !otherSize && !mPlain && !mPyr, strict2Ok = !xyMissing && !otherSize && !mPlain;
    auto attempt = [&](const char* name, const OO* oo, bool expect)
    {
        shared_ptr<ICZIReader> r = CreateCZIReader(); bool ok = true; string err;
        try { r->Open(file, oo); } catch (exception& e) { ok = false; err = e.what(); }
        PBT_REQUIRE("policy", ok == expect, name, " on a document with", what.empty() ? " no changes" : what, ": ", ok ? "accepted" : pbt::cat("refused ('", err, "')"));
        g.cls(pbt::cat(name, ok ? " accepts" : " refuses"));
        if (!ok)
        {
            bool thrown = false; try { r->GetStatistics(); } catch (exception&) { thrown = true; }
            PBT_REQUIRE("not-open", thrown, name, ": a reader whose opening failed offers its contents");
            return;
        }
        if (xyMissing) return;
        size_t n = 0;
        r->EnumerateSubBlocks([&](int i, const SubBlockInfo& info)
            {
                ++n; Sb s = fromInfo(info); const Sb& e = d.sbs[(size_t)i];
                PBT_REQUIRE("policy-content", s.dims == e.dims && s.mValid == e.mValid && s.m == e.m && s.x == e.x && s.y == e.y && s.w == e.w && s.h == e.h && s.pw == e.pw && s.ph == e.ph, name, ": tile ", i, " is ", str(s), " instead of ", str(e));
                return true;
            });
        PBT_REQUIRE("policy-content", n == d.sbs.size(), name, ": ", n, " tiles");
        for (size_t i = 0; i < d.sbs.size(); ++i) { Sb s = readSb(r->ReadSubBlock((int)i)); PBT_REQUIRE("policy-content", s.data == d.sbs[i].data && s.meta == d.sbs[i].meta && s.att == d.sbs[i].att, name, ": content of tile ", i, " differs"); }
    };
    (void)laxOk;
    attempt("lax", &lax, true); attempt("strict", &str1, strictOk); attempt("strict except M of pyramid tiles", &str2, strict2Ok);
}

static void discrepancy(Gen& g)
{
    DocGen dg; dg.maxTiles = 5; dg.maxAtts = 1; dg.maxData = 20; dg.meta = false; dg.bitmapShaped = true;
    Doc d = genDoc(g, dg); if (d.sbs.empty()) throw pbt::Discard();
    auto file = writeDoc(d); d.sbs = readDoc(*openReader(file)).sbs; Bytes& b = file->b; auto ents = dirEntries(b);
    vector<Sb> hdr = d.sbs; vector<string> what(d.sbs.size());
    for (size_t i = 0; i < d.sbs.size(); ++i)
    {
        if (!g.chance(2, 3)) continue;
        const size_t seg = (size_t)rawczi::i64(b, ents[i].off + 6); const size_t ent = seg + 32 + 16; Sb& h = hdr[i];
        const int nch = g.chance(1, 5) ? 2 : 1;
        for (int c = 0; c < nch; ++c)
        {
            const int k = (int)g.range(0, ents[i].n - 1); const size_t o = dimAt(ent, k); const char dim = (char)b[o];
            const int kind = (int)g.below(7); const int32_t cur = rawczi::i32(b, o + 4); const int32_t delta = g.of<int32_t>({ 1, -1, 256, 65536 });
            if (g.chance(1, 6)) { h.pyr = g.of<SubBlockPyramidType>({ SubBlockPyramidType::None, SubBlockPyramidType::SingleSubBlock, SubBlockPyramidType::MultiSubBlock }); b[ent + 22] = h.pyr == SubBlockPyramidType::None ? 0 : h.pyr == SubBlockPyramidType::SingleSubBlock ? 1 : 2; what[i] += pbt::cat(" pyramid type ", (int)b[ent + 22]); }
            else if (kind == 0) { h.pt = g.of<PixelType>({ PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Gray32Float, PixelType::Bgr48 }); put(b, ent + 2, (int32_t)h.pt); what[i] += pbt::cat(" pixel type ", (int)h.pt); }
            else if (kind == 1) { h.comp = g.of<int32_t>({ 0, 4, 5, 6, 1, 999 }); put(b, ent + 18, h.comp); what[i] += pbt::cat(" compression ", h.comp); }
            else if (dim == 'X' || dim == 'Y')
            {
                const int f = (int)g.below(3); const size_t at = o + (f == 0 ? 4 : f == 1 ? 8 : 16); const int32_t v = rawczi::i32(b, at);
                const int64_t n = (int64_t)v + delta; if (n > INT32_MAX || n < INT32_MIN) continue; put(b, at, (int32_t)n);
                if (dim == 'X') (f == 0 ? h.x : f == 1 ? h.w : h.pw) = (int)n; else (f == 0 ? h.y : f == 1 ? h.h : h.ph) = (int)n;
                what[i] += pbt::cat(" ", dim, f == 0 ? " start " : f == 1 ? " size " : " stored size ", n);
            }
            else if (dim == 'M')
            {
                if (kind == 2) { h.mValid = false; h.m = 0; put(b, o + 4, INT32_MAX); what[i] += " no M"; }
                else { const int64_t n = (int64_t)cur + delta; if (n >= INT32_MAX || n < INT32_MIN) continue; put(b, o + 4, (int32_t)n); h.m = (int)n; h.mValid = true; what[i] += pbt::cat(" M ", n); }
            }
            else
            {
                DimensionIndex di = DimensionIndex::C; for (auto a : allDims()) if (Utils::DimensionToChar(a) == dim) di = a;
                if (kind == 3)
                {   // the header names another dimension
                    DimensionIndex nd = g.pick(allDims()); if (h.dims.count(nd)) continue;
                    b[o] = (uint8_t)Utils::DimensionToChar(nd); const int v = h.dims[di]; h.dims.erase(di); h.dims[nd] = v; what[i] += pbt::cat(" ", dim, " is ", (char)b[o]);
                }
                else { const int64_t n = (int64_t)cur + delta; if (n > INT32_MAX || n < INT32_MIN) continue; put(b, o + 4, (int32_t)n); h.dims[di] = (int)n; what[i] += pbt::cat(" ", dim, "=", n); }
            }
        }
    }
    auto differs = [&](size_t i) { const Sb& a = d.sbs[i]; const Sb& h = hdr[i]; return a.pt != h.pt || a.comp != h.comp || a.dims != h.dims || a.mValid != h.mValid || (a.mValid && a.m != h.m) || a.x != h.x || a.y != h.y || a.w != h.w || a.h != h.h || a.pw != h.pw || a.ph != h.ph; };
    for (size_t i = 0; i < d.sbs.size(); ++i) g.d() << "\n  " << str(d.sbs[i]) << " header:" << what[i];
    typedef OO::SubBlockDirectoryInfoPolicy Pol;
    for (int pol = 0; pol < 4; ++pol)
    {
        const bool header = (pol & 1) != 0, ignore = (pol & 2) != 0;
        OO oo; oo.subBlockDirectoryInfoPolicy = (Pol)((header ? 1 : 0) | (ignore ? 0x80 : 0)); oo.lax_subblock_coordinate_checks = g.coin();
        auto r = !header && !ignore && g.coin() ? openReader(file) : openReader(file, &oo);
        const string name = pbt::cat(header ? "header first" : "directory first", ignore ? ", discrepancies ignored" : "");
        r->EnumerateSubBlocks([&](int i, const SubBlockInfo& info) { Sb s = fromInfo(info); Sb e = d.sbs[(size_t)i]; PBT_REQUIRE("enumeration", infoStr(s) == infoStr(e), name, ": tile ", i, " enumerated as ", infoStr(s)); return true; });
        for (size_t i = 0; i < d.sbs.size(); ++i)
        {
            const bool dif = differs(i); shared_ptr<ISubBlock> sb; string err;
            try { sb = r->ReadSubBlock((int)i); } catch (exception& e) { err = e.what(); }
            PBT_REQUIRE("discrepancy", (sb == nullptr) == (dif && !ignore) || (!ignore && hdr[i].pyr != d.sbs[i].pyr), name, ": tile ", i, " whose header has", what[i].empty() ? " no changes" : what[i], ": ", sb ? "accepted" : pbt::cat("refused ('", err, "')"));
            g.cls(sb ? "accepted" : "refused");
            if (dif) g.nontrivial();
            if (!sb) continue;
            Sb got = readSb(sb); const Sb& e = header ? hdr[i] : d.sbs[i]; const Sb& cmpE = e;
            PBT_REQUIRE("precedence", infoStr(got) == infoStr(cmpE), name, ": tile ", i, " is ", infoStr(got), " instead of ", infoStr(e), " (header has", what[i], ")");
            PBT_REQUIRE("precedence-content", got.data == d.sbs[i].data && got.meta == d.sbs[i].meta && got.att == d.sbs[i].att, name, ": content of tile ", i, " differs");
        }
    }
}

static void reopen(Gen& g)
{
    DocGen dg; dg.maxTiles = 5; dg.maxAtts = 3; dg.maxData = 40;
    auto r = CreateCZIReader();
    for (int k = (int)g.range(2, 4); k > 0; --k)
    {
        Doc d = genDoc(g, dg); if (g.chance(1, 3)) d.atts.clear();
        auto file = writeDoc(d);
        if (d.atts.empty() && g.coin()) { const int64_t z = 0; memcpy(&file->b[32 + 72], &z, 8); }
        if (g.chance(1, 3))
        {   // an attempt that fails
            auto bad = make_shared<MemStream>(file->b); bad->b.resize(g.below(bad->b.size())); const size_t sb = (size_t)rawczi::i64(file->b, 32 + 52); if (bad->b.size() > sb) bad->b.resize(sb + 10);
            bool thrown = false; try { r->Open(bad); } catch (exception&) { thrown = true; }
            PBT_REQUIRE("cut-off", thrown, "a cut-off document was opened");
            g.cls("failed attempt");
        }
        OO oo; oo.default_frame_of_reference = g.of<F>({ F::Invalid, F::Default, F::RawSubBlockCoordinateSystem, F::PixelCoordinateSystem }); const bool given = g.coin();
        r->Open(file, given ? &oo : nullptr);
        bool thrown = false; try { r->Open(file); } catch (exception&) { thrown = true; }
        PBT_REQUIRE("open-twice", thrown, "a reader that is open was opened again");
        Doc got = readDoc(*r); compareContent("reopen", d, got); g.nontrivial();
        PBT_REQUIRE("reopen", r->GetAttachmentCount() == (int)d.atts.size(), "attachments: ", r->GetAttachmentCount(), " instead of ", d.atts.size());
        const F def = given && oo.default_frame_of_reference == F::PixelCoordinateSystem ? F::PixelCoordinateSystem : F::RawSubBlockCoordinateSystem;
        const auto tp = r->TransformPoint({ def, { 12, -7 } }, F::Default);
        PBT_REQUIRE("reopen", tp.frame_of_reference == def && tp.point.x == 12 && tp.point.y == -7, "default frame of the document opened last with ", given ? fname(oo.default_frame_of_reference) : "no options", " is not ", fname(def));
        r->Close();
        auto closed = [&](const char* n, const function<void()>& f) { bool t = false; try { f(); } catch (exception&) { t = true; } PBT_REQUIRE("closed", t, n, " works on a closed reader"); };
        closed("GetStatistics", [&] { r->GetStatistics(); }); closed("GetAttachmentCount", [&] { r->GetAttachmentCount(); }); closed("ReadSubBlock", [&] { r->ReadSubBlock(0); });
        closed("ReadMetadataSegment", [&] { r->ReadMetadataSegment(); }); closed("EnumerateSubBlocks", [&] { r->EnumerateSubBlocks([](int, const SubBlockInfo&) { return true; }); }); closed("GetFileHeaderInfo", [&] { r->GetFileHeaderInfo(); });
        closed("ReadAttachment", [&] { r->ReadAttachment(0); }); closed("EnumerateAttachments", [&] { r->EnumerateAttachments([](int, const AttachmentInfo&) { return true; }); }); closed("CreateAccessor", [&] { r->CreateAccessor(AccessorType::SingleChannelTileAccessor); });
    }
}

int main(int argc, char** argv)
{
    pbt::Config c;
    c.property = "P26";
    c.rule = "frames: the origin is not (0,0) (and the image is not blank); policies: the document was changed; discrepancies: a tile's header differs from its directory entry; reopen: always";
    c.assumptions = { "coordinates and sizes within 5e8, so that no conversion overflows", "the origin of the pixel frame is the upper left corner of the full-resolution tiles; without such tiles only the round trip is judged", "a difference in the pyramid type only is not judged as a discrepancy" };
    c.subs = { { "convert", 60000, 1000000, convert }, { "compose", 12000, 200000, compose }, { "strict", 30000, 500000, strict }, { "discrepancy", 20000, 300000, discrepancy }, { "reopen", 10000, 150000, reopen } };
    return pbt::main(argc, argv, c);
}
