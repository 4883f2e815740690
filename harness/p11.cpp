// P11: the pyramid-layer image shows that layer's tiles
#include "compose.hpp"
using namespace cmp;
using namespace std;
typedef ISingleChannelPyramidLayerTileAccessor Acc;

static void layer(Gen& g)
{
    POpts o; o.pyramid = !g.chance(1, 10); o.maxTiles = 12;
    PDoc p = genPDoc(g, o);
    string how; auto repo = openRepo(g, p, how);
    auto acc = dynamic_pointer_cast<Acc>(CreateAccesor(repo, AccessorType::SingleChannelPyramidLayerTileAccessor));
    auto cache = CreateSubBlockCache();
    g.d() << how << " factor" << p.pyrFactor << describe(p);
    for (int q = (int)g.range(1, 4); q > 0; --q)
    {
        auto plane = genPlane(g, p); IntRect roi = genRoi(g, p);
        const int lay = g.chance(1, 10) ? (int)g.range(0, 6) : (int)g.range(0, p.maxLayer);
        int f = 1; for (int i = 0; i < lay; ++i) f *= p.pyrFactor;
        auto align = [f](int v, int org) { int64_t d = (int64_t)v - org; int64_t k = d >= 0 ? d / f : -((-d + f - 1) / f); return (int)(org + k * f); };
        roi.x = align(roi.x, p.ox); roi.y = align(roi.y, p.oy);
        if (g.chance(1, 3)) { roi.w = (roi.w + f - 1) / f * f; roi.h = (roi.h + f - 1) / f * f; } // otherwise the size is rounded down
        const int w = roi.w / f, h = roi.h / f;
        Acc::Options opt; opt.Clear(); Judge j; j.bg = genBg(g); opt.backGroundColor = toColor(j.bg);
        opt.sortByM = j.sortByM = !g.chance(1, 6); opt.drawTileBorder = j.border = g.chance(1, 10);
        if (g.coin()) opt.subBlockCache = cache;
        opt.onlyUseSubBlockCacheForCompressedData = g.coin();
        string what = pbt::cat("layer ", lay, " ", dimsStr(plane), " roi(", roi.x, ",", roi.y, ",", roi.w, "x", roi.h, ")", opt.subBlockCache ? " cache" : "", opt.sortByM ? "" : " unsorted", j.border ? " border" : "");
        set<int> sel; bool filter = false;
        if (g.chance(1, 4)) { filter = true; opt.sceneFilter = sceneSet(g, sel, what); }
        vector<Placed> pl; set<PixelType> chanTypes, used; bool other = false;
        for (size_t i = 0; i < p.doc.sbs.size(); ++i)
        {
            const Sb& s = p.doc.sbs[i];
            auto c = plane.find(DimensionIndex::C); if (c == plane.end() || (s.dims.count(DimensionIndex::C) ? s.dims.at(DimensionIndex::C) == c->second : !p.bounds.count(DimensionIndex::C))) chanTypes.insert(s.pt);
            if (!onPlane(s, plane)) continue;
            auto sc = s.dims.find(DimensionIndex::S); if (filter && sc != s.dims.end() && !sel.count(sc->second)) continue;
            if (layerOf(p, s) != lay) { other = true; continue; }
            PBT_REQUIRE("oracle", (s.x - roi.x) % f == 0 && (s.y - roi.y) % f == 0, "misaligned tile generated");
            pl.push_back({ (s.x - roi.x) / f, (s.y - roi.y) / f, &p.tiles[i], rankOf(s), (int)i });
        }
        size_t vis = 0, overlap = 0; vector<uint8_t> cov((size_t)w * (size_t)h, 0);
        for (auto& t : pl)
        {
            bool v = false;
            for (int y = max(0, t.y); y < min(h, t.y + t.t->img.h); ++y) for (int x = max(0, t.x); x < min(w, t.x + t.t->img.w); ++x) { v = true; if (cov[(size_t)y * (size_t)w + (size_t)x]++) ++overlap; }
            if (v) { ++vis; used.insert(t.t->img.pt); }
        }
        CDimCoordinate co = toCoord(plane); Acc::PyramidLayerInfo pi{ (uint8_t)p.pyrFactor, (uint8_t)lay };
        const int mode = (int)g.below(3); PixelType want = PixelType::Invalid;
        if (mode > 0) want = (g.coin() && !used.empty()) ? *used.begin() : genType(g);
        bool convertible = true; for (auto t : used) if (mode > 0) convertible = convertible && ref::canCopy(t, want);
        g.d() << "\n " << what << " mode" << mode << " type" << (int)want << ": " << vis << " tiles in view, " << overlap << " pixels overdrawn";
        if (mode == 2 && (w == 0 || h == 0)) continue;
        Img got;
        try
        {
            j.bgKnown = mode == 2 || !j.bg.none;
            if (mode == 0)
            {
                got = fromBitmap(acc->Get(roi, &co, pi, &opt));
                PBT_REQUIRE("type", chanTypes.count(got.pt), what, ": pixel type ", (int)got.pt, " is not the type of a tile of the channel");
                for (auto t : used) convertible = convertible && ref::canCopy(t, got.pt);
            }
            else if (mode == 1) { got = fromBitmap(acc->Get(want, roi, &co, pi, &opt)); PBT_REQUIRE("type", got.pt == want, what, ": bitmap of type ", (int)got.pt, " returned"); }
            else
            {
                UserBitmap u(want, (uint32_t)w, (uint32_t)h, (uint32_t)g.range(0, 9), 0xA7);
                static Img before; before = Img(); before.pt = want; before.w = w; before.h = h; before.px = g.bytes(before.line() * (size_t)h); u.put(before); j.before = &before;
                acc->Get(&u, roi.x, roi.y, &co, pi, &opt); got = u.get(); u.checkSurroundings();
            }
        }
        catch (pbt::Fail&) { throw; }
        catch (exception& e)
        {
            set<PixelType> bad; for (auto a : chanTypes) for (auto t : used) if (!ref::canCopy(t, a)) bad.insert(a);
            PBT_REQUIRE("error", w == 0 || h == 0 || (mode == 0 ? !bad.empty() || chanTypes.empty() || (p.bounds.count(DimensionIndex::C) && !plane.count(DimensionIndex::C)) : !convertible), what, ": reports '", e.what(), "'");
            g.cls("refused"); continue;
        }
        PBT_REQUIRE("size", got.w == w && got.h == h, what, ": bitmap has size ", got.w, "x", got.h);
        if (!convertible) { g.cls("unconvertible"); continue; }
        judge("content", what, got, pl, j);
        g.cls(pbt::cat("layer ", lay));
        if (vis > 0 && lay > 0) g.nontrivial();
        if (vis == 0 && other) g.cls("only other layers");
        if (overlap > 0) g.cls("overlap");
        if (filter) g.cls("scene filter");
        if (g.chance(1, 6)) { ISubBlockCacheControl::PruneOptions po; po.maxSubBlockCount = (uint32_t)g.range(0, 3); cache->Prune(po); }
    }
}

/// impossible layer parameters end in an error (layer 0 may also be delivered)
static void badLayer(Gen& g)
{
    POpts o; o.pyramid = g.coin(); PDoc p = genPDoc(g, o); string how; auto repo = openRepo(g, p, how);
    auto acc = dynamic_pointer_cast<Acc>(CreateAccesor(repo, AccessorType::SingleChannelPyramidLayerTileAccessor));
    auto plane = genPlane(g, p); const IntRect roi = genRoi(g, p); CDimCoordinate co = toCoord(plane);
    Acc::PyramidLayerInfo pi{}; const bool over = g.coin();
    if (over) { pi.minificationFactor = (uint8_t)g.range(2, 255); double v = 1; int n = 0; while (v < 2147483648.0) { v *= pi.minificationFactor; ++n; } pi.pyramidLayerNo = (uint8_t)min<int64_t>(255, n + g.range0(0, 200)); }
    else { pi.minificationFactor = (uint8_t)g.range(0, 1); pi.pyramidLayerNo = g.coin() ? 0 : (uint8_t)g.size(1, 255); }
    g.d() << "factor " << (int)pi.minificationFactor << " layer " << (int)pi.pyramidLayerNo << describe(p); g.nontrivial(); g.cls(over ? "too large" : pi.pyramidLayerNo == 0 ? "layer 0" : "factor below 2");
    Judge j; j.bg = { false, 0.f, 0.f, 0.f }; Acc::Options opt; opt.Clear(); opt.backGroundColor = toColor(j.bg);
    bool thrown = false; Img got;
    vector<Placed> pl; bool conv = true; PixelType want = genType(g);
    for (size_t i = 0; i < p.doc.sbs.size(); ++i) { const Sb& s = p.doc.sbs[i]; if (isLayer0(s) && onPlane(s, plane)) { pl.push_back({ s.x - roi.x, s.y - roi.y, &p.tiles[i], rankOf(s), (int)i }); conv = conv && ref::canCopy(s.pt, want); } }
    try
    {
        if (g.coin()) got = fromBitmap(acc->Get(want, roi, &co, pi, &opt));
        else { UserBitmap u(want, (uint32_t)roi.w, (uint32_t)roi.h, 0, 0xA7); acc->Get(&u, roi.x, roi.y, &co, pi, &opt); got = u.get(); u.checkSurroundings(); }
    }
    catch (pbt::Fail&) { throw; }
    catch (exception&) { thrown = true; }
    PBT_REQUIRE("parameters", thrown || pi.pyramidLayerNo == 0, "minification factor ", (int)pi.minificationFactor, " with layer ", (int)pi.pyramidLayerNo, " was accepted");
    if (!thrown && conv) { PBT_REQUIRE("size", got.w == roi.w && got.h == roi.h, "layer 0: size ", got.w, "x", got.h); judge("content", "layer 0", got, pl, j); }
}

int main(int argc, char** argv)
{
    pbt::Config c;
    c.property = "P11";
    c.rule = "a layer above 0 is requested and tiles of it are in view (or the parameters are invalid)";
    c.assumptions = { "tiles up to 24x20 stored pixels, up to 12 tiles, minification 2 (3 layers) or 3 (2 layers)", "all tiles of a layer lie on one grid with the spacing of the layer's scale and the region starts on that grid", "where several tiles of equal (or without) tile index cover a pixel, any of them may show", "with the tile border option the outermost pixels of a tile are not judged" };
    c.subs = { { "layer", 110000, 700000, layer }, { "parameters", 8000, 60000, badLayer } };
    c.hangIsViolation = true;
    return pbt::main(argc, argv, c);
}
