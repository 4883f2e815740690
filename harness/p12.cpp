// P12: the scaled image resembles the full-resolution image
#include "compose.hpp"
using namespace cmp;
using namespace std;
typedef ISingleChannelScalingTileAccessor Acc;

static float genZoom(Gen& g, const PDoc& p)
{
    switch (g.below(6))
    {
    case 0: return 1.f;
    case 1: { float z = 1; for (int k = (int)g.range(1, 3); k > 0; --k) z /= (float)p.pyrFactor; return z; }
    case 2: { float z = 1; for (int k = (int)g.range(1, 3); k > 0; --k) z /= (float)p.pyrFactor; return z * (float)g.range(900, 1100) / 1000.f; }
    case 3: return (float)g.range(20, 1000) / 1000.f;
    case 4: return 1.f / (float)g.range(1, 12);
    default: return g.chance(1, 3) ? (float)g.range(1001, 2500) / 1000.f : (float)g.range(300, 999) / 1000.f;
    }
}

static void scaled(Gen& g)
{
    POpts o; o.pyramid = g.chance(3, 4); o.mixedScenes = false; o.maxTiles = 12;
    PDoc p = genPDoc(g, o); string how; auto repo = openRepo(g, p, how);
    auto acc = dynamic_pointer_cast<Acc>(CreateAccesor(repo, AccessorType::SingleChannelScalingTileAccessor));
    auto cache = CreateSubBlockCache();
    g.d() << how << describe(p);
    for (int q = (int)g.range(1, 4); q > 0; --q)
    {
        auto plane = genPlane(g, p); const IntRect roi = genRoi(g, p); const float zoom = genZoom(g, p);
        Acc::Options opt; opt.Clear(); Judge j; j.bg = genBg(g); opt.backGroundColor = toColor(j.bg);
        opt.sortByM = j.sortByM = !g.chance(1, 6); opt.useVisibilityCheckOptimization = g.coin();
        if (g.coin()) opt.subBlockCache = cache;
        opt.onlyUseSubBlockCacheForCompressedData = g.coin();
        string what = pbt::cat("zoom ", zoom, " ", dimsStr(plane), " roi(", roi.x, ",", roi.y, ",", roi.w, "x", roi.h, ")", opt.useVisibilityCheckOptimization ? " vis" : "", opt.subBlockCache ? " cache" : "", opt.sortByM ? "" : " unsorted");
        set<int> sel; bool filter = false;
        if (g.chance(1, 4)) { filter = true; opt.sceneFilter = sceneSet(g, sel, what); }
        const IntSize size = acc->CalcSize(roi, zoom); const int w = (int)size.w, h = (int)size.h;
        PBT_REQUIRE("size", fabs(w - (double)roi.w * zoom) <= 1.001 && fabs(h - (double)roi.h * zoom) <= 1.001, what, ": announced size ", w, "x", h);
        vector<Ranked> tiles; const bool sure = scaledTiles(p, plane, roi, zoom, filter ? &sel : nullptr, opt.sortByM, tiles);
        set<PixelType> chanTypes, used; set<int> scenes;
        for (auto& t : tiles) { used.insert(t.t->img.pt); scenes.insert(t.scene); }
        for (auto& s : p.doc.sbs) { auto c = plane.find(DimensionIndex::C); if (c == plane.end() || (s.dims.count(DimensionIndex::C) ? s.dims.at(DimensionIndex::C) == c->second : !p.bounds.count(DimensionIndex::C))) chanTypes.insert(s.pt); }
        CDimCoordinate co = toCoord(plane); const int mode = (int)g.below(3); PixelType want = PixelType::Invalid;
        if (mode > 0) want = (g.coin() && !used.empty()) ? *used.begin() : genType(g);
        bool convertible = true; for (auto t : used) if (mode > 0) convertible = convertible && ref::canCopy(t, want);
        g.d() << "\n " << what << " mode" << mode << " type" << (int)want << " -> " << w << "x" << h << " from " << tiles.size() << " tiles";
        Img got;
        try
        {
            j.bgKnown = mode == 2 || !j.bg.none;
            if (mode == 0)
            {
                got = fromBitmap(acc->Get(roi, &co, zoom, &opt));
                PBT_REQUIRE("type", chanTypes.count(got.pt), what, ": pixel type ", (int)got.pt, " is not the type of a tile of the channel");
                for (auto t : used) convertible = convertible && ref::canCopy(t, got.pt);
            }
            else if (mode == 1) { got = fromBitmap(acc->Get(want, roi, &co, zoom, &opt)); PBT_REQUIRE("type", got.pt == want, what, ": bitmap of type ", (int)got.pt, " returned"); }
            else
            {
                if (w == 0 || h == 0) continue;
                if (g.chance(1, 8))
                {   // wrong size
                    int uw = w, uh = h; switch (g.below(5)) { case 0: ++uw; break; case 1: ++uh; break; case 2: uw > 1 ? --uw : ++uw; break; case 3: uh > 1 ? --uh : ++uh; break; default: ++uw; uh = max(1, uh - 1); break; }
                    UserBitmap u(want, (uint32_t)uw, (uint32_t)uh, 0, 0xA7); bool thrown = false;
                    try { acc->Get(&u, roi, &co, zoom, &opt); } catch (exception&) { thrown = true; }
                    PBT_REQUIRE("wrong-size", thrown, what, ": a bitmap of a wrong size was accepted"); u.checkSurroundings();
                }
                UserBitmap u(want, (uint32_t)w, (uint32_t)h, (uint32_t)g.range(0, 9), 0xA7);
                static Img before; before = Img(); before.pt = want; before.w = w; before.h = h; before.px = g.bytes(before.line() * (size_t)h); u.put(before); j.before = &before;
                acc->Get(&u, roi, &co, zoom, &opt); got = u.get(); u.checkSurroundings();
            }
        }
        catch (pbt::Fail&) { throw; }
        catch (exception& e)
        {
            set<PixelType> bad; for (auto a : chanTypes) for (auto t : used) if (!ref::canCopy(t, a)) bad.insert(a);
            PBT_REQUIRE("error", !sure || w == 0 || h == 0 || (mode == 0 ? !bad.empty() || chanTypes.empty() || (p.bounds.count(DimensionIndex::C) && !plane.count(DimensionIndex::C)) : !convertible), what, ": reports '", e.what(), "'");
            g.cls("refused"); continue;
        }
        PBT_REQUIRE("size", got.w == w && got.h == h, what, ": bitmap has size ", got.w, "x", got.h, ", announced was ", w, "x", h);
        if (!convertible) { g.cls("unconvertible"); continue; }
        if (!sure) { g.cls("at a limit"); continue; }
        if (zoom == 1.f)
        {
            vector<Placed> pl; int64_t r = 0;
            for (size_t k = 0; k < tiles.size(); ++k)
            {
                if (k > 0 && (tiles[k].rank != tiles[k - 1].rank || tiles[k].zoom != tiles[k - 1].zoom || tiles[k].scene != tiles[k - 1].scene)) ++r;
                pl.push_back({ tiles[k].s->x - roi.x, tiles[k].s->y - roi.y, tiles[k].t, r, tiles[k].model });
            }
            Judge jj = j; jj.sortByM = true; judge("content", what, got, pl, jj); g.cls("zoom 1");
            if (scenes.size() <= 1 && tiles.size() > 1) g.nontrivial();
        }
        else
        {
            const ScaleInfo si = judgeScaled("content", what, got, roi, tiles, j);
            g.cls(zoom > 1 ? "zoom above 1" : "zoom below 1"); if (si.definite > 4) g.nontrivial();
            if (si.two) g.cls("overlap");
        }
        if (scenes.size() > 1) g.cls("several scenes");
        if (filter) g.cls("scene filter");
        if (opt.subBlockCache) g.cls("cache");
        if (g.chance(1, 6)) { ISubBlockCacheControl::PruneOptions po; po.maxSubBlockCount = (uint32_t)g.range(0, 3); cache->Prune(po); }
    }
}

int main(int argc, char** argv)
{
    pbt::Config c;
    c.property = "P12";
    c.rule = "more than 4 pixels are certainly covered by a tile (zoom 1: several tiles of one scene in view)";
    c.assumptions = { "tiles up to 24x20 stored pixels, up to 12 tiles, zoom 0.02 to 2.5", "pixels within one source pixel around the mapped position are accepted; at the rim of a tile the content beneath too", "tiles are taken from the coarsest layer resolving the zoom (5 percent tolerance); scenes are painted in ascending order", "all tiles of a document have a scene or none has" };
    c.subs = { { "scaled", 90000, 700000, scaled } };
    return pbt::main(argc, argv, c);
}
