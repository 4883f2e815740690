// P10: the tile-composed plane shows the topmost tile at every pixel
#include "compose.hpp"
using namespace cmp;
using namespace std;

static void plane(Gen& g)
{
    POpts o; o.pyramid = g.chance(1, 5);
    PDoc p = genPDoc(g, o);
    string how; auto repo = openRepo(g, p, how);
    auto acc = dynamic_pointer_cast<ISingleChannelTileAccessor>(CreateAccesor(repo, AccessorType::SingleChannelTileAccessor));
    auto cache = CreateSubBlockCache();
    g.d() << how << describe(p);
    for (int q = (int)g.range(1, 4); q > 0; --q)
    {
        auto plane = genPlane(g, p); const IntRect roi = genRoi(g, p);
        ISingleChannelTileAccessor::Options opt; opt.Clear();
        Judge j; j.bg = genBg(g); opt.backGroundColor = toColor(j.bg);
        opt.sortByM = j.sortByM = !g.chance(1, 6);
        opt.useVisibilityCheckOptimization = g.coin();
        opt.drawTileBorder = j.border = g.chance(1, 8);
        if (g.coin()) opt.subBlockCache = cache;
        opt.onlyUseSubBlockCacheForCompressedData = g.coin();
        string what = pbt::cat(dimsStr(plane), " roi(", roi.x, ",", roi.y, ",", roi.w, "x", roi.h, ")", opt.useVisibilityCheckOptimization ? " vis" : "", opt.subBlockCache ? " cache" : "", opt.sortByM ? "" : " unsorted", j.border ? " border" : "");
        set<int> sel; bool filter = false;
        if (g.chance(1, 4)) { filter = true; opt.sceneFilter = sceneSet(g, sel, what); }
        // expectation
        vector<Placed> pl; set<PixelType> chanTypes, used;
        for (size_t i = 0; i < p.doc.sbs.size(); ++i)
        {
            const Sb& s = p.doc.sbs[i];
            auto c = plane.find(DimensionIndex::C); if (c == plane.end() || (s.dims.count(DimensionIndex::C) ? s.dims.at(DimensionIndex::C) == c->second : !p.bounds.count(DimensionIndex::C))) chanTypes.insert(s.pt);
            if (!isLayer0(s) || !onPlane(s, plane)) continue;
            auto sc = s.dims.find(DimensionIndex::S); if (filter && sc != s.dims.end() && !sel.count(sc->second)) continue;
            pl.push_back({ s.x - roi.x, s.y - roi.y, &p.tiles[i], rankOf(s), (int)i });
        }
        size_t vis = 0, overlap = 0; vector<uint8_t> cov((size_t)roi.w * (size_t)roi.h, 0);
        for (auto& t : pl)
        {
            bool v = false;
            for (int y = max(0, t.y); y < min(roi.h, t.y + t.t->img.h); ++y) for (int x = max(0, t.x); x < min(roi.w, t.x + t.t->img.w); ++x) { v = true; if (cov[(size_t)y * (size_t)roi.w + (size_t)x]++) ++overlap; }
            if (v) { ++vis; used.insert(t.t->img.pt); }
        }
        CDimCoordinate co = toCoord(plane);
        const int mode = (int)g.below(3); PixelType want = PixelType::Invalid;
        if (mode > 0) want = (g.coin() && !used.empty()) ? *used.begin() : genType(g);
        bool convertible = true; for (auto t : used) if (mode > 0) convertible = convertible && ref::canCopy(t, want);
        g.d() << "\n " << what << " mode" << mode << " type" << (int)want << ": " << vis << " tiles in view, " << overlap << " pixels overdrawn";
        Img got;
        try
        {
            if (mode == 0)
            {
                auto b = acc->Get(roi, &co, &opt); got = fromBitmap(b);
                PBT_REQUIRE("type", chanTypes.count(got.pt), what, ": pixel type ", (int)got.pt, " is not the type of a tile of the channel");
                for (auto t : used) convertible = convertible && ref::canCopy(t, got.pt);
                j.bgKnown = !j.bg.none;
            }
            else if (mode == 1) { got = fromBitmap(acc->Get(want, roi, &co, &opt)); j.bgKnown = !j.bg.none; PBT_REQUIRE("type", got.pt == want, what, ": bitmap of type ", (int)got.pt, " returned"); }
            else
            {
                UserBitmap u(want, (uint32_t)roi.w, (uint32_t)roi.h, (uint32_t)g.range(0, 9), 0xA7);
                static Img before; before = Img(); before.pt = want; before.w = roi.w; before.h = roi.h; before.px = g.bytes(before.line() * (size_t)before.h); u.put(before); j.before = &before;
                acc->Get(&u, roi.x, roi.y, &co, &opt); got = u.get(); u.checkSurroundings();
            }
        }
        catch (pbt::Fail&) { throw; }
        catch (exception& e)
        {
            if (mode == 0) { // the automatically chosen type may not be convertible from all tiles
                set<PixelType> bad; for (auto a : chanTypes) for (auto t : used) if (!ref::canCopy(t, a)) bad.insert(a);
                PBT_REQUIRE("error", !bad.empty() || chanTypes.empty() || (p.bounds.count(DimensionIndex::C) && !plane.count(DimensionIndex::C)), what, ": reports '", e.what(), "'");
            }
            else PBT_REQUIRE("error", !convertible, what, ": reports '", e.what(), "'");
            g.cls("refused"); continue;
        }
        PBT_REQUIRE("size", got.w == roi.w && got.h == roi.h, what, ": bitmap has size ", got.w, "x", got.h);
        if (!convertible) { g.cls("unconvertible"); continue; }
        judge("content", what, got, pl, j);
        if (overlap > 0) { g.nontrivial(); g.cls("overlap"); }
        if (opt.useVisibilityCheckOptimization && vis > 1) g.cls("visibility");
        if (opt.subBlockCache) g.cls("cache");
        if (filter) g.cls("scene filter");
        if (g.chance(1, 6)) { ISubBlockCacheControl::PruneOptions po; po.maxSubBlockCount = (uint32_t)g.range(0, 3); cache->Prune(po); }
    }
}

/// a plane coordinate the document can not have is reported
static void badPlane(Gen& g)
{
    POpts o; PDoc p = genPDoc(g, o); string how; auto repo = openRepo(g, p, how);
    auto plane = genPlane(g, p); const int k = (int)g.below(4); bool bad = false; const char* names[] = { "scene given", "missing", "out of range", "surplus" };
    switch (k)
    {
    case 0: plane[DimensionIndex::S] = (int)g.range(0, 2); bad = true; break;
    case 1: for (auto& b : p.bounds) if (b.first != DimensionIndex::S && b.second.first != b.second.second) { plane.erase(b.first); bad = true; } break;
    case 2: { vector<DimensionIndex> d; for (auto& b : p.bounds) if (b.first != DimensionIndex::S) d.push_back(b.first); if (d.empty()) break; auto x = g.pick(d); plane[x] = g.coin() ? p.bounds[x].first - (int)g.range(1, 5) : p.bounds[x].second + (int)g.range(1, 5); bad = true; break; }
    default: for (auto d : allDims()) if (d != DimensionIndex::S && !p.bounds.count(d) && !bad) { plane[d] = 0; bad = true; } break;
    }
    if (!bad) throw pbt::Discard();
    g.d() << names[k] << " " << dimsStr(plane) << describe(p); g.cls(names[k]); g.nontrivial();
    CDimCoordinate co = toCoord(plane); const IntRect roi = genRoi(g, p); bool thrown = false;
    try
    {
        const int which = (int)g.below(3);
        if (which == 0) dynamic_pointer_cast<ISingleChannelTileAccessor>(CreateAccesor(repo, AccessorType::SingleChannelTileAccessor))->Get(PixelType::Gray8, roi, &co, nullptr);
        else if (which == 1) { ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo pi{ 2, 0 }; dynamic_pointer_cast<ISingleChannelPyramidLayerTileAccessor>(CreateAccesor(repo, AccessorType::SingleChannelPyramidLayerTileAccessor))->Get(PixelType::Gray8, roi, &co, pi, nullptr); }
        else dynamic_pointer_cast<ISingleChannelScalingTileAccessor>(CreateAccesor(repo, AccessorType::SingleChannelScalingTileAccessor))->Get(PixelType::Gray8, roi, &co, 1.f, nullptr);
    }
    catch (LibCZIInvalidPlaneCoordinateException&) { thrown = true; }
    PBT_REQUIRE("plane", thrown, names[k], ": plane coordinate ", dimsStr(plane), " was accepted");
}

int main(int argc, char** argv)
{
    pbt::Config c;
    c.property = "P10";
    c.rule = "tiles in view overlap (or the plane coordinate is invalid)";
    c.assumptions = { "tiles up to 24x20 pixels, up to 9 tiles", "where several tiles of equal (or without) tile index cover a pixel, any of them may show", "without a given pixel type the call may be refused when the channel is not named or has no tile", "with the tile border option the outermost pixels of a tile are not judged" };
    c.subs = { { "plane", 130000, 700000, plane }, { "invalid-plane", 10000, 60000, badPlane } };
    return pbt::main(argc, argv, c);
}
