// P13: pixels marked invalid by a mask are never drawn
#include "compose.hpp"
using namespace cmp;
using namespace std;

static void masks(Gen& g)
{
    POpts o; o.pyramid = g.chance(1, 2); o.masks = true; o.mixedScenes = false; o.maxTiles = 9; o.spread = 24;
    PDoc p = genPDoc(g, o);
    // some attachments which look like masks but are none: the tile has no mask then
    bool decoy = false;
    for (size_t i = 0; i < p.tiles.size(); ++i) if (!p.tiles[i].mask.there && g.chance(1, 6))
    {
        Sb& s = p.doc.sbs[i]; decoy = true; Mask m = genMask(g, s.pw, s.ph); fill(m.bit.begin(), m.bit.end(), (uint8_t)0); attachMask(g, s, m);
        switch (g.below(3))
        {
        case 0: { const char* x = "<METADATA><AttachmentSchema><DataFormat>SOMETHING</DataFormat></AttachmentSchema></METADATA>"; s.meta.assign(x, x + strlen(x)); break; }
        case 1: s.meta.clear(); break;
        default: s.att = chunk(Bytes(16, 0x31), g.bytes((size_t)g.range(1, 30))); break; // no mask in the container
        }
    }
    if (decoy) { WriteOpts wo; wo.allowDup = true; p.file = writeDoc(p.doc, wo); }
    string how; auto repo = openRepo(g, p, how);
    auto cache = CreateSubBlockCache();
    auto a0 = dynamic_pointer_cast<ISingleChannelTileAccessor>(CreateAccesor(repo, AccessorType::SingleChannelTileAccessor));
    auto a1 = dynamic_pointer_cast<ISingleChannelPyramidLayerTileAccessor>(CreateAccesor(repo, AccessorType::SingleChannelPyramidLayerTileAccessor));
    auto a2 = dynamic_pointer_cast<ISingleChannelScalingTileAccessor>(CreateAccesor(repo, AccessorType::SingleChannelScalingTileAccessor));
    g.d() << how << describe(p);
    for (int q = (int)g.range(1, 5); q > 0; --q)
    {
        const int which = (int)g.below(3); auto plane = genPlane(g, p); IntRect roi = genRoi(g, p); CDimCoordinate co = toCoord(plane);
        Judge j; j.bg = genBg(g); j.useMask = g.chance(2, 3); j.sortByM = !g.chance(1, 8); const bool vis = g.coin(), useCache = g.chance(2, 3), only = g.coin();
        set<PixelType> used; vector<Placed> pl; vector<Ranked> tiles; int lay = 0, f = 1; float zoom = 1; bool sure = true; size_t masked = 0;
        int w = roi.w, h = roi.h;
        if (which == 1)
        {
            lay = (int)g.range(0, p.maxLayer); for (int i = 0; i < lay; ++i) f *= p.pyrFactor;
            auto align = [f](int v, int org) { int64_t d = (int64_t)v - org; int64_t k = d >= 0 ? d / f : -((-d + f - 1) / f); return (int)(org + k * f); };
            roi.x = align(roi.x, p.ox); roi.y = align(roi.y, p.oy); w = roi.w / f; h = roi.h / f; if (w == 0 || h == 0) continue;
        }
        if (which == 2)
        {
            zoom = g.coin() ? 1.f : (float)g.range(200, 1000) / 1000.f; auto sz = a2->CalcSize(roi, zoom); w = (int)sz.w; h = (int)sz.h; if (w == 0 || h == 0) continue;
            sure = scaledTiles(p, plane, roi, zoom, nullptr, j.sortByM, tiles); int64_t r = 0;
            for (size_t k = 0; k < tiles.size(); ++k)
            {
                if (k > 0 && (tiles[k].rank != tiles[k - 1].rank || tiles[k].zoom != tiles[k - 1].zoom || tiles[k].scene != tiles[k - 1].scene)) ++r;
                pl.push_back({ tiles[k].s->x - roi.x, tiles[k].s->y - roi.y, tiles[k].t, r, tiles[k].model }); used.insert(tiles[k].t->img.pt); masked += tiles[k].t->mask.there;
            }
        }
        else for (size_t i = 0; i < p.doc.sbs.size(); ++i)
        {
            const Sb& s = p.doc.sbs[i]; if (!onPlane(s, plane) || (which == 0 ? !isLayer0(s) : layerOf(p, s) != lay)) continue;
            if (s.x >= roi.x + roi.w || s.x + s.w <= roi.x || s.y >= roi.y + roi.h || s.y + s.h <= roi.y) continue;
            pl.push_back({ (s.x - roi.x) / f, (s.y - roi.y) / f, &p.tiles[i], rankOf(s), (int)i }); used.insert(s.pt); masked += p.tiles[i].mask.there;
        }
        PixelType want = g.chance(3, 4) && !used.empty() ? *used.begin() : genType(g);
        bool convertible = true; for (auto t : used) convertible = convertible && ref::canCopy(t, want);
        if (!convertible || !sure) { g.cls("not judged"); continue; }
        string what = pbt::cat(which == 0 ? "plane" : which == 1 ? "layer " + to_string(lay) : "zoom " + to_string(zoom), j.useMask ? " masks" : " no masks", " ", dimsStr(plane), " roi(", roi.x, ",", roi.y, ",", roi.w, "x", roi.h, ")", vis ? " vis" : "", useCache ? " cache" : "", j.sortByM ? "" : " unsorted", " type", (int)want);
        g.d() << "\n " << what << ": " << masked << " tiles with mask";
        auto set = [&](auto& opt) { opt.Clear(); opt.backGroundColor = toColor(j.bg); opt.sortByM = j.sortByM; opt.maskAware = j.useMask; opt.onlyUseSubBlockCacheForCompressedData = only; if (useCache) opt.subBlockCache = cache; };
        UserBitmap u(want, (uint32_t)w, (uint32_t)h, (uint32_t)g.range(0, 9), 0xA7);
        Img before; before.pt = want; before.w = w; before.h = h; before.px = g.bytes(before.line() * (size_t)h); u.put(before); j.before = &before;
        try
        {
            if (which == 0) { ISingleChannelTileAccessor::Options opt; set(opt); opt.useVisibilityCheckOptimization = vis; a0->Get(&u, roi.x, roi.y, &co, &opt); }
            else if (which == 1) { ISingleChannelPyramidLayerTileAccessor::Options opt; set(opt); a1->Get(&u, roi.x, roi.y, &co, ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo{ (uint8_t)p.pyrFactor, (uint8_t)lay }, &opt); }
            else { ISingleChannelScalingTileAccessor::Options opt; set(opt); opt.useVisibilityCheckOptimization = vis; a2->Get(&u, roi, &co, zoom, &opt); }
        }
        catch (exception& e) { PBT_REQUIRE("error", false, what, ": reports '", e.what(), "'"); }
        u.checkSurroundings(); Img got = u.get();
        if (which == 2 && zoom != 1.f) judgeScaled("content", what, got, roi, tiles, j);
        else { Judge jj = j; if (which == 2) jj.sortByM = true; judge("content", what, got, pl, jj); }
        if (j.useMask && masked > 0 && pl.size() > 1) g.nontrivial();
        g.cls(which == 0 ? "plane" : which == 1 ? "layer" : zoom == 1.f ? "zoom 1" : "scaled"); if (vis) g.cls("visibility"); if (useCache) g.cls("cache");
        if (g.chance(1, 6)) { ISubBlockCacheControl::PruneOptions po; po.maxSubBlockCount = (uint32_t)g.range(0, 3); cache->Prune(po); }
    }
}

int main(int argc, char** argv)
{
    pbt::Config c;
    c.property = "P13";
    c.rule = "masks are requested, several tiles are in view and at least one of them has a mask";
    c.assumptions = { "tiles up to 24x20 stored pixels, up to 9 tiles; masks random, partial, empty, smaller or larger than the tile, with row padding and other chunks around them", "one cache is shared by a history of up to 5 requests with and without masks through all three accessors" };
    c.subs = { { "masks", 50000, 800000, masks } };
    return pbt::main(argc, argv, c);
}
