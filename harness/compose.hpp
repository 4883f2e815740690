// Documents for composition, a reference compositor and a judge that works pixel by pixel.
#pragma once
#include "img.hpp"
#include "ref.hpp"
#include "libCZI_compress.h"
#include <set>

namespace cmp
{
    using namespace czi;
    using std::vector; using std::string; using std::shared_ptr;

    struct Mask { bool there = false; int w = 0, h = 0; Bytes bit; bool at(int x, int y) const { return x >= 0 && y >= 0 && x < w && y < h && bit[(size_t)(y * w + x)]; } };
    struct Tile { Img img; Mask mask; };           // decoded content of doc.sbs[i]
    struct PDoc
    {
        Doc doc; vector<Tile> tiles; shared_ptr<MemStream> file; vector<int> readerIndex; // model index -> index in the repository
        std::map<DimensionIndex, std::pair<int, int>> bounds; // min,max
        int pyrFactor = 2; int maxLayer = 0; int ox = 0, oy = 0; // origin of the layers' grids
    };

    // ---------------------------------------------------------------- masks as stored in a document
    inline void put32(Bytes& b, uint32_t v) { for (int k = 0; k < 4; ++k) b.push_back((uint8_t)(v >> (8 * k))); }
    inline const Bytes& maskGuid() { static const Bytes b{ 0x67,0xEA,0xE3,0xCB, 0xFC,0x5B, 0x2B,0x49, 0xA1,0x6A,0xEC,0xE3,0x78,0x03,0x14,0x48 }; return b; }
    inline Bytes chunk(const Bytes& guid, const Bytes& payload) { Bytes b = guid; put32(b, (uint32_t)payload.size()); b.insert(b.end(), payload.begin(), payload.end()); return b; }
    inline Bytes maskPayload(const Mask& m, int extraStride, uint8_t padBits)
    {
        Bytes b; const int line = (m.w + 7) / 8, stride = line + extraStride;
        put32(b, (uint32_t)m.w); put32(b, (uint32_t)m.h); put32(b, 0); put32(b, (uint32_t)stride);
        for (int y = 0; y < m.h; ++y)
        {
            Bytes l((size_t)stride, padBits);
            for (int x = 0; x < line * 8; ++x)
            {
                const bool v = x < m.w ? m.at(x, y) : (padBits & 1);
                if (v) l[(size_t)(x / 8)] |= (uint8_t)(0x80 >> (x % 8)); else l[(size_t)(x / 8)] &= (uint8_t)~(0x80 >> (x % 8));
            }
            b.insert(b.end(), l.begin(), l.end());
        }
        return b;
    }
    inline const char* maskXml() { return "<METADATA><AttachmentSchema><DataFormat>CHUNKCONTAINER</DataFormat></AttachmentSchema></METADATA>"; }
    inline Mask genMask(Gen& g, int w, int h)
    {
        Mask m; m.there = true; m.w = w; m.h = h;
        if (g.chance(1, 4)) { m.w = std::max<int>(1, w + (int)g.range0(-4, 4)); m.h = std::max<int>(1, h + (int)g.range0(-4, 4)); }
        m.bit.assign((size_t)(m.w * m.h), 1);
        switch (g.below(5))
        {
        case 0: { Bytes b = g.bytes(m.bit.size()); for (size_t i = 0; i < b.size(); ++i) m.bit[i] = b[i] & 1; break; }
        case 1: { int c = (int)g.range(0, m.w); for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) m.bit[(size_t)(y * m.w + x)] = x < c; break; }
        case 2: { int c = (int)g.range(0, m.h); for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) m.bit[(size_t)(y * m.w + x)] = y >= c; break; }
        case 3: std::fill(m.bit.begin(), m.bit.end(), (uint8_t)0); break;
        default: for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) m.bit[(size_t)(y * m.w + x)] = (x + y) % 3 != 0; break;
        }
        return m;
    }
    inline void attachMask(Gen& g, Sb& s, const Mask& m)
    {
        s.meta.assign(maskXml(), maskXml() + strlen(maskXml()));
        Bytes c = chunk(maskGuid(), maskPayload(m, g.chance(1, 3) ? (int)g.range(1, 5) : 0, g.coin() ? 0xff : 0));
        s.att.clear();
        for (int n = (int)g.weighted({ 4, 1, 1 }); n > 0; --n) { Bytes o = chunk(Bytes(16, (uint8_t)g.range(1, 99)), g.bytes((size_t)g.range(1, 40))); s.att.insert(s.att.end(), o.begin(), o.end()); }
        s.att.insert(s.att.end(), c.begin(), c.end());
        if (g.chance(1, 5)) { Bytes o = chunk(Bytes(16, 0x77), g.bytes((size_t)g.range(1, 40))); s.att.insert(s.att.end(), o.begin(), o.end()); }
    }

    // ---------------------------------------------------------------- generator
    struct POpts { bool pyramid = false; bool masks = false; bool scenes = true; int maxTiles = 9; bool mixedTypes = true; bool jxr = true; int spread = 40; bool bigLayers = true; bool mixedScenes = true; };

    inline void encode(Gen& g, Sb& s, const Img& i, bool jxr)
    {
        s.pw = i.w; s.ph = i.h; s.pt = i.pt;
        switch (g.weighted({ 4, 1, 1, jxr && ref::isInt(i.pt) ? 1u : 0u }))
        {
        case 1: case 2:
        {
            const bool one = g.coin(); CompressParametersOnMap hl; hl.map[(int)CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING] = CompressParameter(true);
            auto mb = one ? ZstdCompress::CompressZStd1Alloc((uint32_t)i.w, (uint32_t)i.h, (uint32_t)i.line(), i.pt, i.px.data(), g.coin() ? &hl : nullptr)
                : ZstdCompress::CompressZStd0Alloc((uint32_t)i.w, (uint32_t)i.h, (uint32_t)i.line(), i.pt, i.px.data(), nullptr);
            s.comp = one ? 6 : 5; s.data.assign((uint8_t*)mb->GetPtr(), (uint8_t*)mb->GetPtr() + mb->GetSizeOfData()); break;
        }
        case 3:
        {
            auto mb = JxrLibCompress::Compress(i.pt, (uint32_t)i.w, (uint32_t)i.h, (uint32_t)i.line(), i.px.data(), nullptr);
            s.comp = 4; s.data.assign((uint8_t*)mb->GetPtr(), (uint8_t*)mb->GetPtr() + mb->GetSizeOfData()); break;
        }
        default: s.comp = 0; s.data = i.px; break;
        }
    }
    inline PixelType genType(Gen& g) { return g.of<PixelType>({ PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float }); }
    inline Img genTileImg(Gen& g, PixelType pt, int w, int h)
    {
        Img i; i.pt = pt; i.w = w; i.h = h;
        if (pt == PixelType::Gray32Float)
        {
            i.px.resize(i.line() * (size_t)h); pbt::Rng r(g.seed64());
            for (int k = 0; k < w * h; ++k) { const float f = (float)(r.next() % 100000) / 64.0f; memcpy(&i.px[(size_t)k * 4], &f, 4); }
        }
        else i.px = g.chance(1, 8) ? genPixels(g, i.line() * (size_t)h) : g.bytes(i.line() * (size_t)h);
        return i;
    }
    /// a document with overlapping tiles close to each other; all tiles of a layer keep to that layer's grid
    inline PDoc genPDoc(Gen& g, const POpts& o)
    {
        PDoc p; p.doc.guid = GUID{ 7,2,3,{4,5,6,7,8,9,10,11} };
        vector<DimensionIndex> dims;
        switch (g.weighted({ 1, 4, 2, 1 }))
        {
        case 0: break;
        case 1: dims = { DimensionIndex::C }; break;
        case 2: dims = { DimensionIndex::C, DimensionIndex::Z }; break;
        default: for (auto d : allDims()) if (d != DimensionIndex::S && g.chance(1, 3)) dims.push_back(d); break;
        }
        const bool scenes = o.scenes && g.chance(1, 2), someWithoutScene = scenes && o.mixedScenes && g.chance(1, 6);
        const bool uniform = !g.chance(1, 6);
        const bool manyPlanes = g.chance(1, 3);
        vector<PixelType> chType; for (int i = 0; i < 4; ++i) chType.push_back(genType(g));
        const bool mixed = o.mixedTypes && g.chance(1, 5);
        int ox = g.chance(1, 3) ? (int)g.range0(-1000, 1000) : (int)g.range0(-20, 20), oy = g.chance(1, 3) ? (int)g.range0(-1000, 1000) : (int)g.range0(-20, 20), farOff = g.chance(1, 25) ? g.of<int>({ 1000000000, -1000000000, (1 << 24) + 1, -(1 << 24) - 1, 70000, -70000 }) : 0;
        p.ox = ox += g.chance(2, 3) ? farOff : 0; p.oy = oy += g.chance(2, 3) ? farOff : 0; p.pyrFactor = g.of<int>({ 2, 2, 3 }); p.maxLayer = o.pyramid ? (int)g.range(1, p.pyrFactor == 2 ? 3 : 2) : 0;
        const bool uniqueM = g.chance(3, 4);
        const bool many = o.maxTiles >= 9 && g.chance(1, 150), large = !many && o.maxTiles >= 9 && g.chance(1, 100); ///< now and then many tiles, or large ones
        const int n = many ? (int)g.range(o.maxTiles, 90) : (int)g.size(1, large ? 4 : o.maxTiles);
        for (int k = 0; k < n; ++k)
        {
            Sb s; for (auto d : dims) if (uniform || g.chance(4, 5)) s.dims[d] = manyPlanes ? (int)g.range(0, 1) + (d == DimensionIndex::T ? 2 : 0) : (d == DimensionIndex::T ? 2 : 0);
            if (scenes && !(someWithoutScene && g.coin())) s.dims[DimensionIndex::S] = (int)g.range(0, 2);
            const int layer = p.maxLayer > 0 ? (int)g.range(0, p.maxLayer) : 0;
            int f = 1; for (int i = 0; i < layer; ++i) f *= p.pyrFactor;
            const int grid = std::max(1, o.spread / f);
            s.x = ox + f * (int)g.range0(0, grid); s.y = oy + f * (int)g.range0(0, grid);
            int w = large ? (int)g.range(1, 300) : (int)g.size(1, o.bigLayers ? 24 : 12), h = large ? (int)g.range(1, 200) : (int)g.size(1, 20);
            if (layer > 0) { w = std::max(2, w / (f > 4 ? 2 : 1)); h = std::max(2, h / (f > 4 ? 2 : 1)); }
            const int ragged = layer > 0 && g.chance(1, 4) ? (int)g.range(1, 3) : 0; // lower or right edge of the image: not a multiple of the scale
            if (ragged == 1) { if (g.coin()) h = 1; w = std::max(w, h + 2); }
            if (ragged == 2) { if (g.coin()) w = 1; h = std::max(h, w + 2); }
            s.w = w * f; s.h = h * f;
            if (ragged == 1) s.h -= (int)g.range(1, f - 1);
            if (ragged == 2) s.w -= (int)g.range(1, f - 1);
            if (ragged == 3) { s.w -= (int)g.range(0, std::min(f - 1, (w - 1) / 2)); s.h -= (int)g.range(0, std::min(f - 1, (h - 1) / 2)); }
            s.mValid = layer == 0 ? !g.chance(1, 8) : g.chance(1, 4);
            if (s.mValid) s.m = uniqueM ? k : (int)g.range(0, 5);
            if (s.mValid && g.chance(1, 12)) s.m += 1000;
            s.pyr = layer == 0 ? SubBlockPyramidType::None : SubBlockPyramidType::MultiSubBlock;
            const int c = s.dims.count(DimensionIndex::C) ? s.dims[DimensionIndex::C] : 0;
            Tile t; t.img = genTileImg(g, mixed ? genType(g) : chType[(size_t)(c & 3)], w, h);
            encode(g, s, t.img, o.jxr);
            if (o.masks && g.chance(2, 3)) { t.mask = genMask(g, w, h); attachMask(g, s, t.mask); }
            p.doc.sbs.push_back(std::move(s)); p.tiles.push_back(std::move(t));
        }
        // order of adding is independent of the order of the tile indices
        vector<size_t> perm(p.doc.sbs.size()); for (size_t i = 0; i < perm.size(); ++i) perm[i] = i;
        g.shuffle(perm);
        PDoc q = p; for (size_t i = 0; i < perm.size(); ++i) { q.doc.sbs[i] = p.doc.sbs[perm[i]]; q.tiles[i] = p.tiles[perm[i]]; }
        WriteOpts wo; wo.allowDup = true; q.file = writeDoc(q.doc, wo);
        for (auto& s : q.doc.sbs) for (auto& d : s.dims) { auto it = q.bounds.find(d.first); if (it == q.bounds.end()) q.bounds[d.first] = { d.second, d.second }; else { it->second.first = std::min(it->second.first, d.second); it->second.second = std::max(it->second.second, d.second); } }
        return q;
    }
    inline int64_t rankOf(const Sb& s) { return s.mValid ? (int64_t)s.m : INT64_MIN; }
    inline bool isLayer0(const Sb& s) { return s.w == s.pw && s.h == s.ph; }
    inline int layerOf(const PDoc& p, const Sb& s) { const double r = s.pw > s.ph ? (double)s.w / s.pw : (double)s.h / s.ph; const int m = (int)std::lround(r); int f = 1, l = 0; while (f < m) { f *= p.pyrFactor; ++l; } return l; }
    inline bool onPlane(const Sb& s, const std::map<DimensionIndex, int>& plane)
    {
        for (auto& w : plane) { auto it = s.dims.find(w.first); if (it == s.dims.end() || it->second != w.second) return false; }
        return true;
    }
    /// valid plane coordinate
    inline std::map<DimensionIndex, int> genPlane(Gen& g, const PDoc& p)
    {
        std::map<DimensionIndex, int> m;
        for (auto& b : p.bounds)
        {
            if (b.first == DimensionIndex::S) continue;
            if (b.second.first == b.second.second && g.chance(1, 4)) continue; // may be left out
            m[b.first] = (int)g.range(b.second.first, b.second.second);
        }
        return m;
    }
    inline IntRect boundingBox(const PDoc& p)
    {
        int x0 = INT32_MAX, y0 = INT32_MAX, x1 = INT32_MIN, y1 = INT32_MIN;
        for (auto& s : p.doc.sbs) { x0 = std::min(x0, s.x); y0 = std::min(y0, s.y); x1 = std::max(x1, s.x + s.w); y1 = std::max(y1, s.y + s.h); }
        return { x0, y0, x1 - x0, y1 - y0 };
    }
    inline IntRect genRoi(Gen& g, const PDoc& p)
    {
        const IntRect b = boundingBox(p);
        switch (g.below(5))
        {
        case 0: return b;
        case 1: { auto& s = g.pick(p.doc.sbs); return { s.x, s.y, s.w, s.h }; }
        case 2: return { b.x - (int)g.range(0, 9), b.y - (int)g.range(0, 9), b.w + (int)g.range(0, 20), b.h + (int)g.range(0, 20) };
        case 3: { auto& s = g.pick(p.doc.sbs); return { s.x + (int)g.range0(-6, 6), s.y + (int)g.range0(-6, 6), (int)g.range(1, 30), (int)g.range(1, 30) }; }
        default: return { b.x + (int)g.range(0, std::max(1, b.w)), b.y + (int)g.range(0, std::max(1, b.h)), (int)g.size(1, 60), (int)g.size(1, 60) };
        }
    }

    // ---------------------------------------------------------------- a caller's bitmap with guarded surroundings
    class UserBitmap : public IBitmapData
    {
        PixelType pt_; uint32_t w_, h_, stride_; Exact mem_; int locks_ = 0; uint8_t fill_;
    public:
        UserBitmap(PixelType pt, uint32_t w, uint32_t h, uint32_t pad, uint8_t fill) : pt_(pt), w_(w), h_(h), stride_((uint32_t)bpp(pt) * w + pad), mem_((size_t)stride_ * h + 8, fill), fill_(fill) {}
        PixelType GetPixelType() const override { return pt_; }
        IntSize GetSize() const override { return { w_, h_ }; }
        BitmapLockInfo Lock() override { ++locks_; BitmapLockInfo l; l.ptrData = mem_.p; l.ptrDataRoi = mem_.p; l.stride = stride_; l.size = (uint64_t)stride_ * h_; return l; }
        void Unlock() override { --locks_; }
        int GetLockCount() const override { return locks_; }
        void put(const Img& i) { for (uint32_t y = 0; y < h_; ++y) memcpy(mem_.p + (size_t)stride_ * y, i.px.data() + i.line() * y, i.line()); }
        Img get() const { Img i; i.pt = pt_; i.w = (int)w_; i.h = (int)h_; i.px.resize(i.line() * h_); for (uint32_t y = 0; y < h_; ++y) memcpy(&i.px[i.line() * y], mem_.p + (size_t)stride_ * y, i.line()); return i; }
        void checkSurroundings() const
        {
            const size_t line = (size_t)bpp(pt_) * w_;
            for (uint32_t y = 0; y < h_; ++y) for (size_t x = line; x < stride_; ++x) PBT_REQUIRE("outside", mem_.p[(size_t)stride_ * y + x] == fill_, "byte ", x, " of line ", y, " behind the pixels (", line, " bytes) of the caller's bitmap was changed");
            for (size_t k = (size_t)stride_ * h_; k < mem_.n; ++k) PBT_REQUIRE("outside", mem_.p[k] == fill_, "byte ", k, " behind the caller's bitmap was changed");
            PBT_REQUIRE("locked", locks_ == 0, "the caller's bitmap was left with lock count ", locks_);
        }
    };

    // ---------------------------------------------------------------- the judge
    struct Bg { bool none = false; float r = 0, g = 0, b = 0; };
    inline Bg genBg(Gen& g) { Bg b; if (g.chance(1, 5)) { b.none = true; return b; } auto c = [&] { return g.chance(1, 10) ? g.of<float>({ -0.5f, 1.5f }) : (float)g.range(0, 1000) / 1000.0f; }; b.r = c(); b.g = c(); b.b = c(); return b; }
    inline RgbFloatColor toColor(const Bg& b) { if (b.none) { const float n = std::numeric_limits<float>::quiet_NaN(); return { n, n, n }; } return { b.r, b.g, b.b }; }
    /// is the pixel the background colour (gray: the mean; times the largest value, clamped)
    inline bool isBg(PixelType pt, const uint8_t* p, const Bg& b)
    {
        auto near = [](double got, double v, double max) { v = std::min(std::max(v * max, 0.0), max); return std::fabs(got - v) <= 0.5 + 1e-4 + max * 5e-7; };
        const double mean = ((double)b.r + b.g + b.b) / 3; const double c[3] = { b.b, b.g, b.r };
        uint16_t w[3]; float f;
        switch (pt)
        {
        case PixelType::Gray8: return near(*p, mean, 255);
        case PixelType::Gray16: memcpy(w, p, 2); return near(w[0], mean, 65535);
        case PixelType::Gray32Float: memcpy(&f, p, 4); return std::fabs(f - mean) <= 1e-5;
        case PixelType::Bgr24: case PixelType::Bgra32: for (int k = 0; k < 3; ++k) if (!near(p[k], c[k], 255)) return false; return pt == PixelType::Bgr24 || p[3] == 255;
        case PixelType::Bgr48: memcpy(w, p, 6); for (int k = 0; k < 3; ++k) if (!near(w[k], c[k], 65535)) return false; return true;
        default: return true;
        }
    }
    struct Placed { int x, y; const Tile* t; int64_t rank; int model; };
    struct Judge
    {
        bool useMask = false, sortByM = true, border = false, bgKnown = true; Bg bg; const Img* before = nullptr;
    };
    inline string px(PixelType pt, const uint8_t* p) { return hex(Bytes(p, p + bpp(pt)), 32); }
    /// every pixel shows the topmost tile valid there (any of equal rank), or what was there before
    inline void judge(const string& key, const string& what, const Img& got, const vector<Placed>& tiles, const Judge& j)
    {
        const int bp = bpp(got.pt);
        vector<const Placed*> byRank; for (auto& t : tiles) byRank.push_back(&t);
        std::stable_sort(byRank.begin(), byRank.end(), [](const Placed* a, const Placed* b) { return a->rank > b->rank; });
        uint8_t conv[32];
        for (int y = 0; y < got.h; ++y) for (int x = 0; x < got.w; ++x)
        {
            const uint8_t* p = &got.px[got.line() * (size_t)y + (size_t)(x * bp)];
            bool any = false, ok = false, edge = false; int64_t top = 0; string exp;
            for (auto t : byRank)
            {
                const int tx = x - t->x, ty = y - t->y, w = t->t->img.w, h = t->t->img.h;
                if (tx < 0 || ty < 0 || tx >= w || ty >= h) continue;
                if (j.border)
                {
                    auto onEdge = [&](int ww, int hh) { const int l = std::max(t->x, 0), u = std::max(t->y, 0), r = std::min(t->x + ww, got.w) - 1, b = std::min(t->y + hh, got.h) - 1; return x == l || x == r || y == u || y == b; };
                    if (onEdge(w, h) || (j.useMask && t->t->mask.there && onEdge(std::min(w, t->t->mask.w), std::min(h, t->t->mask.h)))) edge = true;
                }
                if (j.useMask && t->t->mask.there && !t->t->mask.at(tx, ty)) continue;
                if (any && j.sortByM && t->rank != top) continue;
                if (!any) { any = true; top = t->rank; }
                ref::convert(t->t->img.pt, &t->t->img.px[t->t->img.line() * (size_t)ty + (size_t)(tx * bpp(t->t->img.pt))], got.pt, conv);
                if (memcmp(conv, p, (size_t)bp) == 0) ok = true; else exp += " " + px(got.pt, conv) + pbt::cat("(tile ", t->model, ")");
            }
            if (edge) continue;
            if (any) { PBT_REQUIRE(key, ok, what, ": pixel (", x, ",", y, ") of ", str(got), " is ", px(got.pt, p), ", expected", exp); continue; }
            if (!j.bgKnown) continue;
            if (!j.bg.none) PBT_REQUIRE("background", isBg(got.pt, p, j.bg), what, ": pixel (", x, ",", y, ") of ", str(got), " is ", px(got.pt, p), " where no tile lies; background is ", j.bg.r, ",", j.bg.g, ",", j.bg.b);
            else if (j.before) PBT_REQUIRE("background", memcmp(p, &j.before->px[got.line() * (size_t)y + (size_t)(x * bp)], (size_t)bp) == 0, what, ": pixel (", x, ",", y, ") where no tile lies was changed though no background was requested");
        }
    }
    // ---------------------------------------------------------------- scaled images
    struct Ranked { const Sb* s; const Tile* t; int scene; float zoom; int64_t rank; int model; };
    inline float tileZoom(const Sb& s) { return s.pw > s.ph ? (float)s.pw / (float)s.w : (float)s.ph / (float)s.h; }
    /// the tiles which are to be painted for a zoom, in the order of painting; false if a limit is too close to be decided
    inline bool scaledTiles(const PDoc& p, const std::map<DimensionIndex, int>& plane, const IntRect& roi, float zoom, const std::set<int>* scenes, bool sortByM, vector<Ranked>& out)
    {
        std::map<int, vector<Ranked>> byScene;
        for (size_t i = 0; i < p.doc.sbs.size(); ++i)
        {
            const Sb& s = p.doc.sbs[i]; auto sc = s.dims.find(DimensionIndex::S);
            if (!onPlane(s, plane) || s.x >= roi.x + roi.w || s.x + s.w <= roi.x || s.y >= roi.y + roi.h || s.y + s.h <= roi.y) continue;
            if (scenes != nullptr && sc != s.dims.end() && !scenes->count(sc->second)) continue;
            const int scene = sc == s.dims.end() ? -1 : sc->second;
            byScene[scene].push_back({ &s, &p.tiles[i], scene, tileZoom(s), isLayer0(s) && sortByM ? rankOf(s) : 0, (int)i });
        }
        for (auto& g : byScene)
        {
            auto& v = g.second; std::stable_sort(v.begin(), v.end(), [](const Ranked& a, const Ranked& b) { return a.zoom != b.zoom ? a.zoom < b.zoom : a.rank < b.rank; });
            size_t k = 0; for (; k < v.size() && v[k].zoom < zoom / 1.05f; ++k);
            for (auto& t : v) if (std::fabs(t.zoom / (zoom / 1.05f) - 1) < 1e-4) return false;
            const size_t start = k;
            for (; k < v.size() && v[k].zoom < v[start].zoom * 1.9f; ++k) out.push_back(v[k]);
            if (start < v.size()) for (auto& t : v) if (std::fabs(t.zoom / (v[start].zoom * 1.9f) - 1) < 1e-4) return false;
        }
        return true;
    }
    struct ScaleInfo { size_t definite = 0, background = 0, two = 0; };
    /// every pixel is one of the tile pixels around the position it maps to, of the topmost tile that certainly covers it or of one above
    inline ScaleInfo judgeScaled(const string& key, const string& what, const Img& got, const IntRect& roi, const vector<Ranked>& tiles, const Judge& j)
    {
        ScaleInfo info; const int bp = bpp(got.pt); uint8_t conv[32];
        for (int y = 0; y < got.h; ++y) for (int x = 0; x < got.w; ++x)
        {
            const uint8_t* p = &got.px[got.line() * (size_t)y + (size_t)(x * bp)];
            const double X = roi.x + (double)x * roi.w / got.w, Y = roi.y + (double)y * roi.h / got.h;
            bool ok = false, covered = false; string exp; size_t seen = 0;
            for (size_t k = tiles.size(); k > 0 && !ok; --k)
            {
                const Ranked& r = tiles[k - 1];
                if (covered && (r.rank != tiles[k].rank || r.zoom != tiles[k].zoom || r.scene != tiles[k].scene)) break; // everything further down is hidden
                const Img& im = r.t->img; const double fx = (double)im.w / r.s->w, fy = (double)im.h / r.s->h;
                const double u = (X - r.s->x) * fx, v = (Y - r.s->y) * fy, du = fx * roi.w / got.w, dv = fy * roi.h / got.h;
                if (u <= -1e-6 || v <= -1e-6 || u > im.w + du || v > im.h + dv) continue; // a tile may reach one pixel beyond its right and lower edge
                ++seen; bool all = true;
                for (int b = (int)std::floor(v) - 1; b <= (int)std::floor(v) + 2; ++b) for (int a = (int)std::floor(u) - 1; a <= (int)std::floor(u) + 2; ++a)
                {
                    const int aa = std::min(std::max(a, 0), im.w - 1), bb = std::min(std::max(b, 0), im.h - 1);
                    if (j.useMask && r.t->mask.there && !r.t->mask.at(aa, bb)) { all = false; continue; }
                    ref::convert(im.pt, &im.px[im.line() * (size_t)bb + (size_t)(aa * bpp(im.pt))], got.pt, conv);
                    if (memcmp(conv, p, (size_t)bp) == 0) ok = true;
                }
                exp += pbt::cat(" tile ", r.model, " around (", u, ",", v, ")");
                if (all && X >= r.s->x - 1e-9 && Y >= r.s->y - 1e-9 && X <= r.s->x + r.s->w - 1e-4 && Y <= r.s->y + r.s->h - 1e-4) covered = true;
            }
            if (covered) ++info.definite; if (seen > 1) ++info.two;
            if (ok) continue;
            bool bgOk = false;
            if (!covered) { ++info.background; if (!j.bgKnown) bgOk = true; else if (!j.bg.none) bgOk = isBg(got.pt, p, j.bg); else if (j.before) bgOk = memcmp(p, &j.before->px[got.line() * (size_t)y + (size_t)(x * bp)], (size_t)bp) == 0; }
            PBT_REQUIRE(key, bgOk, what, ": pixel (", x, ",", y, ") of ", str(got), " is ", px(got.pt, p), ", expected", exp.empty() ? " background" : exp.c_str(), covered || exp.empty() ? "" : " or background");
        }
        return info;
    }
    inline shared_ptr<ISubBlockRepository> openRepo(Gen& g, const PDoc& p, string& desc)
    {
        if (g.chance(1, 5))
        {
            auto rw = CreateCZIReaderWriter(); rw->Create(std::make_shared<MemStream>(p.file->b)); desc += " rw"; return rw;
        }
        return openReader(p.file);
    }
    inline string describe(const PDoc& p) { string s; for (size_t i = 0; i < p.doc.sbs.size(); ++i) { s += pbt::cat("\n  ", i, " ", str(p.doc.sbs[i])); if (p.tiles[i].mask.there) s += pbt::cat(" mask ", p.tiles[i].mask.w, "x", p.tiles[i].mask.h); } return s; }
    inline shared_ptr<IIndexSet> sceneSet(Gen& g, std::set<int>& sel, string& desc)
    {
        for (int i = 0; i < 3; ++i) if (g.coin()) sel.insert(i);
        string t; for (int i : sel) t += (t.empty() ? "" : ",") + std::to_string(i);
        if (t.empty()) { t = "7"; sel.insert(7); }
        desc += " scenes{" + t + "}";
        return Utils::IndexSetFromString(std::wstring(t.begin(), t.end()));
    }
}
