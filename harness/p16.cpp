// P16: bitmap copies and conversions touch exactly their target
#include "compose.hpp"
using namespace cmp;
using namespace std;

static PixelType anyType(Gen& g) { return g.chance(1, 8) ? PixelType::Bgra32 : genType(g); }
static Img anyImg(Gen& g, PixelType pt, int mw, int mh) { if (g.chance(1, 400)) { if (g.coin()) { mw = 70000; mh = 2; } else { mw = 3; mh = 70000; } } if (pt != PixelType::Gray32Float) return genImg(g, pt, mw, mh); const int w = (int)g.size(1, mw), h = (int)g.size(1, mh); return genTileImg(g, pt, w, h); }
static unique_ptr<UserBitmap> toUser(Gen& g, const Img& i, uint8_t fill) { auto u = make_unique<UserBitmap>(i.pt, (uint32_t)i.w, (uint32_t)i.h, g.coin() ? 0 : (uint32_t)g.range(1, 11), fill); u->put(i); return u; }
/// an offset with a bias towards partial overlap
static int genOffset(Gen& g, int s, int d)
{
    switch (g.below(8))
    {
    case 0: return 0;
    case 1: return -s; // just outside
    case 2: return d;
    case 3: return g.of<int>({ 1000000, -1000000, INT32_MAX, INT32_MIN, INT32_MAX - 3, INT32_MIN + 3 });
    default: return (int)g.range0(-s - 1, d + 1);
    }
}

// ------------------------------------------------------------------ a caller's bitonal bitmap
class UserMask : public IBitonalBitmapData
{
    IntSize sz_; uint32_t stride_; Exact mem_; int locks_ = 0; uint8_t fill_;
public:
    UserMask(uint32_t w, uint32_t h, uint32_t pad, uint8_t fill) : sz_{ w, h }, stride_((w + 7) / 8 + pad), mem_((size_t)stride_ * (h - 1) + (w + 7) / 8, fill), fill_(fill) {}
    IntSize GetSize() const override { return sz_; }
    BitonalBitmapLockInfo Lock() override { ++locks_; return { mem_.p, stride_, mem_.n }; }
    void Unlock() override { --locks_; }
    int GetLockCount() const override { return locks_; }
    void put(const Mask& m) { for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) { uint8_t& b = mem_.p[(size_t)stride_ * (size_t)y + (size_t)(x / 8)]; const uint8_t bit = (uint8_t)(0x80 >> (x % 8)); if (m.at(x, y)) b |= bit; else b &= (uint8_t)~bit; } }
    bool bit(int x, int y) const { return mem_.p[(size_t)stride_ * (size_t)y + (size_t)(x / 8)] & (0x80 >> (x % 8)); }
    void check(const string& what, const Mask& m) const
    {
        for (int y = 0; y < m.h; ++y)
        {
            for (int x = 0; x < m.w; ++x) PBT_REQUIRE("bits", bit(x, y) == m.at(x, y), what, ": bit (", x, ",", y, ") of ", m.w, "x", m.h, " is ", bit(x, y));
            for (size_t k = (size_t)(m.w + 7) / 8; k < stride_ && (size_t)stride_ * (size_t)y + k < mem_.n; ++k) PBT_REQUIRE("outside", mem_.p[(size_t)stride_ * (size_t)y + k] == fill_, what, ": byte ", k, " of line ", y, " behind the bits was changed");
        }
        PBT_REQUIRE("locked", locks_ == 0, what, ": lock count ", locks_);
    }
};
static Mask genBits(Gen& g, int w, int h)
{
    Mask m; m.there = true; m.w = w; m.h = h; m.bit.assign((size_t)(w * h), 1);
    switch (g.below(4))
    {
    case 0: { Bytes b = g.bytes(m.bit.size()); for (size_t i = 0; i < b.size(); ++i) m.bit[i] = b[i] & 1; break; }
    case 1: { Bytes b = g.bytes(m.bit.size()); const int k = (int)g.range(1, 40); for (size_t i = 0; i < b.size(); ++i) m.bit[i] = b[i] >= k; break; }
    case 2: for (int k = (int)g.range(0, 3); k > 0; --k) m.bit[(size_t)g.below(m.bit.size())] = 0; break;
    default: fill(m.bit.begin(), m.bit.end(), (uint8_t)g.below(2)); break;
    }
    return m;
}
/// MD5 (RFC 1321)
static Bytes refMd5(Bytes m)
{
    static const int sh[64] = { 7,12,17,22,7,12,17,22,7,12,17,22,7,12,17,22,5,9,14,20,5,9,14,20,5,9,14,20,5,9,14,20,4,11,16,23,4,11,16,23,4,11,16,23,4,11,16,23,6,10,15,21,6,10,15,21,6,10,15,21,6,10,15,21 };
    uint32_t h[4] = { 0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u }; const uint64_t bits = (uint64_t)m.size() * 8;
    m.push_back(0x80); while (m.size() % 64 != 56) m.push_back(0); for (int i = 0; i < 8; ++i) m.push_back((uint8_t)(bits >> (8 * i)));
    for (size_t o = 0; o < m.size(); o += 64)
    {
        uint32_t w[16]; for (int i = 0; i < 16; ++i) w[i] = (uint32_t)m[o + 4 * i] | (uint32_t)m[o + 4 * i + 1] << 8 | (uint32_t)m[o + 4 * i + 2] << 16 | (uint32_t)m[o + 4 * i + 3] << 24;
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
        for (int i = 0; i < 64; ++i)
        {
            uint32_t f; int k;
            if (i < 16) { f = (b & c) | (~b & d); k = i; } else if (i < 32) { f = (d & b) | (~d & c); k = (5 * i + 1) % 16; } else if (i < 48) { f = b ^ c ^ d; k = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); k = (7 * i) % 16; }
            f += a + (uint32_t)(int64_t)floor(fabs(sin((double)(i + 1))) * 4294967296.0) + w[k]; a = d; d = c; c = b; b += f << sh[i] | f >> (32 - sh[i]);
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d;
    }
    Bytes r; for (auto x : h) for (int i = 0; i < 4; ++i) r.push_back((uint8_t)(x >> (8 * i))); return r;
}
static int genWidth(Gen& g) { return g.chance(1, 200) ? (int)g.range(70, 5000) : g.coin() ? max<int>(1, (int)(8 * g.range(0, 9) + g.range0(-2, 2))) : (int)g.size(1, 70); }

/// copying at an offset, optionally with conversion and through a mask
static void copyAt(Gen& g)
{
    const PixelType st = anyType(g), dt = g.chance(1, 3) ? st : anyType(g);
    const Img s = anyImg(g, st, 40, 12), d0 = anyImg(g, dt, 40, 12); const IntPoint off{ genOffset(g, s.w, d0.w), genOffset(g, s.h, d0.h) };
    Mask m; unique_ptr<UserMask> um; if (g.coin()) { m = genBits(g, g.chance(2, 3) ? s.w : genWidth(g), g.chance(2, 3) ? s.h : (int)g.size(1, 16)); um = make_unique<UserMask>((uint32_t)m.w, (uint32_t)m.h, (uint32_t)g.range(0, 4), 0x5a); um->put(m); }
    auto us = toUser(g, s, 0x3c), ud = toUser(g, d0, 0xc3);
    g.d() << str(s) << " to " << str(d0) << " at " << off.x << "," << off.y; if (m.there) g.d() << " mask " << m.w << "x" << m.h;
    const string what = pbt::cat("copy of ", str(s), " into ", str(d0), " at (", off.x, ",", off.y, ")", m.there ? pbt::cat(" with mask ", m.w, "x", m.h) : string());
    bool thrown = false; try { BitonalBitmapOperations::CopyAt(us.get(), um.get(), off, ud.get()); } catch (exception&) { thrown = true; }
    us->checkSurroundings(); ud->checkSurroundings(); PBT_REQUIRE("source", us->get() == s, what, ": the source was changed"); if (um) um->check(what + ": mask", m);
    const Img d = ud->get(); size_t copied = 0; const bool can = ref::canCopy(st, dt);
    if (!can) { PBT_REQUIRE("unconvertible", thrown ? d == d0 : (d == d0 || st == dt), what, thrown ? ": reported an error but changed the destination" : ": did not report an error but changed the destination"); g.cls("unconvertible"); if (thrown || st != dt) return; }
    PBT_REQUIRE("error", !thrown, what, ": reports an error");
    uint8_t conv[32]; const int bp = bpp(dt);
    for (int y = 0; y < d.h; ++y) for (int x = 0; x < d.w; ++x)
    {
        const int64_t sx = (int64_t)x - off.x, sy = (int64_t)y - off.y; const uint8_t* p = &d.px[d.line() * (size_t)y + (size_t)(x * bp)]; const uint8_t* e = &d0.px[d.line() * (size_t)y + (size_t)(x * bp)];
        if (sx >= 0 && sy >= 0 && sx < s.w && sy < s.h && (!m.there || m.at((int)sx, (int)sy))) { ref::convert(st, &s.px[s.line() * (size_t)sy + (size_t)(sx * bpp(st))], dt, conv); e = conv; ++copied; }
        PBT_REQUIRE("content", memcmp(p, e, (size_t)bp) == 0, what, ": pixel (", x, ",", y, ") is ", px(dt, p), ", expected ", px(dt, e));
    }
    if (copied > 1) g.nontrivial(); g.cls(m.there ? "masked" : "plain"); if (st != dt) g.cls("conversion"); if (copied == 0) g.cls("nothing in common");
}

/// painting tiles one after the other
static void paint(Gen& g)
{
    const PixelType dt = anyType(g); const Img d0 = anyImg(g, dt, 40, 16); auto ud = toUser(g, d0, 0xc3); const int bp = bpp(dt);
    const int far = g.chance(1, 5) ? 1000000000 : 100; const IntPoint org{ (int)g.range0(-far, far), (int)g.range0(-far, far) };
    struct T { Img i; Mask m; IntPoint p; shared_ptr<IBitmapData> bm; shared_ptr<IBitonalBitmapData> mb; }; vector<T> ts;
    const bool maskAware = g.coin(), border = g.chance(1, 8), noOpt = !border && g.coin(); bool can = true;
    g.d() << str(d0) << " at " << org.x << "," << org.y << (maskAware ? " with masks" : "") << (border ? " border" : "");
    for (int n = (int)g.range(0, 5); n > 0; --n)
    {
        T t; t.i = anyImg(g, g.coin() ? dt : anyType(g), 30, 12); can = can && ref::canCopy(t.i.pt, dt); t.p = { genOffset(g, t.i.w, d0.w), genOffset(g, t.i.h, d0.h) };
        for (int* c : { &t.p.x, &t.p.y }) { const int64_t v = (int64_t)*c + (c == &t.p.x ? org.x : org.y); if (v > INT32_MAX || v < INT32_MIN || v - (c == &t.p.x ? org.x : org.y) != *c) *c = 0; *c += c == &t.p.x ? org.x : org.y; }
        if (maskAware && g.chance(2, 3)) { t.m = genBits(g, g.chance(2, 3) ? t.i.w : genWidth(g), g.chance(2, 3) ? t.i.h : (int)g.size(1, 16)); auto um = make_shared<UserMask>((uint32_t)t.m.w, (uint32_t)t.m.h, (uint32_t)g.range(0, 4), 0x5a); um->put(t.m); t.mb = um; }
        t.bm = toUser(g, t.i, 0x3c); g.d() << "\n  " << str(t.i) << " at " << t.p.x << "," << t.p.y; if (t.m.there) g.d() << " mask " << t.m.w << "x" << t.m.h;
        ts.push_back(std::move(t));
    }
    Compositors::ComposeSingleTileOptions opt; opt.Clear(); PBT_REQUIRE("options", !opt.drawTileBorder, "cleared options ask for a border"); opt.drawTileBorder = border; int next = 0; bool thrown = false;
    auto give = [&](int i) { PBT_REQUIRE("order", i == next, "tile ", i, " asked for instead of ", next); ++next; return i < (int)ts.size(); };
    try
    {
        if (maskAware) Compositors::ComposeSingleChannelTilesMaskAware([&](int i, shared_ptr<IBitmapData>& b, shared_ptr<IBitonalBitmapData>& m, int& x, int& y) { if (!give(i)) return false; const T& t = ts[(size_t)i]; b = t.bm; m = t.mb; x = t.p.x; y = t.p.y; return true; }, ud.get(), org.x, org.y, noOpt ? nullptr : &opt);
        else Compositors::ComposeSingleChannelTiles([&](int i, shared_ptr<IBitmapData>& b, int& x, int& y) { if (!give(i)) return false; const T& t = ts[(size_t)i]; b = t.bm; x = t.p.x; y = t.p.y; return true; }, ud.get(), org.x, org.y, noOpt ? nullptr : &opt);
    }
    catch (pbt::Fail&) { throw; }
    catch (exception&) { thrown = true; }
    ud->checkSurroundings(); for (auto& t : ts) { static_cast<UserBitmap*>(t.bm.get())->checkSurroundings(); PBT_REQUIRE("source", static_cast<UserBitmap*>(t.bm.get())->get() == t.i, "a tile was changed"); if (t.mb) static_cast<UserMask*>(t.mb.get())->check("mask", t.m); }
    if (!can) { g.cls("unconvertible"); return; }
    PBT_REQUIRE("error", !thrown, "painting reports an error"); PBT_REQUIRE("order", next == (int)ts.size() + 1, next, " tiles asked for");
    const Img d = ud->get(); size_t copied = 0; uint8_t conv[32];
    for (int y = 0; y < d.h; ++y) for (int x = 0; x < d.w; ++x)
    {
        const uint8_t* p = &d.px[d.line() * (size_t)y + (size_t)(x * bp)]; const uint8_t* e = &d0.px[d.line() * (size_t)y + (size_t)(x * bp)]; bool rim = false;
        for (auto& t : ts)
        {
            const int64_t sx = (int64_t)x + org.x - t.p.x, sy = (int64_t)y + org.y - t.p.y; if (sx < 0 || sy < 0 || sx >= t.i.w || sy >= t.i.h) continue;
            if (border && (t.m.there || sx == 0 || sy == 0 || sx == t.i.w - 1 || sy == t.i.h - 1 || x == 0 || y == 0 || x == d.w - 1 || y == d.h - 1)) rim = true; // the rim of the part in view may be black
            if (t.m.there && !t.m.at((int)sx, (int)sy)) continue;
            ref::convert(t.i.pt, &t.i.px[t.i.line() * (size_t)sy + (size_t)(sx * bpp(t.i.pt))], dt, conv); e = conv; ++copied;
        }
        if (rim) continue;
        PBT_REQUIRE("content", memcmp(p, e, (size_t)bp) == 0, "painting ", ts.size(), " tiles onto ", str(d0), " at (", org.x, ",", org.y, ")", noOpt ? " without options" : "", ": pixel (", x, ",", y, ") is ", px(dt, p), ", expected ", px(dt, e));
    }
    if (copied > 1) g.nontrivial(); g.cls(maskAware ? "painted with masks" : "painted"); if (noOpt) g.cls("no options");
}

/// nearest-neighbour scaling, all or parts
static void resize(Gen& g)
{
    const PixelType pt = anyType(g); const Img s = anyImg(g, pt, 30, 16); auto us = toUser(g, s, 0x3c);
    const int dw = (int)g.size(1, 40), dh = (int)g.size(1, 20); const bool roi = g.coin(); DblRect rs{ 0, 0, (double)s.w, (double)s.h }, rd{ 0, 0, (double)dw, (double)dh };
    if (roi)
    {
        auto part = [&](double& o, double& l, int n) { const int q = (int)g.of<int>({ 1, 1, 4, 10 }); o = (double)g.range0(-2 * q, (n + 1) * q) / q; l = (double)g.range(1, (n + 2) * q) / q; };
        if (g.chance(2, 3)) { part(rs.x, rs.w, s.w); part(rs.y, rs.h, s.h); } if (g.chance(2, 3)) { part(rd.x, rd.w, dw); part(rd.y, rd.h, dh); }
    }
    const string what = pbt::cat("scaling ", str(s), roi ? pbt::cat(" (", rs.x, ",", rs.y, ",", rs.w, "x", rs.h, ")") : string(), " to ", dw, "x", dh, roi ? pbt::cat(" (", rd.x, ",", rd.y, ",", rd.w, "x", rd.h, ")") : string());
    g.d() << what; Img d;
    d = fromBitmap(roi ? Utils::NearestNeighborResize(us.get(), dw, dh, rs, rd) : Utils::NearestNeighborResize(us.get(), dw, dh));
    us->checkSurroundings(); PBT_REQUIRE("source", us->get() == s, what, ": the source was changed");
    PBT_REQUIRE("size", d.w == dw && d.h == dh && d.pt == pt, what, ": result is ", str(d));
    const Bg black{ false, 0, 0, 0 }; size_t sure = 0; const int bp = bpp(pt);
    for (int y = 0; y < dh; ++y) for (int x = 0; x < dw; ++x)
    {
        const uint8_t* p = &d.px[d.line() * (size_t)y + (size_t)(x * bp)];
        const double u = (x - rd.x) * rs.w / rd.w + rs.x, v = (y - rd.y) * rs.h / rd.h + rs.y; // position in the source
        const double du = rs.w / rd.w, dv = rs.h / rd.h;
        const bool in = x >= rd.x - 1e-6 && y >= rd.y - 1e-6 && x <= rd.x + rd.w - 1e-4 && y <= rd.y + rd.h - 1e-4 && u >= -1e-6 && v >= -1e-6 && u <= s.w - 1e-4 && v <= s.h - 1e-4;
        const bool maybe = x > rd.x - 1 && y > rd.y - 1 && x < rd.x + rd.w + 1 && y < rd.y + rd.h + 1 && u > -1 - du && v > -1 - dv && u < s.w + du + 1e-6 && v < s.h + dv + 1e-6;
        bool ok = false;
        if (in || maybe) for (int b = (int)floor(v + 0.5 - 1e-6); b <= (int)floor(v + 0.5 + 1e-6) + 0; ++b) for (int a = (int)floor(u + 0.5 - 1e-6); a <= (int)floor(u + 0.5 + 1e-6); ++a)
        {
            // the nearest pixel, the index rounded or rounded down
            for (int k = 0; k < 4; ++k)
            {
                const int aa = min(max(k & 1 ? (int)floor(u + 1e-6) : a, 0), s.w - 1), bb = min(max(k & 2 ? (int)floor(v + 1e-6) : b, 0), s.h - 1);
                ok = ok || memcmp(p, &s.px[s.line() * (size_t)bb + (size_t)(aa * bp)], (size_t)bp) == 0;
            }
        }
        if (in) ++sure;
        if (!ok && !in && roi) ok = isBg(pt, p, black);
        PBT_REQUIRE("content", ok, what, ": pixel (", x, ",", y, ") is ", px(pt, p), "; it maps to (", u, ",", v, ")", in ? "" : maybe ? " at the rim" : " outside");
    }
    if (!roi && dw == s.w && dh == s.h) PBT_REQUIRE("identity", d == s, what, ": scaling to the same size changed the image");
    if (sure > 3) g.nontrivial(); g.cls(roi ? "parts" : dw > s.w ? "enlarged" : "shrunk");
}

/// filling and hashing
static void fillHash(Gen& g)
{
    const PixelType pt = anyType(g); const Img s = anyImg(g, pt, 40, 12); auto a = toUser(g, s, 0x11), b = toUser(g, s, 0x22);
    auto md5 = [](IBitmapData* bm) { Bytes h(16); PBT_REQUIRE("hash", Utils::CalcMd5SumHash(bm, h.data(), 16) == 16, "wrong size of the hash"); return h; };
    Bytes tight(16); Utils::CalcMd5SumHash(s.px.data(), s.px.size(), tight.data(), 16);
    PBT_REQUIRE("hash", tight == refMd5(s.px), "the hash of ", s.px.size(), " bytes is not their MD5 sum");
    g.d() << str(s); PBT_REQUIRE("hash", md5(a.get()) == md5(b.get()) && md5(a.get()) == tight, "hash of ", str(s), " depends on the row padding");
    Img c = s; c.px[(size_t)g.below(c.px.size())] ^= (uint8_t)(1 << g.below(8)); auto uc = toUser(g, c, 0x11);
    PBT_REQUIRE("hash", md5(uc.get()) != tight, "hash does not notice a changed pixel");
    Bg bg = genBg(g); bg.none = false; Utils::FillBitmap(a.get(), toColor(bg)); a->checkSurroundings(); const Img f = a->get();
    for (int y = 0; y < f.h; ++y) for (int x = 0; x < f.w; ++x) { const uint8_t* p = &f.px[f.line() * (size_t)y + (size_t)(x * bpp(pt))]; PBT_REQUIRE("fill", isBg(pt, p, bg), "filling ", str(s), " with ", bg.r, ",", bg.g, ",", bg.b, ": pixel (", x, ",", y, ") is ", px(pt, p)); }
    if (s.w > 1 && s.h > 1) g.nontrivial();
}

/// a bit mask against a two-dimensional array of booleans
static void bits(Gen& g)
{
    const int w = genWidth(g), h = (int)g.size(1, 20); Mask m = genBits(g, w, h);
    auto u = make_shared<UserMask>((uint32_t)w, (uint32_t)h, g.coin() ? 0 : (uint32_t)g.range(1, 5), 0x5a); u->put(m);
    g.d() << w << "x" << h; u->check("start", m);
    for (int n = (int)g.range(1, 12); n > 0; --n)
    {
        string what; bool bad = false, thrown = false;
        try
        {
            switch (g.weighted({ 3, 3, 5, 1 }))
            {
            case 0: { const uint32_t x = (uint32_t)g.range(0, w + (g.chance(1, 8) ? 8 : -1)), y = (uint32_t)g.range(0, h + (g.chance(1, 8) ? 4 : -1)); bad = (int)x >= w || (int)y >= h; what = pbt::cat("get ", x, ",", y); g.d() << "\n " << what; const bool v = g.coin() ? BitonalBitmapOperations::GetPixelValue(u, x, y) : [&] { ScopedBitonalBitmapLockerSP l{ u }; return BitonalBitmapOperations::GetPixelValue(u.get(), l, x, y); }(); PBT_REQUIRE("get", !bad && v == m.at((int)x, (int)y), what, " gives ", v, " of ", w, "x", h); break; }
            case 1: { const uint32_t x = (uint32_t)g.range(0, w + (g.chance(1, 8) ? 8 : -1)), y = (uint32_t)g.range(0, h + (g.chance(1, 8) ? 4 : -1)); const bool v = g.coin(); bad = (int)x >= w || (int)y >= h; what = pbt::cat("set ", x, ",", y, "=", v); g.d() << "\n " << what; if (!bad) m.bit[(size_t)((int)y * w + (int)x)] = v; BitonalBitmapOperations::SetPixelValue(u, x, y, v); break; }
            case 2:
            {
                IntRect r{ genOffset(g, w, w), genOffset(g, h, h), (int)g.size(0, w + 10), (int)g.size(0, h + 5) }; if (g.chance(1, 20)) r.w = INT32_MAX; if (g.chance(1, 20)) r.h = INT32_MAX; const bool v = g.coin();
                what = pbt::cat("fill (", r.x, ",", r.y, ",", r.w, "x", r.h, ")=", v); g.d() << "\n " << what;
                for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) if (x >= r.x && y >= r.y && x < (int64_t)r.x + r.w && y < (int64_t)r.y + r.h) m.bit[(size_t)(y * w + x)] = v;
                if (g.coin()) BitonalBitmapOperations::Fill(u, r, v); else { ScopedBitonalBitmapLockerSP l{ u }; BitonalBitmapOperations::Fill(l, u->GetSize(), r, v); } break;
            }
            default: { const bool v = g.coin(); what = pbt::cat("all=", v); g.d() << "\n " << what; fill(m.bit.begin(), m.bit.end(), (uint8_t)v); BitonalBitmapOperations::SetAllPixels(u, v); break; }
            }
        }
        catch (pbt::Fail&) { throw; }
        catch (exception&) { thrown = true; }
        PBT_REQUIRE("error", thrown == bad, what, " of ", w, "x", h, thrown ? " reports an error" : " reports no error");
        u->check(what, m);
    }
    g.nontrivial();
}

/// shrinking a bit mask: a bit is set if all bits around its place are
static void decimate(Gen& g)
{
    const int w = genWidth(g), h = (int)g.size(1, 24), k = g.chance(1, 20) ? g.of<int>({ -1, 8, 100, INT32_MIN }) : (int)g.range(0, 7);
    Mask m = genBits(g, w, h); auto u = make_shared<UserMask>((uint32_t)w, (uint32_t)h, g.coin() ? 0 : (uint32_t)g.range(1, 5), g.coin() ? 0 : 0xff); u->put(m);
    g.d() << w << "x" << h << " neighbourhood " << k; shared_ptr<IBitonalBitmapData> r; const string what = pbt::cat("shrinking ", w, "x", h, " with neighbourhood ", k);
    if (k < 0 || k > 7 || w < 2 || h < 2)
    {
        bool thrown = false; try { r = BitonalBitmapOperations::Decimate(k, u.get()); } catch (exception&) { thrown = true; }
        PBT_REQUIRE("error", thrown || (k >= 0 && k <= 7), what, " reports no error"); g.cls("degenerate"); return;
    }
    r = BitonalBitmapOperations::Decimate(k, u.get());
    u->check(what, m); PBT_REQUIRE("size", (int)r->GetWidth() == w / 2 && (int)r->GetHeight() == h / 2, what, ": result is ", r->GetWidth(), "x", r->GetHeight());
    size_t set = 0;
    for (int y = 0; y < h / 2; ++y) for (int x = 0; x < w / 2; ++x)
    {
        bool e = true; for (int b = max(0, 2 * y - k); b <= min(h - 1, 2 * y + k) && e; ++b) for (int a = max(0, 2 * x - k); a <= min(w - 1, 2 * x + k); ++a) if (!m.at(a, b)) { e = false; break; }
        set += e; PBT_REQUIRE("decimate", BitonalBitmapOperations::GetPixelValue(r, (uint32_t)x, (uint32_t)y) == e, what, ": bit (", x, ",", y, ") is ", !e);
    }
    if (set > 0 && set < (size_t)(w / 2 * (h / 2))) g.nontrivial(); g.cls(pbt::cat("neighbourhood ", k));
}

int main(int argc, char** argv)
{
    pbt::Config c;
    c.property = "P16";
    c.rule = "at least two pixels are copied (scaled: more than three pixels certainly inside; shrunk masks: bits of both values; every history of mask operations)";
    c.assumptions = { "bitmaps up to 50x20 pixels, masks up to 74x24 bits, exact memory blocks under the address sanitizer plus guard bytes between the rows", "scaling: the source pixel is the one whose index is the mapped position rounded or rounded down; at the rim of a part of an image one pixel of tolerance", "bits behind the last column within its byte are not judged" };
    c.subs = { { "copy", 600000, 4000000, copyAt }, { "paint", 200000, 1600000, paint }, { "resize", 300000, 2400000, resize }, { "fill-hash", 60000, 400000, fillHash }, { "bits", 250000, 2000000, bits }, { "decimate", 250000, 2000000, decimate } };
    return pbt::main(argc, argv, c);
}
