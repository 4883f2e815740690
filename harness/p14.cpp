// P14: multi-channel composition follows the blending formula
#include "compose.hpp"
using namespace cmp;
using namespace std;

/// range of values which are right: rounding may go either way for values in the middle
struct Iv { double lo, hi; };
static Iv rnd(Iv v) { return { floor(v.lo + .5 - 2e-3), floor(v.hi + .5 + 2e-3) }; }
static Iv sat(Iv v) { return { min(v.lo, 255.0), min(v.hi, 255.0) }; }

struct Chan
{
    Img img; Compositors::ChannelInfo ci; Bytes lut; unique_ptr<Exact> lutMem; unique_ptr<UserBitmap> bm; bool isNull = false;
};
static bool wide(PixelType p) { return p == PixelType::Gray16 || p == PixelType::Bgr48; }
static bool colour(PixelType p) { return p == PixelType::Bgr24 || p == PixelType::Bgra32 || p == PixelType::Bgr48; }
static bool usesLut(const Chan& c) { return c.ci.lookUpTableElementCount != 0; }
static bool usesBw(const Chan& c) { return !usesLut(c) && !(c.ci.blackPoint <= 0 && c.ci.whitePoint >= 1); }

/// the mapped colour of one pixel of a channel (b,g,r), each the set of right values
static void mapped(const Chan& c, const uint8_t* p, Iv out[3])
{
    const PixelType t = c.img.pt; const double max = wide(t) ? 65535 : 255; unsigned v[3]; const int n = colour(t) ? 3 : 1;
    for (int k = 0; k < n; ++k) { if (wide(t)) { uint16_t x; memcpy(&x, p + 2 * k, 2); v[k] = x; } else v[k] = p[k]; }
    for (int k = n; k < 3; ++k) v[k] = v[0];
    const double tint[3] = { (double)c.ci.tinting.color.b, (double)c.ci.tinting.color.g, (double)c.ci.tinting.color.r };
    if (usesLut(c))
    {
        double l[3]; for (int k = 0; k < 3; ++k) l[k] = c.lut[v[k]];
        for (int k = 0; k < 3; ++k) { if (!c.ci.enableTinting) out[k] = { l[k], l[k] }; else { const double f = (l[0] + l[1] + l[2]) / 3 / 255 * tint[k]; out[k] = rnd({ f, f }); } }
        return;
    }
    if (usesBw(c))
    {
        const double b = min<double>(max, std::max(0.0, (double)std::ceil(c.ci.blackPoint * (float)max))), w = min<double>(max, std::max(0.0, (double)std::floor(c.ci.whitePoint * (float)max)));
        auto curve = [&](double x) { return x <= b ? 0.0 : x >= w ? 1.0 : (x - b) / (w - b); };
        if (c.ci.enableTinting)
        {
            const double x = n == 3 ? (double)((v[0] + v[1] + v[2] + 1) / 3) : v[0]; const double f = curve(x);
            for (int k = 0; k < 3; ++k) out[k] = rnd({ f * tint[k], f * tint[k] });
        }
        else for (int k = 0; k < 3; ++k) { const double f = curve(v[k]) * 255; out[k] = rnd({ f, f }); }
        return;
    }
    if (c.ci.enableTinting) { const double f = ((double)v[0] + v[1] + v[2]) / 3 / max; for (int k = 0; k < 3; ++k) out[k] = rnd({ f * tint[k], f * tint[k] }); }
    else for (int k = 0; k < 3; ++k) { const double x = wide(t) ? v[k] >> 8 : v[k]; out[k] = { x, x }; }
}
static float genPoint(Gen& g, bool black)
{
    switch (g.below(7))
    {
    case 0: return black ? 0.0f : 1.0f;
    case 1: return g.of<float>({ 0.0f, 1.0f, 0.5f, 1.0f / 255, 254.0f / 255, 1.0f / 65535 });
    case 2: return black ? (float)g.range(0, 50) / 100 : (float)g.range(50, 100) / 100;
    case 3: return (float)g.range(0, 255) / 255;
    case 4: return g.of<float>({ -0.1f, -0.5f, 1.2f, 1.7f, -100.0f, 100.0f });
    default: return (float)g.range(0, 1000) / 1000;
    }
}
static void genChan(Gen& g, Chan& c, int w, int h, bool mayBeBad)
{
    PixelType t = g.of<PixelType>({ PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgra32 });
    if (mayBeBad && g.chance(1, 6)) t = PixelType::Gray32Float;
    c.img.pt = t; c.img.w = w; c.img.h = h; c.img.px = genPixels(g, c.img.line() * (size_t)h);
    if (wide(t) && g.coin()) { const unsigned hi = (unsigned)g.range(0, 255); for (size_t k = 1; k < c.img.px.size(); k += 2) if (g.coin()) c.img.px[k] = (uint8_t)hi; }
    c.ci.Clear(); c.ci.weight = 1; c.ci.blackPoint = 0; c.ci.whitePoint = 1;
    c.ci.enableTinting = g.coin();
    auto col = [&] { return g.chance(1, 3) ? g.of<uint8_t>({ 0, 255, 128, 1 }) : (uint8_t)g.below(256); };
    c.ci.tinting.color.r = col(); c.ci.tinting.color.g = col(); c.ci.tinting.color.b = col();
    const int mode = g.weighted({ 3, 4, 3 }); // no mapping, points, table
    if (mode >= 1) { c.ci.blackPoint = genPoint(g, true); c.ci.whitePoint = genPoint(g, false); }
    if (mode == 2)
    {
        c.ci.lookUpTableElementCount = wide(t) ? 65536 : 256;
        if (mayBeBad && g.chance(1, 4)) c.ci.lookUpTableElementCount = g.of<int>({ 1, 255, 256, 257, 65535, 65536, -1, -256, 4096 });
        const size_t n = c.ci.lookUpTableElementCount > 0 ? (size_t)c.ci.lookUpTableElementCount : 1;
        c.lut = g.coin() ? g.bytes(n) : Bytes(n); if (c.lut.size() > 1 && c.lut[0] == 0 && c.lut[1] == 0) for (size_t k = 0; k < n; ++k) c.lut[k] = (uint8_t)(255 - k * 255 / n);
        c.lutMem = make_unique<Exact>(n); memcpy(c.lutMem->p, c.lut.data(), n); c.ci.ptrLookUpTable = c.lutMem->p;
        if (mayBeBad && g.chance(1, 6)) c.ci.ptrLookUpTable = nullptr;
    }
    c.bm = make_unique<UserBitmap>(t, (uint32_t)w, (uint32_t)h, g.coin() ? 0 : (uint32_t)(g.range(1, 9) * (wide(t) ? 2 : 1)), 0x6b); c.bm->put(c.img);
}
static const char* mapName(const Chan& c) { return usesLut(c) ? "table" : usesBw(c) ? "points" : "plain"; }

static void compose(Gen& g, bool mayBeBad)
{
    const bool broad = g.chance(1, 60); const int w = broad ? (int)g.range(24, 900) : (int)g.size(1, 24), h = (int)g.size(1, broad ? 3 : 8), n = g.chance(1, 30) ? (int)g.range(5, 14) : (int)g.range(1, 4);
    vector<Chan> ch((size_t)n); for (auto& c : ch) genChan(g, c, w, h, mayBeBad);
    switch (g.below(5)) // weights: equal, different, with zeros, invalid ones
    {
    case 0: break;
    case 1: { const float x = (float)g.range(0, 40) / 8; for (auto& c : ch) c.ci.weight = x; break; }
    case 4: for (auto& c : ch) c.ci.weight = (float)g.range(0, 3); if (g.chance(1, 3)) ch[(size_t)g.below(ch.size())].ci.weight = g.of<float>({ -1.0f, numeric_limits<float>::quiet_NaN(), numeric_limits<float>::infinity() }); break;
    default: for (auto& c : ch) c.ci.weight = (float)g.range(0, 4000) / 1000; break;
    }
    const bool bgra = g.coin(); const uint8_t alpha = (uint8_t)g.below(256); const PixelType dt = bgra ? PixelType::Bgra32 : PixelType::Bgr24;
    int how = (int)g.below(3); // into a bitmap of the caller, returned bitmap, returned from an iterator
    // what is wrong, if anything
    bool bad = false; string why; PixelType dtUsed = dt; int dw = w, dh = h, count = n; bool nullArr = false, nullInfo = false;
    if (mayBeBad && g.chance(1, 2))
    {
        switch (g.below(6))
        {
        case 0: dtUsed = g.of<PixelType>({ PixelType::Gray8, PixelType::Bgr24, PixelType::Bgra32, PixelType::Bgr48 }); how = 0; break;
        case 1: (g.coin() ? dw : dh) += 1; how = 0; break;
        case 2: if (n > 1) { Chan& c = ch[(size_t)g.range(1, n - 1)]; c.isNull = true; } else { ch[0].isNull = true; how = 0; } break;
        case 3: count = (int)g.range0(-1, 0); how = 0; break;
        case 4: (g.coin() ? nullArr : nullInfo) = true; how = 0; break;
        default: { Chan& c = ch[(size_t)g.below(ch.size())]; const int w2 = w + (int)g.range(1, 2); c.img.w = w2; c.img.px = genPixels(g, c.img.line() * (size_t)h); c.bm = make_unique<UserBitmap>(c.img.pt, (uint32_t)w2, (uint32_t)h, 0, 0x6b); c.bm->put(c.img); if (n == 1) how = 0; break; }
        }
    }
    auto need = [&](bool b, const char* s) { if (b && !bad) { bad = true; why = s; } };
    need(count <= 0, "no channel"); need(dtUsed != dt, "destination type"); need(dw != w || dh != h, "destination size"); need(nullArr || nullInfo, "null array");
    for (auto& c : ch)
    {
        need(c.isNull, "null bitmap"); need(c.img.w != w && !(n == 1 && how != 0), "source size"); need(c.img.pt == PixelType::Gray32Float, "source type");
        need(usesLut(c) && (c.img.pt == PixelType::Bgra32), "table with Bgra32"); need(usesLut(c) && c.ci.lookUpTableElementCount != (wide(c.img.pt) ? 65536 : 256), "table size"); need(usesLut(c) && !c.ci.ptrLookUpTable, "null table");
        need(usesBw(c) && c.img.pt == PixelType::Bgra32, "points with Bgra32");
    }
    string what = pbt::cat(n, " channels ", w, "x", h, bgra ? pbt::cat(" to Bgra32 alpha ", (int)alpha) : string(" to Bgr24"), ":");
    for (auto& c : ch) what += pbt::cat(" [", c.isNull ? "null " : "", Utils::PixelTypeToInformalString(c.img.pt), " ", mapName(c), c.ci.enableTinting ? pbt::cat(" tint ", (int)c.ci.tinting.color.r, ",", (int)c.ci.tinting.color.g, ",", (int)c.ci.tinting.color.b) : string(), " weight ", c.ci.weight, usesBw(c) ? pbt::cat(" points ", c.ci.blackPoint, "..", c.ci.whitePoint) : string(), usesLut(c) ? pbt::cat(" table of ", c.ci.lookUpTableElementCount) : string(), "]");
    g.d() << what;

    vector<IBitmapData*> src; vector<Compositors::ChannelInfo> ci; for (auto& c : ch) { src.push_back(c.isNull ? nullptr : c.bm.get()); ci.push_back(c.ci); }
    const auto ci0 = ci;
    bool thrown = false; Img r;
    auto fill = genPixels(g, (size_t)bpp(dtUsed) * (size_t)(dw * dh));
    UserBitmap dest(dtUsed, (uint32_t)dw, (uint32_t)dh, g.coin() ? 0 : (uint32_t)g.range(1, 9), 0x91);
    { Img d0; d0.pt = dtUsed; d0.w = dw; d0.h = dh; d0.px = fill; dest.put(d0); }
    IBitmapData* const* sp = nullArr ? nullptr : src.data(); const Compositors::ChannelInfo* ip = nullInfo ? nullptr : ci.data();
    try
    {
        if (how == 0) { if (bgra) Compositors::ComposeMultiChannel_Bgra32(&dest, alpha, count, sp, ip); else Compositors::ComposeMultiChannel_Bgr24(&dest, count, sp, ip); r = dest.get(); }
        else if (how == 1) r = fromBitmap(bgra ? Compositors::ComposeMultiChannel_Bgra32(alpha, count, sp, ip) : Compositors::ComposeMultiChannel_Bgr24(count, sp, ip));
        else
        {
            vector<shared_ptr<IBitmapData>> v; for (auto p : src) v.push_back(shared_ptr<IBitmapData>(p, [](IBitmapData*) {}));
            r = fromBitmap(bgra ? Compositors::ComposeMultiChannel_Bgra32(alpha, count, v.begin(), ip) : Compositors::ComposeMultiChannel_Bgr24(count, v.begin(), ip));
        }
    }
    catch (exception&) { thrown = true; }
    for (auto& c : ch) { if (c.isNull) continue; c.bm->checkSurroundings(); PBT_REQUIRE("source", c.bm->get() == c.img, what, ": a source bitmap was changed"); if (c.lutMem) PBT_REQUIRE("table", memcmp(c.lutMem->p, c.lut.data(), c.lut.size()) == 0, what, ": a table was changed"); }
    dest.checkSurroundings();
    if (bad) { PBT_REQUIRE("accepted", thrown, what, ": is accepted in spite of: ", why); g.cls("refused: " + why); return; }
    PBT_REQUIRE("refused", !thrown, what, ": reports an error");
    PBT_REQUIRE("kind", r.pt == dt && r.w == ch[0].img.w && r.h == h, what, ": gives ", str(r));

    bool weighted = true; double sum = 0; for (auto& c : ch) { if (!(c.ci.weight >= 0) || isinf(c.ci.weight)) weighted = false; sum += c.ci.weight; }
    if (weighted && sum == 0) weighted = false;
    bool allSame = true; for (auto& c : ch) if (c.ci.weight != ch[0].ci.weight) allSame = false; if (allSame) weighted = false;
    const double mean = sum / n; const int bp = bpp(dt); size_t inner = 0;
    for (int y = 0; y < h; ++y) for (int x = 0; x < r.w; ++x)
    {
        Iv acc[3] = { {0,0},{0,0},{0,0} };
        for (auto& c : ch)
        {
            Iv m[3]; mapped(c, &c.img.px[c.img.line() * (size_t)y + (size_t)(x * bpp(c.img.pt))], m);
            for (int k = 0; k < 3; ++k)
            {
                if (weighted) { const double f = c.ci.weight / mean; m[k] = rnd({ m[k].lo * f, m[k].hi * f }); }
                acc[k] = sat({ acc[k].lo + m[k].lo, acc[k].hi + m[k].hi });
            }
        }
        const uint8_t* p = &r.px[r.line() * (size_t)y + (size_t)(x * bp)];
        for (int k = 0; k < 3; ++k)
        {
            PBT_REQUIRE("content", p[k] >= acc[k].lo && p[k] <= acc[k].hi, what, ": component ", "bgr"[k], " of pixel (", x, ",", y, ") is ", (int)p[k], ", expected ", acc[k].lo, acc[k].lo != acc[k].hi ? pbt::cat("..", acc[k].hi) : string());
            if (p[k] > 0 && p[k] < 255) ++inner;
        }
        if (bgra) PBT_REQUIRE("alpha", p[3] == alpha, what, ": alpha of pixel (", x, ",", y, ") is ", (int)p[3]);
    }
    if (inner > 2) g.nontrivial();
    for (auto& c : ch) g.cls(pbt::cat(Utils::PixelTypeToInformalString(c.img.pt), c.ci.enableTinting ? " tinted " : " ", mapName(c)));
    g.cls(weighted ? "weighted" : "unweighted"); g.cls(pbt::cat(n, " channels")); g.cls(how == 0 ? "into a bitmap" : how == 1 ? "returned" : "iterator");
}
int main(int argc, char** argv)
{
    pbt::Config c; c.property = "P14";
    c.rule = "a composition is non-trivial if at least three components of the result are neither 0 nor 255";
    c.assumptions = { "weights are finite numbers of moderate size, or invalid as a whole (negative, not a number, infinite)", "the black and the white point are numbers" };
    c.subs = {
        { "compose", 250000, 4000000, [](Gen& g) { compose(g, false); } },
        { "reject", 60000, 1000000, [](Gen& g) { compose(g, true); } },
    };
    return pbt::main(argc, argv, c);
}
