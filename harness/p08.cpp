// P08: lossless JPEG XR reproduces the image
#include "img.hpp"
#include "libCZI_compress.h"
#include "libCZI_Site.h"
using namespace czi;
using namespace std;

static Img decode(const void* p, size_t n, const PixelType* pt = nullptr, const uint32_t* w = nullptr, const uint32_t* h = nullptr)
{
    auto dec = GetDefaultSiteObject(SiteObjectType::Default)->GetDecoder(ImageDecoderType::JPXR_JxrLib, nullptr);
    return fromBitmap(dec->Decode(p, n, pt, w, h, nullptr));
}
static Bytes genFloats(Gen& g, size_t n)
{
    vector<float> f(n); pbt::Rng r(g.seed64()); const int k = (int)g.below(3);
    for (auto& x : f) { uint64_t v = r.next(); x = k == 0 ? (float)(v % 256) : k == 1 ? (float)(v % 65536) / 65536.f : (float)((int64_t)(v % 2000001) - 1000000) / 1000.f; }
    Bytes b(n * 4); if (n) memcpy(b.data(), f.data(), b.size());
    return b;
}

static void roundTrip(Gen& g)
{
    const PixelType pt = g.of<PixelType>({ PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float });
    const bool huge = g.chance(1, 300), wide = g.coin(); Img img = huge ? genImg(g, pt, wide ? 3000 : 9, wide ? 9 : 3000) : genImg(g, pt, g.chance(1, 20) ? 150 : 45, g.chance(1, 20) ? 100 : 40);
    if (pt == PixelType::Gray32Float) img.px = genFloats(g, (size_t)img.w * (size_t)img.h);
    size_t stride = img.line(); if (g.coin()) stride += (size_t)g.range(1, 40);
    if (g.chance(2, 3)) { const size_t a = pt == PixelType::Gray8 || pt == PixelType::Bgr24 ? 1 : pt == PixelType::Gray32Float ? 4 : 2; stride = (stride + a - 1) / a * a; }
    int q = -1; CompressParametersOnMap pm; const ICompressParameters* pp = nullptr;
    switch (g.weighted({ 3, 3, 1, 4 }))
    {
    case 0: q = 1000; break;
    case 1: break; // no parameters: lossless
    case 2: q = 1000 + (int)g.range(1, 5000); break;
    default: q = (int)g.range(0, 999); break;
    }
    if (q >= 0) { pm.map[(int)CompressionParameterKey::JXRLIB_QUALITY] = CompressParameter((uint32_t)q); pp = &pm; }
    else if (g.coin()) pp = &pm;
    const bool lossless = q < 0 || q >= 1000;
    g.d() << str(img) << " stride " << stride << " quality " << q; g.cls(Utils::PixelTypeToInformalString(pt)); g.cls(lossless ? "lossless" : "lossy");
    set<uint8_t> distinct(img.px.begin(), img.px.end()); if (distinct.size() > 1) g.nontrivial();
    Exact src(stridedSize(img, stride), 0xA5); toStrided(img, stride, src); const Bytes before(src.p, src.p + src.n);
    shared_ptr<IMemoryBlock> mb;
    try { mb = JxrLibCompress::Compress(pt, (uint32_t)img.w, (uint32_t)img.h, (uint32_t)stride, src.p, pp); }
    catch (exception& x) { pbt::fail("encode-error", pbt::cat("compressing reports ", x.what())); }
    PBT_REQUIRE("source", Bytes(src.p, src.p + src.n) == before, "the source was modified");
    PBT_REQUIRE("encode", mb && mb->GetPtr() && mb->GetSizeOfData() > 0, "no data");
    const Bytes c((uint8_t*)mb->GetPtr(), (uint8_t*)mb->GetPtr() + mb->GetSizeOfData());
    mb.reset();
    Exact e(c.size()); memcpy(e.p, c.data(), c.size());
    uint32_t w = (uint32_t)img.w, h = (uint32_t)img.h;
    Img got;
    try { got = g.coin() ? decode(e.p, e.n) : decode(e.p, e.n, &pt, &w, &h); }
    catch (exception& x) { pbt::fail("decode-error", pbt::cat("decoding reports ", x.what())); }
    PBT_REQUIRE("shape", got.pt == img.pt && got.w == img.w && got.h == img.h, "got ", str(got), " for ", str(img));
    if (lossless && pt != PixelType::Gray32Float) PBT_REQUIRE("lossless", got == img, firstDiff(got, img));
    if (lossless && pt == PixelType::Gray32Float)
        for (size_t k = 0; k < img.px.size(); k += 4)
        {
            float a, b; memcpy(&a, &img.px[k], 4); memcpy(&b, &got.px[k], 4);
            PBT_REQUIRE("float", fabs((double)a - b) <= fabs((double)a) / 8192 + 1e-4, "float pixel ", k / 4, " is ", b, ", expected ", a);
        }
    // a wrong expectation is refused
    if (g.chance(1, 4))
    {
        PixelType wrong = pt == PixelType::Gray8 ? PixelType::Gray16 : PixelType::Gray8; uint32_t w2 = w + 1, h2 = h + 1; const int k = (int)g.below(3); bool refused = false;
        try { decode(e.p, e.n, k == 0 ? &wrong : nullptr, k == 1 ? &w2 : nullptr, k == 2 ? &h2 : nullptr); }
        catch (exception&) { refused = true; }
        PBT_REQUIRE("expectation", refused, "data of ", str(img), " accepted although a different ", k == 0 ? "pixel type" : k == 1 ? "width" : "height", " was asked for");
    }
    // as a tile, in both modes of reading
    if (g.chance(1, 3))
    {
        auto sb = roundTripTile(tileOf(img, 4, c)); g.cls("as tile");
        for (int strict = 0; strict < 2; ++strict)
        {
            CreateBitmapOptions o; if (strict) o.handle_jpgxr_bitmap_mismatch = false;
            Img t = fromBitmap(CreateBitmapFromSubBlock(sb.get(), &o));
            PBT_REQUIRE("tile", t == got, "tile, strict=", strict, ": ", firstDiff(t, got));
        }
    }
}
/// lower quality settings: the error must stay bounded on smooth images and not depend on the padding
static void quality(Gen& g)
{
    const PixelType pt = g.of<PixelType>({ PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48 });
    Img img; img.pt = pt; img.w = (int)g.range(16, 60); img.h = (int)g.range(16, 60);
    const int ch = pt == PixelType::Gray8 || pt == PixelType::Gray16 ? 1 : 3; const bool wide = bpp(pt) == 2 * ch; const double vmax = wide ? 65535 : 255;
    double base[3], dx[3], dy[3];
    for (int c = 0; c < 3; ++c) { base[c] = 0.2 + 0.6 * g.unit(); dx[c] = 0.002 * (g.unit() - .5); dy[c] = 0.002 * (g.unit() - .5); }
    img.px.resize(img.line() * (size_t)img.h); size_t k = 0;
    for (int y = 0; y < img.h; ++y) for (int x = 0; x < img.w; ++x) for (int c = 0; c < ch; ++c)
    {
        const unsigned v = (unsigned)(vmax * (base[c] + dx[c] * x + dy[c] * y));
        img.px[k++] = (uint8_t)v; if (wide) img.px[k++] = (uint8_t)(v >> 8);
    }
    const uint32_t q = (uint32_t)g.range(700, 999);
    g.d() << str(img) << " quality " << q; g.cls(Utils::PixelTypeToInformalString(pt)); g.nontrivial();
    CompressParametersOnMap pm; pm.map[(int)CompressionParameterKey::JXRLIB_QUALITY] = CompressParameter(q);
    auto mb = JxrLibCompress::Compress(pt, (uint32_t)img.w, (uint32_t)img.h, (uint32_t)img.line(), img.px.data(), &pm);
    Img got = decode(mb->GetPtr(), mb->GetSizeOfData());
    PBT_REQUIRE("shape", got.pt == img.pt && got.w == img.w && got.h == img.h, "got ", str(got), " for ", str(img));
    double worst = 0;
    for (k = 0; k < img.px.size(); k += wide ? 2 : 1)
    {
        const int a = img.px[k] + (wide ? img.px[k + 1] * 256 : 0), b = got.px[k] + (wide ? got.px[k + 1] * 256 : 0);
        worst = max(worst, fabs(a - b) / vmax);
    }
    PBT_REQUIRE("close", worst < 0.12, "smooth image at quality ", q, " deviates by ", worst * 100, " %");
}
static void invalidArgs(Gen& g)
{
    PixelType pt = g.of<PixelType>({ PixelType::Gray16, PixelType::Bgr48, PixelType::Gray8, PixelType::Bgr24, PixelType::Gray32Float });
    Img img = genImg(g, pt, 20, 10);
    uint32_t w = (uint32_t)img.w, h = (uint32_t)img.h, st = (uint32_t)img.line();
    Exact src(stridedSize(img, st)); toStrided(img, st, src); const void* sp = src.p;
    const int k = (int)g.below(6); const char* names[] = { "w=0", "h=0", "stride too small", "null source", "unsupported pixel type", "garbage to decode" };
    g.d() << str(img) << " " << names[k]; g.cls(names[k]); g.nontrivial();
    switch (k)
    {
    case 0: w = 0; break; case 1: h = 0; break; case 2: st -= (uint32_t)g.range(1, st); break; case 3: sp = nullptr; break;
    case 4: pt = g.of<PixelType>({ PixelType::Invalid, PixelType::Bgra32, PixelType::Bgr96Float, PixelType::Gray64Float }); break; default: break;
    }
    bool refused = false;
    try
    {
        if (k == 5) { Bytes b = g.bytes((size_t)g.size(0, 200)); Exact e(b.size()); if (b.size()) memcpy(e.p, b.data(), b.size()); decode(e.p, e.n); }
        else JxrLibCompress::Compress(pt, w, h, st, sp, nullptr);
    }
    catch (exception&) { refused = true; }
    PBT_REQUIRE("invalid", refused, names[k], " was accepted");
}

int main(int argc, char** argv)
{
    pbt::Config c;
    c.property = "P08";
    c.rule = "round trips: the image contains at least two different byte values; others: always";
    c.assumptions = { "images up to 150x100 pixels" };
    c.subs = { { "roundtrip", 80000, 400000, roundTrip }, { "quality", 8000, 40000, quality }, { "invalid", 10000, 60000, invalidArgs } };
    return pbt::main(argc, argv, c);
}
