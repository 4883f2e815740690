// P07: zstd compression is lossless and keeps its contract
#include "img.hpp"
#include "libCZI_compress.h"
#include "libCZI_Site.h"
#include <zstd.h>
using namespace czi;
using namespace std;

/// reference decoder, built on the zstd library only
static bool refDecode(const Bytes& c, bool one, Img& i)
{
    size_t o = 0; bool lohi = false;
    if (one)
    {
        if (c.size() < 1) return false;
        if (c[0] == 1) o = 1;
        else if (c[0] == 3 && c.size() >= 3 && c[1] == 1) { o = 3; lohi = (c[2] & 1) != 0; }
        else return false;
    }
    const size_t n = i.line() * (size_t)i.h;
    Bytes t(n + 1);
    const size_t r = ZSTD_decompress(t.data(), t.size(), c.data() + o, c.size() - o);
    if (ZSTD_isError(r) || r != n) return false;
    t.resize(n);
    if (lohi) { i.px.resize(n); for (size_t k = 0; k < n / 2; ++k) { i.px[2 * k] = t[k]; i.px[2 * k + 1] = t[n / 2 + k]; } }
    else i.px = t;
    return true;
}
static const char* MISMATCH = "handle_data_size_mismatch";

static void decodeAll(const Bytes& c, bool one, const Img& img, bool doc)
{
    Exact e(c.size()); if (c.size()) memcpy(e.p, c.data(), c.size());
    auto dec = GetDefaultSiteObject(SiteObjectType::Default)->GetDecoder(one ? ImageDecoderType::ZStd1 : ImageDecoderType::ZStd0, nullptr);
    PixelType pt = img.pt; uint32_t w = (uint32_t)img.w, h = (uint32_t)img.h;
    for (const char* opt : { (const char*)nullptr, MISMATCH })
    {
        Img got;
        try { got = fromBitmap(dec->Decode(e.p, c.size(), &pt, &w, &h, opt)); }
        catch (exception& x) { pbt::fail("decode-error", pbt::cat("decoding ", str(img), " with options '", opt ? opt : "", "' reports ", x.what())); }
        PBT_REQUIRE("decode", got == img, "decoder with options '", opt ? opt : "", "': ", firstDiff(got, img));
    }
    if (doc)
    {
        auto sb = roundTripTile(tileOf(img, one ? 6 : 5, c));
        for (int strict = 0; strict < 2; ++strict)
        {
            CreateBitmapOptions o; if (strict) o.handle_zstd_data_size_mismatch = false;
            Img got;
            try { got = fromBitmap(CreateBitmapFromSubBlock(sb.get(), &o)); }
            catch (exception& x) { pbt::fail("tile-error", pbt::cat("tile ", str(img), " strict=", strict, " reports ", x.what())); }
            PBT_REQUIRE("tile", got == img, "tile, strict=", strict, ": ", firstDiff(got, img));
        }
        PBT_REQUIRE("tile", fromBitmap(sb->CreateBitmap()) == img, "tile: CreateBitmap() differs");
    }
}

struct Alloc
{
    map<void*, size_t> live; int n = 0, failAt = -1; string err;
    function<void* (size_t)> a() { return [this](size_t s)->void* { if (n++ == failAt) return nullptr; void* p = malloc(s); live[p] = s; return p; }; }
    function<void(void*)> f() { return [this](void* p) { if (!live.erase(p)) { err = "a block was returned that had not been handed out"; return; } free(p); }; }
};

static void roundTrip(Gen& g)
{
    const bool one = g.coin();
    const PixelType pt = g.of<PixelType>({ PixelType::Gray16, PixelType::Bgr48, PixelType::Gray8, PixelType::Bgr24, PixelType::Gray32Float, PixelType::Bgra32, PixelType::Bgr96Float, PixelType::Gray64ComplexFloat, PixelType::Gray64Float });
    const bool huge = g.chance(1, 400), wide = g.coin(); Img img = huge ? genImg(g, pt, wide ? 70000 : 3, wide ? 3 : 70000) : genImg(g, pt, g.chance(1, 20) ? 400 : 70, g.chance(1, 20) ? 200 : 20);
    const bool copyable = pt == PixelType::Gray16 || pt == PixelType::Bgr48 || pt == PixelType::Gray8 || pt == PixelType::Bgr24 || pt == PixelType::Gray32Float;
    size_t stride = img.line();
    if (g.coin()) stride += g.coin() ? (size_t)g.range(1, 3) : (size_t)g.range(4, 70);
    if (!copyable) stride = img.line();
    if (stride == img.line() + 1 && bpp(pt) % 2 == 0 && g.coin()) ++stride;
    CompressParametersOnMap pm; string pd; bool lohi = false;
    const bool haveParams = g.chance(4, 5);
    if (haveParams)
    {
        if (g.coin())
        {
            const int lvl = g.chance(1, 4) ? g.of<int>({ -1000000, 22, 23, 1000, INT32_MIN, INT32_MAX, 0 }) : (int)g.range(-7, 9);
            pm.map[(int)CompressionParameterKey::ZSTD_RAWCOMPRESSIONLEVEL] = CompressParameter((int32_t)lvl); pd += pbt::cat(" level=", lvl);
            if ((lvl > 12 || lvl < -7) && img.px.size() > 4000) throw pbt::Discard();
        }
        else if (g.chance(1, 8)) { pm.map[1] = CompressParameter((uint32_t)5); pd += " level=(wrong type)"; }
        if (g.chance(2, 3)) { lohi = g.chance(3, 4); pm.map[2] = CompressParameter(lohi); pd += pbt::cat(" pack=", lohi); }
    }
    const ICompressParameters* pp = haveParams ? &pm : (g.coin() ? nullptr : &pm);
    g.d() << (one ? "zstd1 " : "zstd0 ") << str(img) << " stride " << stride << pd;
    g.cls(one ? "zstd1" : "zstd0"); g.cls(Utils::PixelTypeToInformalString(pt));
    const bool packed = one && lohi && (pt == PixelType::Gray16 || pt == PixelType::Bgr48);
    if (packed) g.cls("byte-packed"); if (stride != img.line()) g.cls("padded rows");
    set<uint8_t> distinct(img.px.begin(), img.px.end());
    if (distinct.size() > 1) g.nontrivial();
    Exact src(stridedSize(img, stride), 0xA5); toStrided(img, stride, src);
    const Bytes before(src.p, src.p + src.n);
    const size_t maxSize = one ? ZstdCompress::CalculateMaxCompressedSizeZStd1((uint32_t)img.w, (uint32_t)img.h, pt) : ZstdCompress::CalculateMaxCompressedSizeZStd0((uint32_t)img.w, (uint32_t)img.h, pt);
    Bytes out; Alloc al; const bool ownAlloc = g.coin();
    const int how = (int)g.weighted({ 4, 4, 2 });
    if (g.chance(1, 6) && ownAlloc) al.failAt = 0;
    const uint32_t w = (uint32_t)img.w, h = (uint32_t)img.h, st = (uint32_t)stride;
    bool noMemory = false;
    auto intoBuffer = [&](uint8_t* p, size_t& n, bool own)->bool
        {
            if (one) return own ? ZstdCompress::CompressZStd1(w, h, st, pt, src.p, al.a(), al.f(), p, n, pp) : ZstdCompress::CompressZStd1(w, h, st, pt, src.p, p, n, pp);
            return own ? ZstdCompress::CompressZStd0(w, h, st, pt, src.p, al.a(), al.f(), p, n, pp) : ZstdCompress::CompressZStd0(w, h, st, pt, src.p, p, n, pp);
        };
    try
    {
        if (how == 0)
        {
            Exact dst(maxSize); size_t n = maxSize;
            PBT_REQUIRE("max-size", intoBuffer(dst.p, n, ownAlloc), "a destination of the announced maximal size ", maxSize, " is reported as too small");
            PBT_REQUIRE("max-size", n <= maxSize, "compressed size ", n, " exceeds the announced maximum ", maxSize);
            out.assign(dst.p, dst.p + n);
        }
        else if (how == 1)
        {
            shared_ptr<IMemoryBlock> b;
            if (one) b = ownAlloc ? ZstdCompress::CompressZStd1Alloc(w, h, st, pt, src.p, al.a(), al.f(), pp) : ZstdCompress::CompressZStd1Alloc(w, h, st, pt, src.p, pp);
            else b = ownAlloc ? ZstdCompress::CompressZStd0Alloc(w, h, st, pt, src.p, al.a(), al.f(), pp) : ZstdCompress::CompressZStd0Alloc(w, h, st, pt, src.p, pp);
            PBT_REQUIRE("alloc", b != nullptr, "no block was returned");
            out.assign((uint8_t*)b->GetPtr(), (uint8_t*)b->GetPtr() + b->GetSizeOfData());
        }
        else
        {
            // find out the size, then use less
            Exact full(maxSize); size_t n = maxSize;
            PBT_REQUIRE("max-size", intoBuffer(full.p, n, false), "a destination of the announced maximal size is reported as too small");
            const size_t cap = g.chance(1, 3) ? n - 1 - (size_t)g.size(0, 20) % n : (size_t)g.range(0, (int64_t)n - 1);
            Exact dst(cap); size_t m = cap; bool ok = false, inv = false;
            try { ok = intoBuffer(dst.p, m, ownAlloc); }
            catch (invalid_argument&) { inv = true; }
            PBT_REQUIRE("too-small", !inv || cap < (one ? 4u : 1u), "a destination of ", cap, " bytes is refused as invalid");
            PBT_REQUIRE("too-small", !ok || m <= cap, "reports ", m, " bytes in a destination of ", cap);
            PBT_REQUIRE("too-small", ok || m == cap, "failure changed the size from ", cap, " to ", m);
            g.cls(ok ? "small destination suffices" : "small destination refused");
            if (ok) out.assign(dst.p, dst.p + m); else out.assign(full.p, full.p + n);
        }
    }
    catch (runtime_error& x) { noMemory = true; PBT_REQUIRE("error", al.failAt == 0 && al.n > 0, "compression reports ", x.what()); g.cls("allocation failed"); }
    PBT_REQUIRE("alloc-return", al.err.empty(), al.err);
    PBT_REQUIRE("alloc-return", al.live.empty(), al.live.size(), " of ", al.n, " temporary blocks were not returned");
    PBT_REQUIRE("alloc-fail", noMemory || !(al.failAt == 0 && al.n > 0), "failing allocation of a temporary block was not reported");
    PBT_REQUIRE("source", Bytes(src.p, src.p + src.n) == before, "the source was modified");
    if (noMemory) return;
    Img ref = img; ref.px.clear();
    PBT_REQUIRE("reference", refDecode(out, one, ref), "the compressed data is not valid zstd", one ? "1" : "0", " data of the image's size");
    PBT_REQUIRE("reference", ref == img, "decoded with the zstd library: ", firstDiff(ref, img));
    if (one) PBT_REQUIRE("header", out.size() >= 3 && (out[2] & 1) == (packed ? 1 : 0), "byte packing in the header does not match the parameters");
    decodeAll(out, one, img, g.chance(1, 3));
    // the short zstd1 header
    if (one && !packed && g.chance(1, 4)) { Bytes s(out.begin() + 2, out.end()); s[0] = 1; decodeAll(s, true, img, g.coin()); g.cls("short header"); }
}

static void invalidArgs(Gen& g)
{
    const bool one = g.coin();
    const PixelType pt = g.of<PixelType>({ PixelType::Gray16, PixelType::Bgr48, PixelType::Gray8, PixelType::Bgr24 });
    Img img = genImg(g, pt, 20, 10);
    uint32_t w = (uint32_t)img.w, h = (uint32_t)img.h, st = (uint32_t)img.line();
    Exact src(stridedSize(img, st)); toStrided(img, st, src);
    Exact dst(4096 * 8); size_t n = dst.n; const void* sp = src.p; void* dp = dst.p; Alloc al;
    auto af = al.a(); auto ff = al.f(); PixelType upt = pt;
    const int k = (int)g.below(8); const char* names[] = { "w=0", "h=0", "stride too small", "null source", "null destination", "no alloc", "no free", "bad pixel type" };
    switch (k)
    {
    case 0: w = 0; break; case 1: h = 0; break; case 2: st -= (uint32_t)g.range(1, st); break; case 3: sp = nullptr; break;
    case 4: dp = nullptr; break; case 5: af = nullptr; break; case 6: ff = nullptr; break; default: upt = g.of<PixelType>({ PixelType::Invalid, (PixelType)77 }); break;
    }
    const bool alloc = k != 4 && g.coin();
    g.d() << (one ? "zstd1 " : "zstd0 ") << (alloc ? "Alloc " : "") << str(img) << " " << names[k]; g.cls(names[k]); g.nontrivial();
    bool refused = false;
    try
    {
        if (alloc) { if (one) ZstdCompress::CompressZStd1Alloc(w, h, st, upt, sp, af, ff, nullptr); else ZstdCompress::CompressZStd0Alloc(w, h, st, upt, sp, af, ff, nullptr); }
        else { if (one) ZstdCompress::CompressZStd1(w, h, st, upt, sp, af, ff, dp, n, nullptr); else ZstdCompress::CompressZStd0(w, h, st, upt, sp, af, ff, dp, n, nullptr); }
    }
    catch (exception&) { refused = true; }
    PBT_REQUIRE("invalid", refused, names[k], " was accepted");
    PBT_REQUIRE("alloc-return", al.live.empty() && al.err.empty(), "temporary blocks not returned");
}

int main(int argc, char** argv)
{
    pbt::Config c;
    c.property = "P07";
    c.rule = "round trips: the image contains at least two different byte values; invalid arguments: always";
    c.assumptions = { "images up to 400x200 pixels", "pixel types beyond Gray8, Gray16, Gray32Float, Bgr24 and Bgr48 only without row padding (the library documents no support for others)" };
    c.subs = { { "roundtrip", 140000, 900000, roundTrip }, { "invalid", 10000, 60000, invalidArgs } };
    return pbt::main(argc, argv, c);
}
