// P09: tile data of unexpected size is handled as documented
#include "img.hpp"
#include "ref.hpp"
#include "libCZI_compress.h"
#include "libCZI_Site.h"
#include <zstd.h>
using namespace czi;
using namespace std;

static Bytes zstdOf(const Bytes& b, bool contentSize = true)
{
    Bytes o(ZSTD_compressBound(b.size()) + 16);
    ZSTD_CCtx* c = ZSTD_createCCtx();
    ZSTD_CCtx_setParameter(c, ZSTD_c_contentSizeFlag, contentSize ? 1 : 0);
    const size_t n = ZSTD_compress2(c, o.data(), o.size(), b.data(), b.size());
    ZSTD_freeCCtx(c);
    if (ZSTD_isError(n)) throw pbt::Discard();
    o.resize(n); return o;
}
struct Outcome { bool err = false; string what; Img img; };
static Outcome create(const shared_ptr<ISubBlock>& sb, const CreateBitmapOptions* o)
{
    Outcome r;
    try { r.img = fromBitmap(CreateBitmapFromSubBlock(sb.get(), o)); }
    catch (exception& e) { r.err = true; r.what = e.what(); }
    return r;
}
/// expected result: declared shape, `avail` bytes of tight pixel data at their place, zero elsewhere
static Img expectTight(const Img& decl, const Bytes& avail)
{
    Img e = decl; e.px.assign(e.line() * (size_t)e.h, 0);
    memcpy(e.px.data(), avail.data(), min(avail.size(), e.px.size()));
    return e;
}
static CreateBitmapOptions strictFor(int kind, bool strict)
{
    CreateBitmapOptions o; if (!strict) return o;
    if (kind == 0) o.handle_uncompressed_data_size_mismatch = false;
    else if (kind == 1) o.handle_zstd_data_size_mismatch = false;
    else o.handle_jpgxr_bitmap_mismatch = false;
    return o;
}
/// an option of another compression has no influence
static CreateBitmapOptions otherStrict(int kind)
{
    CreateBitmapOptions o; o.handle_jpgxr_bitmap_mismatch = kind == 2; o.handle_uncompressed_data_size_mismatch = kind == 0; o.handle_zstd_data_size_mismatch = kind == 1;
    return o;
}

static void plain(Gen& g)
{
    const int form = (int)g.below(4); // uncompressed, zstd0, zstd1, zstd1 packed
    const PixelType pt = form == 3 ? g.of<PixelType>({ PixelType::Gray16, PixelType::Bgr48 }) : g.of<PixelType>({ PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float, PixelType::Bgra32, PixelType::Bgr96Float, PixelType::Gray64ComplexFloat });
    Img decl; decl.pt = pt; decl.w = (int)g.size(1, 40); decl.h = (int)g.size(1, 30); if (g.chance(1, 60)) { decl.w = (int)g.range(1, 600); decl.h = (int)g.range(1, 200); }
    const size_t full = decl.line() * (size_t)decl.h; size_t n;
    switch (g.weighted({ 2, 3, 3, 2, 2 }))
    {
    case 0: n = full; break;
    case 1: n = full - min<size_t>(full, (size_t)g.range(1, 8)); break;
    case 2: n = (size_t)g.range(0, (int64_t)full); break;
    case 3: n = full + (size_t)g.range(1, 9); break;
    default: n = full + (size_t)g.size(1, 3000); break;
    }
    if (g.chance(1, 5)) n = decl.line() * (size_t)g.range(0, decl.h); // whole lines
    Bytes stored = g.bytes(n), avail = stored; Bytes payload; int comp = 0, kind = 0;
    switch (form)
    {
    case 0: payload = stored; break;
    case 1: comp = 5; kind = 1; payload = zstdOf(stored); break;
    case 2: comp = 6; kind = 1; { Bytes z = zstdOf(stored); if (g.coin()) payload = { 3, 1, (uint8_t)(g.coin() ? 0 : g.range(0, 127) * 2) }; else payload = { 1 }; payload.insert(payload.end(), z.begin(), z.end()); } break;
    default:
        comp = 6; kind = 1;
        { Bytes z = zstdOf(stored); payload = { 3, 1, (uint8_t)(g.coin() ? 1 : g.range(0, 127) * 2 + 1) }; payload.insert(payload.end(), z.begin(), z.end()); }
        avail.assign(n / 2 * 2, 0); for (size_t k = 0; k < n / 2; ++k) { avail[2 * k] = stored[k]; avail[2 * k + 1] = stored[n / 2 + k]; }
        break;
    }
    const char* names[] = { "uncompressed", "zstd0", "zstd1", "zstd1-packed" };
    g.d() << names[form] << " " << str(decl) << " stored " << n << " of " << full; g.cls(names[form]); g.cls(n == full ? "fits" : n < full ? "short" : "surplus");
    if (n != full) g.nontrivial();
    auto sb = roundTripTile(tileOf(decl, comp, payload));
    const Img want = expectTight(decl, avail);
    auto def = g.coin() ? create(sb, nullptr) : create(sb, [&] { static CreateBitmapOptions o; o = g.coin() ? CreateBitmapOptions() : [&] { auto x = otherStrict(kind); return x; }(); return &o; }());
    PBT_REQUIRE("default", !def.err, "default reading reports ", def.what);
    PBT_REQUIRE("default", def.img == want, firstDiff(def.img, want));
    auto so = strictFor(kind, true); auto st = create(sb, &so);
    if (n == full) { PBT_REQUIRE("strict-fits", !st.err, "strict reading of fitting data reports ", st.what); PBT_REQUIRE("strict-fits", st.img == want, firstDiff(st.img, want)); }
    else if (n < full || form != 0) PBT_REQUIRE("strict", st.err, "strict reading accepts ", n, " bytes instead of ", full);
    else PBT_REQUIRE("strict", st.err || st.img == want, firstDiff(st.img, want));
    if (!sb->GetSubBlockInfo().IsMindexValid()) {}
    PBT_REQUIRE("repeat", fromBitmap(sb->CreateBitmap()) == want, "reading again gives another result");
}

static void jxr(Gen& g)
{
    const auto types = { PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48 };
    Img src = genImg(g, g.of<PixelType>(types), 40, 30);
    auto mb = JxrLibCompress::Compress(src.pt, (uint32_t)src.w, (uint32_t)src.h, (uint32_t)src.line(), src.px.data(), nullptr);
    Bytes c((uint8_t*)mb->GetPtr(), (uint8_t*)mb->GetPtr() + mb->GetSizeOfData());
    Img decl; decl.pt = g.chance(2, 3) ? src.pt : g.of<PixelType>({ PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float, PixelType::Bgra32, PixelType::Bgr96Float });
    decl.w = max(1, src.w + (g.coin() ? 0 : (int)g.range0(-10, 10))); decl.h = max(1, src.h + (g.coin() ? 0 : (int)g.range0(-10, 10)));
    const bool same = decl.pt == src.pt && decl.w == src.w && decl.h == src.h;
    g.d() << "JXR data " << str(src) << " declared " << str(decl); g.cls("jxr"); g.cls(same ? "jxr fits" : decl.pt != src.pt ? "jxr other type" : "jxr other size"); if (!same) g.nontrivial();
    auto sb = roundTripTile(tileOf(decl, g.coin() ? 4 : 4, c));
    Img want = decl; want.px.assign(want.line() * (size_t)want.h, 0);
    const bool conv = ref::canCopy(src.pt, decl.pt);
    if (conv) for (int y = 0; y < min(src.h, decl.h); ++y) for (int x = 0; x < min(src.w, decl.w); ++x)
        ref::convert(src.pt, &src.px[src.line() * (size_t)y + (size_t)(x * bpp(src.pt))], decl.pt, &want.px[want.line() * (size_t)y + (size_t)(x * bpp(decl.pt))]);
    auto def = create(sb, nullptr);
    PBT_REQUIRE("default", !def.err || !conv, "default reading reports ", def.what);
    if (!def.err) { PBT_REQUIRE("default", def.img.pt == decl.pt && def.img.w == decl.w && def.img.h == decl.h, "got ", str(def.img)); PBT_REQUIRE("default", def.img == want, firstDiff(def.img, want)); }
    auto so = strictFor(2, true); auto st = create(sb, &so);
    if (same) { PBT_REQUIRE("strict-fits", !st.err, "strict reading of fitting data reports ", st.what); PBT_REQUIRE("strict-fits", st.img == want, firstDiff(st.img, want)); }
    else PBT_REQUIRE("strict", st.err, "strict reading accepts data of ", str(src), " for ", str(decl));
}

/// damaged zstd payloads are reported and never given as an image
static void damaged(Gen& g)
{
    const bool one = g.coin();
    const PixelType pt = g.of<PixelType>({ PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48 });
    Img img = genImg(g, pt, 30, 20);
    Bytes z; const int k = (int)g.below(4); const char* names[] = { "cut", "no content size", "not zstd", "empty" };
    switch (k)
    {
    case 0: z = zstdOf(img.px); if (z.size() < 2) throw pbt::Discard(); z.resize(z.size() - (size_t)g.range(1, (int64_t)z.size() - 1)); break;
    case 1: z = zstdOf(img.px, false); break;
    case 2: z = g.bytes((size_t)g.size(1, 100)); if (z.size() >= 4 && z[0] == 0x28) z[0] = 0; break;
    default: break;
    }
    Bytes p; if (one) p = { 3, 1, 0 }; p.insert(p.end(), z.begin(), z.end());
    if (one && k == 3) p.resize((size_t)g.range(0, 3));
    if (one && g.chance(1, 5) && !p.empty()) { p[0] = (uint8_t)g.of<int>({ 0, 2, 4, 131, 255 }); }
    g.d() << (one ? "zstd1 " : "zstd0 ") << str(img) << " " << names[k] << " " << p.size() << " bytes"; g.cls(names[k]); g.nontrivial();
    auto sb = roundTripTile(tileOf(img, one ? 6 : 5, p));
    auto def = create(sb, nullptr); auto so = strictFor(1, true); auto st = create(sb, &so);
    PBT_REQUIRE("damaged", def.err, "default reading accepts damaged data");
    PBT_REQUIRE("damaged", st.err, "strict reading accepts damaged data");
}

int main(int argc, char** argv)
{
    pbt::Config c;
    c.property = "P09";
    c.rule = "stored and declared size, shape or type differ, or the payload is damaged";
    c.assumptions = { "tiles up to 40x30 pixels", "JPEG XR data where no conversion to the declared pixel type exists may be refused" };
    c.subs = { { "size", 200000, 900000, plain }, { "jxr", 60000, 250000, jxr }, { "damaged", 30000, 150000, damaged } };
    return pbt::main(argc, argv, c);
}
