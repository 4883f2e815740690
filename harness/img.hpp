// Tight pixel images, exact-size buffers and bitmap helpers.
#pragma once
#include "czi.hpp"
#include <cstdlib>

namespace czi
{
    struct Img
    {
        PixelType pt = PixelType::Gray8; int w = 0, h = 0; Bytes px; // tight rows
        size_t line() const { return (size_t)bpp(this->pt) * (size_t)this->w; }
        bool operator==(const Img& o) const { return pt == o.pt && w == o.w && h == o.h && px == o.px; }
    };
    inline std::string str(const Img& i) { return pbt::cat(Utils::PixelTypeToInformalString(i.pt), " ", i.w, "x", i.h, ":", std::hex, hashBytes(i.px) & 0xffffff); }

    /// malloc'ed block of exactly n bytes, so that the address sanitizer sees each access outside of it
    struct Exact
    {
        uint8_t* p; size_t n;
        explicit Exact(size_t n_, uint8_t fill = 0xCD) : p((uint8_t*)malloc(n_ ? n_ : 1)), n(n_) { if (n) memset(p, fill, n); }
        ~Exact() { free(p); }
        Exact(const Exact&) = delete; Exact& operator=(const Exact&) = delete;
    };
    /// pixel content: one seed choice plus a kind
    inline Bytes genPixels(Gen& g, size_t n)
    {
        switch (g.below(5))
        {
        case 0: return Bytes(n, (uint8_t)g.below(256));
        case 1: return g.bytes(n);
        case 2: { Bytes b = g.bytes(n); for (auto& c : b) c &= 3; return b; }
        case 3: { Bytes b(n); unsigned k = (unsigned)g.range(1, 9); for (size_t i = 0; i < n; ++i) b[i] = (uint8_t)(i * k >> 2); return b; }
        default: { Bytes b = g.bytes(n); for (auto& c : b) c = c < 100 ? 0 : c < 200 ? 255 : c; return b; }
        }
    }
    inline Img genImg(Gen& g, PixelType pt, int maxW, int maxH)
    {
        Img i; i.pt = pt;
        i.w = g.chance(1, 3) ? (int)std::min<int64_t>(maxW, 8 * g.range(1, 6) + g.range(-1, 1)) : (int)g.size(1, maxW);
        i.h = (int)g.size(1, maxH);
        i.px = genPixels(g, i.line() * (size_t)i.h);
        return i;
    }
    /// image as rows with padding; the last row has no padding, so that the block is as small as allowed
    inline void toStrided(const Img& i, size_t stride, Exact& e)
    {
        for (int y = 0; y < i.h; ++y) memcpy(e.p + stride * (size_t)y, i.px.data() + i.line() * (size_t)y, i.line());
    }
    inline size_t stridedSize(const Img& i, size_t stride) { return i.h <= 0 || i.w <= 0 ? 0 : stride * (size_t)(i.h - 1) + i.line(); }
    inline Img fromBitmap(const std::shared_ptr<IBitmapData>& b)
    {
        PBT_REQUIRE("bitmap-null", b != nullptr, "no bitmap was returned");
        Img i; i.pt = b->GetPixelType(); i.w = (int)b->GetWidth(); i.h = (int)b->GetHeight();
        PBT_REQUIRE("bitmap-type", bpp(i.pt) > 0, "bitmap of pixel type ", (int)i.pt);
        ScopedBitmapLockerSP l(b);
        i.px.resize(i.line() * (size_t)i.h);
        PBT_REQUIRE("bitmap-stride", i.h == 0 || l.stride >= i.line(), "stride ", l.stride, " of a bitmap with lines of ", i.line());
        for (int y = 0; y < i.h; ++y) if (i.line() > 0) memcpy(i.px.data() + i.line() * (size_t)y, (const char*)l.ptrDataRoi + (size_t)l.stride * (size_t)y, i.line());
        return i;
    }
    inline std::string firstDiff(const Img& a, const Img& b)
    {
        if (a.pt != b.pt || a.w != b.w || a.h != b.h) return pbt::cat("got ", str(a), ", expected ", str(b));
        for (size_t k = 0; k < a.px.size(); ++k) if (a.px[k] != b.px[k]) { size_t y = k / a.line(), x = k % a.line() / (size_t)bpp(a.pt); return pbt::cat(str(a), ": pixel (", x, ",", y, ") byte ", k % (size_t)bpp(a.pt), " is ", (int)a.px[k], ", expected ", (int)b.px[k]); }
        return "equal";
    }
    /// document with one tile of the given raw data, read back as sub-block
    inline Sb tileOf(const Img& i, int comp, const Bytes& data)
    {
        Sb s; s.w = s.pw = i.w; s.h = s.ph = i.h; s.pt = i.pt; s.comp = comp; s.data = data; s.dims[DimensionIndex::C] = 0; s.mValid = true; s.m = 0;
        return s;
    }
    inline std::shared_ptr<ISubBlock> roundTripTile(const Sb& s)
    {
        Doc d; d.guid = GUID{ 1,2,3,{4,5,6,7,8,9,10,11} }; d.sbs.push_back(s);
        auto r = openReader(writeDoc(d));
        auto b = r->ReadSubBlock(0);
        PBT_REQUIRE("read-null", b != nullptr, "the only tile of a document can not be read");
        return b;
    }
}
