// Reference pixel conversions, written from the definition of the operations.
#pragma once
#include "img.hpp"

namespace ref
{
    using czi::Img; using czi::Bytes; using libCZI::PixelType;
    inline int chan(PixelType p) { return p == PixelType::Bgr24 || p == PixelType::Bgr48 ? 3 : 1; }
    inline bool wide(PixelType p) { return p == PixelType::Gray16 || p == PixelType::Bgr48; }
    inline bool isInt(PixelType p) { return p == PixelType::Gray8 || p == PixelType::Gray16 || p == PixelType::Bgr24 || p == PixelType::Bgr48; }
    /// pairs for which a copy with conversion is provided
    inline bool canCopy(PixelType s, PixelType d)
    {
        if (s == PixelType::Gray32Float) return d == PixelType::Gray32Float;
        return isInt(s) && (isInt(d) || d == PixelType::Gray32Float);
    }
    /// one pixel; 16->8 bit keeps the upper byte, 8->16 bit keeps the number, colour->gray is the mean
    inline void convert(PixelType s, const uint8_t* sp, PixelType d, uint8_t* dp)
    {
        if (s == d) { memcpy(dp, sp, (size_t)czi::bpp(s)); return; }
        unsigned v[3]; const int n = chan(s);
        for (int c = 0; c < n; ++c) { if (wide(s)) { uint16_t x; memcpy(&x, sp + 2 * c, 2); v[c] = x; } else v[c] = sp[c]; }
        for (int c = n; c < 3; ++c) v[c] = v[0];
        if (d == PixelType::Gray32Float)
        {
            const float f = n == 1 ? (float)v[0] : (float)(v[0] + v[1] + v[2]) / 3; memcpy(dp, &f, 4); return;
        }
        if (chan(d) == 1)
        {
            unsigned m = v[0];
            if (n == 3) m = wide(s) ? (v[0] + v[1] + v[2]) / 3 : (v[0] + v[1] + v[2] + 1) / 3;
            if (wide(s) && !wide(d)) m >>= 8;
            if (wide(d)) { const uint16_t x = (uint16_t)m; memcpy(dp, &x, 2); } else *dp = (uint8_t)m;
            return;
        }
        for (int c = 0; c < 3; ++c)
        {
            unsigned m = v[c]; if (wide(s) && !wide(d)) m >>= 8;
            if (wide(d)) { const uint16_t x = (uint16_t)m; memcpy(dp + 2 * c, &x, 2); } else dp[c] = (uint8_t)m;
        }
    }
}
