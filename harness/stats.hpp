// Reference statistics computed from a list of tiles.
#pragma once
#include "czi.hpp"

namespace czi
{
    struct Box
    {
        bool valid = false; int64_t x0 = 0, y0 = 0, x1 = 0, y1 = 0;
        void add(const Sb& s)
        {
            if (!this->valid) { this->valid = true; this->x0 = s.x; this->y0 = s.y; this->x1 = (int64_t)s.x + s.w; this->y1 = (int64_t)s.y + s.h; return; }
            this->x0 = std::min<int64_t>(this->x0, s.x); this->y0 = std::min<int64_t>(this->y0, s.y);
            this->x1 = std::max<int64_t>(this->x1, (int64_t)s.x + s.w); this->y1 = std::max<int64_t>(this->y1, (int64_t)s.y + s.h);
        }
        std::string str() const { return this->valid ? pbt::cat("(", this->x0, ",", this->y0, ",", this->x1 - this->x0, "x", this->y1 - this->y0, ")") : std::string("(none)"); }
    };
    inline std::string rectStr(const IntRect& r) { return r.IsValid() ? pbt::cat("(", r.x, ",", r.y, ",", r.w, "x", r.h, ")") : std::string("(none)"); }
    inline bool isLayer0(const Sb& s) { return s.w == s.pw && s.h == s.ph; }

    /// (factor, layer) as the documentation defines them; tiles are generated to be unambiguous
    inline std::pair<int, int> layerOf(const Sb& s)
    {
        if (isLayer0(s)) return { 0, 0 };
        const double f = s.pw > s.ph ? (double)s.w / s.pw : (double)s.h / s.ph;
        double p = 2;
        for (int n = 1; n <= 10; ++n, p *= 2) if (std::fabs(f / p - 1) < 0.006) return { 2, n };
        p = 3;
        for (int n = 1; n <= 7; ++n, p *= 3) if (std::fabs(f / p - 1) < 0.006) return { 3, n };
        return { 255, 255 };
    }
    /// false if the minification is too close to the limit between "identified" and "not identified"
    inline bool layerUnambiguous(const Sb& s)
    {
        if (isLayer0(s)) return true;
        const double f = s.pw > s.ph ? (double)s.w / s.pw : (double)s.h / s.ph;
        double p = 2;
        for (int n = 1; n <= 10; ++n, p *= 2) if (f == p) return true;
        p = 3;
        for (int n = 1; n <= 7; ++n, p *= 3) if (f == p) return true;
        p = 2;
        for (int n = 1; n <= 10; ++n, p *= 2) { double d = std::fabs(f / p - 1); if (d >= 0.006 && d < 0.06) return false; }
        p = 3;
        for (int n = 1; n <= 7; ++n, p *= 3) { double d = std::fabs(f / p - 1); if (d >= 0.006 && d < 0.06) return false; }
        return true;
    }
    inline std::string expectedStats(const std::vector<Sb>& v)
    {
        int mn = std::numeric_limits<int>::max(), mx = std::numeric_limits<int>::min();
        Box all, l0; std::map<DimensionIndex, std::pair<int, int>> dims; std::map<int, std::pair<Box, Box>> scenes;
        for (auto& s : v)
        {
            all.add(s); if (isLayer0(s)) l0.add(s);
            if (s.mValid) { mn = std::min(mn, s.m); mx = std::max(mx, s.m); }
            for (auto& p : s.dims)
            {
                auto it = dims.find(p.first);
                if (it == dims.end()) dims[p.first] = { p.second, p.second };
                else { it->second.first = std::min(it->second.first, p.second); it->second.second = std::max(it->second.second, p.second); }
            }
            auto it = s.dims.find(DimensionIndex::S);
            if (it != s.dims.end()) { scenes[it->second].first.add(s); if (isLayer0(s)) scenes[it->second].second.add(s); }
        }
        std::string r = pbt::cat("n=", v.size(), " M=", mn, "..", mx, " box=", all.str(), " box0=", l0.str(), " dims=");
        for (auto& p : dims) r += pbt::cat(Utils::DimensionToChar(p.first), p.second.first, ":", p.second.second - p.second.first + 1, " ");
        for (auto& p : scenes) r += pbt::cat("S", p.first, "=", p.second.first.str(), p.second.second.str(), " ");
        return r;
    }
    inline std::string statsStr(const SubBlockStatistics& s)
    {
        std::string r = pbt::cat("n=", s.subBlockCount, " M=", s.minMindex, "..", s.maxMindex, " box=", rectStr(s.boundingBox), " box0=", rectStr(s.boundingBoxLayer0Only), " dims=");
        for (auto d : allDims()) { int a, b; if (s.dimBounds.TryGetInterval(d, &a, &b)) r += pbt::cat(Utils::DimensionToChar(d), a, ":", b, " "); }
        for (auto& p : s.sceneBoundingBoxes) r += pbt::cat("S", p.first, "=", rectStr(p.second.boundingBox), rectStr(p.second.boundingBoxLayer0), " ");
        return r;
    }
    inline std::string expectedPyramid(const std::vector<Sb>& v)
    {
        std::map<int, std::map<std::pair<double, std::pair<int, int>>, int>> m;
        for (auto& s : v)
        {
            auto it = s.dims.find(DimensionIndex::S);
            const int scene = it == s.dims.end() ? std::numeric_limits<int>::max() : it->second;
            auto l = layerOf(s);
            const double key = l.first == 255 ? 1e30 : l.first == 0 ? 0 : std::pow((double)l.first, l.second);
            m[scene][{ key, l }]++;
        }
        std::string r;
        for (auto& p : m) { r += pbt::cat("S", p.first, "="); for (auto& q : p.second) r += pbt::cat(q.first.second.first, "/", q.first.second.second, ":", q.second, " "); }
        return r;
    }
    inline std::string pyramidStr(const PyramidStatistics& s)
    {
        std::string r;
        for (auto& p : s.scenePyramidStatistics) { r += pbt::cat("S", p.first, "="); for (auto& q : p.second) r += pbt::cat((int)q.layerInfo.minificationFactor, "/", (int)q.layerInfo.pyramidLayerNo, ":", q.count, " "); }
        return r;
    }
}
