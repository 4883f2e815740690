// An independent producer of CZI files: lays a document out according to the file format, in any of the ways it permits.
#pragma once
#include "czi.hpp"
namespace foreign
{
    using namespace czi;
    struct Style { bool shuffle = false, gaps = false, surplus = false, openUsed = false, garbage = false, dimOrder = false, otherGuid = false, emptyDirs = false, tail = false; int minor = 0; std::string text() const { return pbt::cat(shuffle ? " any-order" : "", gaps ? " gaps" : "", surplus ? " surplus" : "", openUsed ? " open-used" : "", garbage ? " spare-filled" : "", dimOrder ? " dim-order" : "", otherGuid ? " primary-guid" : "", emptyDirs ? " empty-dirs" : "", tail ? " tail" : "", minor ? " minor" : ""); } };
    inline Style genStyle(Gen& g)
    {
        Style s; s.shuffle = g.coin(); s.gaps = g.chance(1, 3); s.surplus = g.coin(); s.openUsed = g.chance(1, 4); s.garbage = g.chance(1, 4); s.dimOrder = g.coin(); s.otherGuid = g.chance(1, 4); s.emptyDirs = g.coin(); s.tail = g.chance(1, 5); s.minor = g.chance(1, 6) ? (int)g.range(1, 3) : 0;
        return s;
    }
    struct Buf
    {
        Bytes b;
        void i32(size_t o, int64_t v) { for (int k = 0; k < 4; ++k) b[o + (size_t)k] = (uint8_t)((uint64_t)v >> (8 * k)); }
        void i64(size_t o, uint64_t v) { for (int k = 0; k < 8; ++k) b[o + (size_t)k] = (uint8_t)(v >> (8 * k)); }
        void i16(size_t o, uint32_t v) { b[o] = (uint8_t)v; b[o + 1] = (uint8_t)(v >> 8); }
        void put(size_t o, const void* p, size_t n) { if (n) memcpy(&b[o], p, n); }
        void guid(size_t o, const GUID& x) { i32(o, x.Data1); i16(o + 4, x.Data2); i16(o + 6, x.Data3); for (int k = 0; k < 8; ++k) b[o + 8 + (size_t)k] = x.Data4[k]; }
        void str(size_t o, const std::string& s, size_t n) { for (size_t k = 0; k < n; ++k) b[o + k] = k < s.size() ? (uint8_t)s[k] : 0; }
    };
    inline Bytes encode(Gen& g, const Doc& d, const Style& st)
    {
        pbt::Rng r(g.seed64()); auto rnd = [&](uint64_t n) { return n ? r.next() % n : 0; };
        auto fresh = [&](size_t n) { Buf x; x.b.assign(n, 0); if (st.garbage) for (auto& c : x.b) c = (uint8_t)r.next(); return x; };
        static const std::string letters = "?ZCTRSIHVB";
        // 1. what each segment contains (its position within the file is filled in later)
        struct Seg { std::string id; Buf data; uint64_t pos = 0, alloc = 0; };
        std::vector<Seg> segs; const size_t n = d.sbs.size();
        auto entryOf = [&](const Sb& s)
            {
                struct E { char c; int32_t start, size, stored; }; std::vector<E> es{ { 'X', s.x, s.w, s.pw }, { 'Y', s.y, s.h, s.ph } };
                for (auto& p : s.dims) es.push_back({ letters[(size_t)p.first], p.second, 1, 1 }); if (s.mValid) es.push_back({ 'M', s.m, 1, 1 });
                if (st.dimOrder) for (size_t i = es.size(); i > 1; --i) std::swap(es[i - 1], es[(size_t)rnd(i)]);
                Buf e = fresh(32 + 20 * es.size()); e.b[0] = 'D'; e.b[1] = 'V'; e.i32(2, (int)s.pt); e.i64(6, 0); e.i32(14, 0); e.i32(18, s.comp); e.b[22] = (uint8_t)s.pyr; e.i32(28, (int64_t)es.size());
                for (size_t i = 0; i < es.size(); ++i) { const size_t o = 32 + 20 * i; e.str(o, std::string(1, es[i].c), 4); e.i32(o + 4, es[i].start); e.i32(o + 8, es[i].size); e.i32(o + 12, st.garbage ? (int64_t)(r.next() & 0x7fffff) : 0); e.i32(o + 16, es[i].stored); }
                return e;
            };
        std::vector<Buf> entries; std::vector<Buf> attEntries;
        for (auto& s : d.sbs)
        {
            Buf e = entryOf(s); entries.push_back(e); const size_t h = std::max<size_t>(256, 16 + e.b.size()); Seg x; x.id = "ZISRAWSUBBLOCK"; x.data = fresh(h + s.meta.size() + s.data.size() + s.att.size());
            x.data.i32(0, (int64_t)s.meta.size()); x.data.i32(4, (int64_t)s.att.size()); x.data.i64(8, s.data.size()); x.data.put(16, e.b.data(), e.b.size());
            x.data.put(h, s.meta.data(), s.meta.size()); x.data.put(h + s.meta.size(), s.data.data(), s.data.size()); x.data.put(h + s.meta.size() + s.data.size(), s.att.data(), s.att.size()); segs.push_back(x);
        }
        for (auto& a : d.atts)
        {
            Buf e = fresh(128); e.b[0] = 'A'; e.b[1] = '1'; e.i64(12, 0); e.i32(20, 0); e.guid(24, a.guid); e.str(40, a.type, 8); e.str(48, a.name, 80); attEntries.push_back(e);
            Seg x; x.id = "ZISRAWATTACH"; x.data = fresh(256 + a.data.size()); x.data.i64(0, a.data.size()); x.data.put(16, e.b.data(), 128); x.data.put(256, a.data.data(), a.data.size()); segs.push_back(x);
        }
        const size_t iDir = segs.size(); const bool hasDir = true;
        if (hasDir) { size_t total = 128; for (auto& e : entries) total += e.b.size(); Seg x; x.id = "ZISRAWDIRECTORY"; x.data = fresh(total); x.data.i32(0, (int64_t)n); segs.push_back(x); }
        const size_t iAtt = segs.size(); const bool hasAtt = !d.atts.empty() || st.emptyDirs; 
        if (hasAtt) { Seg x; x.id = "ZISRAWATTDIR"; x.data = fresh(256 + 128 * d.atts.size()); x.data.i32(0, (int64_t)d.atts.size()); segs.push_back(x); }
        const size_t iMeta = segs.size();
        if (d.hasMeta) { Seg x; x.id = "ZISRAWMETADATA"; x.data = fresh(256 + d.xml.size() + d.metaAtt.size()); x.data.i32(0, (int64_t)d.xml.size()); x.data.i32(4, (int64_t)d.metaAtt.size()); x.data.put(256, d.xml.data(), d.xml.size()); x.data.put(256 + d.xml.size(), d.metaAtt.data(), d.metaAtt.size()); segs.push_back(x); }
        // 2. where each segment goes
        std::vector<size_t> order; for (size_t i = 0; i < segs.size(); ++i) order.push_back(i); if (st.shuffle) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[(size_t)rnd(i)]);
        struct Gap { uint64_t pos, alloc; std::string id; }; std::vector<Gap> gaps; uint64_t pos = 32 + 512;
        for (size_t k : order)
        {
            if (st.gaps) while (rnd(3) == 0) { Gap q; q.pos = pos; q.alloc = 32 * rnd(20); q.id = rnd(2) ? "DELETED" : rnd(2) ? "ZISRAWEXTRA" : "ZISRAWSUBBLOCK"; gaps.push_back(q); pos += 32 + q.alloc; }
            auto& x = segs[k]; x.pos = pos; x.alloc = (x.data.b.size() + 31) / 32 * 32 + (st.surplus && rnd(2) ? 32 * rnd(rnd(4) ? 12 : 100) : 0); pos += 32 + x.alloc;
        }
        // 3. the references
        size_t o = 128; for (size_t i = 0; i < n; ++i) { entries[i].i64(6, segs[i].pos); segs[i].data.i64(16 + 6, segs[i].pos); segs[iDir].data.put(o, entries[i].b.data(), entries[i].b.size()); o += entries[i].b.size(); }
        for (size_t i = 0; i < d.atts.size(); ++i) { attEntries[i].i64(12, segs[n + i].pos); segs[n + i].data.i64(16 + 12, segs[n + i].pos); segs[iAtt].data.put(256 + 128 * i, attEntries[i].b.data(), 128); }
        Buf f = fresh((size_t)pos + (st.tail ? (size_t)rnd(500) : 0)); f.str(0, "ZISRAWFILE", 16); f.i64(16, 512); f.i64(24, 512); f.i32(32, 1); f.i32(36, st.minor); f.i32(40, 0); f.i32(44, 0);
        f.guid(48, d.guid); if (st.otherGuid) for (int k = 0; k < 16; ++k) f.b[48 + (size_t)k] = (uint8_t)r.next(); f.guid(64, d.guid); f.i32(80, 0);
        f.i64(84, hasDir ? segs[iDir].pos : 0); f.i64(92, d.hasMeta ? segs[iMeta].pos : 0); f.i32(100, 0); f.i64(104, hasAtt ? segs[iAtt].pos : 0);
        for (auto& q : gaps) { f.str((size_t)q.pos, q.id, 16); f.i64((size_t)q.pos + 16, q.alloc); f.i64((size_t)q.pos + 24, st.openUsed ? 0 : q.alloc); }
        for (auto& x : segs) { const size_t p = (size_t)x.pos; f.str(p, x.id, 16); f.i64(p + 16, x.alloc); f.i64(p + 24, st.openUsed && rnd(3) ? 0 : x.data.b.size()); f.put(p + 32, x.data.b.data(), x.data.b.size()); }
        return f.b;
    }
}
