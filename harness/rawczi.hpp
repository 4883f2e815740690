// Independent parser of the CZI container layout (works on raw bytes, shares nothing with libCZI).
#pragma once
#include "czi.hpp"

namespace rawczi
{
    using czi::Bytes;
    inline int32_t i32(const Bytes& b, size_t o) { int32_t v; memcpy(&v, b.data() + o, 4); return v; }
    inline int64_t i64(const Bytes& b, size_t o) { int64_t v; memcpy(&v, b.data() + o, 8); return v; }
    inline std::string idAt(const Bytes& b, size_t o)
    {
        std::string s((const char*)b.data() + o, 16);
        return s.substr(0, s.find('\0'));
    }
    struct Seg { std::string id; uint64_t pos; uint64_t alloc, used; };
    inline Seg segAt(const Bytes& b, uint64_t pos, const char* what)
    {
        PBT_REQUIRE("layout-position", pos + 32 <= b.size(), what, ": position ", pos, " lies outside the file (", b.size(), " bytes)");
        Seg s; s.pos = pos; s.id = idAt(b, (size_t)pos);
        const int64_t a = i64(b, (size_t)pos + 16), u = i64(b, (size_t)pos + 24);
        PBT_REQUIRE("layout-size", a >= 0 && u >= 0, what, ": negative size in the segment at ", pos);
        s.alloc = (uint64_t)a; s.used = (uint64_t)u;
        return s;
    }
    struct DvEntry { Bytes raw; uint64_t pos; int pixelType, compression, pyramid; };
    struct Layout { std::vector<Seg> live; uint64_t sbDir = 0, attDir = 0, meta = 0; std::vector<DvEntry> sbs; size_t nAtts = 0; size_t deleted = 0, chain = 0; };

    inline size_t dvSize(const Bytes& b, size_t o, const char* what)
    {
        PBT_REQUIRE("layout-entry", o + 32 <= b.size() && b[o] == 'D' && b[o + 1] == 'V', what, ": no DV entry at ", o);
        const int32_t n = i32(b, o + 28);
        PBT_REQUIRE("layout-entry", n >= 2 && n <= 40, what, ": DV entry with ", n, " dimensions");
        PBT_REQUIRE("layout-entry", o + 32 + 20 * (size_t)n <= b.size(), what, ": DV entry reaches beyond the file");
        return 32 + 20 * (size_t)n;
    }
    /// verifies the structure of a complete file
    /// foreign: the file comes from another producer, which may leave used sizes open and have segments of its own
    inline Layout verify(const Bytes& b, bool foreign = false)
    {
        Layout L;
        auto segAt = [foreign](const Bytes& b2, uint64_t pos, const char* what) { Seg s = rawczi::segAt(b2, pos, what); if (foreign && s.used == 0) s.used = s.alloc; return s; };
        PBT_REQUIRE("layout-header", b.size() >= 32 + 512, "file is too short for its header: ", b.size());
        Seg hdr = segAt(b, 0, "file header");
        PBT_REQUIRE("layout-header", hdr.id == "ZISRAWFILE" && hdr.alloc >= 512 && hdr.used >= 512, "file header: id ", hdr.id, " alloc ", hdr.alloc, " used ", hdr.used);
        PBT_REQUIRE("layout-header", i32(b, 32) == 1 && (foreign || i32(b, 36) == 0), "file header: version ", i32(b, 32), ".", i32(b, 36));
        PBT_REQUIRE("layout-header", i32(b, 32 + 68) == 0, "file header: update pending");
        PBT_REQUIRE("layout-header", foreign || memcmp(b.data() + 48, b.data() + 64, 16) == 0, "file header: the two GUIDs differ");
        L.live.push_back(hdr);
        L.sbDir = (uint64_t)i64(b, 32 + 52); L.meta = (uint64_t)i64(b, 32 + 60); L.attDir = (uint64_t)i64(b, 32 + 72);

        // sub-block directory
        PBT_REQUIRE("layout-directory", L.sbDir != 0, "file header does not refer to a sub-block directory");
        {
            Seg s = segAt(b, L.sbDir, "sub-block directory");
            PBT_REQUIRE("layout-directory", s.id == "ZISRAWDIRECTORY", "sub-block directory at ", L.sbDir, " is a segment '", s.id, "'");
            PBT_REQUIRE("layout-directory", s.used >= 128, "sub-block directory: used size ", s.used);
            L.live.push_back(s);
            PBT_REQUIRE("layout-directory", L.sbDir + 32 + 128 <= b.size(), "sub-block directory is cut off");
            const int32_t n = i32(b, (size_t)L.sbDir + 32);
            PBT_REQUIRE("layout-directory", n >= 0, "sub-block directory: entry count ", n);
            size_t o = (size_t)L.sbDir + 32 + 128;
            for (int i = 0; i < n; ++i)
            {
                const size_t len = dvSize(b, o, "sub-block directory");
                DvEntry e; e.raw.assign(b.begin() + (long)o, b.begin() + (long)(o + len));
                e.pos = (uint64_t)i64(b, o + 6); e.pixelType = i32(b, o + 2); e.compression = i32(b, o + 18); e.pyramid = b[o + 22];
                PBT_REQUIRE("layout-entry", i32(b, o + 14) == 0, "directory entry with file part ", i32(b, o + 14));
                L.sbs.push_back(e);
                o += len;
            }
            PBT_REQUIRE("layout-directory", o - (size_t)L.sbDir - 32 <= s.used, "sub-block directory: entries need ", o - (size_t)L.sbDir - 32, " bytes, used size is ", s.used);
        }
        for (auto& e : L.sbs)
        {
            Seg s = segAt(b, e.pos, "tile");
            PBT_REQUIRE("layout-tile", s.id == "ZISRAWSUBBLOCK", "directory refers to a segment '", s.id, "' at ", e.pos, " as a tile");
            const size_t o = (size_t)e.pos + 32;
            PBT_REQUIRE("layout-tile", o + 16 <= b.size(), "tile segment is cut off");
            const int64_t ms = i32(b, o), as = i32(b, o + 4), ds = i64(b, o + 8);
            PBT_REQUIRE("layout-tile", ms >= 0 && as >= 0 && ds >= 0, "tile segment with negative sizes");
            const size_t len = dvSize(b, o + 16, "tile segment");
            const uint64_t need = std::max<uint64_t>(256, 16 + len) + (uint64_t)ms + (uint64_t)as + (uint64_t)ds;
            PBT_REQUIRE("layout-tile", need <= s.used, "tile segment at ", e.pos, ": content needs ", need, " bytes, used size is ", s.used);
            Bytes own(b.begin() + (long)(o + 16), b.begin() + (long)(o + 16 + len));
            // pixel type, compression, pyramid type and dimensions have to agree; the position as well
            auto norm = [foreign](Bytes x)
                {
                    for (int k = 23; k < 28; ++k) x[(size_t)k] = 0;
                    if (foreign) { std::vector<Bytes> v; for (size_t k = 32; k + 20 <= x.size(); k += 20) { v.emplace_back(x.begin() + (long)k, x.begin() + (long)(k + 20)); for (size_t j = 12; j < 16; ++j) v.back()[j] = 0; } std::sort(v.begin(), v.end()); for (size_t k = 0; k < v.size(); ++k) std::copy(v[k].begin(), v[k].end(), x.begin() + (long)(32 + 20 * k)); } // (order and start coordinates are the producer's)
                    return x;
                };
            PBT_REQUIRE("layout-tile-entry", norm(own) == norm(e.raw), "tile segment at ", e.pos, " does not repeat its directory entry:\n dir ", czi::hex(e.raw, 200), "\n seg ", czi::hex(own, 200));
            L.live.push_back(s);
        }
        // attachments
        if (L.attDir != 0)
        {
            Seg s = segAt(b, L.attDir, "attachment directory");
            PBT_REQUIRE("layout-directory", s.id == "ZISRAWATTDIR", "attachment directory at ", L.attDir, " is a segment '", s.id, "'");
            L.live.push_back(s);
            PBT_REQUIRE("layout-directory", L.attDir + 32 + 256 <= b.size(), "attachment directory is cut off");
            const int32_t n = i32(b, (size_t)L.attDir + 32);
            PBT_REQUIRE("layout-directory", n >= 0 && 256 + 128 * (uint64_t)n <= s.used, "attachment directory: ", n, " entries do not fit the used size ", s.used);
            PBT_REQUIRE("layout-directory", L.attDir + 32 + 256 + 128 * (uint64_t)n <= b.size(), "attachment directory entries are cut off");
            for (int i = 0; i < n; ++i)
            {
                const size_t o = (size_t)L.attDir + 32 + 256 + 128 * (size_t)i;
                PBT_REQUIRE("layout-entry", b[o] == 'A' && b[o + 1] == '1', "attachment entry ", i, " without schema A1");
                PBT_REQUIRE("layout-entry", i32(b, o + 20) == 0, "attachment entry with file part ", i32(b, o + 20));
                const uint64_t pos = (uint64_t)i64(b, o + 12);
                Seg a = segAt(b, pos, "attachment");
                PBT_REQUIRE("layout-attachment", a.id == "ZISRAWATTACH", "directory refers to a segment '", a.id, "' at ", pos, " as an attachment");
                PBT_REQUIRE("layout-attachment", pos + 32 + 256 <= b.size(), "attachment segment is cut off");
                const int64_t ds = i64(b, (size_t)pos + 32);
                PBT_REQUIRE("layout-attachment", ds >= 0 && 256 + (uint64_t)ds <= a.used, "attachment of ", ds, " bytes does not fit the used size ", a.used);
                const size_t q = (size_t)pos + 32 + 16;
                PBT_REQUIRE("layout-attachment-entry", memcmp(b.data() + o, b.data() + q, 2) == 0 && memcmp(b.data() + o + 12, b.data() + q + 12, 12 + 16 + 8 + 80) == 0, "attachment segment at ", pos, " does not repeat its directory entry");
                L.live.push_back(a);
                ++L.nAtts;
            }
        }
        if (L.meta != 0)
        {
            Seg s = segAt(b, L.meta, "metadata");
            PBT_REQUIRE("layout-metadata", s.id == "ZISRAWMETADATA", "metadata at ", L.meta, " is a segment '", s.id, "'");
            PBT_REQUIRE("layout-metadata", L.meta + 32 + 256 <= b.size(), "metadata segment is cut off");
            const int64_t xs = i32(b, (size_t)L.meta + 32), as = i32(b, (size_t)L.meta + 36);
            PBT_REQUIRE("layout-metadata", xs >= 0 && as >= 0 && 256 + (uint64_t)xs + (uint64_t)as <= s.used, "metadata of ", xs, "+", as, " bytes does not fit the used size ", s.used);
            L.live.push_back(s);
        }
        // geometry
        std::sort(L.live.begin(), L.live.end(), [](const Seg& x, const Seg& y) { return x.pos < y.pos; });
        uint64_t end = 0;
        for (auto& s : L.live)
        {
            PBT_REQUIRE("layout-alignment", s.pos % 32 == 0, "segment '", s.id, "' at ", s.pos, " is not aligned to 32 bytes");
            PBT_REQUIRE("layout-alignment", s.alloc % 32 == 0, "segment '", s.id, "' at ", s.pos, " has an allocated size of ", s.alloc);
            PBT_REQUIRE("layout-size", s.used <= s.alloc, "segment '", s.id, "' at ", s.pos, ": used ", s.used, " > allocated ", s.alloc);
            PBT_REQUIRE("layout-overlap", s.pos >= end, "segment '", s.id, "' at ", s.pos, " overlaps the one before, which ends at ", end);
            end = s.pos + 32 + s.alloc;
            PBT_REQUIRE("layout-end", s.pos + 32 + s.used <= b.size(), "segment '", s.id, "' at ", s.pos, " with ", s.used, " used bytes reaches beyond the file (", b.size(), ")");
        }
        // chain: following the allocated sizes from the start visits every live segment; everything else met is marked deleted
        uint64_t pos = 0; size_t next = 0;
        while (pos < b.size() && next < L.live.size())
        {
            PBT_REQUIRE("layout-chain", pos <= L.live[next].pos, "following the segments skips '", L.live[next].id, "' at ", L.live[next].pos);
            Seg s = segAt(b, pos, "chain");
            ++L.chain;
            if (pos == L.live[next].pos) ++next;
            else
            {
                // a deleted segment may keep garbage in "used", and one reserved but never used may carry any segment kind
                PBT_REQUIRE("layout-orphan", foreign || s.id == "DELETED", "segment '", s.id, "' at ", pos, " is neither referred to nor marked as deleted");
                ++L.deleted;
            }
            pos += 32 + s.alloc;
        }
        PBT_REQUIRE("layout-chain", next == L.live.size(), "following the segments does not reach '", next < L.live.size() ? L.live[next].id : "", "'");
        // what lies behind the last live segment is unspecified (space of removed segments may be reused partially)
        return L;
    }
}
