// P06: enumerating and looking up tiles and attachments is exact
#include "rwhist.hpp"
#include "rawczi.hpp"
using namespace czi;
using namespace std;

static bool overlaps(const Sb& s, const IntRect& r)
{
    if (r.w <= 0 || r.h <= 0) return false;
    return (int64_t)s.x < (int64_t)r.x + r.w && (int64_t)r.x < (int64_t)s.x + s.w && (int64_t)s.y < (int64_t)r.y + r.h && (int64_t)r.y < (int64_t)s.y + s.h;
}

template <class R> static void checkRepo(Gen& g, R& r, const map<int, Sb>& sbs, const map<int, At>& atts, const string& where)
{
    // ---- everything
    map<int, string> seen; vector<int> order;
    r.EnumerateSubBlocks([&](int i, const SubBlockInfo& inf)->bool { PBT_REQUIRE("enum-once", seen.emplace(i, infoStr(inf)).second, where, ": index ", i, " enumerated twice"); order.push_back(i); return true; });
    for (auto& p : sbs) PBT_REQUIRE("enum-all", seen.count(p.first) && seen[p.first] == infoStr(p.second), where, ": tile ", p.first, " is enumerated as ", seen.count(p.first) ? seen[p.first] : "(not at all)", " instead of ", infoStr(p.second));
    PBT_REQUIRE("enum-all", seen.size() == sbs.size(), where, ": ", seen.size(), " tiles enumerated instead of ", sbs.size());
    // ---- stopping at once
    if (!order.empty())
    {
        const size_t stop = (size_t)g.range(1, (int64_t)order.size()); size_t n = 0;
        r.EnumerateSubBlocks([&](int, const SubBlockInfo&)->bool { return ++n < stop; });
        PBT_REQUIRE("enum-stop", n == stop, where, ": visitor was called ", n, " times, it returned false at call ", stop);
    }
    // ---- subsets
    for (int q = (int)g.range(1, 5); q > 0; --q)
    {
        CDimCoordinate co; string desc;
        const bool useCo = g.chance(2, 3);
        map<DimensionIndex, int> want;
        if (useCo)
        {
            if (!sbs.empty() && g.chance(2, 3))
            {
                auto it = sbs.begin(); advance(it, (long)g.below(sbs.size()));
                for (auto& p : it->second.dims) if (g.chance(2, 3)) want[p.first] = p.second + (g.chance(1, 10) ? 1 : 0);
            }
            if (g.chance(1, 5)) want[g.pick(allDims())] = (int)g.range0(-1, 3);
            co = toCoord(want); desc += dimsStr(want);
        }
        IntRect roi{}; const bool useRoi = g.chance(2, 3);
        if (useRoi)
        {
            if (!sbs.empty() && g.chance(4, 5))
            {
                auto it = sbs.begin(); advance(it, (long)g.below(sbs.size())); auto& s = it->second;
                switch (g.below(6))
                {
                case 0: roi = { s.x, s.y, s.w, s.h }; break;
                case 1: roi = { s.x - 5, s.y, 5, s.h }; break;           // touches from the left, no overlap
                case 2: roi = { s.x - 5, s.y, 6, s.h }; break;           // overlaps by one column
                case 3: roi = { s.x, s.y + s.h, s.w, 3 }; break;         // touches from below
                case 4: roi = { s.x + s.w - 1, s.y + s.h - 1, 10, 10 }; break;
                default: roi = { s.x + (int)g.range0(-30, 30), s.y + (int)g.range0(-30, 30), (int)g.range(1, 50), (int)g.range(1, 50) }; break;
                }
            }
            else roi = { genCoord(g, false), genCoord(g, false), (int)g.size(1, 5000), (int)g.size(1, 5000) };
            if (g.chance(1, 12)) { if (g.coin()) roi.w = 0; else roi.h = 0; } // empty: overlaps nothing
            desc += pbt::cat(" roi(", roi.x, ",", roi.y, ",", roi.w, "x", roi.h, ")");
        }
        const bool only0 = g.coin(); if (only0) desc += " layer0";
        set<int> expect;
        for (auto& p : sbs)
        {
            bool ok = true;
            for (auto& w : want) { auto it = p.second.dims.find(w.first); ok = ok && it != p.second.dims.end() && it->second == w.second; }
            if (useRoi) ok = ok && overlaps(p.second, roi);
            if (only0) ok = ok && p.second.w == p.second.pw && p.second.h == p.second.ph;
            if (ok) expect.insert(p.first);
        }
        set<int> got; size_t calls = 0;
        r.EnumSubset(useCo ? &co : nullptr, useRoi ? &roi : nullptr, only0, [&](int i, const SubBlockInfo& inf)->bool
            {
                ++calls;
                PBT_REQUIRE("subset", got.insert(i).second, where, ": index ", i, " delivered twice by EnumSubset", desc);
                PBT_REQUIRE("subset", sbs.count(i) && infoStr(inf) == infoStr(sbs.at(i)), where, ": EnumSubset", desc, " delivers index ", i, " with ", infoStr(inf));
                return true;
            });
        if (got != expect)
        {
            string m; for (auto i : expect) if (!got.count(i)) m += "\n missing " + str(sbs.at(i)); for (auto i : got) if (!expect.count(i)) m += "\n surplus " + str(sbs.at(i));
            pbt::fail("subset", pbt::cat(where, ": EnumSubset ", desc, " delivers ", got.size(), " tiles instead of ", expect.size(), m));
        }
        if (!expect.empty())
        {
            const size_t stop = (size_t)g.range(1, (int64_t)expect.size()); size_t n = 0;
            r.EnumSubset(useCo ? &co : nullptr, useRoi ? &roi : nullptr, only0, [&](int, const SubBlockInfo&)->bool { return ++n < stop; });
            PBT_REQUIRE("enum-stop", n == stop, where, ": EnumSubset", desc, " called the visitor ", n, " times, it returned false at call ", stop);
        }
        if (!expect.empty() && expect.size() < sbs.size()) g.cls("subset-proper");
    }
    // ---- by index
    vector<int> probe;
    for (auto& p : sbs) if (probe.size() < 6) probe.push_back(p.first);
    for (int i : { -1, -2147483647 - 1, 2147483647, (int)sbs.size(), (int)sbs.size() + 1, 12345 }) probe.push_back(i);
    for (int i : probe)
    {
        SubBlockInfo inf; const bool present = sbs.count(i) != 0;
        bool b = false; shared_ptr<ISubBlock> sb;
        try { b = r.TryGetSubBlockInfo(i, &inf); sb = r.ReadSubBlock(i); }
        catch (exception& e) { pbt::fail("by-index", pbt::cat(where, ": looking up tile index ", i, " of ", sbs.size(), " threw '", e.what(), "'")); }
        PBT_REQUIRE("by-index", b == present, where, ": TryGetSubBlockInfo(", i, ") returned ", b);
        PBT_REQUIRE("by-index", r.TryGetSubBlockInfo(i, nullptr) == present, where, ": TryGetSubBlockInfo(", i, ",nullptr) is wrong");
        PBT_REQUIRE("by-index", (sb != nullptr) == present, where, ": ReadSubBlock(", i, ") ", sb ? "returned a tile" : "returned nothing");
        if (present)
        {
            PBT_REQUIRE("by-index", infoStr(inf) == infoStr(sbs.at(i)), where, ": TryGetSubBlockInfo(", i, ") gives ", infoStr(inf));
            PBT_REQUIRE("by-index", str(readSb(sb)) == str(sbs.at(i)), where, ": ReadSubBlock(", i, ") gives ", str(readSb(sb)), " instead of ", str(sbs.at(i)));
        }
    }
    // ---- representative of a channel
    bool anyC = false; set<int> channels;
    for (auto& p : sbs) { auto it = p.second.dims.find(DimensionIndex::C); if (it != p.second.dims.end()) { anyC = true; channels.insert(it->second); } }
    for (int ch = -1; ch <= 5; ++ch)
    {
        if (!anyC && ch != 0) continue;
        SubBlockInfo inf; const bool b = r.TryGetSubBlockInfoOfArbitrarySubBlockInChannel(ch, inf);
        const bool e = anyC ? channels.count(ch) != 0 : !sbs.empty();
        PBT_REQUIRE("channel", b == e, where, ": representative tile of channel ", ch, b ? " found" : " not found");
        if (b)
        {
            bool ok = false;
            for (auto& p : sbs) { if (infoStr(p.second) != infoStr(inf)) continue; if (!anyC) ok = true; else { auto it = p.second.dims.find(DimensionIndex::C); ok = ok || (it != p.second.dims.end() && it->second == ch); } }
            PBT_REQUIRE("channel", ok, where, ": representative tile of channel ", ch, " is ", infoStr(inf));
        }
    }
    // ---- attachments
    map<int, string> sa;
    r.EnumerateAttachments([&](int i, const AttachmentInfo& inf)->bool { PBT_REQUIRE("enum-once", sa.emplace(i, attInfoStr(inf.contentGuid, inf.contentFileType, inf.name)).second, where, ": attachment index ", i, " enumerated twice"); return true; });
    for (auto& p : atts) PBT_REQUIRE("enum-all", sa.count(p.first) && sa[p.first] == attInfoStr(p.second.guid, p.second.type, p.second.name), where, ": attachment ", p.first, " is enumerated as ", sa.count(p.first) ? sa[p.first] : "(not at all)");
    PBT_REQUIRE("enum-all", sa.size() == atts.size() && r.GetAttachmentCount() == (int)atts.size(), where, ": ", sa.size(), " attachments enumerated, count ", r.GetAttachmentCount(), " instead of ", atts.size());
    if (!atts.empty())
    {
        const size_t stop = (size_t)g.range(1, (int64_t)atts.size()); size_t n = 0;
        r.EnumerateAttachments([&](int, const AttachmentInfo&)->bool { return ++n < stop; });
        PBT_REQUIRE("enum-stop", n == stop, where, ": attachment visitor was called ", n, " times, it returned false at call ", stop);
    }
    for (int q = 0; q < 3; ++q)
    {
        At a = genAtt(g, 0);
        if (!atts.empty() && g.chance(4, 5)) { auto it = atts.begin(); advance(it, (long)g.below(atts.size())); a = it->second; }
        if (g.chance(1, 6) && !a.name.empty()) a.name.pop_back();
        if (g.chance(1, 6) && !a.type.empty()) a.type.pop_back();
        const bool byType = g.chance(2, 3), byName = g.chance(2, 3);
        set<int> expect, got;
        for (auto& p : atts) if ((!byType || p.second.type == a.type) && (!byName || p.second.name == a.name)) expect.insert(p.first);
        r.EnumerateSubset(byType ? a.type.c_str() : nullptr, byName ? a.name.c_str() : nullptr, [&](int i, const AttachmentInfo& inf)->bool
            {
                PBT_REQUIRE("att-subset", got.insert(i).second && atts.count(i) && attInfoStr(inf.contentGuid, inf.contentFileType, inf.name) == attInfoStr(atts.at(i).guid, atts.at(i).type, atts.at(i).name), where, ": EnumerateSubset delivers index ", i, " wrongly");
                return true;
            });
        PBT_REQUIRE("att-subset", got == expect, where, ": attachments of type ", byType ? a.type : "*", " name ", byName ? a.name : "*", ": ", got.size(), " delivered instead of ", expect.size());
        if (!expect.empty())
        {
            const size_t stop = (size_t)g.range(1, (int64_t)expect.size()); size_t n = 0;
            r.EnumerateSubset(byType ? a.type.c_str() : nullptr, byName ? a.name.c_str() : nullptr, [&](int, const AttachmentInfo&)->bool { return ++n < stop; });
            PBT_REQUIRE("enum-stop", n == stop, where, ": EnumerateSubset called the visitor ", n, " times, it returned false at call ", stop);
        }
    }
    probe.clear();
    for (auto& p : atts) if (probe.size() < 4) probe.push_back(p.first);
    for (int i : { -1, -2147483647 - 1, 2147483647, (int)atts.size(), (int)atts.size() + 1 }) probe.push_back(i);
    for (int i : probe)
    {
        AttachmentInfo inf; const bool present = atts.count(i) != 0; bool b = false; shared_ptr<IAttachment> at;
        try { b = r.TryGetAttachmentInfo(i, &inf); at = r.ReadAttachment(i); }
        catch (exception& e) { pbt::fail("by-index", pbt::cat(where, ": looking up attachment index ", i, " of ", atts.size(), " threw '", e.what(), "'")); }
        PBT_REQUIRE("by-index", b == present && (at != nullptr) == present, where, ": attachment index ", i, " of ", atts.size(), ": info ", b, ", read ", at != nullptr);
        if (present)
        {
            PBT_REQUIRE("by-index", attInfoStr(inf.contentGuid, inf.contentFileType, inf.name) == attInfoStr(atts.at(i).guid, atts.at(i).type, atts.at(i).name), where, ": TryGetAttachmentInfo(", i, ") is wrong");
            size_t n = 0; auto q = at->GetRawData(&n);
            PBT_REQUIRE("by-index", raw(q, n) == atts.at(i).data, where, ": ReadAttachment(", i, ") gives other content");
        }
    }
    if (sbs.size() + atts.size() >= 3) g.nontrivial();
}

int main(int argc, char** argv)
{
    pbt::Config c;
    c.property = "P06";
    c.rule = "random documents read by the reader and, after random edits (indices with gaps), by the editor; enumerations with random coordinate/region/layer/type/name filters aimed at the limits of the tiles, stopping at random points, and look-ups inside and outside the index range compared with filtering the list; non-trivial: at least 3 tiles or attachments";
    c.assumptions = { "regions are non-empty", "a channel other than 0 is not asked for where no tile has a channel" };
    c.subs.push_back({ "reader", 25000, 1000000, [](Gen& g)
        {
            DocGen dg; dg.maxTiles = 20; dg.maxAtts = 8; dg.maxData = 60; dg.meta = false; dg.rareBig = true;
            Doc d = genDoc(g, dg); describe(g, d);
            auto st = writeDoc(d, genWriteOpts(g));
            auto r = openReader(st);
            // indices count the entries of the directory in file order; the mapping is learnt from the raw file
            map<int, Sb> sbs; map<int, At> atts;
            auto L = rawczi::verify(st->b);
            {
                vector<Sb> left = d.sbs; int i = 0;
                for (auto& e : L.sbs)
                {
                    Sb s; s.pt = (PixelType)e.pixelType;
                    // identify by complete description of what the reader returns for this position
                    auto got = readSb(r->ReadSubBlock(i));
                    bool found = false;
                    for (size_t k = 0; k < left.size(); ++k) if (str(left[k]) == str(got)) { sbs[i] = left[k]; left.erase(left.begin() + (long)k); found = true; break; }
                    PBT_REQUIRE("by-index", found, "tile ", i, " read as ", str(got), ", which was not written");
                    PBT_REQUIRE("by-index", e.compression == got.comp && e.pixelType == (int)got.pt, "tile ", i, " does not correspond to the entry ", i, " of the directory");
                    ++i;
                }
                PBT_REQUIRE("enum-all", left.empty(), left.size(), " tiles are missing");
            }
            for (size_t i = 0; i < d.atts.size(); ++i)
            {
                auto at = r->ReadAttachment((int)i); PBT_REQUIRE("by-index", at != nullptr, "attachment ", i, " is missing");
                const auto& inf = at->GetAttachmentInfo();
                for (auto& a : d.atts) if (attInfoStr(a.guid, a.type, a.name) == attInfoStr(inf.contentGuid, inf.contentFileType, inf.name)) atts[(int)i] = a;
            }
            checkRepo(g, *r, sbs, atts, "reader");
            // with file positions
            size_t n = 0;
            r->EnumerateSubBlocksEx([&](int i, const DirectorySubBlockInfo& inf)->bool
                {
                    PBT_REQUIRE("enum-ex", i >= 0 && (size_t)i < L.sbs.size() && inf.filePosition == L.sbs[(size_t)i].pos && infoStr(inf) == infoStr(sbs.at(i)), "EnumerateSubBlocksEx: index ", i, " reported at ", inf.filePosition);
                    ++n; return true;
                });
            PBT_REQUIRE("enum-ex", n == sbs.size(), "EnumerateSubBlocksEx delivers ", n, " tiles instead of ", sbs.size());
            if (n > 0) { const size_t stop = (size_t)g.range(1, (int64_t)n); size_t m = 0; r->EnumerateSubBlocksEx([&](int, const DirectorySubBlockInfo&)->bool { return ++m < stop; }); PBT_REQUIRE("enum-stop", m == stop, "EnumerateSubBlocksEx called the visitor ", m, " times, it returned false at call ", stop); }
        } });
    c.subs.push_back({ "editor", 15000, 600000, [](Gen& g)
        {
            HistOpts o; o.checkOften = false; o.maxOps = 8; o.maxStartTiles = 10; o.maxData = 60;
            int n = 0;
            auto s = runHistory(g, o, [&](RwSession& rs, const char* what) { if (++n % 3 == 0) checkRepo(g, *rs.rw, rs.sbs, rs.atts, pbt::cat("editor after ", what)); });
        } });
    return pbt::main(argc, argv, c);
}
