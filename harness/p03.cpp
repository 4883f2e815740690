// P03: every produced file is structurally well formed
#include "rwhist.hpp"
#include "rawczi.hpp"
using namespace czi;
using namespace std;
static void check(Gen& g, const Bytes& b, const Doc& d)
{
    auto L = rawczi::verify(b);
    g.count("segments", L.chain);
    if (L.deleted) g.cls("has-deleted-segments");
    PBT_REQUIRE("layout-count", L.sbs.size() == d.sbs.size(), "directory lists ", L.sbs.size(), " tiles, ", d.sbs.size(), " expected");
    PBT_REQUIRE("layout-count", L.nAtts == d.atts.size(), "directory lists ", L.nAtts, " attachments, ", d.atts.size(), " expected");
    PBT_REQUIRE("layout-count", (L.meta != 0) == d.hasMeta, "metadata position is ", L.meta, " but metadata present=", d.hasMeta);
    // payloads, read without libCZI
    vector<string> a, e;
    for (auto& s : L.sbs)
    {
        const size_t o = (size_t)s.pos + 32;
        const size_t ms = (size_t)rawczi::i32(b, o), as = (size_t)rawczi::i32(b, o + 4), ds = (size_t)rawczi::i64(b, o + 8);
        const size_t start = o + max<size_t>(256, 16 + s.raw.size());
        auto part = [&](size_t from, size_t n) { return pbt::cat(n, ":", hex(Bytes(b.begin() + (long)from, b.begin() + (long)(from + n)), 4000)); };
        a.push_back(pbt::cat(s.pixelType, " ", s.compression, " ", s.pyramid, " ", part(start, ms), " ", part(start + ms, ds), " ", part(start + ms + ds, as)));
    }
    for (auto& s : d.sbs) e.push_back(pbt::cat((int)s.pt, " ", s.comp, " ", (int)s.pyr, " ", s.meta.size(), ":", hex(s.meta, 4000), " ", s.data.size(), ":", hex(s.data, 4000), " ", s.att.size(), ":", hex(s.att, 4000)));
    sort(a.begin(), a.end()); sort(e.begin(), e.end());
    PBT_REQUIRE("layout-payload", a == e, "tile payloads found in the raw file are not the ones written");
}
int main(int argc, char** argv)
{
    pbt::Config c;
    c.property = "P03";
    c.rule = "files from random documents (writer, with random reservations) and from random edit histories (reader-writer, checked after every close), parsed by an independent layout parser; non-trivial: at least 3 tiles or attachments written, or at least 3 effective edits";
    c.assumptions = { "allocated space of the last live segment and of deleted segments may extend past the end of the file, as the file format allows", "histories up to 14 operations (40 in 'long')" };
    c.subs.push_back({ "writer", 40000, 1500000, [](Gen& g)
        {
            DocGen dg; Doc d = genDoc(g, dg); WriteOpts o = genWriteOpts(g);
            describe(g, d);
            if (d.sbs.size() + d.atts.size() >= 3) g.nontrivial();
            auto st = writeDoc(d, o);
            check(g, st->b, d);
        } });
    auto hist = [](Gen& g, HistOpts o)
        {
            o.checkOften = false;
            auto s = runHistory(g, o, [&](RwSession& s, const char* what) { if (!strcmp(what, "reopen")) check(g, s.st->b, s.model()); });
            check(g, s.st->b, s.model());
        };
    c.subs.push_back({ "edited", 40000, 1500000, [hist](Gen& g) { hist(g, HistOpts()); } });
    c.subs.push_back({ "long", 5000, 250000, [hist](Gen& g) { HistOpts o; o.maxOps = 40; o.maxStartTiles = 12; hist(g, o); } });
    return pbt::main(argc, argv, c);
}
