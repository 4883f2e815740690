// P28: files of any conforming producer are read and edited faithfully
#include "rwhist.hpp"
#include "rawczi.hpp"
#include "foreign.hpp"
using namespace czi;
using namespace std;

static shared_ptr<MemStream> produce(Gen& g, const Doc& d, foreign::Style& st)
{
    st = foreign::genStyle(g); auto m = make_shared<MemStream>(); m->b = foreign::encode(g, d, st); g.d() << "[file:" << st.text() << "] "; g.cls(st.openUsed ? "used sizes left open" : "used sizes given"); if (st.shuffle) g.cls("any order"); if (st.gaps) g.cls("gaps"); return m;
}
static void judge(Gen& g, const Doc& d, const shared_ptr<MemStream>& m, const foreign::Style& st, const GUID& guid, const char* where, bool edited)
{
    auto r = openReader(m); Doc got = readDoc(*r); readMetaOf(*r, got); compareContent(where, d, got); compareMeta(where, d, got);
    const auto h = r->GetFileHeaderInfo(); PBT_REQUIRE("guid", guidStr(h.fileGuid) == guidStr(guid), where, ": file GUID ", guidStr(h.fileGuid), " instead of ", guidStr(guid)); PBT_REQUIRE("version", h.majorVersion == 1 && (edited || h.minorVersion == st.minor), where, ": version ", h.majorVersion, ".", h.minorVersion);
}
static void reading(Gen& g)
{
    DocGen dg; dg.maxTiles = g.chance(1, 8) ? 40 : 9; dg.maxAtts = 6; dg.allowEdgeCoords = g.chance(1, 5); dg.rareBig = true; Doc d = genDoc(g, dg); foreign::Style st; auto m = produce(g, d, st); describe(g, d);
    if (d.sbs.size() + d.atts.size() + (d.hasMeta ? 1 : 0) >= 2) g.nontrivial();
    rawczi::verify(m->b, true); // (the producer keeps to the format)
    const Bytes before = m->b; judge(g, d, m, st, d.guid, "reading", false); PBT_REQUIRE("unchanged", m->b == before, "reading changed the file");
    if (g.chance(1, 3))
    {   // tile by tile, in another order, with another reader
        auto r = openReader(m); vector<int> keys; r->EnumerateSubBlocks([&](int k, const SubBlockInfo&) { keys.push_back(k); return true; }); auto all = readDoc(*r); vector<size_t> o; for (size_t i = 0; i < keys.size(); ++i) o.push_back(i); g.shuffle(o);
        for (size_t i : o) { auto b = r->ReadSubBlock(keys[i]); PBT_REQUIRE("tile", b && str(readSb(b)) == str(all.sbs[i]), "tile ", i, " differs when it is read again"); }
    }
}
static void editing(Gen& g)
{
    HistOpts o; o.checkOften = g.coin(); o.maxOps = g.chance(1, 6) ? 30 : 10; o.maxStartTiles = 8; foreign::Style st; 
    o.produce = [&](Gen& gg, const Doc& d) { auto m = produce(gg, d, st); rawczi::verify(m->b, true); return m; };
    auto s = runHistory(g, o); const Doc e = s.model(); judge(g, e, s.st, st, s.guid, "after editing", true); rawczi::verify(s.st->b, true);
    RwSession t; t.st = make_shared<MemStream>(*s.st); t.open(); t.bind(e); t.rw->Close(); PBT_REQUIRE("idle-close", t.st->b == s.st->b, "opening and closing without an edit changed the file");
}
int main(int argc, char** argv)
{
    pbt::Config c; c.property = "P28";
    c.rule = "a file made by the harness's own producer (not by libCZI) with at least two items was read back, or edited at least three times and read back";
    c.assumptions = { "directory entries of schema DV, single-file documents", "the file header has the 512 bytes of the format" };
    c.subs = { { "reading", 50000, 1500000, reading }, { "editing", 30000, 900000, editing } };
    return pbt::main(argc, argv, c);
}
