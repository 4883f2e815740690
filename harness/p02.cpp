// P02: editing a document in place behaves like editing a list
#include "rwhist.hpp"
using namespace czi;
using namespace std;
int main(int argc, char** argv)
{
    pbt::Config c;
    c.property = "P02";
    c.rule = "random starting document (or nothing) and random history of add/replace/remove of tiles and attachments (same, smaller, larger sizes), metadata writes, reopenings and refused calls, compared key by key with a list model during the session and with reader and reader-writer after closing; non-trivial: at least 3 effective edits";
    c.assumptions = { "histories up to 14 (quick) operations per case, 40 in 'long'", "payloads mostly up to 3 kB, now and then up to 140 kB or hundreds of items" };
    auto finish = [](RwSession& s)
        {
            Doc e = s.model();
            {
                auto r = openReader(s.st);
                Doc got = readDoc(*r);
                readMetaOf(*r, got);
                compareContent("reader after closing", e, got);
                compareMeta("reader after closing", e, got);
                PBT_REQUIRE("guid", guidStr(r->GetFileHeaderInfo().fileGuid) == guidStr(s.guid), "file GUID changed by editing");
            }
            RwSession t; t.st = make_shared<MemStream>(*s.st);
            t.open(); t.bind(e);
            t.rw->Close();
            PBT_REQUIRE("idle-close", t.st->b == s.st->b, "opening and closing without an edit changed the file");
        };
    c.subs.push_back({ "history", 40000, 1500000, [finish](Gen& g) { HistOpts o; auto s = runHistory(g, o); finish(s); } });
    c.subs.push_back({ "long", 5000, 250000, [finish](Gen& g) { HistOpts o; o.maxOps = 40; o.checkOften = g.coin(); o.maxStartTiles = 12; auto s = runHistory(g, o); finish(s); } });
    c.subs.push_back({ "quiet", 12000, 500000, [finish](Gen& g) { HistOpts o; o.checkOften = false; auto s = runHistory(g, o); finish(s); } });
    c.subs.push_back({ "far", 6000, 250000, [finish](Gen& g) { HistOpts o; o.checkOften = g.coin(); o.far = true; auto s = runHistory(g, o); finish(s); } });
    return pbt::main(argc, argv, c);
}
