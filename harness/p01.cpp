// P01: a written document reads back unchanged
#include "czi.hpp"
using namespace czi;
using namespace std;

static Doc genBig(Gen& g)
{
    DocGen o;
    switch (g.weighted({ 10, 2, 1 }))
    {
    case 0: o.rareBig = true; break;
    case 1: o.maxData = 150000; o.maxTiles = 4; break;
    case 2: o.maxTiles = 120; o.maxAtts = 60; o.maxData = 60; break;
    }
    return genDoc(g, o);
}
static void label(Gen& g, const Doc& d, const WriteOpts& o)
{
    if (d.sbs.size() >= 2 || d.atts.size() >= 2) g.nontrivial();
    if (d.sbs.empty()) g.cls("no-tiles");
    if (d.sbs.size() > 20) g.cls("many-tiles");
    if (!d.atts.empty()) g.cls("attachments");
    if (d.hasMeta) g.cls("metadata");
    if (o.resSb) g.cls("reserved-tile-directory");
    if (o.resAtt) g.cls("reserved-attachment-directory");
    if (o.resMeta) g.cls("reserved-metadata");
    for (auto& s : d.sbs)
    {
        if (s.dims.size() >= 8) g.cls("more-than-10-dimension-entries");
        if (s.dims.empty()) g.cls("tile-without-coordinate");
        if (s.data.empty()) g.cls("empty-tile-data");
        if (s.data.size() > 65536) g.cls("large-tile-data");
    }
}
static void checkReader(const string& where, const shared_ptr<IStream>& st, const Doc& d, bool strict, bool hdrPrec)
{
    ICZIReader::OpenOptions oo; oo.SetDefault();
    oo.lax_subblock_coordinate_checks = !strict;
    if (hdrPrec) oo.subBlockDirectoryInfoPolicy = ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy::SubBlockHeaderPrecedence;
    auto r = openReader(st, &oo);
    Doc got = readDoc(*r);
    readMetaOf(*r, got);
    compareContent(where, d, got);
    compareMeta(where, d, got);
    PBT_REQUIRE("guid", guidStr(r->GetFileHeaderInfo().fileGuid) == guidStr(d.guid), where, ": file GUID is ", guidStr(r->GetFileHeaderInfo().fileGuid), " instead of ", guidStr(d.guid));
    // the raw-pointer access and the shared access deliver the same bytes
    r->EnumerateSubBlocks([&](int i, const SubBlockInfo&)->bool
        {
            auto sb = r->ReadSubBlock(i);
            for (auto t : { ISubBlock::Data, ISubBlock::Metadata, ISubBlock::Attachment })
            {
                const void* p; size_t n; size_t n2 = 0;
                sb->DangerousGetRawData(t, p, n);
                auto q = sb->GetRawData(t, &n2);
                PBT_REQUIRE("raw-access", n == n2 && (n == 0 || memcmp(p, q.get(), n) == 0), where, ": raw data by pointer and by shared pointer differ for tile ", i);
            }
            return true;
        });
    r->Close();
}

int main(int argc, char** argv)
{
    pbt::Config c;
    c.property = "P01";
    c.rule = "random document (tiles with random dimension sets/coordinates/M/rectangles/pixel types/compressions/payloads added through all four interfaces, attachments, XML, reservations) written and read back; non-trivial: at least 2 tiles or 2 attachments";
    c.assumptions = { "payloads up to 150 kB, up to 120 tiles and 60 attachments", "coordinates within +-1e9" };
    c.subs.push_back({ "memory", 60000, 2500000, [](Gen& g)
        {
            Doc d = genBig(g);
            WriteOpts o = genWriteOpts(g);
            label(g, d, o); describe(g, d);
            g.d() << "\n  reserve sb=" << o.resSb << ":" << o.nSb << " att=" << o.resAtt << ":" << o.nAtt << " meta=" << o.resMeta << ":" << o.nMeta;
            auto st = writeDoc(d, o);
            if (g.chance(1, 10))
            {
                // without a GUID given, one is made
                const GUID z{}; auto noGuid = [&](bool info) { auto m = make_shared<MemStream>(); auto w = CreateCZIWriter(); w->Create(m, info ? writerInfo(z, o) : nullptr); w->Close(); return openReader(m)->GetFileHeaderInfo().fileGuid; };
                const GUID a = noGuid(g.coin()), b = noGuid(g.coin());
                PBT_REQUIRE("guid", guidStr(a) != guidStr(z) && guidStr(b) != guidStr(z) && guidStr(a) != guidStr(b), "documents created without a GUID got ", guidStr(a), " and ", guidStr(b));
            }
            const bool strict = g.coin(), hp = g.coin();
            checkReader("reader", st, d, strict, hp);
            // reading must not modify, and the editing object shows the same
            auto copy = make_shared<MemStream>(st->b);
            auto rw = CreateCZIReaderWriter();
            rw->Create(copy);
            Doc got = readDoc(*rw);
            readMetaOf(*rw, got);
            compareContent("reader-writer", d, got);
            compareMeta("reader-writer", d, got);
            PBT_REQUIRE("guid", guidStr(rw->GetFileHeaderInfo().fileGuid) == guidStr(d.guid), "file GUID through reader-writer is ", guidStr(rw->GetFileHeaderInfo().fileGuid), " instead of ", guidStr(d.guid));
        } });
    c.subs.push_back({ "interleaved", 20000, 800000, [](Gen& g)
        {
            // items are added in an arbitrary interleaving; metadata may be written repeatedly, the last one counts
            Doc d = genBig(g);
            WriteOpts o = genWriteOpts(g);
            label(g, d, o); describe(g, d);
            vector<pair<int, size_t>> ops;
            for (size_t i = 0; i < d.sbs.size(); ++i) ops.emplace_back(0, i);
            for (size_t i = 0; i < d.atts.size(); ++i) ops.emplace_back(1, i);
            if (d.hasMeta) { ops.emplace_back(2, 0); if (g.chance(1, 3)) ops.emplace_back(2, 1); }
            g.shuffle(ops);
            auto st = make_shared<MemStream>();
            auto w = CreateCZIWriter();
            w->Create(st, writerInfo(d.guid, o));
            string lastXml; Bytes lastAtt; int nMeta = 0;
            for (auto& op : ops)
            {
                if (op.first == 0) withAddInfo(d.sbs[op.second], [&](auto& a) { w->SyncAddSubBlock(a); });
                else if (op.first == 1) w->SyncAddAttachment(toAddAtt(d.atts[op.second]));
                else
                {
                    lastXml = op.second == 0 ? d.xml : genXml(g);
                    lastAtt = op.second == 0 ? d.metaAtt : Bytes();
                    ++nMeta;
                    w->SyncWriteMetadata(toWriteMeta(lastXml, lastAtt));
                }
            }
            if (nMeta > 1) g.cls("metadata-twice");
            w->Close();
            Doc e = d; e.xml = lastXml; e.metaAtt = lastAtt;
            checkReader("interleaved", st, e, false, false);
        } });
    c.subs.push_back({ "far", 4000, 200000, [](Gen& g)
        {
            // a large reservation puts the content beyond 2 GB, 4 GB, ...
            DocGen dg; dg.meta = false; Doc d = genDoc(g, dg); WriteOpts o = genWriteOpts(g); o.resMeta = true;
            o.nMeta = (size_t)g.of<int64_t>({ 0xffffff00ll, 0x7fffff00ll, 5ll << 30, 9ll << 30, 1ll << 41 }) + (size_t)g.below(4000);
            label(g, d, o); describe(g, d); g.d() << "\n  " << o.nMeta << " bytes reserved for metadata";
            auto st = make_shared<MemStream>(); st->makeFar(o.nMeta); writeDoc(d, st, o);
            checkReader("far reader", st, d, g.coin(), g.coin());
            auto rw = CreateCZIReaderWriter(); rw->Create(st); Doc got = readDoc(*rw); readMetaOf(*rw, got);
            compareContent("far reader-writer", d, got); compareMeta("far reader-writer", d, got);
        } });
    c.subs.push_back({ "file", 5000, 100000, [](Gen& g)
        {
            Doc d = genBig(g);
            WriteOpts o = genWriteOpts(g);
            label(g, d, o); describe(g, d);
            const string fn = pbt::scratchDir() + "/a.czi";
            const wstring wfn(fn.begin(), fn.end());
            {
                auto os = CreateOutputStreamForFile(wfn.c_str(), true);
                writeDoc(d, os, o);
            }
            checkReader("file", CreateStreamFromFile(wfn.c_str()), d, true, false);
            remove(fn.c_str());
        } });
    return pbt::main(argc, argv, c);
}
