// P20: a failing storage device is reported and does no harm
#include "compose.hpp"
#include "rawczi.hpp"
using namespace cmp;
using namespace std;

/// storage that fails at one access (or at several)
class Faulty : public IInputOutputStream
{
public:
    shared_ptr<MemStream> m; int64_t n = 0; int64_t at = -1; int64_t len = 1; int kind = 0; uint64_t portion = 0; bool hit = false; bool writesOnly = false; bool fullFail = false;
    explicit Faulty(shared_ptr<MemStream> s) : m(move(s)) {}
    void arm(int64_t a, int k, uint64_t p, int64_t l = 1) { n = 0; at = a; kind = k; portion = p; hit = false; len = l; }
    void disarm() { at = -1; hit = false; n = 0; }
    bool now() { const int64_t k = n++; return at >= 0 && k >= at && k < at + len; }
    [[noreturn]] void thrower() { hit = true; if (kind == 0) throw runtime_error("storage failed"); throw ios_base::failure("storage failed"); }
    void Read(uint64_t off, void* pv, uint64_t size, uint64_t* r) override
    {
        if (!writesOnly && now() && size > 0)
        {
            if (kind <= 1) { if (kind == 1 && size > 1) { uint64_t t; m->Read(off, pv, size / 2, &t); } thrower(); }
            uint64_t have = 0; if (off < m->b.size()) have = min<uint64_t>(size, m->b.size() - off);
            if (have > 0) { hit = true; const uint64_t k = kind == 2 ? 0 : portion % have; uint64_t t; if (k > 0) m->Read(off, pv, k, &t); if (r) *r = k; return; }
        }
        m->Read(off, pv, size, r);
    }
    void Write(uint64_t off, const void* pv, uint64_t size, uint64_t* r) override
    {
        if (now() && size > 0)
        {
            if (kind <= 1) { if (kind == 1 && size > 1) { uint64_t t; m->Write(off, pv, size / 2, &t); } thrower(); }
            hit = true; const uint64_t k = kind == 2 ? 0 : portion % size; uint64_t t; if (k > 0) m->Write(off, pv, k, &t); if (r) *r = k; return;
        }
        m->Write(off, pv, size, r);
    }
};
class OutOnly : public IOutputStream { public: shared_ptr<Faulty> f; explicit OutOnly(shared_ptr<Faulty> x) : f(move(x)) {} void Write(uint64_t o, const void* p, uint64_t s, uint64_t* r) override { f->Write(o, p, s, r); } };
class InOnly : public IStream { public: shared_ptr<Faulty> f; explicit InOnly(shared_ptr<Faulty> x) : f(move(x)) {} void Read(uint64_t o, void* p, uint64_t s, uint64_t* r) override { f->Read(o, p, s, r); } };
static const char* kindName(int k) { const char* n[] = { "an error", "an error after half of the bytes", "no bytes", "too few bytes" }; return n[k]; }

// ------------------------------------------------------------------------------------- reading
static string digest(const Bytes& b) { return hex(b, 40) + "#" + to_string(b.size()) + "/" + to_string(hash<string>()(string(b.begin(), b.end()))); }

static void reading(Gen& g)
{
    POpts po; po.pyramid = g.chance(1, 3); po.mixedScenes = false; po.maxTiles = 5; po.masks = g.coin();
    PDoc p = genPDoc(g, po);
    Doc d = p.doc; DocGen dg; for (int k = (int)g.range(0, 2); k > 0; --k) { At a = genAtt(g, 60); a.name = pbt::cat("n", k); d.atts.push_back(a); }
    d.hasMeta = g.coin(); if (d.hasMeta) { d.xml = "<ImageDocument><Metadata/></ImageDocument>"; d.metaAtt = g.bytes(g.size(0, 40)); }
    WriteOpts dup; dup.allowDup = true; auto mem = writeDoc(d, dup); auto f = make_shared<Faulty>(mem); auto in = make_shared<InOnly>(f);
    struct Op { string name; function<string(const shared_ptr<ISubBlockRepository>&, IAttachmentRepository*, const function<shared_ptr<IMetadataSegment>()>&)> fn; };
    vector<Op> ops; const bool rw = g.chance(1, 3);
    const int n = (int)g.range(1, 5);
    for (int k = 0; k < n; ++k) switch (g.below(6))
    {
    case 0: case 1: { const int i = (int)g.below(d.sbs.size()); ops.push_back({ pbt::cat("read tile ", i), [i](auto& r, auto*, auto&) { auto s = r->ReadSubBlock(i); if (!s) return string("null"); return str(readSb(s)); } }); break; }
    case 2: { const int i = (int)g.below(d.sbs.size()); ops.push_back({ pbt::cat("bitmap of tile ", i), [i](auto& r, auto*, auto&) { auto s = r->ReadSubBlock(i); if (!s) return string("null"); return digest(fromBitmap(s->CreateBitmap()).px); } }); break; }
    case 3: { if (d.atts.empty()) break; const int i = (int)g.below(d.atts.size()); ops.push_back({ pbt::cat("read attachment ", i), [i](auto&, auto* a, auto&) { auto x = a->ReadAttachment(i); if (!x) return string("null"); size_t sz = 0; auto q = x->GetRawData(&sz); return digest(raw(q, sz)) + x->GetAttachmentInfo().name; } }); break; }
    case 4: if (d.hasMeta) ops.push_back({ "read the metadata", [](auto&, auto*, auto& mt) { auto x = mt(); if (!x) return string("null"); size_t a = 0, b = 0; auto q = x->GetRawData(IMetadataSegment::XmlMetadata, &a); auto t = x->GetRawData(IMetadataSegment::Attachment, &b); return digest(raw(q, a)) + digest(raw(t, b)); } }); break;
    default:
    {
        auto plane = genPlane(g, p); const IntRect roi = genRoi(g, p); const int kind = (int)g.below(3); const bool mask = g.coin(), vis = g.coin(); const PixelType pt = PixelType::Bgr24; const int fac = p.pyrFactor;
        ops.push_back({ pbt::cat("compose ", kind), [=](auto& r, auto*, auto&)
            {
                CDimCoordinate co = toCoord(plane); Img out;
                if (kind == 0) { auto a = dynamic_pointer_cast<ISingleChannelTileAccessor>(CreateAccesor(r, AccessorType::SingleChannelTileAccessor)); ISingleChannelTileAccessor::Options o; o.Clear(); o.backGroundColor = { 0, 0, 0 }; o.maskAware = mask; o.useVisibilityCheckOptimization = vis; out = fromBitmap(a->Get(pt, roi, &co, &o)); }
                else if (kind == 1) { auto a = dynamic_pointer_cast<ISingleChannelPyramidLayerTileAccessor>(CreateAccesor(r, AccessorType::SingleChannelPyramidLayerTileAccessor)); ISingleChannelPyramidLayerTileAccessor::Options o; o.Clear(); o.backGroundColor = { 0, 0, 0 }; out = fromBitmap(a->Get(pt, roi, &co, ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo{ (uint8_t)fac, 1 }, &o)); }
                else { auto a = dynamic_pointer_cast<ISingleChannelScalingTileAccessor>(CreateAccesor(r, AccessorType::SingleChannelScalingTileAccessor)); ISingleChannelScalingTileAccessor::Options o; o.Clear(); o.backGroundColor = { 0, 0, 0 }; o.maskAware = mask; o.useVisibilityCheckOptimization = vis; out = fromBitmap(a->Get(pt, roi, &co, 0.7f, &o)); }
                return digest(out.px);
            } });
    }
    }
    for (auto& s : d.sbs) g.d() << "\n  " << str(s); 
    // the whole of it
    struct Obj { shared_ptr<ISubBlockRepository> repo; IAttachmentRepository* att; function<shared_ptr<IMetadataSegment>()> meta; };
    shared_ptr<ICZIReader> rd; shared_ptr<ICziReaderWriter> ed;
    auto fresh = [&] { if (rw) { ed = CreateCZIReaderWriter(); } else rd = CreateCZIReader(); };
    auto openIt = [&] { if (rw) ed->Create(f); else rd->Open(in); };
    auto obj = [&]() -> Obj { if (rw) { auto e = ed; return { e, e.get(), [e] { return e->ReadMetadataSegment(); } }; } auto r = rd; return { r, r.get(), [r] { return r->ReadMetadataSegment(); } }; };
    auto overview = [&](Obj o) { string s; o.repo->EnumerateSubBlocks([&](int i, const SubBlockInfo& x) { s += pbt::cat(i, infoStr(x)); return true; }); o.att->EnumerateAttachments([&](int i, const AttachmentInfo& x) { s += pbt::cat(i, x.name); return true; }); return s; };
    auto guarded = [&](const function<string()>& fn, string& err) { try { return fn(); } catch (pbt::Fail&) { throw; } catch (exception& e) { err = e.what(); return string("error"); } };
    // expected, with healthy storage
    f->disarm(); fresh(); openIt(); const string ov = overview(obj()); const int64_t openAccesses = f->n; vector<string> want; vector<int64_t> acc; vector<bool> wasErr;
    for (auto& op : ops) { f->disarm(); string e; want.push_back(guarded([&] { auto o = obj(); return op.fn(o.repo, o.att, o.meta); }, e)); wasErr.push_back(!e.empty()); acc.push_back(f->n); }
    // opening
    for (int64_t a = 0; a < openAccesses; ++a)
    {
        const int kind = rw && a == 0 ? (int)g.below(2) : (int)g.below(4); // (no bytes at all from the beginning is what an empty file looks like to the editor)
        fresh(); f->arm(a, kind, g.seed64());
        string err; string got = guarded([&] { openIt(); return overview(obj()); }, err); const bool hit = f->hit;
        if (hit && err.empty()) { PBT_REQUIRE("open", got == ov, rw ? "editor" : "reader", ": storage delivers ", kindName(kind), " at access ", a, " while opening: the document is presented as ", got, " instead of ", ov); g.cls("opened all the same"); }
        if (hit && !err.empty()) g.cls("opening reports");
        PBT_REQUIRE("open", hit || err.empty(), "opening fails without a fault: ", err);
        f->disarm(); 
        if (!err.empty()) { string e2; string again = guarded([&] { openIt(); return overview(obj()); }, e2); PBT_REQUIRE("open-again", again == ov, "the same object does not open the document once the storage works: ", e2, again); }
        g.nontrivial();
    }
    // using
    f->disarm(); fresh(); openIt();
    for (size_t k = 0; k < ops.size(); ++k)
    {
        auto& op = ops[k]; if (wasErr[k]) continue;
        vector<int64_t> pts; if (acc[k] <= 12) for (int64_t a = 0; a < acc[k]; ++a) pts.push_back(a); else for (int t = 0; t < 12; ++t) pts.push_back((int64_t)g.below((uint64_t)acc[k]));
        for (auto a : pts)
        {
            const int kind = (int)g.below(4); f->arm(a, kind, g.seed64()); string err; Obj o = obj();
            string got = guarded([&] { return op.fn(o.repo, o.att, o.meta); }, err); const bool hit = f->hit; f->disarm();
            if (err.empty()) PBT_REQUIRE("use", got == want[k], rw ? "editor" : "reader", ": ", op.name, ": storage delivers ", kindName(kind), " at access ", a, " of ", acc[k], ": result is ", got.substr(0, 300), " instead of ", want[k].substr(0, 300));
            else PBT_REQUIRE("use", hit, op.name, " fails without a fault: ", err);
            g.cls(err.empty() ? "result" : "error reported"); if (hit) g.nontrivial();
            string e2; string again = guarded([&] { return op.fn(o.repo, o.att, o.meta); }, e2);
            PBT_REQUIRE("use-again", again == want[k], op.name, ": does not work any more after a fault: ", e2.empty() ? again.substr(0, 300) : e2);
        }
    }
    PBT_REQUIRE("overview", overview(obj()) == ov, "the description of the document changed");
}

// ------------------------------------------------------------------------------------- writing
static string keyOf(const Sb& s) { return pbt::cat(dimsStr(s.dims), s.mValid ? pbt::cat("M", s.m) : string("-"), isLayer0(s) ? "" : "p", "(", s.x, ",", s.y, ",", s.w, ",", s.h, ")"); }

static void compareLoose(const string& where, const Doc& must, const vector<string>& mayTiles, const vector<string>& mayAtts, const set<string>& spoiledTiles, const set<string>& spoiledAtts, bool metaSure, ICZIReader& r)
{
    multiset<string> seen, seenA;
    r.EnumerateSubBlocks([&](int i, const SubBlockInfo& info)
        {
            const string k = infoStr(info); string c;
            try { auto s = r.ReadSubBlock(i); PBT_REQUIRE("file-tile", s != nullptr, where, ": tile ", i, " cannot be read"); c = str(readSb(s)); }
            catch (pbt::Fail&) { throw; } catch (exception& e) { PBT_REQUIRE("file-tile", spoiledTiles.count(k), where, ": tile ", k, " cannot be read: ", e.what()); return true; }
            if (spoiledTiles.count(k)) return true;
            seen.insert(c); return true;
        });
    for (auto& s : must.sbs) { const string c = str(s); auto it = seen.find(c); PBT_REQUIRE("file-tile", it != seen.end(), where, ": tile ", c, " is missing or has other content"); seen.erase(it); }
    for (auto& c : mayTiles) { auto it = seen.find(c); if (it != seen.end()) seen.erase(it); }
    PBT_REQUIRE("file-tile", seen.empty(), where, ": unexpected tile ", *seen.begin());
    r.EnumerateAttachments([&](int i, const AttachmentInfo& info)
        {
            const string k = attInfoStr(info.contentGuid, cstrN(info.contentFileType, 8), info.name); At a; a.guid = info.contentGuid; a.type = cstrN(info.contentFileType, 8); a.name = info.name;
            try { auto x = r.ReadAttachment(i); size_t n = 0; auto q = x->GetRawData(&n); a.data = raw(q, n); }
            catch (pbt::Fail&) { throw; } catch (exception& e) { PBT_REQUIRE("file-attachment", spoiledAtts.count(k), where, ": attachment ", k, " cannot be read: ", e.what()); return true; }
            if (spoiledAtts.count(k)) return true;
            seenA.insert(str(a)); return true;
        });
    for (auto& a : must.atts) { const string c = str(a); auto it = seenA.find(c); PBT_REQUIRE("file-attachment", it != seenA.end(), where, ": attachment ", c, " is missing or has other content"); seenA.erase(it); }
    for (auto& c : mayAtts) { auto it = seenA.find(c); if (it != seenA.end()) seenA.erase(it); }
    PBT_REQUIRE("file-attachment", seenA.empty(), where, ": unexpected attachment ", *seenA.begin());
    if (metaSure) { Doc got; readMetaOf(r, got); compareMeta(where, must, got); }
}

static void writing(Gen& g)
{
    DocGen dg; dg.maxTiles = 6; dg.maxAtts = 3; dg.maxData = 300; Doc d = genDoc(g, dg); WriteOpts wo = genWriteOpts(g);
    auto f = make_shared<Faulty>(make_shared<MemStream>());
    auto run = [&](int64_t at, int kind, uint64_t portion, int64_t len) -> int64_t
    {
        f->m = make_shared<MemStream>(); f->arm(at, kind, portion, len); auto out = make_shared<OutOnly>(f);
        const string where = at < 0 ? string("healthy storage") : pbt::cat("storage accepts ", kindName(kind), " at write ", at, len > 1 ? " and later" : "");
        Doc must; must.guid = d.guid; vector<string> mayT, mayA; bool metaSure = true, closed = false;
        CZIWriterOptions w0; w0.allow_duplicate_subblocks = wo.allowDup; auto w = CreateCZIWriter(&w0); int64_t total = 0; int errors = 0; bool expectedError = false;
        auto step = [&](const char* what, const function<void()>& fn) -> bool
        {
            const bool before = f->hit; f->hit = false; bool ok = true; string err;
            try { fn(); } catch (pbt::Fail&) { throw; } catch (exception& e) { ok = false; err = e.what(); }
            PBT_REQUIRE("write-report", !(f->hit && ok), where, ": ", what, " reports success although the storage failed");
            PBT_REQUIRE("write-report", ok || f->hit || expectedError, where, ": ", what, " fails without a fault: ", err);
            if (!ok) ++errors;
            f->hit = before || f->hit; return ok;
        };
        if (!step("Create", [&] { w->Create(out, writerInfo(d.guid, wo)); })) { total = f->n; g.cls("Create reports"); return total; }
        for (auto& s : d.sbs) { if (step("adding a tile", [&] { withAddInfo(s, [&](auto& a) { w->SyncAddSubBlock(a); }); })) must.sbs.push_back(s); else mayT.push_back(str(s)); 
            if (errors && g.chance(1, 3) && mayT.size()) { /* once more */ if (mayT.back() == str(s)) { expectedError = true; if (step("adding a tile again", [&] { withAddInfo(s, [&](auto& a) { w->SyncAddSubBlock(a); }); })) { must.sbs.push_back(s); mayT.pop_back(); } expectedError = false; } } }
        for (auto& a : d.atts) if (step("adding an attachment", [&] { w->SyncAddAttachment(toAddAtt(a)); })) must.atts.push_back(a); else mayA.push_back(str(a));
        if (d.hasMeta)
        {
            if (step("writing the metadata", [&] { w->SyncWriteMetadata(toWriteMeta(d.xml, d.metaAtt)); })) { must.hasMeta = true; must.xml = d.xml; must.metaAtt = d.metaAtt; } else metaSure = false;
        }
        closed = step("Close", [&] { w->Close(); });
        if (!closed) { g.cls("Close reports"); expectedError = true; closed = step("Close again", [&] { w->Close(); }); if (closed) g.cls("second Close succeeds"); }
        total = f->n; f->disarm();
        w.reset();
        if (!closed) return total;
        if (errors) g.cls("closed after a fault");
        auto r = CreateCZIReader();
        try { r->Open(f->m); } catch (exception& e) { pbt::fail("file", pbt::cat(where, ": Close reports success, but the file cannot be opened: ", e.what())); }
        compareLoose(where + ", Close reports success", must, mayT, mayA, {}, {}, metaSure, *r);
        return total;
    };
    for (auto& s : d.sbs) g.d() << "\n  " << str(s);
    const int64_t total = run(-1, 0, 0, 1);
    vector<int64_t> pts; if (total <= 10) for (int64_t a = 0; a < total; ++a) pts.push_back(a); else { for (int t = 0; t < 8; ++t) pts.push_back((int64_t)g.below((uint64_t)total)); for (int t = 1; t <= 3; ++t) pts.push_back(total - t); }
    for (auto a : pts) { run(a, (int)g.below(4), g.seed64(), g.chance(1, 5) ? 1000000 : 1); g.nontrivial(); }
}

// ------------------------------------------------------------------------------------- editing
static void editing(Gen& g)
{
    DocGen dg; dg.maxTiles = 5; dg.maxAtts = 3; dg.maxData = 200; dg.maxDimValue = 2; const Doc base = genDoc(g, dg); WriteOpts wo = genWriteOpts(g); wo.allowDup = false;
    const Bytes baseFile = writeDoc(base, wo)->b;
    auto dims = genDimSet(g);
    struct Ed { int kind; int which; Sb s; At a; string xml; Bytes matt; bool readAfter; };
    vector<Ed> eds; const int n = (int)g.range(1, 6);
    for (int k = 0; k < n; ++k)
    {
        Ed e; e.kind = (int)g.weighted({ 4, 3, 2, 3, 2, 2, 3 }); e.which = (int)g.below(8); e.readAfter = g.chance(1, 4);
        if (e.kind == 0 || e.kind == 1) e.s = genSb(g, dg, dims);
        if (e.kind == 3 || e.kind == 4) e.a = genAtt(g, 60);
        if (e.kind == 6) { e.xml = genXml(g); e.matt = g.bytes(g.size(0, 60)); }
        eds.push_back(e);
    }
    auto f = make_shared<Faulty>(make_shared<MemStream>());
    auto run = [&](int64_t at, int kind, uint64_t portion, int64_t len) -> int64_t
    {
        f->m = make_shared<MemStream>(baseFile); f->disarm(); auto ed = CreateCZIReaderWriter(); ed->Create(f);
        const string where = at < 0 ? string("healthy storage") : pbt::cat("storage has ", kindName(kind), " at access ", at, len > 1 ? " and later" : "");
        map<int, Sb> sbs; map<int, At> atts; bool hasMeta = base.hasMeta, metaSure = true; string xml = base.xml; Bytes matt = base.metaAtt;
        { vector<int> keys; Doc got = readDoc(*ed); ed->EnumerateSubBlocks([&](int k, const SubBlockInfo&) { keys.push_back(k); return true; }); for (size_t i = 0; i < keys.size(); ++i) sbs[keys[i]] = got.sbs[i]; keys.clear(); ed->EnumerateAttachments([&](int k, const AttachmentInfo&) { keys.push_back(k); return true; }); for (size_t i = 0; i < keys.size(); ++i) atts[keys[i]] = got.atts[i]; }
        vector<string> mayT, mayA; set<string> badT, badA; bool errors = false; bool lost = false;
        f->arm(at, kind, portion, len);
        auto step = [&](const string& what, bool legal, const function<void()>& fn) -> int // 1 ok, 0 fault reported, -1 refused
        {
            const bool before = f->hit; f->hit = false; bool ok = true; string err;
            try { fn(); } catch (pbt::Fail&) { throw; } catch (exception& e) { ok = false; err = e.what(); }
            const bool h = f->hit; f->hit = h || before;
            PBT_REQUIRE("edit-report", !(h && ok), where, ": ", what, " reports success although the storage failed");
            PBT_REQUIRE("edit-report", ok || h || !legal, where, ": ", what, " fails without a fault: ", err);
            if (h) errors = true;
            return ok ? 1 : h ? 0 : -1;
        };
        auto keysNow = [&](set<int>& s, bool att) { if (att) ed->EnumerateAttachments([&](int k, const AttachmentInfo&) { s.insert(k); return true; }); else ed->EnumerateSubBlocks([&](int k, const SubBlockInfo&) { s.insert(k); return true; }); };
        for (auto& e : eds)
        {
            if (e.kind == 0)
            {
                set<int> a, b; keysNow(a, false);
                const int r = step("adding a tile", false, [&] { withAddInfo(e.s, [&](auto& x) { ed->SyncAddSubBlock(x); }); });
                keysNow(b, false); vector<int> nw; for (int k : b) if (!a.count(k)) nw.push_back(k);
                if (r == 1) { PBT_REQUIRE("edit-add", nw.size() == 1, where, ": adding a tile gave ", nw.size(), " new keys"); sbs[nw[0]] = e.s; }
                else { PBT_REQUIRE("edit-add", nw.empty(), where, ": adding a tile failed, but it is enumerated"); }
            }
            else if (e.kind == 1 || e.kind == 2)
            {
                if (sbs.empty()) continue; auto it = sbs.begin(); advance(it, e.which % (int)sbs.size()); const int key = it->first;
                const int r = step(e.kind == 1 ? "replacing a tile" : "removing a tile", e.kind == 2, [&] { if (e.kind == 1) withAddInfo(e.s, [&](auto& x) { ed->ReplaceSubBlock(key, x); }); else ed->RemoveSubBlock(key); });
                if (r == 1) { if (e.kind == 1) it->second = e.s; else sbs.erase(it); }
                else if (r == 0) { badT.insert(infoStr(it->second)); if (e.kind == 1) badT.insert(infoStr(e.s)); sbs.erase(it); }
            }
            else if (e.kind == 3)
            {
                set<int> a, b; keysNow(a, true); const int r = step("adding an attachment", false, [&] { ed->SyncAddAttachment(toAddAtt(e.a)); }); keysNow(b, true);
                vector<int> nw; for (int k : b) if (!a.count(k)) nw.push_back(k);
                if (r == 1) { PBT_REQUIRE("edit-add", nw.size() == 1, where, ": adding an attachment gave ", nw.size(), " new keys"); atts[nw[0]] = e.a; }
                else PBT_REQUIRE("edit-add", nw.empty(), where, ": adding an attachment failed, but it is enumerated");
            }
            else if (e.kind == 4 || e.kind == 5)
            {
                if (atts.empty()) continue; auto it = atts.begin(); advance(it, e.which % (int)atts.size()); const int key = it->first;
                const int r = step(e.kind == 4 ? "replacing an attachment" : "removing an attachment", e.kind == 5, [&] { if (e.kind == 4) ed->ReplaceAttachment(key, toAddAtt(e.a)); else ed->RemoveAttachment(key); });
                auto ks = [](const At& a) { return attInfoStr(a.guid, a.type, a.name); };
                if (r == 1) { if (e.kind == 4) it->second = e.a; else atts.erase(it); }
                else if (r == 0) { badA.insert(ks(it->second)); if (e.kind == 4) badA.insert(ks(e.a)); atts.erase(it); }
            }
            else
            {
                const int r = step("writing the metadata", true, [&] { ed->SyncWriteMetadata(toWriteMeta(e.xml, e.matt)); });
                if (r == 1) { hasMeta = true; xml = e.xml; matt = e.matt; metaSure = true; } else metaSure = false;
            }
            if (e.readAfter && at < 0) continue;
            if (e.readAfter)
            {   // the others are still there
                const int64_t keepAt = f->at, keepN = f->n; const bool keepHit = f->hit; f->at = -1;
                for (auto& x : sbs) { if (badT.count(infoStr(x.second))) continue; auto s = ed->ReadSubBlock(x.first); PBT_REQUIRE("edit-others", s && str(readSb(s)) == str(x.second), where, ": another tile changed: ", str(x.second)); }
                for (auto& x : atts) { auto s = ed->ReadAttachment(x.first); size_t sz = 0; auto q = s->GetRawData(&sz); PBT_REQUIRE("edit-others", raw(q, sz) == x.second.data, where, ": another attachment changed: ", str(x.second)); }
                f->at = keepAt; f->n = keepN; f->hit = keepHit;
            }
        }
        bool closed = step("Close", true, [&] { ed->Close(); }) == 1;
        if (!closed) { g.cls("Close reports"); closed = step("Close again", false, [&] { ed->Close(); }) == 1; if (closed) g.cls("second Close succeeds"); }
        const int64_t total = f->n; f->disarm(); ed.reset(); (void)lost;
        if (!closed) return total;
        if (errors) g.cls("closed after a fault");
        Doc must; must.guid = base.guid; must.hasMeta = hasMeta; must.xml = xml; must.metaAtt = matt;
        for (auto& x : sbs) if (!badT.count(infoStr(x.second))) must.sbs.push_back(x.second);
        for (auto& x : atts) if (!badA.count(attInfoStr(x.second.guid, x.second.type, x.second.name))) must.atts.push_back(x.second);
        auto r = CreateCZIReader();
        try { r->Open(f->m); } catch (exception& e) { pbt::fail("file", pbt::cat(where, ": Close reports success, but the file cannot be opened: ", e.what())); }
        compareLoose(where + ", Close reports success", must, mayT, mayA, badT, badA, metaSure, *r);
        return total;
    };
    for (auto& s : base.sbs) g.d() << "\n  " << str(s); for (auto& e : eds) g.d() << "\n edit " << e.kind << "/" << e.which;
    const int64_t total = run(-1, 0, 0, 1); if (total == 0) return;
    vector<int64_t> pts; if (total <= 12) for (int64_t a = 0; a < total; ++a) pts.push_back(a); else { for (int t = 0; t < 9; ++t) pts.push_back((int64_t)g.below((uint64_t)total)); for (int t = 1; t <= 4; ++t) pts.push_back(total - t); }
    for (auto a : pts) { run(a, (int)g.below(4), g.seed64(), g.chance(1, 6) ? 1000000 : 1); g.nontrivial(); }
}

// ------------------------------------------------------------------------------------- leaks
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static void leaks(Gen& g)
{
    POpts po; po.pyramid = g.chance(1, 3); po.mixedScenes = false; po.maxTiles = 4; po.masks = g.coin();
    PDoc p = genPDoc(g, po); Doc d = p.doc; for (int k = (int)g.range(0, 2); k > 0; --k) { At a = genAtt(g, 60); a.name = pbt::cat("n", k); d.atts.push_back(a); }
    d.hasMeta = g.coin(); if (d.hasMeta) { d.xml = "<ImageDocument><Metadata/></ImageDocument>"; d.metaAtt = g.bytes(g.size(0, 40)); }
    WriteOpts dup; dup.allowDup = true; const Bytes file = writeDoc(d, dup)->b; const int mode = (int)g.below(3); const int kind = (int)g.below(4); const uint64_t portion = g.seed64(); const IntRect box = boundingBox(p); auto plane = genPlane(g, p);
    const int64_t len = g.chance(1, 4) ? 1000000 : 1; Sb extra = d.sbs[0]; extra.x += 1000; extra.data = g.bytes(g.size(0, 50)); extra.comp = 0; const int w1 = (int)g.below(d.sbs.size());
    bool hit = false; int64_t count = 0; 
    auto once = [&](int64_t at)
    {
        auto f = make_shared<Faulty>(mode == 1 ? make_shared<MemStream>() : make_shared<MemStream>(file)); f->arm(at, kind, portion, len);
        auto tr = [&](auto fn) { try { fn(); } catch (pbt::Fail&) { throw; } catch (exception&) {} };
        if (mode == 0)
        {
            auto r = CreateCZIReader(); tr([&] { r->Open(make_shared<InOnly>(f)); });
            for (size_t i = 0; i < d.sbs.size(); ++i) tr([&] { auto s = r->ReadSubBlock((int)i); auto b = s->CreateBitmap(); });
            for (size_t i = 0; i < d.atts.size(); ++i) tr([&] { r->ReadAttachment((int)i); });
            tr([&] { auto m = r->ReadMetadataSegment(); m->CreateMetaFromMetadataSegment(); });
            tr([&] { auto a = r->CreateSingleChannelTileAccessor(); CDimCoordinate co = toCoord(plane); a->Get(PixelType::Bgr24, box, &co, nullptr); });
            tr([&] { auto a = r->CreateSingleChannelScalingTileAccessor(); CDimCoordinate co = toCoord(plane); a->Get(PixelType::Bgr24, box, &co, 0.5f, nullptr); });
        }
        else if (mode == 1)
        {
            CZIWriterOptions w0; auto w = CreateCZIWriter(&w0); tr([&] { w->Create(make_shared<OutOnly>(f), writerInfo(d.guid, WriteOpts())); });
            for (auto& s : d.sbs) tr([&] { withAddInfo(s, [&](auto& a) { w->SyncAddSubBlock(a); }); });
            for (auto& a : d.atts) tr([&] { w->SyncAddAttachment(toAddAtt(a)); });
            tr([&] { w->SyncWriteMetadata(toWriteMeta(d.xml, d.metaAtt)); }); tr([&] { w->Close(); });
        }
        else
        {
            auto w = CreateCZIReaderWriter(); tr([&] { w->Create(f); });
            tr([&] { withAddInfo(extra, [&](auto& a) { w->SyncAddSubBlock(a); }); }); tr([&] { withAddInfo(extra, [&](auto& a) { w->ReplaceSubBlock(w1, a); }); }); tr([&] { w->RemoveSubBlock(0); }); tr([&] { w->ReadSubBlock(w1); });
            for (auto& a : d.atts) tr([&] { w->ReplaceAttachment(0, toAddAtt(a)); });
            tr([&] { w->ReadMetadataSegment(); }); tr([&] { w->SyncWriteMetadata(toWriteMeta(d.xml, d.metaAtt)); }); tr([&] { w->Close(); });
        }
        hit = f->hit; count = f->n;
    };
    once(-1); const int64_t n = count;
    for (int t = 0; t < 3; ++t)
    {
        const int64_t at = (int64_t)g.below((uint64_t)max<int64_t>(1, n)); g.d() << "\n mode " << mode << " fault " << kind << " at " << at << " of " << n;
        once(at); const size_t b0 = __sanitizer_get_current_allocated_bytes(); once(at); const size_t b1 = __sanitizer_get_current_allocated_bytes(); once(at); const size_t b2 = __sanitizer_get_current_allocated_bytes(); once(at); const size_t b3 = __sanitizer_get_current_allocated_bytes();
        PBT_REQUIRE("leak", !(b1 > b0 && b2 > b1 && b3 > b2), mode == 0 ? "reading" : mode == 1 ? "writing" : "editing", ": storage has ", kindName(kind), " at access ", at, ": every run leaves ", b2 - b1, " bytes allocated");
        if (hit) g.nontrivial(); g.cls(mode == 0 ? "reading" : mode == 1 ? "writing" : "editing");
    }
}

int main(int argc, char** argv)
{
    pbt::Config c;
    c.property = "P20";
    c.rule = "at least one access of a library call was made to fail";
    c.assumptions = { "one failing access (or all from one on) per run", "a tile, attachment or metadata whose replacement or removal failed may be damaged; everything else must be intact", "a call which is refused for other reasons is not judged" };
    c.subs = { { "reading", 6000, 100000, reading }, { "writing", 10000, 200000, writing }, { "editing", 10000, 200000, editing }, { "leaks", 6000, 60000, leaks } };
    return pbt::main(argc, argv, c);
}
