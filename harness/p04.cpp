// P04: invalid additions are refused and leave no trace
#include "rwhist.hpp"
#include "rawczi.hpp"
using namespace czi;
using namespace std;

enum class Bad { No, NegW, NegPw, NoData, NoMeta, NoAtt, InvalidComp, NullPtr, Throwing };

struct UserError : runtime_error { UserError() : runtime_error("user") {} };

/// adds the tile, made ill-formed as told; F takes an AddSubBlockInfo
template <class F> static void addBad(const Sb& s, Bad bad, F f)
{
    AddSubBlockInfo a; fillBase(a, s);
    auto whole = [](const Bytes& b) { return [&b](int call, size_t, const void*& p, size_t& n)->bool { if (call > 0) return false; p = b.data(); n = b.size(); return true; }; };
    a.sizeData = s.data.size(); a.getData = whole(s.data);
    a.sizeMetadata = s.meta.size(); a.getMetaData = whole(s.meta);
    a.sizeAttachment = s.att.size(); a.getAttachment = whole(s.att);
    switch (bad)
    {
    case Bad::No: break;
    case Bad::NegW: if (s.x % 2) a.logicalWidth = -1; else a.logicalHeight = -5; break;
    case Bad::NegPw: if (s.x % 2) a.physicalWidth = -1; else a.physicalHeight = -3; break;
    case Bad::NoData: a.sizeData = 10; a.getData = nullptr; break;
    case Bad::NoMeta: a.sizeMetadata = 10; a.getMetaData = nullptr; break;
    case Bad::NoAtt: a.sizeAttachment = 10; a.getAttachment = nullptr; break;
    case Bad::InvalidComp: a.SetCompressionMode(CompressionMode::Invalid); break;
    case Bad::NullPtr:
        a.sizeData = s.data.size() + 5;
        a.getData = [&](int call, size_t, const void*& p, size_t& n)->bool { if (call == 0 && !s.data.empty()) { p = s.data.data(); n = s.data.size(); return true; } p = nullptr; n = 5; return true; };
        break;
    case Bad::Throwing:
        a.sizeAttachment = 20;
        a.getAttachment = [](int, size_t, const void*&, size_t&)->bool { throw UserError(); };
        break;
    }
    f(a);
}
static Bad genBad(Gen& g) { return g.of<Bad>({ Bad::NegW, Bad::NegPw, Bad::NoData, Bad::NoMeta, Bad::NoAtt, Bad::InvalidComp, Bad::NullPtr, Bad::Throwing }); }

template <class F> static bool refused(F f, string* what = nullptr)
{
    try { f(); }
    catch (LibCZIWriteException& e) { if (what) *what = pbt::cat("W", (int)e.GetErrorType()); return true; }
    catch (exception& e) { if (what) *what = e.what(); return true; }
    return false;
}

struct Bounds { bool on = false; map<DimensionIndex, pair<int, int>> dims; bool m = false; int mMin = 0, mMax = 0; };

static bool withinBounds(const Bounds& b, const Sb& s, LibCZIWriteException::ErrorType* t)
{
    if (!b.on) return true;
    bool outside = false, missing = false, extra = false;
    for (auto& p : b.dims)
    {
        auto it = s.dims.find(p.first);
        if (it == s.dims.end()) missing = true;
        else if (it->second < p.second.first || it->second >= p.second.first + p.second.second) outside = true;
    }
    for (auto& p : s.dims) if (!b.dims.count(p.first)) extra = true;
    if (b.m && !s.mValid) missing = true;
    if (b.m && s.mValid && (s.m < b.mMin || s.m > b.mMax)) outside = true;
    if (outside && !missing && !extra) *t = LibCZIWriteException::ErrorType::SubBlockCoordinateOutOfBounds;
    if (missing && !outside && !extra) *t = LibCZIWriteException::ErrorType::SubBlockCoordinateInsufficient;
    if (extra && !missing && !outside) *t = LibCZIWriteException::ErrorType::AddCoordinateContainsUnexpectedDimension;
    return !(outside || missing || extra);
}

static void expectLogicError(const char* what, const function<void()>& f)
{
    bool ok = false;
    try { f(); }
    catch (logic_error&) { ok = true; }
    catch (exception& e) { pbt::fail("state", pbt::cat(what, " in the wrong state threw '", e.what(), "' instead of logic_error")); }
    PBT_REQUIRE("state", ok, what, " in the wrong state was accepted");
}

template <class W> static void allRefused(W& w, const char* when)
{
    Sb t; t.data = Bytes(3, 1); At a; a.name = "n"; a.data = Bytes(2, 2); Bytes none;
    expectLogicError(pbt::cat("SyncAddSubBlock ", when).c_str(), [&] { withAddInfo(t, [&](auto& x) { w.SyncAddSubBlock(x); }); });
    expectLogicError(pbt::cat("SyncAddAttachment ", when).c_str(), [&] { w.SyncAddAttachment(toAddAtt(a)); });
    expectLogicError(pbt::cat("SyncWriteMetadata ", when).c_str(), [&] { w.SyncWriteMetadata(toWriteMeta("<x/>", none)); });
    expectLogicError(pbt::cat("GetStatistics ", when).c_str(), [&] { w.GetStatistics(); });
    expectLogicError(pbt::cat("Close ", when).c_str(), [&] { w.Close(); });
}

static void writerCase(Gen& g)
{
    WriteOpts wo = genWriteOpts(g);
    wo.allowDup = g.chance(1, 4);
    CZIWriterOptions co; co.allow_duplicate_subblocks = wo.allowDup;
    auto w = CreateCZIWriter(&co);
    if (g.chance(1, 6)) { allRefused(*w, "before Create"); g.cls("before-create"); }
    const int rounds = g.chance(1, 4) ? 2 : 1;     // the object may be used again after Close
    unsigned nRefused = 0, nAccepted = 0;
    for (int round = 0; round < rounds; ++round)
    {
        auto dims = genDimSet(g);
        Bounds b;
        b.on = g.chance(1, 2);
        if (b.on)
        {
            for (auto d : dims) b.dims[d] = { (int)g.range0(-2, 3), (int)g.range(1, 4) };
            b.m = g.coin();
            if (b.m) { b.mMin = (int)g.range0(-2, 3); b.mMax = b.mMin + (int)g.range(0, 4); }
            g.cls(b.m ? "bounds+m" : "bounds");
        }
        const GUID guid = genGuid(g);
        CDimBounds db; for (auto& p : b.dims) db.Set(p.first, p.second.first, p.second.second);
        auto mkInfo = [&]
            {
                shared_ptr<CCziWriterInfo> i;
                if (!b.on) i = make_shared<CCziWriterInfo>(guid);
                else if (!b.m) i = make_shared<CCziWriterInfo>(guid, db);
                else i = make_shared<CCziWriterInfo>(guid, db, b.mMin, b.mMax);
                if (wo.resSb) i->SetReservedSizeForSubBlockDirectory(true, wo.nSb);
                if (wo.resAtt) i->SetReservedSizeForAttachmentsDirectory(true, wo.nAtt);
                if (wo.resMeta) i->SetReservedSizeForMetadataSegment(true, wo.nMeta);
                return i;
            };
        auto st = make_shared<MemStream>(), ref = make_shared<MemStream>();
        w->Create(st, mkInfo());
        auto w2 = CreateCZIWriter(&co);
        w2->Create(ref, mkInfo());
        if (g.chance(1, 8)) expectLogicError("Create on a created writer", [&] { w->Create(make_shared<MemStream>(), nullptr); });
        Doc model; model.guid = guid;
        bool partial = false;
        string log;
        const bool extreme = g.chance(1, 8); if (extreme) g.cls("extreme positions");
        const int nOps = (int)g.range(1, extreme ? 24 : 14);
        DocGen dg; dg.maxData = 200; dg.maxDimValue = 3;
        for (int i = 0; i < nOps; ++i)
        {
            switch (g.weighted({ 6, 2, 1, 1 }))
            {
            case 0:
            {
                Sb s;
                const bool fromExisting = !model.sbs.empty() && g.chance(1, 3);
                if (fromExisting)
                {
                    s = g.pick(model.sbs);
                    switch (g.below(8))
                    {
                    case 0: break;                              // exact duplicate
                    case 1: s.data = g.bytes(5); s.pt = PixelType::Gray16; s.comp = 6; break;  // same key, other content
                    case 2: s.x += 1; break;                    // duplicate iff M is valid
                    case 3: if (s.mValid) s.m += (int)g.range0(-1, 1); break;
                    case 4: s.mValid = !s.mValid; s.m = s.mValid ? 2 : 0; break;
                    case 5: s.y -= 3; break;
                    case 6: if (!s.dims.empty()) { auto it = s.dims.begin(); advance(it, (long)g.below(s.dims.size())); it->second += (int)g.range0(-1, 1); } break;
                    case 7: s.w *= 2; s.h *= 2; break;          // other layer
                    }
                }
                else s = genSb(g, dg, dims);
                if (extreme && !fromExisting) { s.mValid = false; s.m = 0; s.w = s.pw = 2; s.h = s.ph = 2; s.pyr = SubBlockPyramidType::None; static const int P[] = { -2147483647 - 1, -2000000000, -1000000000, 0, 1000000000, 2000000000, 2147483645 }; s.x = g.of<int>({ P[0], P[1], P[2], P[3], P[4], P[5], P[6] }); s.y = g.coin() ? 0 : P[g.below(7)]; for (auto& d : s.dims) d.second = 0; }
                if (b.on && g.chance(3, 4))
                {
                    // aim at the limits
                    for (auto& p : b.dims) if (!fromExisting || g.chance(1, 8)) s.dims[p.first] = p.second.first + (g.chance(1, 10) ? -1 : g.chance(1, 10) ? p.second.second : (int)g.below((uint64_t)p.second.second));
                    if (b.m && !fromExisting) { s.mValid = !g.chance(1, 10); s.m = s.mValid ? (g.chance(1, 8) ? b.mMin - 1 : g.chance(1, 8) ? b.mMax + 1 : (int)g.range(b.mMin, b.mMax)) : 0; }
                }
                if (!s.dims.empty() && g.chance(1, 12)) s.dims.erase(s.dims.begin());
                if (g.chance(1, 12)) s.dims[g.pick(allDims())] = 1;
                const Bad bad = g.chance(1, 5) ? genBad(g) : Bad::No;
                bool dup = false;
                for (auto& e : model.sbs) dup = dup || sameKey(e, s);
                dup = dup && !wo.allowDup;
                auto et = (LibCZIWriteException::ErrorType)-1;
                const bool inside = withinBounds(b, s, &et);
                const bool valid = !dup && inside && bad == Bad::No;
                log += pbt::cat(" T", (int)bad, dup ? "d" : "", inside ? "" : "o");
                string what;
                const bool r = bad == Bad::No ? refused([&] { withAddInfo(s, [&](auto& x) { w->SyncAddSubBlock(x); }); }, &what) : refused([&] { addBad(s, bad, [&](AddSubBlockInfo& x) { w->SyncAddSubBlock(x); }); }, &what);
                PBT_REQUIRE("accept", !(valid && r), "a valid tile was refused (", what, "): ", str(s), " after", log);
                PBT_REQUIRE("refuse", !(!valid && !r), "an invalid tile was accepted: ", str(s), " ill-formed=", (int)bad, " duplicate=", dup, " inside bounds=", inside, " after", log);
                if (r && bad == Bad::No && !dup && (int)et != -1) PBT_REQUIRE("error-type", what == pbt::cat("W", (int)et), "bounds violation reported as ", what, " instead of W", (int)et);
                if (r && bad == Bad::No && inside && dup) PBT_REQUIRE("error-type", what == pbt::cat("W", (int)LibCZIWriteException::ErrorType::AddCoordinateAlreadyExisting), "duplicate reported as ", what);
                if (r && bad == Bad::NullPtr && inside && !dup) PBT_REQUIRE("error-type", what == pbt::cat("W", (int)LibCZIWriteException::ErrorType::GetDataCallError), "missing data reported as ", what);
                if (r) { ++nRefused; if (bad == Bad::NullPtr || bad == Bad::Throwing) partial = true; if (dup) g.cls("duplicate-tile"); if (!inside) g.cls("out-of-bounds"); if (bad != Bad::No) g.cls("ill-formed"); }
                else { ++nAccepted; withAddInfo(s, [&](auto& x) { w2->SyncAddSubBlock(x); }); model.sbs.push_back(s); }
                break;
            }
            case 1:
            {
                At a = genAtt(g, 150);
                if (!model.atts.empty() && g.chance(1, 2))
                {
                    At o = g.pick(model.atts);
                    a.guid = o.guid; a.name = o.name; a.type = o.type;
                    switch (g.below(4)) { case 0: break; case 1: a.name += "x"; break; case 2: a.type = a.type == "A" ? "B" : "A"; break; case 3: a.guid.Data1 ^= 1; break; }
                    a.name = a.name.substr(0, 80);
                }
                bool dup = false;
                for (auto& e : model.atts) dup = dup || sameKey(e, a);
                auto ai = toAddAtt(a);
                const bool bad = g.chance(1, 6);
                if (bad) { ai.ptrData = nullptr; ai.dataSize = 9; }
                log += pbt::cat(" A", bad ? "b" : "", dup ? "d" : "");
                const bool r = refused([&] { w->SyncAddAttachment(ai); });
                PBT_REQUIRE("accept", !(!dup && !bad && r), "a valid attachment was refused: ", str(a), " after", log);
                PBT_REQUIRE("refuse", !((dup || bad) && !r), "an invalid attachment was accepted: ", str(a), " ill-formed=", bad, " duplicate=", dup, " after", log);
                if (r) { ++nRefused; if (dup) g.cls("duplicate-attachment"); }
                else { ++nAccepted; w2->SyncAddAttachment(ai); model.atts.push_back(a); }
                break;
            }
            case 2:
            {
                string xml = genXml(g); Bytes att = g.chance(1, 3) ? g.bytes(20) : Bytes();
                auto mi = toWriteMeta(xml, att);
                const int bad = g.chance(1, 4) ? (int)g.range(1, 2) : 0;
                if (bad == 1) { mi.szMetadata = nullptr; mi.szMetadataSize = 4; }
                if (bad == 2) { mi.ptrAttachment = nullptr; mi.attachmentSize = 4; }
                log += pbt::cat(" M", bad);
                const bool r = refused([&] { w->SyncWriteMetadata(mi); });
                PBT_REQUIRE("accept", !(bad == 0 && r), "valid metadata were refused after", log);
                PBT_REQUIRE("refuse", !(bad != 0 && !r), "invalid metadata were accepted after", log);
                if (r) ++nRefused; else { ++nAccepted; w2->SyncWriteMetadata(mi); model.hasMeta = true; model.xml = xml; model.metaAtt = att; }
                break;
            }
            case 3:
            {
                auto s1 = w->GetStatistics(), s2 = w2->GetStatistics();
                PBT_REQUIRE("trace", s1.subBlockCount == (int)model.sbs.size() && s1.subBlockCount == s2.subBlockCount, "statistics count ", s1.subBlockCount, " tiles instead of ", model.sbs.size(), " after", log);
                PBT_REQUIRE("trace", s1.boundingBox.IsValid() == s2.boundingBox.IsValid() && (!s1.boundingBox.IsValid() || (s1.boundingBox.x == s2.boundingBox.x && s1.boundingBox.y == s2.boundingBox.y && s1.boundingBox.w == s2.boundingBox.w && s1.boundingBox.h == s2.boundingBox.h)) && s1.minMindex == s2.minMindex && s1.maxMindex == s2.maxMindex && Utils::DimBoundsToString(&s1.dimBounds) == Utils::DimBoundsToString(&s2.dimBounds), "a refused call changed the statistics, after", log);
                break;
            }
            }
        }
        w->Close(); w2->Close();
        if (g.chance(1, 6)) allRefused(*w, "after Close");
        auto r = openReader(st);
        Doc got = readDoc(*r); readMetaOf(*r, got);
        compareContent(pbt::cat("after", log), model, got);
        compareMeta(pbt::cat("after", log), model, got);
        PBT_REQUIRE("guid", guidStr(r->GetFileHeaderInfo().fileGuid) == guidStr(guid), "wrong file GUID");
        if (partial) g.cls("failed-midway"); else PBT_REQUIRE("trace", st->b == ref->b, "the file differs from the one written without the refused calls, after", log);
        rawczi::verify(st->b);
        g.d() << "round " << round << (wo.allowDup ? " dup-allowed" : "") << ":" << log << "\n";
    }
    if (nRefused >= 1 && nAccepted >= 2) g.nontrivial();
}

static void editorCase(Gen& g)
{
    RwSession s;
    auto rw0 = CreateCZIReaderWriter();
    if (g.chance(1, 8)) allRefused(*rw0, "before Create");
    DocGen dg; dg.maxTiles = 5; dg.maxAtts = 3; dg.maxData = 200; dg.allowEdgeCoords = false;
    Doc d = genDoc(g, dg);
    s.st = writeDoc(d, genWriteOpts(g));
    s.open(); s.bind(d);
    expectLogicError("Create on a created editor", [&] { s.rw->Create(make_shared<MemStream>()); });
    auto dims = genDimSet(g);
    if (!d.sbs.empty()) { dims.clear(); for (auto& p : d.sbs[0].dims) dims.push_back(p.first); }
    string log; unsigned nRefused = 0, nAccepted = 0;
    auto keyOfNew = [&](auto enumerate, auto& m) { int key = -1; enumerate([&](int k) { if (!m.count(k)) key = k; }); return key; };
    const int nOps = (int)g.range(1, 10);
    for (int i = 0; i < nOps; ++i)
    {
        switch (g.weighted({ 5, 2, 3, 2, 1 }))
        {
        case 0:
        {
            Sb t;
            if (!s.sbs.empty() && g.chance(1, 2))
            {
                auto it = s.sbs.begin(); advance(it, (long)g.below(s.sbs.size())); t = it->second;
                switch (g.below(5)) { case 0: break; case 1: t.x += 10; t.data = g.bytes(33); break; case 2: t.w *= 2; t.h *= 2; break; case 3: t.m += 1; break; case 4: t.mValid = !t.mValid; if (!t.mValid) t.m = 0; break; }
                if (!t.mValid) t.m = 0;
            }
            else t = genSb(g, dg, dims);
            bool dup = false;
            for (auto& p : s.sbs)
            {
                auto& e = p.second;
                dup = dup || (e.dims == t.dims && e.mValid && t.mValid && e.m == t.m && e.w == e.pw && e.h == e.ph && t.w == t.pw && t.h == t.ph);
            }
            const Bad bad = g.chance(1, 4) ? genBad(g) : Bad::No;
            log += pbt::cat(" T", (int)bad, dup ? "d" : "");
            const bool r = bad == Bad::No ? refused([&] { withAddInfo(t, [&](auto& x) { s.rw->SyncAddSubBlock(x); }); }) : refused([&] { addBad(t, bad, [&](AddSubBlockInfo& x) { s.rw->SyncAddSubBlock(x); }); });
            PBT_REQUIRE("accept", !(!dup && bad == Bad::No && r), "a valid tile was refused: ", str(t), " after", log);
            PBT_REQUIRE("refuse", !((dup || bad != Bad::No) && !r), "an invalid tile was accepted: ", str(t), " ill-formed=", (int)bad, " duplicate=", dup, " after", log);
            if (r) { ++nRefused; if (dup) g.cls("duplicate-tile"); }
            else { ++nAccepted; s.sbs[keyOfNew([&](auto f) { s.rw->EnumerateSubBlocks([&](int k, const SubBlockInfo&) { f(k); return true; }); }, s.sbs)] = t; }
            break;
        }
        case 1:
        {
            At a = genAtt(g, 150);
            if (!s.atts.empty() && g.chance(1, 2)) { auto it = s.atts.begin(); advance(it, (long)g.below(s.atts.size())); a = it->second; if (g.coin()) a.type = a.type == "A" ? "B" : "A"; }
            const bool dup = s.clashes(a, -1), bad = g.chance(1, 5);
            auto ai = toAddAtt(a);
            if (bad) { ai.ptrData = nullptr; ai.dataSize = 9; }
            log += pbt::cat(" A", bad ? "b" : "", dup ? "d" : "");
            const bool r = refused([&] { s.rw->SyncAddAttachment(ai); });
            PBT_REQUIRE("accept", !(!dup && !bad && r), "a valid attachment was refused: ", str(a), " after", log);
            PBT_REQUIRE("refuse", !((dup || bad) && !r), "an invalid attachment was accepted: ", str(a), " ill-formed=", bad, " duplicate=", dup, " after", log);
            if (r) { ++nRefused; if (dup) g.cls("duplicate-attachment"); }
            else { ++nAccepted; s.atts[keyOfNew([&](auto f) { s.rw->EnumerateAttachments([&](int k, const AttachmentInfo&) { f(k); return true; }); }, s.atts)] = a; }
            break;
        }
        case 2:
        {
            if (s.sbs.empty()) break;
            auto it = s.sbs.begin(); advance(it, (long)g.below(s.sbs.size()));
            // replacing by something ill-formed (recognisable from the arguments) leaves the tile as it was
            const Bad bad = g.of<Bad>({ Bad::NegW, Bad::NegPw, Bad::NoData, Bad::NoMeta, Bad::NoAtt, Bad::InvalidComp });
            Sb t = it->second; t.data = g.bytes(7);
            log += pbt::cat(" R", (int)bad);
            PBT_REQUIRE("refuse", refused([&] { addBad(t, bad, [&](AddSubBlockInfo& x) { s.rw->ReplaceSubBlock(it->first, x); }); }), "an ill-formed tile (", (int)bad, ") was accepted as replacement, after", log);
            ++nRefused; g.cls("ill-formed-replacement");
            break;
        }
        case 3:
        {
            if (s.atts.empty()) break;
            auto it = s.atts.begin(); advance(it, (long)g.below(s.atts.size()));
            auto ai = toAddAtt(it->second); ai.ptrData = nullptr; ai.dataSize = (uint32_t)g.range(1, 400);
            log += " RA";
            PBT_REQUIRE("refuse", refused([&] { s.rw->ReplaceAttachment(it->first, ai); }), "an attachment without data was accepted as replacement, after", log);
            ++nRefused; g.cls("ill-formed-replacement");
            break;
        }
        case 4:
        {
            Bytes none; auto mi = toWriteMeta("", none); mi.szMetadata = nullptr; mi.szMetadataSize = 4;
            log += " M";
            PBT_REQUIRE("refuse", refused([&] { s.rw->SyncWriteMetadata(mi); }), "metadata without data were accepted, after", log);
            ++nRefused;
            break;
        }
        }
        s.checkSession(pbt::cat("after", log));
    }
    s.rw->Close();
    g.d() << "editor:" << log;
    Doc e = s.model();
    auto r = openReader(s.st);
    Doc got = readDoc(*r); readMetaOf(*r, got);
    compareContent(pbt::cat("after", log), e, got);
    compareMeta(pbt::cat("after", log), e, got);
    rawczi::verify(s.st->b);
    if (nRefused >= 1 && nAccepted >= 1) g.nontrivial();
}

int main(int argc, char** argv)
{
    pbt::Config c;
    c.property = "P04";
    c.rule = "random sequences of valid and invalid additions (duplicates, bounds and dimension violations at and around the limits, ill-formed arguments, data sources failing midway, calls in the wrong state) to the writer (with and without bounds, duplicates allowed or not, object reused after closing) and to the in-place editor; acceptance compared with the rule of the model, the finished file with the one written without the refused calls; non-trivial: at least one refused and two accepted calls (editor: one)";
    c.assumptions = { "duplicate rules as documented: writer by layer, plane coordinate and tile index (or position where there is none), editor by plane coordinate and tile index among full-resolution tiles" };
    c.subs.push_back({ "writer", 30000, 1200000, writerCase });
    c.subs.push_back({ "editor", 20000, 800000, editorCase });
    return pbt::main(argc, argv, c);
}
