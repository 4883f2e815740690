// Histories of in-place editing, with a list model.
#pragma once
#include "czi.hpp"

namespace czi
{
    struct RwSession
    {
        std::shared_ptr<MemStream> st;
        std::shared_ptr<ICziReaderWriter> rw;
        std::map<int, Sb> sbs;
        std::map<int, At> atts;
        bool hasMeta = false; std::string xml; Bytes metaAtt;
        GUID guid{};
        std::vector<DimensionIndex> dims;

        Doc model() const
        {
            Doc d;
            for (auto& p : this->sbs) d.sbs.push_back(p.second);
            for (auto& p : this->atts) d.atts.push_back(p.second);
            d.hasMeta = this->hasMeta; d.xml = this->xml; d.metaAtt = this->metaAtt; d.guid = this->guid;
            return d;
        }
        void open()
        {
            this->rw = CreateCZIReaderWriter();
            this->rw->Create(this->st);
            this->guid = this->rw->GetFileHeaderInfo().fileGuid;
        }
        /// opens with a generated wish for the file GUID and judges the resulting one
        void open(Gen& g, const GUID* existing)
        {
            GUID wish{}; const bool has = g.chance(1, 4), force = g.chance(1, 5);
            if (has) do wish = genGuid(g); while (isNull(wish));
            auto info = std::make_shared<CCziReaderWriterInfo>(wish); info->SetForceFileGuid(force);
            this->rw = CreateCZIReaderWriter();
            if (!has && !force && g.coin()) this->rw->Create(this->st); else this->rw->Create(this->st, info);
            this->guid = this->rw->GetFileHeaderInfo().fileGuid;
            if (existing != nullptr && !force) PBT_REQUIRE("guid", guidStr(this->guid) == guidStr(*existing), "file GUID changed from ", guidStr(*existing), " to ", guidStr(this->guid), " by opening for editing");
            else if (has) PBT_REQUIRE("guid", guidStr(this->guid) == guidStr(wish), "file GUID is ", guidStr(this->guid), " instead of the requested ", guidStr(wish));
            else PBT_REQUIRE("guid", !isNull(this->guid) && (existing == nullptr || guidStr(this->guid) != guidStr(*existing)), "no new file GUID was made, it is ", guidStr(this->guid));
        }
        static bool isNull(const GUID& x) { const GUID z{}; return memcmp(&x, &z, sizeof(z)) == 0; }
        /// (re-)associates the keys of the session with the items of a model
        void bind(const Doc& d)
        {
            Doc got = readDoc(*this->rw);
            readMetaOf(*this->rw, got);
            compareContent("after opening for editing", d, got);
            compareMeta("after opening for editing", d, got);
            this->sbs.clear(); this->atts.clear();
            std::vector<int> keys;
            this->rw->EnumerateSubBlocks([&](int k, const SubBlockInfo&)->bool { keys.push_back(k); return true; });
            for (size_t i = 0; i < keys.size(); ++i) this->sbs[keys[i]] = got.sbs[i];
            keys.clear();
            this->rw->EnumerateAttachments([&](int k, const AttachmentInfo&)->bool { keys.push_back(k); return true; });
            for (size_t i = 0; i < keys.size(); ++i) this->atts[keys[i]] = got.atts[i];
            this->hasMeta = d.hasMeta; this->xml = d.xml; this->metaAtt = d.metaAtt;
        }
        void checkSession(const std::string& where)
        {
            // key by key: an edit changes only the item it names
            std::map<int, std::string> seen;
            this->rw->EnumerateSubBlocks([&](int k, const SubBlockInfo& i)->bool { seen[k] = infoStr(i); return true; });
            for (auto& p : this->sbs)
            {
                PBT_REQUIRE("session-tile", seen.count(p.first) == 1, where, ": tile with key ", p.first, " vanished from the enumeration: ", str(p.second));
                PBT_REQUIRE("session-tile", seen[p.first] == infoStr(p.second), where, ": tile with key ", p.first, " enumerated as ", seen[p.first], " instead of ", infoStr(p.second));
                auto b = this->rw->ReadSubBlock(p.first);
                PBT_REQUIRE("session-tile", b != nullptr, where, ": tile with key ", p.first, " cannot be read");
                Sb s = readSb(b);
                PBT_REQUIRE("session-tile", str(s) == str(p.second), where, ": tile with key ", p.first, " is ", str(s), " instead of ", str(p.second));
            }
            PBT_REQUIRE("session-tile", seen.size() == this->sbs.size(), where, ": ", seen.size(), " tiles enumerated instead of ", this->sbs.size());
            std::map<int, std::string> seenA;
            this->rw->EnumerateAttachments([&](int k, const AttachmentInfo& i)->bool { seenA[k] = attInfoStr(i.contentGuid, cstrN(i.contentFileType, 8), i.name); return true; });
            PBT_REQUIRE("session-attachment", seenA.size() == this->atts.size(), where, ": ", seenA.size(), " attachments enumerated instead of ", this->atts.size());
            PBT_REQUIRE("session-attachment", this->rw->GetAttachmentCount() == (int)this->atts.size(), where, ": attachment count is ", this->rw->GetAttachmentCount(), " instead of ", this->atts.size());
            for (auto& p : this->atts)
            {
                PBT_REQUIRE("session-attachment", seenA.count(p.first) == 1 && seenA[p.first] == attInfoStr(p.second.guid, p.second.type, p.second.name), where, ": attachment with key ", p.first, " is not enumerated as ", str(p.second));
                auto a = this->rw->ReadAttachment(p.first);
                PBT_REQUIRE("session-attachment", a != nullptr, where, ": attachment with key ", p.first, " cannot be read");
                size_t n = 0; auto q = a->GetRawData(&n);
                PBT_REQUIRE("session-attachment", raw(q, n) == p.second.data, where, ": attachment with key ", p.first, " has wrong content (", n, " bytes instead of ", p.second.data.size(), ")");
            }
            Doc e = this->model(), got;
            readMetaOf(*this->rw, got);
            compareMeta(where, e, got);
        }
        bool clashes(const Sb& s, int except) const
        {
            for (auto& p : this->sbs)
            {
                if (p.first == except) continue;
                if (sameKey(p.second, s)) return true;
                // the editing object compares non-pyramid tiles with a valid M only
                if (p.second.dims == s.dims && p.second.mValid && s.mValid && p.second.m == s.m) return true;
            }
            return false;
        }
        bool clashes(const At& a, int except) const
        {
            for (auto& p : this->atts) if (p.first != except && sameKey(p.second, a)) return true;
            return false;
        }
    };

    struct HistOpts { int maxOps = 14; int maxStartTiles = 6; int maxStartAtts = 4; bool checkOften = true; int maxData = 500; bool edgeCoords = false; bool rareBig = true; bool far = false; ///< the document lies behind a stretch of several GB
        std::function<std::shared_ptr<MemStream>(Gen&, const Doc&)> produce; ///< makes the starting file (instead of the writer)
    };

    /// executes a random history; on return the session is closed and `st` holds the finished file
    inline RwSession runHistory(Gen& g, const HistOpts& ho, const std::function<void(RwSession&, const char*)>& afterOp = nullptr)
    {
        RwSession s;
        s.dims = genDimSet(g);
        DocGen dg; dg.maxTiles = ho.maxStartTiles; dg.maxAtts = ho.maxStartAtts; dg.maxData = ho.maxData; dg.allowEdgeCoords = ho.edgeCoords; dg.rareBig = ho.rareBig;
        std::string log;
        if (!ho.far && !ho.produce && g.chance(1, 4))
        {
            s.st = std::make_shared<MemStream>();
            s.open(g, nullptr);
            s.bind(Doc());
            g.cls("start-from-nothing"); log += "new;";
        }
        else
        {
            Doc d = genDoc(g, dg);
            WriteOpts wo; if (!ho.produce) wo = genWriteOpts(g);
            if (ho.produce) s.st = ho.produce(g, d);
            else if (ho.far)
            {
                d.hasMeta = false; d.xml.clear(); d.metaAtt.clear(); wo.resMeta = true; wo.nMeta = (size_t)g.of<int64_t>({ 0xffffff00ll, 0x7fffff00ll, 5ll << 30, 9ll << 30, 1ll << 41 }) + (size_t)g.below(4000);
                s.st = std::make_shared<MemStream>(); s.st->makeFar(wo.nMeta); writeDoc(d, s.st, wo);
            }
            else s.st = writeDoc(d, wo);
            s.open(g, &d.guid);
            s.bind(d);
            if (!d.sbs.empty()) s.dims.clear();
            if (!d.sbs.empty()) for (auto& p : d.sbs[0].dims) s.dims.push_back(p.first);
            log += pbt::cat("written(", d.sbs.size(), "t,", d.atts.size(), "a,", d.hasMeta ? "m" : "-", wo.resSb ? "R" : "", wo.resAtt ? "A" : "", wo.resMeta ? "M" : "", ");");
        }
        const int nOps = (int)g.range(1, ho.maxOps);
        int edits = 0;
        auto resize = [&](Gen& gg, size_t old)->size_t
            {
                switch (gg.weighted({ 2, 2, 3, 2 }))
                {
                case 0: return old;
                case 1: return (size_t)gg.range(0, (int64_t)old);
                case 2: return old + (size_t)gg.range(0, 600);
                default: return (size_t)gg.size(0, 3000);
                }
            };
        for (int i = 0; i < nOps; ++i)
        {
            const char* what = "";
            switch (g.weighted({ 4, 5, 3, 3, 4, 2, 3, 2, 1 }))
            {
            case 0:
            {
                Sb t = genSb(g, dg, s.dims);
                if (s.clashes(t, -1)) { what = "add-skipped"; break; }
                withAddInfo(t, [&](auto& a) { s.rw->SyncAddSubBlock(a); });
                int key = -1, cnt = 0;
                s.rw->EnumerateSubBlocks([&](int k, const SubBlockInfo&)->bool { if (!s.sbs.count(k)) { key = k; ++cnt; } return true; });
                PBT_REQUIRE("session-tile", cnt == 1, "after adding a tile, ", cnt, " new keys appeared");
                s.sbs[key] = t; what = "addT"; ++edits;
                break;
            }
            case 1:
            {
                if (s.sbs.empty()) { what = "replT-none"; break; }
                auto it = s.sbs.begin(); std::advance(it, (long)g.below(s.sbs.size()));
                Sb t;
                if (g.chance(1, 2)) { t = it->second; t.addMode = (int)g.below(2); }
                else t = genSb(g, dg, s.dims);
                t.data = g.bytes(resize(g, it->second.data.size()));
                t.meta = g.chance(1, 3) ? g.bytes((size_t)g.size(0, 200)) : it->second.meta;
                t.att = g.chance(1, 4) ? g.bytes((size_t)g.size(0, 200)) : Bytes();
                genZeroTail(g, t);
                if (s.clashes(t, it->first)) { what = "replT-skipped"; break; }
                withAddInfo(t, [&](auto& a) { s.rw->ReplaceSubBlock(it->first, a); });
                it->second = t; what = "replT"; ++edits;
                break;
            }
            case 2:
            {
                if (s.sbs.empty()) { what = "remT-none"; break; }
                auto it = s.sbs.begin(); std::advance(it, (long)g.below(s.sbs.size()));
                s.rw->RemoveSubBlock(it->first);
                s.sbs.erase(it); what = "remT"; ++edits;
                break;
            }
            case 3:
            {
                At a = genAtt(g, ho.maxData);
                if (s.clashes(a, -1)) { what = "addA-skipped"; break; }
                s.rw->SyncAddAttachment(toAddAtt(a));
                int key = -1, cnt = 0;
                s.rw->EnumerateAttachments([&](int k, const AttachmentInfo&)->bool { if (!s.atts.count(k)) { key = k; ++cnt; } return true; });
                PBT_REQUIRE("session-attachment", cnt == 1, "after adding an attachment, ", cnt, " new keys appeared");
                s.atts[key] = a; what = "addA"; ++edits;
                break;
            }
            case 4:
            {
                if (s.atts.empty()) { what = "replA-none"; break; }
                auto it = s.atts.begin(); std::advance(it, (long)g.below(s.atts.size()));
                At a = g.coin() ? genAtt(g, ho.maxData) : it->second;
                a.data = g.bytes(resize(g, it->second.data.size()));
                if (s.clashes(a, it->first)) { what = "replA-skipped"; break; }
                s.rw->ReplaceAttachment(it->first, toAddAtt(a));
                it->second = a; what = "replA"; ++edits;
                break;
            }
            case 5:
            {
                if (s.atts.empty()) { what = "remA-none"; break; }
                auto it = s.atts.begin(); std::advance(it, (long)g.below(s.atts.size()));
                s.rw->RemoveAttachment(it->first);
                s.atts.erase(it); what = "remA"; ++edits;
                break;
            }
            case 6:
            {
                std::string xml = genXml(g);
                Bytes att; if (g.chance(1, 4)) att = g.bytes((size_t)g.size(0, 200));
                s.rw->SyncWriteMetadata(toWriteMeta(xml, att));
                s.hasMeta = true; s.xml = xml; s.metaAtt = att; what = "meta"; ++edits;
                break;
            }
            case 7:
            {
                Doc d = s.model();
                const GUID before = s.guid;
                s.rw->Close(); s.rw.reset();
                s.open(g, &before);
                s.bind(d); what = "reopen"; g.cls("reopened");
                break;
            }
            case 8:
            {
                // keys that do not exist are refused without effect
                int bad = g.of<int>({ -1, 100000, 2147483647 });
                auto refused = [&](const char* op, const std::function<void()>& f)
                    {
                        bool threw = false;
                        try { f(); }
                        catch (std::exception&) { threw = true; }
                        PBT_REQUIRE("bad-key", threw, op, " with a key that does not exist was not reported");
                    };
                Sb t; t.data = Bytes(4, 1);
                At a; a.name = "x";
                refused("RemoveSubBlock", [&] { s.rw->RemoveSubBlock(bad); });
                refused("ReplaceSubBlock", [&] { withAddInfo(t, [&](auto& x) { s.rw->ReplaceSubBlock(bad, x); }); });
                refused("RemoveAttachment", [&] { s.rw->RemoveAttachment(bad); });
                refused("ReplaceAttachment", [&] { s.rw->ReplaceAttachment(bad, toAddAtt(a)); });
                what = "badkey";
                break;
            }
            }
            log += what; log += ";";
            g.d().str(""); g.d() << log;
            if (ho.checkOften && g.coin()) s.checkSession(pbt::cat("after op ", i, " (", what, ") of history ", log));
            if (afterOp) afterOp(s, what);
        }
        if (edits >= 3) g.nontrivial();
        s.rw->Close();
        s.rw.reset();
        g.d() << "close";
        return s;
    }
}
