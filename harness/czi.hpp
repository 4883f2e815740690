// Shared model, generators and helpers; uses libCZI's public headers only.
#pragma once
#include "pbt.hpp"
#include "libCZI.h"
#include "libCZI_ReadWrite.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <mutex>
#include <tuple>

namespace czi
{
    using namespace libCZI;
    using pbt::Gen;
    using Bytes = std::vector<uint8_t>;

    // ------------------------------------------------------------- in-memory stream
    class MemStream : public IInputOutputStream
    {
    public:
        Bytes b;
        MemStream() = default;
        explicit MemStream(Bytes bytes) : b(std::move(bytes)) {}
        /// a stretch of zeros which is not kept in `b`, so that positions beyond 4 GB can occur
        uint64_t holeAt = UINT64_MAX, holeSize = 0;
        uint64_t length() const { return this->b.size() > this->holeAt ? this->b.size() + this->holeSize : this->b.size(); }
        void Read(std::uint64_t offset, void* pv, std::uint64_t size, std::uint64_t* ptrBytesRead) override
        {
            uint64_t n = 0; const uint64_t len = this->length();
            if (offset < len) n = std::min<uint64_t>(size, len - offset);
            if (this->holeSize == 0) { if (n > 0) memcpy(pv, this->b.data() + offset, (size_t)n); }
            else for (uint64_t k = 0; k < n;)
            {
                const uint64_t o = offset + k; uint64_t m;
                if (o < this->holeAt) { m = std::min(n - k, this->holeAt - o); memcpy((uint8_t*)pv + k, this->b.data() + o, (size_t)m); }
                else if (o < this->holeAt + this->holeSize) { m = std::min(n - k, this->holeAt + this->holeSize - o); memset((uint8_t*)pv + k, 0, (size_t)m); }
                else { m = n - k; memcpy((uint8_t*)pv + k, this->b.data() + (o - this->holeSize), (size_t)m); }
                k += m;
            }
            if (ptrBytesRead != nullptr) *ptrBytesRead = n;
        }
        void Write(std::uint64_t offset, const void* pv, std::uint64_t size, std::uint64_t* ptrBytesWritten) override
        {
            uint64_t o = offset;
            if (this->holeSize != 0 && offset + size > this->holeAt)
            {
                if (offset < this->holeAt + this->holeSize) throw std::runtime_error("MemStream: write into the reserved stretch");
                o = offset - this->holeSize;
            }
            if (o + size > (1ull << 31)) throw std::runtime_error("MemStream: write too far out");
            if (o + size > this->b.size()) this->b.resize((size_t)(o + size));
            if (size > 0) memcpy(this->b.data() + o, pv, (size_t)size);
            if (ptrBytesWritten != nullptr) *ptrBytesWritten = size;
        }
        /// for a document that starts with a reservation of `reserved` bytes for its metadata
        void makeFar(uint64_t reserved) { this->holeAt = 4096; this->holeSize = (reserved - 8192) / 4096 * 4096; this->b.reserve(16384); }
    };

    // ------------------------------------------------------------- model
    struct Sb
    {
        std::map<DimensionIndex, int> dims;
        bool mValid = false; int m = 0;
        int x = 0, y = 0, w = 1, h = 1; int pw = 1, ph = 1;
        PixelType pt = PixelType::Gray8;
        int32_t comp = 0;
        SubBlockPyramidType pyr = SubBlockPyramidType::None;
        Bytes data, meta, att;
        int addMode = 0; // how the data is handed to the writer
    };
    struct At { GUID guid{}; std::string type, name; Bytes data; };
    struct Doc
    {
        std::vector<Sb> sbs; std::vector<At> atts;
        bool hasMeta = false; std::string xml; Bytes metaAtt;
        GUID guid{};
    };

    inline const std::vector<DimensionIndex>& allDims()
    {
        static const std::vector<DimensionIndex> v{ DimensionIndex::Z, DimensionIndex::C, DimensionIndex::T, DimensionIndex::R, DimensionIndex::S, DimensionIndex::I, DimensionIndex::H, DimensionIndex::V, DimensionIndex::B };
        return v;
    }
    inline CDimCoordinate toCoord(const std::map<DimensionIndex, int>& d)
    {
        CDimCoordinate c;
        for (auto& p : d) c.Set(p.first, p.second);
        return c;
    }
    inline std::map<DimensionIndex, int> fromCoord(const IDimCoordinate& c)
    {
        std::map<DimensionIndex, int> m;
        for (auto d : allDims()) { int v; if (c.TryGetPosition(d, &v)) m[d] = v; }
        return m;
    }
    inline int bpp(PixelType p)
    {
        switch (p)
        {
        case PixelType::Gray8: return 1;
        case PixelType::Gray16: return 2;
        case PixelType::Gray32Float: return 4;
        case PixelType::Bgr24: return 3;
        case PixelType::Bgr48: return 6;
        case PixelType::Bgr96Float: return 12;
        case PixelType::Bgra32: return 4;
        case PixelType::Gray64ComplexFloat: return 16;
        case PixelType::Bgr192ComplexFloat: return 24;
        case PixelType::Gray32: return 4;
        case PixelType::Gray64Float: return 8;
        default: return 0;
        }
    }
    inline std::string hex(const Bytes& b, size_t maxn = 16)
    {
        static const char* H = "0123456789abcdef";
        std::string s;
        for (size_t i = 0; i < b.size() && i < maxn; ++i) { s += H[b[i] >> 4]; s += H[b[i] & 15]; }
        if (b.size() > maxn) s += "..";
        return s;
    }
    inline uint64_t hashBytes(const Bytes& b)
    {
        uint64_t h = 1469598103934665603ull;
        for (auto c : b) h = (h ^ c) * 1099511628211ull;
        return h;
    }
    inline std::string dimsStr(const std::map<DimensionIndex, int>& d)
    {
        std::string s;
        for (auto& p : d) s += pbt::cat(Utils::DimensionToChar(p.first), p.second);
        return s;
    }
    /// complete description (payload by size+hash), usable for multiset comparison
    inline std::string str(const Sb& s)
    {
        return pbt::cat("[", dimsStr(s.dims), " M", s.mValid ? pbt::cat(s.m) : std::string("-"), " (", s.x, ",", s.y, ",", s.w, "x", s.h, ")->", s.pw, "x", s.ph,
            " pt", (int)s.pt, " c", s.comp, " py", (int)s.pyr, " D", s.data.size(), ":", std::hex, hashBytes(s.data) & 0xffffff, std::dec, " M", s.meta.size(), ":", std::hex, hashBytes(s.meta) & 0xffffff, std::dec, " A", s.att.size(), ":", std::hex, hashBytes(s.att) & 0xffffff, std::dec, "]");
    }
    inline std::string infoStr(const SubBlockInfo& i)
    {
        return pbt::cat(dimsStr(fromCoord(i.coordinate)), " M", Utils::IsValidMindex(i.mIndex) ? pbt::cat(i.mIndex) : std::string("-"), " (", i.logicalRect.x, ",", i.logicalRect.y, ",", i.logicalRect.w, "x", i.logicalRect.h, ")->", i.physicalSize.w, "x", i.physicalSize.h,
            " pt", (int)i.pixelType, " c", i.compressionModeRaw, " py", (int)i.pyramidType);
    }
    inline std::string infoStr(const Sb& s)
    {
        return pbt::cat(dimsStr(s.dims), " M", s.mValid ? pbt::cat(s.m) : std::string("-"), " (", s.x, ",", s.y, ",", s.w, "x", s.h, ")->", s.pw, "x", s.ph,
            " pt", (int)s.pt, " c", s.comp, " py", (int)s.pyr);
    }
    inline std::string guidStr(const GUID& g)
    {
        char b[64];
        snprintf(b, sizeof b, "%08x-%04x-%04x-%02x%02x%02x%02x%02x%02x%02x%02x", g.Data1, g.Data2, g.Data3, g.Data4[0], g.Data4[1], g.Data4[2], g.Data4[3], g.Data4[4], g.Data4[5], g.Data4[6], g.Data4[7]);
        return b;
    }
    inline std::string str(const At& a)
    {
        return pbt::cat("{", guidStr(a.guid), " type='", a.type, "' name='", a.name, "' D", a.data.size(), ":", std::hex, hashBytes(a.data), "}");
    }
    inline std::string attInfoStr(const GUID& g, const std::string& type, const std::string& name) { return guidStr(g) + "|" + type + "|" + name; }

    inline double zoomOf(const Sb& s)
    {
        // the longer stored edge decides, as for SubBlockInfo::GetZoom
        if (s.pw > s.ph) return (double)s.pw / s.w;
        return (double)s.ph / s.h;
    }

    // ------------------------------------------------------------- writing
    inline void fillBase(AddSubBlockInfoBase& a, const Sb& s)
    {
        a.Clear();
        a.coordinate = toCoord(s.dims);
        a.mIndexValid = s.mValid; a.mIndex = s.m;
        a.x = s.x; a.y = s.y; a.logicalWidth = s.w; a.logicalHeight = s.h; a.physicalWidth = s.pw; a.physicalHeight = s.ph;
        a.PixelType = s.pt; a.pyramid_type = s.pyr; a.compressionModeRaw = s.comp;
    }
    /// can the data be handed over as a bitmap (strided, linewise)?
    inline bool isBitmapShaped(const Sb& s) { return bpp(s.pt) > 0 && s.data.size() == (size_t)bpp(s.pt) * (size_t)s.pw * (size_t)s.ph; }

    /// F: functor called with one of the AddSubBlockInfo* structures
    template <class F> void withAddInfo(const Sb& s, F f)
    {
        int mode = s.addMode;
        if ((mode == 2 || mode == 3) && !isBitmapShaped(s)) mode = 0;
        if (mode == 0)
        {
            AddSubBlockInfoMemPtr a; fillBase(a, s);
            a.ptrData = s.data.data(); a.dataSize = (uint32_t)s.data.size();
            a.ptrSbBlkMetadata = s.meta.data(); a.sbBlkMetadataSize = (uint32_t)s.meta.size();
            a.ptrSbBlkAttachment = s.att.data(); a.sbBlkAttachmentSize = (uint32_t)s.att.size();
            f(a);
        }
        else if (mode == 1)
        {
            AddSubBlockInfo a; fillBase(a, s);
            // the pieces lie in one buffer which is reused by the next call; the last one may be longer than what is missing, and
            // zeroes at the end are not delivered at all (the documentation says that the writer has to fill up)
            auto chunked = [](const Bytes& b, size_t piece)
                {
                    size_t end = b.size(); while (end > 0 && b[end - 1] == 0) --end;
                    auto scratch = std::make_shared<Bytes>(); auto next = std::make_shared<std::pair<int, size_t>>(0, 0);
                    return [&b, piece, end, scratch, next](int call, size_t offset, const void*& ptr, size_t& size)->bool
                        {
                            if (call == 0) *next = { 0, 0 };
                            if (call != next->first || offset != next->second) pbt::fail("pieces", pbt::cat("the data functor was called with number ", call, " and offset ", offset, " instead of ", next->first, " and ", next->second));
                            if (offset >= end) return false;
                            size = std::min(piece, b.size() - offset);
                            scratch->assign(b.begin() + (long)offset, b.begin() + (long)(offset + size));
                            *next = { call + 1, offset + size };
                            if (offset + size == b.size() && b.size() % 3 == 0) { scratch->insert(scratch->end(), 5, 0xCD); size += 5; }
                            ptr = scratch->data();
                            return true;
                        };
                };
            a.sizeData = s.data.size(); a.getData = chunked(s.data, 7 + s.data.size() / 3);
            a.sizeMetadata = s.meta.size(); a.getMetaData = chunked(s.meta, 5 + s.meta.size() / 2);
            a.sizeAttachment = s.att.size(); a.getAttachment = chunked(s.att, 1 + s.att.size());
            f(a);
        }
        else if (mode == 2)
        {
            const size_t line = (size_t)bpp(s.pt) * (size_t)s.pw;
            const size_t stride = line + 3 + (size_t)(s.w % 5);
            Bytes padded(stride * (size_t)s.ph, 0xEE);
            for (int y = 0; y < s.ph; ++y) if (line > 0) memcpy(padded.data() + stride * (size_t)y, s.data.data() + line * (size_t)y, line);
            AddSubBlockInfoStridedBitmap a; fillBase(a, s);
            a.ptrBitmap = padded.data(); a.strideBitmap = (uint32_t)stride;
            a.ptrSbBlkMetadata = s.meta.data(); a.sbBlkMetadataSize = (uint32_t)s.meta.size();
            a.ptrSbBlkAttachment = s.att.data(); a.sbBlkAttachmentSize = (uint32_t)s.att.size();
            f(a);
        }
        else
        {
            const size_t line = (size_t)bpp(s.pt) * (size_t)s.pw;
            AddSubBlockInfoLinewiseBitmap a; fillBase(a, s);
            a.getBitmapLine = [&](int l)->const void* { return s.data.data() + line * (size_t)l; };
            a.ptrSbBlkMetadata = s.meta.data(); a.sbBlkMetadataSize = (uint32_t)s.meta.size();
            a.ptrSbBlkAttachment = s.att.data(); a.sbBlkAttachmentSize = (uint32_t)s.att.size();
            f(a);
        }
    }
    inline AddAttachmentInfo toAddAtt(const At& a)
    {
        AddAttachmentInfo i; i.Clear();
        i.contentGuid = a.guid;
        memcpy(i.contentFileType, a.type.data(), std::min<size_t>(8, a.type.size()));
        memcpy(i.name, a.name.data(), std::min<size_t>(80, a.name.size()));
        i.ptrData = a.data.data(); i.dataSize = (uint32_t)a.data.size();
        return i;
    }
    inline WriteMetadataInfo toWriteMeta(const std::string& xml, const Bytes& att)
    {
        WriteMetadataInfo i; i.Clear();
        i.szMetadata = xml.data(); i.szMetadataSize = xml.size(); i.ptrAttachment = att.data(); i.attachmentSize = att.size();
        return i;
    }
    struct WriteOpts
    {
        bool resSb = false, resAtt = false, resMeta = false; size_t nSb = 0, nAtt = 0, nMeta = 0;
        bool allowDup = false;
    };
    inline std::shared_ptr<CCziWriterInfo> writerInfo(const GUID& g, const WriteOpts& o)
    {
        auto wi = std::make_shared<CCziWriterInfo>(g);
        if (o.resSb) wi->SetReservedSizeForSubBlockDirectory(true, o.nSb);
        if (o.resAtt) wi->SetReservedSizeForAttachmentsDirectory(true, o.nAtt);
        if (o.resMeta) wi->SetReservedSizeForMetadataSegment(true, o.nMeta);
        return wi;
    }
    inline void writeDoc(const Doc& d, const std::shared_ptr<IOutputStream>& st, const WriteOpts& o = WriteOpts())
    {
        CZIWriterOptions wo; wo.allow_duplicate_subblocks = o.allowDup;
        auto w = CreateCZIWriter(&wo);
        w->Create(st, writerInfo(d.guid, o));
        for (auto& s : d.sbs) withAddInfo(s, [&](auto& a) { w->SyncAddSubBlock(a); });
        for (auto& a : d.atts) w->SyncAddAttachment(toAddAtt(a));
        if (d.hasMeta) w->SyncWriteMetadata(toWriteMeta(d.xml, d.metaAtt));
        w->Close();
    }
    inline std::shared_ptr<MemStream> writeDoc(const Doc& d, const WriteOpts& o = WriteOpts())
    {
        auto m = std::make_shared<MemStream>();
        writeDoc(d, m, o);
        return m;
    }

    // ------------------------------------------------------------- reading back
    inline Bytes raw(const std::shared_ptr<const void>& p, size_t n)
    {
        Bytes b(n);
        if (n > 0) memcpy(b.data(), p.get(), n);
        return b;
    }
    inline Sb fromInfo(const SubBlockInfo& i)
    {
        Sb s;
        s.dims = fromCoord(i.coordinate);
        s.mValid = Utils::IsValidMindex(i.mIndex); s.m = s.mValid ? i.mIndex : 0;
        s.x = i.logicalRect.x; s.y = i.logicalRect.y; s.w = i.logicalRect.w; s.h = i.logicalRect.h;
        s.pw = (int)i.physicalSize.w; s.ph = (int)i.physicalSize.h;
        s.pt = i.pixelType; s.comp = i.compressionModeRaw; s.pyr = i.pyramidType;
        return s;
    }
    inline Sb readSb(const std::shared_ptr<ISubBlock>& b)
    {
        Sb s = fromInfo(b->GetSubBlockInfo());
        size_t n = 0;
        auto p = b->GetRawData(ISubBlock::Data, &n); s.data = raw(p, n);
        n = 0; p = b->GetRawData(ISubBlock::Metadata, &n); s.meta = raw(p, n);
        n = 0; p = b->GetRawData(ISubBlock::Attachment, &n); s.att = raw(p, n);
        return s;
    }
    inline std::string cstrN(const char* p, size_t maxn) { size_t n = 0; while (n < maxn && p[n]) ++n; return std::string(p, n); }

    /// Reads everything from a repository (reader or reader-writer), cross-checking enumeration and access by index.
    template <class R> Doc readDoc(R& r)
    {
        Doc d;
        std::vector<std::pair<int, std::string>> infos;
        r.EnumerateSubBlocks([&](int index, const SubBlockInfo& i)->bool { infos.emplace_back(index, infoStr(i)); return true; });
        for (auto& p : infos)
        {
            auto sb = r.ReadSubBlock(p.first);
            PBT_REQUIRE("read-null", sb != nullptr, "ReadSubBlock(", p.first, ") returned null for an enumerated index");
            Sb s = readSb(sb);
            PBT_REQUIRE("enum-vs-read", infoStr(s) == p.second, "sub-block ", p.first, " enumerated as ", p.second, " but read as ", infoStr(s));
            SubBlockInfo si;
            PBT_REQUIRE("enum-vs-info", r.TryGetSubBlockInfo(p.first, &si) && infoStr(si) == p.second, "TryGetSubBlockInfo(", p.first, ") disagrees with the enumeration");
            d.sbs.push_back(std::move(s));
        }
        std::vector<std::pair<int, std::string>> ai;
        r.EnumerateAttachments([&](int index, const AttachmentInfo& i)->bool { ai.emplace_back(index, attInfoStr(i.contentGuid, cstrN(i.contentFileType, 8), i.name)); return true; });
        PBT_REQUIRE("att-count", (int)ai.size() == r.GetAttachmentCount(), "GetAttachmentCount=", r.GetAttachmentCount(), " but enumerated ", ai.size());
        for (auto& p : ai)
        {
            auto at = r.ReadAttachment(p.first);
            PBT_REQUIRE("read-null", at != nullptr, "ReadAttachment(", p.first, ") returned null for an enumerated index");
            At a;
            const auto& i = at->GetAttachmentInfo();
            a.guid = i.contentGuid; a.type = cstrN(i.contentFileType, 8); a.name = i.name;
            size_t n = 0; auto q = at->GetRawData(&n); a.data = raw(q, n);
            PBT_REQUIRE("enum-vs-read", attInfoStr(a.guid, a.type, a.name) == p.second, "attachment ", p.first, " enumerated as ", p.second, " but read as ", str(a));
            d.atts.push_back(std::move(a));
        }
        return d;
    }
    inline void readMeta(const std::shared_ptr<IMetadataSegment>& ms, Doc& d)
    {
        d.hasMeta = ms != nullptr;
        if (!ms) return;
        size_t n = 0;
        auto p = ms->GetRawData(IMetadataSegment::XmlMetadata, &n);
        Bytes b = raw(p, n); d.xml.assign(b.begin(), b.end());
        n = 0; p = ms->GetRawData(IMetadataSegment::Attachment, &n); d.metaAtt = raw(p, n);
    }
    /// metadata of a reader or reader-writer; absence is reported by LibCZISegmentNotPresent (or null)
    template <class R> void readMetaOf(R& r, Doc& d)
    {
        std::shared_ptr<IMetadataSegment> ms;
        try { ms = r.ReadMetadataSegment(); }
        catch (LibCZISegmentNotPresent&) { ms = nullptr; }
        readMeta(ms, d);
    }
    inline std::shared_ptr<ICZIReader> openReader(const std::shared_ptr<IStream>& s, const ICZIReader::OpenOptions* o = nullptr)
    {
        auto r = CreateCZIReader();
        r->Open(s, o);
        return r;
    }

    inline void compareContent(const std::string& where, const Doc& expected, const Doc& got)
    {
        auto cmp = [&](const char* what, std::vector<std::string> a, std::vector<std::string> b)
            {
                std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
                if (a == b) return;
                std::vector<std::string> miss, extra;
                std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(miss));
                std::set_difference(b.begin(), b.end(), a.begin(), a.end(), std::back_inserter(extra));
                std::string m;
                for (auto& s : miss) m += "\n  missing " + s;
                for (auto& s : extra) m += "\n  unexpected " + s;
                pbt::fail(std::string("content-") + what, pbt::cat(where, ": ", what, " differ (expected ", a.size(), ", got ", b.size(), ")", m.substr(0, 1500)));
            };
        std::vector<std::string> a, b;
        for (auto& s : expected.sbs) a.push_back(str(s));
        for (auto& s : got.sbs) b.push_back(str(s));
        cmp("tiles", a, b);
        a.clear(); b.clear();
        for (auto& s : expected.atts) a.push_back(str(s));
        for (auto& s : got.atts) b.push_back(str(s));
        cmp("attachments", a, b);
    }
    inline void compareMeta(const std::string& where, const Doc& e, const Doc& g)
    {
        PBT_REQUIRE("content-metadata", e.hasMeta == g.hasMeta, where, ": document metadata present=", g.hasMeta, ", expected ", e.hasMeta);
        PBT_REQUIRE("content-metadata", !e.hasMeta || e.xml == g.xml, where, ": XML differs (expected ", e.xml.size(), " bytes, got ", g.xml.size(), ")");
        PBT_REQUIRE("content-metadata", !e.hasMeta || e.metaAtt == g.metaAtt, where, ": metadata attachment differs (expected ", e.metaAtt.size(), " bytes, got ", g.metaAtt.size(), ")");
    }

    // ------------------------------------------------------------- generators
    inline GUID genGuid(Gen& g)
    {
        GUID u; uint64_t a = g.seed64();
        if (a == 0) a = 1;
        pbt::Rng r(a); uint64_t x = r.next(), y = r.next();
        memcpy(&u, &x, 8); memcpy(u.Data4, &y, 8);
        return u;
    }
    struct DocGen
    {
        int maxTiles = 12; int maxAtts = 5; int maxData = 700; bool bitmapShaped = false;
        bool meta = true; int maxDimValue = 3; bool allowEdgeCoords = true; bool rareBig = false; ///< now and then hundreds of items, or payloads beyond 64 kB
    };
    /// set of dimensions used by a document
    inline std::vector<DimensionIndex> genDimSet(Gen& g)
    {
        std::vector<DimensionIndex> v;
        switch (g.weighted({ 2, 3, 3, 1, 1 }))
        {
        case 0: break;
        case 1: v = { DimensionIndex::C }; break;
        case 2: for (auto d : allDims()) if (g.chance(2, 5)) v.push_back(d); break;
        case 3: v = allDims(); break;
        case 4: v = { DimensionIndex::C, DimensionIndex::S }; break;
        }
        return v;
    }
    inline int genCoord(Gen& g, bool edge)
    {
        switch (g.weighted({ 8, 2, edge ? 1u : 0u }))
        {
        case 0: return (int)g.range0(-60, 200);
        case 1: return (int)g.range0(-100000, 100000);
        default: return g.of<int>({ 1000000000, -1000000000, 1 << 29, -(1 << 29) });
        }
    }
    /// data which is handed over in pieces sometimes ends with zeroes (which withAddInfo does not deliver)
    inline void genZeroTail(Gen& g, Sb& s)
    {
        if (s.addMode != 1 || !g.chance(1, 3)) return;
        for (Bytes* b : { &s.data, &s.meta, &s.att }) if (!b->empty() && g.chance(1, 2)) std::fill(b->begin() + (long)g.below(b->size()), b->end(), (uint8_t)0);
    }
    inline Sb genSb(Gen& g, const DocGen& o, const std::vector<DimensionIndex>& dims)
    {
        Sb s;
        for (auto d : dims) s.dims[d] = g.chance(1, 12) ? (int)g.range0(-5, 1000) : (int)g.range0(0, o.maxDimValue);
        s.mValid = g.chance(2, 3);
        if (s.mValid) s.m = g.chance(1, 10) ? (int)g.range0(-3, 100000) : (int)g.range(0, 8);
        s.x = genCoord(g, o.allowEdgeCoords); s.y = genCoord(g, o.allowEdgeCoords);
        s.pw = (int)g.size(1, 24); s.ph = (int)g.size(1, 24);
        const int f = g.of<int>({ 1, 1, 1, 2, 4, 3, 8 });
        s.w = s.pw * f; s.h = s.ph * f;
        s.pt = g.of<PixelType>({ PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48, PixelType::Gray32Float, PixelType::Bgra32, PixelType::Bgr96Float, PixelType::Gray64ComplexFloat, PixelType::Bgr192ComplexFloat, PixelType::Gray32, PixelType::Gray64Float });
        s.comp = g.of<int32_t>({ 0, 0, 6, 5, 4, 1, 100, 999, 1000 });
        s.pyr = f == 1 ? SubBlockPyramidType::None : g.of<SubBlockPyramidType>({ SubBlockPyramidType::None, SubBlockPyramidType::SingleSubBlock, SubBlockPyramidType::MultiSubBlock });
        if (o.bitmapShaped || g.chance(1, 3)) s.data = g.bytes((size_t)bpp(s.pt) * (size_t)s.pw * (size_t)s.ph);
        else s.data = g.bytes((size_t)g.size(0, o.maxData));
        if (g.chance(1, 3)) s.meta = g.bytes((size_t)g.size(0, 300));
        if (g.chance(1, 4)) s.att = g.bytes((size_t)g.size(0, 300));
        if (o.rareBig && g.chance(1, 60)) switch (g.below(4)) { case 0: s.meta = g.bytes((size_t)g.range(300, 140000)); break; case 1: s.att = g.bytes((size_t)g.range(300, 140000)); break; case 2: s.data = g.bytes((size_t)g.range(300, 140000)); break; default: s.pw = (int)g.range(24, 700); s.ph = (int)g.range(1, 40); s.w = s.pw * f; s.h = s.ph * f; s.data = g.bytes((size_t)bpp(s.pt) * (size_t)s.pw * (size_t)s.ph); break; }
        s.addMode = (int)g.below(4);
        genZeroTail(g, s);
        return s;
    }
    inline std::string genName(Gen& g, size_t maxLen)
    {
        static const char* names[] = { "", "Thumbnail", "Label", "a", "EventList", "TimeStamps", "SlidePreview", "caf\xC3\xA9" };
        if (g.chance(3, 4)) { std::string s = names[g.below(8)]; return s.substr(0, maxLen); }
        size_t n = g.chance(1, 3) ? maxLen : (size_t)g.range(0, (int64_t)maxLen);
        std::string s;
        uint64_t seed = g.seed64(); pbt::Rng r(seed);
        for (size_t i = 0; i < n; ++i) s += (char)('A' + (int)(r.next() % 50));
        return s;
    }
    inline At genAtt(Gen& g, int maxData)
    {
        At a;
        a.guid = g.chance(1, 4) ? GUID{ 1,2,3,{4,5,6,7,8,9,10,11} } : genGuid(g);
        static const char* types[] = { "JPG", "CZI", "CZTIMS", "CZEVL", "", "Zip-Comp", "A" };
        a.type = g.chance(5, 6) ? std::string(types[g.below(7)]) : genName(g, 8);
        a.name = genName(g, 80);
        a.data = g.bytes((size_t)g.size(0, maxData));
        return a;
    }
    inline std::string genXml(Gen& g)
    {
        std::string s = "<ImageDocument><Metadata><Information><Image><PixelType>Gray8</PixelType></Image></Information><X>";
        size_t n = g.chance(1, 4) ? (size_t)g.size(0, 30000) : (size_t)g.size(0, 400);
        if (n > 25000 && g.chance(1, 2)) n *= 9;
        uint64_t seed = g.seed64(); pbt::Rng r(seed);
        for (size_t i = 0; i < n; ++i) s += (char)('a' + (int)(r.next() % 26));
        return s + "</X></Metadata></ImageDocument>";
    }

    // duplicate rule of the format: same layer, same plane, same M (or, both without M, same position)
    inline bool sameKey(const Sb& a, const Sb& b)
    {
        if (std::fabs(zoomOf(a) - zoomOf(b)) > 0.0001) return false;
        if (a.dims != b.dims) return false;
        if (a.mValid != b.mValid) return false;
        if (a.mValid) return a.m == b.m;
        return a.x == b.x && a.y == b.y;
    }
    inline bool sameKey(const At& a, const At& b)
    {
        return memcmp(&a.guid, &b.guid, 16) == 0 && a.name == b.name && a.type == b.type;
    }
    inline Doc genDoc(Gen& g, const DocGen& o)
    {
        Doc d;
        d.guid = genGuid(g);
        auto dims = genDimSet(g);
        const bool uniform = g.chance(2, 3);
        const bool many = o.rareBig && g.chance(1, 250);
        int n = many ? (int)g.range(o.maxTiles, 700) : (int)g.size(0, o.maxTiles);
        for (int i = 0; i < n; ++i)
        {
            auto ds = dims;
            if (!uniform) { ds.clear(); for (auto x : dims) if (g.chance(3, 4)) ds.push_back(x); }
            Sb s = genSb(g, o, ds);
            bool dup = false;
            for (auto& e : d.sbs) dup = dup || sameKey(e, s);
            if (!dup) d.sbs.push_back(std::move(s));
        }
        n = many ? (int)g.range(0, 300) : (int)g.size(0, o.maxAtts);
        for (int i = 0; i < n; ++i)
        {
            At a = genAtt(g, o.maxData);
            bool dup = false;
            for (auto& e : d.atts) dup = dup || sameKey(e, a);
            if (!dup) d.atts.push_back(std::move(a));
        }
        if (o.meta && g.chance(2, 3)) { d.hasMeta = true; d.xml = genXml(g); if (g.chance(1, 5)) d.metaAtt = g.bytes((size_t)g.size(0, 200)); }
        return d;
    }
    inline WriteOpts genWriteOpts(Gen& g)
    {
        WriteOpts o;
        if (g.chance(1, 3)) { o.resSb = true; o.nSb = (size_t)g.of<int>({ 0, 1, 2, 3, 5, 12, 40 }); }
        if (g.chance(1, 3)) { o.resAtt = true; o.nAtt = (size_t)g.of<int>({ 0, 1, 2, 3, 5, 20 }); }
        if (g.chance(1, 3)) { o.resMeta = true; o.nMeta = (size_t)g.of<int>({ 0, 1, 50, 150, 500, 5000 }); }
        return o;
    }
    inline void describe(Gen& g, const Doc& d)
    {
        g.d() << d.sbs.size() << " tiles, " << d.atts.size() << " attachments, meta=" << d.hasMeta << (d.hasMeta ? pbt::cat("(", d.xml.size(), "+", d.metaAtt.size(), ")") : std::string());
        size_t n = 0;
        for (auto& s : d.sbs) { if (++n > (g.tracing() ? 1000u : 4u)) break; g.d() << "\n  " << str(s) << " mode" << s.addMode; }
        n = 0;
        for (auto& s : d.atts) { if (++n > (g.tracing() ? 1000u : 2u)) break; g.d() << "\n  " << str(s); }
    }
}
