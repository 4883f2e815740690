// P19: whatever bytes are opened as a document, the process is not harmed: results or reported errors, no memory errors, no endless loops (run under the address sanitizer)
#include "compose.hpp"
#include "meta.hpp"
#include "rawczi.hpp"
#include "libCZIApi.h"
#include <new>
#include <climits>
using namespace std; using namespace czi; using namespace cmp; using pbt::Gen; using pbt::cat;

// requests for more memory than a reader may reasonably ask for fail, as they do on a machine that does not have it
extern "C" const char* __asan_default_options() { return "max_allocation_size_mb=192"; }
void* operator new(size_t n) { if (void* p = malloc(n ? n : 1)) return p; throw bad_alloc(); }
void* operator new[](size_t n) { if (void* p = malloc(n ? n : 1)) return p; throw bad_alloc(); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

struct Tally { int64_t ok = 0, err = 0; };
static Tally tally;
/// runs one use: it may report an error, but only as a standard exception
template <class F> static bool use(const char* what, F f)
{
    try { f(); ++tally.ok; return true; }
    catch (const pbt::Fail&) { throw; } catch (const pbt::Discard&) { throw; }
    catch (const exception& e) { if (!e.what()) pbt::fail("message", cat(what, ": an error without a text")); ++tally.err; return false; }
    catch (...) { pbt::fail("exception", cat(what, " throws something that is not a standard exception")); } return false;
}
static volatile uint8_t sink;
static void touch(const char* what, const void* p, size_t n)
{
    if (n == 0) return; PBT_REQUIRE("promised-memory", p != nullptr, what, ": ", n, " bytes are promised, but there is no memory"); PBT_REQUIRE("promised-memory", n < (1ull << 40), what, ": a size of ", n, " bytes is promised");
    const uint8_t* b = (const uint8_t*)p; uint8_t s = 0; const size_t step = n > (1u << 20) ? n / (1u << 16) : 1; for (size_t i = 0; i < n; i += step) s ^= b[i]; s ^= b[n - 1]; sink = s;
}
static void touch(const char* what, const shared_ptr<IBitmapData>& b)
{
    PBT_REQUIRE("no-bitmap", (bool)b, what, ": no bitmap and no error"); const uint32_t w = b->GetWidth(), h = b->GetHeight(); const auto pt = b->GetPixelType(); size_t line = 0; bool known = true; try { line = (size_t)w * Utils::GetBytesPerPixel(pt); } catch (exception&) { known = false; }
    ScopedBitmapLockerSP l{ b }; if (!known || !w || !h) return; PBT_REQUIRE("promised-memory", l.ptrDataRoi != nullptr, what, ": bitmap of ", w, "x", h, " without memory"); PBT_REQUIRE("promised-stride", l.stride >= line, what, ": bitmap of ", w, "x", h, " with a stride of ", l.stride);
    const uint32_t step = h > 64 ? h / 64 : 1; for (uint32_t y = 0; y < h; y += step) touch(what, (const uint8_t*)l.ptrDataRoi + (size_t)y * l.stride, line); touch(what, (const uint8_t*)l.ptrDataRoi + (size_t)(h - 1) * l.stride, line);
}
static bool tooBig(const shared_ptr<IBitmapData>& b) { return !b || max(b->GetWidth(), b->GetHeight()) > (1u << 20) || (uint64_t)b->GetWidth() * b->GetHeight() > (1u << 20); }

// ------------------------------------------------------------------ uses
struct Draw { vector<IntRect> rois; vector<CDimCoordinate> planes; vector<uint64_t> r; size_t n = 0; uint64_t next() { return r[n++ % r.size()]; } uint64_t below(uint64_t k) { return next() % k; } bool coin() { return next() & 64; } const IntRect& roi() { return rois[below(rois.size())]; } const CDimCoordinate& plane() { return planes[below(planes.size())]; } };
static void useTree(IXmlNodeRead* n, int depth, int& left)
{
    if (!n || depth > 40 || --left < 0) return; n->Name(); wstring v; n->TryGetValue(&v); n->TryGetAttribute(L"Id", &v); n->EnumAttributes([&](const wstring&, const wstring&) { return true; }); n->EnumChildren([&](shared_ptr<IXmlNodeRead> c) { useTree(c.get(), depth + 1, left); return left > 0; });
}
static void useMask(const char* what, const shared_ptr<ISubBlockAttachmentAccessor>& a)
{
    use(what, [&] { a->HasChunkContainer(); });
    use(what, [&] { a->EnumerateChunksInChunkContainer([&](int, const ISubBlockAttachmentAccessor::ChunkInfo&) { return true; }); });
    use(what, [&] { const auto i = a->GetValidPixelMaskFromChunkContainer(); touch(what, i.data.get(), i.size_data); });
    use(what, [&] { const auto i = a->GetValidPixelMaskAsUncompressedBitonalBitmap(); touch(what, i.data.get(), i.size_data); });
    use(what, [&] { auto b = a->CreateBitonalBitmapFromMaskInfo(); PBT_REQUIRE("no-bitmap", (bool)b, what, ": no mask and no error"); const uint32_t w = b->GetWidth(), h = b->GetHeight(); if (!w || !h) return; ScopedBitonalBitmapLockerP l{ b.get() }; touch(what, l.ptrData, (size_t)(h - 1) * l.stride + (w + 7) / 8); for (uint32_t y = 0; y < h; y += h / 16 + 1) for (uint32_t x = 0; x < w; x += w / 16 + 1) sink = BitonalBitmapOperations::GetPixelValue(b, x, y); BitonalBitmapOperations::GetPixelValue(b, w - 1, h - 1); });
}
static void useTile(const shared_ptr<ISubBlock>& s, Draw& d, int depth)
{
    if (!s) return; use("GetSubBlockInfo", [&] { infoStr(s->GetSubBlockInfo()); size_t n = 0; for (auto k : { ISubBlock::Data, ISubBlock::Metadata, ISubBlock::Attachment }) { auto p = s->GetRawData(k, &n); touch("GetRawData", p.get(), n); const void* q = nullptr; size_t m = 0; s->DangerousGetRawData(k, q, m); touch("DangerousGetRawData", q, m); } });
    if (depth < 1) return; shared_ptr<IBitmapData> bm; use("CreateBitmap", [&] { bm = s->CreateBitmap(); touch("CreateBitmap", bm); });
    use("CreateBitmap with options", [&] { CreateBitmapOptions o; o.handle_jpgxr_bitmap_mismatch = d.coin(); o.handle_uncompressed_data_size_mismatch = d.coin(); o.handle_zstd_data_size_mismatch = d.coin(); touch("CreateBitmap with options", s->CreateBitmap(&o)); });
    shared_ptr<ISubBlockMetadata> m; use("CreateSubBlockMetadataFromSubBlock", [&] { m = CreateSubBlockMetadataFromSubBlock(s.get()); if (!m) return; wstring t; double v; tuple<double, double> p; m->IsXmlValid(); use("GetXml", [&] { m->GetXml(); }); use("tag", [&] { m->TryGetTagAsDouble(L"StageXPosition", &v); m->TryGetTagAsString(L"StageXPosition", &t); m->TryGetStagePositionFromTags(&p); m->TryGetAttachmentDataFormat(&t); int left = 300; m->EnumChildren([&](shared_ptr<IXmlNodeRead> c) { useTree(c.get(), 0, left); return left > 0; }); m->GetChildNodeReadonly("METADATA/Tags"); }); });
    use("CreateSubBlockAttachmentAccessor", [&] { auto a = CreateSubBlockAttachmentAccessor(s, d.coin() ? m : nullptr); useMask("tile attachment", a); });
    if (bm && !tooBig(bm)) use("image operations", [&] { uint8_t h[16]; Utils::CalcMd5SumHash(bm.get(), h, 16); touch("NearestNeighborResize", Utils::NearestNeighborResize(bm.get(), 7, 5)); });
}
static void useDocInfo(const shared_ptr<ICziMetadata>& x, Draw& d)
{
    use("IsXmlValid", [&] { x->IsXmlValid(); }); use("GetXml", [&] { x->GetXml(); }); use("tree", [&] { int left = 2000; x->EnumChildren([&](shared_ptr<IXmlNodeRead> c) { useTree(c.get(), 0, left); return left > 0; }); x->GetChildNodeReadonly("ImageDocument/Metadata/Information/Image"); x->GetChildNodeReadonly("ImageDocument/Metadata/DisplaySetting/Channels/Channel[Id=Channel:0]"); });
    shared_ptr<ICziMultiDimensionDocumentInfo> i; if (!use("GetDocumentInfo", [&] { i = x->GetDocumentInfo(); }) || !i) return;
    use("GetGeneralDocumentInfo", [&] { i->GetGeneralDocumentInfo(); }); use("GetScalingInfo", [&] { i->GetScalingInfo(); }); use("GetScalingInfoEx", [&] { i->GetScalingInfoEx(); });
    vector<DimensionIndex> dims; use("EnumDimensions", [&] { i->EnumDimensions([&](DimensionIndex k) { dims.push_back(k); return dims.size() < 100; }); }); PBT_REQUIRE("dimensions", dims.size() < 100, "endless dimensions"); for (auto k : allDims()) dims.push_back(k);
    for (auto k : dims) use("GetDimensionInfo", [&] { auto f = i->GetDimensionInfo(k); if (!f) return; int a, b; bool p, q; f->GetDimension(); f->GetInterval(&a, &b); f->GetIntervalIsExplicitlyStated(&p, &q); });
    use("GetDimensionZInfo", [&] { auto z = i->GetDimensionZInfo(); if (!z) return; double a, b; vector<double> v; IDimensionZInfo::XyzHandedness h; IDimensionZInfo::ZaxisDirection e; IDimensionZInfo::ZDriveMode m; z->TryGetReferencePosition(&a); z->TryGetIntervalDefinition(&a, &b); z->TryGetPositionList(&v); z->TryGetXyzHandedness(&h); z->TryGetZAxisDirection(&e); z->TryGetZDriveMode(&m); z->TryZDriveSpeed(&a); });
    use("GetDimensionTInfo", [&] { auto t = i->GetDimensionTInfo(); if (!t) return; XmlDateTime x; double a, b; vector<double> v; t->TryGetStartTime(&x); t->TryGetIntervalDefinition(&a, &b); t->TryGetOffsetsList(&v); });
    use("GetDimensionChannelsInfo", [&] { auto c = i->GetDimensionChannelsInfo(); if (!c) return; const int n = c->GetChannelCount(); for (int k = 0; k < n && k < 50; ++k) use("GetChannel", [&] { auto h = c->GetChannel(k); if (!h) return; wstring s; double v; int b; PixelType p; SpectrumCharacteristics w; Rgb8Color col; RangeOrSingleValue<uint64_t> e; DimensionChannelChannelType ct; h->TryGetAttributeId(&s); h->TryGetAttributeName(&s); h->TryGetChannelType(&ct); h->TryGetPixelType(&p); h->TryGetComponentBitCount(&b); h->TryGetIlluminationWavelength(&w); h->TryGetDetectionWavelength(&w); h->TryGetExcitationWavelength(&v); h->TryGetColor(&col); h->TryGetExposureTime(&e); h->TryGetNDFilter(&v); h->TryGetPocketCellSetting(&b); if (auto ls = h->GetLaserScanInfo()) { uint32_t u; ls->TryGetPixelTime(&v); ls->TryGetLineStep(&u); ls->TryGetScanSpeed(&b); } if (auto r = h->GetRatio()) { vector<wstring> q; r->TryGetConst1(&v); r->TryGetSource1(&q); r->TryGetSource2(&q); } h->GetDetectorSettings(); h->GetLightSourcesSettings(); h->GetLightPath(); h->GetSPIMIlluminationSettings(); h->GetSPIMDetectionSettings(); h->GetSIMSettings(); h->GetPolarizingSettings(); h->GetAiryscanSettings(); }); });
    shared_ptr<IDisplaySettings> ds; use("GetDisplaySettings", [&] { ds = i->GetDisplaySettings(); }); if (!ds) return;
    vector<int> ch{ -1, 0, 1, 1000000 }; use("EnumChannels", [&] { ds->EnumChannels([&](int c) { ch.push_back(c); return ch.size() < 100; }); });
    for (int c : ch) use("GetChannelDisplaySettings", [&] { auto s = ds->GetChannelDisplaySettings(c); if (!s) return; float a, b; Rgb8Color col; vector<IDisplaySettings::SplineControlPoint> cp; vector<IDisplaySettings::SplineData> sd; s->GetIsEnabled(); s->GetWeight(); s->TryGetTintingColorRgb8(&col); s->GetBlackWhitePoint(&a, &b); s->GetGradationCurveMode(); s->TryGetGamma(&a); s->TryGetSplineControlPoints(&cp); s->TryGetSplineData(&sd); });
    for (auto pt : { PixelType::Gray8, PixelType::Gray16 }) use("composition by display settings", [&] { CDisplaySettingsHelper h; h.Initialize(ds.get(), [&](int) { return pt; }); h.GetActiveChannelsCount(); const int n = h.GetActiveChannelsCount(); if (n < 1 || n > 20) return; vector<shared_ptr<IBitmapData>> bm; for (int k = 0; k < n; ++k) { auto b = make_shared<UserBitmap>(pt, 5, 3, 1, (int)d.below(256)); bm.push_back(b); } vector<IBitmapData*> v; for (auto& b : bm) v.push_back(b.get()); touch("ComposeMultiChannel", Compositors::ComposeMultiChannel_Bgr24(n, v.data(), h.GetChannelInfosArray())); });
}

static void useMetadata(const shared_ptr<IMetadataSegment>& m, Draw& d)
{
    if (!m) return; use("metadata segment", [&] { size_t n = 0; for (auto k : { IMetadataSegment::XmlMetadata, IMetadataSegment::Attachment }) { auto p = m->GetRawData(k, &n); touch("metadata", p.get(), n); const void* q = nullptr; size_t z = 0; m->DangerousGetRawData(k, q, z); touch("metadata", q, z); } });
    shared_ptr<ICziMetadata> x; if (use("CreateMetaFromMetadataSegment", [&] { x = m->CreateMetaFromMetadataSegment(); }) && x) useDocInfo(x, d);
    use("CreateMetadataBuilderFromXml", [&] { size_t n = 0; auto p = m->GetRawData(IMetadataSegment::XmlMetadata, &n); if (!p) return; auto b = CreateMetadataBuilderFromXml(string((const char*)p.get(), n)); if (b) { b->GetXml(true); b->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Image/SizeX")->SetValueI32(3); b->GetXml(); } });
}
/// the calls shared by the reader and the editor
static void useRepository(const shared_ptr<ISubBlockRepository>& r, Draw& d, bool reader)
{
    SubBlockStatistics st; PyramidStatistics ps; use("GetStatistics", [&] { st = r->GetStatistics(); st.dimBounds.EnumValidDimensions([&](DimensionIndex, int, int) { return true; }); Utils::DimBoundsToString(&st.dimBounds); }); use("GetPyramidStatistics", [&] { ps = r->GetPyramidStatistics(); });
    vector<int> keys; use("EnumerateSubBlocks", [&] { r->EnumerateSubBlocks([&](int i, const SubBlockInfo& x) { infoStr(x); keys.push_back(i); return keys.size() < 5000; }); }); PBT_REQUIRE("endless", keys.size() < 5000, "EnumerateSubBlocks does not end");
    use("EnumSubset", [&] { r->EnumSubset(&d.plane(), d.coin() ? &d.roi() : nullptr, d.coin(), [&](int, const SubBlockInfo&) { return true; }); }); use("EnumSubset", [&] { r->EnumSubset(nullptr, &d.roi(), d.coin(), [&](int, const SubBlockInfo&) { return true; }); });
    for (int c : { -1, 0, 1, 5 }) use("channel representative", [&] { SubBlockInfo i; r->TryGetSubBlockInfoOfArbitrarySubBlockInChannel(c, i); Utils::TryDeterminePixelTypeForChannel(r.get(), c); });
    vector<int> some = keys; if (some.size() > 4) { some.resize(4); some.push_back(keys.back()); some.push_back(keys[d.below(keys.size())]); } some.push_back(-1); some.push_back((int)keys.size()); some.push_back(INT_MAX);
    for (int k : some) { use("TryGetSubBlockInfo", [&] { SubBlockInfo i; if (r->TryGetSubBlockInfo(k, &i)) infoStr(i); }); shared_ptr<ISubBlock> s; use("ReadSubBlock", [&] { s = r->ReadSubBlock(k); }); useTile(s, d, 1); }
    if (d.below(3) == 0) return;
    auto box = st.boundingBoxLayer0Only.IsValid() ? st.boundingBoxLayer0Only : st.boundingBox; IntRect clip = box; clip.w = min(clip.w, 90); clip.h = min(clip.h, 90); auto rois = vector<IntRect>{ d.roi(), clip, clip }; if (d.below(8) == 0) rois.push_back(box); CDimCoordinate plane = d.plane(); use("plane of the document", [&] { st.dimBounds.EnumValidDimensions([&](DimensionIndex k, int a, int) { if (k != DimensionIndex::S && d.below(6)) plane.Set(k, a); return true; }); });
    auto cache = CreateSubBlockCache();
    for (auto& roi : rois)
    {
        if (d.coin()) use("tile accessor", [&] { auto a = dynamic_pointer_cast<ISingleChannelTileAccessor>(CreateAccesor(r, AccessorType::SingleChannelTileAccessor)); ISingleChannelTileAccessor::Options o; o.Clear(); o.backGroundColor = { 0, 0, 0 }; o.sortByM = d.coin(); o.drawTileBorder = d.below(4) == 0; o.useVisibilityCheckOptimization = d.coin(); o.maskAware = d.coin(); if (d.coin()) o.subBlockCache = cache; touch("tile accessor", d.coin() ? a->Get(roi, &plane, &o) : a->Get(d.coin() ? PixelType::Gray8 : PixelType::Bgr24, roi, &plane, &o)); });
        if (d.coin()) use("pyramid accessor", [&] { auto a = dynamic_pointer_cast<ISingleChannelPyramidLayerTileAccessor>(CreateAccesor(r, AccessorType::SingleChannelPyramidLayerTileAccessor)); ISingleChannelPyramidLayerTileAccessor::Options o; o.Clear(); o.backGroundColor = { 0, 0, 0 }; ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo l{ (uint8_t)(2 + d.below(2)), (uint8_t)d.below(d.below(9) ? 4 : 256) }; touch("pyramid accessor", d.coin() ? a->Get(roi, &plane, l, &o) : a->Get(PixelType::Gray16, roi, &plane, l, &o)); });
        if (d.coin()) use("scaling accessor", [&] { auto a = dynamic_pointer_cast<ISingleChannelScalingTileAccessor>(CreateAccesor(r, AccessorType::SingleChannelScalingTileAccessor)); ISingleChannelScalingTileAccessor::Options o; o.Clear(); o.backGroundColor = { 0, 0, 0 }; o.useVisibilityCheckOptimization = d.coin(); o.maskAware = d.coin(); if (d.coin()) o.subBlockCache = cache; const float z = (float)(1 + d.below(20)) / (d.below(4) ? 20.f : 2000.f); a->CalcSize(roi, z); touch("scaling accessor", d.coin() ? a->Get(roi, &plane, z, &o) : a->Get(d.coin() ? PixelType::Gray8 : PixelType::Bgr48, roi, &plane, z, &o)); });
    }
    (void)reader;
}
static void useAttachments(const shared_ptr<IAttachmentRepository>& r)
{
    int n = 0; use("EnumerateAttachments", [&] { r->EnumerateAttachments([&](int i, const AttachmentInfo& a) { touch("name", a.name.data(), a.name.size()); string(a.contentFileType); n = i + 1; return n < 5000; }); r->EnumerateSubset("CZI", nullptr, [&](int, const AttachmentInfo&) { return true; }); r->EnumerateSubset(nullptr, "Thumbnail", [&](int, const AttachmentInfo&) { return true; }); });
    for (int k = -1; k <= min(n, 4); ++k) use("ReadAttachment", [&] { auto a = r->ReadAttachment(k); if (!a) return; a->GetAttachmentInfo(); size_t z = 0; auto p = a->GetRawData(&z); touch("ReadAttachment", p.get(), z); const void* q = nullptr; a->DangerousGetRawData(q, z); touch("ReadAttachment", q, z); });
}
static void useReader(const shared_ptr<IStream>& f, Draw& d)
{
    auto r = CreateCZIReader(); ICZIReader::OpenOptions o; o.SetDefault(); o.lax_subblock_coordinate_checks = d.coin(); o.ignore_sizem_for_pyramid_subblocks = d.coin(); const uint64_t pol = d.below(4); o.subBlockDirectoryInfoPolicy = (ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy)((pol & 1) | (pol & 2 ? 0x80 : 0)); o.default_frame_of_reference = d.coin() ? CZIFrameOfReference::PixelCoordinateSystem : CZIFrameOfReference::Invalid;
    if (!use("Open", [&] { r->Open(f, d.below(4) ? &o : nullptr); })) { use("Close", [&] { r->Close(); }); use("ReadSubBlock", [&] { r->ReadSubBlock(0); }); return; }
    use("GetFileHeaderInfo", [&] { r->GetFileHeaderInfo(); }); use("TransformPoint", [&] { r->TransformPoint(IntPointAndFrameOfReference{ CZIFrameOfReference::PixelCoordinateSystem, IntPoint{ 3, INT_MAX } }, CZIFrameOfReference::RawSubBlockCoordinateSystem); }); use("EnumerateSubBlocksEx", [&] { r->EnumerateSubBlocksEx([&](int, const DirectorySubBlockInfo&) { return true; }); });
    useRepository(r, d, true); useAttachments(r); shared_ptr<IMetadataSegment> m; use("ReadMetadataSegment", [&] { m = r->ReadMetadataSegment(); }); useMetadata(m, d); if (d.coin()) use("Close", [&] { r->Close(); });
}
/// a device that fills up
class Disk : public MemStream
{
public:
    explicit Disk(Bytes x) : MemStream(move(x)) {}
    void Write(uint64_t off, const void* pv, uint64_t size, uint64_t* put) override { if (off > (1u << 23) || size > (1u << 23)) throw runtime_error("the device is full"); touch("Write", pv, size); MemStream::Write(off, pv, size, put); }
};
static void useEditor(const Bytes& bytes, Draw& d, const vector<Sb>& sbs, const vector<At>& ats)
{
    auto f = make_shared<Disk>(bytes); auto w = CreateCZIReaderWriter(); if (!use("editor Create", [&] { w->Create(f); })) { if (d.coin()) use("Close", [&] { w->Close(); }); return; }
    for (uint64_t k = d.below(6); k > 0; --k)
    {
        const int key = (int)d.below(6) - (d.below(9) == 0); const Sb& s = sbs[d.below(sbs.size())]; const At& a = ats[d.below(ats.size())];
        switch (d.below(8))
        {
        case 0: use("RemoveSubBlock", [&] { w->RemoveSubBlock(key); }); break;
        case 1: use("ReplaceSubBlock", [&] { withAddInfo(s, [&](auto& i) { w->ReplaceSubBlock(key, i); }); }); break;
        case 2: use("SyncAddSubBlock", [&] { withAddInfo(s, [&](auto& i) { w->SyncAddSubBlock(i); }); }); break;
        case 3: use("RemoveAttachment", [&] { w->RemoveAttachment(key); }); break;
        case 4: use("ReplaceAttachment", [&] { w->ReplaceAttachment(key, toAddAtt(a)); }); break;
        case 5: use("SyncAddAttachment", [&] { w->SyncAddAttachment(toAddAtt(a)); }); break;
        case 6: use("SyncWriteMetadata", [&] { const string x(d.below(600), 'x'); WriteMetadataInfo i; i.Clear(); i.szMetadata = x.c_str(); i.szMetadataSize = x.size(); w->SyncWriteMetadata(i); }); break;
        default: if (d.below(3) == 0) useRepository(w, d, false); break;
        }
    }
    if (d.below(3) == 0) useRepository(w, d, false); if (d.coin()) useAttachments(w); use("GetFileHeaderInfo", [&] { w->GetFileHeaderInfo(); }); shared_ptr<IMetadataSegment> m; use("ReadMetadataSegment", [&] { m = w->ReadMetadataSegment(); }); if (d.coin()) useMetadata(m, d);
    if (d.below(4)) use("Close", [&] { w->Close(); }); w.reset(); if (d.coin()) useReader(f, d);
}
// ------------------------------------------------------------------ the C interface
static int32_t extRead(uintptr_t h, uintptr_t, uint64_t off, void* pv, uint64_t size, uint64_t* got, ExternalStreamErrorInfoInterop*) { uint64_t n = 0; ((MemStream*)h)->Read(off, pv, size, &n); if (got) *got = n; return 0; }
static void extClose(uintptr_t, uintptr_t) {}
static bool good(LibCZIApiErrorCode c) { if (c == LibCZIApi_ErrorCode_OK) { ++tally.ok; return true; } ++tally.err; return false; }
static void text(void* p) { if (p) { touch("text", p, strlen((const char*)p)); libCZI_Free(p); } }
static void useBitmapC(BitmapObjectHandle b)
{
    BitmapInfoInterop i; if (!good(libCZI_BitmapGetInfo(b, &i))) return; BitmapLockInfoInterop l; if (good(libCZI_BitmapLock(b, &l))) { size_t line = 0; try { line = (size_t)i.width * Utils::GetBytesPerPixel((PixelType)i.pixelType); } catch (exception&) {} if (i.width && i.height) { touch("bitmap", l.ptrDataRoi, line); touch("bitmap", (const uint8_t*)l.ptrDataRoi + (size_t)(i.height - 1) * l.stride, line); } libCZI_BitmapUnlock(b); if (line && (uint64_t)line * i.height < (1u << 24)) { Bytes m(line * i.height); good(libCZI_BitmapCopyTo(b, i.width, i.height, i.pixelType, (uint32_t)line, m.data())); } } libCZI_ReleaseBitmap(b);
}
static void useC(const shared_ptr<MemStream>& f, Draw& d)
{
    ExternalInputStreamStructInterop e{}; e.opaque_handle1 = (uintptr_t)f.get(); e.opaque_handle2 = 0; e.read_function = extRead; e.close_function = extClose; InputStreamObjectHandle s = kInvalidObjectHandle; if (!good(libCZI_CreateInputStreamFromExternal(&e, &s))) return; CziReaderObjectHandle r = kInvalidObjectHandle; if (!good(libCZI_CreateReader(&r))) return; ReaderOpenInfoInterop oi{}; oi.streamObject = s; const bool open = good(libCZI_ReaderOpen(r, &oi)); libCZI_ReleaseInputStream(s);
    FileHeaderInfoInterop fh; good(libCZI_ReaderGetFileHeaderInfo(r, &fh)); SubBlockStatisticsInterop st{}; good(libCZI_ReaderGetStatisticsSimple(r, &st));
    for (int32_t n : { 0, 1, 3, 300 }) { Bytes m(sizeof(SubBlockStatisticsInteropEx) + (size_t)n * sizeof(BoundingBoxesInterop)); int32_t k = n; good(libCZI_ReaderGetStatisticsEx(r, (SubBlockStatisticsInteropEx*)m.data(), &k)); }
    char* js = nullptr; if (good(libCZI_ReaderGetPyramidStatistics(r, &js))) text(js); int32_t na = 0; good(libCZI_ReaderGetAttachmentCount(r, &na));
    for (int32_t i = -1; i <= min(na, 3); ++i) { AttachmentInfoInterop ai{}; if (good(libCZI_ReaderGetAttachmentInfoFromDirectory(r, i, &ai))) { if (ai.name_overflow) { touch("name", ai.name_in_case_of_overflow, strlen((const char*)ai.name_in_case_of_overflow)); libCZI_Free(ai.name_in_case_of_overflow); } else touch("name", ai.name, strnlen((const char*)ai.name, sizeof ai.name)); } AttachmentObjectHandle a = kInvalidObjectHandle; if (good(libCZI_ReaderReadAttachment(r, i, &a)) && a != kInvalidObjectHandle) { AttachmentInfoInterop b{}; if (good(libCZI_AttachmentGetInfo(a, &b)) && b.name_overflow) libCZI_Free(b.name_in_case_of_overflow); uint64_t z = 0; if (good(libCZI_AttachmentGetRawData(a, &z, nullptr)) && z < (1u << 26)) { Bytes m((size_t)z); good(libCZI_AttachmentGetRawData(a, &z, m.data())); } libCZI_ReleaseAttachment(a); } }
    for (int32_t i = -1; i <= min(st.sub_block_count, 4); ++i) { SubBlockInfoInterop si{}; good(libCZI_TryGetSubBlockInfoForIndex(r, i, &si)); SubBlockObjectHandle b = kInvalidObjectHandle; if (!good(libCZI_ReaderReadSubBlock(r, i, &b)) || b == kInvalidObjectHandle) continue; good(libCZI_SubBlockGetInfo(b, &si)); for (int32_t t = 0; t < 3; ++t) { uint64_t z = 0; if (good(libCZI_SubBlockGetRawData(b, t, &z, nullptr)) && z < (1u << 26)) { Bytes m((size_t)z); good(libCZI_SubBlockGetRawData(b, t, &z, m.data())); } } BitmapObjectHandle bm = kInvalidObjectHandle; if (good(libCZI_SubBlockCreateBitmap(b, &bm))) useBitmapC(bm); libCZI_ReleaseSubBlock(b); }
    MetadataSegmentObjectHandle ms = kInvalidObjectHandle;
    if (good(libCZI_ReaderGetMetadataSegment(r, &ms)) && ms != kInvalidObjectHandle)
    {
        MetadataAsXmlInterop x{}; if (good(libCZI_MetadataSegmentGetMetadataAsXml(ms, &x))) { touch("xml", x.data, (size_t)x.size); libCZI_Free(x.data); } CziDocumentInfoHandle di = kInvalidObjectHandle;
        if (good(libCZI_MetadataSegmentGetCziDocumentInfo(ms, &di)) && di != kInvalidObjectHandle)
        {
            void* p = nullptr; if (good(libCZI_CziDocumentInfoGetGeneralDocumentInfo(di, &p))) text(p); ScalingInfoInterop sc; good(libCZI_CziDocumentInfoGetScalingInfo(di, &sc)); uint32_t dims[20]; good(libCZI_CziDocumentInfoGetAvailableDimension(di, 20, dims)); uint32_t few[1]; good(libCZI_CziDocumentInfoGetAvailableDimension(di, 1, few));
            for (uint32_t k = 0; k <= 10; ++k) { p = nullptr; if (good(libCZI_CziDocumentInfoGetDimensionInfo(di, k, &p))) text(p); }
            DisplaySettingsHandle ds = kInvalidObjectHandle; if (good(libCZI_CziDocumentInfoGetDisplaySettings(di, &ds)) && ds != kInvalidObjectHandle) { for (int c : { -1, 0, 1, 1000 }) { ChannelDisplaySettingsHandle ch = kInvalidObjectHandle; if (good(libCZI_DisplaySettingsGetChannelDisplaySettings(ds, c, &ch)) && ch != kInvalidObjectHandle) { CompositionChannelInfoInterop ci{}; if (good(libCZI_CompositorFillOutCompositionChannelInfoInterop(ch, d.coin(), d.coin(), &ci)) && ci.ptr_look_up_table) libCZI_Free((void*)ci.ptr_look_up_table); libCZI_ReleaseChannelDisplaySettings(ch); } } libCZI_ReleaseDisplaySettings(ds); }
            libCZI_ReleaseCziDocumentInfo(di);
        }
        libCZI_ReleaseMetadataSegment(ms);
    }
    if (open) { SingleChannelScalingTileAccessorObjectHandle a = kInvalidObjectHandle; if (good(libCZI_CreateSingleChannelTileAccessor(r, &a))) { const IntRect q = d.roi(); IntRectInterop roi{ q.x, q.y, q.w, q.h }; CoordinateInterop co{}; d.plane().EnumValidDimensions([&](DimensionIndex k, int v) { co.dimensions_valid |= 1u << ((int)k - 1); int n = 0; for (int j = 1; j < (int)k; ++j) if (co.dimensions_valid & (1u << (j - 1))) ++n; co.value[n] = v; return true; }); AccessorOptionsInterop o{}; o.sort_by_m = true; o.use_visibility_check_optimization = d.coin(); o.back_ground_color_r = 0; BitmapObjectHandle bm = kInvalidObjectHandle; if (good(libCZI_SingleChannelTileAccessorGet(a, &co, &roi, (float)(1 + d.below(10)) / 10, &o, &bm))) useBitmapC(bm); libCZI_ReleaseCreateSingleChannelTileAccessor(a); } }
    libCZI_ReleaseReader(r);
}
// ------------------------------------------------------------------ hostile XML
static string value(Gen& g)
{
    static const char* v[] = { "", "0", "1", "-1", "2147483647", "-2147483648", "2147483648", "99999999999999999999", "-99999999999999999999", "1e309", "-1e-320", "nan", "inf", "0x10", "1.5", "1,5", " 7 ", "true", "false", "Gray8", "Bgr24", "Spline", "Gamma", "#FF112233", "#zz", "#FF11", "0.1,0.2,0.3,0.4", "0.1,0.2 0.3,0.4 ", "1-2,3", "0,0 1e400,1", ",,", "0.5,0.5 0.5,0.5", "1,1 0,0", "2020-01-02T03:04:05Z", "2020-13-40T99:99:99", "2020-01-02T03:04:05.99999999999999999999+99:99", "Channel:0", "Channel:1", "Channel:99999999999", "Channel:-1", "Channel:", "1 2 3", "1,2,,3", "\xC3\xA4\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xFF\xFE", "&#x10FFFF;", "&amp;&lt;", "400-500", "500-400", "1e30-1e31", "16:9", "ARBITRARY" };
    string s = g.pick(vector<string>(begin(v), end(v))); if (g.chance(1, 8)) for (int k = (int)g.size(1, 200); k > 0; --k) s += g.pick(vector<string>{ "1", ",", " ", "-", "e", ".", "9", "\t" }); if (g.chance(1, 60)) s += string((size_t)g.size(1, 4000), '9'); return s;
}
static const vector<string>& vocabulary()
{
    static const vector<string> v{ "Id", "Name", "SizeX", "SizeY", "SizeC", "SizeZ", "SizeT", "SizeS", "SizeB", "SizeR", "SizeI", "SizeH", "SizeV", "StartX", "StartC", "StartZ", "StartT", "StartS", "StartB", "StartR", "Channel", "Channels", "PixelType", "ComponentBitCount", "Positions", "List", "Offsets", "Interval", "Start", "Increment", "StartPosition", "StartTime", "ZDriveMode", "XYZHandedness", "ExposureTime", "DetectionWavelength", "IlluminationWavelength", "SinglePeak", "Ranges", "Color", "LaserScanInfo", "LineStep", "ScanSpeed", "DetectorSettings", "Binning", "Detector", "LightSourcesSettings", "LightSourceSettings", "LightSource", "LightPath", "ChannelRef", "Ratio", "Source1", "Source2", "Const1", "FiberMapping", "SIMSettings", "SPIMDetectionSettings", "SPIMIlluminationSettings", "PolarizingSettings", "AiryscanSettings", "Items", "Distance", "Value", "DefaultUnitFormat", "Points", "Low", "High", "Gamma", "Mode", "Weight", "IsSelected", "ColorMode", "OriginalColor", "Transmission", "Wavelength", "RefractiveIndex", "Rating", "CreationDate", "Title", "UserName" }; return v;
}
static void element(Gen& g, string& s, const string& name, int depth)
{
    s += "<" + name; for (int k = g.chance(1, 3) ? (int)g.range(1, 2) : 0; k > 0; --k) s += " " + g.pick(vector<string>{ "Id", "Name", "Unit", "DefaultUnitFormat" }) + (g.chance(1, 50) ? "=" : "=\"") + (g.coin() ? value(g) : g.pick(vector<string>{ "Channel:0", "Channel:1", "X", "Y", "Z" })) + "\"";
    s += ">"; if (g.chance(1, 3) || depth > 4) s += value(g); else for (int k = (int)g.size(0, 5); k > 0; --k) element(g, s, g.pick(vocabulary()), depth + 1); if (!g.chance(1, 200)) s += "</" + name + ">";
}
static string hostileXml(Gen& g)
{
    if (g.chance(1, 12)) { const Bytes b = g.bytes((size_t)g.size(0, 80)); return string(b.begin(), b.end()); }
    if (g.chance(1, 60)) { string s, e; for (int k = (int)g.size(10, 30000); k > 0; --k) { s += "<a>"; if (g.chance(1, 2000)) break; } return "<ImageDocument>" + s; }
    string s = "<ImageDocument><Metadata>"; auto some = [&](const char* open, const char* close, const vector<string>& names, int n) { if (g.chance(1, 6)) return; s += open; for (int k = (int)g.size(0, n); k > 0; --k) element(g, s, g.chance(3, 4) ? g.pick(names) : g.pick(vocabulary()), 0); s += close; };
    some("<Information><Image>", "", { "SizeX", "SizeC", "SizeZ", "SizeT", "SizeS", "SizeB", "StartC", "StartZ", "StartT", "StartS", "PixelType", "ComponentBitCount" }, 9); some("<Dimensions>", "", { "Z", "T", "S" }, 3); some("<Channels>", "</Channels>", { "Channel" }, 4); some("<Z>", "</Z>", { "Positions", "XYZHandedness", "StartPosition", "ZDriveMode" }, 4);
    some("<Z><Positions>", "</Positions></Z>", { "List", "Interval" }, 3); some("<T><Positions>", "</Positions></T>", { "List", "Interval" }, 3); s += "</Dimensions></Image>"; some("<Document>", "</Document>", { "Name", "Title", "CreationDate", "Rating", "Keywords", "UserName" }, 5); s += "</Information>"; some("<Scaling><Items>", "</Items></Scaling>", { "Distance" }, 4);
    some("<DisplaySetting><Channels>", "</Channels></DisplaySetting>", { "Channel" }, 4);
    if (g.coin()) { s += "<DisplaySetting><Channels>"; for (int k = (int)g.range(1, 3); k > 0; --k) { s += cat("<Channel Id=\"Channel:", g.chance(9, 10) ? to_string(k - 1) : value(g), "\">"); for (auto t : { "IsSelected", "Low", "High", "Gamma", "Mode", "Points", "ColorMode", "Color", "Weight" }) if (g.coin()) s += cat("<", t, ">", g.chance(1, 3) && string(t) == "Mode" ? string("Spline") : value(g), "</", t, ">"); s += "</Channel>"; } s += "</Channels></DisplaySetting>"; }
    s += "</Metadata></ImageDocument>"; if (g.chance(1, 15)) s.resize((size_t)g.below(s.size())); if (!s.empty() && g.chance(1, 15)) s[(size_t)g.below(s.size())] = (char)g.below(256); return s;
}
// ------------------------------------------------------------------ hostile files
struct Field { size_t at; int size; string what; };
static vector<Field> fieldsOf(const Bytes& b)
{
    vector<Field> f; auto dv = [&](size_t o, const string& w) { f.push_back({ o, 2, w + " schema" }); f.push_back({ o + 2, 4, w + " pixel type" }); f.push_back({ o + 6, 8, w + " file position" }); f.push_back({ o + 14, 4, w + " file part" }); f.push_back({ o + 18, 4, w + " compression" }); f.push_back({ o + 22, 1, w + " pyramid type" }); f.push_back({ o + 28, 4, w + " dimension count" }); const int n = rawczi::i32(b, o + 28); for (int i = 0; i < n && i < 40; ++i) { const size_t e = o + 32 + 20 * (size_t)i; const string dn = w + " " + (char)b[e]; f.push_back({ e, 1, dn + " name" }); f.push_back({ e + 4, 4, dn + " start" }); f.push_back({ e + 8, 4, dn + " size" }); f.push_back({ e + 16, 4, dn + " stored size" }); } return 32 + 20 * (size_t)max(0, n); };
    for (size_t p = 0; p + 32 <= b.size();)
    {
        const string id = rawczi::idAt(b, p); const int64_t alloc = rawczi::i64(b, p + 16); f.push_back({ p, 1, id + " id" }); f.push_back({ p + 16, 8, id + " allocated size" }); f.push_back({ p + 24, 8, id + " used size" }); const size_t d = p + 32;
        if (id == "ZISRAWFILE") { f.push_back({ d, 4, "version" }); f.push_back({ d + 48, 4, "file part" }); f.push_back({ d + 52, 8, "directory position" }); f.push_back({ d + 60, 8, "metadata position" }); f.push_back({ d + 68, 4, "update pending" }); f.push_back({ d + 72, 8, "attachment directory position" }); }
        else if (id == "ZISRAWDIRECTORY") { f.push_back({ d, 4, "directory entry count" }); size_t o = d + 128; for (int i = 0; i < rawczi::i32(b, d); ++i) o += dv(o, "directory entry"); }
        else if (id == "ZISRAWSUBBLOCK") { f.push_back({ d, 4, "tile metadata size" }); f.push_back({ d + 4, 4, "tile attachment size" }); f.push_back({ d + 8, 8, "tile data size" }); const size_t h = max<size_t>(256, 16 + dv(d + 16, "tile")); const size_t ms = (size_t)rawczi::i32(b, d), ds = (size_t)rawczi::i64(b, d + 8), as = (size_t)rawczi::i32(b, d + 4); if (ms) f.push_back({ d + h, -(int)ms, "tile metadata" }); if (ds) f.push_back({ d + h + ms, -(int)ds, "tile data" }); if (as) { f.push_back({ d + h + ms + ds, -(int)as, "tile attachment" }); f.push_back({ d + h + ms + ds, -(int)as, "tile attachment" }); } }
        else if (id == "ZISRAWATTDIR") { f.push_back({ d, 4, "attachment entry count" }); size_t o = d + 256; for (int i = 0; i < rawczi::i32(b, d); ++i, o += 128) { f.push_back({ o, 2, "attachment entry schema" }); f.push_back({ o + 12, 8, "attachment entry position" }); f.push_back({ o + 20, 4, "attachment entry file part" }); f.push_back({ o + 40, -8, "attachment entry type" }); f.push_back({ o + 48, -80, "attachment entry name" }); } }
        else if (id == "ZISRAWATTACH") { f.push_back({ d, 8, "attachment data size" }); f.push_back({ d + 16 + 12, 8, "attachment position" }); f.push_back({ d + 16 + 48, -80, "attachment name" }); }
        else if (id == "ZISRAWMETADATA") { f.push_back({ d, 4, "xml size" }); f.push_back({ d + 4, 4, "metadata attachment size" }); if (rawczi::i32(b, d) > 0) f.push_back({ d + 256, -rawczi::i32(b, d), "xml" }); }
        if (alloc < 0) break; p += 32 + (size_t)alloc; while (p + 32 <= b.size() && b[p] == 0 && b[p + 1] == 0) ++p;
    }
    vector<Field> in; for (auto& x : f) if (x.at + (size_t)abs(x.size) <= b.size()) in.push_back(x); return in;
}
static int64_t hostile(Gen& g, int64_t old, const Bytes& b, const vector<Field>& f)
{
    switch (g.below(9))
    {
    case 0: return old + g.range(-3, 3); case 1: return g.pick(vector<int64_t>{ 0, 1, -1, 2, 3, 4, 5, 6, 7, 8, 12, 40, 41, 42, 255, 256 });
    case 2: return g.pick(vector<int64_t>{ INT32_MAX, INT32_MIN, INT32_MAX - 1, (int64_t)INT32_MIN + 1, INT64_MAX, INT64_MIN, (int64_t)1 << 32, ((int64_t)1 << 32) + 1, -((int64_t)1 << 32), (int64_t)1 << 31, (int64_t)1 << 40, INT64_MAX - 31, INT64_MAX - 543 });
    case 3: return (int64_t)b.size() + g.range(-300, 300); case 4: return (int64_t)g.pick(f).at; case 5: return old * g.range(-2, 4); case 6: return g.range(0, 70000); case 7: return (int64_t)1 << g.below(63); default: return (int64_t)g.seed64();
    }
}
static Bytes randomBytes(Gen& g, size_t n) { Bytes r(n); const uint64_t k = g.below(3); for (auto& x : r) x = k == 0 ? (uint8_t)g.below(256) : k == 1 ? (uint8_t)(g.below(3)) : (uint8_t)(g.chance(1, 4) ? g.below(256) : 0); return r; }
static void mutate(Gen& g, Bytes& b)
{
    const auto f = fieldsOf(b); const int n = (int)g.size(1, 5);
    for (int k = 0; k < n; ++k)
    {
        if (b.empty()) return;
        switch (g.weighted({ 20, 3, 1, 1, 1 }))
        {
        case 0:
        {
            const Field& x = g.pick(f); if (x.at + (size_t)abs(x.size) > b.size()) break; g.d() << "\n  " << x.what << " @" << x.at; g.cls("damaged: " + x.what.substr(0, x.what.find(' ')));
            if (x.size > 0) { int64_t old = 0; memcpy(&old, &b[x.at], (size_t)x.size); if (x.size == 4) old = (int32_t)old; int64_t v; if (x.size <= 2) v = g.coin() ? (int64_t)g.pick(vector<char>{ 'D', 'X', 'Y', 'M', 'S', 'C', 'Z', 'A', 'B', '\0', 'x' }) | (g.coin() ? 'E' << 8 : 'V' << 8) : (int64_t)g.below(65536); else v = hostile(g, old, b, f); memcpy(&b[x.at], &v, (size_t)x.size); g.d() << " " << old << " -> " << (x.size == 4 ? (int64_t)(int32_t)v : v); }
            else { const size_t len = (size_t)-x.size; for (int c = (int)g.size(1, 6); c > 0; --c) { const size_t o = x.at + (g.coin() ? (size_t)g.below(min<size_t>(len, 48)) : (size_t)g.below(len)); if (g.coin() && o + 4 <= x.at + len) { const int32_t v = (int32_t)hostile(g, rawczi::i32(b, o), b, f); memcpy(&b[o], &v, 4); } else b[o] = (uint8_t)g.below(256); } }
            break;
        }
        case 1: for (int c = (int)g.size(1, 8); c > 0; --c) { const size_t o = (size_t)g.below(b.size()); b[o] = g.coin() ? (uint8_t)g.below(256) : b[o] ^ (uint8_t)(1u << g.below(8)); } g.d() << "\n  bytes changed"; break;
        case 2: { const size_t to = (size_t)g.below(b.size() + 1); b.resize(to); g.d() << "\n  cut to " << to; break; }
        case 3: { const size_t from = (size_t)g.below(b.size()), to = (size_t)g.below(b.size()), len = (size_t)g.size(1, 400); if (from + len <= b.size() && to + len <= b.size()) memmove(&b[to], &b[from], len); g.d() << "\n  " << len << " bytes copied from " << from << " to " << to; break; }
        default: { const size_t at = (size_t)g.below(b.size()); if (g.coin()) { const Bytes x = randomBytes(g, (size_t)g.size(1, 64)); b.insert(b.begin() + (ptrdiff_t)at, x.begin(), x.end()); } else b.erase(b.begin() + (ptrdiff_t)at, b.begin() + (ptrdiff_t)min(b.size(), at + (size_t)g.size(1, 64))); g.d() << "\n  bytes inserted or removed at " << at; break; }
        }
    }
}
static Draw draws(Gen& g, const PDoc* p)
{
    Draw d; for (int k = 0; k < 3; ++k) { IntRect r = p && !p->doc.sbs.empty() && g.chance(3, 4) ? genRoi(g, *p) : IntRect{ (int)g.range(-50, 50), (int)g.range(-50, 50), (int)g.range(1, 60), (int)g.range(1, 60) }; if (g.chance(1, 8)) { r.x = g.pick(vector<int>{ INT_MIN, INT_MAX - 10, INT_MIN + 5 }); } if (g.chance(1, 8)) r.y = g.pick(vector<int>{ INT_MIN, INT_MAX - 10, INT_MIN + 5 }); r.w = min(r.w, 60); r.h = min(r.h, 60); d.rois.push_back(r); d.planes.push_back(p && !p->doc.sbs.empty() ? toCoord(genPlane(g, *p)) : CDimCoordinate{ { DimensionIndex::C, 0 } }); }
    const uint64_t seed = g.below(1u << 20); pbt::Rng r(seed); for (int k = 0; k < 256; ++k) d.r.push_back(r.next()); g.d() << " uses " << seed; return d;
}
static shared_ptr<MemStream> baseFile(Gen& g, PDoc& p, bool xml)
{
    POpts po; po.pyramid = g.coin(); po.masks = g.chance(1, 2); po.maxTiles = 5; po.jxr = false; p = genPDoc(g, po); if (g.chance(1, 20)) { p.doc.sbs.clear(); p.tiles.clear(); }
    for (int k = (int)g.range(0, 2); k > 0; --k) { At a = genAtt(g, 60); a.name = cat(k, a.name).substr(0, 79); p.doc.atts.push_back(a); } p.doc.hasMeta = g.chance(5, 6); if (p.doc.hasMeta) p.doc.xml = xml ? hostileXml(g) : "<ImageDocument><Metadata><Information><Image><SizeX>7</SizeX><SizeC>2</SizeC></Image></Information></Metadata></ImageDocument>";
    for (auto& s : p.doc.sbs) if (s.meta.empty() && g.chance(1, 4)) { string x = "<METADATA><Tags><StageXPosition>" + value(g) + "</StageXPosition><StageYPosition>" + value(g) + "</StageYPosition></Tags></METADATA>"; s.meta.assign(x.begin(), x.end()); }
    WriteOpts wo; wo.allowDup = true; if (p.doc.xml.empty()) p.doc.hasMeta = false; return writeDoc(p.doc, wo);
}
static void done(Gen& g) { g.count("uses that succeeded", tally.ok); g.count("uses that reported an error", tally.err); if (tally.ok > 0 && tally.err > 0) g.cls("opened, some uses fail"); else if (tally.ok > 0) g.cls("everything works"); if (tally.ok + tally.err > 3) g.nontrivial(); }
static void file(Gen& g) { tally = {}; PDoc p; auto f = baseFile(g, p, g.chance(1, 8)); mutate(g, f->b); Draw d = draws(g, &p); useReader(f, d); done(g); }
static void editor(Gen& g)
{
    tally = {}; PDoc p; auto f = baseFile(g, p, false); if (g.chance(9, 10)) mutate(g, f->b); vector<Sb> sbs; for (int k = 0; k < 3; ++k) { set<DimensionIndex> ds; if (!p.doc.sbs.empty()) for (auto& x : p.doc.sbs[0].dims) ds.insert(x.first); if (g.chance(1, 4)) ds = { DimensionIndex::C }; DocGen dg; dg.maxData = 300; Sb s; for (auto k2 : ds) s.dims[k2] = (int)g.below(3); s.mValid = g.coin(); s.m = (int)g.below(4); s.x = (int)g.range(-9, 9); s.y = (int)g.range(-9, 9); s.w = s.pw = (int)g.range(1, 20); s.h = s.ph = (int)g.range(1, 20); s.data = Bytes((size_t)(s.w * s.h), 7); if (g.coin()) s.meta = Bytes((size_t)g.size(0, 500), 'm'); sbs.push_back(s); }
    vector<At> ats; for (int k = 0; k < 3; ++k) ats.push_back(genAtt(g, 400)); Draw d = draws(g, &p); useEditor(f->b, d, sbs, ats); done(g);
}
static void capi(Gen& g) { tally = {}; PDoc p; auto f = baseFile(g, p, g.chance(1, 3)); if (g.chance(5, 6)) mutate(g, f->b); Draw d = draws(g, &p); useC(f, d); done(g); }
static void xml(Gen& g) { tally = {}; const string x = hostileXml(g); if (g.tracing()) g.d() << x; Draw d = draws(g, nullptr); useMetadata(make_shared<XmlSegment>(x), d); if (g.chance(1, 4) && !x.empty()) { Doc doc; doc.guid = GUID{ 1,2,3,{4} }; doc.hasMeta = true; doc.xml = x; auto f = writeDoc(doc); useC(f, d); } done(g); }
/// bytes with hardly any structure: only as much as leads the reader to its next step
static void bytes(Gen& g)
{
    tally = {}; Bytes b = randomBytes(g, (size_t)g.size(0, 3000)); auto put = [&](size_t o, const void* p, size_t n) { if (o + n > b.size()) b.resize(o + n); memcpy(&b[o], p, n); }; auto id = [&](size_t o, const char* s) { char t[16] = {}; strncpy(t, s, 16); put(o, t, 16); }; auto i64 = [&](size_t o, int64_t v) { put(o, &v, 8); }; auto i32 = [&](size_t o, int32_t v) { put(o, &v, 4); }; int depth = 0;
    if (g.chance(9, 10)) { ++depth; id(0, "ZISRAWFILE"); i32(32, 1); i32(36, 0); const size_t dp = 544 + (size_t)g.below(200), ap = 700 + (size_t)g.below(400), mp = 1000 + (size_t)g.below(500); i64(32 + 52, (int64_t)dp); i64(32 + 60, (int64_t)mp); i64(32 + 72, (int64_t)ap); i32(32 + 48, 0);
        if (g.chance(9, 10)) { ++depth; id(dp, "ZISRAWDIRECTORY"); i64(dp + 24, g.chance(3, 4) ? (int64_t)g.size(128, 1000) : (int64_t)g.seed64()); i32(dp + 32, (int32_t)g.range(0, 5)); size_t o = dp + 160; for (int k = 0; k < 3 && g.coin(); ++k) { put(o, g.chance(9, 10) ? "DV" : "DE", 2); const int32_t n = g.chance(3, 4) ? (int32_t)g.range(0, 5) : (int32_t)g.range(-3, 60); i32(o + 28, n); i32(o + 2, (int32_t)g.below(4)); i64(o + 6, g.coin() ? (int64_t)g.below(3000) : 1200); i32(o + 18, (int32_t)g.below(8)); for (int j = 0; j < max(0, n); ++j) { put(o + 32 + 20 * (size_t)j, g.pick(vector<string>{ "X", "Y", "M", "C", "S", "Z", "?" }).c_str(), 2); i32(o + 36 + 20 * (size_t)j, (int32_t)g.range(-5, 50)); i32(o + 40 + 20 * (size_t)j, (int32_t)g.range(0, 50)); i32(o + 48 + 20 * (size_t)j, (int32_t)g.range(0, 50)); } o += 32 + 20 * (size_t)max(0, n); }
            if (g.coin()) { id(1200, "ZISRAWSUBBLOCK"); i32(1232, (int32_t)g.below(100)); i32(1236, (int32_t)g.below(100)); i64(1240, (int64_t)g.below(500)); put(1248, g.chance(2, 3) ? "DV" : "DE", 2); i32(1250, (int32_t)g.below(14)); i32(1248 + 18, (int32_t)g.below(8)); i32(1248 + 28, (int32_t)g.range(-2, 44)); } }
        if (g.coin()) { ++depth; id(ap, "ZISRAWATTDIR"); i32(ap + 32, (int32_t)g.range(-1, 9)); put(ap + 288, "A1", 2); i64(ap + 300, 1800); if (g.coin()) { id(1800, "ZISRAWATTACH"); i64(1832, (int64_t)g.below(900)); } } if (g.coin()) { ++depth; id(mp, "ZISRAWMETADATA"); i32(mp + 32, (int32_t)g.range(-2, 500)); i32(mp + 36, (int32_t)g.range(-2, 300)); } }
    g.d() << b.size() << " bytes, depth " << depth; Draw d = draws(g, nullptr); auto f = make_shared<MemStream>(b); switch (g.below(3)) { case 0: useReader(f, d); break; case 1: useC(f, d); break; default: { Sb s; s.w = s.h = s.pw = s.ph = 2; s.data = Bytes(4); s.dims[DimensionIndex::C] = 0; useEditor(b, d, { s }, { genAtt(g, 30) }); } } done(g);
}
/// the decoders by themselves
static void decode(Gen& g)
{
    tally = {}; const auto pt = g.pick(vector<PixelType>{ PixelType::Gray8, PixelType::Gray16, PixelType::Gray32Float, PixelType::Bgr24, PixelType::Bgr48, PixelType::Bgra32, PixelType::Bgr96Float, PixelType::Gray32, PixelType::Gray64Float, PixelType::Invalid, (PixelType)77 }); uint32_t w = (uint32_t)g.size(0, 40), h = (uint32_t)g.size(0, 40);
    Bytes px = randomBytes(g, (size_t)g.size(1, 3000)); Bytes data = px; const int kind = (int)g.below(3); bool valid = false; const int z = (int)g.below(2);
    if (kind < 2) { const uint32_t cw = (uint32_t)g.size(1, 40), ch = (uint32_t)g.size(1, 40); const bool hl = g.coin(); const auto ct = hl ? PixelType::Gray16 : g.pick(vector<PixelType>{ PixelType::Gray8, PixelType::Bgr24, PixelType::Bgr48 }); Bytes src((size_t)cw * ch * (size_t)bpp(ct), 3); for (auto& x : src) if (g.chance(1, 3)) x = (uint8_t)g.below(256); CompressParametersOnMap cp; cp.map[(int)CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING] = CompressParameter(hl); auto m = z ? ZstdCompress::CompressZStd1Alloc(cw, ch, cw * (uint32_t)bpp(ct), ct, src.data(), &cp) : ZstdCompress::CompressZStd0Alloc(cw, ch, cw * (uint32_t)bpp(ct), ct, src.data(), nullptr); data.assign((const uint8_t*)m->GetPtr(), (const uint8_t*)m->GetPtr() + m->GetSizeOfData()); if (g.coin()) { w = cw; h = ch; } valid = true; if (kind == 1) for (int k = (int)g.size(1, 5); k > 0; --k) { if (g.coin() && !data.empty()) data[(size_t)g.below(min<size_t>(data.size(), g.coin() ? 16 : data.size()))] = (uint8_t)g.below(256); else data.resize((size_t)g.below(data.size() + 1)); } }
    if (g.chance(1, 8)) w = g.pick(vector<uint32_t>{ 0x7fffffff, 0x80000000u, 0xffffffffu, 0x40000001, 0x10000, 65537 }); if (g.chance(1, 8)) h = g.pick(vector<uint32_t>{ 0x7fffffff, 0x80000000u, 0xffffffffu, 0x40000001, 0x10000, 65537 });
    Exact e(data.size()); if (!data.empty()) memcpy(e.p, data.data(), data.size()); g.d() << (z ? "zstd1 " : "zstd0 ") << data.size() << " bytes (kind " << kind << ") as " << w << "x" << h << " type " << (int)pt; if (valid) g.cls("compressed data");
    auto dec = GetDefaultSiteObject(SiteObjectType::Default)->GetDecoder(z ? ImageDecoderType::ZStd1 : ImageDecoderType::ZStd0, nullptr); for (auto arg : { (const char*)nullptr, "handle_data_size_mismatch" }) use("Decode", [&] { touch("Decode", dec->Decode(e.p, data.size(), &pt, &w, &h, arg)); }); g.nontrivial(); g.count("uses that reported an error", tally.err);
}
int main(int argc, char** argv)
{
    pbt::Config c; c.property = "P19"; c.hangIsViolation = true; c.caseCpuSeconds = 20;
    c.rule = "a case is non-trivial when more than three uses of the document were made after it was presented to the library (or a decoder was run)";
    c.assumptions = { "the address sanitizer stops at every access outside of the memory a piece of data owns", "a single request for more than 192 MB fails, like on a machine that does not have the memory", "JPEG XR payloads are not damaged (see DESIGN.md)" };
    c.subs = { { "file", 30000, 1500000, file }, { "editor", 14000, 600000, editor }, { "capi", 10000, 400000, capi }, { "xml", 12000, 500000, xml }, { "bytes", 12000, 500000, bytes }, { "decode", 12000, 400000, decode } };
    return pbt::main(argc, argv, c);
}
