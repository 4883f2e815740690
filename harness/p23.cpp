// P23: the C interface delivers what the C++ interface delivers, reports invalid arguments by error codes, writes
// nothing beyond a buffer and frees what it hands out.
#include "compose.hpp"
#include "meta.hpp"
#include "xmltree.hpp"
#include "json.hpp"
#include <libCZIApi.h>
#include <cmath>
#include <fstream>
#include <unistd.h>
using namespace std; using namespace czi; using namespace cmp; using pbt::Gen; using pbt::cat;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
typedef LibCZIApiErrorCode EC;
static const EC OK_ = LibCZIApi_ErrorCode_OK, ARG = LibCZIApi_ErrorCode_InvalidArgument, HDL = LibCZIApi_ErrorCode_InvalidHandle, IDX = LibCZIApi_ErrorCode_IndexOutOfRange, LCK = LibCZIApi_ErrorCode_LockUnlockSemanticViolated;
#define CODE(key, call, want) do { const EC ec_ = (call); PBT_REQUIRE(key, ec_ == (want), #call, " returns ", ec_, " instead of ", (want)); } while (0)
static string utf8(const wstring& s) { string r; for (wchar_t c : s) { const unsigned u = (unsigned)c; if (u < 0x80) r += (char)u; else if (u < 0x800) { r += (char)(0xC0 | u >> 6); r += (char)(0x80 | (u & 63)); } else if (u < 0x10000) { r += (char)(0xE0 | u >> 12); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); } else { r += (char)(0xF0 | u >> 18); r += (char)(0x80 | (u >> 12 & 63)); r += (char)(0x80 | (u >> 6 & 63)); r += (char)(0x80 | (u & 63)); } } return r; }

// ------------------------------------------------------------------------------------------- external streams
struct Ext { shared_ptr<MemStream> m; int closed = 0; int64_t n = 0, failAt = -1; int kind = 0; bool hit = false; };
static int32_t extErr(Ext* e, ExternalStreamErrorInfoInterop* ei)
{
    e->hit = true;
    if (ei && (e->kind & 1)) { void* p = nullptr; if (libCZI_AllocateMemory(7, &p) == OK_) { memcpy(p, "broken", 7); ei->error_message = (MemoryAllocationObjectHandle)p; } ei->error_code = kStreamErrorCode_UnspecifiedError; }
    return e->kind & 2 ? -5 : 1;
}
static int32_t extRead(uintptr_t h, uintptr_t h2, uint64_t off, void* pv, uint64_t size, uint64_t* got, ExternalStreamErrorInfoInterop* ei)
{
    auto e = (Ext*)h; if (h2 != ~h || e->closed) pbt::fail("external-handle", "an external stream is read with wrong handles, or after it has been closed");
    if (e->n++ == e->failAt) return extErr(e, ei);
    uint64_t n = 0; e->m->Read(off, pv, size, &n); if (got) *got = n; return 0;
}
static int32_t extWrite(uintptr_t h, uintptr_t h2, uint64_t off, const void* pv, uint64_t size, uint64_t* put, ExternalStreamErrorInfoInterop* ei)
{
    auto e = (Ext*)h; if (h2 != ~h || e->closed) pbt::fail("external-handle", "an external stream is written with wrong handles, or after it has been closed");
    if (e->n++ == e->failAt) return extErr(e, ei);
    uint64_t n = 0; e->m->Write(off, pv, size, &n); if (put) *put = n; return 0;
}
static void extClose(uintptr_t h, uintptr_t) { ++((Ext*)h)->closed; }
static InputStreamObjectHandle openExt(Ext& e) { ExternalInputStreamStructInterop s{}; s.opaque_handle1 = (uintptr_t)&e; s.opaque_handle2 = ~(uintptr_t)&e; s.read_function = extRead; s.close_function = extClose; InputStreamObjectHandle h = 77; CODE("stream", libCZI_CreateInputStreamFromExternal(&s, &h), OK_); PBT_REQUIRE("stream", h != kInvalidObjectHandle, "no handle of an external stream"); return h; }
static OutputStreamObjectHandle openExtOut(Ext& e) { ExternalOutputStreamStructInterop s{}; s.opaque_handle1 = (uintptr_t)&e; s.opaque_handle2 = ~(uintptr_t)&e; s.write_function = extWrite; s.close_function = extClose; OutputStreamObjectHandle h = 77; CODE("stream", libCZI_CreateOutputStreamFromExternal(&s, &h), OK_); return h; }

// ------------------------------------------------------------------------------------------------ comparisons
static string rs(const IntRectInterop& r) { return r.w < 0 || r.h < 0 ? string("invalid") : cat(r.x, ",", r.y, ",", r.w, ",", r.h); }
static string rs(const IntRect& r) { return r.w < 0 || r.h < 0 ? string("invalid") : cat(r.x, ",", r.y, ",", r.w, ",", r.h); }
static map<DimensionIndex, int> coordOf(const CoordinateInterop& c) { map<DimensionIndex, int> m; int k = 0; for (int i = 0; i < 9; ++i) if (c.dimensions_valid >> i & 1) m[(DimensionIndex)(i + 1)] = c.value[k++]; if (c.dimensions_valid >> 9) pbt::fail("coordinate", "dimension bits beyond the last dimension are set"); return m; }
static CoordinateInterop toInterop(const map<DimensionIndex, int>& d) { CoordinateInterop c; memset(&c, 0x5A, sizeof c); c.dimensions_valid = 0; int k = 0; for (auto& p : d) { c.dimensions_valid |= 1u << ((int)p.first - 1); c.value[k++] = p.second; } return c; }
static void sameInfo(const char* what, const SubBlockInfoInterop& a, const SubBlockInfo& b)
{
    PBT_REQUIRE("subblock-info", a.compression_mode_raw == b.compressionModeRaw && a.pixel_type == (int)b.pixelType && coordOf(a.coordinate) == fromCoord(b.coordinate) && rs(a.logical_rect) == rs(b.logicalRect) && a.physical_size.w == (int)b.physicalSize.w && a.physical_size.h == (int)b.physicalSize.h && a.m_index == (b.IsMindexValid() ? b.mIndex : INT32_MIN), what, " delivers compression ", a.compression_mode_raw, " type ", a.pixel_type, " ", dimsStr(coordOf(a.coordinate)), " ", rs(a.logical_rect), " ", a.physical_size.w, "x", a.physical_size.h, " M=", a.m_index, " instead of ", infoStr(b));
}
static void sameAtt(const char* what, const AttachmentInfoInterop& a, const AttachmentInfo& b)
{
    const string n = a.name_overflow ? string((const char*)a.name_in_case_of_overflow) : string(a.name);
    PBT_REQUIRE("attachment-info", memcmp(a.guid, &b.contentGuid, 16) == 0 && memcmp(a.content_file_type, b.contentFileType, 9) == 0 && n == b.name, what, " delivers ", (const char*)a.content_file_type, " \"", n, "\" instead of ", b.contentFileType, " \"", b.name, "\"");
    if (a.name_overflow) libCZI_Free(a.name_in_case_of_overflow); else PBT_REQUIRE("attachment-info", a.name_in_case_of_overflow == nullptr, what, ": overflow pointer without overflow");
}
template <class S> static void sameStats(const S& a, const SubBlockStatistics& b)
{
    string da, db; int k = 0; for (int i = 0; i < 9; ++i) if (a.dim_bounds.dimensions_valid >> i & 1) { da += cat(i + 1, ":", a.dim_bounds.start[k], "+", a.dim_bounds.size[k], " "); ++k; } b.dimBounds.EnumValidDimensions([&](DimensionIndex d, int st, int sz) { db += cat((int)d, ":", st, "+", sz, " "); return true; });
    PBT_REQUIRE("statistics", a.sub_block_count == b.subBlockCount && a.min_m_index == b.minMindex && a.max_m_index == b.maxMindex && rs(a.bounding_box) == rs(b.boundingBox) && rs(a.bounding_box_layer0) == rs(b.boundingBoxLayer0Only) && da == db, "statistics: ", a.sub_block_count, " M ", a.min_m_index, "..", a.max_m_index, " ", rs(a.bounding_box), " / ", rs(a.bounding_box_layer0), " ", da, "instead of ", b.subBlockCount, " M ", b.minMindex, "..", b.maxMindex, " ", rs(b.boundingBox), " / ", rs(b.boundingBoxLayer0Only), " ", db);
}
static js::V json(const char* what, void* p) { PBT_REQUIRE("json", p != nullptr, what, ": no text although success is reported"); const string s = (const char*)p; libCZI_Free(p); js::V v; PBT_REQUIRE("json", js::parse(s, v) && v.t == js::V::Obj, what, ": malformed JSON ", s); return v; }
/// an object member that is the given text or is absent
static void member(const js::V& v, const char* key, bool there, const string& want) { auto m = v.get(key); PBT_REQUIRE("json-text", (m != nullptr) == there && (!there || (m->t == js::V::Str && m->s == want)), "\"", key, "\" is ", m ? m->s : "absent", " instead of ", there ? want : "absent"); }
static void member(const js::V& v, const char* key, bool there, double want) { auto m = v.get(key); PBT_REQUIRE("json-number", (m != nullptr) == there && (!there || (m->t == js::V::Num && m->n == want)), "\"", key, "\" is ", m ? m->s : "absent", " instead of ", there ? cat(want) : "absent"); }
static string fn(PixelType p) { switch (p) { case PixelType::Gray8: return "Gray8"; case PixelType::Gray16: return "Gray16"; case PixelType::Gray32Float: return "Gray32Float"; case PixelType::Bgr24: return "Bgr24"; case PixelType::Bgr48: return "Bgr48"; case PixelType::Bgr96Float: return "Bgr96Float"; case PixelType::Bgra32: return "Bgra32"; case PixelType::Gray64ComplexFloat: return "Gray64ComplexFloat"; case PixelType::Bgr192ComplexFloat: return "Bgr192ComplexFloat"; case PixelType::Gray32: return "Gray32"; case PixelType::Gray64Float: return "Gray64Float"; default: return ""; } }

/// what a channel's JSON must say, from the C++ interface
static void spectrum(const js::V& v, const char* key, bool there, const SpectrumCharacteristics& s)
{
    auto m = v.get(key); PBT_REQUIRE("json-spectrum", (m != nullptr) == there, "\"", key, "\" is ", m ? "" : "not ", "there"); if (!there) return;
    if (s.type == SpectrumCharacteristics::InformationType::SinglePeak) { member(*m, "type", true, string("SinglePeak")); member(*m, "single_peak", true, s.singlePeak); }
    else if (s.type == SpectrumCharacteristics::InformationType::Ranges)
    {
        member(*m, "type", true, string("Ranges")); auto r = m->get("ranges"); PBT_REQUIRE("json-spectrum", r && r->t == js::V::Str, "no ranges"); const char* p = r->s.c_str();
        auto num = [&](double want) { char* e; const double d = strtod(p, &e); PBT_REQUIRE("json-spectrum", e != p && fabs(d - want) <= 1e-5 * fabs(want), "the ranges of ", key, " are ", r->s, ", expected ", want); p = e; };
        for (size_t k = 0; k < s.ranges.size(); ++k) { if (k) { PBT_REQUIRE("json-spectrum", *p == ',', "the ranges of ", key, " are ", r->s); ++p; } num(s.ranges[k].startOrSingleValue); if (!s.ranges[k].singleValue) { PBT_REQUIRE("json-spectrum", *p == '-', "the ranges of ", key, " are ", r->s); ++p; num(s.ranges[k].end); } }
        PBT_REQUIRE("json-spectrum", !*p, "the ranges of ", key, " are ", r->s);
    }
}
#define EN(T, x) case T::x: return #x
static string en(DimensionChannelChannelType t) { switch (t) { EN(DimensionChannelChannelType, Heightmap); EN(DimensionChannelChannelType, PalHR); EN(DimensionChannelChannelType, PalWidefield); EN(DimensionChannelChannelType, SimHR); EN(DimensionChannelChannelType, SimWidefield); EN(DimensionChannelChannelType, SimDWF); EN(DimensionChannelChannelType, AiryScanSum); EN(DimensionChannelChannelType, AiryScanRawSr); EN(DimensionChannelChannelType, AiryScanRaw); EN(DimensionChannelChannelType, AiryScanSr); EN(DimensionChannelChannelType, AiryScanVp); EN(DimensionChannelChannelType, AiryScanMb); EN(DimensionChannelChannelType, AiryScanRingSheppardSum); EN(DimensionChannelChannelType, OnlineUnmixing); EN(DimensionChannelChannelType, Unspecified); default: return "?"; } }
static string en(DimensionChannelAcquisitionMode t) { typedef DimensionChannelAcquisitionMode A; switch (t) { EN(A, WideField); EN(A, LaserScanningConfocalMicroscopy); EN(A, SpinningDiskConfocal); EN(A, SlitScanConfocal); EN(A, MultiPhotonMicroscopy); EN(A, StructuredIllumination); EN(A, SingleMoleculeImaging); EN(A, TotalInternalReflection); EN(A, FluorescenceLifetime); EN(A, SpectralImaging); EN(A, FluorescenceCorrelationSpectroscopy); EN(A, NearFieldScanningOpticalMicroscopy); EN(A, SecondHarmonicGenerationImaging); EN(A, PALM); EN(A, STORM); EN(A, STED); EN(A, TIRF); EN(A, FSM); EN(A, LCM); EN(A, SPIM); EN(A, SEM); EN(A, FIB); EN(A, FIB_SEM); EN(A, ApertureCorrelation); EN(A, Other); default: return "?"; } }
static string en(DimensionChannelIlluminationType t) { typedef DimensionChannelIlluminationType A; switch (t) { EN(A, Transmitted); EN(A, Epifluorescence); EN(A, Oblique); EN(A, NonLinear); EN(A, Other); default: return "?"; } }
static string en(DimensionChannelContrastMethod t) { typedef DimensionChannelContrastMethod A; switch (t) { EN(A, Brightfield); EN(A, Phase); EN(A, DIC); EN(A, HoffmanModulation); EN(A, ObliqueIllumination); EN(A, PolarizedLight); EN(A, Darkfield); EN(A, Fluorescence); EN(A, MultiPhotonFluorescence); EN(A, Other); default: return "?"; } }
static string en(DimensionChannelPinholeGeometry t) { typedef DimensionChannelPinholeGeometry A; switch (t) { EN(A, Circular); EN(A, Rectangular); EN(A, Other); default: return "?"; } }
static void sameChannel(const js::V& v, IDimensionChannelInfo& c)
{
    auto w = [&](const char* key, bool (IDimensionChannelInfo::* f)(wstring*) const) { wstring s; const bool h = (c.*f)(&s); member(v, key, h, utf8(s)); };
    auto d = [&](const char* key, bool (IDimensionChannelInfo::* f)(double*) const) { double x = 0; const bool h = (c.*f)(&x); member(v, key, h, x); };
    auto i = [&](const char* key, bool (IDimensionChannelInfo::* f)(int*) const) { int x = 0; const bool h = (c.*f)(&x); member(v, key, h, (double)x); };
    wstring s; bool h = c.TryGetAttributeId(&s); member(v, "attribute_id", h, utf8(s)); s.clear(); h = c.TryGetAttributeName(&s); member(v, "attribute_name", h, utf8(s));
    w("channel_unit", &IDimensionChannelInfo::TryGetChannelUnit); w("dye_id", &IDimensionChannelInfo::TryGetDyeId); w("dye_database_id", &IDimensionChannelInfo::TryGetDyeDatabaseId); w("fluor", &IDimensionChannelInfo::TryGetFluor); w("reflector", &IDimensionChannelInfo::TryGetReflector); w("condensor_contrast", &IDimensionChannelInfo::TryGetCondenserContrast);
    d("excitation_wavelength", &IDimensionChannelInfo::TryGetExcitationWavelength); d("emission_wavelength", &IDimensionChannelInfo::TryGetEmissionWavelength); d("effective_na", &IDimensionChannelInfo::TryGetEffectiveNA); d("pinhole_size", &IDimensionChannelInfo::TryGetPinholeSize); d("pinhole_size_airy", &IDimensionChannelInfo::TryGetPinholeSizeAiry); d("nd_filter", &IDimensionChannelInfo::TryGetNDFilter); d("depth_of_focus", &IDimensionChannelInfo::TryGetDepthOfFocus); d("section_thickness", &IDimensionChannelInfo::TryGetSectionThickness); d("na_condensor", &IDimensionChannelInfo::TryGetNACondenser);
    i("component_bit_count", &IDimensionChannelInfo::TryGetComponentBitCount); i("pocket_cell_setting", &IDimensionChannelInfo::TryGetPocketCellSetting);
    { DimensionChannelChannelType t; h = c.TryGetChannelType(&t); member(v, "channel_type", h, h ? en(t) : ""); } { PixelType t; h = c.TryGetPixelType(&t); const string q = h ? fn(t) : ""; member(v, "pixel_type", h && !q.empty(), q); } { DimensionChannelAcquisitionMode t; h = c.TryGetAcquisitionMode(&t); member(v, "acquisition_mode", h, h ? en(t) : ""); } { DimensionChannelIlluminationType t; h = c.TryGetIlluminationType(&t); member(v, "illumination_type", h, h ? en(t) : ""); } { DimensionChannelContrastMethod t; h = c.TryGetContrastMethod(&t); member(v, "contrast_method", h, h ? en(t) : ""); } { DimensionChannelPinholeGeometry t; h = c.TryGetPinholeGeometry(&t); member(v, "pinhole_geometry", h, h ? en(t) : ""); }
    { SpectrumCharacteristics t; h = c.TryGetIlluminationWavelength(&t); spectrum(v, "illumination_wavelength", h, t); h = c.TryGetDetectionWavelength(&t); spectrum(v, "detection_wavelength", h, t); }
    { Rgb8Color t{}; h = c.TryGetColor(&t); char b[8]; snprintf(b, sizeof b, "#%02x%02x%02x", t.r, t.g, t.b); member(v, "color", h, string(b)); }
    { RangeOrSingleValue<uint64_t> t{}; h = c.TryGetExposureTime(&t); member(v, "exposure_time", h, t.singleValue ? to_string(t.startOrSingleValue) : to_string(t.startOrSingleValue) + "-" + to_string(t.end)); }
}
static void sameList(const js::V& v, const char* key, bool there, const vector<double>& w)
{
    auto m = v.get(key); PBT_REQUIRE("json-list", (m != nullptr) == there && (!there || (m->t == js::V::Arr && m->a.size() == w.size())), "\"", key, "\" is ", m ? cat("a list of ", m->a.size()) : "absent", " instead of ", there ? cat("a list of ", w.size()) : "absent"); if (!there) return;
    for (size_t k = 0; k < w.size(); ++k) PBT_REQUIRE("json-list", m->a[k].t == js::V::Num && m->a[k].n == w[k], "\"", key, "\"[", k, "] is ", m->a[k].s, " instead of ", w[k]);
}

// -------------------------------------------------------------------------------------------- document metadata
static double genDbl(Gen& g) { switch (g.below(4)) { case 0: return (double)g.range0(-1000, 1000); case 1: return (double)g.range0(-1000000, 1000000) / 1024; case 2: return (double)g.range(1, 99999) * 1e-9; default: return (g.unit() - .5) * 1e6; } }
static wstring genText(Gen& g) { wstring s = xt::genText(g, 10); while (!s.empty() && (s[0] == L' ' || s[0] == L'\t' || s[0] == L'\n')) s.erase(0, 1); return s.empty() ? L"t\"\\\u00e4\u4e2d" : s; }
static string genMetaXml(Gen& g)
{
    auto b = CreateMetadataBuilder(); auto rt = b->GetRootNode();
    if (g.chance(2, 3)) { GeneralDocumentInfo gi; if (g.coin()) gi.SetName(genText(g)); if (g.coin()) gi.SetTitle(genText(g)); if (g.coin()) gi.SetUserName(genText(g)); if (g.coin()) gi.SetDescription(genText(g)); if (g.coin()) gi.SetComment(genText(g)); if (g.coin()) gi.SetKeywords(genText(g)); if (g.coin()) gi.SetRating((int)g.range0(-5, 100)); if (g.coin()) gi.SetCreationDate(L"2024-02-03T04:05:06Z"); MetadataUtils::WriteGeneralDocumentInfo(b.get(), gi); }
    if (g.chance(2, 3)) { ScalingInfo s; if (g.coin()) s.scaleX = genDbl(g); if (g.coin()) s.scaleY = genDbl(g); if (g.coin()) s.scaleZ = genDbl(g); MetadataUtils::WriteScalingInfo(b.get(), s); }
    for (auto d : allDims()) if (g.chance(1, 3)) MetadataUtils::WriteDimensionSize(b.get(), d, (int)g.range(1, 9));
    if (g.coin()) { XmlDateTime t; t.Clear(); t.year = (int)g.range(1900, 2100); t.mon = (int)g.range(1, 12); t.mday = (int)g.range(1, 28); t.hour = (int)g.range(0, 23); t.min = 3; t.sec = 59; t.isUTC = g.coin(); const bool st = g.coin(); if (g.coin()) MetadataUtils::WriteDimInfoT_Interval(b.get(), st ? &t : nullptr, genDbl(g), genDbl(g)); else { vector<double> l; for (int k = (int)g.range(0, 4); k > 0; --k) l.push_back(genDbl(g)); MetadataUtils::WriteDimInfoT_List(b.get(), st ? &t : nullptr, [&](int i) { return i < (int)l.size() ? l[(size_t)i] : NAN; }); } }
    if (g.coin()) { const double z = g.coin() ? genDbl(g) : NAN; if (g.coin()) MetadataUtils::WriteDimInfoZ_Interval(b.get(), z, genDbl(g), genDbl(g)); else { vector<double> l; for (int k = (int)g.range(0, 4); k > 0; --k) l.push_back(genDbl(g)); MetadataUtils::WriteDimInfoZ_List(b.get(), z, [&](int i) { return i < (int)l.size() ? l[(size_t)i] : NAN; }); }
        const char* kz = "Metadata/Information/Dimensions/Z/"; auto put = [&](const char* n, const char* v) { rt->GetOrCreateChildNode(cat(kz, n))->SetValue(v); }; if (g.coin()) put("XYZHandedness", g.of<const char*>({ "LeftHanded", "RightHanded", "Undefined" })); if (g.coin()) put("ZAxisDirection", g.of<const char*>({ "FromSpecimenToObjective", "FromObjectiveToSpecimen", "Undefined" })); if (g.coin()) put("ZDriveMode", g.of<const char*>({ "Continuous", "Step" })); if (g.coin()) rt->GetOrCreateChildNode(cat(kz, "ZDriveSpeed"))->SetValueDbl(genDbl(g)); }
    const int nc = (int)g.range(0, 3);
    for (int k = 0; k < nc; ++k)
    {
        auto n = rt->GetOrCreateChildNode("Metadata/Information/Image/Dimensions/Channels")->AppendChildNode("Channel"); if (g.chance(2, 3)) n->SetAttribute(L"Id", (L"Channel:" + to_wstring(k)).c_str()); if (g.coin()) n->SetAttribute(L"Name", genText(g).c_str());
        for (const char* f : { "ChannelUnit", "DyeId", "DyeDatabaseId", "Fluor", "Reflector", "CondenserContrast" }) if (g.chance(1, 2)) n->GetOrCreateChildNode(f)->SetValue(genText(g).c_str());
        for (const char* f : { "ExcitationWavelength", "EmissionWavelength", "EffectiveNA", "PinholeSize", "PinholeSizeAiry", "NDFilter", "DepthOfFocus", "SectionThickness", "NACondenser" }) if (g.chance(1, 2)) n->GetOrCreateChildNode(f)->SetValueDbl(genDbl(g));
        for (const char* f : { "ComponentBitCount", "PocketCellSetting" }) if (g.chance(1, 2)) n->GetOrCreateChildNode(f)->SetValueI32((int)g.range0(-100, 100));
        auto pick = [&](const char* f, vector<const char*> v) { if (g.chance(1, 2)) n->GetOrCreateChildNode(f)->SetValue(v[(size_t)g.below(v.size())]); };
        pick("ChannelType", { "Heightmap", "PalHR", "PalWidefield", "SimHR", "SimWidefield", "SimDWF", "AiryScanSum", "AiryScanRawSr", "AiryScanRaw", "AiryScanSr", "AiryScanVp", "AiryScanMb", "AiryScanRingSheppardSum", "OnlineUnmixing", "Unspecified" });
        pick("PixelType", { "Gray8", "Gray16", "Gray32Float", "Bgr24", "Bgr48", "Bgr96Float", "Bgra32", "Gray64ComplexFloat", "Bgr192ComplexFloat", "Gray32", "Gray64Float" });
        pick("AcquisitionMode", { "WideField", "LaserScanningConfocalMicroscopy", "SpinningDiskConfocal", "SlitScanConfocal", "MultiPhotonMicroscopy", "StructuredIllumination", "SingleMoleculeImaging", "TotalInternalReflection", "FluorescenceLifetime", "SpectralImaging", "FluorescenceCorrelationSpectroscopy", "NearFieldScanningOpticalMicroscopy", "SecondHarmonicGenerationImaging", "PALM", "STORM", "STED", "TIRF", "FSM", "LCM", "SPIM", "SEM", "FIB", "FIB-SEM", "ApertureCorrelation", "Other" });
        pick("IlluminationType", { "Transmitted", "Epifluorescence", "Oblique", "NonLinear", "Other" }); pick("ContrastMethod", { "Brightfield", "Phase", "DIC", "HoffmanModulation", "ObliqueIllumination", "PolarizedLight", "Darkfield", "Fluorescence", "MultiPhotonFluorescence", "Other" }); pick("PinholeGeometry", { "Circular", "Rectangular", "Other" });
        for (const char* f : { "IlluminationWavelength", "DetectionWavelength" }) if (g.chance(1, 2)) { if (g.coin()) n->GetOrCreateChildNode(f)->GetOrCreateChildNode("SinglePeak")->SetValueDbl((double)g.range(300, 900)); else n->GetOrCreateChildNode(f)->GetOrCreateChildNode("Ranges")->SetValue(g.of<const char*>({ "400-500", "400-500,600", "450.5", "410.25-411.5,500-501,700" })); }
        if (g.coin()) n->GetOrCreateChildNode("Color")->SetValue(g.of<const char*>({ "#FF00FF00", "#FF102030", "#FFFFFFFF", "#00000102" })); if (g.coin()) n->GetOrCreateChildNode("ExposureTime")->SetValue(g.of<const char*>({ "100", "100-200", "18446744073709551615", "5 - 6" }));
    }
    if (g.chance(2, 3))
    {
        DisplaySettingsPOD pod; const int n = (int)g.range(1, 3);
        for (int c = 0; c < n; ++c) { ChannelDisplaySettingsPOD p; p.Clear(); p.isEnabled = g.chance(3, 4); p.weight = (float)g.range(0, 100) / 100; p.blackPoint = (float)g.range(0, 40) / 100; p.whitePoint = (float)g.range(50, 100) / 100; p.tintingColor = { 0, 0, 0 }; if (g.coin()) { p.tintingMode = IDisplaySettings::TintingMode::Color; p.tintingColor = { (uint8_t)g.below(256), (uint8_t)g.below(256), (uint8_t)g.below(256) }; } switch (g.below(3)) { case 0: p.gradationCurveMode = IDisplaySettings::GradationCurveMode::Linear; break; case 1: p.gradationCurveMode = IDisplaySettings::GradationCurveMode::Gamma; p.gamma = (float)g.range(20, 300) / 100; break; default: p.gradationCurveMode = IDisplaySettings::GradationCurveMode::Spline; p.splineCtrlPoints.push_back({ .25, g.unit() }); p.splineCtrlPoints.push_back({ .75, g.unit() }); } pod.channelDisplaySettings[c] = p; }
        MetadataUtils::WriteDisplaySettings(b.get(), DisplaySettingsPOD::CreateIDisplaySettingSp(pod).get(), n, nullptr);
    }
    return b->GetXml(g.coin());
}

// ---------------------------------------------------------------------------------- sequences of reading calls
struct Op { int kind; uint32_t a, b, c; int bad; };
enum { oRead, oInfo, oRaw, oBitmap, oTryInfo, oHeader, oStats, oStatsEx, oPyr, oAttCount, oAttInfo, oAttRead, oAttObj, oMeta, oXml, oDocInfo, oGeneral, oScaling, oDims, oDimInfo, oDisplay, oChDisplay, oFill, oAccessor, oCalc, oGet, oBmInfo, oLock, oUnlock, oCopy, oCompose, oRelSb, oRelBm, oRelAtt, oRelMs, oRelDi, oRelDs, oRelCd, oRelAc, oOpenAgain, oReopen, oCount };
static const char* opName[] = { "ReadSubBlock", "SubBlockGetInfo", "GetRawData", "CreateBitmap", "TryGetInfo", "Header", "Stats", "StatsEx", "Pyramid", "AttCount", "AttInfo", "ReadAttachment", "Attachment", "MetadataSegment", "Xml", "DocInfo", "General", "Scaling", "Dimensions", "DimensionInfo", "DisplaySettings", "ChannelDisplay", "FillOut", "Accessor", "CalcSize", "Get", "BitmapInfo", "Lock", "Unlock", "CopyTo", "Compose", "ReleaseSubBlock", "ReleaseBitmap", "ReleaseAttachment", "ReleaseMetadata", "ReleaseDocInfo", "ReleaseDisplay", "ReleaseChannelDisplay", "ReleaseAccessor", "OpenAgain", "NewReader" };

struct Session
{
    template <class T> struct H { ObjectHandle h; shared_ptr<T> m; };
    struct Bm { ObjectHandle h; Img img; int locks; };
    shared_ptr<MemStream> file; CziReaderObjectHandle reader = 0; shared_ptr<ICZIReader> mir; InputStreamObjectHandle stream = 0; vector<unique_ptr<Ext>> exts; string path;
    vector<H<ISubBlock>> sb; vector<H<IAttachment>> at; vector<H<IMetadataSegment>> ms; vector<H<ICziMultiDimensionDocumentInfo>> di; vector<H<IDisplaySettings>> ds; vector<H<IChannelDisplaySetting>> cd; vector<H<ISingleChannelScalingTileAccessor>> ac; vector<Bm> bm; IntRect box{ 0, 0, 1, 1 }; vector<map<DimensionIndex, int>> planes; size_t done = 0, badDone = 0;
    /// a live handle of another kind
    ObjectHandle other(const void* own, uint32_t pick) const { vector<ObjectHandle> v; auto add = [&](const void* vec, ObjectHandle h) { if (vec != own && h) v.push_back(h); }; add(&reader, reader); add(&stream, stream); for (auto& x : sb) add(&sb, x.h); for (auto& x : at) add(&at, x.h); for (auto& x : ms) add(&ms, x.h); for (auto& x : di) add(&di, x.h); for (auto& x : ds) add(&ds, x.h); for (auto& x : cd) add(&cd, x.h); for (auto& x : ac) add(&ac, x.h); for (auto& x : bm) add(&bm, x.h); return v.empty() ? 0 : v[pick % v.size()]; }
    void open(uint32_t how)
    {
        CODE("create-reader", libCZI_CreateReader(&reader), OK_); PBT_REQUIRE("create-reader", reader != 0, "no reader"); mir = CreateCZIReader();
        if (how % 5 == 4) return; // not opened
        if (how % 5 >= 2) { path = pbt::scratchDir() + "/p23 \xc3\xa4.czi"; ofstream(path, ios::binary).write((const char*)file->b.data(), (streamsize)file->b.size()); if (how % 5 == 2) CODE("stream", libCZI_CreateInputStreamFromFileUTF8(path.c_str(), &stream), OK_); else CODE("stream", libCZI_CreateInputStream("pread_file_inputstream", nullptr, path.c_str(), &stream), OK_); }
        else { exts.emplace_back(new Ext{ file }); stream = openExt(*exts.back()); }
        ReaderOpenInfoInterop oi{ stream }; bool e = false; try { mir->Open(file); } catch (exception&) { e = true; } const EC c = libCZI_ReaderOpen(reader, &oi); PBT_REQUIRE("open", (c == OK_) == !e, "ReaderOpen returns ", c, ", C++ ", e ? "fails" : "succeeds");
        if (how & 8) { CODE("release-stream", libCZI_ReleaseInputStream(stream), OK_); stream = 0; }
    }
    void closeReader() { CODE("release-reader", libCZI_ReleaseReader(reader), OK_); reader = 0; mir.reset(); if (stream) { CODE("release-stream", libCZI_ReleaseInputStream(stream), OK_); stream = 0; } }
    template <class F> bool cpp(F f) { try { f(); return true; } catch (exception&) { return false; } }
    /// result code of a call whose C++ counterpart succeeded or failed
    void judge(const char* what, EC c, bool ok) { PBT_REQUIRE("agreement", (c == OK_) == ok, what, " returns ", c, ", the C++ call ", ok ? "succeeds" : "fails"); }
    void rawData(const char* what, const function<EC(uint64_t*, void*)>& f, const Bytes& want, uint32_t sel)
    {
        uint64_t n = 0; CODE("raw-size", f(&n, nullptr), OK_); PBT_REQUIRE("raw-size", n == want.size(), what, " has ", n, " bytes instead of ", want.size());
        const uint64_t cap = sel % 4 == 0 ? n : sel % 4 == 1 ? n / 2 : sel % 4 == 2 ? n + 5 : 0; Exact e((size_t)cap); n = cap; CODE("raw", f(&n, e.p), OK_); PBT_REQUIRE("raw-size", n == want.size(), what, " reports ", n, " bytes instead of ", want.size());
        const size_t m = (size_t)min<uint64_t>(cap, want.size()); PBT_REQUIRE("raw-data", m == 0 || memcmp(e.p, want.data(), m) == 0, what, " delivers other bytes"); for (size_t k = m; k < cap; ++k) PBT_REQUIRE("raw-beyond", e.p[k] == 0xCD, what, " writes behind the data");
    }
    void addBitmap(ObjectHandle h, const shared_ptr<IBitmapData>& b)
    {
        PBT_REQUIRE("bitmap", h != 0, "no bitmap although success is reported"); bm.push_back({ h, fromBitmap(b), 0 }); checkBitmap(bm.back(), 1);
    }
    void checkBitmap(Bm& b, uint32_t sel)
    {
        BitmapInfoInterop i{}; CODE("bitmap-info", libCZI_BitmapGetInfo(b.h, &i), OK_); PBT_REQUIRE("bitmap-info", (int)i.width == b.img.w && (int)i.height == b.img.h && i.pixelType == (int)b.img.pt, "bitmap is ", i.width, "x", i.height, " type ", i.pixelType, " instead of ", str(b.img));
        const uint32_t stride = (uint32_t)(b.img.line() + (sel % 3) * 3); Exact e(stridedSize(b.img, stride), 0xEE); CODE("bitmap-copy", libCZI_BitmapCopyTo(b.h, i.width, i.height, i.pixelType, stride, e.p), OK_);
        if (b.img.w > 0) for (int y = 0; y < b.img.h; ++y) { PBT_REQUIRE("bitmap-copy", memcmp(e.p + (size_t)y * stride, b.img.px.data() + (size_t)y * b.img.line(), b.img.line()) == 0, "the copy of a bitmap ", str(b.img), " differs in line ", y); if (y + 1 < b.img.h) for (size_t k = b.img.line(); k < stride; ++k) PBT_REQUIRE("bitmap-pad", e.p[(size_t)y * stride + k] == 0xEE, "CopyTo writes into the padding"); }
        if (b.img.w > 0) { CODE("bitmap-args", libCZI_BitmapCopyTo(b.h, i.width + 1, i.height, i.pixelType, stride + 64, e.p), ARG); CODE("bitmap-args", libCZI_BitmapCopyTo(b.h, i.width, i.height - 1, i.pixelType, stride, e.p), ARG); CODE("bitmap-args", libCZI_BitmapCopyTo(b.h, i.width, i.height, (int)(b.img.pt == PixelType::Gray8 ? PixelType::Bgr24 : PixelType::Gray8), stride, e.p), ARG); CODE("bitmap-args", libCZI_BitmapCopyTo(b.h, i.width, i.height, i.pixelType, (uint32_t)b.img.line() - 1, e.p), ARG); CODE("bitmap-args", libCZI_BitmapCopyTo(b.h, i.width, i.height, i.pixelType, stride, nullptr), ARG); }
    }
    template <class V> static typename V::value_type* sel(V& v, uint32_t k) { return v.empty() ? nullptr : &v[k % v.size()]; }
    /// the bad variants of a function of one handle: the handle is 0, or of another kind
    template <class F> bool badHandle(const Op& o, const void* own, F f) { if (o.bad == 1) { CODE("null-handle", f((ObjectHandle)0), ARG); ++badDone; return true; } if (o.bad == 2) { const ObjectHandle x = other(own, o.c); if (x) { CODE("wrong-handle", f(x), HDL); ++badDone; } return true; } return false; }
    template <class V, class F> void release(V& v, const Op& o, F f) { if (badHandle(o, &v, f)) return; if (v.empty()) return; const size_t k = o.a % v.size(); CODE("release", f(v[k].h), OK_); v.erase(v.begin() + (long)k); ++done; }
    int index(uint32_t a, int n) const { switch (a % 8) { case 0: return n; case 1: return -1; case 2: return INT32_MAX; case 3: return INT32_MIN; default: return n > 0 ? (int)(a / 8 % (uint32_t)n) : 0; } }
    void step(const Op& o)
    {
        SubBlockInfoInterop si; AttachmentInfoInterop ai; ObjectHandle h = 99; const bool nul = o.bad == 3; if (nul) ++badDone;
        switch (o.kind)
        {
        case oRead: { if (badHandle(o, &reader, [&](ObjectHandle x) { return libCZI_ReaderReadSubBlock(x, 0, &h); })) break; if (nul) { CODE("null", libCZI_ReaderReadSubBlock(reader, 0, nullptr), ARG); break; } const int i = index(o.a, mirCount()); shared_ptr<ISubBlock> m; const bool ok = cpp([&] { m = mir->ReadSubBlock(i); }); judge("ReaderReadSubBlock", libCZI_ReaderReadSubBlock(reader, i, &h), ok); if (ok) { PBT_REQUIRE("read", (h != 0) == (m != nullptr), "ReaderReadSubBlock(", i, ") delivers ", h ? "a" : "no", " handle"); if (m) { sb.push_back({ h, m }); ++done; } } break; }
        case oInfo: { if (badHandle(o, &sb, [&](ObjectHandle x) { return libCZI_SubBlockGetInfo(x, &si); })) break; auto s = sel(sb, o.a); if (!s) break; if (nul) { CODE("null", libCZI_SubBlockGetInfo(s->h, nullptr), ARG); break; } CODE("subblock-info", libCZI_SubBlockGetInfo(s->h, &si), OK_); sameInfo("SubBlockGetInfo", si, s->m->GetSubBlockInfo()); ++done; break; }
        case oRaw: { uint64_t n = 0; if (badHandle(o, &sb, [&](ObjectHandle x) { return libCZI_SubBlockGetRawData(x, 0, &n, nullptr); })) break; auto s = sel(sb, o.a); if (!s) break; if (nul) { CODE("null", libCZI_SubBlockGetRawData(s->h, 0, nullptr, nullptr), ARG); CODE("raw-type", libCZI_SubBlockGetRawData(s->h, (int)(o.c % 2 ? 3 + o.c % 9 : -1), &n, nullptr), ARG); break; } const int t = (int)(o.b & 1); size_t z = 0; auto p = s->m->GetRawData(t ? ISubBlock::Metadata : ISubBlock::Data, &z); rawData(t ? "metadata" : "data", [&](uint64_t* n2, void* q) { return libCZI_SubBlockGetRawData(s->h, t, n2, q); }, raw(p, z), o.c); ++done; break; }
        case oBitmap: { if (badHandle(o, &sb, [&](ObjectHandle x) { return libCZI_SubBlockCreateBitmap(x, &h); })) break; auto s = sel(sb, o.a); if (!s) break; if (nul) { CODE("null", libCZI_SubBlockCreateBitmap(s->h, nullptr), ARG); break; } shared_ptr<IBitmapData> m; const bool ok = cpp([&] { m = s->m->CreateBitmap(); }); judge("SubBlockCreateBitmap", libCZI_SubBlockCreateBitmap(s->h, &h), ok); if (ok) { addBitmap(h, m); ++done; } else PBT_REQUIRE("bitmap", h == 0, "a failed SubBlockCreateBitmap leaves a handle"); break; }
        case oTryInfo: { if (badHandle(o, &reader, [&](ObjectHandle x) { return libCZI_TryGetSubBlockInfoForIndex(x, 0, &si); })) break; if (nul) { CODE("null", libCZI_TryGetSubBlockInfoForIndex(reader, 0, nullptr), ARG); break; } const int i = index(o.a, mirCount()); SubBlockInfo m; bool there = false; const bool ok = cpp([&] { there = mir->TryGetSubBlockInfo(i, &m); }); const EC c = libCZI_TryGetSubBlockInfoForIndex(reader, i, &si); if (ok && !there) PBT_REQUIRE("index", c == IDX, "TryGetSubBlockInfoForIndex(", i, ") returns ", c); else { judge("TryGetSubBlockInfoForIndex", c, ok); if (ok) { sameInfo("TryGetSubBlockInfoForIndex", si, m); ++done; } } break; }
        case oHeader: { FileHeaderInfoInterop f; if (badHandle(o, &reader, [&](ObjectHandle x) { return libCZI_ReaderGetFileHeaderInfo(x, &f); })) break; if (nul) { CODE("null", libCZI_ReaderGetFileHeaderInfo(reader, nullptr), ARG); break; } FileHeaderInfo m; const bool ok = cpp([&] { m = mir->GetFileHeaderInfo(); }); judge("ReaderGetFileHeaderInfo", libCZI_ReaderGetFileHeaderInfo(reader, &f), ok); if (ok) PBT_REQUIRE("header", memcmp(f.guid, &m.fileGuid, 16) == 0 && f.majorVersion == m.majorVersion && f.minorVersion == m.minorVersion, "the file header differs"); break; }
        case oStats: { SubBlockStatisticsInterop s; if (badHandle(o, &reader, [&](ObjectHandle x) { return libCZI_ReaderGetStatisticsSimple(x, &s); })) break; if (nul) { CODE("null", libCZI_ReaderGetStatisticsSimple(reader, nullptr), ARG); break; } SubBlockStatistics m; const bool ok = cpp([&] { m = mir->GetStatistics(); }); judge("ReaderGetStatisticsSimple", libCZI_ReaderGetStatisticsSimple(reader, &s), ok); if (ok) { sameStats(s, m); ++done; } break; }
        case oStatsEx:
        {
            const int cap = (int)(o.b % 5) - (o.b % 31 == 7 ? 10 : 0); Exact buf(sizeof(SubBlockStatisticsInteropEx) + sizeof(BoundingBoxesInterop) * (size_t)max(0, cap)); auto s = (SubBlockStatisticsInteropEx*)buf.p; int32_t n = cap; if (badHandle(o, &reader, [&](ObjectHandle x) { return libCZI_ReaderGetStatisticsEx(x, s, &n); })) break; if (nul) { CODE("null", libCZI_ReaderGetStatisticsEx(reader, nullptr, &n), ARG); break; }
            const bool noCount = o.c % 8 == 0; SubBlockStatistics m; const bool ok = cpp([&] { m = mir->GetStatistics(); }); judge("ReaderGetStatisticsEx", libCZI_ReaderGetStatisticsEx(reader, s, noCount ? nullptr : &n), ok); if (!ok) break; sameStats(*s, m); ++done;
            const int want = noCount ? 0 : min(max(cap, 0), (int)m.sceneBoundingBoxes.size()); PBT_REQUIRE("statistics-scenes", s->number_of_per_scenes_bounding_boxes == want && (noCount || n == (int)m.sceneBoundingBoxes.size()), "room for ", cap, " of ", m.sceneBoundingBoxes.size(), " scenes: ", s->number_of_per_scenes_bounding_boxes, " delivered, ", n, " reported"); set<int> seen;
            for (int k = 0; k < want; ++k) { auto& b = s->per_scenes_bounding_boxes[k]; auto it = m.sceneBoundingBoxes.find(b.sceneIndex); PBT_REQUIRE("statistics-scenes", it != m.sceneBoundingBoxes.end() && seen.insert(b.sceneIndex).second && rs(b.bounding_box) == rs(it->second.boundingBox) && rs(b.bounding_box_layer0_only) == rs(it->second.boundingBoxLayer0), "scene ", b.sceneIndex, ": ", rs(b.bounding_box), " / ", rs(b.bounding_box_layer0_only)); }
            break;
        }
        case oPyr:
        {
            char* t = nullptr; if (badHandle(o, &reader, [&](ObjectHandle x) { return libCZI_ReaderGetPyramidStatistics(x, &t); })) break; if (nul) { CODE("null", libCZI_ReaderGetPyramidStatistics(reader, nullptr), ARG); break; } PyramidStatistics m; const bool ok = cpp([&] { m = mir->GetPyramidStatistics(); }); judge("ReaderGetPyramidStatistics", libCZI_ReaderGetPyramidStatistics(reader, &t), ok); if (!ok) break; auto v = json("ReaderGetPyramidStatistics", t); ++done;
            auto s = v.get("scenePyramidStatistics"); PBT_REQUIRE("pyramid", s && s->t == js::V::Obj && s->o.size() == m.scenePyramidStatistics.size(), "pyramid statistics of ", s ? s->o.size() : 0, " scenes instead of ", m.scenePyramidStatistics.size());
            for (auto& p : m.scenePyramidStatistics) { auto a = s->get(to_string(p.first)); PBT_REQUIRE("pyramid", a && a->t == js::V::Arr && a->a.size() == p.second.size(), "pyramid statistics of scene ", p.first); for (size_t k = 0; k < p.second.size(); ++k) { auto l = a->a[k].get("layerInfo"); PBT_REQUIRE("pyramid", l, "no layerInfo"); member(*l, "minificationFactor", true, (double)p.second[k].layerInfo.minificationFactor); member(*l, "pyramidLayerNo", true, (double)p.second[k].layerInfo.pyramidLayerNo); member(a->a[k], "count", true, (double)p.second[k].count); } }
            break;
        }
        case oAttCount: { int32_t n = -1; if (badHandle(o, &reader, [&](ObjectHandle x) { return libCZI_ReaderGetAttachmentCount(x, &n); })) break; if (nul) { CODE("null", libCZI_ReaderGetAttachmentCount(reader, nullptr), ARG); break; } int m = 0; const bool ok = cpp([&] { m = mir->GetAttachmentCount(); }); judge("ReaderGetAttachmentCount", libCZI_ReaderGetAttachmentCount(reader, &n), ok); if (ok) PBT_REQUIRE("attachment-count", n == m, n, " attachments instead of ", m); break; }
        case oAttInfo: { if (badHandle(o, &reader, [&](ObjectHandle x) { return libCZI_ReaderGetAttachmentInfoFromDirectory(x, 0, &ai); })) break; if (nul) { CODE("null", libCZI_ReaderGetAttachmentInfoFromDirectory(reader, 0, nullptr), ARG); break; } const int i = index(o.a, attCount()); AttachmentInfo m; bool there = false; const bool ok = cpp([&] { there = mir->TryGetAttachmentInfo(i, &m); }); const EC c = libCZI_ReaderGetAttachmentInfoFromDirectory(reader, i, &ai); if (ok && !there) PBT_REQUIRE("index", c == IDX, "ReaderGetAttachmentInfoFromDirectory(", i, ") returns ", c); else { judge("ReaderGetAttachmentInfoFromDirectory", c, ok); if (ok) { sameAtt("ReaderGetAttachmentInfoFromDirectory", ai, m); ++done; } } break; }
        case oAttRead: { if (badHandle(o, &reader, [&](ObjectHandle x) { return libCZI_ReaderReadAttachment(x, 0, &h); })) break; if (nul) { CODE("null", libCZI_ReaderReadAttachment(reader, 0, nullptr), ARG); break; } const int i = index(o.a, attCount()); shared_ptr<IAttachment> m; const bool ok = cpp([&] { m = mir->ReadAttachment(i); }); judge("ReaderReadAttachment", libCZI_ReaderReadAttachment(reader, i, &h), ok); if (ok) { PBT_REQUIRE("read", (h != 0) == (m != nullptr), "ReaderReadAttachment(", i, ") delivers ", h ? "a" : "no", " handle"); if (m) { at.push_back({ h, m }); ++done; } } break; }
        case oAttObj: { uint64_t n = 0; if (o.b & 1) { if (badHandle(o, &at, [&](ObjectHandle x) { return libCZI_AttachmentGetInfo(x, &ai); })) break; } else if (badHandle(o, &at, [&](ObjectHandle x) { return libCZI_AttachmentGetRawData(x, &n, nullptr); })) break; auto a = sel(at, o.a); if (!a) break; if (nul) { CODE("null", libCZI_AttachmentGetInfo(a->h, nullptr), ARG); CODE("null", libCZI_AttachmentGetRawData(a->h, nullptr, nullptr), ARG); break; } CODE("attachment-info", libCZI_AttachmentGetInfo(a->h, &ai), OK_); sameAtt("AttachmentGetInfo", ai, a->m->GetAttachmentInfo()); size_t z = 0; auto p = a->m->GetRawData(&z); rawData("attachment", [&](uint64_t* n2, void* q) { return libCZI_AttachmentGetRawData(a->h, n2, q); }, raw(p, z), o.c); ++done; break; }
        case oMeta: { if (badHandle(o, &reader, [&](ObjectHandle x) { return libCZI_ReaderGetMetadataSegment(x, &h); })) break; if (nul) { CODE("null", libCZI_ReaderGetMetadataSegment(reader, nullptr), ARG); break; } shared_ptr<IMetadataSegment> m; const bool ok = cpp([&] { m = mir->ReadMetadataSegment(); }) && m; judge("ReaderGetMetadataSegment", libCZI_ReaderGetMetadataSegment(reader, &h), ok); if (ok) { ms.push_back({ h, m }); ++done; } break; }
        case oXml: { MetadataAsXmlInterop x{}; if (badHandle(o, &ms, [&](ObjectHandle q) { return libCZI_MetadataSegmentGetMetadataAsXml(q, &x); })) break; auto m = sel(ms, o.a); if (!m) break; if (nul) { CODE("null", libCZI_MetadataSegmentGetMetadataAsXml(m->h, nullptr), ARG); break; } CODE("xml", libCZI_MetadataSegmentGetMetadataAsXml(m->h, &x), OK_); size_t n = 0; auto p = m->m->GetRawData(IMetadataSegment::XmlMetadata, &n); const Bytes want = raw(p, n); PBT_REQUIRE("xml", x.size == n && (n == 0 || (x.data && memcmp(x.data, want.data(), n) == 0)), "the XML differs: ", x.size, " bytes instead of ", n); libCZI_Free(x.data); ++done; break; }
        case oDocInfo: { if (badHandle(o, &ms, [&](ObjectHandle x) { return libCZI_MetadataSegmentGetCziDocumentInfo(x, &h); })) break; auto m = sel(ms, o.a); if (!m) break; if (nul) { CODE("null", libCZI_MetadataSegmentGetCziDocumentInfo(m->h, nullptr), ARG); break; } shared_ptr<ICziMultiDimensionDocumentInfo> d; const bool ok = cpp([&] { d = m->m->CreateMetaFromMetadataSegment()->GetDocumentInfo(); }); judge("MetadataSegmentGetCziDocumentInfo", libCZI_MetadataSegmentGetCziDocumentInfo(m->h, &h), ok); if (ok) { di.push_back({ h, d }); ++done; } break; }
        case oGeneral:
        {
            void* t = nullptr; if (badHandle(o, &di, [&](ObjectHandle x) { return libCZI_CziDocumentInfoGetGeneralDocumentInfo(x, &t); })) break; auto d = sel(di, o.a); if (!d) break; if (nul) { CODE("null", libCZI_CziDocumentInfoGetGeneralDocumentInfo(d->h, nullptr), ARG); break; } CODE("general", libCZI_CziDocumentInfoGetGeneralDocumentInfo(d->h, &t), OK_); auto v = json("general document information", t); auto i = d->m->GetGeneralDocumentInfo(); ++done;
            member(v, "name", i.name_valid, utf8(i.name)); member(v, "title", i.title_valid, utf8(i.title)); member(v, "user_name", i.userName_valid, utf8(i.userName)); member(v, "description", i.description_valid, utf8(i.description)); member(v, "comment", i.comment_valid, utf8(i.comment)); member(v, "keywords", i.keywords_valid, utf8(i.keywords)); member(v, v.get("creation_date") ? "creation_date" : "creation_date_time", i.creationDateTime_valid, utf8(i.creationDateTime)); member(v, "rating", i.rating_valid, (double)i.rating); break;
        }
        case oScaling: { ScalingInfoInterop s{}; if (badHandle(o, &di, [&](ObjectHandle x) { return libCZI_CziDocumentInfoGetScalingInfo(x, &s); })) break; auto d = sel(di, o.a); if (!d) break; if (nul) { CODE("null", libCZI_CziDocumentInfoGetScalingInfo(d->h, nullptr), ARG); break; } CODE("scaling", libCZI_CziDocumentInfoGetScalingInfo(d->h, &s), OK_); auto i = d->m->GetScalingInfo(); auto eq = [](double a, bool v, double b) { return v ? a == b : std::isnan(a); }; PBT_REQUIRE("scaling", eq(s.scale_x, i.IsScaleXValid(), i.scaleX) && eq(s.scale_y, i.IsScaleYValid(), i.scaleY) && eq(s.scale_z, i.IsScaleZValid(), i.scaleZ), "scaling is ", s.scale_x, ",", s.scale_y, ",", s.scale_z, " instead of ", i.scaleX, ",", i.scaleY, ",", i.scaleZ); break; }
        case oDims: { uint32_t z[12]; if (badHandle(o, &di, [&](ObjectHandle x) { return libCZI_CziDocumentInfoGetAvailableDimension(x, 12, z); })) break; auto d = sel(di, o.a); if (!d) break; if (nul) { CODE("null", libCZI_CziDocumentInfoGetAvailableDimension(d->h, 12, nullptr), ARG); break; } auto want = d->m->GetDimensions(); const uint32_t cap = o.b % 12; Exact e(cap * 4); const EC c = libCZI_CziDocumentInfoGetAvailableDimension(d->h, cap, (uint32_t*)e.p); PBT_REQUIRE("dimensions", c == (cap > want.size() ? OK_ : ARG), "room for ", cap, " numbers, ", want.size(), " dimensions: ", c); if (c == OK_) { auto p = (uint32_t*)e.p; for (size_t k = 0; k < want.size(); ++k) PBT_REQUIRE("dimensions", p[k] == (uint32_t)want[k], "dimension ", k, " is ", p[k]); PBT_REQUIRE("dimensions", p[want.size()] == kDimensionInvalid, "the list of dimensions has no end"); ++done; } break; }
        case oDimInfo:
        {
            void* t = nullptr; if (badHandle(o, &di, [&](ObjectHandle x) { return libCZI_CziDocumentInfoGetDimensionInfo(x, kDimensionC, &t); })) break; auto d = sel(di, o.a); if (!d) break; if (nul) { CODE("null", libCZI_CziDocumentInfoGetDimensionInfo(d->h, kDimensionZ, nullptr), ARG); break; }
            const uint32_t k = o.b % 8 == 0 ? o.c : 1 + o.b % 3; const EC c = libCZI_CziDocumentInfoGetDimensionInfo(d->h, k, &t);
            if (k == kDimensionZ) { auto z = d->m->GetDimensionZInfo(); judge("z information", c, z != nullptr); if (!z) break; auto v = json("z information", t); double x = 0, y = 0; bool b = z->TryGetReferencePosition(&x); member(v, "reference_position", b, x); b = z->TryGetIntervalDefinition(&x, &y); sameList(v, "interval_definition", b, { x, y }); vector<double> l; const bool lb = !b && z->TryGetPositionList(&l); sameList(v, "position_list", lb, l); IDimensionZInfo::XyzHandedness hn; b = z->TryGetXyzHandedness(&hn); member(v, "xyz_handedness", b, string(!b ? "" : hn == IDimensionZInfo::XyzHandedness::LeftHanded ? "left_handed" : hn == IDimensionZInfo::XyzHandedness::RightHanded ? "right_handed" : "undefined")); IDimensionZInfo::ZaxisDirection zd; b = z->TryGetZAxisDirection(&zd); member(v, "z_axis_direction", b, string(!b ? "" : zd == IDimensionZInfo::ZaxisDirection::FromSpecimenToObjective ? "from_specimen_to_objective" : zd == IDimensionZInfo::ZaxisDirection::FromObjectiveToSpecimen ? "from_objective_to_specimen" : "undefined")); IDimensionZInfo::ZDriveMode dm; b = z->TryGetZDriveMode(&dm); member(v, "z_drive_mode", b, string(!b ? "" : dm == IDimensionZInfo::ZDriveMode::Step ? "step" : "continuous")); b = z->TryZDriveSpeed(&x); member(v, "z_drive_speed", b, x); ++done; }
            else if (k == kDimensionT) { auto z = d->m->GetDimensionTInfo(); judge("time information", c, z != nullptr); if (!z) break; auto v = json("time information", t); XmlDateTime st; bool b = z->TryGetStartTime(&st); member(v, "start_time", b, b ? st.ToXmlString() : string()); double x = 0, y = 0; b = z->TryGetIntervalDefinition(&x, &y); sameList(v, "interval_definition", b, { x, y }); vector<double> l; const bool lb = !b && z->TryGetOffsetsList(&l); sameList(v, "offset_list", lb, l); ++done; }
            else if (k == kDimensionC) { auto z = d->m->GetDimensionChannelsInfo(); judge("channel information", c, z != nullptr); if (!z) break; auto v = json("channel information", t); PBT_REQUIRE("channels", (int)v.o.size() == z->GetChannelCount(), v.o.size(), " channels instead of ", z->GetChannelCount()); for (int n = 0; n < z->GetChannelCount(); ++n) { auto x = v.get(to_string(n)); PBT_REQUIRE("channels", x, "channel ", n, " is missing"); sameChannel(*x, *z->GetChannel(n)); } ++done; }
            else PBT_REQUIRE("dimension-index", c != OK_, "information about dimension ", k, " is said to be delivered, but is not");
            break;
        }
        case oDisplay: { if (badHandle(o, &di, [&](ObjectHandle x) { return libCZI_CziDocumentInfoGetDisplaySettings(x, &h); })) break; auto d = sel(di, o.a); if (!d) break; if (nul) { CODE("null", libCZI_CziDocumentInfoGetDisplaySettings(d->h, nullptr), ARG); break; } shared_ptr<IDisplaySettings> m; const bool ok = cpp([&] { m = d->m->GetDisplaySettings(); }) && m; const EC c = libCZI_CziDocumentInfoGetDisplaySettings(d->h, &h); if (ok) { CODE("display", c, OK_); ds.push_back({ h, m }); ++done; } else PBT_REQUIRE("display-absent", c != OK_, "display settings are said to be delivered, but there are none"); break; }
        case oChDisplay: { if (badHandle(o, &ds, [&](ObjectHandle x) { return libCZI_DisplaySettingsGetChannelDisplaySettings(x, 0, &h); })) break; auto d = sel(ds, o.a); if (!d) break; if (nul) { CODE("null", libCZI_DisplaySettingsGetChannelDisplaySettings(d->h, 0, nullptr), ARG); break; } const int k = index(o.b, 3); auto m = d->m->GetChannelDisplaySettings(k); CODE("channel-display", libCZI_DisplaySettingsGetChannelDisplaySettings(d->h, k, &h), m ? OK_ : IDX); if (m) cd.push_back({ h, m }); break; }
        case oFill:
        {
            CompositionChannelInfoInterop c; if (badHandle(o, &ds, [&](ObjectHandle x) { return libCZI_CompositorFillOutCompositionChannelInfoInterop(x, 0, false, &c); })) break; auto d = sel(ds, o.a); if (!d) break; if (nul) { CODE("null", libCZI_CompositorFillOutCompositionChannelInfoInterop(d->h, 0, true, nullptr), ARG); break; }
            const int k = index(o.b, 3); const bool six = o.c & 1; auto m = d->m->GetChannelDisplaySettings(k); const EC e = libCZI_CompositorFillOutCompositionChannelInfoInterop(d->h, k, six, &c); if (!m) { PBT_REQUIRE("fill-absent", e != OK_, "composition settings of channel ", k, " which does not exist"); break; } CODE("fill", e, OK_); ++done;
            if (!m->GetIsEnabled()) { PBT_REQUIRE("fill", c.weight == 0 && c.look_up_table_element_count == 0, "a disabled channel has weight ", c.weight); break; }
            float b = -1, w = -1; m->GetBlackWhitePoint(&b, &w); Rgb8Color tc{}; const bool tint = m->TryGetTintingColorRgb8(&tc); PBT_REQUIRE("fill", c.weight == m->GetWeight() && c.black_point == b && c.white_point == w && (c.enable_tinting != 0) == tint && (!tint || (c.tinting_color_r == tc.r && c.tinting_color_g == tc.g && c.tinting_color_b == tc.b)), "composition settings of channel ", k, " differ: weight ", c.weight, " points ", c.black_point, " ", c.white_point, " tint ", (int)c.enable_tinting);
            vector<uint8_t> lut; const int n = six ? 65536 : 256; float gm = 1; vector<IDisplaySettings::SplineData> sp; switch (m->GetGradationCurveMode()) { case IDisplaySettings::GradationCurveMode::Gamma: m->TryGetGamma(&gm); lut = Utils::Create8BitLookUpTableFromGamma(n, b, w, gm); break; case IDisplaySettings::GradationCurveMode::Spline: m->TryGetSplineData(&sp); lut = Utils::Create8BitLookUpTableFromSplines(n, b, w, sp); break; default: break; }
            PBT_REQUIRE("fill-lut", (size_t)c.look_up_table_element_count == lut.size() && (lut.empty() || memcmp(c.ptr_look_up_table, lut.data(), lut.size()) == 0), "the look-up table of channel ", k, " differs (", c.look_up_table_element_count, " entries)"); libCZI_Free((void*)c.ptr_look_up_table); break;
        }
        case oAccessor: { if (badHandle(o, &reader, [&](ObjectHandle x) { return libCZI_CreateSingleChannelTileAccessor(x, &h); })) break; if (nul) { CODE("null", libCZI_CreateSingleChannelTileAccessor(reader, nullptr), ARG); break; } shared_ptr<ISingleChannelScalingTileAccessor> m; const bool ok = cpp([&] { m = mir->CreateSingleChannelScalingTileAccessor(); }); judge("CreateSingleChannelTileAccessor", libCZI_CreateSingleChannelTileAccessor(reader, &h), ok); if (ok) { ac.push_back({ h, m }); ++done; } break; }
        case oCalc: { IntRectInterop r{ 0, 0, 5, 5 }; IntSizeInterop z{}; if (badHandle(o, &ac, [&](ObjectHandle x) { return libCZI_SingleChannelTileAccessorCalcSize(x, &r, 1, &z); })) break; auto a = sel(ac, o.a); if (!a) break; if (nul) { CODE("null", libCZI_SingleChannelTileAccessorCalcSize(a->h, nullptr, 1, &z), ARG); CODE("null", libCZI_SingleChannelTileAccessorCalcSize(a->h, &r, 1, nullptr), ARG); break; } r = { (int)(o.b % 100), 0, (int)(o.b % 1000), (int)(o.c % 1000) }; const float zoom = (float)(1 + o.c % 100) / 100; auto m = a->m->CalcSize(IntRect{ r.x, r.y, r.w, r.h }, zoom); CODE("calc", libCZI_SingleChannelTileAccessorCalcSize(a->h, &r, zoom, &z), OK_); PBT_REQUIRE("calc", z.w == (int)m.w && z.h == (int)m.h, "CalcSize delivers ", z.w, "x", z.h, " instead of ", m.w, "x", m.h); break; }
        case oGet:
        {
            IntRectInterop r{ box.x, box.y, box.w, box.h }; CoordinateInterop co = toInterop(planes[o.b % planes.size()]); if (badHandle(o, &ac, [&](ObjectHandle x) { return libCZI_SingleChannelTileAccessorGet(x, &co, &r, 1, nullptr, &h); })) break; auto a = sel(ac, o.a); if (!a) break; if (nul) { CODE("null", libCZI_SingleChannelTileAccessorGet(a->h, nullptr, &r, 1, nullptr, &h), ARG); CODE("null", libCZI_SingleChannelTileAccessorGet(a->h, &co, nullptr, 1, nullptr, &h), ARG); CODE("null", libCZI_SingleChannelTileAccessorGet(a->h, &co, &r, 1, nullptr, nullptr), ARG); break; }
            if (box.w > 600 || box.h > 600) break; if (o.c % 4 == 1) { r.x += (int)(o.c / 4 % 20); r.y -= 3; r.w = (int)(o.c / 100 % 60); r.h = 1 + (int)(o.c / 7 % 60); } AccessorOptionsInterop op{}; op.back_ground_color_r = (float)(o.c % 11) / 10; op.back_ground_color_g = (float)(o.c % 7) / 6; op.back_ground_color_b = (float)(o.c % 5) / 4; op.sort_by_m = o.c % 2; op.use_visibility_check_optimization = o.c / 2 % 2; static const char* jp[] = { nullptr, "{\"mask_aware\":true}", "{\"mask_aware\":false}", "", "garbage", "{\"mask_aware\":1,\"x\":2}", "{\"other\":true}", "[true]" }; const int j = (int)(o.b / 16 % 8); op.additional_parameters = jp[j]; const bool noOpt = o.c % 9 == 0;
            ISingleChannelScalingTileAccessor::Options mo; mo.Clear(); if (!noOpt) { mo.backGroundColor = { op.back_ground_color_r, op.back_ground_color_g, op.back_ground_color_b }; mo.sortByM = op.sort_by_m; mo.useVisibilityCheckOptimization = op.use_visibility_check_optimization; if (j == 1) mo.maskAware = true; }
            const float zoom = o.c % 3 == 0 ? 1.f : (float)(20 + o.b % 80) / 100; CDimCoordinate c2 = toCoord(coordOf(co)); shared_ptr<IBitmapData> m; const bool ok = cpp([&] { m = a->m->Get(IntRect{ r.x, r.y, r.w, r.h }, &c2, zoom, &mo); }) && m; judge("SingleChannelTileAccessorGet", libCZI_SingleChannelTileAccessorGet(a->h, &co, &r, zoom, noOpt ? nullptr : &op, &h), ok); if (!ok) break; if (noOpt) { BitmapInfoInterop i{}; CODE("bitmap-info", libCZI_BitmapGetInfo(h, &i), OK_); const auto z = m->GetSize(); PBT_REQUIRE("bitmap-info", i.width == z.w && i.height == z.h && i.pixelType == (int)m->GetPixelType(), "a composition without options has another size or type"); CODE("release", libCZI_ReleaseBitmap(h), OK_); /* pixels without a tile are undefined then */ } else { addBitmap(h, m); ++done; } break;
        }
        case oBmInfo: { BitmapInfoInterop i; if (badHandle(o, &bm, [&](ObjectHandle x) { return libCZI_BitmapGetInfo(x, &i); })) break; auto b = sel(bm, o.a); if (!b) break; if (nul) { CODE("null", libCZI_BitmapGetInfo(b->h, nullptr), ARG); break; } checkBitmap(*b, o.c); break; }
        case oLock: { BitmapLockInfoInterop l; if (badHandle(o, &bm, [&](ObjectHandle x) { return libCZI_BitmapLock(x, &l); })) break; auto b = sel(bm, o.a); if (!b) break; if (nul) { CODE("null", libCZI_BitmapLock(b->h, nullptr), ARG); break; } CODE("lock", libCZI_BitmapLock(b->h, &l), OK_); ++b->locks; for (int y = 0; y < b->img.h; ++y) PBT_REQUIRE("lock", memcmp((const char*)l.ptrDataRoi + (size_t)y * l.stride, b->img.px.data() + (size_t)y * b->img.line(), b->img.line()) == 0, "the locked bitmap differs in line ", y); break; }
        case oUnlock: { if (badHandle(o, &bm, [&](ObjectHandle x) { return libCZI_BitmapUnlock(x); })) break; auto b = sel(bm, o.a); if (!b) break; CODE("unlock", libCZI_BitmapUnlock(b->h), b->locks ? OK_ : LCK); if (b->locks) --b->locks; break; }
        case oCopy: { Exact e(64); if (badHandle(o, &bm, [&](ObjectHandle x) { return libCZI_BitmapCopyTo(x, 1, 1, 0, 8, e.p); })) break; auto b = sel(bm, o.a); if (b) checkBitmap(*b, o.b); break; }
        case oCompose:
        {
            auto b = sel(bm, o.a); if (!b) break; vector<ObjectHandle> hs; vector<CompositionChannelInfoInterop> ci; vector<shared_ptr<IBitmapData>> mb; vector<IBitmapData*> mp; vector<Compositors::ChannelInfo> mi; const int n = 1 + (int)(o.b % 3); vector<vector<uint8_t>> luts;
            for (int k = 0; k < n; ++k)
            {
                Bm& x = bm[(o.a + (uint32_t)k * (o.c % 3)) % bm.size()]; hs.push_back(x.h); CompositionChannelInfoInterop c{}; const uint32_t q = o.c / 16 + (uint32_t)k * 77; c.weight = (float)(q % 5) / 4; c.enable_tinting = q & 1; c.tinting_color_r = (uint8_t)q; c.tinting_color_g = (uint8_t)(q >> 8); c.tinting_color_b = (uint8_t)(q >> 4); c.black_point = (float)(q % 3) / 10; c.white_point = 1 - (float)(q % 7) / 20; const int el = x.img.pt == PixelType::Gray8 || x.img.pt == PixelType::Bgr24 || x.img.pt == PixelType::Bgra32 ? 256 : 65536; if (q % 4 == 3) { luts.emplace_back((size_t)el); for (int z = 0; z < el; ++z) luts.back()[(size_t)z] = (uint8_t)((unsigned)z * (q | 1) >> 3); c.look_up_table_element_count = el; c.ptr_look_up_table = luts.back().data(); }
                ci.push_back(c); auto ub = make_shared<UserBitmap>(x.img.pt, (uint32_t)x.img.w, (uint32_t)x.img.h, 0, 0); ub->put(x.img); mb.push_back(ub); mp.push_back(ub.get()); Compositors::ChannelInfo z; z.Clear(); z.weight = c.weight; z.enableTinting = c.enable_tinting != 0; z.tinting.color = { c.tinting_color_r, c.tinting_color_g, c.tinting_color_b }; z.blackPoint = c.black_point; z.whitePoint = c.white_point; z.lookUpTableElementCount = c.look_up_table_element_count; z.ptrLookUpTable = c.ptr_look_up_table; mi.push_back(z);
            }
            if (nul) { CODE("null", libCZI_CompositorDoMultiChannelComposition(n, nullptr, ci.data(), &h), ARG); CODE("null", libCZI_CompositorDoMultiChannelComposition(n, hs.data(), nullptr, &h), ARG); CODE("null", libCZI_CompositorDoMultiChannelComposition(n, hs.data(), ci.data(), nullptr), ARG); CODE("null", libCZI_CompositorDoMultiChannelComposition(0, hs.data(), ci.data(), &h), ARG); CODE("null", libCZI_CompositorDoMultiChannelComposition(-2, hs.data(), ci.data(), &h), ARG); break; }
            if (o.bad == 1) { hs.back() = 0; const EC e = libCZI_CompositorDoMultiChannelComposition(n, hs.data(), ci.data(), &h); PBT_REQUIRE("null-handle", e == ARG || e == HDL, "a composition with an invalid bitmap handle returns ", e); ++badDone; break; } if (o.bad == 2) { hs.back() = other(&bm, o.c); if (hs.back()) { CODE("wrong-handle", libCZI_CompositorDoMultiChannelComposition(n, hs.data(), ci.data(), &h), HDL); ++badDone; } break; }
            shared_ptr<IBitmapData> m; const bool ok = cpp([&] { m = Compositors::ComposeMultiChannel_Bgr24(n, mp.data(), mi.data()); }) && m; judge("CompositorDoMultiChannelComposition", libCZI_CompositorDoMultiChannelComposition(n, hs.data(), ci.data(), &h), ok); if (ok) { addBitmap(h, m); ++done; } break;
        }
        case oRelSb: release(sb, o, libCZI_ReleaseSubBlock); break;
        case oRelBm: { if (badHandle(o, &bm, libCZI_ReleaseBitmap)) break; if (bm.empty()) break; const size_t k = o.a % bm.size(); if (bm[k].locks) { CODE("release-locked", libCZI_ReleaseBitmap(bm[k].h), LCK); break; } CODE("release", libCZI_ReleaseBitmap(bm[k].h), OK_); bm.erase(bm.begin() + (long)k); break; }
        case oRelAtt: release(at, o, libCZI_ReleaseAttachment); break;
        case oRelMs: release(ms, o, libCZI_ReleaseMetadataSegment); break;
        case oRelDi: release(di, o, libCZI_ReleaseCziDocumentInfo); break;
        case oRelDs: release(ds, o, libCZI_ReleaseDisplaySettings); break;
        case oRelCd: release(cd, o, libCZI_ReleaseChannelDisplaySettings); break;
        case oRelAc: release(ac, o, libCZI_ReleaseCreateSingleChannelTileAccessor); break;
        case oOpenAgain:
        {
            ReaderOpenInfoInterop oi{ stream }; if (badHandle(o, &reader, [&](ObjectHandle x) { oi.streamObject = stream ? stream : sb.empty() ? reader : sb[0].h; return libCZI_ReaderOpen(x, &oi); })) break; if (nul) { CODE("null", libCZI_ReaderOpen(reader, nullptr), ARG); oi.streamObject = 0; CODE("null", libCZI_ReaderOpen(reader, &oi), ARG); oi.streamObject = other(&stream, o.c); if (oi.streamObject) CODE("wrong-handle", libCZI_ReaderOpen(reader, &oi), HDL); break; }
            if (!stream) break; bool ok = cpp([&] { mir->Open(file); }); judge("ReaderOpen", libCZI_ReaderOpen(reader, &oi), ok); break;
        }
        case oReopen: if (badHandle(o, &reader, libCZI_ReleaseReader)) break; closeReader(); open(o.a); break;
        default: break;
        }
    }
    int mirCount() { try { return mir->GetStatistics().subBlockCount; } catch (exception&) { return 2; } }
    int attCount() { try { return mir->GetAttachmentCount(); } catch (exception&) { return 2; } }
    void end()
    {
        if (reader) closeReader();
        for (auto& b : bm) { while (b.locks-- > 0) libCZI_BitmapUnlock(b.h); CODE("release", libCZI_ReleaseBitmap(b.h), OK_); } for (auto& x : sb) CODE("release", libCZI_ReleaseSubBlock(x.h), OK_); for (auto& x : at) CODE("release", libCZI_ReleaseAttachment(x.h), OK_); for (auto& x : ms) CODE("release", libCZI_ReleaseMetadataSegment(x.h), OK_); for (auto& x : di) CODE("release", libCZI_ReleaseCziDocumentInfo(x.h), OK_); for (auto& x : ds) CODE("release", libCZI_ReleaseDisplaySettings(x.h), OK_); for (auto& x : cd) CODE("release", libCZI_ReleaseChannelDisplaySettings(x.h), OK_); for (auto& x : ac) CODE("release", libCZI_ReleaseCreateSingleChannelTileAccessor(x.h), OK_);
        bm.clear(); sb.clear(); at.clear(); ms.clear(); di.clear(); ds.clear(); cd.clear(); ac.clear();
        for (auto& e : exts) PBT_REQUIRE("stream-closed", e->closed == 1, "an external stream was closed ", e->closed, " times after everything had been released"); if (!path.empty()) unlink(path.c_str());
    }
};
static void history(Gen& g)
{
    shared_ptr<MemStream> file; IntRect box{ 0, 0, 1, 1 }; vector<map<DimensionIndex, int>> planes(1); string what;
    if (g.chance(2, 3)) { POpts po; po.pyramid = g.coin(); po.masks = g.coin(); po.maxTiles = 5; po.jxr = g.chance(1, 3); PDoc p = genPDoc(g, po); for (int k = (int)g.range(0, 3); k > 0; --k) { At a = genAtt(g, 60); a.name = cat(k, a.name).substr(0, 79); p.doc.atts.push_back(a); } p.doc.hasMeta = g.chance(5, 6); if (p.doc.hasMeta) p.doc.xml = g.chance(1, 12) ? genXml(g) : genMetaXml(g); WriteOpts wo; wo.allowDup = true; file = writeDoc(p.doc, wo); box = boundingBox(p); planes.clear(); for (int k = 0; k < 3; ++k) planes.push_back(genPlane(g, p)); what = describe(p) + " " + p.doc.xml; }
    else { DocGen dg; dg.maxTiles = 6; dg.bitmapShaped = g.coin(); Doc d = genDoc(g, dg); if (g.coin()) { d.hasMeta = true; d.xml = genMetaXml(g); } file = writeDoc(d); describe(g, d); }
    vector<Op> ops; const int how = (int)g.below(16); const int n = (int)g.size(4, 60);
    auto rnd = [&] { return (uint32_t)g.below(1u << 24); };
    for (int k = 0; k < n; ++k) { Op o; o.kind = g.chance(1, 3) ? g.of<int>({ oRead, oBitmap, oMeta, oDocInfo, oDimInfo, oAccessor, oGet, oDisplay, oFill, oAttRead, oDimInfo, oCompose }) : (int)g.below(oCount); if (o.kind == oReopen && !g.chance(1, 4)) o.kind = oRead;
        if (g.coin())
        { // something to work on
            auto pre = [&](initializer_list<int> l) { for (int q : l) { Op z; z.kind = q; z.a = rnd(); z.b = rnd(); z.c = rnd(); z.bad = 0; ops.push_back(z); } };
            switch (o.kind) { case oInfo: case oRaw: case oBitmap: pre({ oRead }); break; case oBmInfo: case oLock: case oUnlock: case oCopy: case oCompose: if (g.coin()) pre({ oRead, oBitmap }); else pre({ oAccessor, oGet }); break; case oCalc: case oGet: pre({ oAccessor }); break; case oAttObj: pre({ oAttRead }); break; case oXml: case oDocInfo: pre({ oMeta }); break; case oGeneral: case oScaling: case oDims: case oDimInfo: case oDisplay: pre({ oMeta, oDocInfo }); break; case oChDisplay: case oFill: pre({ oMeta, oDocInfo, oDisplay }); break; default: break; }
        }
        o.a = rnd(); o.b = rnd(); o.c = rnd(); o.bad = g.chance(1, 6) ? (int)g.range(1, 3) : 0; ops.push_back(o); }
    const bool leak = g.chance(1, 6);
    g.d() << what << " stream " << how; for (auto& o : ops) g.d() << "\n  " << opName[o.kind] << " " << o.a << " " << o.b << " " << o.c << (o.bad ? cat(" bad", o.bad) : "");
    size_t done = 0, bad = 0;
    auto once = [&] { Session s; s.file = file; s.box = box; s.planes = planes; s.open((uint32_t)how); for (auto& o : ops) s.step(o); s.end(); done = s.done; bad = s.badDone; };
    once(); if (done >= 3) g.nontrivial(); g.count("calls compared", (int64_t)done); g.count("calls with invalid arguments", (int64_t)bad);
    if (leak) { g.cls("leak-check"); size_t b[4]; for (auto& x : b) { once(); x = __sanitizer_get_current_allocated_bytes(); } PBT_REQUIRE("leak", !(b[1] > b[0] && b[2] > b[1] && b[3] > b[2]), "the memory in use grows with each run of the same calls: ", b[1] - b[0], ", ", b[2] - b[1], ", ", b[3] - b[2], " bytes"); }
}

// ------------------------------------------------------------------------------------------------------ writing
static void writing(Gen& g)
{
    DocGen dg; dg.maxTiles = 6; dg.maxAtts = 3; dg.bitmapShaped = g.chance(1, 2); Doc d = genDoc(g, dg); if (g.chance(1, 3)) { POpts po; po.maxTiles = 5; po.masks = g.coin(); PDoc p = genPDoc(g, po); d.sbs = p.doc.sbs; }
    describe(g, d);
    static const char* opt[] = { nullptr, "{\"allow_duplicate_subblocks\" : true}", "{\"allow_duplicate_subblocks\":false}", "{}" }; const int oi = (int)g.below(4); CZIWriterOptions wo; wo.allow_duplicate_subblocks = oi == 1; 
    Ext ext{ make_shared<MemStream>() }; string path; OutputStreamObjectHandle out = 0; const int how = g.chance(1, 6) ? 1 + (int)g.below(2) : 0;
    if (how == 0) out = openExtOut(ext); else { path = pbt::scratchDir() + "/p23w.czi"; if (g.coin()) ofstream(path, ios::binary) << "something that was there before"; if (how == 1) CODE("out", libCZI_CreateOutputStreamForFileUTF8(path.c_str(), true, &out), OK_); else CODE("out", libCZI_CreateOutputStreamForFileWide(wstring(path.begin(), path.end()).c_str(), true, &out), OK_); OutputStreamObjectHandle no = 5; PBT_REQUIRE("overwrite", libCZI_CreateOutputStreamForFileUTF8(path.c_str(), false, &no) != OK_ && no == 0, "an existing file is opened for writing although overwriting was not asked for"); }
    CziWriterObjectHandle w = 0; CODE("null", libCZI_CreateWriter(nullptr, nullptr), ARG); CODE("create-writer", libCZI_CreateWriter(&w, opt[oi]), OK_);
    auto mf = make_shared<MemStream>(); auto mw = CreateCZIWriter(&wo); auto wi = make_shared<CCziWriterInfo>(); string par; bool hasGuid = false; const bool any = g.chance(3, 4); bool info = false; size_t resAtt = 0, resSb = 0, resMeta = 0;
    if (any)
    {
        auto add = [&](const string& s) { par += (par.empty() ? "" : ",") + s; info = true; };
        if (g.coin()) { string t = guidStr(d.guid); t.erase(remove_if(t.begin(), t.end(), [](char c) { return c == '{' || c == '}'; }), t.end()); char b[40]; const GUID& q = d.guid; snprintf(b, sizeof b, g.coin() ? "%08x-%04x-%04x-%02x%02x-%02x%02x%02x%02x%02x%02x" : "%08X-%04X-%04X-%02X%02X-%02X%02X%02X%02X%02X%02X", q.Data1, q.Data2, q.Data3, q.Data4[0], q.Data4[1], q.Data4[2], q.Data4[3], q.Data4[4], q.Data4[5], q.Data4[6], q.Data4[7]); add("\"file_guid\":\"" + (g.chance(1, 3) ? "{" + string(b) + "}" : string(b)) + "\""); wi->SetFileGuid(d.guid); hasGuid = true; }
        if (g.coin()) { resAtt = (size_t)g.range(0, 9000); add(cat("\"reserved_size_attachments_directory\" : ", resAtt)); wi->SetReservedSizeForAttachmentsDirectory(true, resAtt); } if (g.coin()) { resSb = (size_t)g.range(0, 9000); add(cat("\"reserved_size_subblock_directory\":", resSb)); wi->SetReservedSizeForSubBlockDirectory(true, resSb); } if (g.coin()) { resMeta = (size_t)g.range(0, 50000); add(cat("\"reserved_size_metadata_segment\":", resMeta)); wi->SetReservedSizeForMetadataSegment(true, resMeta); }
        if (g.chance(1, 3)) { const int lo = (int)g.range(0, 5), hi = (int)g.range(5, 100); add(cat("\"minimum_m_index\":", lo, ",\"maximum_m_index\":", hi)); wi->SetMIndexBounds(lo, hi); }
        par = "{" + par + "}";
    }
    g.d() << " options " << (opt[oi] ? opt[oi] : "null") << " parameters " << par;
    auto cpp = [&](auto f) { try { f(); return true; } catch (exception&) { return false; } };
    auto agree = [&](const char* what, EC c, bool ok) { PBT_REQUIRE("agreement", (c == OK_) == ok, what, " returns ", c, ", the C++ call ", ok ? "succeeds" : "fails"); return ok; };
    CODE("null", libCZI_WriterCreate(0, out, nullptr), ARG); CODE("null", libCZI_WriterCreate(w, 0, nullptr), ARG); CODE("wrong-handle", libCZI_WriterCreate(out, out, nullptr), HDL); CODE("wrong-handle", libCZI_WriterCreate(w, w, nullptr), HDL); CODE("null", libCZI_WriterAddSubBlock(w, nullptr), ARG); CODE("null", libCZI_WriterAddAttachment(w, nullptr), ARG); CODE("null", libCZI_WriterWriteMetadata(w, nullptr), ARG);
    const bool early = g.chance(1, 10); auto create = [&] { agree("WriterCreate", libCZI_WriterCreate(w, out, any ? par.c_str() : nullptr), cpp([&] { mw->Create(mf, info ? static_pointer_cast<ICziWriterInfo>(wi) : nullptr); })); }; if (!early) create();
    size_t okTiles = 0, comp = 0;
    auto addSb = [&](const Sb& s)
    {
        AddSubBlockInfoInterop a; memset(&a, 0x77, sizeof a); a.coordinate = toInterop(s.dims); a.m_index_valid = s.mValid; if (s.mValid) a.m_index = s.m; a.x = s.x; a.y = s.y; a.logical_width = s.w; a.logical_height = s.h; a.physical_width = s.pw; a.physical_height = s.ph; a.pixel_type = (int)s.pt; a.compression_mode_raw = s.comp; a.size_metadata = (uint32_t)s.meta.size(); a.metadata = s.meta.data(); a.size_attachment = (uint32_t)s.att.size(); a.attachment = s.att.data();
        const auto mode = Utils::CompressionModeFromRawCompressionIdentifier(s.comp);
        auto base = [&](AddSubBlockInfoBase& b) { b.Clear(); fillBase(b, s); b.pyramid_type = SubBlockPyramidType::None; };
        if (mode == CompressionMode::UnCompressed)
        {
            if (!isBitmapShaped(s)) return; const uint32_t line = (uint32_t)(bpp(s.pt) * s.pw), stride = line + (uint32_t)g.below(3) * 4; Img im; im.pt = s.pt; im.w = s.pw; im.h = s.ph; im.px = s.data; Exact e(stridedSize(im, stride)); toStrided(im, stride, e); a.stride = stride; a.data = e.p; a.size_data = (uint32_t)e.n;
            if (g.chance(1, 5) && e.n > 0) { AddSubBlockInfoInterop s2 = a; Exact small(g.chance(1, 2) ? e.n - 1 : e.n / 2); memcpy(small.p, e.p, small.n); s2.data = small.p; s2.size_data = (uint32_t)small.n; const EC c = libCZI_WriterAddSubBlock(w, &s2); PBT_REQUIRE("small-buffer", c != OK_, "a tile is accepted although its data are too short"); g.cls("short-data"); } if (g.chance(1, 10) && line > 1 && s.ph > 1) { AddSubBlockInfoInterop s2 = a; s2.stride = line - 1; PBT_REQUIRE("small-stride", libCZI_WriterAddSubBlock(w, &s2) != OK_, "a tile is accepted although its stride is too small"); }
            AddSubBlockInfoStridedBitmap b; base(b); b.Clear(); fillBase(b, s); b.pyramid_type = SubBlockPyramidType::None; b.ptrBitmap = e.p; b.strideBitmap = stride; b.ptrSbBlkMetadata = s.meta.data(); b.sbBlkMetadataSize = (uint32_t)s.meta.size(); b.ptrSbBlkAttachment = s.att.data(); b.sbBlkAttachmentSize = (uint32_t)s.att.size(); const bool ok = cpp([&] { mw->SyncAddSubBlock(b); }); agree("WriterAddSubBlock (uncompressed)", libCZI_WriterAddSubBlock(w, &a), ok); okTiles += ok;
        }
        else
        {
            Exact e(s.data.size()); if (!s.data.empty()) memcpy(e.p, s.data.data(), s.data.size()); a.data = e.p; a.size_data = (uint32_t)e.n; AddSubBlockInfoMemPtr b; b.Clear(); fillBase(b, s); b.pyramid_type = SubBlockPyramidType::None; b.ptrData = e.p; b.dataSize = (uint32_t)e.n; b.ptrSbBlkMetadata = s.meta.data(); b.sbBlkMetadataSize = (uint32_t)s.meta.size(); b.ptrSbBlkAttachment = s.att.data(); b.sbBlkAttachmentSize = (uint32_t)s.att.size(); const bool ok = cpp([&] { mw->SyncAddSubBlock(b); }); agree("WriterAddSubBlock (compressed)", libCZI_WriterAddSubBlock(w, &a), ok); okTiles += ok; comp += ok;
        }
    };
    auto addAtt = [&](const At& at) { AddAttachmentInfoInterop a{}; memcpy(a.guid, &at.guid, 16); memcpy(a.contentFileType, at.type.data(), min<size_t>(8, at.type.size())); memcpy(a.name, at.name.data(), min<size_t>(80, at.name.size())); a.size_attachment_data = (uint32_t)at.data.size(); a.attachment_data = at.data.data(); const bool ok = cpp([&] { mw->SyncAddAttachment(toAddAtt(at)); }); agree("WriterAddAttachment", libCZI_WriterAddAttachment(w, &a), ok); };
    vector<int> order; for (size_t k = 0; k < d.sbs.size(); ++k) order.push_back((int)k); for (size_t k = 0; k < d.atts.size(); ++k) order.push_back(1000 + (int)k); if (d.hasMeta) order.push_back(2000); if (g.chance(1, 4) && !d.sbs.empty()) order.push_back((int)g.below(d.sbs.size())); if (g.coin()) g.shuffle(order); bool created = !early, released = false;
    for (int k : order)
    {
        if (k < 1000) addSb(d.sbs[(size_t)k]); else if (k < 2000) addAtt(d.atts[(size_t)k - 1000]); else { WriteMetadataInfoInterop m{ (uint32_t)d.xml.size(), d.xml.data() }; const bool ok = cpp([&] { mw->SyncWriteMetadata(toWriteMeta(d.xml, Bytes())); }); agree("WriterWriteMetadata", libCZI_WriterWriteMetadata(w, &m), ok); }
        if (!created && g.coin()) { create(); created = true; } if (created && !released && g.chance(1, 4)) { CODE("release", libCZI_ReleaseOutputStream(out), OK_); released = true; }
    }
    if (!created) create();
    const bool closed = cpp([&] { mw->Close(); }); agree("WriterClose", libCZI_WriterClose(w), closed); if (g.chance(1, 4)) agree("second WriterClose", libCZI_WriterClose(w), cpp([&] { mw->Close(); }));
    CODE("null", libCZI_WriterClose(0), ARG); CODE("null", libCZI_ReleaseWriter(0), ARG); if (!released) { CODE("wrong-handle", libCZI_WriterClose(out), HDL); CODE("wrong-handle", libCZI_ReleaseWriter(out), HDL); CODE("wrong-handle", libCZI_ReleaseOutputStream(w), HDL); CODE("release", libCZI_ReleaseOutputStream(out), OK_); } CODE("release", libCZI_ReleaseWriter(w), OK_);
    if (how == 0) PBT_REQUIRE("stream-closed", ext.closed == 1, "the external output stream was closed ", ext.closed, " times");
    Bytes got = ext.m->b; if (how) { ifstream f(path, ios::binary); got.assign(istreambuf_iterator<char>(f), istreambuf_iterator<char>()); unlink(path.c_str()); }
    if (!closed) return; auto rc = openReader(make_shared<MemStream>(got)), rm = openReader(mf); Doc a = readDoc(*rc), b = readDoc(*rm); readMetaOf(*rc, a); readMetaOf(*rm, b); compareContent("written by the C interface", b, a); PBT_REQUIRE("metadata", a.hasMeta == b.hasMeta && a.xml == b.xml, "the metadata differ: ", a.xml.substr(0, 100), " instead of ", b.xml.substr(0, 100));
    PBT_REQUIRE("size", got.size() == mf->b.size(), "the file has ", got.size(), " bytes, the one written by the C++ interface ", mf->b.size()); if (hasGuid) { const auto q = rc->GetFileHeaderInfo().fileGuid; PBT_REQUIRE("guid", memcmp(&q, &d.guid, 16) == 0, "the file has the GUID ", guidStr(q), " instead of ", guidStr(d.guid)); PBT_REQUIRE("bytes", got == mf->b, "the file differs from the one written by the C++ interface"); g.cls("bytes-compared"); }
    if (okTiles + d.atts.size() > 0) g.nontrivial(); if (comp) g.cls("compressed"); g.cls(how == 0 ? "external" : "file");
}

// ------------------------------------------------------------------------------- external streams that fail
static void failing(Gen& g)
{
    POpts po; po.maxTiles = 4; po.jxr = false; PDoc p = genPDoc(g, po); At at = genAtt(g, 50); p.doc.atts.push_back(at); p.doc.hasMeta = true; p.doc.xml = "<ImageDocument><Metadata/></ImageDocument>"; WriteOpts wo; wo.allowDup = true; auto file = writeDoc(p.doc, wo); auto ref = openReader(file); const int n = (int)p.doc.sbs.size(); const bool write = g.coin(); const int kind = (int)g.below(4);
    vector<Bytes> want; for (int i = 0; i < n; ++i) { size_t z = 0; auto s = ref->ReadSubBlock(i); auto q = s->GetRawData(ISubBlock::Data, &z); want.push_back(raw(q, z)); }
    bool hit = false; int64_t accesses = 0;
    auto once = [&](int64_t failAt)
    {
        Ext e{ write ? make_shared<MemStream>() : file }; e.failAt = failAt; e.kind = kind; bool allOk = true;
        if (!write)
        {
            auto st = openExt(e); CziReaderObjectHandle r = 0; libCZI_CreateReader(&r); ReaderOpenInfoInterop oi{ st }; EC c = libCZI_ReaderOpen(r, &oi); PBT_REQUIRE("fault-reported", c != OK_ || !e.hit, "opening succeeds although the stream failed"); if (c != OK_) { allOk = false; c = libCZI_ReaderOpen(r, &oi); PBT_REQUIRE("fault-retry", c == OK_, "opening again fails with ", c); }
            for (int i = 0; i < n; ++i) for (int tr = 0; tr < 2; ++tr) { const bool before = e.hit; SubBlockObjectHandle s = 0; c = libCZI_ReaderReadSubBlock(r, i, &s); PBT_REQUIRE("fault-reported", (c == OK_) == (e.hit == before), "reading a tile returns ", c); if (c != OK_) { allOk = false; continue; } uint64_t z = want[(size_t)i].size(); Exact b((size_t)z); libCZI_SubBlockGetRawData(s, 0, &z, b.p); PBT_REQUIRE("fault-content", z == want[(size_t)i].size() && (z == 0 || memcmp(b.p, want[(size_t)i].data(), (size_t)z) == 0), "a tile differs after a fault"); libCZI_ReleaseSubBlock(s); break; }
            for (int tr = 0; tr < 2; ++tr) { bool before = e.hit; AttachmentObjectHandle a = 0; c = libCZI_ReaderReadAttachment(r, 0, &a); PBT_REQUIRE("fault-reported", (c == OK_) == (e.hit == before), "reading an attachment returns ", c); if (c == OK_) libCZI_ReleaseAttachment(a); before = e.hit; MetadataSegmentObjectHandle m = 0; c = libCZI_ReaderGetMetadataSegment(r, &m); PBT_REQUIRE("fault-reported", (c == OK_) == (e.hit == before), "reading the metadata returns ", c); if (c == OK_) libCZI_ReleaseMetadataSegment(m); }
            libCZI_ReleaseInputStream(st); PBT_REQUIRE("stream-closed", e.closed == 0, "the stream is closed while a reader uses it"); libCZI_ReleaseReader(r);
        }
        else
        {
            auto st = openExtOut(e); CziWriterObjectHandle w = 0; libCZI_CreateWriter(&w, "{\"allow_duplicate_subblocks\":true}"); EC c = libCZI_WriterCreate(w, st, nullptr); PBT_REQUIRE("fault-reported", (c == OK_) == !e.hit, "WriterCreate returns ", c);
            if (c == OK_) { for (auto& s : p.doc.sbs) { AddSubBlockInfoInterop a{}; a.coordinate = toInterop(s.dims); a.m_index_valid = s.mValid; a.m_index = s.m; a.x = s.x; a.y = s.y; a.logical_width = s.w; a.logical_height = s.h; a.physical_width = s.pw; a.physical_height = s.ph; a.pixel_type = (int)s.pt; a.compression_mode_raw = s.comp; a.data = s.data.data(); a.size_data = (uint32_t)s.data.size(); a.stride = (uint32_t)(bpp(s.pt) * s.pw); const bool before = e.hit; c = libCZI_WriterAddSubBlock(w, &a); PBT_REQUIRE("fault-reported", (c == OK_) == (e.hit == before), "adding a tile returns ", c); } const bool before = e.hit; c = libCZI_WriterClose(w); PBT_REQUIRE("fault-reported", (c == OK_) == (e.hit == before), "WriterClose returns ", c); }
            libCZI_ReleaseWriter(w); libCZI_ReleaseOutputStream(st);
        }
        PBT_REQUIRE("stream-closed", e.closed == 1, "the external stream was closed ", e.closed, " times"); accesses = e.n; hit = e.hit; (void)allOk;
    };
    once(-1); const int64_t at0 = (int64_t)g.below((uint64_t)accesses); g.d() << (write ? "writing" : "reading") << " fails at access " << at0 << " of " << accesses << " kind " << kind; once(at0); PBT_REQUIRE("fault", hit, "the fault did not happen"); g.nontrivial(); g.cls(write ? "write" : "read"); g.cls(kind & 1 ? "with-message" : "without-message");
    if (g.chance(1, 3)) { size_t b[4]; for (auto& x : b) { once(at0); x = __sanitizer_get_current_allocated_bytes(); } PBT_REQUIRE("leak", !(b[1] > b[0] && b[2] > b[1] && b[3] > b[2]), "the memory in use grows with each run: ", b[1] - b[0], ", ", b[2] - b[1], ", ", b[3] - b[2], " bytes"); g.cls("leak-check"); }
}

// ------------------------------------------------------------------------------- everything that needs no document
static void misc(Gen& g)
{
    LibCZIVersionInfoInterop v{}; CODE("null", libCZI_GetLibCZIVersionInfo(nullptr), ARG); CODE("version", libCZI_GetLibCZIVersionInfo(&v), OK_); int a, b, c, d; GetLibCZIVersion(&a, &b, &c, &d); PBT_REQUIRE("version", v.major == a && v.minor == b && v.patch == c && v.tweak == d, "the version differs");
    LibCZIBuildInformationInterop bi{}; CODE("null", libCZI_GetLibCZIBuildInformation(nullptr), ARG); CODE("build", libCZI_GetLibCZIBuildInformation(&bi), OK_); BuildInformation q; GetLibCZIBuildInformation(q); auto same = [&](char* p, const string& s) { PBT_REQUIRE("build", string(p ? p : "") == s, "build information ", p ? p : "", " instead of ", s); libCZI_Free(p); }; same(bi.compilerIdentification, q.compilerIdentification); same(bi.repositoryUrl, q.repositoryUrl); same(bi.repositoryBranch, q.repositoryBranch); same(bi.repositoryTag, q.repositoryTag);
    void* p = &p; CODE("alloc", libCZI_AllocateMemory(10, nullptr), ARG); CODE("alloc", libCZI_AllocateMemory(0, &p), ARG); PBT_REQUIRE("alloc", p == nullptr, "a failed allocation leaves a pointer"); const size_t n = g.size(1, 5000); CODE("alloc", libCZI_AllocateMemory(n, &p), OK_); memset(p, 1, n); libCZI_Free(p); libCZI_Free(nullptr); if (g.chance(1, 20)) CODE("alloc", libCZI_AllocateMemory(1ULL << 60, &p), LibCZIApi_ErrorCode_OutOfMemory);
    int32_t k = -1; CODE("null", libCZI_GetStreamClassesCount(nullptr), ARG); CODE("classes", libCZI_GetStreamClassesCount(&k), OK_); PBT_REQUIRE("classes", k == StreamsFactory::GetStreamClassesCount(), k, " stream classes"); const int i = g.chance(1, 4) ? g.of<int>({ -1, k, INT32_MAX, INT32_MIN }) : (int)g.below((uint64_t)k); InputStreamClassInfoInterop ci{}; StreamsFactory::StreamClassInfo si; const bool there = StreamsFactory::GetStreamInfoForClass(i, si); const EC e = libCZI_GetStreamClassInfo(i, &ci); PBT_REQUIRE("class", (e == OK_) == there, "stream class ", i, " returns ", e); if (there) { same((char*)ci.name, si.class_name); same((char*)ci.description, si.short_description); g.nontrivial(); } CODE("null", libCZI_GetStreamClassInfo(0, nullptr), ARG);
    InputStreamObjectHandle h = 5; CODE("null", libCZI_CreateInputStream(nullptr, nullptr, "x", &h), ARG); CODE("null", libCZI_CreateInputStream("pread_file_inputstream", nullptr, "x", nullptr), ARG); PBT_REQUIRE("null", libCZI_CreateInputStream("pread_file_inputstream", nullptr, nullptr, &h) != OK_, "a stream without a name is created"); PBT_REQUIRE("no-class", libCZI_CreateInputStream("no such class", nullptr, "x", &h) == ARG, "a stream of an unknown class is created");
    const string ef = pbt::scratchDir() + "/exists"; ofstream(ef) << "x"; const bool crt = g.coin(); CODE("bag", libCZI_CreateInputStream(crt ? "c_runtime_file_inputstream" : "pread_file_inputstream", g.of<const char*>({ "", nullptr, "{}", "{\"CurlHttp_Timeout\":7,\"CurlHttp_UserAgent\":\"a\"}", " { } " }), ef.c_str(), &h), OK_); CODE("bag", libCZI_ReleaseInputStream(h), OK_); h = 5;
    PBT_REQUIRE("bag", libCZI_CreateInputStream("pread_file_inputstream", g.of<const char*>({ "{", "[1]", "{\"unknown\":1}", "{\"CurlHttp_Timeout\":\"x\"}", "{\"CurlHttp_FollowLocation\":5}", "true", "{\"CurlHttp_UserAgent\":7}" }), ef.c_str(), &h) == ARG, "a malformed property bag is accepted"); const string nf = pbt::scratchDir() + "/does-not-exist.czi"; PBT_REQUIRE("no-file", libCZI_CreateInputStreamFromFileUTF8(nf.c_str(), &h) != OK_ && h == 0, "a file that does not exist is opened"); h = 5; PBT_REQUIRE("no-file", libCZI_CreateInputStreamFromFileWide(wstring(nf.begin(), nf.end()).c_str(), &h) != OK_ && h == 0, "a file that does not exist is opened");
    CODE("null", libCZI_CreateInputStreamFromFileUTF8(nullptr, &h), ARG); CODE("null", libCZI_CreateInputStreamFromFileUTF8("x", nullptr), ARG); CODE("null", libCZI_CreateInputStreamFromFileWide(nullptr, &h), ARG); CODE("null", libCZI_CreateInputStreamFromFileWide(L"x", nullptr), ARG); CODE("null", libCZI_CreateInputStreamFromExternal(nullptr, &h), ARG); CODE("null", libCZI_CreateReader(nullptr), ARG); CODE("null", libCZI_CreateOutputStreamForFileUTF8(nullptr, false, &h), ARG); CODE("null", libCZI_CreateOutputStreamForFileUTF8("x", false, nullptr), ARG); CODE("null", libCZI_CreateOutputStreamForFileWide(nullptr, false, &h), ARG); CODE("null", libCZI_CreateOutputStreamForFileWide(L"x", false, nullptr), ARG); CODE("null", libCZI_CreateOutputStreamFromExternal(nullptr, &h), ARG);
    for (auto f : { libCZI_ReleaseReader, libCZI_ReleaseInputStream, libCZI_ReleaseSubBlock, libCZI_ReleaseAttachment, libCZI_ReleaseBitmap, libCZI_ReleaseMetadataSegment, libCZI_ReleaseCziDocumentInfo, libCZI_ReleaseOutputStream, libCZI_ReleaseWriter, libCZI_ReleaseCreateSingleChannelTileAccessor, libCZI_ReleaseDisplaySettings, libCZI_ReleaseChannelDisplaySettings }) CODE("null", f(0), ARG);
}
int main(int argc, char** argv)
{
    pbt::Config c; c.property = "P23";
    c.rule = "a case is non-trivial when at least three calls delivered content that was compared with the C++ interface (or a file with content was written, a fault hit, a stream class was described)";
    c.assumptions = { "handles are used only until they are released (using a released handle is undefined)", "numbers in the text of wavelength ranges are compared to 6 digits", "unknown or malformed JSON options of the accessor, the writer and its parameters are ignored as documented or implemented" };
    c.subs = { { "history", 8000, 150000, history }, { "writing", 3000, 150000, writing }, { "failing", 3000, 60000, failing }, { "misc", 500, 5000, misc } };
    return pbt::main(argc, argv, c);
}
