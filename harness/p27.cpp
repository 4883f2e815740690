// P27: what the document's metadata states is what is reported
#include "meta.hpp"
#include "xmltree.hpp"
#include <libCZI_Metadata2.h>
#include <climits>
#include <functional>
#include <set>
using namespace czi;
using namespace std;
using pbt::cat; using xt::Node; using xt::utf8; using xt::show;

// ---------------------------------------------------------------- texts
static wstring wide(const string& s) { return wstring(s.begin(), s.end()); }
/// a number as text; the text is what counts
static string numText(Gen& g, bool nonNeg = false)
{
    double v; switch (g.weighted({ 4, 4, 2 })) { case 0: v = (double)g.range0(-1000, 1000); break; case 1: v = ((double)g.below(1000000000) + 1) * pow(10.0, (double)g.range(-20, 12)); if (g.coin()) v = -v; break; default: v = g.of<double>({ 0.0, 1e-7, 0.1, 1.0 / 3, 123456789012345.0, 1e300, 2.5e-300, 1e15, 0.5, 1e-5, 510.5 }); }
    if (nonNeg) v = fabs(v); char b[420]; const char* f = g.of<const char*>({ "%.17g", "%.15e", "%.3E", "%g" }); if (fabs(v) < 1e12 && fabs(v) > 1e-3 && g.chance(1, 3)) f = "%.6f"; snprintf(b, sizeof b, f, v); return b;
}
static double val(const string& s) { return strtod(s.c_str(), nullptr); }
/// blanks around a text where they have no meaning
static string blanks(Gen& g, const string& s) { if (!g.chance(1, 6)) return s; return g.of<string>({ "", " ", "\n  ", "\t" }) + s + g.of<string>({ "", " ", "\n", "  " }); }
static wstring genStr(Gen& g) { if (g.chance(1, 8)) return L""; return xt::genText(g, 16); }

static Node textNode(const string& name, const wstring& text) { Node n; n.name = wide(name); n.text = text; n.hasText = !text.empty(); return n; }
/// XML text for a tree, with blanks, comments and CDATA sections
static string render(Gen& g, const Node& n)
{
    string s = "<" + utf8(n.name); for (auto& a : n.attrs) s += " " + utf8(a.first) + "=\"" + xt::esc(g, a.second, true) + "\""; if (!n.hasText && n.kids.empty()) return s + (g.coin() ? "/>" : "></" + utf8(n.name) + ">"); s += ">";
    if (n.hasText) { if (g.chance(1, 10)) s += "<!-- c -->"; if (g.chance(1, 8) && n.text.find(L"]]>") == wstring::npos) s += "<![CDATA[" + utf8(n.text) + "]]>"; else s += xt::esc(g, n.text, false); }
    auto nl = [&] { return g.coin() ? g.of<string>({ "\n", " ", "\n  ", "\t" }) : string(); };
    for (auto& k : n.kids) { if (!n.hasText) s += nl(); if (g.chance(1, 12)) s += "<!-- <Gain>1</Gain> -->"; s += render(g, k); } if (!n.hasText) s += nl(); return s + "</" + utf8(n.name) + ">";
}

// ---------------------------------------------------------------- sections: a node under construction, and what its object must deliver
/// names that mean something at their own place (and nothing elsewhere)
static const vector<string>& knownNames() { static const vector<string> v = { "AcquisitionMode", "AiryscanSettings", "Amplitude", "AmplitudeYScan", "AnalyzerAngle", "Attenuation", "Averaging", "AveragingMethod", "AveragingMode", "BeamType", "Binning", "CameraProcessingMode", "ChannelType", "ChannelUnit", "ComponentBitCount", "CondenserContrast", "Const1", "Const2", "Const3", "Const4", "Const5", "Const6", "ContrastMethod", "CorrectionCollar", "CorrectionCollar2", "CorrectionControllerBottomThickness", "CorrectionControllerImagingDepth", "CorrectionControllerMode", "CropOffset", "CylinderLensRef", "DepthOfFocus", "Detector", "DetectorSettings", "Dichroic", "DiffractionEfficiency1", "DiffractionEfficiency2", "DiffractionEfficiency3", "DigitalGain", "DyeDatabaseId", "DyeId", "EMGain", "EffectiveNA", "EffectiveNA_in_x", "EffectiveNA_in_y", "EmissionFilter", "EmissionWavelength", "ExcitationFilter", "ExcitationWavelength", "FastAiryScanSettings", "FilterSetRef", "FlashDuration", "Fluor", "FrameTime", "Frequency", "Gain", "GalvoScannerSettings", "GratingPeriod", "GratingRotation", "GridDescription", "IlluminationObjectiveSettings", "IlluminationType", "Intensity", "IsNlo", "IsTIRFCalibrated", "LaserAttenuatorBleach", "LaserAttenuatorMeas", "LaserAttenuatorState", "LaserBlanking", "LaserScanInfo", "LightPath", "LightSource", "LightSourcesSettings", "LineStep", "LineTime", "Magnification", "Medium", "Mode", "NACondenser", "NADetection", "NALightSheet", "NDFilter", "ObjectiveRef", "Offset", "Offset1Left", "Offset1Right", "Offset2Left", "Offset2Right", "PhotonConversionFactor", "PinholeGeometry", "PinholeSize", "PinholeSizeAiry", "PixelAccuracy", "PixelMaximum", "PixelScaleFactor", "PixelTime", "PixelType", "PockelCellSetting", "PolarizerAngle", "PolarizingSettings", "Ratio", "ReadOutRate", "Reflector", "RefractiveIndex", "ResonanceScannerSettings", "SIMDeviceRef", "SIMSettings", "SPIMDetectionSettings", "SPIMIlluminationSettings", "SampleOffsetX", "SampleOffsetY", "SampleRotation", "ScanDirection", "ScanSpeed", "ScanningMode", "SectionThickness", "Shutter", "TIRFAngle", "TIRFDepthOfPenetration", "TransformationXX", "TransformationXY", "TransformationYX", "TransformationYY", "Transmission", "Type", "UseBrightnessContrastCorrection", "VirtualPinholeSize", "Voltage", "Wavelength", "ZoomX", "ZoomY", "ZoomZ" }; return v; }
struct Stat { int stated = 0, absent = 0, invalid = 0; };
static Stat* st;
template <class I> struct Sect
{
    Gen& g; string what; Node node; vector<function<void(I&)>> checks; int dens; bool ordered = false;
    Sect(Gen& g, const string& w, const string& name) : g(g), what(w), dens((int)g.below(3)) { node.name = wide(name); }
    bool there() { return dens == 0 ? g.chance(1, 8) : dens == 1 ? g.coin() : g.chance(7, 8); }
    template <class T, class M> void absent(const string& n, M get) { const string w = what + "/" + n; checks.push_back([=](I& o) { T v{}; PBT_REQUIRE("absent", !(o.*get)(&v), w, " is reported though the metadata does not state it"); }); }
    template <class T, class M> void expect(const string& n, M get, const T& want, const string& text) { ++st->stated; const string w = what + "/" + n; checks.push_back([=](I& o) { T v{}; const bool b = (o.*get)(&v); PBT_REQUIRE("stated", b && v == want, w, " is stated as \"", text, "\", reported is ", b ? cat(shown(v)) : string("nothing")); PBT_REQUIRE("no-result-wanted", (o.*get)(nullptr), w, " is not reported if no result is wanted"); }); }
    static string shown(double v) { return cat(v); } static string shown(int v) { return cat(v); } static string shown(uint32_t v) { return cat(v); } static string shown(bool v) { return cat(v); } static string shown(const wstring& v) { return show(v); } template <class E> static string shown(const E&) { return "something else"; }
    void put(Node n) { node.kids.push_back(move(n)); }
    template <class M> void dbl(const char* n, M get) { if (!there()) { absent<double>(n, get); return; } const string t = numText(g); put(textNode(n, wide(blanks(g, t)))); expect<double>(n, get, val(t), t); }
    template <class M> void text(const char* n, M get) { if (!there()) { absent<wstring>(n, get); return; } const wstring t = genStr(g); put(textNode(n, t)); expect<wstring>(n, get, t, utf8(t)); }
    template <class M> void integer(const char* n, M get) { if (!there()) { absent<int>(n, get); return; } const int v = g.chance(1, 6) ? g.of<int>({ INT_MAX, INT_MIN, 0, -1 }) : (int)g.range0(-100000, 1000000); put(textNode(n, wide(to_string(v)))); expect<int>(n, get, v, to_string(v)); }
    template <class M> void u32(const char* n, M get) { if (!there()) { absent<uint32_t>(n, get); return; } const uint32_t v = g.chance(1, 4) ? g.of<uint32_t>({ UINT32_MAX, 0x80000000u, 0x7fffffffu, 0 }) : (uint32_t)g.below(100000); put(textNode(n, wide(to_string(v)))); expect<uint32_t>(n, get, v, to_string(v)); }
    template <class M> void boolean(const char* n, M get) { if (!there()) { absent<bool>(n, get); return; } const bool v = g.coin(); const string t = v ? g.of<string>({ "true", "1" }) : g.of<string>({ "false", "0" }); put(textNode(n, wide(t))); expect<bool>(n, get, v, t); }
    /// a reference: the attribute "Id" of the element
    template <class M> void ref(const char* n, M get) { if (!there()) { if (g.chance(1, 3)) put(textNode(n, L"x")); absent<wstring>(n, get); return; } const wstring t = genStr(g); Node k = textNode(n, g.coin() ? L"x" : L""); k.attrs.push_back({ L"Id", t }); if (g.chance(1, 4)) k.attrs.insert(k.attrs.begin() + (int)g.below(2), { L"Name", L"other" }); put(k); expect<wstring>(string(n) + "@Id", get, t, utf8(t)); }
    template <class E, class M> void enm(const char* n, M get, const vector<pair<const char*, E>>& vs)
    {
        if (!there()) { absent<E>(n, get); return; } if (g.chance(1, 8)) { ++st->invalid; string t = g.of<string>({ "", "NoSuchThing", "7", "?" }); if (g.coin()) t = string(vs[g.below(vs.size())].first) + "x"; put(textNode(n, wide(t))); const string w = what + "/" + n; checks.push_back([=](I& o) { E v{}; PBT_REQUIRE("unknown-value", !(o.*get)(&v), w, " is reported though \"", t, "\" is none of its values"); }); return; }
        auto& v = vs[g.below(vs.size())]; ++st->stated; put(textNode(n, wide(v.first))); const string w = what + "/" + n; const string t = v.first; const E want = v.second; checks.push_back([=](I& o) { E x{}; const bool b = (o.*get)(&x); PBT_REQUIRE("stated", b && x == want, w, " is stated as ", t, ", reported is ", b ? cat((int)x) : string("nothing")); });
    }
    /// a section within this section
    template <class J> void sub(const char* n, function<shared_ptr<J>(I&)> get, const function<void(Sect<J>&)>& fill)
    {
        const string w = what + "/" + n; if (!there()) { checks.push_back([=](I& o) { PBT_REQUIRE("absent", !get(o), w, " is delivered though the metadata does not state it"); }); return; }
        Sect<J> s(g, w, n); fill(s); s.finish(); put(s.node); auto cs = s.checks; checks.push_back([=](I& o) { auto p = get(o); PBT_REQUIRE("section", (bool)p, w, " is not delivered"); for (auto& c : cs) c(*p); });
    }
    /// things that have no meaning here, and any order of the elements
    void finish()
    {
        if (g.chance(1, 3)) { const int n = (int)g.range(1, 3); for (int k = 0; k < n; ++k) { Node f; switch (g.below(3)) { case 0: f = xt::genTree(g, 1, g.of<wstring>({ L"Foo", L"Unknown", L"Zz" })); break; case 1: { f.name = g.of<wstring>({ L"Extra", L"Private" }); auto& kn = knownNames(); for (int i = 0; i < 3; ++i) f.kids.push_back(textNode(kn[g.below(kn.size())], L"77")); break; } default: { auto& kn = knownNames(); string nm = kn[g.below(kn.size())]; for (char& c : nm) c = (char)tolower((unsigned char)c); f = textNode(nm + "_", L"88"); } } put(f); } }
        if (ordered) return; if (g.chance(1, 2)) g.shuffle(node.kids);
    }
};

// ---------------------------------------------------------------- channels
using CI = IDimensionChannelInfo;
struct Range { bool single; double a, b; bool openEnd, openStart; };
static string rangeText(Gen& g, Range& r)
{
    const string a = numText(g, true), b = numText(g, true); r = { false, val(a), val(b), false, false }; auto sp = [&] { return g.chance(1, 5) ? string(" ") : string(); };
    switch (g.weighted({ 4, 3, 1, 1 })) { case 0: return sp() + a + sp() + "-" + sp() + b + sp(); case 1: r.single = true; return sp() + a + sp(); case 2: r.openStart = true; return "-" + sp() + b; default: r.openEnd = true; return a + sp() + "-"; }
}
static void spectrum(Sect<CI>& s, const char* n, bool (CI::* get)(SpectrumCharacteristics*) const)
{
    Gen& g = s.g; if (!s.there()) { s.absent<SpectrumCharacteristics>(n, get); return; } Node k; k.name = wide(n); const string w = s.what + "/" + n;
    switch (g.weighted({ 3, 5, 1 }))
    {
    case 0: { const string t = numText(g); k.kids.push_back(textNode("SinglePeak", wide(blanks(g, t)))); ++st->stated; s.checks.push_back([=](CI& o) { SpectrumCharacteristics c; const bool b = (o.*get)(&c); PBT_REQUIRE("spectrum", b && c.type == SpectrumCharacteristics::InformationType::SinglePeak && c.singlePeak == val(t), w, " has its peak at ", t, ", reported is ", b ? cat(c.singlePeak) : string("nothing")); }); break; }
    case 1: { const int m = (int)g.range(1, 4); string t; vector<Range> rs((size_t)m); for (int i = 0; i < m; ++i) t += (i ? "," : "") + rangeText(g, rs[i]); k.kids.push_back(textNode("Ranges", wide(t))); ++st->stated;
        s.checks.push_back([=](CI& o) { SpectrumCharacteristics c; const bool b = (o.*get)(&c); PBT_REQUIRE("spectrum", b && c.type == SpectrumCharacteristics::InformationType::Ranges && c.ranges.size() == rs.size(), w, " states \"", t, "\"; ", b ? cat(c.ranges.size(), " ranges are reported") : string("nothing is reported")); for (size_t i = 0; i < rs.size(); ++i) { auto& x = c.ranges[i]; auto& r = rs[i]; PBT_REQUIRE("spectrum", x.singleValue == r.single && (r.openStart ? x.startOrSingleValue <= 1e-300 : x.startOrSingleValue == r.a) && (r.single || (r.openEnd ? x.end >= 1e300 : x.end == r.b)), w, ", range ", i, " of \"", t, "\" is reported as ", x.singleValue ? "value " : "range ", x.startOrSingleValue, " to ", x.end); } }); break; }
    default: { if (g.coin()) k.kids.push_back(textNode("Ranges", wide(g.of<string>({ "", "abc", "450-abc", "450-500,xx", "450/500", "450-500-600", "45x-50" })))); ++st->invalid; s.checks.push_back([=](CI& o) { SpectrumCharacteristics c; PBT_REQUIRE("unknown-value", !(o.*get)(&c), w, " is reported though no spectrum is stated"); }); }
    }
    s.put(k);
}
static void exposure(Sect<CI>& s)
{
    Gen& g = s.g; const char* n = "ExposureTime"; if (!s.there()) { s.absent<RangeOrSingleValue<uint64_t>>(n, &CI::TryGetExposureTime); return; } const string w = s.what + "/" + n;
    const uint64_t a = g.seed64() >> g.below(64), b = g.seed64() >> g.below(64); auto sp = [&] { return g.chance(1, 5) ? string(" ") : string(); }; const int how = g.weighted({ 4, 3, 1, 1, 1 }); string t; switch (how) { case 0: t = to_string(a); break; case 1: t = to_string(a) + sp() + "-" + sp() + to_string(b); break; case 2: t = "-" + sp() + to_string(b); break; case 3: t = to_string(a) + "-" + sp(); break; default: t = g.of<string>({ "", "abc", "5x", "5-x", "1-2-3", "99999999999999999999999", "7.5-9" }); } t = sp() + t + sp(); s.put(textNode(n, wide(t)));
    if (how == 4) { ++st->invalid; s.checks.push_back([=](CI& o) { RangeOrSingleValue<uint64_t> e{}; PBT_REQUIRE("unknown-value", !o.TryGetExposureTime(&e), w, " is reported for \"", t, "\""); }); return; }
    ++st->stated; s.checks.push_back([=](CI& o) { RangeOrSingleValue<uint64_t> e{}; const bool q = o.TryGetExposureTime(&e); PBT_REQUIRE("exposure", q && e.singleValue == (how == 0) && e.startOrSingleValue == (how == 2 ? 0 : a) && (how == 0 || e.end == (how == 3 ? UINT64_MAX : b)), w, " is stated as \"", t, "\", reported is ", q ? cat(e.singleValue, " ", e.startOrSingleValue, " ", e.end) : string("nothing")); });
}
static string hexColor(Gen& g, Rgb8Color& c) { c = { (uint8_t)g.below(256), (uint8_t)g.below(256), (uint8_t)g.below(256) }; char b[16]; snprintf(b, sizeof b, g.coin() ? "#%02X%02X%02X%02X" : "#%02x%02x%02x%02x", g.coin() ? 255 : (int)g.below(256), c.r, c.g, c.b); return b; }
static string badColor(Gen& g) { return g.of<string>({ "", "#", "red", "FF102030", "#FF10203", "#FF10203G", "#FF 10203", "#-F102030" }); }
static void fillChannel(Sect<CI>& s)
{
    Gen& g = s.g; using T = DimensionChannelChannelType; using A = DimensionChannelAcquisitionMode; using L = DimensionChannelIlluminationType; using C = DimensionChannelContrastMethod; using P = DimensionChannelPinholeGeometry;
    for (int k = 0; k < 2; ++k) { const wchar_t* an = k ? L"Name" : L"Id"; bool (CI::* get)(wstring*) const = &CI::TryGetAttributeId; if (k) get = &CI::TryGetAttributeName; if (g.chance(1, 4)) s.absent<wstring>(string("@") + utf8(an), get); else { const wstring t = genStr(g); s.node.attrs.push_back({ an, t }); s.expect<wstring>(string("@") + utf8(an), get, t, utf8(t)); } }
    s.enm<T>("ChannelType", &CI::TryGetChannelType, { { "Heightmap", T::Heightmap }, { "PalHR", T::PalHR }, { "PalWidefield", T::PalWidefield }, { "SimHR", T::SimHR }, { "SimWidefield", T::SimWidefield }, { "SimDWF", T::SimDWF }, { "AiryScanSum", T::AiryScanSum }, { "AiryScanRawSr", T::AiryScanRawSr }, { "AiryScanRaw", T::AiryScanRaw }, { "AiryScanSr", T::AiryScanSr }, { "AiryScanVp", T::AiryScanVp }, { "AiryScanMb", T::AiryScanMb }, { "AiryScanRingSheppardSum", T::AiryScanRingSheppardSum }, { "OnlineUnmixing", T::OnlineUnmixing }, { "Unspecified", T::Unspecified } });
    s.text("ChannelUnit", &CI::TryGetChannelUnit);
    s.enm<PixelType>("PixelType", &CI::TryGetPixelType, { { "Gray8", PixelType::Gray8 }, { "Gray16", PixelType::Gray16 }, { "Gray32Float", PixelType::Gray32Float }, { "Bgr24", PixelType::Bgr24 }, { "Bgr48", PixelType::Bgr48 }, { "Bgr96Float", PixelType::Bgr96Float }, { "Bgra32", PixelType::Bgra32 }, { "Gray64ComplexFloat", PixelType::Gray64ComplexFloat }, { "Bgr192ComplexFloat", PixelType::Bgr192ComplexFloat }, { "Gray32", PixelType::Gray32 }, { "Gray64Float", PixelType::Gray64Float } });
    s.integer("ComponentBitCount", &CI::TryGetComponentBitCount);
    s.enm<A>("AcquisitionMode", &CI::TryGetAcquisitionMode, { { "WideField", A::WideField }, { "LaserScanningConfocalMicroscopy", A::LaserScanningConfocalMicroscopy }, { "SpinningDiskConfocal", A::SpinningDiskConfocal }, { "SlitScanConfocal", A::SlitScanConfocal }, { "MultiPhotonMicroscopy", A::MultiPhotonMicroscopy }, { "StructuredIllumination", A::StructuredIllumination }, { "SingleMoleculeImaging", A::SingleMoleculeImaging }, { "TotalInternalReflection", A::TotalInternalReflection }, { "FluorescenceLifetime", A::FluorescenceLifetime }, { "SpectralImaging", A::SpectralImaging }, { "FluorescenceCorrelationSpectroscopy", A::FluorescenceCorrelationSpectroscopy }, { "NearFieldScanningOpticalMicroscopy", A::NearFieldScanningOpticalMicroscopy }, { "SecondHarmonicGenerationImaging", A::SecondHarmonicGenerationImaging }, { "PALM", A::PALM }, { "STORM", A::STORM }, { "STED", A::STED }, { "TIRF", A::TIRF }, { "FSM", A::FSM }, { "LCM", A::LCM }, { "SPIM", A::SPIM }, { "SEM", A::SEM }, { "FIB", A::FIB }, { "FIB-SEM", A::FIB_SEM }, { "ApertureCorrelation", A::ApertureCorrelation }, { "Other", A::Other } });
    s.enm<L>("IlluminationType", &CI::TryGetIlluminationType, { { "Transmitted", L::Transmitted }, { "Epifluorescence", L::Epifluorescence }, { "Oblique", L::Oblique }, { "NonLinear", L::NonLinear }, { "Other", L::Other } });
    s.enm<C>("ContrastMethod", &CI::TryGetContrastMethod, { { "Brightfield", C::Brightfield }, { "Phase", C::Phase }, { "DIC", C::DIC }, { "HoffmanModulation", C::HoffmanModulation }, { "ObliqueIllumination", C::ObliqueIllumination }, { "PolarizedLight", C::PolarizedLight }, { "Darkfield", C::Darkfield }, { "Fluorescence", C::Fluorescence }, { "MultiPhotonFluorescence", C::MultiPhotonFluorescence }, { "Other", C::Other } });
    spectrum(s, "IlluminationWavelength", &CI::TryGetIlluminationWavelength); spectrum(s, "DetectionWavelength", &CI::TryGetDetectionWavelength);
    s.dbl("ExcitationWavelength", &CI::TryGetExcitationWavelength); s.dbl("EmissionWavelength", &CI::TryGetEmissionWavelength); s.dbl("EffectiveNA", &CI::TryGetEffectiveNA);
    s.text("DyeId", &CI::TryGetDyeId); s.text("DyeDatabaseId", &CI::TryGetDyeDatabaseId); s.dbl("PinholeSize", &CI::TryGetPinholeSize); s.dbl("PinholeSizeAiry", &CI::TryGetPinholeSizeAiry);
    s.enm<P>("PinholeGeometry", &CI::TryGetPinholeGeometry, { { "Circular", P::Circular }, { "Rectangular", P::Rectangular }, { "Other", P::Other } });
    s.text("Fluor", &CI::TryGetFluor); s.dbl("NDFilter", &CI::TryGetNDFilter); s.integer("PockelCellSetting", &CI::TryGetPocketCellSetting);
    { const string w = s.what + "/Color"; if (!s.there()) s.absent<Rgb8Color>("Color", &CI::TryGetColor); else if (g.chance(1, 6)) { const string t = badColor(g); s.put(textNode("Color", wide(t))); ++st->invalid; s.checks.push_back([=](CI& o) { Rgb8Color c{}; PBT_REQUIRE("unknown-value", !o.TryGetColor(&c), w, " is reported for \"", t, "\""); }); } else { Rgb8Color c; const string t = hexColor(g, c); s.put(textNode("Color", wide(g.chance(1, 6) ? " " + t + "\t" : t))); ++st->stated; s.checks.push_back([=](CI& o) { Rgb8Color r{}; const bool b = o.TryGetColor(&r); PBT_REQUIRE("color", b && r.r == c.r && r.g == c.g && r.b == c.b, w, " is stated as ", t, ", reported is ", b ? cat((int)r.r, ",", (int)r.g, ",", (int)r.b) : string("nothing")); }); } }
    exposure(s); s.dbl("DepthOfFocus", &CI::TryGetDepthOfFocus); s.dbl("SectionThickness", &CI::TryGetSectionThickness); s.text("Reflector", &CI::TryGetReflector); s.text("CondenserContrast", &CI::TryGetCondenserContrast); s.dbl("NACondenser", &CI::TryGetNACondenser);
    // -- the settings below the channel
    using D = IDimensionChannelDetectorSettings; s.sub<D>("DetectorSettings", [](CI& c) { return c.GetDetectorSettings(); }, [](Sect<D>& d) {
        using B = ChannelDetectorSettingsBinning; using S = ChannelDetectorSettingsShutter; using M = ChannelDetectorCameraProcessingMode;
        d.ref("Detector", &D::TryGetDetectorRef); d.enm<B>("Binning", &D::TryGetBinning, { { "1x1", B::_1x1 }, { "2x2", B::_2x2 }, { "4x4", B::_4x4 }, { "8x8", B::_8x8 }, { "Other", B::Other } }); d.enm<S>("Shutter", &D::TryGetShutter, { { "Rolling", S::Rolling }, { "Global", S::Global }, { "Other", S::Other } });
        d.dbl("PhotonConversionFactor", &D::TryGetPhotonConversionFactor); d.dbl("Gain", &D::TryGetGain); d.dbl("DigitalGain", &D::TryGetDigitalGain); d.dbl("Offset", &D::TryGetOffset); d.dbl("EMGain", &D::TryGetEMGain); d.dbl("Voltage", &D::TryGetVoltage); d.dbl("ReadOutRate", &D::TryGetReadOutRate); d.boolean("UseBrightnessContrastCorrection", &D::TryGetUseBrightnessContrastCorrection); d.dbl("PixelMaximum", &D::TryGetPixelMaximum); d.dbl("PixelAccuracy", &D::TryGetPixelAccuracy); d.dbl("PixelScaleFactor", &D::TryGetPixelScaleFactor);
        d.enm<M>("CameraProcessingMode", &D::TryGetCameraProcessingMode, { { "None", M::None }, { "Widefield", M::Widefield }, { "Sectioned", M::Sectioned }, { "RawDataMode", M::RawDataMode } }); });
    using LSS = IDimensionChannelLightSourcesSettings; using LS = IDimensionChannelLightSourcesSetting; s.sub<LSS>("LightSourcesSettings", [](CI& c) { return c.GetLightSourcesSettings(); }, [](Sect<LSS>& l) {
        const int n = (int)l.g.range(0, 3); vector<vector<function<void(LS&)>>> cs; const string w = l.what;
        for (int k = 0; k < n; ++k)
        {
            Sect<LS> x(l.g, cat(l.what, "/LightSourceSettings[", k, "]"), "LightSourceSettings"); x.ref("LightSource", &LS::TryGetLightSourceRef); x.dbl("Wavelength", &LS::TryGetWavelength); x.dbl("Attenuation", &LS::TryGetAttenuation); x.dbl("Transmission", &LS::TryGetTransmission); x.text("Intensity", &LS::TryGetIntensity); x.dbl("FlashDuration", &LS::TryGetFlashDuration); x.dbl("TIRFAngle", &LS::TryGetTIRFAngle); x.dbl("TIRFDepthOfPenetration", &LS::TryGetTIRFDepthOfPenetration); x.boolean("IsTIRFCalibrated", &LS::TryGetIsTIRFCalibrated); x.boolean("IsNlo", &LS::TryGetIsNlo);
            if (!x.there()) x.absent<LS::Polarization>("Polarization", &LS::TryGetPolarization);
            else { Node p; p.name = L"Polarization"; array<bool, 4> has{}; array<double, 4> v{}; for (int i = 0; i < 4; ++i) if ((has[i] = x.g.coin())) { const string t = numText(x.g); v[i] = val(t); p.kids.push_back(textNode(cat("StokesParameter", i + 1), wide(t))); } x.g.shuffle(p.kids); x.put(p); const string pw = x.what; ++st->stated; x.checks.push_back([=](LS& o) { LS::Polarization q; const bool b = o.TryGetPolarization(&q); PBT_REQUIRE("polarization", b, pw, ": the polarization is not reported"); for (int i = 0; i < 4; ++i) PBT_REQUIRE("polarization", q.stokesParameterValid[i] == has[i] && (!has[i] || q.stokesParameter[i] == v[i]), pw, ": Stokes parameter ", i + 1, " is ", q.stokesParameterValid[i] ? cat(q.stokesParameter[i]) : string("absent"), " instead of ", has[i] ? cat(v[i]) : string("absent")); }); }
            x.finish(); l.put(x.node); cs.push_back(x.checks);
        }
        l.checks.push_back([=](LSS& o) { PBT_REQUIRE("light-sources", o.GetLightSourceSettingCount() == (int)cs.size(), w, ": ", o.GetLightSourceSettingCount(), " light sources are reported, stated are ", cs.size()); for (size_t k = 0; k < cs.size(); ++k) { auto p = o.GetLightSourceSetting((int)k); PBT_REQUIRE("section", (bool)p, w, ": light source ", k, " is not delivered"); for (auto& c : cs[k]) c(*p); } }); l.ordered = true; });
    using LP = IDimensionChannelLightPath; s.sub<LP>("LightPath", [](CI& c) { return c.GetLightPath(); }, [](Sect<LP>& l) { l.ref("ExcitationFilter", &LP::TryGetExcitationFilterRef); l.ref("Dichroic", &LP::TryGetDichroicFilterRef); l.ref("EmissionFilter", &LP::TryGetEmissionFilterRef); });
    using LI = IDimensionChannelLaserScanInfo; s.sub<LI>("LaserScanInfo", [](CI& c) { return c.GetLaserScanInfo(); }, [](Sect<LI>& l) {
        using M = DimensionChannelLaserScanScanningMode; using SD = DimensionChannelLaserScanScanDirection; using AM = DimensionChannelLaserScanAveragingMethod; using AO = DimensionChannelLaserScanAveragingMode; using AS = DimensionChannelLaserScanLaserAttenuatorState;
        l.dbl("PixelTime", &LI::TryGetPixelTime); l.dbl("LineTime", &LI::TryGetLineTime); l.dbl("FrameTime", &LI::TryGetFrameTime); l.integer("Averaging", &LI::TryGetAveraging); l.enm<M>("ScanningMode", &LI::TryGetScanningMode, { { "Frame", M::Frame }, { "FastFrame", M::FastFrame }, { "LineSequential", M::LineSequential }, { "Line", M::Line }, { "Spot", M::Spot }, { "Other", M::Other } }); l.dbl("SampleRotation", &LI::TryGetSampleRotation); l.dbl("SampleOffsetX", &LI::TryGetSampleOffsetX); l.dbl("SampleOffsetY", &LI::TryGetSampleOffsetY); l.enm<SD>("ScanDirection", &LI::TryGetScanDirection, { { "Bidirectional", SD::Bidirectional }, { "Unidirectional", SD::Unidirectional } });
        l.dbl("ZoomX", &LI::TryGetZoomX); l.dbl("ZoomY", &LI::TryGetZoomY); l.dbl("ZoomZ", &LI::TryGetZoomZ); l.dbl("CropOffset", &LI::TryGetCropOffset); l.dbl("LaserAttenuatorMeas", &LI::TryGetLaserAttenuatorMeas); l.dbl("LaserBlanking", &LI::TryGetLaserBlanking); l.dbl("LaserAttenuatorBleach", &LI::TryGetLaserAttenuatorBleach); l.u32("LineStep", &LI::TryGetLineStep); l.integer("ScanSpeed", &LI::TryGetScanSpeed);
        l.enm<AM>("AveragingMethod", &LI::TryGetAveragingMethod, { { "Mean", AM::Mean }, { "Sum", AM::Sum }, { "Other", AM::Other } }); l.enm<AO>("AveragingMode", &LI::TryGetAveragingMode, { { "Frame", AO::Frame }, { "Line", AO::Line }, { "Other", AO::Other } }); l.enm<AS>("LaserAttenuatorState", &LI::TryGetLaserAttenuatorState, { { "On", AS::On }, { "Off", AS::Off } }); });
    using SI = IDimensionChannelSPIMIlluminationSettings; s.sub<SI>("SPIMIlluminationSettings", [](CI& c) { return c.GetSPIMIlluminationSettings(); }, [](Sect<SI>& l) {
        using BT = DimensionChannelSPIMIlluminationSettingsBeamType; l.dbl("NALightSheet", &SI::TryGetNALightSheet); l.enm<BT>("BeamType", &SI::TryGetBeamType, { { "Gauss", BT::Gauss }, { "Bessel", BT::Bessel }, { "Other", BT::Other } }); l.ref("CylinderLensRef", &SI::TryGetCylinderLensRef);
        using O = IInstrumentObjectiveSettings; l.sub<O>("IlluminationObjectiveSettings", [](SI& i) { return i.GetIlluminationObjectiveSettings(); }, [](Sect<O>& o) { using M = O::Medium; o.ref("ObjectiveRef", &O::TryGetObjectiveRef); o.enm<M>("Medium", &O::TryGetMedium, { { "Air", M::Air }, { "Oil", M::Oil }, { "Water", M::Water }, { "Glycerol", M::Glycerol }, { "Other", M::Other } }); o.dbl("CorrectionCollar", &O::TryGetCorrectionCollar); o.dbl("CorrectionCollar2", &O::TryGetCorrectionCollar2); o.text("CorrectionControllerMode", &O::TryGetCorrectionControllerMode); o.dbl("CorrectionControllerBottomThickness", &O::TryGetCorrectionControllerBottomThickness); o.dbl("CorrectionControllerImagingDepth", &O::TryGetCorrectionControllerImagingDepth); o.dbl("RefractiveIndex", &O::TryGetRefractiveIndex); });
        using R = ISPIMIlluminationResonanceScannerSettings; l.sub<R>("ResonanceScannerSettings", [](SI& i) { return i.GetResonanceScannerSettings(); }, [](Sect<R>& r) { r.dbl("Amplitude", &R::TryGetAmplitude); });
        using G = ISPIMIlluminationGalvoScannerSettings; l.sub<G>("GalvoScannerSettings", [](SI& i) { return i.GetGalvoScannerSettings(); }, [](Sect<G>& r) { r.dbl("AmplitudeYScan", &G::TryGetAmplitudeYScan); r.dbl("Frequency", &G::TryGetFrequency); r.dbl("Offset1Left", &G::TryGetOffset1Left); r.dbl("Offset1Right", &G::TryGetOffset1Right); r.dbl("Offset2Left", &G::TryGetOffset2Left); r.dbl("Offset2Right", &G::TryGetOffset2Right); }); });
    using SP = IDimensionChannelSPIMDetectionSettings; s.sub<SP>("SPIMDetectionSettings", [](CI& c) { return c.GetSPIMDetectionSettings(); }, [](Sect<SP>& l) { l.dbl("NADetection", &SP::TryGetNADetection); });
    using SM = IDimensionChannelSIMSettings; s.sub<SM>("SIMSettings", [](CI& c) { return c.GetSIMSettings(); }, [](Sect<SM>& l) { l.ref("SIMDeviceRef", &SM::TryGetSIMDeviceRef); l.dbl("GratingPeriod", &SM::TryGetGratingPeriod); l.dbl("GratingRotation", &SM::TryGetGratingRotation); l.text("GridDescription", &SM::TryGetGridDescription); l.text("Reflector", &SM::TryGetReflector); l.ref("FilterSetRef", &SM::TryGetFilterSetRef); l.dbl("DiffractionEfficiency1", &SM::TryGetDiffractionEfficiency1); l.dbl("DiffractionEfficiency2", &SM::TryGetDiffractionEfficiency2); l.dbl("DiffractionEfficiency3", &SM::TryGetDiffractionEfficiency3); });
    using PO = IDimensionChannelPolarizingSettings; s.sub<PO>("PolarizingSettings", [](CI& c) { return c.GetPolarizingSettings(); }, [](Sect<PO>& l) { l.dbl("PolarizerAngle", &PO::TryGetPolarizerAngle); l.dbl("AnalyzerAngle", &PO::TryGetAnalyzerAngle); });
    using AY = IDimensionChannelAiryscanSettings; s.sub<AY>("AiryscanSettings", [](CI& c) { return c.GetAiryscanSettings(); }, [](Sect<AY>& l) {
        using M = AY::Mode; l.enm<M>("Mode", &AY::TryGetMode, { { "SuperResolution", M::SuperResolution }, { "VirtualPinhole", M::VirtualPinhole }, { "MultiBeam", M::MultiBeam }, { "Off", M::Off } }); l.dbl("VirtualPinholeSize", &AY::TryGetVirtualPinholeSize); l.dbl("Magnification", &AY::TryGetMagnification); l.dbl("TransformationXX", &AY::TryGetTransformationXX); l.dbl("TransformationXY", &AY::TryGetTransformationXY); l.dbl("TransformationYX", &AY::TryGetTransformationYX); l.dbl("TransformationYY", &AY::TryGetTransformationYY);
        using F = IFastAiryScanSettings; l.sub<F>("FastAiryScanSettings", [](AY& a) { return a.GetFastAiryScanSettings(); }, [](Sect<F>& f) {
            auto vec = [&](const char* n, bool (F::* get)(F::Vector*)) { if (!f.there()) { f.absent<F::Vector>(n, get); return; } const int m = f.g.weighted({ 1, 1, 6, 1 }); string t; vector<double> v; for (int k = 0; k < m; ++k) { const string x = numText(f.g); v.push_back(val(x)); t += (k ? f.g.of<string>({ " ", "  ", "\n", "\t" }) : string()) + x; } f.put(textNode(n, wide(blanks(f.g, t)))); const string w = f.what + "/" + n; ++st->stated; f.checks.push_back([=](F& o) { F::Vector r{}; const bool b = (o.*get)(&r); PBT_REQUIRE("vector", b == (v.size() >= 2) && (!b || (r.x == v[0] && r.y == v[1])), w, " is stated as \"", t, "\", reported is ", b ? cat(r.x, ",", r.y) : string("nothing")); }); };
            vec("IlluminationLinePixels", &F::TryGetIlluminationLinePixels); vec("IlluminationLine", &F::TryGetIlluminationLine);
            if (!f.there()) f.absent<vector<int>>("FiberMapping", &F::TryGetFiberMapping); else { const int m = (int)f.g.size(0, 40); string t; vector<int> v; for (int k = 0; k < m; ++k) { v.push_back(f.g.chance(1, 10) ? f.g.of<int>({ INT_MAX, INT_MIN }) : (int)f.g.range0(-50, 1000)); t += (k ? f.g.of<string>({ " ", "  ", "\n" }) : string()) + to_string(v.back()); } f.put(textNode("FiberMapping", wide(m ? blanks(f.g, t) : t))); f.expect<vector<int>>("FiberMapping", &F::TryGetFiberMapping, v, t); }
            f.dbl("EffectiveNA_in_x", &F::TryGetEffectiveNAinX); f.dbl("EffectiveNA_in_y", &F::TryGetEffectiveNAinY); }); });
    using RA = IDimensionChannelRatio; s.sub<RA>("Ratio", [](CI& c) { return c.GetRatio(); }, [](Sect<RA>& l) {
        using T2 = RA::Type; l.enm<T2>("Type", &RA::TryGetType, { { "NoOnlineCalculation", T2::NoOnlineCalculation }, { "OnlineRatio", T2::OnlineRatio }, { "OnlineSubtraction", T2::OnlineSubtraction }, { "OnlineSubtractionRatio", T2::OnlineSubtractionRatio }, { "OnlineHillFunction", T2::OnlineHillFunction }, { "OnlineReferenceRatio", T2::OnlineReferenceRatio }, { "OnlineLinearUnmixing", T2::OnlineLinearUnmixing } });
        l.dbl("Const1", &RA::TryGetConst1); l.dbl("Const2", &RA::TryGetConst2); l.dbl("Const3", &RA::TryGetConst3); l.dbl("Const4", &RA::TryGetConst4); l.dbl("Const5", &RA::TryGetConst5); l.dbl("Const6", &RA::TryGetConst6);
        auto src = [&](const char* n, bool (RA::* get)(vector<wstring>*)) { if (!l.there()) { l.absent<vector<wstring>>(n, get); return; } Node k; k.name = wide(n); vector<wstring> v; const int m = (int)l.g.range(0, 4); for (int i = 0; i < m; ++i) { Node c = textNode("ChannelRef", L""); if (!l.g.chance(1, 6)) { v.push_back(genStr(l.g)); c.attrs.push_back({ L"Id", v.back() }); } k.kids.push_back(c); if (l.g.chance(1, 6)) k.kids.push_back(textNode("Other", L"q")); } l.put(k); l.expect<vector<wstring>>(n, get, v, cat(v.size(), " channels")); }; src("Source1", &RA::TryGetSource1); src("Source2", &RA::TryGetSource2); });
}
static Node wrap(Gen& g, const vector<string>& path, Node inner)
{
    for (size_t k = path.size(); k-- > 0;) { Node n; n.name = wide(path[k]); if (g.chance(1, 6)) n.kids.push_back(textNode("Foreign", L"1")); n.kids.push_back(move(inner)); if (g.chance(1, 6)) n.kids.push_back(textNode("Foreign2", L"2")); inner = move(n); }
    return inner;
}
static string prolog(Gen& g) { return g.of<string>({ "", "", "<?xml version=\"1.0\"?>\n", "<?xml version=\"1.0\" encoding=\"utf-8\"?>", "\xEF\xBB\xBF<?xml version=\"1.0\"?>", "<!-- made elsewhere -->\n" }); }
static shared_ptr<ICziMetadata> load(Gen& g, const Node& root, string& x)
{
    x = prolog(g) + render(g, root) + g.of<string>({ "", "\n", " \n" }); if (g.tracing()) g.d() << x; auto md = metaOf(x, g.chance(1, 8)); PBT_REQUIRE("well-formed", md->IsXmlValid(), "well-formed metadata is refused: ", x); return md;
}
static void channel(Gen& g)
{
    Stat stat; st = &stat; const int n = (int)g.range(1, 3); Node chs; chs.name = L"Channels"; vector<vector<function<void(CI&)>>> cs;
    for (int k = 0; k < n; ++k) { Sect<CI> s(g, cat("channel ", k), "Channel"); fillChannel(s); s.finish(); chs.kids.push_back(s.node); cs.push_back(s.checks); if (g.chance(1, 10)) chs.kids.push_back(textNode("NotAChannel", L"")); }
    string x; auto md = load(g, wrap(g, { "ImageDocument", "Metadata", "Information", "Image", "Dimensions" }, chs), x); auto i = md->GetDocumentInfo(); auto ci = i->GetDimensionChannelsInfo(); if (g.chance(1, 4)) { md.reset(); i.reset(); }
    PBT_REQUIRE("channels", (bool)ci && ci->GetChannelCount() == n, n, " channels are stated, reported are ", ci ? cat(ci->GetChannelCount()) : string("none"));
    for (int k = 0; k < n; ++k) { auto c = ci->GetChannel(k); PBT_REQUIRE("channels", (bool)c, "channel ", k, " is not delivered"); for (auto& f : cs[k]) f(*c); }
    if (stat.stated > 5) g.nontrivial(); g.count("stated values", stat.stated); g.count("unknown values", stat.invalid); g.cls(stat.stated < 20 ? "few values" : stat.stated < 100 ? "some values" : "many values");
}

// ---------------------------------------------------------------- document, scaling, dimensions
static const DimensionIndex kDims[] = { DimensionIndex::Z, DimensionIndex::C, DimensionIndex::T, DimensionIndex::R, DimensionIndex::S, DimensionIndex::I, DimensionIndex::H, DimensionIndex::V, DimensionIndex::B };
static const char kDimChar[] = "ZCTRSIHVB";
static Node named(const char* n) { Node k; k.name = wide(n); return k; }
static void document(Gen& g)
{
    Stat stat; st = &stat; vector<function<void(ICziMultiDimensionDocumentInfo&)>> cs; Node meta = named("Metadata"), infoN = named("Information"), image = named("Image"); int stated = 0;
    // general information
    { Node d = named("Document"); using GI = GeneralDocumentInfo; struct F { const char* n; wstring GI::* v; bool GI::* ok; }; static const F f[] = { { "Name", &GI::name, &GI::name_valid }, { "Title", &GI::title, &GI::title_valid }, { "UserName", &GI::userName, &GI::userName_valid }, { "Description", &GI::description, &GI::description_valid }, { "Comment", &GI::comment, &GI::comment_valid }, { "Keywords", &GI::keywords, &GI::keywords_valid }, { "CreationDate", &GI::creationDateTime, &GI::creationDateTime_valid } };
      const bool has = g.chance(3, 4); for (auto& q : f) { const bool h = has && g.coin(); const wstring t = h ? genStr(g) : wstring(); if (h) { d.kids.push_back(textNode(q.n, t)); ++stated; } cs.push_back([=](ICziMultiDimensionDocumentInfo& i) { const GI x = i.GetGeneralDocumentInfo(); PBT_REQUIRE("general", x.*(q.ok) == h && (!h || x.*(q.v) == t), q.n, " is stated as ", h ? show(t) : "(not at all)", ", reported is ", x.*(q.ok) ? show(x.*(q.v)) : "nothing"); }); }
      const bool h = has && g.coin(); const int r = (int)g.range0(-5, 1000); if (h) { d.kids.push_back(textNode("Rating", wide(to_string(r)))); ++stated; } cs.push_back([=](ICziMultiDimensionDocumentInfo& i) { const GI x = i.GetGeneralDocumentInfo(); PBT_REQUIRE("general", x.rating_valid == h && (!h || x.rating == r), "the rating is ", x.rating_valid ? cat(x.rating) : string("absent"), " instead of ", h ? cat(r) : string("absent")); }); if (has) { g.shuffle(d.kids); infoN.kids.push_back(d); } }
    // scaling
    { Node sc = named("Scaling"), it = named("Items"); const bool has = g.chance(3, 4); for (char d : string("XYZ")) { const bool h = has && g.chance(2, 3), hv = h && g.chance(5, 6), hu = h && g.coin(); const string t = numText(g); const wstring u = xt::genText(g, 5); if (h) { Node n = named("Distance"); n.attrs.push_back({ L"Id", wstring(1, (wchar_t)d) }); if (hv) n.kids.push_back(textNode("Value", wide(blanks(g, t)))); if (hu) n.kids.push_back(textNode("DefaultUnitFormat", u)); g.shuffle(n.kids); it.kids.push_back(n); stated += hv + hu; }
          cs.push_back([=](ICziMultiDimensionDocumentInfo& i) { const ScalingInfo a = i.GetScalingInfo(); const ScalingInfoEx b = i.GetScalingInfoEx(); auto ok = [&](double v, bool valid) { return valid == hv && (!hv || v == val(t)); }; PBT_REQUIRE("scaling", ok(a.GetScale(d), a.IsScaleValid(d)) && ok(b.GetScale(d), b.IsScaleValid(d)), "the scaling in ", d, " is ", a.GetScale(d), " / ", b.GetScale(d), " instead of ", hv ? t : string("absent")); const wstring& w = d == 'X' ? b.defaultUnitFormatX : d == 'Y' ? b.defaultUnitFormatY : b.defaultUnitFormatZ; PBT_REQUIRE("scaling-unit", w == (hu ? u : wstring()), "the unit in ", d, " is ", show(w), " instead of ", hu ? show(u) : "none"); }); }
      if (g.chance(1, 4)) { Node n = named("Distance"); n.attrs.push_back({ L"Id", g.of<wstring>({ L"T", L"x", L"" }) }); n.kids.push_back(textNode("Value", L"5")); it.kids.push_back(n); } g.shuffle(it.kids); sc.kids.push_back(it); if (has) meta.kids.push_back(sc); }
    // the extent of the dimensions
    set<DimensionIndex> dims; for (int k = 0; k < 9; ++k) { const bool hs = g.chance(1, 3), hz = g.coin(); const int s = (int)g.range0(-100, 100000), z = (int)g.range(0, 100000); if (hs) image.kids.push_back(textNode(string("Start") + kDimChar[k], wide(to_string(s)))); if (hz) image.kids.push_back(textNode(string("Size") + kDimChar[k], wide(to_string(z)))); stated += hs + hz; if (hs || hz) dims.insert(kDims[k]); const DimensionIndex d = kDims[k]; const char c = kDimChar[k];
        cs.push_back([=](ICziMultiDimensionDocumentInfo& i) { auto x = i.GetDimensionInfo(d); PBT_REQUIRE("dimension", (bool)x == (hs || hz), "dimension ", c, " is ", x ? "" : "not ", "reported"); if (!x) return; int a = -1, b = -1; bool ea = false, eb = false; x->GetInterval(&a, &b); x->GetIntervalIsExplicitlyStated(&ea, &eb); const int ws = hs ? s : 0, we = ws + (hz ? z : 1); PBT_REQUIRE("dimension", a == ws && b == we && ea == hs && eb == hz && x->GetDimension() == d, "dimension ", c, " is reported from ", a, " to ", b, " (stated: ", ea, ",", eb, ") instead of ", ws, " to ", we, " (", hs, ",", hz, ")"); }); }
    cs.push_back([=](ICziMultiDimensionDocumentInfo& i) { auto v = i.GetDimensions(); PBT_REQUIRE("dimensions", set<DimensionIndex>(v.begin(), v.end()) == dims && v.size() == dims.size(), v.size(), " dimensions are enumerated instead of ", dims.size(), " (or others)"); if (dims.size() > 1) { int n = 0; i.EnumDimensions([&](DimensionIndex) { return ++n < 2; }); PBT_REQUIRE("dimensions", n == 2, "the enumeration of dimensions does not stop"); } });
    if (g.chance(1, 3)) { image.kids.push_back(textNode("SizeX", L"100")); image.kids.push_back(textNode("SizeM", L"7")); } g.shuffle(image.kids);
    // Z and T
    Node dn = named("Dimensions"); auto positions = [&](Node& n, int& mode, string& a, string& b, vector<double>& list) { mode = (int)g.below(3); a = numText(g); b = numText(g); if (mode == 1) { Node p = named("Positions"), iv = named("Interval"); iv.kids = { textNode("Start", wide(blanks(g, a))), textNode("Increment", wide(blanks(g, b))) }; g.shuffle(iv.kids); p.kids.push_back(iv); n.kids.push_back(p); ++stated; } if (mode == 2) { Node p = named("Positions"), l = named("List"); const int m = (int)g.size(0, 12); string t; for (int k = 0; k < m; ++k) { const string s = numText(g); list.push_back(val(s)); t += (k ? " " : "") + s; } l.kids.push_back(textNode("Offsets", wide(t))); p.kids.push_back(l); n.kids.push_back(p); ++stated; } };
    { const bool has = g.chance(2, 3); Node z = named("Z"); int mode = 0; string a, b, sp = numText(g), rp = numText(g); vector<double> list; bool hp = false, hsp = false; int hand = -1, dir = -1, drive = -1; static const char* hs[] = { "LeftHanded", "RightHanded", "Undefined" }; static const char* ds[] = { "FromSpecimenToObjective", "FromObjectiveToSpecimen", "Undefined" }; static const char* ms[] = { "Continuous", "Step" }; using ZI = IDimensionZInfo;
      if (has) { positions(z, mode, a, b, list); if ((hp = g.coin())) z.kids.push_back(textNode("StartPosition", wide(blanks(g, rp)))); auto put = [&](const char* n, const char* const* v, int cnt) { if (!g.coin()) return -1; if (g.chance(1, 8)) { z.kids.push_back(textNode(n, L"Nonsense")); return -1; } const int k = (int)g.below((uint64_t)cnt); z.kids.push_back(textNode(n, wide(g.chance(1, 6) ? string(" ") + v[k] + "\t" : string(v[k])))); ++stated; return k; }; hand = put("XYZHandedness", hs, 3); dir = put("ZAxisDirection", ds, 3); drive = put("ZDriveMode", ms, 2); if ((hsp = g.coin())) z.kids.push_back(textNode("ZDriveSpeed", wide(g.chance(1, 6) ? " " + sp + " " : sp))); g.shuffle(z.kids); dn.kids.push_back(z); }
      cs.push_back([=](ICziMultiDimensionDocumentInfo& i) { auto x = i.GetDimensionZInfo(); PBT_REQUIRE("z", (bool)x == has, "information about Z is ", x ? "" : "not ", "delivered"); if (!x) return; double p = 0, q = 0; vector<double> l; PBT_REQUIRE("z-start", x->TryGetReferencePosition(&p) == hp && (!hp || p == val(rp)), "the start position is ", p, " instead of ", hp ? rp : string("absent")); PBT_REQUIRE("z-interval", x->TryGetIntervalDefinition(&p, &q) == (mode == 1) && (mode != 1 || (p == val(a) && q == val(b))), "the interval is ", p, ",", q, " instead of ", mode == 1 ? a + "," + b : string("absent")); PBT_REQUIRE("z-list", x->TryGetPositionList(&l) == (mode == 2) && (mode != 2 || l == list), "the list has ", l.size(), " instead of ", list.size(), " positions, or others"); ZI::XyzHandedness h; ZI::ZaxisDirection d; ZI::ZDriveMode m; static const ZI::XyzHandedness he[] = { ZI::XyzHandedness::LeftHanded, ZI::XyzHandedness::RightHanded, ZI::XyzHandedness::Undefined }; static const ZI::ZaxisDirection de[] = { ZI::ZaxisDirection::FromSpecimenToObjective, ZI::ZaxisDirection::FromObjectiveToSpecimen, ZI::ZaxisDirection::Undefined }; static const ZI::ZDriveMode me[] = { ZI::ZDriveMode::Continuous, ZI::ZDriveMode::Step };
          PBT_REQUIRE("z-handedness", x->TryGetXyzHandedness(&h) == (hand >= 0) && (hand < 0 || h == he[hand]), "the handedness differs from ", hand < 0 ? "absent" : hs[hand]); PBT_REQUIRE("z-direction", x->TryGetZAxisDirection(&d) == (dir >= 0) && (dir < 0 || d == de[dir]), "the direction differs from ", dir < 0 ? "absent" : ds[dir]); PBT_REQUIRE("z-mode", x->TryGetZDriveMode(&m) == (drive >= 0) && (drive < 0 || m == me[drive]), "the drive mode differs from ", drive < 0 ? "absent" : ms[drive]); PBT_REQUIRE("z-speed", x->TryZDriveSpeed(&p) == hsp && (!hsp || p == val(sp)), "the drive speed is ", p, " instead of ", hsp ? sp : string("absent")); }); }
    { const bool has = g.chance(2, 3); Node t = named("T"); int mode = 0; string a, b; vector<double> list; bool hs = false; int Y = (int)g.range(1900, 2100), M = (int)g.range(1, 12), D = (int)g.range(1, 28), h = (int)g.range(0, 23), m = (int)g.range(0, 59), s = (int)g.range(0, 59), zone = (int)g.below(3), oh = (int)g.range(-12, 14), om = g.of<int>({ 0, 30, 45 }); if (oh == 0) om = 0;
      if (has) { positions(t, mode, a, b, list); if ((hs = g.coin())) { char c[80]; snprintf(c, sizeof c, "%04d-%02d-%02dT%02d:%02d:%02d", Y, M, D, h, m, s); string x = c; if (g.coin()) x += "." + string((size_t)g.range(1, 7), (char)g.range('0', '9')); if (zone == 1) x += "Z"; if (zone == 2) { snprintf(c, sizeof c, "%c%02d:%02d", oh < 0 ? '-' : '+', abs(oh), om); x += c; } t.kids.push_back(textNode("StartTime", wide(x))); ++stated; } g.shuffle(t.kids); dn.kids.push_back(t); }
      cs.push_back([=](ICziMultiDimensionDocumentInfo& i) { auto x = i.GetDimensionTInfo(); PBT_REQUIRE("t", (bool)x == has, "information about T is ", x ? "" : "not ", "delivered"); if (!x) return; double p = 0, q = 0; vector<double> l; XmlDateTime d; d.Clear(); const bool got = x->TryGetStartTime(&d); PBT_REQUIRE("t-start", got == hs, "the start time is ", got ? "" : "not ", "reported"); if (hs) PBT_REQUIRE("t-start", d.year == Y && d.mon == M && d.mday == D && d.hour == h && d.min == m && d.sec == s && d.isUTC == (zone == 1) && d.HasTimeZoneOffset() == (zone == 2) && (zone != 2 || (d.offsetHours == oh && d.offsetMinutes == om)), "the start time is reported as ", d.ToXmlString()); PBT_REQUIRE("t-interval", x->TryGetIntervalDefinition(&p, &q) == (mode == 1) && (mode != 1 || (p == val(a) && q == val(b))), "the interval is ", p, ",", q, " instead of ", mode == 1 ? a + "," + b : string("absent")); PBT_REQUIRE("t-list", x->TryGetOffsetsList(&l) == (mode == 2) && (mode != 2 || l == list), "the list has ", l.size(), " instead of ", list.size(), " times, or others"); }); }
    cs.push_back([](ICziMultiDimensionDocumentInfo& i) { PBT_REQUIRE("absent", !i.GetDimensionChannelsInfo() && !i.GetDisplaySettings(), "channels or display settings are delivered that are not stated"); });
    if (!dn.kids.empty()) image.kids.push_back(dn); if (!image.kids.empty() || g.coin()) infoN.kids.push_back(image); g.shuffle(infoN.kids); if (!infoN.kids.empty() || g.coin()) meta.kids.push_back(infoN); if (g.chance(1, 4)) meta.kids.push_back(xt::genTree(g, 2, L"Experiment")); g.shuffle(meta.kids);
    string x; auto md = load(g, wrap(g, { "ImageDocument" }, meta), x); auto i = md->GetDocumentInfo(); if (g.chance(1, 4)) md.reset(); for (auto& c : cs) c(*i); if (stated > 2) g.nontrivial(); g.count("stated values", stated); g.cls(stated < 5 ? "few values" : stated < 15 ? "some values" : "many values");
}

// ---------------------------------------------------------------- display settings
static void displaySetting(Gen& g)
{
    const int n = (int)g.range(0, 4); Node chs = named("Channels"); using DS = IDisplaySettings; struct Want { float lo = 0, hi = 1, w = 1; bool tint = true, en = true; Rgb8Color c{ 255, 255, 255 }; int mode = 0; float gamma = 0; vector<DS::SplineControlPoint> pts; }; vector<Want> ws;
    auto flt = [&](const string& s) { return (float)strtod(s.c_str(), nullptr); }; auto ft = [&] { char b[60]; const double v = g.chance(1, 8) ? g.of<double>({ 0, 1, -0.5, 2, 1e-6 }) : (double)g.below(1000001) / 1e6; snprintf(b, sizeof b, g.of<const char*>({ "%g", "%.9g", "%.6e" }), v); return string(b); };
    for (int k = 0; k < n; ++k)
    {
        Want w; Node c = named("Channel"); c.attrs = xt::genAttrs(g); if (g.coin()) { const string t = ft(); w.lo = flt(t); c.kids.push_back(textNode("Low", wide(blanks(g, t)))); } if (g.coin()) { const string t = ft(); w.hi = flt(t); c.kids.push_back(textNode("High", wide(blanks(g, t)))); } if (g.coin()) { const string t = ft(); w.w = flt(t); c.kids.push_back(textNode("Weight", wide(blanks(g, t)))); }
        if (g.coin()) { const string m = g.of<string>({ "None", "none", " NONE ", "Color", "Palette", "x" }); w.tint = !(m == "None" || m == "none" || m == " NONE "); c.kids.push_back(textNode("ColorMode", wide(m))); } if (g.coin()) { if (g.chance(1, 6)) c.kids.push_back(textNode("Color", wide(badColor(g)))); else { const string t = hexColor(g, w.c); c.kids.push_back(textNode("Color", wide(t))); } }
        if (g.coin()) { w.en = g.coin(); c.kids.push_back(textNode("IsSelected", wide(w.en ? g.of<string>({ "true", "1", "True" }) : g.of<string>({ "false", "0", "False" })))); } if (g.chance(1, 3)) { const string t = numText(g, true); if (val(t) < 1e30 && val(t) > 1e-30) { w.mode = 1; w.gamma = flt(t); c.kids.push_back(textNode("Gamma", wide(t))); } }
        bool spl = false; if (g.coin()) { const string m = g.of<string>({ "Spline", "spline", "SPLINE", "Ramp", "" }); spl = tolower((unsigned char)m[0]) == 's'; c.kids.push_back(textNode("Mode", wide(spl && g.chance(1, 5) ? " " + m : m))); }
        if (g.coin()) { const int m = (int)g.range(0, 5); string t; vector<DS::SplineControlPoint> p; auto sp = [&] { return g.chance(1, 8) ? string(" ") : string(); }; for (int i = 0; i < m; ++i) { const string a = ft(), b = ft(); p.push_back({ val(a), val(b) }); t += (i ? g.of<string>({ " ", "  ", "\n" }) : sp()) + a + sp() + "," + sp() + b; } bool ok = m > 0; if (g.chance(1, 8)) { ok = false; t = g.of<string>({ "abc", "0.5", "0.5;0.5", "0.5,", ",", "0.1,0.2 0.3" }); } c.kids.push_back(textNode("Points", wide(t))); if (spl && ok) { w.mode = 2; w.pts = p; } }
        if (g.chance(1, 4)) c.kids.push_back(xt::genTree(g, 1, L"Unknown")); g.shuffle(c.kids); chs.kids.push_back(c); ws.push_back(w); if (g.chance(1, 10)) chs.kids.push_back(textNode("Other", L"1"));
    }
    Node dn = named("DisplaySetting"); const bool has = !g.chance(1, 12); if (has) dn.kids.push_back(chs); string x; auto md = load(g, wrap(g, { "ImageDocument", "Metadata" }, dn), x); auto ds = md->GetDocumentInfo()->GetDisplaySettings(); if (g.coin()) md.reset(); PBT_REQUIRE("display", (bool)ds == has, "display settings are ", ds ? "" : "not ", "delivered; ", x); if (!ds) return;
    vector<int> idx; ds->EnumChannels([&](int c) { idx.push_back(c); return true; }); vector<int> want; for (int k = 0; k < n; ++k) want.push_back(k); PBT_REQUIRE("display-channels", idx == want, idx.size(), " channels are enumerated instead of ", n, ", or others"); if (n > 1) { int q = 0; ds->EnumChannels([&](int) { ++q; return false; }); PBT_REQUIRE("display-channels", q == 1, "the enumeration does not stop"); } PBT_REQUIRE("display-channels", !ds->GetChannelDisplaySettings(n) && !ds->GetChannelDisplaySettings(-1), "settings for a channel that is not stated"); if (n) g.nontrivial();
    DisplaySettingsPOD pod; IDisplaySettings::Clone(ds.get(), pod); shared_ptr<IDisplaySettings> copy = DisplaySettingsPOD::CreateIDisplaySettingSp(pod);
    for (auto& q : { ds, copy }) for (int k = 0; k < n; ++k)
    {
        auto c = q->GetChannelDisplaySettings(k); auto& w = ws[k]; const string wh = cat(q == ds ? "" : "copy of ", "channel ", k); PBT_REQUIRE("display", (bool)c, wh, " is not delivered"); float lo = -9, hi = -9; c->GetBlackWhitePoint(&lo, &hi); PBT_REQUIRE("display-points", lo == w.lo && hi == w.hi, wh, ": black and white point are ", lo, ",", hi, " instead of ", w.lo, ",", w.hi); PBT_REQUIRE("display-weight", c->GetWeight() == w.w, wh, ": the weight is ", c->GetWeight(), " instead of ", w.w); PBT_REQUIRE("display-enabled", c->GetIsEnabled() == w.en, wh, " is ", w.en ? "not " : "", "enabled");
        Rgb8Color col{ 1, 2, 3 }; const bool t = c->TryGetTintingColorRgb8(&col); PBT_REQUIRE("display-tint", t == w.tint && (!t || (col.r == w.c.r && col.g == w.c.g && col.b == w.c.b)), wh, ": the tint is ", t ? cat((int)col.r, ",", (int)col.g, ",", (int)col.b) : string("absent"), "; ", x);
        PBT_REQUIRE("display-mode", c->GetGradationCurveMode() == (w.mode == 0 ? DS::GradationCurveMode::Linear : w.mode == 1 ? DS::GradationCurveMode::Gamma : DS::GradationCurveMode::Spline), wh, ": the curve is of another kind than ", w.mode, "; ", x); float ga = -9; PBT_REQUIRE("display-gamma", c->TryGetGamma(&ga) == (w.mode == 1) && (w.mode != 1 || ga == w.gamma), wh, ": gamma is ", ga, " instead of ", w.gamma); vector<DS::SplineControlPoint> p; PBT_REQUIRE("display-spline", c->TryGetSplineControlPoints(&p) == (w.mode == 2) && (w.mode != 2 || p == w.pts), wh, ": the control points differ");
        g.cls(w.mode == 0 ? "linear" : w.mode == 1 ? "gamma" : "spline");
    }
}

// ---------------------------------------------------------------- the nodes of the document
static void nodes(Gen& g)
{
    Node doc; Node r = xt::genTree(g, 3, g.chance(1, 4) ? L"Other" : L"ImageDocument"); doc.kids.push_back(r); string x = prolog(g) + xt::write(g, r, g.coin()); if (g.tracing()) g.d() << x;
    if (g.chance(1, 3))
    {   // not well-formed: everything is refused
        const size_t close = x.rfind('>'); switch (g.below(3)) { case 0: x.resize((size_t)g.below(close + 1)); break; case 1: x.insert(x.rfind('<'), "</nope>"); break; default: x += "</" + utf8(r.name) + ">"; } g.cls("malformed"); auto md = metaOf(x, false); if (md->IsXmlValid()) { pbt::fail("malformed", "a malformed document is called valid: " + x); } g.nontrivial();
        auto refuses = [&](const char* w, const function<void()>& f) { try { f(); } catch (LibCZIXmlParseException&) { return; } pbt::fail("malformed", cat(w, " does not report that the document is malformed: ", x)); };
        wstring v; refuses("GetXml", [&] { md->GetXml(); }); refuses("GetDocumentInfo", [&] { md->GetDocumentInfo(); }); refuses("Name", [&] { md->Name(); }); refuses("TryGetAttribute", [&] { md->TryGetAttribute(L"a", &v); }); refuses("EnumAttributes", [&] { md->EnumAttributes([](const wstring&, const wstring&) { return true; }); }); refuses("TryGetValue", [&] { md->TryGetValue(&v); }); refuses("GetChildNodeReadonly", [&] { md->GetChildNodeReadonly("ImageDocument"); }); refuses("EnumChildren", [&] { md->EnumChildren([](shared_ptr<IXmlNodeRead>) { return true; }); }); return;
    }
    auto md = metaOf(x, g.chance(1, 8)); PBT_REQUIRE("well-formed", md->IsXmlValid(), "a well-formed document is refused: ", x); xt::same("node", md.get(), doc, "the document"); xt::byPath(g, "path", md.get(), doc, 6); if (!r.kids.empty()) g.nontrivial(); g.cls(r.kids.empty() ? "single node" : "tree");
    const string y = md->GetXml(); auto again = metaOf(y, false); PBT_REQUIRE("text", again->IsXmlValid(), "the text of the document is malformed: ", y); xt::same("text", again.get(), doc, "the document's text");
    shared_ptr<IXmlNodeRead> kid; md->EnumChildren([&](shared_ptr<IXmlNodeRead> k) { kid = k; return false; }); md.reset(); xt::same("survives", kid.get(), r, "a node of a released document");
}

/// the values of nodes as numbers
static void numbers(Gen& g)
{
    const int n = (int)g.range(1, 8); vector<xt::Num> v; string x = "<ImageDocument><Metadata><Information>"; int judged = 0;
    for (int k = 0; k < n; ++k) { xt::Num q; if (!g.chance(1, 8)) q = xt::genNum(g); string t; for (char ch : utf8(q.text)) t += ch == '<' ? "&lt;" : ch == '&' ? "&amp;" : string(1, ch); x += t.empty() && g.coin() ? cat("<N", k, "/>") : t.empty() && g.coin() ? cat("<N", k, "><Inner>5</Inner></N", k, ">") : cat("<N", k, ">", t, "</N", k, ">"); v.push_back(q); judged += q.judge; }
    x += "</Information></Metadata></ImageDocument>"; if (g.tracing()) g.d() << x; auto md = metaOf(x, g.chance(1, 10)); PBT_REQUIRE("well-formed", md->IsXmlValid(), "a well-formed document is refused: ", x);
    for (int k = 0; k < n; ++k) { auto nd = md->GetChildNodeReadonly(cat("ImageDocument/Metadata/Information/N", k).c_str()); PBT_REQUIRE("node", nd != nullptr, "no node N", k, ": ", x); xt::judgeNum("number", nd.get(), v[(size_t)k]); }
    if (judged) g.nontrivial();
}

int main(int argc, char** argv)
{
    pbt::Config c; c.property = "P27";
    c.rule = "channel: more than five values stated; document: more than two values stated; display: at least one channel; nodes: a tree, or a malformed document; numbers: a judged text";
    c.assumptions = { "numbers are decimal texts of normal finite doubles; enumeration and boolean texts without blanks around them", "lists of positions are separated by one blank", "of two elements with the same name below one parent only repeated ones of lists are generated" };
    c.subs = { { "channel", 4000, 150000, channel }, { "document", 5000, 200000, document }, { "display", 5000, 200000, displaySetting }, { "nodes", 6000, 200000, nodes }, { "numbers", 20000, 500000, numbers } };
    c.caseCpuSeconds = 20; c.caseWallSeconds = 60; return pbt::main(argc, argv, c);
}
