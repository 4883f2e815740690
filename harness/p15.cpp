// P15: display curves and look-up tables follow the display setting
#include "meta.hpp"
#include "libCZI_Helpers.h"
#include <cmath>
using namespace czi;
using namespace std;
typedef IDisplaySettings::SplineControlPoint Pt;

static float genPoint01(Gen& g)
{
    switch (g.below(5))
    {
    case 0: return g.of<float>({ 0.0f, 1.0f, 0.5f, 0.1f, 0.9f });
    case 1: return (float)g.range(0, 256) / 256;
    default: return (float)g.range(0, 10000) / 10000;
    }
}
static float genPoint(Gen& g) { return g.chance(1, 12) ? g.of<float>({ -0.2f, -3.0f, 1.1f, 2.5f }) : genPoint01(g); }
static void genPoints(Gen& g, float& b, float& w)
{
    b = genPoint(g); w = genPoint(g);
    switch (g.below(6)) { case 0: b = 0; w = 1; break; case 1: case 2: case 3: if (b > w) swap(b, w); break; case 4: w = b; break; default: break; }
}
static int genCount(Gen& g) { return g.weighted({ 3, 2, 2 }) == 0 ? 256 : g.chance(1, 6) ? 65536 : (int)g.size(1, 700); }

/// the first index whose content is given by the curve / the white point; two candidates if the product is close to an integer
static vector<int> edges(int n, float p) { const double v = min(1.0, max(0.0, (double)p)) * n; vector<int> r{ (int)floor(v + 1e-3) }; const int o = max(0, (int)floor(v - 1e-3)); if (o != r[0]) r.push_back(o); return r; }

/// compare a table with the function f on 0..1
template <class T> static void checkTable(const string& what, const vector<T>& t, int n, float b, float w, const function<double(double)>& f, double tol, bool rising)
{
    const double max = numeric_limits<T>::max();
    PBT_REQUIRE("count", (int)t.size() == n, what, ": has ", t.size(), " elements");
    string err;
    for (int lo : edges(n, b)) for (int hi : edges(n, w))
    {
        if (hi < lo) hi = lo; // everything below the black point is black
        err.clear();
        for (int i = 0; i < n && err.empty(); ++i)
        {
            const double v = t[(size_t)i];
            if (i < lo) { if (v != 0) err = pbt::cat("element ", i, " below the black point is ", v); }
            else if (i >= hi) { if (v != max) err = pbt::cat("element ", i, " above the white point is ", v); }
            else if (hi - lo > 1)
            {
                double e = f((double)(i - lo) / (hi - lo - 1)) * max; e = std::min(max, std::max(0.0, e));
                if (fabs(v - e) > tol) err = pbt::cat("element ", i, " is ", v, ", the curve is at ", e);
                if (rising && i > lo && v < t[(size_t)i - 1]) err = pbt::cat("element ", i, " is ", v, ", lower than its predecessor ", (int)t[(size_t)i - 1]);
            }
        }
        if (err.empty()) return;
    }
    pbt::fail("table", pbt::cat(what, ": ", err));
}
/// y = ((ax+1)^G-1)/((a+1)^G-1) with a slope of 1/G^3 at the origin for G<1, x^G otherwise
static function<double(double)> gammaCurve(double G)
{
    if (G >= 1) return [G](double x) { return pow(x, G); };
    double a = 224; const double k = 1 / pow(G, 4);
    if (fabs(G - 0.5) < 1e-4) a = 224; else if (fabs(G - 0.45) < 1e-4) a = 287.806332841221;
    else for (int i = 0; i < 200; ++i) { const double o = a; a = k * (pow(a + 1, G) - 1); if (fabs(a - o) < 1e-6) break; }
    return [=](double x) { return (pow(a * x + 1, G) - 1) / (pow(a + 1, G) - 1); };
}
static float genGamma(Gen& g)
{
    switch (g.below(5))
    {
    case 0: return g.of<float>({ 1.0f, 0.5f, 0.45f, 2.2f, 2.0f, 0.45454545f });
    case 1: return (float)g.range(100, 900) / 100;
    case 2: return (float)g.range(10, 99) / 100;
    default: return (float)g.range(100, 3000) / 1000;
    }
}
static void gammaTable(Gen& g)
{
    float b, w; genPoints(g, b, w); const int n = genCount(g); const float G = genGamma(g); const bool wide = g.chance(1, 3);
    const string what = pbt::cat(wide ? "16" : "8", "-bit table of ", n, " elements, points ", b, "..", w, ", gamma ", G); g.d() << what;
    if (wide) checkTable<uint16_t>(what, Utils::Create16BitLookUpTableFromGamma(n, b, w, G), n, b, w, gammaCurve(G), 40, true);
    else checkTable<uint8_t>(what, Utils::Create8BitLookUpTableFromGamma(n, b, w, G), n, b, w, gammaCurve(G), 1.1, true);
    if (n > 10 && min(1.0f, w) - max(0.0f, b) > 0.2f) g.nontrivial(); g.cls(G < 1 ? "gamma below 1" : "gamma from 1"); g.cls(wide ? "16 bit" : "8 bit"); if (b > w) g.cls("points swapped"); if (b < 0 || w > 1) g.cls("points out of range");
}

/// control points with ascending x
static vector<Pt> genCtrl(Gen& g, int minPts, double gap)
{
    const int n = (int)g.range(minPts, g.chance(1, 5) ? 12 : 5); vector<double> xs;
    for (int i = 0; i < n; ++i) xs.push_back((double)g.range(1, 999) / 1000 + (g.chance(1, 4) ? (double)g.range(0, 999) / 1e6 : 0));
    sort(xs.begin(), xs.end()); vector<Pt> r; double last = 0;
    for (double x : xs) { if (x - last < gap || 1 - x < gap) continue; r.push_back(Pt(x, (double)g.range(0, 1000) / 1000)); last = x; }
    return r;
}
struct Seg { double x, a, b, c, d; };
/// natural cubic spline through (0,0), the points, (1,1)
static vector<Seg> naturalSpline(const vector<Pt>& p)
{
    vector<double> X{ 0 }, Y{ 0 }; for (auto& q : p) { X.push_back(q.x); Y.push_back(q.y); } X.push_back(1); Y.push_back(1);
    const size_t n = X.size() - 1; vector<double> h(n), m(n + 1, 0); for (size_t i = 0; i < n; ++i) h[i] = X[i + 1] - X[i];
    if (n > 1)
    {
        vector<double> diag(n - 1), rhs(n - 1);
        for (size_t i = 0; i + 1 < n; ++i) { diag[i] = 2 * (h[i] + h[i + 1]); rhs[i] = 3 * ((Y[i + 2] - Y[i + 1]) / h[i + 1] - (Y[i + 1] - Y[i]) / h[i]); }
        for (size_t i = 1; i + 1 < n; ++i) { const double k = h[i] / diag[i - 1]; diag[i] -= k * h[i]; rhs[i] -= k * rhs[i - 1]; }
        for (size_t i = n - 1; i-- > 0;) m[i + 1] = (rhs[i] - (i + 2 < n ? h[i + 1] * m[i + 2] : 0)) / diag[i];
    }
    vector<Seg> r; for (size_t i = 0; i < n; ++i) r.push_back({ X[i], (m[i + 1] - m[i]) / (3 * h[i]), m[i], (Y[i + 1] - Y[i]) / h[i] - h[i] * (m[i + 1] + 2 * m[i]) / 3, Y[i] });
    return r;
}
static double eval(const Seg& s, double x) { const double t = x - s.x; return ((s.a * t + s.b) * t + s.c) * t + s.d; }
static double evalAt(const vector<Seg>& s, double x) { size_t k = 0; for (size_t i = 0; i < s.size(); ++i) if (x > s[i].x) k = i; return eval(s[k], x); }
static double lib(const IDisplaySettings::SplineData& s, double x) { return eval({ s.xPos, s.coefficients.a, s.coefficients.b, s.coefficients.c, s.coefficients.d }, x); }
static string str(const vector<Pt>& p) { string s; for (auto& q : p) s += pbt::cat(" (", q.x, ",", q.y, ")"); return s; }

static void spline(Gen& g)
{
    const bool tight = g.chance(1, 6); const vector<Pt> p = genCtrl(g, 0, tight ? 1e-6 : 2e-3);
    const string what = pbt::cat("spline through", str(p)); g.d() << what;
    vector<IDisplaySettings::SplineData> sd;
    if (g.coin()) sd = Utils::CalcSplineDataFromPoints((int)p.size(), [&](int i) { return make_tuple(p.at((size_t)i).x, p.at((size_t)i).y); });
    else
    {
        ChannelDisplaySettingsPOD pod; pod.Clear(); pod.gradationCurveMode = IDisplaySettings::GradationCurveMode::Spline; pod.splineCtrlPoints = p;
        PBT_REQUIRE("spline-data", ChannelDisplaySettingsPOD::CreateIChannelDisplaySettingSp(pod)->TryGetSplineData(&sd), what, ": no spline data");
    }
    PBT_REQUIRE("segments", sd.size() == p.size() + 1, what, ": ", sd.size(), " segments");
    for (size_t i = 0; i < sd.size(); ++i)
    {
        const double x0 = i == 0 ? 0 : p[i - 1].x, y0 = i == 0 ? 0 : p[i - 1].y, x1 = i == p.size() ? 1 : p[i].x, y1 = i == p.size() ? 1 : p[i].y;
        PBT_REQUIRE("xpos", sd[i].xPos == x0, what, ": segment ", i, " starts at ", sd[i].xPos);
        PBT_REQUIRE("through", fabs(lib(sd[i], x0) - y0) < 1e-6 && fabs(lib(sd[i], x1) - y1) < 1e-6, what, ": segment ", i, " goes from ", lib(sd[i], x0), " to ", lib(sd[i], x1), ", expected ", y0, " to ", y1);
    }
    if (!tight)
    {
        const auto ns = naturalSpline(p);
        for (int k = 0; k <= 50; ++k) { const double x = k / 50.0; size_t s = 0; for (size_t i = 0; i < ns.size(); ++i) if (x > ns[i].x) s = i; const double got = lib(sd[s], x), e = eval(ns[s], x); PBT_REQUIRE("natural", fabs(got - e) < 1e-6 * (1 + fabs(e)), what, ": is ", got, " at ", x, ", the natural spline is ", e); }
        float b, w; genPoints(g, b, w); const int n = genCount(g);
        checkTable<uint8_t>(pbt::cat(what, ": table of ", n, ", points ", b, "..", w), Utils::Create8BitLookUpTableFromSplines(n, b, w, sd), n, b, w, [&](double x) { return evalAt(ns, x); }, 1.01, false);
    }
    if (p.size() > 1) g.nontrivial(); g.cls(tight ? "close points" : "spread points"); g.cls(pbt::cat(min<size_t>(p.size(), 6), " control points"));
}

// ------------------------------------------------------------------ display settings
static float genFloat(Gen& g) { switch (g.below(5)) { case 0: return (float)g.range0(-5, 5); case 1: return (float)g.unit(); case 2: return (float)(g.unit() * pow(10, (double)g.range0(-30, 30))); case 3: return -(float)g.unit(); default: return (float)g.range(0, 1000) / 1000; } }
static double genDbl(Gen& g) { switch (g.below(5)) { case 0: return (double)g.range0(-2, 2); case 1: return g.unit(); case 2: return g.unit() * pow(10, (double)g.range0(-300, 300)); case 3: return -g.unit(); default: return (double)g.range(0, 1000) / 1000; } }
static ChannelDisplaySettingsPOD genPod(Gen& g, bool sane)
{
    ChannelDisplaySettingsPOD p; p.Clear(); p.isEnabled = g.chance(3, 4); p.weight = g.coin() ? 1 : sane ? (float)g.range(0, 300) / 100 : genFloat(g);
    p.tintingColor = { 0, 0, 0 }; if (g.coin()) { p.tintingMode = IDisplaySettings::TintingMode::Color; p.tintingColor = { (uint8_t)g.below(256), (uint8_t)g.below(256), (uint8_t)g.below(256) }; }
    if (g.chance(3, 4)) { p.blackPoint = sane ? genPoint01(g) : genFloat(g); p.whitePoint = sane ? genPoint01(g) : genFloat(g); if (sane && p.blackPoint > p.whitePoint) swap(p.blackPoint, p.whitePoint); }
    switch (g.below(3))
    {
    case 0: break;
    case 1: p.gradationCurveMode = IDisplaySettings::GradationCurveMode::Gamma; p.gamma = sane ? genGamma(g) : genFloat(g); break;
    default: p.gradationCurveMode = IDisplaySettings::GradationCurveMode::Spline; if (sane) { p.splineCtrlPoints = genCtrl(g, 1, 2e-3); if (p.splineCtrlPoints.empty()) p.splineCtrlPoints.push_back(Pt(.5, .25)); } else for (int k = (int)g.range(1, 5); k > 0; --k) { const double x = genDbl(g); p.splineCtrlPoints.push_back(Pt(x, genDbl(g))); } break;
    }
    return p;
}
static string str(const ChannelDisplaySettingsPOD& p) { return pbt::cat(p.isEnabled ? "on" : "off", " weight ", p.weight, p.tintingMode == IDisplaySettings::TintingMode::Color ? pbt::cat(" tint ", (int)p.tintingColor.r, ",", (int)p.tintingColor.g, ",", (int)p.tintingColor.b) : string(), " ", p.blackPoint, "..", p.whitePoint, p.gradationCurveMode == IDisplaySettings::GradationCurveMode::Gamma ? pbt::cat(" gamma ", p.gamma) : p.gradationCurveMode == IDisplaySettings::GradationCurveMode::Spline ? " spline" + str(p.splineCtrlPoints) : string()); }
/// single precision numbers are stored with six digits
static bool same6(float a, float b) { return fabs((double)a - b) <= 5.2e-6 * fabs((double)b); }
static void checkSetting(const string& what, const IChannelDisplaySetting& s, const ChannelDisplaySettingsPOD& p)
{
    PBT_REQUIRE("enabled", s.GetIsEnabled() == p.isEnabled, what, ": enabled is ", s.GetIsEnabled());
    PBT_REQUIRE("weight", same6(s.GetWeight(), p.weight), what, ": weight is ", s.GetWeight());
    Rgb8Color c{ 1, 2, 3 }; const bool t = s.TryGetTintingColorRgb8(&c);
    PBT_REQUIRE("tint", t == (p.tintingMode == IDisplaySettings::TintingMode::Color) && (!t || (c.r == p.tintingColor.r && c.g == p.tintingColor.g && c.b == p.tintingColor.b)), what, ": tint is ", t, " ", (int)c.r, ",", (int)c.g, ",", (int)c.b);
    float b = -7, w = -7; s.GetBlackWhitePoint(&b, &w); PBT_REQUIRE("points", same6(b, p.blackPoint) && same6(w, p.whitePoint), what, ": points are ", b, "..", w); s.GetBlackWhitePoint(nullptr, nullptr);
    PBT_REQUIRE("mode", s.GetGradationCurveMode() == p.gradationCurveMode, what, ": curve mode is ", (int)s.GetGradationCurveMode());
    float G = -7; const bool hg = s.TryGetGamma(&G); PBT_REQUIRE("gamma", hg == (p.gradationCurveMode == IDisplaySettings::GradationCurveMode::Gamma) && (!hg || same6(G, p.gamma)), what, ": gamma is ", hg, " ", G);
    vector<Pt> q; const bool hs = s.TryGetSplineControlPoints(&q); PBT_REQUIRE("control-points", hs == (p.gradationCurveMode == IDisplaySettings::GradationCurveMode::Spline) && (!hs || q == p.splineCtrlPoints), what, ": control points are ", hs, str(q));
}
static void display(Gen& g)
{
    DisplaySettingsPOD pod; const int n = (int)g.range(1, 4); string what = "display setting"; for (int c = 0; c < n; ++c) if (c == n - 1 || g.chance(7, 8)) { pod.channelDisplaySettings[c] = genPod(g, false); what += pbt::cat(" [", c, ": ", str(pod.channelDisplaySettings[c]), "]"); }
    g.d() << what;
    auto ds = DisplaySettingsPOD::CreateIDisplaySettingSp(pod);
    auto checkAll = [&](const string& where, const IDisplaySettings& s, bool exact)
    {
        for (auto& kv : pod.channelDisplaySettings) { auto c = s.GetChannelDisplaySettings(kv.first); PBT_REQUIRE("missing", c != nullptr, what, where, ": channel ", kv.first, " is missing"); checkSetting(pbt::cat(what, where, ", channel ", kv.first), *c, kv.second); }
        vector<int> idx; s.EnumChannels([&](int i) { idx.push_back(i); return true; });
        if (exact) PBT_REQUIRE("enum", idx.size() == pod.channelDisplaySettings.size(), what, where, ": ", idx.size(), " channels"); else PBT_REQUIRE("enum", (int)idx.size() == n, what, where, ": ", idx.size(), " channels");
        for (size_t k = 0; k < idx.size(); ++k) PBT_REQUIRE("enum", (k == 0 || idx[k] > idx[k - 1]) && (!exact || pod.channelDisplaySettings.count(idx[k])), what, where, ": enumerates channel ", idx[k]);
        PBT_REQUIRE("none", !s.GetChannelDisplaySettings(n) && !s.GetChannelDisplaySettings(-1), what, where, ": reports a channel that does not exist");
        int calls = 0; s.EnumChannels([&](int) { ++calls; return false; }); PBT_REQUIRE("stop", calls == 1, what, where, ": enumeration does not stop");
    };
    checkAll(" as object", *ds, true);
    DisplaySettingsPOD copy; copy.channelDisplaySettings[99].Clear(); IDisplaySettings::Clone(ds.get(), copy); auto ds2 = DisplaySettingsPOD::CreateIDisplaySettingSp(copy); checkAll(" after cloning", *ds2, true);
    auto mb = CreateMetadataBuilder();
    if (g.chance(1, 3)) { DisplaySettingsPOD other; for (int k = (int)g.range(0, 5); k >= 0; --k) other.channelDisplaySettings[k] = genPod(g, false); MetadataUtils::WriteDisplaySettings(mb.get(), DisplaySettingsPOD::CreateIDisplaySettingSp(other).get()); g.cls("overwritten"); }
    map<int, PixelType> types; if (g.coin()) for (int c = 0; c < n; ++c) types[c] = g.of<PixelType>({ PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48 });
    if (g.coin()) MetadataUtils::WriteDisplaySettings(mb.get(), ds.get(), types.empty() ? nullptr : &types); else MetadataUtils::WriteDisplaySettings(mb.get(), ds.get(), n, types.empty() ? nullptr : &types);
    const string xml = mb->GetXml(g.coin()); g.d() << " " << xml.substr(0, 1500);
    auto info = metaOf(xml, g.chance(1, 4))->GetDocumentInfo(); auto rd = info->GetDisplaySettings(); PBT_REQUIRE("absent", rd != nullptr, what, ": no display setting is read back");
    checkAll(" read back", *rd, false);
    g.nontrivial(); for (auto& kv : pod.channelDisplaySettings) g.cls(kv.second.gradationCurveMode == IDisplaySettings::GradationCurveMode::Gamma ? "gamma" : kv.second.gradationCurveMode == IDisplaySettings::GradationCurveMode::Spline ? "spline" : "linear");
}
/// the settings for the composition made from a display setting
static void helper(Gen& g)
{
    DisplaySettingsPOD pod; map<int, PixelType> types; const int n = (int)g.range(1, 5); string what = "composition settings from";
    for (int c = 0; c < n; ++c) { auto p = genPod(g, true); pod.channelDisplaySettings[c] = p; types[c] = g.of<PixelType>({ PixelType::Gray8, PixelType::Gray16, PixelType::Bgr24, PixelType::Bgr48 }); what += pbt::cat(" [", Utils::PixelTypeToInformalString(types[c]), " ", str(p), "]"); }
    g.d() << what;
    auto ds = DisplaySettingsPOD::CreateIDisplaySettingSp(pod); CDisplaySettingsHelper h; auto ty = [&](int c) { PBT_REQUIRE("asked", types.count(c) && pod.channelDisplaySettings[c].isEnabled, what, ": asks for the pixel type of channel ", c); return types[c]; };
    if (g.coin()) h.Initialize(ds.get(), ty);
    else { int k = 0; h.Initialize([&](int& i, shared_ptr<IChannelDisplaySetting>& s) { if (k >= n) return false; i = k; s = ds->GetChannelDisplaySettings(k++); return true; }, ty); }
    vector<int> act; for (auto& kv : pod.channelDisplaySettings) if (kv.second.isEnabled) act.push_back(kv.first);
    PBT_REQUIRE("active", h.GetActiveChannels() == act && h.GetActiveChannelsCount() == (int)act.size() && CDisplaySettingsHelper::GetActiveChannels(ds.get()) == act, what, ": the active channels are wrong");
    for (size_t k = 0; k < act.size(); ++k)
    {
        const auto& p = pod.channelDisplaySettings[act[k]]; const auto& ci = g.coin() ? h.GetActiveChannel((int)k) : h.GetChannelInfosArray()[k]; const int size = types[act[k]] == PixelType::Gray8 || types[act[k]] == PixelType::Bgr24 ? 256 : 65536; const string w = pbt::cat(what, ", channel ", act[k]);
        PBT_REQUIRE("info", ci.weight == p.weight && ci.blackPoint == p.blackPoint && ci.whitePoint == p.whitePoint && ci.enableTinting == (p.tintingMode == IDisplaySettings::TintingMode::Color) && (!ci.enableTinting || (ci.tinting.color.r == p.tintingColor.r && ci.tinting.color.g == p.tintingColor.g && ci.tinting.color.b == p.tintingColor.b)), w, ": weight, points or tint are wrong");
        const bool lut = p.gradationCurveMode != IDisplaySettings::GradationCurveMode::Linear; PBT_REQUIRE("table-size", ci.lookUpTableElementCount == (lut ? size : 0), w, ": table of ", ci.lookUpTableElementCount);
        if (!lut) continue;
        const vector<uint8_t> t(ci.ptrLookUpTable, ci.ptrLookUpTable + size);
        if (p.gradationCurveMode == IDisplaySettings::GradationCurveMode::Gamma) checkTable<uint8_t>(w, t, size, p.blackPoint, p.whitePoint, gammaCurve(p.gamma), 1.1, true);
        else { const auto ns = naturalSpline(p.splineCtrlPoints); checkTable<uint8_t>(w, t, size, p.blackPoint, p.whitePoint, [&](double x) { return evalAt(ns, x); }, 1.01, false); }
        g.nontrivial();
    }
    g.cls(pbt::cat(act.size(), " active channels"));
}
int main(int argc, char** argv)
{
    pbt::Config c; c.property = "P15";
    c.rule = "tables: more than 10 elements and points more than 0.2 apart; splines: more than one control point; display settings: all; composition settings: at least one active channel with a table";
    c.assumptions = { "gamma between 0.1 and 9", "control points with ascending x in 0..1; the exact curve is compared for points more than 0.002 apart", "16-bit tables are compared with the curve to 40 of 65536 levels" };
    c.subs = {
        { "gamma", 30000, 600000, gammaTable }, { "spline", 30000, 600000, spline },
        { "display", 14000, 400000, display }, { "helper", 5000, 100000, helper },
    };
    return pbt::main(argc, argv, c);
}
