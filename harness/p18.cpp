// P18: document information written as metadata reads back the same
#include "stats.hpp"
#include "meta.hpp"
#include "xmltree.hpp"
#include <libCZI_Metadata2.h>
#include <climits>
#include <set>
using namespace czi;
using namespace std;
using pbt::cat; using xt::Node; using xt::utf8; using xt::show;

static const DimensionIndex kDims[] = { DimensionIndex::Z, DimensionIndex::C, DimensionIndex::T, DimensionIndex::R, DimensionIndex::S, DimensionIndex::I, DimensionIndex::H, DimensionIndex::V, DimensionIndex::B };
static const char kDimChar[] = "ZCTRSIHVB";

// ---------------------------------------------------------------- numbers and strings
static double genDbl(Gen& g)
{
    switch (g.weighted({ 4, 4, 2, 1 }))
    {
    case 0: return (double)g.range0(-1000, 1000);
    case 1: { double v = ((double)g.below(1000000000) + 1) * pow(10.0, (double)g.range(-20, 20)); return g.coin() ? -v : v; }
    case 2: return g.of<double>({ 0.0, 1e-7, 1.1e-6, 0.1, 1.0 / 3, 123456789012345.0, 1e300, -1e300, 2.5e-300, 1e15, 1e16, 100000, 1000000, 1e-5 });
    default: { uint64_t b = g.seed64(); double v; memcpy(&v, &b, 8); return isfinite(v) && fabs(v) < 1e305 && fabs(v) > 1e-300 ? v : 7.25; }
    }
}
static bool closeTo(double got, double want, double rel) { return got == want || fabs(got - want) <= rel * fabs(want); }
static const double k15 = 5.1e-15, k6 = 5.1e-6;
/// any text of characters which XML can hold
static wstring genStr(Gen& g)
{
    switch (g.weighted({ 1, 8, 2 })) { case 0: return L""; case 1: return xt::genText(g, 24); default: { wstring s = xt::genText(g, 8); const int n = (int)g.range(1, 3); for (int k = 0; k < n; ++k) s.insert((size_t)g.below(s.size() + 1), g.of<wstring>({ L"\n", L"\t", L" ", L"  ", L"]]>", L"<!--", L"&amp;", L"&#65;", L"%s", L"<a/>" })); if (xt::blank(s)) s += L'y'; return s; } }
}
static string dt(const XmlDateTime& d) { return cat(d.year, "-", d.mon, "-", d.mday, "T", d.hour, ":", d.min, ":", d.sec, d.isUTC ? "Z" : "", d.HasTimeZoneOffset() ? cat(" offset ", d.offsetHours, ":", d.offsetMinutes) : string()); }
static bool sameDt(const XmlDateTime& a, const XmlDateTime& b) { return a.year == b.year && a.mon == b.mon && a.mday == b.mday && a.hour == b.hour && a.min == b.min && a.sec == b.sec && a.isUTC == b.isUTC && a.HasTimeZoneOffset() == b.HasTimeZoneOffset() && (!a.HasTimeZoneOffset() || (a.offsetHours == b.offsetHours && a.offsetMinutes == b.offsetMinutes)); }
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int daysIn(int y, int m) { static const int d[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 2 && leap(y) ? 29 : d[m - 1]; }
static XmlDateTime genDt(Gen& g)
{
    XmlDateTime d; d.Clear(); d.year = g.chance(1, 8) ? (int)g.range(-9999, 9999) : (int)g.range(1900, 2100); if (g.chance(1, 6)) d.year = g.of<int>({ 0, 1, 999, 1000, 9999, -1, -50, 2000, 1900, 2024 }); d.mon = (int)g.range(1, 12); d.mday = g.chance(1, 3) ? daysIn(d.year, d.mon) : (int)g.range(1, daysIn(d.year, d.mon)); d.hour = (int)g.range(0, 23); d.min = (int)g.range(0, 59); d.sec = g.chance(1, 40) ? 60 : (int)g.range(0, 59);
    switch (g.below(3)) { case 0: d.isUTC = true; break; case 1: d.offsetHours = (int)g.range(-23, 23); d.offsetMinutes = g.coin() ? 0 : (int)g.range(0, 59); break; default: break; }
    return d;
}

// ---------------------------------------------------------------- the builder as a tree
static Node* resolve(Node& cur, const vector<pair<wstring, vector<pair<wstring, wstring>>>>& comps, const vector<int>& index, bool create)
{
    Node* n = &cur;
    for (size_t c = 0; c < comps.size(); ++c)
    {
        Node* f = nullptr; int seen = 0; for (auto& k : n->kids) { if (k.name != comps[c].first) continue; if (index[c] >= 0) { if (seen++ == index[c]) { f = &k; break; } continue; } bool all = true; for (auto& a : comps[c].second) { bool has = false; for (auto& b : k.attrs) has = has || a == b; all = all && has; } if (all) { f = &k; break; } }
        if (!f) { if (!create) return nullptr; Node x; x.name = comps[c].first; map<wstring, wstring> sorted(comps[c].second.begin(), comps[c].second.end()); x.attrs.assign(sorted.begin(), sorted.end()); n->kids.push_back(x); f = &n->kids.back(); }
        n = f;
    }
    return n;
}
static void tree(Gen& g)
{
    Node model; model.name = L"ImageDocument"; shared_ptr<ICziMetadataBuilder> b; if (g.chance(1, 3)) { model = xt::genTree(g, 2, L"ImageDocument"); b = CreateMetadataBuilderFromXml(xt::write(g, model, true)); } else b = CreateMetadataBuilder();
    const int n = (int)g.size(1, 14); if (g.tracing()) g.d() << utf8(model.name) << (model.kids.empty() ? " new" : " parsed");
    auto exp = [&](const char* what, LibCZIMetadataBuilderException::ErrorType t, const function<void()>& f) { try { f(); } catch (LibCZIMetadataBuilderException& e) { PBT_REQUIRE("error", e.GetErrorType() == t, what, ": reported with the wrong kind of error"); return; } pbt::fail("error", cat(what, " is not reported")); };
    for (int op = 0; op < n; ++op)
    {
        // pick a node by a path that exists or creates
        vector<pair<wstring, vector<pair<wstring, wstring>>>> comps; vector<int> index; const int depth = (int)g.range(0, 3); Node* at = &model; string path; bool anyIndex = false; const bool create = g.chance(1, 2);
        for (int d = 0; d < depth; ++d)
        {
            wstring nm; vector<pair<wstring, wstring>> at2; int ix = -1; string c;
            if (at && !at->kids.empty() && g.chance(2, 3)) { const Node& k = at->kids[g.below(at->kids.size())]; nm = k.name; if (g.coin()) for (auto& a : k.attrs) { bool simple = true; for (wchar_t ch : a.second) if (wcschr(L"/[],;=", ch)) simple = false; if (simple && g.coin()) at2.push_back(a); } } else { nm = xt::genName(g, 4); if (g.chance(1, 3)) { at2.push_back({ L"Id", g.of<wstring>({ L"0", L"1", L"x y", L"" }) }); if (g.coin()) at2.push_back({ L"Name", g.of<wstring>({ L"n", L"\u00e9" }) }); } }
            c = utf8(nm); if (!at2.empty()) { c += "["; for (size_t i = 0; i < at2.size(); ++i) c += (i ? g.of<string>({ ",", ";" }) : string()) + utf8(at2[i].first) + "=" + utf8(at2[i].second); c += "]"; } else if (g.chance(1, 6)) { ix = (int)g.range(0, 2); anyIndex = true; c += "[" + to_string(ix) + "]"; }
            path += (d ? "/" : "") + c; comps.push_back({ nm, at2 }); index.push_back(ix); if (at) { vector<pair<wstring, vector<pair<wstring, wstring>>>> one{ comps.back() }; at = resolve(*at, one, { ix }, false); }
        }
        auto root = b->GetRootNode(); shared_ptr<IXmlNodeRw> nd = root; Node* m = &model;
        if (depth > 0)
        {
            if (g.chance(1, 25)) { static const char* bad[] = { "", "/", "a//b", "a/", "/a", "a[Id=1", "a]", "a[b]", "a[Id=1]x" }; const string p = bad[g.below(9)]; if (g.tracing()) g.d() << "; bad path " << p; exp("an ill-formed path for GetOrCreateChildNode", LibCZIMetadataBuilderException::ErrorType::InvalidPath, [&] { root->GetOrCreateChildNode(p.c_str()); }); if (p != "a[Id=1" || true) exp("an ill-formed path for GetChildNode", LibCZIMetadataBuilderException::ErrorType::InvalidPath, [&] { auto r = root->GetChildNode(p.c_str()); if (!r && p.size() > 1) throw LibCZIMetadataBuilderException("", LibCZIMetadataBuilderException::ErrorType::InvalidPath); }); g.cls("bad-path");
                // whatever was created for the part of the path that is well formed is not judged
                if (p[0] == 'a' && p.size() > 1 && p[1] == '/') return; continue; }
            if (g.tracing()) g.d() << "; " << (create ? "create " : "get ") << path;
            if (create && anyIndex) { exp("an index with GetOrCreateChildNode", LibCZIMetadataBuilderException::ErrorType::InvalidPath, [&] { root->GetOrCreateChildNode(path.c_str()); }); return; }
            m = resolve(model, comps, index, create); if (create) { nd = root->GetOrCreateChildNode(path.c_str()); g.cls("created"); } else nd = root->GetChildNode(path.c_str());
            PBT_REQUIRE("path", (bool)nd == (m != nullptr), "path ", path, m ? " denotes a node, but none is delivered" : " denotes nothing, but a node is delivered"); if (!m) continue; g.nontrivial();
        }
        // an operation on it
        const int what = (int)g.weighted({ 4, 4, 2, 2, 1, 1, 1, 1 }); if (g.tracing()) g.d() << " op" << what;
        auto setText = [&](const wstring& t) { m->hasText = true; m->text = t; };
        switch (what)
        {
        case 0: case 2:
        {
            function<void()> f; wstring t; const int k = (int)g.below(9);
            if (k < 2) { t = genStr(g); if (t.empty()) t = L"e"; f = k == 0 ? function<void()>([&] { nd->SetValue(t.c_str()); }) : function<void()>([&] { nd->SetValue(utf8(t).c_str()); }); }
            else if (k == 2) { const int v = (int)g.range0(INT32_MIN, INT32_MAX); t = to_wstring(v); f = [=] { nd->SetValueI32(v); }; }
            else if (k == 3) { const unsigned v = (unsigned)g.range0(0, UINT32_MAX); t = to_wstring(v); f = [=] { nd->SetValueUI32(v); }; }
            else if (k == 4) { const long long v = (long long)(g.seed64() >> g.below(64)); t = to_wstring(v); f = [=] { nd->SetValueI64(v); }; }
            else if (k == 5) { const unsigned long long v = g.seed64(); t = to_wstring(v); f = [=] { nd->SetValueUI64(v); }; }
            else if (k == 6) { const bool v = g.coin(); t = v ? L"true" : L"false"; f = [=] { nd->SetValueBool(v); }; }
            else if (k == 7) { const double v = genDbl(g); f = [=] { nd->SetValueDbl(v); }; if (m->kids.empty()) { nd->SetValueDbl(v); wstring s; double r = 0; PBT_REQUIRE("value-double", nd->TryGetValue(&s) && nd->TryGetValueAsDouble(&r) && closeTo(r, v, k15), "the double ", v, " is read back as ", r); t = s; } }
            else { const float v = (float)g.range0(-1000000, 1000000) * (float)pow(10.0, (double)g.range(-20, 20)); f = [=] { nd->SetValueFlt(v); }; if (m->kids.empty()) { nd->SetValueFlt(v); wstring s; float r = 0; PBT_REQUIRE("value-float", nd->TryGetValue(&s) && nd->TryGetValueAsFloat(&r) && closeTo(r, v, k6), "the float ", v, " is read back as ", r); t = s; } }
            if (!m->kids.empty()) { exp("setting the value of a node with child nodes", LibCZIMetadataBuilderException::ErrorType::CannotSetValueToNode, f); g.cls("set-refused"); } else { f(); setText(t); g.cls("set"); } break;
        }
        case 1: { const wstring a = g.of<wstring>({ L"Id", L"Name", L"q", L"\u00e4" }); wstring v = g.chance(1, 8) ? wstring() : xt::genText(g, 10); if (g.coin()) nd->SetAttribute(a.c_str(), v.c_str()); else nd->SetAttribute(utf8(a).c_str(), utf8(v).c_str()); bool f = false; for (auto& x : m->attrs) if (x.first == a) { x.second = v; f = true; } if (!f) m->attrs.push_back({ a, v }); break; }
        case 3: { const wstring nm = xt::genName(g, 4); auto c = nd->AppendChildNode(utf8(nm).c_str()); Node k; k.name = nm; m->kids.push_back(k); PBT_REQUIRE("append", c && c->Name() == nm, "the appended node is called ", show(c->Name())); if (m->hasText) { g.cls("mixed"); } break; }
        case 4: { nd->RemoveChildren(); m->kids.clear(); m->hasText = false; m->text.clear(); break; }
        case 5: { nd->RemoveAttributes(); m->attrs.clear(); break; }
        case 6: { const wstring nm = !m->kids.empty() && g.coin() ? m->kids[g.below(m->kids.size())].name : xt::genName(g, 4); const bool r = nd->RemoveChild(utf8(nm).c_str()); bool e = false; for (size_t k = 0; k < m->kids.size(); ++k) if (m->kids[k].name == nm) { m->kids.erase(m->kids.begin() + (long)k); e = true; break; } PBT_REQUIRE("remove-child", r == e, "removing child ", show(nm), " delivers ", r); break; }
        default: { const wstring nm = !m->attrs.empty() && g.coin() ? m->attrs[g.below(m->attrs.size())].first : wstring(L"Name"); const bool r = nd->RemoveAttribute(utf8(nm).c_str()); bool e = false; for (size_t k = 0; k < m->attrs.size(); ++k) if (m->attrs[k].first == nm) { m->attrs.erase(m->attrs.begin() + (long)k); e = true; break; } PBT_REQUIRE("remove-attribute", r == e, "removing attribute ", show(nm), " delivers ", r); break; }
        }
        xt::same("op-node", nd.get(), *m, "the node just changed");
    }
    xt::same("built", b->GetRootNode().get(), model, "the built tree");
    // what is written and parsed again means the same
    bool mixed = false; function<void(const Node&)> scan = [&](const Node& q) { mixed = mixed || (q.hasText && !q.kids.empty()); for (auto& k : q.kids) scan(k); }; scan(model);
    const bool indent = !mixed && g.coin(); const string x = b->GetXml(indent); auto md = metaOf(x, g.chance(1, 4)); PBT_REQUIRE("well-formed", md->IsXmlValid(), "the XML is malformed: ", x); Node doc; doc.kids.push_back(model);
    xt::same("read", md->GetChildNodeReadonly("ImageDocument").get(), model, "the tree read from the XML"); if (!model.kids.empty()) xt::byPath(g, "read-path", md->GetChildNodeReadonly("ImageDocument").get(), model, 2);
    auto b2 = CreateMetadataBuilderFromXml(md->GetXml()); if (!mixed) xt::same("builder-again", b2->GetRootNode().get(), model, "the tree built from the XML");
}

// ---------------------------------------------------------------- document information
static void docinfo(Gen& g)
{
    auto b = CreateMetadataBuilder(); auto rt = [&] { return b->GetRootNode(); };
    // unrelated content that must not matter
    if (g.chance(1, 3)) rt()->GetOrCreateChildNode("Metadata/Information/User/Name")->SetValue(L"someone else");
    GeneralDocumentInfo gi; struct F { bool GeneralDocumentInfo::* valid; wstring GeneralDocumentInfo::* val; const char* nm; }; static const F fs[] = { { &GeneralDocumentInfo::name_valid, &GeneralDocumentInfo::name, "Name" }, { &GeneralDocumentInfo::title_valid, &GeneralDocumentInfo::title, "Title" }, { &GeneralDocumentInfo::userName_valid, &GeneralDocumentInfo::userName, "UserName" }, { &GeneralDocumentInfo::description_valid, &GeneralDocumentInfo::description, "Description" }, { &GeneralDocumentInfo::comment_valid, &GeneralDocumentInfo::comment, "Comment" }, { &GeneralDocumentInfo::keywords_valid, &GeneralDocumentInfo::keywords, "Keywords" }, { &GeneralDocumentInfo::creationDateTime_valid, &GeneralDocumentInfo::creationDateTime, "CreationDate" } };
    const bool hasGi = g.chance(2, 3); int set = 0;
    if (hasGi)
    {
        for (auto& f : fs) { const wstring s = genStr(g); if (g.coin()) { gi.*(f.valid) = true; gi.*(f.val) = s; ++set; } else gi.*(f.val) = s; }
        if (g.coin()) { gi.rating = (int)g.range0(INT32_MIN, INT32_MAX); gi.rating_valid = true; ++set; } else gi.rating = 5;
        // set through the setters sometimes
        if (g.chance(1, 4)) { const wstring s = genStr(g); switch (g.below(7)) { case 0: gi.SetName(s); gi.name = s; break; case 1: gi.SetTitle(s); break; case 2: gi.SetUserName(s); break; case 3: gi.SetDescription(s); break; case 4: gi.SetComment(s); break; case 5: gi.SetKeywords(s); break; default: gi.SetRating(3); if (!gi.rating_valid || gi.rating != 3) pbt::fail("setter", "SetRating did not set"); } ++set; }
        MetadataUtils::WriteGeneralDocumentInfo(b.get(), gi); if (g.chance(1, 5)) MetadataUtils::WriteGeneralDocumentInfo(b.get(), gi);
    }
    // scaling
    ScalingInfoEx sc; const int scMode = (int)g.below(3); double* sv[3] = { &sc.scaleX, &sc.scaleY, &sc.scaleZ }; wstring* su[3] = { &sc.defaultUnitFormatX, &sc.defaultUnitFormatY, &sc.defaultUnitFormatZ };
    if (scMode) { for (int k = 0; k < 3; ++k) { if (g.chance(2, 3)) *sv[k] = genDbl(g); else if (g.chance(1, 4)) *sv[k] = INFINITY; if (scMode == 2 && g.coin()) *su[k] = xt::genText(g, 6); } if (scMode == 1) MetadataUtils::WriteScalingInfo(b.get(), sc); else MetadataUtils::WriteScalingInfoEx(b.get(), sc); }
    // dimensions
    map<DimensionIndex, pair<bool, int>> start, size; for (int k = 0; k < 9; ++k) { if (g.chance(1, 4)) { const int v = (int)g.range0(-100000, 100000); start[kDims[k]] = { true, v }; rt()->GetOrCreateChildNode(cat("Metadata/Information/Image/Start", kDimChar[k]))->SetValueI32(v); } if (g.chance(1, 3)) { const int v = (int)g.range0(-100000, 1000000); size[kDims[k]] = { true, v }; MetadataUtils::WriteDimensionSize(b.get(), kDims[k], v); } }
    int imgW = -1, imgH = -1, mSize = -1; if (g.coin()) { imgW = (int)g.range0(0, INT32_MAX); imgH = (int)g.range0(0, INT32_MAX); MetadataUtils::WriteImageSizeInformation(b.get(), imgW, imgH); } if (g.coin()) { mSize = (int)g.range0(0, INT32_MAX); MetadataUtils::WriteMIndexSizeInformation(b.get(), mSize); }
    // T and Z
    struct Axis { int mode = 0; bool hasStart = false; XmlDateTime t; double z = 0, off = NAN, inc = NAN; vector<double> list; } T, Z; T.t.Clear();
    auto genAxis = [&](Axis& a, bool isT) { a.mode = (int)g.below(4); if (a.mode > 2) a.mode = 0; if (!a.mode) return; a.hasStart = g.chance(2, 3); if (isT) a.t = genDt(g); a.z = a.hasStart ? genDbl(g) : NAN; if (a.mode == 1) { if (g.chance(4, 5)) a.off = genDbl(g); if (g.chance(4, 5)) a.inc = genDbl(g); } else { const int n = (int)g.range(0, 5); for (int k = 0; k < n; ++k) a.list.push_back(g.chance(1, 40) ? 4.9e-324 * (double)g.range(1, 99) : genDbl(g)); } auto fn = [&a](int i) { return i < (int)a.list.size() ? a.list[(size_t)i] : i % 2 ? NAN : INFINITY; }; if (isT) { if (a.mode == 1) MetadataUtils::WriteDimInfoT_Interval(b.get(), a.hasStart ? &a.t : nullptr, a.off, a.inc); else MetadataUtils::WriteDimInfoT_List(b.get(), a.hasStart ? &a.t : nullptr, fn); } else { if (a.mode == 1) MetadataUtils::WriteDimInfoZ_Interval(b.get(), a.z, a.off, a.inc); else MetadataUtils::WriteDimInfoZ_List(b.get(), a.z, fn); } };
    genAxis(T, true); genAxis(Z, false);
    const char* kZ = Z.mode ? "Metadata/Information/Dimensions/Z/" : g.coin() ? "Metadata/Information/Image/Dimensions/Z/" : "Metadata/Information/Dimensions/Z/"; int hand = -1, dir = -1, drive = -1; double speed = NAN; bool zNodes = false;
    static const char* hs[] = { "LeftHanded", "RightHanded", "Undefined" }; static const IDimensionZInfo::XyzHandedness he[] = { IDimensionZInfo::XyzHandedness::LeftHanded, IDimensionZInfo::XyzHandedness::RightHanded, IDimensionZInfo::XyzHandedness::Undefined };
    static const char* ds[] = { "FromSpecimenToObjective", "FromObjectiveToSpecimen", "Undefined" }; static const IDimensionZInfo::ZaxisDirection de[] = { IDimensionZInfo::ZaxisDirection::FromSpecimenToObjective, IDimensionZInfo::ZaxisDirection::FromObjectiveToSpecimen, IDimensionZInfo::ZaxisDirection::Undefined };
    static const char* ms[] = { "Continuous", "Step" }; static const IDimensionZInfo::ZDriveMode me[] = { IDimensionZInfo::ZDriveMode::Continuous, IDimensionZInfo::ZDriveMode::Step };
    if (g.chance(1, 3)) { zNodes = true; auto put = [&](const char* nm, const string& v) { rt()->GetOrCreateChildNode(cat(kZ, nm))->SetValue(g.chance(1, 5) ? " " + v + "  " : v); }; bool any = false; if (g.coin()) { hand = (int)g.below(3); put("XYZHandedness", hs[hand]); any = true; } if (g.coin()) { dir = (int)g.below(3); put("ZAxisDirection", ds[dir]); any = true; } if (g.coin()) { drive = (int)g.below(2); put("ZDriveMode", ms[drive]); any = true; } if (g.coin()) { speed = genDbl(g); rt()->GetOrCreateChildNode(cat(kZ, "ZDriveSpeed"))->SetValueDbl(speed); any = true; } if (g.chance(1, 8) && hand < 0) { put("XYZHandedness", "Sideways"); any = true; } if (!any) put("Other", "x"); }
    // custom attributes
    struct Cv { int type; wstring s; bool b; int i; double d; float f; }; map<string, Cv> cv; const int nc = g.chance(1, 2) ? (int)g.range(1, 4) : 0;
    for (int k = 0; k < nc; ++k)
    {
        const string key = g.of<string>({ "a", "_x", "Key1", "longer_key_9", "Xm", "xmk", "b2" }); Cv v; v.type = (int)g.below(5); v.s = xt::genText(g, 12); v.b = g.coin(); v.i = (int)g.range0(INT32_MIN, INT32_MAX); v.d = genDbl(g); v.f = (float)g.range0(-99999, 99999) * 0.001f; CustomValueVariant var;
        switch (v.type) { case 0: var = CustomValueVariant(utf8(v.s)); break; case 1: var = CustomValueVariant(v.b); break; case 2: var = CustomValueVariant((int32_t)v.i); break; case 3: var = CustomValueVariant(v.d); break; default: var = CustomValueVariant(v.f); }
        MetadataUtils::SetOrAddCustomKeyValuePair(b.get(), key, var); cv[key] = v;
    }
    if (nc && g.chance(1, 3)) { const string bad = g.of<string>({ "", "1a", "a b", "a/b", "-x", "xmlkey", "XML", "xMl", "a[0]", "a-b", "a=b" }); bool thrown = false; try { MetadataUtils::SetOrAddCustomKeyValuePair(b.get(), bad, CustomValueVariant((int32_t)1)); } catch (invalid_argument&) { thrown = true; } PBT_REQUIRE("custom-key", thrown, "the key \"", bad, "\" is accepted"); bool t2 = false; try { MetadataUtils::SetOrAddCustomKeyValuePair(b.get(), "ok", CustomValueVariant()); } catch (invalid_argument&) { t2 = true; } PBT_REQUIRE("custom-key", t2, "a value without type is accepted"); }
    string x = b->GetXml(g.coin()); if (g.chance(1, 6)) { auto b2 = CreateMetadataBuilderFromXml(x); x = b2->GetXml(); } if (g.tracing()) g.d() << x;
    auto md = metaOf(x, g.chance(1, 5)); PBT_REQUIRE("well-formed", md->IsXmlValid(), "the XML is malformed: ", x); auto info = md->GetDocumentInfo(); if (set > 0 || scMode || !size.empty() || T.mode || Z.mode || nc) g.nontrivial();
    // ---- general
    const auto r = info->GetGeneralDocumentInfo(); for (auto& f : fs) { PBT_REQUIRE("general", r.*(f.valid) == (hasGi && gi.*(f.valid)), f.nm, " is ", r.*(f.valid) ? "" : "not ", "valid; XML: ", x); if (r.*(f.valid)) PBT_REQUIRE("general", r.*(f.val) == gi.*(f.val), f.nm, " is ", show(r.*(f.val)), " instead of ", show(gi.*(f.val))); } PBT_REQUIRE("general", r.rating_valid == (hasGi && gi.rating_valid) && (!r.rating_valid || r.rating == gi.rating), "rating is ", r.rating_valid, " ", r.rating, " instead of ", gi.rating);
    g.cls(hasGi ? "general" : "no-general");
    // ---- scaling
    const auto s1 = info->GetScalingInfo(); const auto s2 = info->GetScalingInfoEx(); for (int k = 0; k < 3; ++k) { const char d = "XYZ"[k]; const bool v = scMode && isfinite(*sv[k]); PBT_REQUIRE("scaling", s1.IsScaleValid(d) == v && s2.IsScaleValid(d) == v, "scale of ", d, " valid: ", s1.IsScaleValid(d), s2.IsScaleValid(d)); if (v) PBT_REQUIRE("scaling", closeTo(s1.GetScale(d), *sv[k], k15) && closeTo(s2.GetScale(d), *sv[k], k15), "scale of ", d, " is ", s1.GetScale(d), "/", s2.GetScale(d), " instead of ", *sv[k]); PBT_REQUIRE("scaling", s2.GetDefaultUnitFormat(d) == *su[k], "unit of ", d, " is ", show(s2.GetDefaultUnitFormat(d)), " instead of ", show(*su[k])); } g.cls(scMode ? "scaling" : "no-scaling");
    // ---- dimensions
    set = 0; vector<DimensionIndex> en; info->EnumDimensions([&](DimensionIndex d) { en.push_back(d); return true; }); std::set<DimensionIndex> want; for (auto& p : start) want.insert(p.first); for (auto& p : size) want.insert(p.first); PBT_REQUIRE("dimensions", std::set<DimensionIndex>(en.begin(), en.end()) == want && en.size() == want.size(), "enumerating delivers ", en.size(), " dimensions, written were ", want.size());
    { auto v = info->GetDimensions(); PBT_REQUIRE("dimensions", v.size() == want.size() && std::set<DimensionIndex>(v.begin(), v.end()) == want, "GetDimensions delivers ", v.size()); }
    for (int k = 0; k < 9; ++k) { auto di = info->GetDimensionInfo(kDims[k]); PBT_REQUIRE("dimensions", (bool)di == (want.count(kDims[k]) > 0), "dimension ", kDimChar[k], " is ", di ? "" : "not ", "reported"); if (!di) continue; const int st = start.count(kDims[k]) ? start[kDims[k]].second : 0, sz = size.count(kDims[k]) ? size[kDims[k]].second : 1; int a = -7, e = -7; di->GetInterval(&a, &e); bool as = false, ae = false; di->GetIntervalIsExplicitlyStated(&as, &ae); PBT_REQUIRE("dimensions", di->GetDimension() == kDims[k] && a == st && e == st + sz && as == (start.count(kDims[k]) > 0) && ae == (size.count(kDims[k]) > 0), "dimension ", kDimChar[k], " is ", a, "..", e, " instead of ", st, "..", st + sz); di->GetInterval(nullptr, nullptr); di->GetIntervalIsExplicitlyStated(nullptr, nullptr); }
    auto nodeInt = [&](const char* nm, int want) { auto n = md->GetChildNodeReadonly(cat("ImageDocument/Metadata/Information/Image/", nm).c_str()); int v = -1; PBT_REQUIRE("image-size", (bool)n == (want >= 0) && (!n || (n->TryGetValueAsInt32(&v) && v == want)), nm, " is ", v, " instead of ", want); }; nodeInt("SizeX", imgW); nodeInt("SizeY", imgH); nodeInt("SizeM", mSize);
    // ---- T and Z
    auto list = [&](const vector<double>& a, const vector<double>& w) { if (a.size() != w.size()) return false; for (size_t k = 0; k < a.size(); ++k) if (!closeTo(a[k], w[k], k15) && !(fabs(w[k]) < 1e-300 && fabs(a[k] - w[k]) < 1e-320)) return false; return true; };
    const bool tWritten = T.mode && (T.hasStart || T.mode == 2 || isfinite(T.off) || isfinite(T.inc)), zWritten = (Z.mode && (Z.hasStart || Z.mode == 2 || isfinite(Z.off) || isfinite(Z.inc))) || zNodes;
    auto ti = info->GetDimensionTInfo(); PBT_REQUIRE("t-info", (bool)ti == tWritten, "time information is ", ti ? "" : "not ", "delivered; XML: ", x);
    if (ti) { g.cls("t-info"); XmlDateTime t; t.Clear(); const bool h = ti->TryGetStartTime(&t); PBT_REQUIRE("t-start", h == T.hasStart && (!h || sameDt(t, T.t)), "start time is ", h ? dt(t) : "absent", " instead of ", T.hasStart ? dt(T.t) : "absent"); double o = 0, i = 0; const bool iv = T.mode == 1 && (isfinite(T.off) || isfinite(T.inc)); PBT_REQUIRE("t-interval", ti->TryGetIntervalDefinition(&o, &i) == iv && (!iv || ((!isfinite(T.off) || closeTo(o, T.off, k15)) && (!isfinite(T.inc) || closeTo(i, T.inc, k15)))), "time interval is ", o, ",", i, " instead of ", T.off, ",", T.inc); vector<double> l; PBT_REQUIRE("t-list", ti->TryGetOffsetsList(&l) == (T.mode == 2) && (T.mode != 2 || list(l, T.list)), "the list of times has ", l.size(), " entries instead of ", T.list.size(), ", or they differ; XML: ", x); }
    auto zi = info->GetDimensionZInfo(); PBT_REQUIRE("z-info", (bool)zi == zWritten, "z information is ", zi ? "" : "not ", "delivered; XML: ", x);
    if (zi)
    {
        g.cls("z-info"); double p = 0; const bool h = zi->TryGetReferencePosition(&p); PBT_REQUIRE("z-start", h == (Z.mode && Z.hasStart) && (!h || closeTo(p, Z.z, k15)), "start position is ", h, " ", p, " instead of ", Z.z); double o = 0, i = 0; const bool iv = Z.mode == 1 && (isfinite(Z.off) || isfinite(Z.inc)); PBT_REQUIRE("z-interval", zi->TryGetIntervalDefinition(&o, &i) == iv && (!iv || ((!isfinite(Z.off) || closeTo(o, Z.off, k15)) && (!isfinite(Z.inc) || closeTo(i, Z.inc, k15)))), "z interval is ", o, ",", i, " instead of ", Z.off, ",", Z.inc); vector<double> l; PBT_REQUIRE("z-list", zi->TryGetPositionList(&l) == (Z.mode == 2) && (Z.mode != 2 || list(l, Z.list)), "the list of positions has ", l.size(), " entries instead of ", Z.list.size(), ", or they differ; XML: ", x);
        IDimensionZInfo::XyzHandedness hh; IDimensionZInfo::ZaxisDirection dd; IDimensionZInfo::ZDriveMode mm; double sp = 0; PBT_REQUIRE("z-handedness", zi->TryGetXyzHandedness(&hh) == (hand >= 0) && (hand < 0 || hh == he[hand]), "handedness differs from ", hand < 0 ? "(none)" : hs[hand]); PBT_REQUIRE("z-direction", zi->TryGetZAxisDirection(&dd) == (dir >= 0) && (dir < 0 || dd == de[dir]), "axis direction differs from ", dir < 0 ? "(none)" : ds[dir]); PBT_REQUIRE("z-drive-mode", zi->TryGetZDriveMode(&mm) == (drive >= 0) && (drive < 0 || mm == me[drive]), "drive mode differs from ", drive < 0 ? "(none)" : ms[drive]); PBT_REQUIRE("z-drive-speed", zi->TryZDriveSpeed(&sp) == isfinite(speed) && (!isfinite(speed) || closeTo(sp, speed, k15)), "drive speed is ", sp, " instead of ", speed);
    }
    // ---- custom attributes
    for (auto& p : cv) { auto n = md->GetChildNodeReadonly(("ImageDocument/Metadata/Information/CustomAttributes/KeyValue/" + p.first).c_str()); wstring t, v; PBT_REQUIRE("custom", n && n->TryGetAttribute(L"Type", &t), "custom value ", p.first, " is not there or has no type"); static const wchar_t* tn[] = { L"String", L"Boolean", L"Int32", L"Double", L"Float" }; PBT_REQUIRE("custom", t == tn[p.second.type], "custom value ", p.first, " has type ", show(t)); bool bo = false; int i = 0; double d = 0; float f = 0; bool ok = false; switch (p.second.type) { case 0: ok = n->TryGetValue(&v) && v == p.second.s; break; case 1: ok = n->TryGetValueAsBool(&bo) && bo == p.second.b; break; case 2: ok = n->TryGetValueAsInt32(&i) && i == p.second.i; break; case 3: ok = n->TryGetValueAsDouble(&d) && closeTo(d, p.second.d, k15); break; default: ok = n->TryGetValueAsFloat(&f) && closeTo(f, p.second.f, k6); } PBT_REQUIRE("custom", ok, "custom value ", p.first, " of type ", show(t), " reads back differently; XML: ", x); g.cls("custom"); }
    if (cv.empty()) PBT_REQUIRE("custom", !md->GetChildNodeReadonly("ImageDocument/Metadata/Information/CustomAttributes/KeyValue/Key1"), "a custom value is there that was not written");
    PBT_REQUIRE("display", !info->GetDisplaySettings(), "display settings are delivered though none were written"); PBT_REQUIRE("channels", !info->GetDimensionChannelsInfo(), "channel information is delivered though none was written");
}

// ---------------------------------------------------------------- date/time texts
static void datetime(Gen& g)
{
    if (g.coin())
    {
        const XmlDateTime d = genDt(g); const string s = d.ToXmlString(); XmlDateTime r; r.Clear(); g.nontrivial(); g.cls("round-trip"); if (g.tracing()) g.d() << s; PBT_REQUIRE("datetime-valid", d.IsValid(), dt(d), " is not valid"); PBT_REQUIRE("datetime-round-trip", XmlDateTime::TryParse(s.c_str(), &r) && sameDt(d, r), dt(d), " is written as \"", s, "\" and read as ", dt(r)); PBT_REQUIRE("datetime-wide", utf8(d.ToXmlWstring()) == s && XmlDateTime::TryParse(d.ToXmlWstring().c_str(), &r) && sameDt(d, r), "the wide text of ", s, " differs"); PBT_REQUIRE("datetime-null", XmlDateTime::TryParse(s.c_str(), nullptr), s, " is not accepted without result"); return;
    }
    if (g.chance(1, 4)) { XmlDateTime d = genDt(g); switch (g.below(7)) { case 0: d.mon = g.of<int>({ 0, 13, -1 }); break; case 1: d.mday = daysIn(d.year, d.mon) + 1; break; case 2: d.mday = 0; break; case 3: d.hour = g.of<int>({ 24, -1 }); break; case 4: d.min = g.of<int>({ 60, -1 }); break; case 5: d.sec = g.of<int>({ 61, -1 }); break; default: d.year = g.of<int>({ 10000, -10000, INT32_MIN, INT32_MAX }); } g.cls("invalid-value"); g.nontrivial(); bool t = false; try { d.ToXmlString(); } catch (invalid_argument&) { t = true; } PBT_REQUIRE("datetime-invalid", !d.IsValid() && t, "the impossible time ", d.year, "-", d.mon, "-", d.mday, "T", d.hour, ":", d.min, ":", d.sec, " is accepted"); return; }
    // a text, perhaps damaged; judged by an own parser
    XmlDateTime d = genDt(g); if (d.sec > 59) d.sec = 59; if (g.chance(1, 8)) d.mday = (int)g.range(28, 31); char b[200]; snprintf(b, sizeof b, "%s%04d-%02d-%02dT%02d:%02d:%02d", d.year < 0 ? "-" : "", abs(d.year), d.mon, d.mday, d.hour, d.min, d.sec); string s = b; if (g.chance(1, 3)) s += "." + string((size_t)g.range(1, 9), (char)g.range('0', '9')); if (d.isUTC) s += "Z"; else if (d.HasTimeZoneOffset()) { if (d.offsetHours == 0 || true) { snprintf(b, sizeof b, "%c%02d:%02d", d.offsetHours < 0 ? '-' : '+', abs(d.offsetHours), d.offsetMinutes); s += b; } }
    const int dam = g.chance(1, 2) ? (int)g.range(1, 3) : 0; for (int k = 0; k < dam; ++k) { const size_t p = (size_t)g.below(s.size() + 1); switch (g.below(4)) { case 0: if (p < s.size()) s.erase(p, 1); break; case 1: s.insert(p, 1, "0123456789-+:TZ. x"[g.below(18)]); break; case 2: if (p < s.size()) s[p] = "0123456789-+:TZ. x"[g.below(18)]; break; default: s.insert(0, string((size_t)g.range(1, 14), (char)g.range('0', '9'))); } } if (g.chance(1, 5)) s = g.of<string>({ " ", "\t" }) + s + " ";
    size_t a = s.find_first_not_of(" \t"), e = s.find_last_not_of(" \t"); const string t = a == string::npos ? "" : s.substr(a, e - a + 1); size_t i = 0; bool ok = true, huge = false; XmlDateTime w; w.Clear();
    auto ch = [&](char c) { if (i < t.size() && t[i] == c) ++i; else ok = false; }; auto two = [&](int lo, int hi, int& v) { if (i + 1 < t.size() && isdigit((unsigned char)t[i]) && isdigit((unsigned char)t[i + 1])) { v = (t[i] - '0') * 10 + t[i + 1] - '0'; i += 2; if (v < lo || v > hi) ok = false; } else ok = false; };
    bool neg = false; if (i < t.size() && t[i] == '-') { neg = true; ++i; } string yd; while (i < t.size() && isdigit((unsigned char)t[i])) yd += t[i++]; if (yd.size() < 4 || (yd.size() > 4 && yd[0] == '0')) ok = false; if (yd.size() > 4) huge = true; if (ok && !huge) { w.year = stoi(yd); if (neg) w.year = -w.year; }
    if (ok) ch('-'); if (ok) two(1, 12, w.mon); if (ok) ch('-'); if (ok) two(1, 31, w.mday); if (ok) ch('T'); if (ok) two(0, 23, w.hour); if (ok) ch(':'); if (ok) two(0, 59, w.min); if (ok) ch(':'); if (ok) two(0, 60, w.sec); if (ok && i < t.size() && t[i] == '.') { ++i; const size_t q = i; while (i < t.size() && isdigit((unsigned char)t[i])) ++i; if (i == q) ok = false; } if (ok && i < t.size()) { if (t[i] == 'Z') { ++i; w.isUTC = true; } else if (t[i] == '+' || t[i] == '-') { const bool n = t[i] == '-'; ++i; two(0, 23, w.offsetHours); if (ok) ch(':'); if (ok) two(0, 59, w.offsetMinutes); if (n && ok) w.offsetHours = -w.offsetHours; } } if (i != t.size()) ok = false; if (ok && (huge || w.mday > daysIn(w.year, w.mon))) ok = false; if (t.find('\0') != string::npos) return;
    if (ok && w.sec == 60) return; g.cls(ok ? "text-valid" : huge ? "text-huge-year" : "text-invalid"); if (dam > 0 || ok) g.nontrivial(); if (g.tracing()) g.d() << s; XmlDateTime r; r.Clear(); r.year = 4711; bool got; try { got = XmlDateTime::TryParse(s.c_str(), &r); } catch (std::exception& ex) { pbt::fail("datetime-text", cat("parsing \"", s, "\" does not return: ", ex.what())); }
    PBT_REQUIRE("datetime-text", got == ok, "the text \"", s, "\" is ", got ? "accepted as " + dt(r) : string("refused")); if (got) PBT_REQUIRE("datetime-text", sameDt(r, w), "the text \"", s, "\" is read as ", dt(r)); else PBT_REQUIRE("datetime-text", r.year == 4711, "a refused text changed the result");
}

// ---------------------------------------------------------------- metadata prepared by the writer
static void prepared(Gen& g)
{
    DocGen o; o.maxTiles = 8; o.maxAtts = 0; Doc d = genDoc(g, o); if (d.sbs.empty()) throw pbt::Discard();
    auto ms = make_shared<MemStream>(); auto w = CreateCZIWriter(); w->Create(ms, make_shared<CCziWriterInfo>(d.guid)); for (auto& s : d.sbs) withAddInfo(s, [&](auto& i) { w->SyncAddSubBlock(i); });
    PrepareMetadataInfo pi; const bool own = g.chance(2, 3); map<int, pair<wstring, pair<bool, wstring>>> names; const int style = (int)g.below(3); const uint64_t seed = g.seed64(); if (own) pi.funcGenerateIdAndNameForChannel = [&](int c) { pbt::Rng r(seed + (uint64_t)c); wstring nm = style == 0 ? L"Ch" : style == 1 ? L"DAPI \u00fc" : (r.next() & 1 ? L"a, b" : L"c/d [1]; x=2"); nm += to_wstring(c); const wstring id = L"Channel:" + to_wstring(c); const bool has = (r.next() & 3) != 0; names[c] = { id, { has, nm } }; return make_tuple(utf8(id), make_tuple(has, utf8(nm))); };
    auto b = w->GetPreparedMetadata(pi); const string x = b->GetXml(); if (g.tracing()) g.d() << x; const SubBlockStatistics st = w->GetStatistics(); w->Close(); auto md = metaOf(x, g.chance(1, 4)); PBT_REQUIRE("well-formed", md->IsXmlValid(), "the XML is malformed: ", x); auto info = md->GetDocumentInfo(); g.nontrivial();
    auto nodeInt = [&](const string& nm, bool there, int want) { auto n = md->GetChildNodeReadonly(("ImageDocument/Metadata/Information/Image/" + nm).c_str()); int v = -1; PBT_REQUIRE("prepared-size", (bool)n == there && (!n || (n->TryGetValueAsInt32(&v) && v == want)), nm, " is ", n ? to_string(v) : string("absent"), " instead of ", there ? to_string(want) : string("absent"), "; ", x); };
    nodeInt("SizeX", true, st.boundingBox.w); nodeInt("SizeY", true, st.boundingBox.h); nodeInt("SizeM", st.IsMIndexValid(), st.maxMindex - st.minMindex + 1); for (int k = 0; k < 9; ++k) { int s0 = 0, sz = 0; const bool v = st.dimBounds.TryGetInterval(kDims[k], &s0, &sz); nodeInt(string("Size") + kDimChar[k], v, sz); auto di = info->GetDimensionInfo(kDims[k]); int e = 0; if (di) di->GetInterval(&s0, &e); PBT_REQUIRE("prepared-dimension", (bool)di == v && (!di || e == sz), "dimension ", kDimChar[k], " reads back as size ", e, " instead of ", sz); }
    int c0 = 0, cn = 0; auto ch = info->GetDimensionChannelsInfo(); const bool hasC = st.dimBounds.TryGetInterval(DimensionIndex::C, &c0, &cn); PBT_REQUIRE("prepared-channels", (bool)ch == hasC, "channel information is ", ch ? "" : "not ", "there"); g.cls(hasC ? "channels" : "no-channels"); if (!ch) return; PBT_REQUIRE("prepared-channels", ch->GetChannelCount() == cn, ch->GetChannelCount(), " channels are described, there are ", cn, "; ", x);
    for (int k = 0; k < cn; ++k)
    {
        auto c = ch->GetChannel(k); wstring id, nm; const bool hi = c->TryGetAttributeId(&id), hn = c->TryGetAttributeName(&nm); if (own) { auto& q = names[c0 + k]; PBT_REQUIRE("prepared-names", hi && id == q.first && hn == q.second.first && (!hn || nm == q.second.second), "channel ", c0 + k, " is called ", show(id), " ", hn ? show(nm) : "-", " instead of ", show(q.first), " ", q.second.first ? show(q.second.second) : "-"); } else PBT_REQUIRE("prepared-names", hi && !id.empty(), "channel ", k, " has no id");
        set<PixelType> ts; for (auto& s : d.sbs) { auto it = s.dims.find(DimensionIndex::C); if (it != s.dims.end() && it->second == c0 + k) ts.insert(s.pt); } PixelType pt = PixelType::Invalid; const bool hp = c->TryGetPixelType(&pt); if (ts.size() == 1) { static const set<PixelType> nameable = { PixelType::Gray8, PixelType::Gray16, PixelType::Gray32Float, PixelType::Bgr24, PixelType::Bgr48, PixelType::Bgr96Float, PixelType::Bgra32, PixelType::Gray64ComplexFloat, PixelType::Bgr192ComplexFloat }; if (nameable.count(*ts.begin())) PBT_REQUIRE("prepared-type", hp && pt == *ts.begin(), "pixel type of channel ", c0 + k, " is ", hp ? Utils::PixelTypeToInformalString(pt) : "absent"); } else if (ts.empty()) PBT_REQUIRE("prepared-type", !hp, "a pixel type is stated for channel ", c0 + k, " without tiles"); else if (hp) PBT_REQUIRE("prepared-type", ts.count(pt) > 0, "the pixel type stated for channel ", c0 + k, " occurs in none of its tiles");
    }
}

// ---------------------------------------------------------------- channel descriptions
static void channels(Gen& g)
{
    auto b = CreateMetadataBuilder(); struct Ch { map<string, wstring> s; map<string, double> d; map<string, int> i; map<string, size_t> e; map<string, bool> bo; bool hasId = false, hasName = false; wstring id, name; int det = 0; wstring detId; map<string, double> dd; map<string, size_t> de; int brightness = -1; int laser = 0; map<string, double> ld; map<string, size_t> le; int avg = INT_MIN, speed = INT_MIN; int64_t step = -1; bool col = false; Rgb8Color c{}; int exp = -1; uint64_t e0 = 0, e1 = 0; }; vector<Ch> cs((size_t)g.range(0, 3)); auto top = b->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Image/Dimensions/Channels");
    using CI = IDimensionChannelInfo; struct SF { const char* n; bool (CI::* get)(wstring*) const; }; static const SF sf[] = { { "ChannelUnit", &CI::TryGetChannelUnit }, { "DyeId", &CI::TryGetDyeId }, { "DyeDatabaseId", &CI::TryGetDyeDatabaseId }, { "Fluor", &CI::TryGetFluor }, { "Reflector", &CI::TryGetReflector }, { "CondenserContrast", &CI::TryGetCondenserContrast } };
    struct DF { const char* n; bool (CI::* get)(double*) const; }; static const DF df[] = { { "ExcitationWavelength", &CI::TryGetExcitationWavelength }, { "EmissionWavelength", &CI::TryGetEmissionWavelength }, { "EffectiveNA", &CI::TryGetEffectiveNA }, { "PinholeSize", &CI::TryGetPinholeSize }, { "PinholeSizeAiry", &CI::TryGetPinholeSizeAiry }, { "NDFilter", &CI::TryGetNDFilter }, { "DepthOfFocus", &CI::TryGetDepthOfFocus }, { "SectionThickness", &CI::TryGetSectionThickness }, { "NACondenser", &CI::TryGetNACondenser } };
    struct IF { const char* n; bool (CI::* get)(int*) const; }; static const IF inf[] = { { "ComponentBitCount", &CI::TryGetComponentBitCount }, { "PockelCellSetting", &CI::TryGetPocketCellSetting } };
    // enumerations: text -> value, and "none"
    struct EF { const char* n; vector<pair<const char*, int>> v; function<bool(CI*, int&)> get; };
#define E_(T, x) { #x, (int)T::x }
#define G_(F, T) [](CI* c, int& v) { T t; if (!c->F(&t)) return false; v = (int)t; return true; }
    static const EF ef[] = {
        { "ChannelType", { E_(DimensionChannelChannelType, Heightmap), E_(DimensionChannelChannelType, PalHR), E_(DimensionChannelChannelType, PalWidefield), E_(DimensionChannelChannelType, SimHR), E_(DimensionChannelChannelType, SimWidefield), E_(DimensionChannelChannelType, SimDWF), E_(DimensionChannelChannelType, AiryScanSum), E_(DimensionChannelChannelType, AiryScanRawSr), E_(DimensionChannelChannelType, AiryScanRaw), E_(DimensionChannelChannelType, AiryScanSr), E_(DimensionChannelChannelType, AiryScanVp), E_(DimensionChannelChannelType, AiryScanMb), E_(DimensionChannelChannelType, AiryScanRingSheppardSum), E_(DimensionChannelChannelType, OnlineUnmixing), E_(DimensionChannelChannelType, Unspecified) }, G_(TryGetChannelType, DimensionChannelChannelType) },
        { "PixelType", { E_(PixelType, Gray8), E_(PixelType, Gray16), E_(PixelType, Gray32Float), E_(PixelType, Bgr24), E_(PixelType, Bgr48), E_(PixelType, Bgr96Float), E_(PixelType, Bgra32), E_(PixelType, Gray64ComplexFloat), E_(PixelType, Bgr192ComplexFloat), E_(PixelType, Gray32), E_(PixelType, Gray64Float) }, G_(TryGetPixelType, PixelType) },
        { "AcquisitionMode", { E_(DimensionChannelAcquisitionMode, WideField), E_(DimensionChannelAcquisitionMode, LaserScanningConfocalMicroscopy), E_(DimensionChannelAcquisitionMode, SpinningDiskConfocal), E_(DimensionChannelAcquisitionMode, SlitScanConfocal), E_(DimensionChannelAcquisitionMode, MultiPhotonMicroscopy), E_(DimensionChannelAcquisitionMode, StructuredIllumination), E_(DimensionChannelAcquisitionMode, SingleMoleculeImaging), E_(DimensionChannelAcquisitionMode, TotalInternalReflection), E_(DimensionChannelAcquisitionMode, FluorescenceLifetime), E_(DimensionChannelAcquisitionMode, SpectralImaging), E_(DimensionChannelAcquisitionMode, PALM), E_(DimensionChannelAcquisitionMode, STORM), E_(DimensionChannelAcquisitionMode, STED), E_(DimensionChannelAcquisitionMode, TIRF), E_(DimensionChannelAcquisitionMode, FSM), E_(DimensionChannelAcquisitionMode, LCM), E_(DimensionChannelAcquisitionMode, SPIM), E_(DimensionChannelAcquisitionMode, SEM), E_(DimensionChannelAcquisitionMode, FIB), { "FIB-SEM", (int)DimensionChannelAcquisitionMode::FIB_SEM }, E_(DimensionChannelAcquisitionMode, ApertureCorrelation), E_(DimensionChannelAcquisitionMode, Other) }, G_(TryGetAcquisitionMode, DimensionChannelAcquisitionMode) },
        { "IlluminationType", { E_(DimensionChannelIlluminationType, Transmitted), E_(DimensionChannelIlluminationType, Epifluorescence), E_(DimensionChannelIlluminationType, Oblique), E_(DimensionChannelIlluminationType, NonLinear), E_(DimensionChannelIlluminationType, Other) }, G_(TryGetIlluminationType, DimensionChannelIlluminationType) },
        { "ContrastMethod", { E_(DimensionChannelContrastMethod, Brightfield), E_(DimensionChannelContrastMethod, Phase), E_(DimensionChannelContrastMethod, DIC), E_(DimensionChannelContrastMethod, HoffmanModulation), E_(DimensionChannelContrastMethod, ObliqueIllumination), E_(DimensionChannelContrastMethod, PolarizedLight), E_(DimensionChannelContrastMethod, Darkfield), E_(DimensionChannelContrastMethod, Fluorescence), E_(DimensionChannelContrastMethod, MultiPhotonFluorescence), E_(DimensionChannelContrastMethod, Other) }, G_(TryGetContrastMethod, DimensionChannelContrastMethod) },
        { "PinholeGeometry", { E_(DimensionChannelPinholeGeometry, Circular), E_(DimensionChannelPinholeGeometry, Rectangular), E_(DimensionChannelPinholeGeometry, Other) }, G_(TryGetPinholeGeometry, DimensionChannelPinholeGeometry) } };
    using DS = IDimensionChannelDetectorSettings; struct DDF { const char* n; bool (DS::* get)(double*); }; static const DDF ddf[] = { { "PhotonConversionFactor", &DS::TryGetPhotonConversionFactor }, { "Gain", &DS::TryGetGain }, { "DigitalGain", &DS::TryGetDigitalGain }, { "Offset", &DS::TryGetOffset }, { "EMGain", &DS::TryGetEMGain }, { "Voltage", &DS::TryGetVoltage }, { "ReadOutRate", &DS::TryGetReadOutRate }, { "PixelMaximum", &DS::TryGetPixelMaximum }, { "PixelAccuracy", &DS::TryGetPixelAccuracy }, { "PixelScaleFactor", &DS::TryGetPixelScaleFactor } };
    using LS = IDimensionChannelLaserScanInfo; struct LDF { const char* n; bool (LS::* get)(double*); }; static const LDF ldf[] = { { "PixelTime", &LS::TryGetPixelTime }, { "LineTime", &LS::TryGetLineTime }, { "FrameTime", &LS::TryGetFrameTime }, { "SampleRotation", &LS::TryGetSampleRotation }, { "SampleOffsetX", &LS::TryGetSampleOffsetX }, { "SampleOffsetY", &LS::TryGetSampleOffsetY }, { "ZoomX", &LS::TryGetZoomX }, { "ZoomY", &LS::TryGetZoomY }, { "ZoomZ", &LS::TryGetZoomZ }, { "CropOffset", &LS::TryGetCropOffset }, { "LaserAttenuatorMeas", &LS::TryGetLaserAttenuatorMeas }, { "LaserBlanking", &LS::TryGetLaserBlanking }, { "LaserAttenuatorBleach", &LS::TryGetLaserAttenuatorBleach } };
    static const pair<const char*, ChannelDetectorSettingsBinning> bin[] = { { "1x1", ChannelDetectorSettingsBinning::_1x1 }, { "2x2", ChannelDetectorSettingsBinning::_2x2 }, { "4x4", ChannelDetectorSettingsBinning::_4x4 }, { "8x8", ChannelDetectorSettingsBinning::_8x8 }, { "Other", ChannelDetectorSettingsBinning::Other } };
    for (auto& c : cs)
    {
        auto n = top->AppendChildNode("Channel"); if (g.chance(2, 3)) { c.hasId = true; c.id = xt::genText(g, 8); n->SetAttribute(L"Id", c.id.c_str()); } if (g.chance(2, 3)) { c.hasName = true; c.name = xt::genText(g, 8); n->SetAttribute(L"Name", c.name.c_str()); }
        for (auto& f : sf) if (g.chance(1, 3)) { c.s[f.n] = genStr(g); n->GetOrCreateChildNode(f.n)->SetValue(c.s[f.n].c_str()); } for (auto& f : df) if (g.chance(1, 3)) { c.d[f.n] = genDbl(g); n->GetOrCreateChildNode(f.n)->SetValueDbl(c.d[f.n]); } for (auto& f : inf) if (g.chance(1, 3)) { c.i[f.n] = (int)g.range0(INT32_MIN, INT32_MAX); n->GetOrCreateChildNode(f.n)->SetValueI32(c.i[f.n]); } for (auto& f : ef) if (g.chance(1, 3)) { if (g.chance(1, 8)) { n->GetOrCreateChildNode(f.n)->SetValue("NoSuchThing"); continue; } const size_t v = (size_t)g.below(f.v.size()); c.e[f.n] = v; n->GetOrCreateChildNode(f.n)->SetValue(f.v[v].first); }
        if (g.chance(1, 3)) { c.col = true; c.c = Rgb8Color{ (uint8_t)g.below(256), (uint8_t)g.below(256), (uint8_t)g.below(256) }; char t[16]; snprintf(t, sizeof t, g.coin() ? "#%02x%02x%02x%02x" : "#%02X%02X%02X%02X", (unsigned)g.below(256), c.c.r, c.c.g, c.c.b); n->GetOrCreateChildNode("Color")->SetValue(t); } else if (g.chance(1, 4)) n->GetOrCreateChildNode("Color")->SetValue(g.of<wstring>({ L"", L"#12", L"red", L"#\u4e00\u4e00\u4e00\u4e00\u4e00\u4e00\u4e00\u4e00", L"#FF0000\U0001F300\U0001F300", L"#1234567", L"#GG0000", L"123456" }).c_str());
        if (g.chance(1, 3)) { c.exp = (int)g.below(3); c.e0 = g.seed64() >> g.below(64); c.e1 = g.seed64() >> g.below(64); const string sp = g.coin() ? " " : ""; n->GetOrCreateChildNode("ExposureTime")->SetValue(c.exp == 0 ? to_string(c.e0) : c.exp == 1 ? to_string(c.e0) + sp + "-" + sp + to_string(c.e1) : to_string(c.e0) + "-"); }
        if (g.chance(1, 3)) { c.det = 1; auto m = n->GetOrCreateChildNode("DetectorSettings"); if (g.coin()) { c.det = 2; c.detId = xt::genText(g, 6); m->GetOrCreateChildNode("Detector")->SetAttribute(L"Id", c.detId.c_str()); } for (auto& f : ddf) if (g.chance(1, 3)) { c.dd[f.n] = genDbl(g); m->GetOrCreateChildNode(f.n)->SetValueDbl(c.dd[f.n]); } if (g.coin()) { c.de["Binning"] = (size_t)g.below(5); m->GetOrCreateChildNode("Binning")->SetValue(bin[c.de["Binning"]].first); } if (g.coin()) { c.brightness = (int)g.below(2); m->GetOrCreateChildNode("UseBrightnessContrastCorrection")->SetValueBool(c.brightness != 0); } }
        if (g.chance(1, 3)) { c.laser = 1; auto m = n->GetOrCreateChildNode("LaserScanInfo"); for (auto& f : ldf) if (g.chance(1, 3)) { c.ld[f.n] = genDbl(g); m->GetOrCreateChildNode(f.n)->SetValueDbl(c.ld[f.n]); } if (g.coin()) { c.avg = (int)g.range0(-100, 100000); m->GetOrCreateChildNode("Averaging")->SetValueI32(c.avg); } if (g.coin()) { c.speed = (int)g.range0(-100, 100000); m->GetOrCreateChildNode("ScanSpeed")->SetValueI32(c.speed); } if (g.coin()) { c.step = g.range0(0, UINT32_MAX); m->GetOrCreateChildNode("LineStep")->SetValueUI32((unsigned)c.step); } }
    }
    const string x = b->GetXml(g.coin()); if (g.tracing()) g.d() << x; auto md = metaOf(x, g.chance(1, 6)); PBT_REQUIRE("well-formed", md->IsXmlValid(), "the XML is malformed: ", x); auto ci = md->GetDocumentInfo()->GetDimensionChannelsInfo(); PBT_REQUIRE("channels", (bool)ci && ci->GetChannelCount() == (int)cs.size(), "the number of channels differs from ", cs.size()); if (!cs.empty()) g.nontrivial();
    for (size_t k = 0; k < cs.size(); ++k)
    {
        auto c = ci->GetChannel((int)k); auto& w = cs[k]; wstring s; double d; int v; PBT_REQUIRE("channel-id", c->TryGetAttributeId(&s) == w.hasId && (!w.hasId || s == w.id), "the id of channel ", k, " is ", show(s)); PBT_REQUIRE("channel-name", c->TryGetAttributeName(&s) == w.hasName && (!w.hasName || s == w.name), "the name of channel ", k, " is ", show(s));
        for (auto& f : sf) PBT_REQUIRE("channel-text", ((*c).*(f.get))(&s) == (w.s.count(f.n) > 0) && (!w.s.count(f.n) || s == w.s[f.n]), f.n, " of channel ", k, " is ", show(s)); for (auto& f : df) PBT_REQUIRE("channel-number", ((*c).*(f.get))(&d) == (w.d.count(f.n) > 0) && (!w.d.count(f.n) || closeTo(d, w.d[f.n], k15)), f.n, " of channel ", k, " is ", d); for (auto& f : inf) PBT_REQUIRE("channel-int", ((*c).*(f.get))(&v) == (w.i.count(f.n) > 0) && (!w.i.count(f.n) || v == w.i[f.n]), f.n, " of channel ", k, " is ", v);
        for (auto& f : ef) { v = -1; const bool h = f.get(c.get(), v); PBT_REQUIRE("channel-enum", h == (w.e.count(f.n) > 0) && (!h || v == f.v[w.e[f.n]].second), f.n, " of channel ", k, " is ", h, " ", v, " for ", w.e.count(f.n) ? f.v[w.e[f.n]].first : "(none)"); }
        Rgb8Color col{}; PBT_REQUIRE("channel-color", c->TryGetColor(&col) == w.col && (!w.col || (col.r == w.c.r && col.g == w.c.g && col.b == w.c.b)), "the colour of channel ", k, " differs; ", x);
        RangeOrSingleValue<uint64_t> e{}; const bool he = c->TryGetExposureTime(&e); PBT_REQUIRE("channel-exposure", he == (w.exp >= 0) && (!he || (e.singleValue == (w.exp == 0) && e.startOrSingleValue == w.e0 && (w.exp == 0 || e.end == (w.exp == 1 ? w.e1 : UINT64_MAX)))), "the exposure time of channel ", k, " differs; ", x);
        auto ds = c->GetDetectorSettings(); PBT_REQUIRE("detector", (bool)ds == (w.det > 0), "detector settings of channel ", k); if (ds) { PBT_REQUIRE("detector", ds->TryGetDetectorRef(&s) == (w.det == 2) && (w.det != 2 || s == w.detId), "the detector of channel ", k, " is ", show(s)); for (auto& f : ddf) PBT_REQUIRE("detector", ((*ds).*(f.get))(&d) == (w.dd.count(f.n) > 0) && (!w.dd.count(f.n) || closeTo(d, w.dd[f.n], k15)), f.n, " of channel ", k, " is ", d); ChannelDetectorSettingsBinning bi; PBT_REQUIRE("detector", ds->TryGetBinning(&bi) == (w.de.count("Binning") > 0) && (!w.de.count("Binning") || bi == bin[w.de["Binning"]].second), "binning of channel ", k); bool br; PBT_REQUIRE("detector", ds->TryGetUseBrightnessContrastCorrection(&br) == (w.brightness >= 0) && (w.brightness < 0 || br == (w.brightness > 0)), "brightness correction of channel ", k); g.cls("detector"); }
        auto ls = c->GetLaserScanInfo(); PBT_REQUIRE("laser", (bool)ls == (w.laser > 0), "laser scan information of channel ", k); if (ls) { for (auto& f : ldf) PBT_REQUIRE("laser", ((*ls).*(f.get))(&d) == (w.ld.count(f.n) > 0) && (!w.ld.count(f.n) || closeTo(d, w.ld[f.n], k15)), f.n, " of channel ", k, " is ", d); uint32_t u; PBT_REQUIRE("laser", ls->TryGetAveraging(&v) == (w.avg != INT_MIN) && (w.avg == INT_MIN || v == w.avg), "averaging of channel ", k); PBT_REQUIRE("laser", ls->TryGetScanSpeed(&v) == (w.speed != INT_MIN) && (w.speed == INT_MIN || v == w.speed), "scan speed of channel ", k); PBT_REQUIRE("laser", ls->TryGetLineStep(&u) == (w.step >= 0) && (w.step < 0 || u == (uint32_t)w.step), "line step of channel ", k); g.cls("laser"); }
        PBT_REQUIRE("channel-absent", !c->GetLightSourcesSettings() && !c->GetSIMSettings() && !c->GetAiryscanSettings(), "settings of channel ", k, " are delivered that were not written");
    }
}

int main(int argc, char** argv)
{
    pbt::Config c; c.property = "P18";
    c.rule = "tree: a node was reached by a path; docinfo: some information was written; datetime: a valid text, or one altered; prepared: at least one tile; channels: at least one channel";
    c.assumptions = { "texts consist of characters XML can hold; a text of white space only counts as empty", "attribute values without tabs and line breaks", "custom attribute keys from a pool of valid and invalid names" };
    c.subs = { { "tree", 12000, 300000, tree }, { "docinfo", 4000, 200000, docinfo }, { "datetime", 3000, 300000, datetime }, { "prepared", 1500, 80000, prepared }, { "channels", 6000, 150000, channels } };
    c.caseCpuSeconds = 20; c.caseWallSeconds = 60; return pbt::main(argc, argv, c);
}
