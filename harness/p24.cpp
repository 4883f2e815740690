// P24: coordinates, bounds and index sets behave as values; their texts are parsed exactly
#include "czi.hpp"
#include <climits>
#include <set>
using namespace czi;
using namespace std;
typedef DimensionIndex D;
static const string DIMS = "ZCTRSIHVB"; // in the order of the enumeration
static D dimAt(int k) { return (D)(k + 1); }
static int genInt(Gen& g) { switch (g.weighted({ 6, 2, 2, 1 })) { case 0: return (int)g.range0(-20, 20); case 1: return (int)g.range0(-1000000, 1000000); case 2: return g.of<int>({ INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 1234567890, -1234567890, 1000000000, 999999999 }); default: return (int)(uint32_t)g.seed64(); } }
typedef map<int, int> CMap; typedef map<int, pair<int, int>> BMap;
static string show(const CMap& m) { string s; for (auto& kv : m) s += DIMS[kv.first] + to_string(kv.second); return s; }
static string show(const BMap& m) { string s; for (auto& kv : m) s += DIMS[kv.first] + to_string(kv.second.first) + ":" + to_string(kv.second.second); return s; }
static CMap asMap(const IDimCoordinate& c) { CMap m; for (int k = 0; k < 9; ++k) { int v = 77; const bool b = c.TryGetPosition(dimAt(k), &v); PBT_REQUIRE("query", b == c.IsValid(dimAt(k)), "IsValid and TryGetPosition disagree for ", DIMS[k]); PBT_REQUIRE("query", b || v == 77, "a value is delivered for the absent dimension ", DIMS[k]); if (b) m[k] = v; } PBT_REQUIRE("query", c.GetNumberOfValidDimensions() == (int)m.size(), "number of valid dimensions is ", c.GetNumberOfValidDimensions(), " for ", show(m)); return m; }
static BMap asMap(const IDimBounds& c) { BMap m; for (int k = 0; k < 9; ++k) { int s = 77, n = 78; const bool b = c.TryGetInterval(dimAt(k), &s, &n); PBT_REQUIRE("query", b == c.IsValid(dimAt(k)), "IsValid and TryGetInterval disagree for ", DIMS[k]); int s2 = 77, n2 = 78; c.TryGetInterval(dimAt(k), &s2, nullptr); c.TryGetInterval(dimAt(k), nullptr, &n2); PBT_REQUIRE("query", s2 == s && n2 == n, "the interval of ", DIMS[k], " depends on what is asked for"); if (b) m[k] = { s, n }; } return m; }
static CDimCoordinate mk(const CMap& m) { CDimCoordinate c; for (auto& kv : m) c.Set(dimAt(kv.first), kv.second); return c; }
static CDimBounds mk(const BMap& m) { CDimBounds c; for (auto& kv : m) c.Set(dimAt(kv.first), kv.second.first, kv.second.second); return c; }
static CMap genC(Gen& g) { CMap m; const int n = (int)g.range(0, 5); for (int k = 0; k < n; ++k) m[(int)g.below(9)] = genInt(g); return m; }

static void model(Gen& g)
{
    CMap c; BMap b; CDimCoordinate C; CDimBounds B; string log; const int n = (int)g.size(1, 30); set<int> kinds;
    for (int k = 0; k < n; ++k)
    {
        const int d = (int)g.below(9); const int op = g.weighted({ 5, 2, 1, 1, 5, 2, 1, 1, 1 }); kinds.insert(op);
        switch (op)
        {
        case 0: { const int v = genInt(g); c[d] = v; C.Set(dimAt(d), v); log += pbt::cat(" c.Set(", DIMS[d], v, ")"); break; }
        case 1: c.erase(d); C.Clear(dimAt(d)); log += pbt::cat(" c.Clear(", DIMS[d], ")"); break;
        case 2: if (g.coin()) { c.clear(); C.Clear(); log += " c.Clear()"; } break;
        case 3: { CDimCoordinate E(&C); const CDimCoordinate F(C); CDimCoordinate A; A.Set(D::B, 9); A = E; C = g.coin() ? A : F; log += " c=copy"; break; }
        case 4: { const int s = genInt(g), z = genInt(g); b[d] = { s, z }; B.Set(dimAt(d), s, z); log += pbt::cat(" b.Set(", DIMS[d], s, ":", z, ")"); break; }
        case 5: b.erase(d); B.Clear(dimAt(d)); log += pbt::cat(" b.Clear(", DIMS[d], ")"); break;
        case 6: if (g.coin()) { b.clear(); B.Clear(); log += " b.Clear()"; } break;
        case 7: { CDimBounds E(&B); const CDimBounds F(B); CDimBounds A; A.Set(D::B, 9, 9); A = E; B = g.coin() ? A : F; log += " b=copy"; break; }
        default: { CDimCoordinate X{ { dimAt(d), 5 }, { D::B, -3 }, { dimAt(d), 6 } }; const CMap e = d == 8 ? CMap{ { 8, 6 } } : CMap{ { d, 6 }, { 8, -3 } }; PBT_REQUIRE("list", asMap(X) == e, "constructed from a list: ", show(asMap(X)), " instead of ", show(e));
            CDimBounds Y{ { dimAt(d), 5, 1 }, { D::B, -3, 2 }, { dimAt(d), 6, 4 } }; const BMap f = d == 8 ? BMap{ { 8, { 6, 4 } } } : BMap{ { d, { 6, 4 } }, { 8, { -3, 2 } } }; PBT_REQUIRE("list", asMap(Y) == f, "constructed from a list: ", show(asMap(Y)), " instead of ", show(f)); break; }
        }
        PBT_REQUIRE("map", asMap(C) == c, "after", log, ": coordinate is ", show(asMap(C)), ", should be ", show(c));
        PBT_REQUIRE("map", asMap(B) == b, "after", log, ": bounds are ", show(asMap(B)), ", should be ", show(b));
        PBT_REQUIRE("count", C.GetValidDimensionsCount() == (int)c.size() && B.IsEmpty() == b.empty(), "after", log, ": count or emptiness is wrong");
        // enumerating, with a stop after some items
        const size_t lim = (size_t)g.range(1, 10); vector<pair<int, int>> got; C.EnumValidDimensions([&](D x, int v) { got.push_back({ (int)x - 1, v }); return got.size() < lim; });
        vector<pair<int, int>> want; for (auto& kv : c) if (want.size() < lim) want.push_back(kv);
        PBT_REQUIRE("enumerate", got == want, "after", log, ": enumerating the coordinate with a stop after ", lim, " delivers ", got.size(), " items instead of ", want.size(), " (or other ones)");
        vector<pair<int, pair<int, int>>> gb, wb; B.EnumValidDimensions([&](D x, int s, int z) { gb.push_back({ (int)x - 1, { s, z } }); return gb.size() < lim; }); for (auto& kv : b) if (wb.size() < lim) wb.push_back(kv);
        PBT_REQUIRE("enumerate", gb == wb, "after", log, ": enumerating the bounds with a stop after ", lim, " is wrong");
    }
    if (g.tracing()) g.d() << log; if (kinds.size() >= 4) g.nontrivial();
}

// ---- reference parsers: 1 accepted, 0 refused, -1 not specified
static int dimOf(char c) { const size_t p = DIMS.find((char)toupper((unsigned char)c)); return p == string::npos || c == 0 ? -1 : (int)p; }
static bool dig(char c) { return c >= '0' && c <= '9'; }
/// digits as a value within int; false if beyond
static bool value(const string& digits, bool neg, int& v) { size_t k = 0; while (k + 1 < digits.size() && digits[k] == '0') ++k; if (digits.size() - k > 10) return false; long long x = 0; for (; k < digits.size(); ++k) x = x * 10 + (digits[k] - '0'); if (neg) x = -x; if (x > INT_MAX || x < INT_MIN) return false; v = (int)x; return true; }
static int refCoord(const string& t, CMap& m)
{
    size_t i = 0; auto sp = [&](bool sep) { while (i < t.size() && (t[i] == ' ' || t[i] == '\t' || (sep && (t[i] == ',' || t[i] == ';')))) ++i; };
    sp(true); if (i == t.size()) return t.empty() ? 1 : -1;
    while (i < t.size())
    {
        const int d = dimOf(t[i++]); if (d < 0) return 0; sp(false); bool neg = false; if (i < t.size() && (t[i] == '-' || t[i] == '+')) { neg = t[i] == '-'; ++i; sp(false); }
        string digits; while (i < t.size() && dig(t[i])) digits += t[i++]; if (digits.empty()) return 0; int v; if (!value(digits, neg, v)) return 0; if (m.count(d)) return 0; m[d] = v; sp(true);
    }
    return 1;
}
static int refBounds(const string& t, BMap& m)
{
    size_t i = 0; bool odd = false; auto sp = [&] { while (i < t.size() && strchr(" \t\r\n\v\f", t[i])) ++i; }; sp(); if (i) odd = true; // leading blanks are not specified
    auto num = [&](int& v) { bool neg = false; if (i < t.size() && (t[i] == '-' || t[i] == '+')) { neg = t[i] == '-'; ++i; } string digits; while (i < t.size() && dig(t[i])) digits += t[i++]; return !digits.empty() && value(digits, neg, v); };
    if (i == t.size()) return -1;
    while (i < t.size())
    {
        const int d = dimOf(t[i++]); if (d < 0) return 0; int s, z; if (!num(s) || i == t.size() || t[i++] != ':' || !num(z)) return 0; if (z == 0) return 0; if (z < 0) odd = true; if (m.count(d)) return 0; m[d] = { s, z }; sp();
    }
    return odd ? -1 : 1;
}
typedef vector<pair<int, int>> Ivs;
static int refSet(const string& t, Ivs& out)
{
    bool odd = false; vector<string> parts; string cur; for (char c : t + ",") { if (c == ',') { if (!cur.empty()) parts.push_back(cur); cur.clear(); } else cur += c; }
    for (string p : parts)
    {
        const size_t a = p.find_first_not_of(" \t"), z = p.find_last_not_of(" \t"); if (a == string::npos) { odd = true; continue; } p = p.substr(a, z - a + 1); size_t i = 0;
        auto sp = [&] { while (i < p.size() && (p[i] == ' ' || p[i] == '\t')) ++i; };
        auto num = [&](int& v) { bool neg = false, sign = false; if (i < p.size() && (p[i] == '-' || p[i] == '+')) { neg = p[i] == '-'; sign = true; ++i; sp(); } (void)sign; if (p.compare(i, 3, "inf") == 0) { i += 3; v = neg ? INT_MIN : INT_MAX; return true; } string digits; while (i < p.size() && dig(p[i])) digits += p[i++]; return !digits.empty() && value(digits, neg, v); };
        int f, e; if (!num(f)) return 0; sp(); if (i == p.size()) { out.push_back({ f, f }); continue; } if (p[i] != '-') return 0; ++i; if (i < p.size() && (p[i] == ' ' || p[i] == '\t')) odd = true; sp(); if (!num(e) || i != p.size()) return 0; if (f > e) return 0; out.push_back({ f, e });
    }
    return odd ? -1 : 1;
}
static string numText(Gen& g, int v, bool sp)
{
    long long x = v; string s; const string blank = sp && g.chance(1, 8) ? g.of<string>({ " ", "\t", "  " }) : ""; if (x < 0) { s = "-" + blank; x = -x; } else if (g.chance(1, 8)) s = "+" + blank;
    if (g.chance(1, 10)) s += string((size_t)g.range(1, 3), '0'); return s + to_string(x);
}
/// a small change of a text
static string damage(Gen& g, string t, const string& alphabet)
{
    const int n = (int)g.range(1, 3);
    for (int k = 0; k < n; ++k)
    {
        const size_t p = (size_t)g.below(t.size() + 1); const char c = alphabet[(size_t)g.below(alphabet.size())];
        switch (g.below(5)) { case 0: t.insert(p, 1, c); break; case 1: if (p < t.size()) t.erase(p, 1); break; case 2: if (p < t.size()) t[p] = c; break; case 3: if (!t.empty()) { const size_t a = (size_t)g.below(t.size()); t.insert(p, t.substr(a, (size_t)g.range(1, 6))); } break; default: t += c; break; }
    }
    return t;
}
static const string JUNK = "ZCTRSIHVBzctrsihvbXMAa0123456789+-+-:,; \t|.!_e";

static void coordText(Gen& g)
{
    CMap m = genC(g); const CDimCoordinate c = mk(m); const string canon = Utils::DimCoordinateToString(&c); CDimCoordinate back; back.Set(D::V, 3);
    PBT_REQUIRE("coord-text", Utils::StringToDimCoordinate(canon.c_str(), &back) && asMap(back) == m, "the coordinate ", show(m), " becomes the text ", pbt::cat('"', canon, '"'), " and that becomes ", show(asMap(back)));
    string t; vector<pair<int, int>> items(m.begin(), m.end()); g.shuffle(items);
    for (auto& kv : items) { t += g.coin() ? DIMS[kv.first] : (char)tolower(DIMS[kv.first]); if (g.chance(1, 10)) t += " "; t += numText(g, kv.second, true); t += g.of<string>({ "", "", ",", ";", " ", ", ", ";\t" }); }
    const bool bad = g.coin(); if (bad) t = damage(g, t, JUNK);
    CMap want; const int r = refCoord(t, want); CDimCoordinate got; got.Set(D::R, 4); got.Set(D::Z, -4); const CMap before = asMap(got); bool threw = false; g.cls(bad ? (r == 0 ? "coord-malformed" : "coord-changed") : "coord-valid");
    const bool ok = Utils::StringToDimCoordinate(t.c_str(), &got), ok2 = Utils::StringToDimCoordinate(t.c_str(), nullptr); CMap viaParse; try { viaParse = asMap(CDimCoordinate::Parse(t.c_str())); } catch (LibCZIStringParseException&) { threw = true; }
    if (g.tracing()) g.d() << "coordinate text \"" << t << "\" " << r;
    PBT_REQUIRE("coord-text", ok == ok2 && ok == !threw, "the ways of parsing \"", t, "\" disagree");
    if (r == 1) { PBT_REQUIRE("coord-text", ok, "the text \"", t, "\" is refused"); PBT_REQUIRE("coord-text", asMap(got) == want && viaParse == want, "the text \"", t, "\" becomes ", show(asMap(got)), " instead of ", show(want)); g.nontrivial(); }
    else if (r == 0) { PBT_REQUIRE("coord-text", !ok, "the malformed text \"", t, "\" is accepted as ", show(asMap(got))); PBT_REQUIRE("coord-text", asMap(got) == before, "a refused text changes the result"); g.nontrivial(); }
}

static void boundsText(Gen& g)
{
    BMap m; const int n = (int)g.range(1, 4); for (int k = 0; k < n; ++k) { int z = genInt(g); if (z <= 0) z = z == INT_MIN ? 1 : 1 - z; m[(int)g.below(9)] = { genInt(g), z }; } const CDimBounds b = mk(m); const string canon = Utils::DimBoundsToString(&b);
    auto parse = [](const string& t, BMap& r) { try { r = asMap(CDimBounds::Parse(t.c_str())); return true; } catch (LibCZIStringParseException&) { return false; } };
    BMap back; PBT_REQUIRE("bounds-text", parse(canon, back) && back == m, "the bounds ", show(m), " become the text \"", canon, "\" and that becomes ", show(back));
    string t; vector<pair<int, pair<int, int>>> items(m.begin(), m.end()); g.shuffle(items);
    for (auto& kv : items) { t += g.coin() ? DIMS[kv.first] : (char)tolower(DIMS[kv.first]); t += numText(g, kv.second.first, false) + ":" + numText(g, kv.second.second, false) + g.of<string>({ "", "", " ", "\t" }); }
    const bool bad = g.chance(2, 3); if (bad) t = damage(g, t, JUNK);
    BMap want, got; const int r = refBounds(t, want); const bool ok = parse(t, got); g.cls(bad ? (r == 0 ? "bounds-malformed" : "bounds-changed") : "bounds-valid"); if (g.tracing()) g.d() << "bounds text \"" << t << "\" " << r;
    if (r == 1) { PBT_REQUIRE("bounds-text", ok, "the text \"", t, "\" is refused"); PBT_REQUIRE("bounds-text", got == want, "the text \"", t, "\" becomes ", show(got), " instead of ", show(want)); g.nontrivial(); }
    else if (r == 0) { PBT_REQUIRE("bounds-text", !ok, "the malformed text \"", t, "\" is accepted as ", show(got)); g.nontrivial(); }
}

static void indexSet(Gen& g)
{
    string t; const int n = (int)g.range(1, 5);
    for (int k = 0; k < n; ++k)
    {
        if (k) t += ","; if (g.chance(1, 8)) t += " "; const int a = genInt(g), b = genInt(g); const int kind = g.weighted({ 3, 5, 1, 1 });
        if (kind == 0) t += numText(g, a, true); else if (kind == 1) t += numText(g, min(a, b), true) + g.of<string>({ "-", "-", " -" }) + numText(g, max(a, b), true); else if (kind == 2) t += g.of<string>({ "-inf-", "- inf-" }) + numText(g, a, true); else t += numText(g, a, true) + g.of<string>({ "-inf", "-+inf", "-+ inf" }); if (g.chance(1, 8)) t += "\t";
    }
    if (g.chance(1, 20)) t = ""; const bool bad = g.coin(); if (bad) t = damage(g, t, "0123456789--++,, \tinf:ax;._");
    Ivs want; const int r = refSet(t, want); shared_ptr<IIndexSet> s; bool threw = false; try { s = Utils::IndexSetFromString(wstring(t.begin(), t.end())); } catch (LibCZIStringParseException&) { threw = true; } if (g.tracing()) g.d() << "index set \"" << t << "\" " << r; g.cls(bad ? (r == 0 ? "set-malformed" : "set-changed") : "set-valid");
    if (r == 0) { PBT_REQUIRE("set-text", threw, "the malformed text \"", t, "\" is accepted as an index set"); g.nontrivial(); return; }
    if (r == 1) { PBT_REQUIRE("set-text", !threw, "the text \"", t, "\" is refused"); g.nontrivial(); } if (threw) return; if (r != 1) return;
    set<int> probes{ 0, 1, -1, INT_MAX, INT_MIN }; for (auto& iv : want) for (long long d = -2; d <= 2; ++d) for (long long e : { (long long)iv.first, (long long)iv.second, ((long long)iv.first + iv.second) / 2 }) if (e + d <= INT_MAX && e + d >= INT_MIN) probes.insert((int)(e + d)); for (int k = 0; k < 5; ++k) probes.insert(genInt(g));
    for (int p : probes) { bool in = false; for (auto& iv : want) in = in || (p >= iv.first && p <= iv.second); PBT_REQUIRE("set-member", s->IsContained(p) == in, p, in ? " is not" : " is", " contained in \"", t, "\""); }
}

static void order(Gen& g)
{
    vector<CMap> ms; for (int k = 0; k < 3; ++k) { if (k && g.coin()) { CMap m = ms[(size_t)g.below(ms.size())]; switch (g.below(4)) { case 0: if (!m.empty()) { auto it = m.begin(); advance(it, (long)g.below(m.size())); m.erase(it); } break; case 1: m[(int)g.below(9)] = genInt(g); break; case 2: if (!m.empty()) { auto it = m.begin(); advance(it, (long)g.below(m.size())); it->second = it->second == INT_MAX ? INT_MIN : it->second + 1; } break; default: break; } ms.push_back(m); } else ms.push_back(genC(g)); }
    auto ref = [](const CMap& a, const CMap& b) { for (int k = 0; k < 9; ++k) { const bool x = a.count(k) != 0, y = b.count(k) != 0; if (x != y) return x ? 1 : -1; if (x && a.at(k) != b.at(k)) return a.at(k) > b.at(k) ? 1 : -1; } return 0; };
    auto sgn = [](int v) { return v < 0 ? -1 : v > 0 ? 1 : 0; };
    if (g.tracing()) for (auto& m : ms) g.d() << show(m) << " ";
    for (auto& a : ms) for (auto& b : ms)
    {
        const CDimCoordinate A = mk(a), B = mk(b); const int c = Utils::Compare(&A, &B); PBT_REQUIRE("compare", sgn(c) == ref(a, b), "comparing ", show(a), " with ", show(b), " gives ", c);
        bool same = true; for (int k = 0; k < 9; ++k) same = same && a.count(k) == b.count(k); PBT_REQUIRE("same-dimensions", Utils::HasSameDimensions(&A, &B) == same, "same dimensions of ", show(a), " and ", show(b), same ? " not" : "", " reported");
    }
    const char ch = (char)g.below(256); const int d = dimOf(ch); PBT_REQUIRE("dimension-char", (int)Utils::CharToDimension(ch) == d + 1, "character code ", (int)(unsigned char)ch, " is understood as dimension ", (int)Utils::CharToDimension(ch));
    for (int k = 0; k < 9; ++k) PBT_REQUIRE("dimension-char", Utils::DimensionToChar(dimAt(k)) == DIMS[k], "character of dimension ", k + 1);
    if (ms[0] != ms[1]) g.nontrivial();
}

static void enumAll(Gen& g)
{
    BMap m; const int n = (int)g.range(0, 4); uint64_t total = n ? 1 : 0; for (int k = 0; k < n; ++k) { const int d = (int)g.below(9); if (m.count(d)) continue; const int z = (int)g.range(1, 5); int s = genInt(g); if (s > INT_MAX - z + 1) s = INT_MAX - z + 1; m[d] = { s, z }; total *= (uint64_t)z; }
    const uint64_t stop = g.chance(1, 3) ? (uint64_t)g.range(1, 40) : UINT64_MAX; set<CMap> seen; uint64_t calls = 0; if (g.tracing()) g.d() << show(m) << " total " << total << " stop " << stop;
    const bool r = Utils::EnumAllCoordinates(mk(m), [&](uint64_t no, const CDimCoordinate& c) { PBT_REQUIRE("enumerate-all", no == calls, "call ", calls, " has the number ", no); ++calls; PBT_REQUIRE("enumerate-all", calls <= total, "more coordinates than there are in ", show(m)); const CMap x = asMap(c); PBT_REQUIRE("enumerate-all", x.size() == m.size() && seen.insert(x).second, "the coordinate ", show(x), " has the wrong dimensions or appears twice for ", show(m)); for (auto& kv : x) PBT_REQUIRE("enumerate-all", m.count(kv.first) && kv.second >= m[kv.first].first && (long long)kv.second < (long long)m[kv.first].first + m[kv.first].second, show(x), " is not within ", show(m)); return calls < stop; });
    PBT_REQUIRE("enumerate-all", calls == min(total, stop) && r == (calls < stop), calls, " calls and result ", r, " for ", show(m), " with stop after ", stop); if (total > 1) g.nontrivial();
}

static void compressionText(Gen& g)
{
    static const vector<pair<string, CompressionMode>> names = { { "uncompressed", CompressionMode::UnCompressed }, { "jpg", CompressionMode::Jpg }, { "jpgxr", CompressionMode::JpgXr }, { "zstd0", CompressionMode::Zstd0 }, { "zstd1", CompressionMode::Zstd1 } };
    auto mixcase = [&](string s) { for (char& c : s) if (g.chance(1, 4)) c = (char)(isupper((unsigned char)c) ? tolower(c) : toupper(c)); return s; }; auto sp = [&] { return g.chance(1, 6) ? string((size_t)g.range(1, 2), ' ') : string(); };
    const auto& nm = names[(size_t)g.below(5)]; bool bad = false, hasLevel = false, packing = false; int level = 0; string name = mixcase(nm.second == CompressionMode::Zstd0 || g.coin() ? nm.first : nm.first), t;
    if (g.chance(1, 10)) { name = g.of<string>({ "zstd", "zstd2", "jpgx", "none", "z", "zstd01" }); bad = true; } t = sp() + name + sp() + ":" + sp();
    const int n = (int)g.range(0, 4);
    for (int k = 0; k < n; ++k)
    {
        string key, val; switch (g.weighted({ 4, 3, 2 }))
        {
        case 0: { key = "ExplicitLevel"; if (g.chance(1, 6)) { val = g.of<string>({ "", "x", "3x", "99999999999", "-", "1.5", "0x3", "--2" }); bad = true; } else { level = genInt(g); val = to_string(level); if (level > 0 && g.chance(1, 4)) val = "+" + val; hasLevel = true; } break; }
        case 1: key = "PreProcess"; if (g.chance(1, 4)) val = g.of<string>({ "HiLo", "none", "", "HiLoByteUnpack2" }); else { val = mixcase("HiLoByteUnpack"); packing = true; } break;
        default: key = g.of<string>({ "Level", "ExplicitLevel2", "X", "" }); val = g.of<string>({ "3", "HiLoByteUnpack", "" }); break;
        }
        if (k) t += sp() + ";" + sp(); t += mixcase(key) + sp() + "=" + sp() + val;
    }
    if (n && g.chance(1, 6)) t += ";"; if (g.chance(1, 10)) { t += g.of<string>({ "=", "x", ",", "=3=4", "!", ":" }); if (t.back() != 'x' || n == 0 || t[t.size() - 2] == ';') bad = true; else bad = bad || false; if (t.back() == 'x' && n) throw pbt::Discard(); if (t.back() == '=') throw pbt::Discard(); }
    if (g.tracing()) g.d() << "compression options \"" << t << "\"" << (bad ? " malformed" : ""); g.cls(bad ? "options-malformed" : "options-valid");
    Utils::CompressionOption o; bool threw = false; try { o = Utils::ParseCompressionOptions(t); } catch (logic_error&) { threw = true; }
    PBT_REQUIRE("options-text", threw == bad, "the compression options \"", t, "\" are ", threw ? "refused" : "accepted"); g.nontrivial(); if (bad) return;
    PBT_REQUIRE("options-text", o.first == nm.second && o.second, "the compression options \"", t, "\" give the mode ", (int)o.first);
    CompressParameter p; const bool l = o.second->TryGetProperty(CompressionParameterKey::ZSTD_RAWCOMPRESSIONLEVEL, &p); PBT_REQUIRE("options-text", l == hasLevel && (!l || p.GetInt32() == level), "the level of \"", t, "\" is wrong");
    CompressParameter q; const bool h = o.second->TryGetProperty(CompressionParameterKey::ZSTD_PREPROCESS_DOLOHIBYTEPACKING, &q); PBT_REQUIRE("options-text", (h && q.GetBoolean()) == packing, "the byte packing of \"", t, "\" is wrong");
}

int main(int argc, char** argv)
{
    pbt::Config c; c.property = "P24"; c.rule = "at least four kinds of operations; a text whose meaning (accepted value or refusal) is specified; different coordinates; more than one coordinate enumerated";
    c.assumptions = { "texts of blanks only, blanks right after the dash of an index range, leading blanks of a bounds text and negative sizes in it are not specified and not judged" };
    c.subs = { { "model", 20000, 400000, model }, { "coord-text", 60000, 1500000, coordText }, { "bounds-text", 12000, 300000, boundsText }, { "index-set", 60000, 1500000, indexSet }, { "order", 30000, 600000, order }, { "enumerate-all", 20000, 300000, enumAll }, { "compression-text", 6000, 120000, compressionText } };
    return pbt::main(argc, argv, c);
}
