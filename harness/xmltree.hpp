// an XML tree as a model: generation, serialisation, comparison with what a node object delivers
#pragma once
#include "czi.hpp"
#include <cmath>
namespace xt
{
    using namespace czi;
    using std::string; using std::wstring; using std::vector; using std::pair; using std::shared_ptr;
    inline string utf8(const wstring& w)
    {
        string s; for (wchar_t wc : w) { const uint32_t c = (uint32_t)wc; if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } else { s += (char)(0xF0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } }
        return s;
    }
    struct Node { wstring name; vector<pair<wstring, wstring>> attrs; bool hasText = false; wstring text; vector<Node> kids; };
    inline wchar_t genChar(Gen& g) { switch (g.weighted({ 8, 3, 2, 1, 1 })) { case 0: return (wchar_t)g.range('a', 'z'); case 1: return (wchar_t)g.of<int>({ ' ', '<', '>', '&', '"', '\'', '=', '/', '[', ']', ';', ',', '.', '-', '0', '9', '%' }); case 2: return (wchar_t)g.range(0xA1, 0x24F); case 3: return (wchar_t)g.range(0x4E00, 0x9FA5); default: return (wchar_t)g.range(0x1F300, 0x1F64F); } }
    inline bool blank(const wstring& s) { for (wchar_t c : s) if (c != ' ' && c != '\t' && c != '\n' && c != '\r') return false; return true; }
    /// text with at least one character that is not a blank
    inline wstring genText(Gen& g, int maxLen = 20) { wstring s; const int n = (int)g.size(1, maxLen); for (int k = 0; k < n; ++k) s += genChar(g); if (blank(s)) s += L'x'; return s; }
    inline wstring genName(Gen& g, int pool = 6) { if (g.chance(1, 12)) return wstring(1, (wchar_t)g.range(0xC0, 0xD6)) + wstring(1, (wchar_t)g.range(0x4E00, 0x4E20)); static const wchar_t* n[] = { L"a", L"b", L"Item", L"Name", L"long_node-name.1", L"X2" }; return n[g.below((uint64_t)std::min(pool, 6))]; }
    inline vector<pair<wstring, wstring>> genAttrs(Gen& g) { vector<pair<wstring, wstring>> a; const int n = g.weighted({ 3, 2, 1, 1 }); for (int k = 0; k < n; ++k) { const wstring nm = g.of<wstring>({ L"Id", L"Name", L"q", L"Type", L"\u00e4" }); bool dup = false; for (auto& x : a) dup = dup || x.first == nm; if (!dup) a.push_back({ nm, g.chance(1, 6) ? wstring() : g.chance(1, 2) ? g.of<wstring>({ L"0", L"1", L"2", L"abc" }) : genText(g, 10) }); } return a; }
    inline Node genTree(Gen& g, int depth, const wstring& name) { Node n; n.name = name; n.attrs = genAttrs(g); if (g.chance(1, 2)) { n.hasText = true; n.text = genText(g); } if (depth > 0 && (!n.hasText || g.chance(1, 5))) { const int k = (int)g.range(0, 4); for (int i = 0; i < k; ++i) n.kids.push_back(genTree(g, depth - 1, genName(g, 4))); } return n; }
    inline string esc(Gen& g, const wstring& w, bool attr)
    {
        string s; for (wchar_t c : w) { if (c == '<') s += "&lt;"; else if (c == '&') s += "&amp;"; else if (c == '>') s += g.coin() ? "&gt;" : "&#62;"; else if (attr && c == '"') s += "&quot;"; else if (attr && c == '\'') s += g.coin() ? "&apos;" : "&#x27;"; else if ((uint32_t)c > 126 && g.chance(1, 4)) { char b[16]; snprintf(b, sizeof b, "&#x%X;", (unsigned)c); s += b; } else s += utf8(wstring(1, c)); }
        return s;
    }
    /// XML text; blanks and comments are put in where they have no meaning
    inline string write(Gen& g, const Node& n, bool pretty = false)
    {
        auto nl = [&] { return pretty && g.coin() ? g.of<string>({ "\n", " ", "\n  ", "\t" }) : string(); };
        string s = "<" + utf8(n.name); for (auto& a : n.attrs) s += " " + utf8(a.first) + "=\"" + esc(g, a.second, true) + "\""; if (!n.hasText && n.kids.empty()) return s + (g.coin() ? "/>" : "></" + utf8(n.name) + ">"); s += ">";
        if (n.hasText) s += esc(g, n.text, false); for (auto& k : n.kids) { if (!n.hasText) s += nl(); if (!n.hasText && pretty && g.chance(1, 8)) s += "<!-- a comment -->"; s += write(g, k, pretty && !n.hasText); } if (!n.hasText) s += nl(); return s + "</" + utf8(n.name) + ">";
    }
    inline string show(const wstring& w) { return "\"" + utf8(w) + "\""; }
    /// \p node delivers exactly \p n
    inline void same(const string& key, IXmlNodeRead* node, const Node& n, const string& where)
    {
        PBT_REQUIRE(key, node != nullptr, where, " is not there"); PBT_REQUIRE(key, node->Name() == n.name, where, ": the name is ", show(node->Name()), " instead of ", show(n.name));
        vector<pair<wstring, wstring>> at; node->EnumAttributes([&](const wstring& a, const wstring& v) { at.push_back({ a, v }); return true; });
        PBT_REQUIRE(key, at == n.attrs, where, ": enumerating delivers ", at.size(), " attributes, written were ", n.attrs.size(), " (or they differ)");
        for (auto& a : n.attrs) { wstring v = L"?"; PBT_REQUIRE(key, node->TryGetAttribute(a.first.c_str(), &v) && v == a.second && node->TryGetAttribute(a.first.c_str(), nullptr), where, ": attribute ", show(a.first), " is ", show(v), " instead of ", show(a.second)); }
        wstring v = L"?"; PBT_REQUIRE(key, !node->TryGetAttribute(L"NotThere", &v) && v == L"?", where, ": an attribute that was not written is reported");
        const bool b = node->TryGetValue(&v); PBT_REQUIRE(key, b == n.hasText && b == node->TryGetValue(nullptr), where, ": a value is ", b ? "" : "not ", "reported"); if (b) PBT_REQUIRE(key, v == n.text, where, ": the value is ", show(v), " instead of ", show(n.text)); else PBT_REQUIRE(key, v == L"?", where, ": the result is changed though no value is reported");
        vector<shared_ptr<IXmlNodeRead>> kids; node->EnumChildren([&](shared_ptr<IXmlNodeRead> k) { kids.push_back(k); return true; }); PBT_REQUIRE(key, kids.size() == n.kids.size(), where, ": ", kids.size(), " child nodes are enumerated, there are ", n.kids.size());
        if (n.kids.size() > 1) { size_t c = 0; node->EnumChildren([&](shared_ptr<IXmlNodeRead>) { return ++c < 2; }); PBT_REQUIRE(key, c == 2, where, ": enumerating the children does not stop"); }
        for (size_t k = 0; k < kids.size(); ++k) same(key, kids[k].get(), n.kids[k], where + "/" + utf8(n.kids[k].name));
    }
    /// a path component for child \p k of \p n, and the index of the child it denotes
    inline string pathTo(Gen& g, const Node& n, size_t k, size_t& denotes)
    {
        const wstring& nm = n.kids[k].name; size_t first = n.kids.size(), idx = 0; for (size_t i = 0; i < n.kids.size(); ++i) if (n.kids[i].name == nm) { if (first == n.kids.size()) first = i; if (i < k) ++idx; }
        auto simple = [](const wstring& s) { for (wchar_t c : s) if (wcschr(L"/[],;=", c)) return false; return true; };
        const int how = (int)g.below(3); if (how == 0) { denotes = first; return utf8(nm); } if (how == 1) { denotes = k; return utf8(nm) + "[" + std::to_string(idx) + "]"; }
        vector<pair<wstring, wstring>> use; for (auto& a : n.kids[k].attrs) if (simple(a.second) && g.coin()) use.push_back(a); if (use.empty()) { denotes = first; return utf8(nm); }
        string s = utf8(nm) + "["; for (size_t i = 0; i < use.size(); ++i) s += (i ? g.of<string>({ ",", ";" }) : "") + utf8(use[i].first) + "=" + utf8(use[i].second); s += "]";
        for (size_t i = 0; i < n.kids.size(); ++i) { if (n.kids[i].name != nm) continue; bool all = true; for (auto& u : use) { bool f = false; for (auto& a : n.kids[i].attrs) f = f || a == u; all = all && f; } if (all) { denotes = i; return s; } }
        denotes = k; return s;
    }
    /// \p root delivers by random paths what they denote in \p n
    inline void byPath(Gen& g, const string& key, IXmlNodeRead* root, const Node& n, int times)
    {
        for (int t = 0; t < times; ++t)
        {
            const Node* cur = &n; string path; const int depth = (int)g.range(1, 4);
            for (int d = 0; d < depth && !cur->kids.empty(); ++d) { size_t w = 0; const string c = pathTo(g, *cur, (size_t)g.below(cur->kids.size()), w); path += (path.empty() ? "" : "/") + c; cur = &cur->kids[w]; }
            if (path.empty()) return; if (g.chance(1, 5)) { path += g.of<string>({ "/NotThere", "[99]", "[NotThere=1]" }); if (path[path.size() - 1] == ']' && path.find("][") != string::npos) continue; PBT_REQUIRE(key, !root->GetChildNodeReadonly(path.c_str()), "the path ", path, " denotes nothing, but a node is delivered"); continue; }
            auto nd = root->GetChildNodeReadonly(path.c_str()); same(key, nd.get(), *cur, "the path " + path);
        }
    }
    // ---- values as text
    struct Num { wstring text; bool asDbl = false, asI32 = false, asU32 = false, asI64 = false, asU64 = false, asBool = false, judge = true; double d = 0; int32_t i32 = 0; uint32_t u32 = 0; int64_t i64 = 0; uint64_t u64 = 0; bool b = false; };
    /// a text and what it means as a number/boolean
    inline Num genNum(Gen& g)
    {
        Num n; auto put = [&](const string& s) { n.text = wstring(s.begin(), s.end()); };
        auto setInt = [&](bool neg, uint64_t mag) { n.asDbl = true; n.d = neg ? -(double)mag : (double)mag; if (!neg) { n.asU64 = true; n.u64 = mag; if (mag <= UINT32_MAX) { n.asU32 = true; n.u32 = (uint32_t)mag; } if (mag <= (uint64_t)INT64_MAX) { n.asI64 = true; n.i64 = (int64_t)mag; } } else if (mag <= (uint64_t)1 << 63) { n.asI64 = true; n.i64 = mag == (uint64_t)1 << 63 ? INT64_MIN : -(int64_t)mag; } if (n.asI64 && n.i64 >= INT32_MIN && n.i64 <= INT32_MAX) { n.asI32 = true; n.i32 = (int32_t)n.i64; } if (mag <= 1 && !neg) { n.asBool = true; n.b = mag == 1; } };
        switch (g.weighted({ 5, 4, 3, 2 }))
        {
        case 0: { const bool neg = g.coin(); uint64_t mag; switch (g.below(4)) { case 0: mag = (uint64_t)g.range(0, 20); break; case 1: mag = g.seed64() >> g.below(64); break; case 2: mag = ((uint64_t)1 << g.of<int>({ 31, 32, 63 })) - (uint64_t)g.range(0, 1); break; default: mag = UINT64_MAX; } if (neg && mag == 0) { mag = 1; } put((neg ? "-" : "") + std::to_string(mag)); setInt(neg, mag); break; }
        case 1: { const int e = (int)g.range(-12, 12); const int64_t m = g.range0(-999999999, 999999999); char b[64]; double v = (double)m * std::pow(10.0, e); if (v == 0) v = 1.5; snprintf(b, sizeof b, g.of<string>({ "%.17g", "%.3e", "%.1f", "%g" }).c_str(), v); n.asDbl = true; n.d = strtod(b, nullptr); put(b); bool plain = true; for (char c : string(b)) if (!(isdigit((unsigned char)c) || c == '-')) plain = false; if (plain) { const bool neg = b[0] == '-'; const uint64_t mag = strtoull(b + neg, nullptr, 10); if (mag == 0 && neg) n.judge = false; setInt(neg, mag); } break; }
        case 2: { const string s = g.of<string>({ "true", "TRUE", "yes", "Yes", "false", "no", "No", "FALSE" }); n.asBool = true; n.b = toupper((unsigned char)s[0]) == 'T' || toupper((unsigned char)s[0]) == 'Y'; put(s); return n; }
        default: put(g.of<string>({ "abc", "1.5abc", "12 13", "1,5", "--3", "+-2", "3-", "1e", "x1", "truely", "yesno", "2 x", "1.2.3", "e5", ".", "-", "+", "1_0", "5?" })); if (n.text == L"5?") n.text = L"5\u00B5"; return n;
        }
        switch (g.below(8)) { case 0: n.text = L" " + n.text; break; case 1: n.text += L" "; break; case 2: n.text = L"\n " + n.text + L"\n"; break; default: break; }
        if (n.text.front() == '\n' && n.asBool) n.judge = false;
        return n;
    }
    inline void judgeNum(const string& key, IXmlNodeRead* nd, const Num& n)
    {
        if (!n.judge) return; const string w = "the text " + show(n.text);
        { double v = 0.125; const bool b = nd->TryGetValueAsDouble(&v); PBT_REQUIRE(key, b == n.asDbl && (b ? v == n.d : v == 0.125), w, " as a double: ", b, " ", v); PBT_REQUIRE(key, nd->TryGetValueAsDouble(nullptr) == n.asDbl, w, " as a double without result"); }
        if (!n.asDbl || std::fabs(n.d) < 1e38) { float v = 0.125f; const bool b = nd->TryGetValueAsFloat(&v); PBT_REQUIRE(key, b == n.asDbl && (b ? v == (float)n.d : v == 0.125f), w, " as a float: ", b, " ", v); }
        { int32_t v = 99; const bool b = nd->TryGetValueAsInt32(&v); PBT_REQUIRE(key, b == n.asI32 && (b ? v == n.i32 : v == 99), w, " as int32: ", b, " ", v); }
        { uint32_t v = 99; const bool b = nd->TryGetValueAsUInt32(&v); PBT_REQUIRE(key, b == n.asU32 && (b ? v == n.u32 : v == 99), w, " as uint32: ", b, " ", v); }
        { int64_t v = 99; const bool b = nd->TryGetValueAsInt64(&v); PBT_REQUIRE(key, b == n.asI64 && (b ? v == n.i64 : v == 99), w, " as int64: ", b, " ", v); }
        { uint64_t v = 99; const bool b = nd->TryGetValueAsUInt64(&v); PBT_REQUIRE(key, b == n.asU64 && (b ? v == n.u64 : v == 99), w, " as uint64: ", b, " ", v); }
        { bool v = false; const bool b = nd->TryGetValueAsBool(&v); bool v2 = true; const bool b2 = nd->TryGetValueAsBool(&v2); PBT_REQUIRE(key, b == n.asBool && b2 == b && (b ? v == n.b && v2 == n.b : !v && v2), w, " as bool: ", b, " ", v); }
    }
}
