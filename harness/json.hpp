// A small JSON reader (strict enough to reject malformed documents), independent of the library's.
#pragma once
#include <map>
#include <string>
#include <vector>
#include <cstdlib>
namespace js
{
    struct V { enum T { Null, Bool, Num, Str, Arr, Obj } t = Null; bool b = false; double n = 0; std::string s; std::vector<V> a; std::map<std::string, V> o; const V* get(const std::string& k) const { auto i = o.find(k); return t == Obj && i != o.end() ? &i->second : nullptr; } };
    class P
    {
        const std::string& s; size_t i = 0; bool ok = true;
        void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) ++i; }
        bool lit(const char* t) { const std::string u = t; if (s.compare(i, u.size(), u) == 0) { i += u.size(); return true; } return ok = false; }
        static void utf8(std::string& r, unsigned c) { if (c < 0x80) r += (char)c; else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } }
        unsigned hex4() { unsigned v = 0; for (int k = 0; k < 4; ++k) { const char c = i < s.size() ? s[i++] : 'x'; v = v * 16; if (c >= '0' && c <= '9') v += (unsigned)(c - '0'); else if (c >= 'a' && c <= 'f') v += (unsigned)(c - 'a' + 10); else if (c >= 'A' && c <= 'F') v += (unsigned)(c - 'A' + 10); else { ok = false; return 0; } } return v; }
        std::string text()
        {
            std::string r; if (i >= s.size() || s[i] != '"') { ok = false; return r; } ++i;
            while (ok)
            {
                if (i >= s.size() || (unsigned char)s[i] < 0x20) { ok = false; break; }
                const char c = s[i++]; if (c == '"') break; if (c != '\\') { r += c; continue; }
                const char e = i < s.size() ? s[i++] : 0;
                switch (e) { case '"': case '\\': case '/': r += e; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
                case 'u': { unsigned v = hex4(); if (v >= 0xD800 && v < 0xDC00) { if (!lit("\\u")) break; const unsigned w = hex4(); v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00); } utf8(r, v); break; }
                default: ok = false; }
            }
            return r;
        }
        V val(int depth)
        {
            V v; ws(); if (depth > 50 || i >= s.size()) { ok = false; return v; }
            switch (s[i])
            {
            case '{': v.t = V::Obj; ++i; ws(); if (i < s.size() && s[i] == '}') { ++i; break; } while (ok) { ws(); const std::string k = text(); ws(); if (!ok || !lit(":")) break; if (v.o.count(k)) ok = false; v.o[k] = val(depth + 1); ws(); if (i < s.size() && s[i] == ',') { ++i; continue; } lit("}"); break; } break;
            case '[': v.t = V::Arr; ++i; ws(); if (i < s.size() && s[i] == ']') { ++i; break; } while (ok) { v.a.push_back(val(depth + 1)); ws(); if (i < s.size() && s[i] == ',') { ++i; continue; } lit("]"); break; } break;
            case '"': v.t = V::Str; v.s = text(); break;
            case 't': v.t = V::Bool; v.b = true; lit("true"); break;
            case 'f': v.t = V::Bool; lit("false"); break;
            case 'n': lit("null"); break;
            default: { const size_t b = i; while (i < s.size() && std::string("+-.0123456789eE").find(s[i]) != std::string::npos) ++i; v.t = V::Num; v.s = s.substr(b, i - b); char* e = nullptr; v.n = strtod(v.s.c_str(), &e); if (v.s.empty() || *e) ok = false; }
            }
            return v;
        }
    public:
        explicit P(const std::string& t) : s(t) {}
        bool parse(V& v) { v = val(0); ws(); return ok && i == s.size(); }
    };
    inline bool parse(const std::string& t, V& v) { return P(t).parse(v); }
}
