// P21: all stream types present the same file
#include "czi.hpp"
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <thread>
#include <mutex>
#include <atomic>
using namespace czi;
using namespace std;

// ------------------------------------------------------------------------------------- a small HTTP server
enum Serve { Proper = 0, IgnoresRange, NotFound, ServerError, DropsOff, Redirects, Last, Stalls };
static const char* serveName(int s) { const char* n[] = { "serves ranges", "ignores ranges", "answers 404", "answers 500", "drops off", "redirects" }; return n[s]; }
class Server
{
    int fd_ = -1; mutex m_; Bytes file_; vector<string> asked_;
public:
    void forget() { lock_guard<mutex> l(m_); asked_.clear(); }
    vector<string> asked() { lock_guard<mutex> l(m_); return asked_; }
    int port = 0; atomic<int> mode{ 0 }; atomic<int> pieces{ 1 }; atomic<int> body{ 0 }; atomic<bool> chunked{ false };
    void set(const Bytes& b) { lock_guard<mutex> l(m_); file_ = b; }
    Bytes file() { lock_guard<mutex> l(m_); return file_; }
    void start()
    {
        fd_ = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = 0;
        if (fd_ < 0 || ::bind(fd_, (sockaddr*)&a, sizeof a) != 0 || listen(fd_, 64) != 0) { perror("server"); _exit(3); }
        socklen_t n = sizeof a; getsockname(fd_, (sockaddr*)&a, &n); port = ntohs(a.sin_port);
        thread([this] { for (;;) { int c = accept(fd_, nullptr, nullptr); if (c < 0) continue; int one = 1; setsockopt(c, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); thread([this, c] { this->serve(c); close(c); }).detach(); } }).detach();
    }
private:
    static bool sendAll(int c, const void* p, size_t n) { const char* q = (const char*)p; while (n > 0) { ssize_t k = send(c, q, n, MSG_NOSIGNAL); if (k <= 0) return false; q += k; n -= (size_t)k; } return true; }
    bool respond(int c, const string& status, const string& extra, const uint8_t* p, size_t n, bool drop)
    {
        string h = "HTTP/1.1 " + status + "\r\n" + extra; const bool ch = chunked && !drop; 
        h += ch ? string("Transfer-Encoding: chunked\r\n\r\n") : pbt::cat("Content-Length: ", n, "\r\n\r\n");
        if (!sendAll(c, h.data(), h.size())) return false;
        const size_t k = (size_t)max(1, pieces.load()); const size_t step = max<size_t>(1, n / k); const size_t stop = drop ? n / 2 : n;
        for (size_t o = 0; o < stop; o += step)
        {
            const size_t len = min(step, stop - o);
            if (ch) { char s[32]; snprintf(s, sizeof s, "%zx\r\n", len); if (!sendAll(c, s, strlen(s))) return false; }
            if (!sendAll(c, p + o, len)) return false; if (ch && !sendAll(c, "\r\n", 2)) return false;
        }
        if (ch && !sendAll(c, "0\r\n\r\n", 5)) return false;
        return !drop;
    }
    void serve(int c)
    {
        string in; char buf[4096];
        for (;;)
        {
            size_t e; while ((e = in.find("\r\n\r\n")) == string::npos) { ssize_t k = recv(c, buf, sizeof buf, 0); if (k <= 0) return; in.append(buf, (size_t)k); }
            string req = in.substr(0, e); in.erase(0, e + 4); const Bytes f = this->file(); const int md = mode; const bool moved = req.compare(0, 10, "GET /moved") == 0;
            { lock_guard<mutex> l(m_); asked_.push_back(req); if (asked_.size() > 1000) asked_.clear(); }
            unsigned hop = 0; if (sscanf(req.c_str(), "GET /hop%u", &hop) == 1 && hop > 0) { if (!respond(c, "302 Found", pbt::cat("Location: http://127.0.0.1:", port, "/hop", hop - 1, "\r\n"), nullptr, 0, false)) return; continue; }
            if (md == Stalls) { while (recv(c, buf, sizeof buf, 0) > 0) {} return; }
            unsigned long long a = 0, b = 0; bool range = false; size_t r = req.find("Range: bytes="); if (r != string::npos && sscanf(req.c_str() + r, "Range: bytes=%llu-%llu", &a, &b) == 2 && a <= b) range = true;
            Bytes page((size_t)body.load(), 'E'); bool ok = true;
            if (md == NotFound) ok = respond(c, "404 Not Found", "", page.data(), page.size(), false);
            else if (md == ServerError) ok = respond(c, "500 Internal Server Error", "", page.data(), page.size(), false);
            else if (md == Redirects && !moved) ok = respond(c, "302 Found", pbt::cat("Location: http://127.0.0.1:", port, "/moved\r\n"), page.data(), page.size(), false);
            else if (!range || md == IgnoresRange) ok = respond(c, "200 OK", "", f.data(), f.size(), md == DropsOff && f.size() > 0);
            else if (a >= f.size()) ok = respond(c, "416 Range Not Satisfiable", pbt::cat("Content-Range: bytes */", f.size(), "\r\n"), page.data(), page.size(), false);
            else { const size_t l = (size_t)min<unsigned long long>(b - a + 1, f.size() - a); ok = respond(c, "206 Partial Content", pbt::cat("Content-Range: bytes ", a, "-", a + l - 1, "/", f.size(), "\r\n"), f.data() + a, l, md == DropsOff); }
            if (!ok) { shutdown(c, SHUT_RDWR); return; }
        }
    }
};
static Server& server() { static Server* s = nullptr; static pid_t pid = 0; if (!s || pid != getpid()) { s = new Server(); s->start(); pid = getpid(); } return *s; } // (one per process)

// ------------------------------------------------------------------------------------- helpers
static void writeFile(const string& n, const Bytes& b) { FILE* f = fopen(n.c_str(), "wb"); if (!f || fwrite(b.data(), 1, b.size(), f) != b.size()) { perror("scratch file"); _exit(3); } fclose(f); }
static Bytes readFile(const string& n) { Bytes b; FILE* f = fopen(n.c_str(), "rb"); if (!f) return b; uint8_t buf[65536]; size_t k; while ((k = fread(buf, 1, sizeof buf, f)) > 0) b.insert(b.end(), buf, buf + k); fclose(f); return b; }
static wstring widen(const string& utf8) { wstring w; for (size_t i = 0; i < utf8.size();) { uint8_t c = (uint8_t)utf8[i]; uint32_t v; int n; if (c < 0x80) { v = c; n = 1; } else if (c < 0xE0) { v = c & 0x1F; n = 2; } else if (c < 0xF0) { v = c & 0x0F; n = 3; } else { v = c & 7; n = 4; } for (int k = 1; k < n; ++k) v = (v << 6) | ((uint8_t)utf8[i + (size_t)k] & 0x3F); w += (wchar_t)v; i += (size_t)n; } return w; }
static string scratch(Gen& g) { static atomic<int> n{ 0 }; static const vector<string> names{ "plain", "with blank", "gr\xC3\xB6\xC3\x9F" "e", "\xE6\x96\x87\xE4\xBB\xB6", "\xF0\x9F\x94\xAC" "x", "a.b'c" }; return pbt::scratchDir() + "/" + to_string(getpid()) + "-" + to_string(n++) + g.pick(names) + ".czi"; }
struct Del { string n; ~Del() { unlink(n.c_str()); } };
class Att : public IAttachment { Bytes b_; AttachmentInfo i_; public: explicit Att(Bytes b) : b_(move(b)) {} const AttachmentInfo& GetAttachmentInfo() const override { return i_; } void DangerousGetRawData(const void*& p, size_t& n) const override { p = b_.data(); n = b_.size(); } shared_ptr<const void> GetRawData(size_t* n) override { if (n) *n = b_.size(); auto p = make_shared<Bytes>(b_); return shared_ptr<const void>(p, p->data()); } };

enum Kind { FileWide, Pread, PreadW, CRuntime, CRuntimeW, Default8, DefaultW, Memory, FromAttachment, InOut, Http, KindCount };
static const char* kindName(int k) { const char* n[] = { "CreateStreamFromFile", "pread", "pread (wide name)", "C runtime", "C runtime (wide name)", "default", "default (wide name)", "memory", "attachment", "input/output", "HTTP" }; return n[k]; }
static shared_ptr<IStream> byClass(const char* cls, const string& name, bool wide, const map<int, StreamsFactory::Property>& props = {})
{
    StreamsFactory::CreateStreamInfo i; i.class_name = cls; i.property_bag = props; auto s = wide ? StreamsFactory::CreateStream(i, widen(name)) : StreamsFactory::CreateStream(i, name);
    PBT_REQUIRE("factory", s != nullptr, "no stream of class ", cls); return s;
}
static shared_ptr<IStream> make(int k, const string& name, const Bytes& b, bool follow = false, bool wide = false)
{
    switch (k)
    {
    case FileWide: return CreateStreamFromFile(widen(name).c_str());
    case Pread: return byClass("pread_file_inputstream", name, false);
    case PreadW: return byClass("pread_file_inputstream", name, true);
    case CRuntime: return byClass("c_runtime_file_inputstream", name, false);
    case CRuntimeW: return byClass("c_runtime_file_inputstream", name, true);
    case Default8: return StreamsFactory::CreateDefaultStreamForFile(name.c_str());
    case DefaultW: return StreamsFactory::CreateDefaultStreamForFile(widen(name).c_str());
    case Memory: { auto p = make_shared<Bytes>(b); p->shrink_to_fit(); return CreateStreamFromMemory(shared_ptr<const void>(p, p->data()), p->size()); }
    case FromAttachment: { Att a(b); return CreateStreamFromMemory(&a); }
    case InOut: { struct W : IStream { shared_ptr<IInputOutputStream> s; void Read(uint64_t o, void* p, uint64_t n, uint64_t* r) override { s->Read(o, p, n, r); } }; auto w = make_shared<W>(); w->s = CreateInputOutputStreamForFile(widen(name).c_str()); return w; }
    default:
        return byClass("curl_http_inputstream", pbt::cat("http://127.0.0.1:", server().port, "/f"), wide, { { StreamsFactory::StreamProperties::kCurlHttp_FollowLocation, StreamsFactory::Property(follow) }, { StreamsFactory::StreamProperties::kCurlHttp_Timeout, StreamsFactory::Property((int32_t)60) }, { StreamsFactory::StreamProperties::kCurlHttp_Proxy, StreamsFactory::Property("") } });
    }
}
struct Ask { uint64_t off, size; };
static Ask genAsk(Gen& g, uint64_t n)
{
    Ask a; switch (g.below(7))
    {
    case 0: a.off = 0; a.size = n; break;
    case 1: a.off = g.below(n + 1); a.size = g.below(n + 1); break;
    case 2: a.off = n - min<uint64_t>(n, g.below(20)); a.size = g.below(40); break;
    case 3: a.off = g.below(n + 1); a.size = 0; break;
    case 4: a.off = n + g.below(50); a.size = g.below(60); break;
    case 5: a.off = g.of<uint64_t>({ 1ull << 31, (1ull << 31) - 1, 1ull << 32, (1ull << 32) + 1, (1ull << 63) - 1, 1ull << 63, ~0ull, ~0ull - 7 }); a.size = g.below(30); break;
    default: a.off = g.below(n + 1); a.size = g.size(1, 300); break;
    }
    return a;
}
/// one read, judged. certain: an error is no acceptable answer for a range starting within the file
static bool readOne(IStream& s, const string& what, const Bytes& b, const Ask& a, bool certain, bool noAnswer, bool passCount)
{
    const uint64_t have = a.off < b.size() ? min<uint64_t>(a.size, b.size() - a.off) : 0;
    unique_ptr<uint8_t[]> buf(new uint8_t[(size_t)a.size + 1]); memset(buf.get(), 0x5C, (size_t)a.size + 1); uint64_t n = 0x7777; bool thrown = false; string err;
    try { s.Read(a.off, buf.get(), a.size, passCount ? &n : nullptr); } catch (exception& e) { thrown = true; err = e.what(); }
    const string w = pbt::cat(what, ": ", a.size, " bytes at ", a.off, " of a file of ", b.size(), " bytes");
    PBT_REQUIRE("overrun", buf[(size_t)a.size] == 0x5C, w, ": written beyond the buffer");
    if (thrown) { PBT_REQUIRE("error", !certain || a.off >= b.size() || have == 0, w, ": reports '", err, "'"); return false; }
    PBT_REQUIRE("no-answer", !noAnswer || a.size == 0, w, ": ", n, " bytes are delivered although the file cannot be read");
    if (passCount) PBT_REQUIRE("count", n == have, w, ": ", n, " bytes are delivered instead of ", have);
    PBT_REQUIRE("content", have == 0 || memcmp(buf.get(), b.data() + a.off, (size_t)have) == 0, w, ": the bytes differ from those of the file");
    return true;
}

static void readKinds(Gen& g)
{
    const Bytes b = g.bytes(g.size(0, g.chance(1, 6) ? 200000 : 2000)); const int kind = (int)g.below(KindCount - 1); Del f{ scratch(g) }; writeFile(f.n, b);
    auto s = make(kind, f.n, b); const int n = (int)g.range(1, 8); g.d() << kindName(kind) << " " << b.size() << " bytes"; g.cls(kindName(kind));
    for (int k = 0; k < n; ++k) { const Ask a = genAsk(g, b.size()); g.d() << "\n  " << a.size << " at " << a.off; if (readOne(*s, kindName(kind), b, a, true, false, !g.chance(1, 10)) && a.size > 0 && a.off < b.size()) g.nontrivial(); }
    if (g.chance(1, 10))
    {   // what cannot be read at all
        const string no = f.n + ".missing"; for (int k2 : { FileWide, Pread, PreadW, CRuntime, CRuntimeW, Default8, DefaultW }) { bool thrown = false; try { make(k2, no, b); } catch (exception&) { thrown = true; } PBT_REQUIRE("missing", thrown, kindName(k2), ": a file that does not exist was opened"); }
        for (int k2 : { FileWide, Pread, CRuntime, Default8 })
        {
            bool thrown = false; uint64_t r = 0; uint8_t x[16];
            try { auto q = make(k2, pbt::scratchDir(), b); q->Read(0, x, 16, &r); } catch (exception&) { thrown = true; }
            PBT_REQUIRE("directory", thrown, kindName(k2), ": reading a directory gives ", r, " bytes and no error");
        }
        g.cls("unreadable");
    }
}
static void readHttp(Gen& g)
{
    auto& sv = server(); const Bytes b = g.bytes(g.size(0, g.chance(1, 8) ? 150000 : 1500)); sv.set(b);
    const int mode = g.chance(1, 2) ? (int)Proper : (int)g.range(1, Last - 1); sv.mode = mode; sv.pieces = g.chance(1, 3) ? (int)g.range(2, 9) : 1; sv.body = (int)g.size(0, 120); sv.chunked = g.chance(1, 5);
    const bool follow = g.coin(); auto s = make(Http, "", b, follow, g.coin()); const string what = pbt::cat("HTTP, server ", serveName(mode), follow ? " (followed)" : "", sv.chunked ? " chunked" : "");
    g.d() << what << " " << b.size() << " bytes"; g.cls(what);
    for (int k = (int)g.range(1, 4); k > 0; --k)
    {
        Ask a = genAsk(g, b.size()); if (g.chance(1, 6)) a.size += 23; g.d() << "\n  " << a.size << " at " << a.off;
        const bool proper = mode == Proper || (mode == Redirects && follow); const bool noAnswer = mode == NotFound || mode == ServerError || (mode == Redirects && !follow);
        if (readOne(*s, what, b, a, proper, noAnswer, true) && a.size > 0 && a.off < b.size()) g.nontrivial();
        if (!proper && a.size > 0) g.nontrivial();
    }
    if (g.chance(1, 2)) { sv.mode = Proper; Ask a{ 0, b.size() }; readOne(*s, what + ", then serves ranges", b, a, true, false, true); }
}
// ------------------------------------------------------------------------------------- what is asked for with the options of a stream
static void options(Gen& g)
{
    typedef StreamsFactory::StreamProperties SP; typedef StreamsFactory::Property Pr;
    auto& sv = server(); const Bytes b = g.bytes(g.size(1, 400)); sv.set(b); sv.mode = Proper; sv.pieces = 1; sv.chunked = false; sv.body = 0;
    static const struct { const char* name; int id; Pr::Type type; } known[] = {
        { "CurlHttp_Proxy", SP::kCurlHttp_Proxy, Pr::Type::String }, { "CurlHttp_UserAgent", SP::kCurlHttp_UserAgent, Pr::Type::String }, { "CurlHttp_Timeout", SP::kCurlHttp_Timeout, Pr::Type::Int32 }, { "CurlHttp_ConnectTimeout", SP::kCurlHttp_ConnectTimeout, Pr::Type::Int32 },
        { "CurlHttp_Xoauth2Bearer", SP::kCurlHttp_Xoauth2Bearer, Pr::Type::String }, { "CurlHttp_Cookie", SP::kCurlHttp_Cookie, Pr::Type::String }, { "CurlHttp_SslVerifyPeer", SP::kCurlHttp_SslVerifyPeer, Pr::Type::Boolean }, { "CurlHttp_SslVerifyHost", SP::kCurlHttp_SslVerifyHost, Pr::Type::Boolean },
        { "CurlHttp_FollowLocation", SP::kCurlHttp_FollowLocation, Pr::Type::Boolean }, { "CurlHttp_MaxRedirs", SP::kCurlHttp_MaxRedirs, Pr::Type::Int32 }, { "CurlHttp_CaInfo", SP::kCurlHttp_CaInfo, Pr::Type::String }, { "CurlHttp_CaInfoBlob", SP::kCurlHttp_CaInfoBlob, Pr::Type::String } };
    int listed = -1; auto table = StreamsFactory::GetStreamPropertyBagPropertyInfo(&listed); auto table2 = StreamsFactory::GetStreamPropertyBagPropertyInfo(nullptr);
    PBT_REQUIRE("option-list", listed >= 12 && table2 == table && table[listed].property_name == nullptr, listed, " options are listed");
    map<int, Pr> bag; vector<int> given;
    auto put = [&](int id, Pr v) { bag[id] = v; given.push_back(id); };
    for (auto& k : known)
    {   // the list of the options: name, number and type belong together
        const StreamsFactory::StreamPropertyBagPropertyInfo* f = nullptr; for (int i = 0; i < listed; ++i) if (strcmp(table[i].property_name, k.name) == 0) { PBT_REQUIRE("option-list", !f, k.name, " is listed twice"); f = table + i; }
        PBT_REQUIRE("option-list", f && f->property_id == k.id && f->property_type == k.type, k.name, f ? " is listed with another number or type" : " is not listed");
    }
    auto text = [&](size_t n) { static const string a = "abcXYZ019-_./;=,()+ "; string s(1, 'q'); for (size_t i = g.size(0, n); i > 0; --i) s += a[g.below(a.size())]; return s + "z"; };
    string agent, cookie, bearer; const bool proxied = g.chance(1, 4); const bool stall = !proxied && g.chance(1, 500); unsigned hops = !proxied && g.chance(1, 2) ? (unsigned)g.range(1, 6) : 0; int follow = -1, maxRedirs = -2;
    put(SP::kCurlHttp_Timeout, Pr((int32_t)(stall ? 1 : 60))); put(SP::kCurlHttp_Proxy, Pr(proxied ? pbt::cat("http://127.0.0.1:", sv.port) : string()));
    if (g.coin()) { agent = text(30); put(SP::kCurlHttp_UserAgent, Pr(agent)); } if (g.coin()) { cookie = text(40); put(SP::kCurlHttp_Cookie, Pr(cookie)); } if (g.chance(1, 3)) { bearer = g.coin() ? "t0ken.abc-123" : text(20); for (auto& ch : bearer) if (ch == ' ') ch = 'b'; put(SP::kCurlHttp_Xoauth2Bearer, Pr(bearer)); }
    if (g.chance(1, 3)) put(SP::kCurlHttp_ConnectTimeout, Pr((int32_t)g.range(20, 300))); if (g.chance(1, 4)) put(SP::kCurlHttp_SslVerifyPeer, Pr(g.coin())); if (g.chance(1, 4)) put(SP::kCurlHttp_SslVerifyHost, Pr(g.coin()));
    if (g.chance(1, 6)) put(SP::kCurlHttp_CaInfoBlob, Pr(g.coin() ? string() : string("-----BEGIN CERTIFICATE-----\n"))); 
    if (g.chance(3, 4)) { follow = g.chance(3, 4); put(SP::kCurlHttp_FollowLocation, Pr(follow == 1)); } if (g.coin()) { maxRedirs = (int)g.range(-1, 7); put(SP::kCurlHttp_MaxRedirs, Pr((int32_t)maxRedirs)); }
    const string url = proxied ? string("http://files.invalid/f") : pbt::cat("http://127.0.0.1:", sv.port, hops ? pbt::cat("/hop", hops) : string("/f"));
    string what = pbt::cat(url.substr(url.find('/', 8)), proxied ? " by a proxy" : "", stall ? " stalling" : "", " follow=", follow, " max=", maxRedirs, " agent '", agent, "' cookie '", cookie, "' token '", bearer, "'"); g.d() << what;
    if (g.chance(1, 6))
    {   // an option with a value of another type
        const int id = g.pick(given); Pr::Type t{}; for (auto& k : known) if (k.id == id) t = k.type; auto bad = bag; 
        switch (t) { case Pr::Type::String: bad[id] = g.coin() ? Pr((int32_t)3) : Pr(true); break; case Pr::Type::Int32: bad[id] = g.coin() ? Pr("3") : Pr(3.0); break; default: bad[id] = g.coin() ? Pr((int32_t)1) : Pr("true"); }
        bool thrown = false; try { byClass("curl_http_inputstream", url, g.coin(), bad); } catch (pbt::Fail&) { throw; } catch (exception&) { thrown = true; } PBT_REQUIRE("option-type", thrown, "option ", id, " with a value of another type is accepted"); g.cls("value of another type");
    }
    if (stall) sv.mode = Stalls;
    auto s = byClass("curl_http_inputstream", url, g.coin(), bag); const bool reach = !stall && (hops == 0 || (follow == 1 && (maxRedirs < 0 || (unsigned)maxRedirs >= hops)));
    for (int k = stall ? 1 : (int)g.range(1, 3); k > 0; --k)
    {
        sv.forget(); const Ask a{ g.below(b.size()), g.size(1, 300) }; const bool got = readOne(*s, what, b, a, reach, !reach, true); const auto log = sv.asked();
        if (stall) { g.cls("stalls"); break; }
        PBT_REQUIRE("requests", log.size() == (reach ? hops + 1 : (size_t)(follow == 1 ? max(0, maxRedirs) + 1 : 1)), what, ": ", log.size(), " requests"); PBT_REQUIRE("reached", got == reach, what);
        for (auto& q : log)
        {
            auto header = [&](const string& n) { const string h = "\r\n" + n + ": "; size_t p = q.find(h); if (p == string::npos) return string(); p += h.size(); return q.substr(p, q.find("\r\n", p) - p); };
            PBT_REQUIRE("agent", agent.empty() || header("User-Agent") == agent, what, ": the server is told '", header("User-Agent"), "'"); PBT_REQUIRE("cookie", header("Cookie") == cookie, what, ": the server is told '", header("Cookie"), "'");
            PBT_REQUIRE("token", header("Authorization") == (bearer.empty() ? "" : "Bearer " + bearer), what, ": the server is told '", header("Authorization"), "'");
            PBT_REQUIRE("proxy", (q.compare(0, 26, "GET http://files.invalid/f") == 0) == proxied, what, ": asked for ", q.substr(0, 40)); PBT_REQUIRE("range", header("Range") == pbt::cat("bytes=", a.off, "-", a.off + a.size - 1), what, ": range ", header("Range"));
        }
        g.nontrivial();
    }
    sv.mode = Proper; g.cls(proxied ? "proxy" : hops ? (reach ? "redirected" : "not redirected") : "direct");
}
static void sparse(Gen& g)
{   // files with content beyond 2 and 4 GB
    Del f{ scratch(g) }; const int fd = open(f.n.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600); map<uint64_t, uint8_t> c; uint64_t end = 0;
    for (int k = (int)g.range(1, 4); k > 0; --k)
    {
        const uint64_t o = g.of<uint64_t>({ 100, (1ull << 31) - 20, 1ull << 31, (1ull << 32) - 20, (1ull << 32) + 5, 5ull << 30 }) + g.below(10); const Bytes b = g.bytes(g.size(1, 60));
        if (pwrite(fd, b.data(), b.size(), (off_t)o) != (ssize_t)b.size()) { perror("sparse"); _exit(3); } for (size_t i = 0; i < b.size(); ++i) c[o + i] = b[i]; end = max<uint64_t>(end, o + b.size());
    }
    close(fd); const int kind = g.of<int>({ FileWide, Pread, CRuntime, Default8, InOut }); auto s = make(kind, f.n, {}); g.cls(kindName(kind));
    for (int k = (int)g.range(1, 5); k > 0; --k)
    {
        auto it = c.begin(); advance(it, (long)g.below(c.size())); const uint64_t o = it->first - min<uint64_t>(it->first, g.below(15)); const uint64_t sz = g.size(1, 100); Bytes got((size_t)sz, 0x11); uint64_t n = 0;
        s->Read(o, got.data(), sz, &n); const uint64_t have = min<uint64_t>(sz, end - o); PBT_REQUIRE("count", n == have, kindName(kind), ": ", n, " of ", sz, " bytes at ", o, ", the file has ", end);
        for (uint64_t i = 0; i < have; ++i) { auto q = c.find(o + i); PBT_REQUIRE("content", got[(size_t)i] == (q == c.end() ? 0 : q->second), kindName(kind), ": byte ", o + i, " differs"); }
        if (o > (1ull << 31)) g.nontrivial();
    }
}
static void outputs(Gen& g)
{
    Del f{ scratch(g) }; Bytes model; const bool existing = g.chance(1, 2); if (existing) { model = g.bytes(g.size(0, 500)); writeFile(f.n, model); }
    const int kind = (int)g.below(3); const bool over = g.coin(); const char* kn[] = { "CreateOutputStreamForFile", "CreateOutputStreamForFileUtf8", "CreateInputOutputStreamForFile" }; string what = pbt::cat(kn[kind], over ? " overwriting" : "", existing ? " on an existing file" : ""); g.d() << what; g.cls(what);
    shared_ptr<IOutputStream> o; shared_ptr<IInputOutputStream> io; bool thrown = false; string err;
    try { if (kind == 0) o = CreateOutputStreamForFile(widen(f.n).c_str(), over); else if (kind == 1) o = CreateOutputStreamForFileUtf8(f.n.c_str(), over); else { io = CreateInputOutputStreamForFile(widen(f.n).c_str()); o = io; } } catch (exception& e) { thrown = true; err = e.what(); }
    const bool refuse = kind < 2 && existing && !over; PBT_REQUIRE("create", thrown == refuse, what, ": ", thrown ? err : "accepted");
    if (refuse) { PBT_REQUIRE("untouched", readFile(f.n) == model, what, ": the file was changed"); return; }
    if (kind < 2) model.clear();
    for (int k = (int)g.range(1, 10); k > 0; --k)
    {
        const uint64_t off = g.chance(1, 10) ? g.below(70000) : g.below(model.size() + 30); const Bytes b = g.bytes(g.chance(1, 12) ? 0 : g.size(1, 400)); uint64_t n = 0x7777; const bool cnt = !g.chance(1, 8); g.d() << "\n  " << b.size() << " at " << off;
        o->Write(off, b.data(), b.size(), cnt ? &n : nullptr); if (cnt) PBT_REQUIRE("write-count", n == b.size(), what, ": ", n, " of ", b.size(), " bytes written");
        if (!b.empty()) { if (model.size() < off + b.size()) model.resize((size_t)(off + b.size())); memcpy(&model[(size_t)off], b.data(), b.size()); }
        if (io && g.coin()) { const Ask a = genAsk(g, model.size()); readOne(*io, what, model, a, true, false, true); }
        if (g.chance(1, 20)) { bool t2 = false; try { o->Write(g.of<uint64_t>({ ~0ull, 1ull << 63 }), b.data(), max<size_t>(1, b.size()), &n); } catch (exception&) { t2 = true; } if (!b.empty()) PBT_REQUIRE("far-write", t2 || n < b.size(), what, ": a write at an impossible offset reports success"); }
    }
    o.reset(); io.reset(); const Bytes got = readFile(f.n); PBT_REQUIRE("stored", got == model, what, ": the file has ", got.size(), " bytes instead of ", model.size(), " or other content"); g.nontrivial();
}
static void documents(Gen& g)
{
    DocGen dg; dg.maxTiles = 6; dg.maxData = 2000; Doc d = genDoc(g, dg); Del f{ scratch(g) }; const int how = (int)g.below(2); 
    { shared_ptr<IOutputStream> o = how ? CreateOutputStreamForFileUtf8(f.n.c_str(), false) : CreateOutputStreamForFile(widen(f.n).c_str(), true); writeDoc(d, o); }
    const Bytes file = readFile(f.n); PBT_REQUIRE("same-file", file == writeDoc(d)->b, "writing to a file and to memory gives different files (", file.size(), " bytes)");
    server().set(file); server().mode = Proper; server().pieces = 1; server().chunked = false;
    for (int k : { (int)g.below(KindCount - 1), (int)Http }) { shared_ptr<ICZIReader> r; try { r = openReader(make(k, f.n, file)); } catch (exception& e) { string in; try { rethrow_if_nested(e); } catch (exception& e2) { in = e2.what(); } pbt::fail("open", pbt::cat(kindName(k), ": a file of ", file.size(), " bytes cannot be opened: ", e.what(), " / ", in)); } Doc got = readDoc(*r); readMetaOf(*r, got); compareContent(kindName(k), d, got); compareMeta(kindName(k), d, got); g.cls(kindName(k)); }
    if (!d.sbs.empty()) g.nontrivial();
}
static void threads(Gen& g)
{
    const Bytes b = g.bytes(g.size(200, 5000)); Del f{ scratch(g) }; writeFile(f.n, b); const int kind = g.chance(1, 3) ? (int)Http : (int)g.below(KindCount - 1);
    server().set(b); server().mode = Proper; server().pieces = (int)g.range(1, 4); server().chunked = false; auto s = make(kind, f.n, b); g.cls(kindName(kind));
    const int nt = (int)g.range(2, 5); vector<vector<Ask>> asks((size_t)nt); for (auto& v : asks) for (int k = (int)g.range(2, kind == Http ? 4 : 25); k > 0; --k) { Ask a = genAsk(g, b.size()); v.push_back(a); }
    vector<string> bad((size_t)nt); atomic<bool> go{ false }; vector<thread> th; g.d() << kindName(kind) << " " << nt << " threads";
    for (int t = 0; t < nt; ++t) th.emplace_back([&, t] { while (!go) this_thread::yield(); for (auto& a : asks[(size_t)t]) { try { readOne(*s, kindName(kind), b, a, true, false, true); } catch (pbt::Fail& x) { bad[(size_t)t] = x.msg; break; } } });
    go = true; for (auto& t : th) t.join();
    for (auto& m : bad) PBT_REQUIRE("threads", m.empty(), nt, " threads: ", m); g.nontrivial();
}

int main(int argc, char** argv)
{
    for (const char* v : { "http_proxy", "HTTP_PROXY", "https_proxy", "ALL_PROXY", "all_proxy" }) unsetenv(v);
    StreamsFactory::Initialize();
    pbt::Config c;
    c.property = "P21";
    c.rule = "a range within the file was read (for a server that does not serve it: an answer was judged), or bytes were written";
    c.assumptions = { "the server runs in the same process on the loopback interface", "beyond the end of a file both an error and zero bytes are accepted", "Windows and Azure streams are not built here" };
#ifdef THREADS
    c.subs = { { "threads", 3000, 60000, threads } }; c.schedules = true;
#else
    c.subs = { { "kinds", 20000, 300000, readKinds }, { "http", 12000, 200000, readHttp }, { "options", 4000, 60000, options }, { "sparse", 1500, 20000, sparse }, { "outputs", 15000, 200000, outputs }, { "documents", 1500, 25000, documents }, { "threads", 1500, 20000, threads } };
#endif
    return pbt::main(argc, argv, c);
}
