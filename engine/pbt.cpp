#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <unordered_set>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace std;

namespace pbt
{
    // ------------------------------------------------------------------ Gen
    void Gen::startRandom(uint64_t seed) { this->replay_ = false; this->rng_ = Rng(seed); }
    void Gen::startReplay(const uint64_t* p, size_t n) { this->replay_ = true; this->rp_ = p; this->rn_ = n; this->ri_ = 0; }

    uint64_t Gen::below(uint64_t n)
    {
        uint64_t v;
        if (this->replay_)
        {
            v = this->ri_ < this->rn_ ? this->rp_[this->ri_] : 0;
            this->ri_++;
            if (n != 0 && v >= n) v = n - 1;
        }
        else
        {
            v = this->rng_.next();
            if (n != 0) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
        }
        if (this->sink != nullptr)
        {
            const uint64_t c = *this->sinkCount;
            if (c < this->sinkCap) { this->sink[c] = v; *this->sinkCount = c + 1; }
            else if (c > this->sinkCap + 5000000) { throw Discard(); }
        }
        this->hash_ = (this->hash_ ^ v) * 1099511628211ull;
        this->hash_ ^= this->hash_ >> 29;
        return v;
    }
    uint64_t Gen::seed64() { return this->below(0); }
    int64_t Gen::range(int64_t lo, int64_t hi)
    {
        if (hi <= lo) return lo;
        return (int64_t)((uint64_t)lo + this->below((uint64_t)hi - (uint64_t)lo + 1));
    }
    int64_t Gen::range0(int64_t lo, int64_t hi)
    {
        if (lo >= 0) return this->range(lo, hi);
        if (hi <= 0) return -this->range(-hi, -lo);
        const uint64_t pos = (uint64_t)hi + 1, neg = (uint64_t)(-lo);
        const uint64_t v = this->below(pos + neg);
        return v < pos ? (int64_t)v : -(int64_t)(v - pos + 1);
    }
    int64_t Gen::size(int64_t lo, int64_t hi)
    {
        if (hi <= lo) return lo;
        const uint64_t span = (uint64_t)(hi - lo);
        // minimum of two draws is biased to small values; one draw only so that shrinking stays simple
        const uint64_t v = this->below(1u << 20);
        const double u = (double)v / (double)(1u << 20);
        return lo + (int64_t)((double)(span + 1) * u * u);
    }
    bool Gen::chance(unsigned num, unsigned den)
    {
        if (num == 0) return false;
        if (num >= den) return true;
        return this->below(den) >= den - num;
    }
    size_t Gen::weighted(initializer_list<unsigned> w)
    {
        uint64_t t = 0;
        for (auto x : w) t += x;
        uint64_t v = this->below(t);
        size_t i = 0;
        for (auto x : w) { if (v < x) return i; v -= x; ++i; }
        return 0;
    }
    double Gen::unit() { return (double)this->below((1ull << 32) + 1) / (double)(1ull << 32); }
    void Gen::fill(uint64_t seed, void* p, size_t n)
    {
        uint8_t* b = static_cast<uint8_t*>(p);
        if (seed == 0) { memset(b, 0, n); return; }
        Rng r(seed);
        size_t i = 0;
        for (; i + 8 <= n; i += 8) { uint64_t v = r.next(); memcpy(b + i, &v, 8); }
        if (i < n) { uint64_t v = r.next(); memcpy(b + i, &v, n - i); }
    }
    vector<uint8_t> Gen::bytes(size_t n)
    {
        vector<uint8_t> v(n);
        fill(this->seed64(), v.data(), n);
        return v;
    }
    void Gen::cls(const string& label) { this->classes_.insert(label); }
    void Gen::count(const string& label, uint64_t n) { this->counts_.emplace_back(label, n); }

    void fail(const string& key, const string& msg) { throw Fail{ key, msg }; }

    // ------------------------------------------------------------------ runner
    namespace
    {
        enum Status : uint32_t { stRunning = 0, stPass = 1, stFail = 2, stDiscard = 3, stDone = 4 };
        const size_t ChoiceCap = 400000;

        struct Slot
        {
            volatile uint32_t status;
            volatile uint64_t sub;
            volatile uint64_t caseNo;
            volatile uint64_t evals;
            volatile uint64_t choiceCount;
            volatile double caseStart;
            char key[256];
            char msg[8192];
            uint64_t choices[ChoiceCap];
        };

        string g_tmp;
        string g_scratch;
        double now()
        {
            return chrono::duration<double>(chrono::steady_clock::now().time_since_epoch()).count();
        }
        uint64_t mix(uint64_t a, uint64_t b)
        {
            Rng r(a * 0x9E3779B97F4A7C15ull + b);
            r.next();
            return r.next() ^ (b * 0xD6E8FEB86659FD93ull);
        }
        uint64_t hashStr(const string& s)
        {
            uint64_t h = 1469598103934665603ull;
            for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
            return h;
        }
        Slot* mapSlot()
        {
            void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            if (p == MAP_FAILED) { perror("mmap"); exit(3); }
            return static_cast<Slot*>(p);
        }
        string jsonEsc(const string& s)
        {
            string o;
            for (unsigned char c : s)
            {
                if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
                else if (c == '\n') o += "\\n";
                else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
                else o += (char)c;
            }
            return o;
        }
        void rmTree(const string& p)
        {
            struct stat st;
            if (lstat(p.c_str(), &st) != 0) return;
            if (S_ISDIR(st.st_mode))
            {
                if (DIR* d = opendir(p.c_str()))
                {
                    while (dirent* e = readdir(d))
                    {
                        string n = e->d_name;
                        if (n != "." && n != "..") rmTree(p + "/" + n);
                    }
                    closedir(d);
                }
                rmdir(p.c_str());
            }
            else unlink(p.c_str());
        }
        void armTimer(double s)
        {
            itimerval tv{};
            tv.it_value.tv_sec = (time_t)s;
            tv.it_value.tv_usec = (suseconds_t)((s - (double)(time_t)s) * 1e6);
            setitimer(ITIMER_PROF, &tv, nullptr);
        }
        void onProf(int) { _exit(78); }
        void redirectStderr(const string& f)
        {
            int fd = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
        }
        string tailOfReport(const string& f)
        {
            ifstream i(f, ios::binary);
            string all((istreambuf_iterator<char>(i)), istreambuf_iterator<char>());
            auto p = all.find("ERROR: AddressSanitizer");
            if (p == string::npos) p = all.find("WARNING: ThreadSanitizer");
            if (p == string::npos) p = all.find("runtime error:");
            if (p == string::npos) p = all.size() > 1500 ? all.size() - 1500 : 0;
            return all.substr(p, 1800);
        }

        /// run one case in this process
        Status runCase(const Config& cfg, size_t sub, Gen& g, Slot* slot)
        {
            g.sink = slot->choices; g.sinkCount = &slot->choiceCount; g.sinkCap = ChoiceCap;
            slot->choiceCount = 0;
            slot->sub = sub;
            slot->caseStart = now();
            slot->status = stRunning;
            armTimer(cfg.caseCpuSeconds);
            Status st = stPass;
            string key, msg;
            try { cfg.subs[sub].fn(g); }
            catch (Discard&) { st = stDiscard; }
            catch (Fail& f) { st = stFail; key = f.key; msg = f.msg; }
            catch (std::exception& e) { st = stFail; key = "unexpected-exception"; msg = string("unexpected exception escaped: ") + e.what(); }
            catch (...) { st = stFail; key = "unexpected-exception"; msg = "unexpected exception of unknown type escaped"; }
            armTimer(0);
            slot->caseStart = 0;
            if (st == stFail)
            {
                snprintf(slot->key, sizeof slot->key, "%s", key.c_str());
                snprintf(slot->msg, sizeof slot->msg, "%s", msg.c_str());
            }
            return st;
        }

        struct Outcome { string kind; string msg; vector<uint64_t> choices; string desc; };
        // kind: "pass", "discard", "fail:<key>", "crash", "hang"

        Outcome runIsolated(const Config& cfg, size_t sub, const function<void(Gen&)>& init, bool trace = false)
        {
            static Slot* slot = mapSlot();
            slot->choiceCount = 0; slot->status = stRunning; slot->msg[0] = 0; slot->key[0] = 0;
            const string errf = g_tmp + "/iso.err", descf = g_tmp + "/iso.desc";
            unlink(descf.c_str());
            fflush(stdout); fflush(stderr);
            pid_t pid = fork();
            if (pid == 0)
            {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                signal(SIGPROF, onProf);
                redirectStderr(errf);
                g_scratch = g_tmp + "/iso.d";
                mkdir(g_scratch.c_str(), 0755);
                if (cfg.workerInit) cfg.workerInit();
                Gen g; init(g);
                g.trace_ = trace;
                g.flushDesc = [&](const ostringstream& d) { ofstream o(descf); o << d.str(); };
                Status st = runCase(cfg, sub, g, slot);
                { ofstream o(descf); o << g.desc_.str(); }
                slot->status = st;
                _exit(0);
            }
            Outcome o;
            int ws = 0; bool hang = false;
            const double t0 = now();
            for (;;)
            {
                pid_t r = waitpid(pid, &ws, WNOHANG);
                if (r == pid) break;
                if (now() - t0 > cfg.caseWallSeconds) { kill(pid, SIGKILL); waitpid(pid, &ws, 0); hang = true; break; }
                usleep(300);
            }
            rmTree(g_tmp + "/iso.d");
            if (slot->choiceCount <= ChoiceCap) o.choices.assign(slot->choices, slot->choices + slot->choiceCount);
            { ifstream i(descf); o.desc.assign((istreambuf_iterator<char>(i)), istreambuf_iterator<char>()); }
            if (hang || (WIFEXITED(ws) && WEXITSTATUS(ws) == 78)) { o.kind = cfg.hangIsViolation ? "hang" : "discard"; o.msg = "the case did not terminate within its time limit"; return o; }
            if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0)
            {
                if (slot->status == stPass) o.kind = "pass";
                else if (slot->status == stDiscard) o.kind = "discard";
                else { o.kind = string("fail:") + slot->key; o.msg = slot->msg; }
                return o;
            }
            o.kind = "crash";
            o.msg = cat("process died (", WIFSIGNALED(ws) ? "signal " : "exit code ", WIFSIGNALED(ws) ? WTERMSIG(ws) : WEXITSTATUS(ws), "): ", tailOfReport(errf));
            return o;
        }

        vector<uint64_t> shrink(const Config& cfg, size_t sub, vector<uint64_t> cur, const string& kind, double budget, string& msg, string& desc)
        {
            const double end = now() + budget;
            unsigned tries = 0;
            auto attempt = [&](const vector<uint64_t>& cand) -> bool
                {
                    if (now() > end) return false;
                    ++tries;
                    Outcome o = runIsolated(cfg, sub, [&](Gen& g) { g.startReplay(cand.data(), cand.size()); });
                    if (o.kind != kind) return false;
                    vector<uint64_t> r = o.choices;
                    while (!r.empty() && r.back() == 0) r.pop_back();
                    auto less = [](const vector<uint64_t>& a, const vector<uint64_t>& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; };
                    if (!less(r, cur)) return false;
                    cur = r; msg = o.msg; desc = o.desc;
                    return true;
                };
            while (!cur.empty() && cur.back() == 0) cur.pop_back();
            if (kind == "hang") budget = min(budget, 10.0);
            bool improved = true;
            while (improved && now() < end)
            {
                improved = false;
                for (size_t chunk : { (size_t)256, (size_t)64, (size_t)16, (size_t)8, (size_t)4, (size_t)2, (size_t)1 })
                {
                    if (chunk > cur.size()) continue;
                    for (size_t i = 0; i + chunk <= cur.size() && now() < end;)
                    {
                        vector<uint64_t> c = cur;
                        c.erase(c.begin() + (long)i, c.begin() + (long)(i + chunk));
                        if (attempt(c)) { improved = true; continue; }
                        c = cur;
                        bool nz = false;
                        for (size_t k = i; k < i + chunk; ++k) { nz = nz || c[k] != 0; c[k] = 0; }
                        if (nz && attempt(c)) improved = true;
                        i += chunk;
                    }
                }
                for (size_t i = 0; i < cur.size() && now() < end; ++i)
                {
                    uint64_t lo = 0;
                    for (int k = 0; k < 66 && i < cur.size() && cur[i] > lo && now() < end; ++k)
                    {
                        vector<uint64_t> c = cur;
                        c[i] = lo + (cur[i] - lo) / 2;
                        if (attempt(c)) improved = true;
                        else lo = c[i] + 1;
                    }
                    // deleting a list element often needs the preceding length to be decremented
                    if (i < cur.size() && cur[i] > 0)
                    {
                        for (size_t len : { (size_t)1, (size_t)2, (size_t)3, (size_t)5, (size_t)8 })
                        {
                            if (i + 1 + len > cur.size()) break;
                            vector<uint64_t> c = cur;
                            c[i]--;
                            c.erase(c.begin() + (long)i + 1, c.begin() + (long)(i + 1 + len));
                            if (attempt(c)) { improved = true; break; }
                        }
                    }
                }
            }
            return cur;
        }

        void writeReplay(const string& path, const Config& cfg, size_t sub, const Outcome& o, const vector<uint64_t>& choices)
        {
            ofstream f(path);
            f << "{\n \"property\": \"" << cfg.property << "\",\n \"sub\": \"" << jsonEsc(cfg.subs[sub].name) << "\",\n \"kind\": \"" << jsonEsc(o.kind) << "\",\n \"message\": \"" << jsonEsc(o.msg.substr(0, 3000)) << "\",\n \"description\": \"" << jsonEsc(o.desc.substr(0, 6000)) << "\",\n \"choices\": [";
            for (size_t i = 0; i < choices.size(); ++i) f << (i ? "," : "") << choices[i];
            f << "]\n}\n";
        }
        bool readReplay(const string& path, string& sub, vector<uint64_t>& choices)
        {
            ifstream i(path, ios::binary);
            if (!i) return false;
            string all((istreambuf_iterator<char>(i)), istreambuf_iterator<char>());
            auto p = all.find("\"sub\": \"");
            if (p == string::npos) return false;
            p += 8;
            sub = all.substr(p, all.find('"', p) - p);
            p = all.rfind("\"choices\": [");
            if (p == string::npos) return false;
            p += 12;
            const char* c = all.c_str() + p;
            while (*c && *c != ']')
            {
                char* e; choices.push_back(strtoull(c, &e, 10));
                if (e == c) break;
                c = e; if (*c == ',') ++c;
            }
            return true;
        }
    }

    string scratchDir() { return g_scratch; }

    int main(int argc, char** argv, Config cfg)
    {
        uint64_t seed = 1; string tier = "quick", jsonOut, replayDir = ".", replayFile, onlySub, knownFile, dumpDir;
        double budget = 120; double scale = 1; unsigned workers = 8; double shrinkBudget = 45; long onlyCase = -1;
        for (int i = 1; i < argc; ++i)
        {
            string a = argv[i];
            auto v = [&]() { return string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--seed") seed = strtoull(v().c_str(), nullptr, 10);
            else if (a == "--tier") tier = v();
            else if (a == "--budget") budget = atof(v().c_str());
            else if (a == "--scale") scale = atof(v().c_str());
            else if (a == "--json") jsonOut = v();
            else if (a == "--replay-dir") replayDir = v();
            else if (a == "--replay") replayFile = v();
            else if (a == "--sub") onlySub = v();
            else if (a == "--case") onlyCase = atol(v().c_str());
            else if (a == "--workers") workers = (unsigned)atoi(v().c_str());
            else if (a == "--shrink") shrinkBudget = atof(v().c_str());
            else if (a == "--known") knownFile = v();
        }
        workers = max(1u, min(workers, cfg.maxWorkers));
        char tmpl[] = "/tmp/pbt.XXXXXX";
        if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; }
        g_tmp = tmpl;
        signal(SIGPIPE, SIG_IGN);

        // known findings: "known: property=<id> key=<key> <text>"
        map<string, string> known;
        if (!knownFile.empty())
        {
            ifstream k(knownFile); string line;
            while (getline(k, line))
            {
                if (line.compare(0, 6, "known:") != 0) continue;
                istringstream is(line.substr(6)); string p, key, rest;
                is >> p >> key; getline(is, rest);
                if (p == "property=" + cfg.property && key.compare(0, 4, "key=") == 0) known[key.substr(4)] = rest;
            }
        }

        auto cleanup = [&] { rmTree(g_tmp); };

        if (!replayFile.empty())
        {
            string subName; vector<uint64_t> ch;
            if (!readReplay(replayFile, subName, ch)) { fprintf(stderr, "cannot read %s\n", replayFile.c_str()); cleanup(); return 3; }
            size_t s = 0;
            while (s < cfg.subs.size() && cfg.subs[s].name != subName) ++s;
            if (s == cfg.subs.size()) { fprintf(stderr, "unknown sub %s\n", subName.c_str()); cleanup(); return 3; }
            Outcome o = runIsolated(cfg, s, [&](Gen& g) { g.startReplay(ch.data(), ch.size()); }, true);
            printf("%s\n%s\n%s\n", o.kind.c_str(), o.msg.c_str(), o.desc.c_str());
            cleanup();
            return (o.kind == "pass" || o.kind == "discard") ? 0 : 1;
        }

        struct Work { size_t sub; uint64_t n; };
        vector<uint64_t> counts;
        for (auto& s : cfg.subs)
        {
            uint64_t n = (uint64_t)((double)(tier == "quick" ? s.quickCases : s.thoroughCases) * scale);
            if (!onlySub.empty() && s.name != onlySub) n = 0;
            else if (n == 0) n = 1;
            counts.push_back(n);
        }
        if (onlyCase >= 0)
        {
            for (size_t s = 0; s < cfg.subs.size(); ++s)
            {
                if (counts[s] == 0) continue;
                Outcome o = runIsolated(cfg, s, [&](Gen& g) { g.startRandom(mix(mix(seed, hashStr(cfg.subs[s].name)), (uint64_t)onlyCase)); }, true);
                printf("%s\n%s\n%s\n", o.kind.c_str(), o.msg.c_str(), o.desc.c_str());
            }
            cleanup();
            return 0;
        }

        // Interleave the subs proportionally, so that a time cap hits them all alike.
        uint64_t total = 0; for (auto c : counts) total += c;
        auto caseAt = [&](uint64_t i, size_t& sub, uint64_t& no) { // i-th of total
            // proportional: use the largest-deficit rule implicitly via per-sub arithmetic
            (void)i; (void)sub; (void)no;
        };
        (void)caseAt;

        const double t0 = now();
        vector<Slot*> slots; vector<pid_t> pids;
        for (unsigned w = 0; w < workers; ++w) slots.push_back(mapSlot());
        fflush(stdout);

        auto workerMain = [&](unsigned w)
            {
                Slot* slot = slots[w];
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                signal(SIGPROF, onProf);
                redirectStderr(cat(g_tmp, "/w", w, ".err"));
                g_scratch = cat(g_tmp, "/w", w, ".d");
                mkdir(g_scratch.c_str(), 0755);
                if (cfg.workerInit) cfg.workerInit();
                map<string, uint64_t> classes; unordered_set<uint64_t> distinct;
                uint64_t evals = 0, discards = 0, nontriv = 0;
                vector<uint64_t> perSub(cfg.subs.size(), 0);
                map<string, uint64_t> knownHits;
                vector<string> samples;
                Rng srng(seed + w);
                const double end = t0 + budget;
                bool stop = false;
                // steps of 1/1000 of each sub's count
                const uint64_t rounds = 200;
                for (uint64_t r = 0; r < rounds && !stop; ++r)
                {
                    for (size_t s = 0; s < cfg.subs.size() && !stop; ++s)
                    {
                        const uint64_t b = counts[s] * r / rounds, e = counts[s] * (r + 1) / rounds;
                        for (uint64_t c = b; c < e; ++c)
                        {
                            if ((c + s) % workers != w) continue;
                            if (now() > end) { stop = true; break; }
                            Gen g;
                            g.startRandom(mix(mix(seed, hashStr(cfg.subs[s].name)), c));
                            g.trace_ = (c / workers) % 16 == 0;     // these describe themselves in full, and serve as samples
                            slot->caseNo = c;
                            Status st = runCase(cfg, s, g, slot);
                            if (st == stFail)
                            {
                                if (known.count(slot->key)) { knownHits[slot->key]++; st = stPass; }
                                else { slot->status = stFail; _exit(0); }
                            }
                            evals++; perSub[s]++;
                            slot->evals = evals;
                            if (st == stDiscard) { discards++; continue; }
                            for (auto& l : g.classes_) classes[cfg.subs[s].name + ":" + l]++;
                            for (auto& l : g.counts_) classes[cfg.subs[s].name + ":" + l.first] += l.second;
                            if (g.nontrivial_)
                            {
                                nontriv++;
                                if (distinct.insert(g.hash() * 31 + s).second && g.trace_)
                                {
                                    string d = cfg.subs[s].name + ": " + g.desc_.str();
                                    if (d.size() > 700) d = d.substr(0, 700) + "...";
                                    if (samples.size() < 6) samples.push_back(d);
                                    else { uint64_t k = srng.next() % distinct.size(); if (k < 6) samples[k] = d; }
                                }
                            }
                        }
                    }
                }
                ofstream o(cat(g_tmp, "/w", w, ".res"));
                o << "E " << evals << "\nD " << discards << "\nN " << nontriv << "\nU " << distinct.size() << "\n";
                for (size_t s = 0; s < perSub.size(); ++s) o << "P " << s << " " << perSub[s] << "\n";
                for (auto& k : classes) o << "C " << k.second << " " << k.first << "\n";
                for (auto& k : knownHits) o << "K " << k.second << " " << k.first << "\n";
                for (auto& k : samples) o << "S " << jsonEsc(k) << "\n";
                o.close();
                slot->status = stDone;
                fflush(nullptr);
                _exit(0);
            };

        for (unsigned w = 0; w < workers; ++w)
        {
            pid_t p = fork();
            if (p == 0) { workerMain(w); _exit(0); }
            pids.push_back(p);
        }

        // supervise
        struct Failure { unsigned w; size_t sub; uint64_t no; string kind; };
        vector<Failure> failures;
        unsigned alive = workers; vector<bool> done(workers, false);
        while (alive > 0)
        {
            for (unsigned w = 0; w < workers; ++w)
            {
                if (done[w]) continue;
                int ws; pid_t r = waitpid(pids[w], &ws, WNOHANG);
                if (r == pids[w])
                {
                    done[w] = true; --alive;
                    Slot* s = slots[w];
                    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0 && s->status == stDone) continue;
                    string kind = "crash";
                    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0 && s->status == stFail) kind = string("fail:") + s->key;
                    else if (WIFEXITED(ws) && WEXITSTATUS(ws) == 78) kind = "hang";
                    failures.push_back({ w, (size_t)s->sub, s->caseNo, kind });
                }
                else if (const double cs = slots[w]->caseStart; cs != 0 && now() - cs > cfg.caseWallSeconds)
                {
                    kill(pids[w], SIGKILL); waitpid(pids[w], &ws, 0);
                    done[w] = true; --alive;
                    failures.push_back({ w, (size_t)slots[w]->sub, slots[w]->caseNo, "hang" });
                }
            }
            if (!failures.empty())
            {
                for (unsigned w = 0; w < workers; ++w)
                    if (!done[w]) { int ws; kill(pids[w], SIGKILL); waitpid(pids[w], &ws, 0); done[w] = true; --alive; }
            }
            usleep(2000);
        }

        uint64_t evals = 0, discards = 0, nontriv = 0, distinct = 0; map<string, uint64_t> classes, knownHits; vector<string> samples;
        map<string, uint64_t> perSub;
        for (unsigned w = 0; w < workers; ++w)
        {
            ifstream i(cat(g_tmp, "/w", w, ".res")); string line;
            if (!i) { evals += slots[w]->evals; continue; }
            while (getline(i, line))
            {
                istringstream is(line.substr(2)); uint64_t n = 0;
                switch (line[0])
                {
                case 'E': is >> n; evals += n; break;
                case 'D': is >> n; discards += n; break;
                case 'N': is >> n; nontriv += n; break;
                case 'U': is >> n; distinct += n; break;
                case 'P': { size_t s; is >> s >> n; perSub[cfg.subs[s].name] += n; } break;
                case 'C': { is >> n; string l; getline(is, l); classes[l.substr(1)] += n; } break;
                case 'K': { is >> n; string l; getline(is, l); knownHits[l.substr(1)] += n; } break;
                case 'S': samples.push_back(line.substr(2)); break;
                }
            }
        }
        const double tRun = now() - t0;

        int rc = 0; string violationJson;
        unsigned unreproduced = 0;
        for (auto& f : failures)
        {
            const uint64_t cs = mix(mix(seed, hashStr(cfg.subs[f.sub].name)), f.no);
            bool seenOnce = false; Outcome o = runIsolated(cfg, f.sub, [&](Gen& g) { g.startRandom(cs); });
            // schedule-dependent failures may need more than one attempt
            const double tRetry = now();
            for (int k = 0; k < (cfg.schedules ? 100 : 10) && (!cfg.schedules || now() - tRetry < 30) && (o.kind == "pass" || o.kind == "discard"); ++k)
                o = runIsolated(cfg, f.sub, [&](Gen& g) { g.startRandom(cs); });
            const string report = tailOfReport(cat(g_tmp, "/w", f.w, ".err"));
            if (cfg.schedules && (o.kind == "pass" || o.kind == "discard") && (f.kind.rfind("fail:", 0) == 0 || report.find("WARNING: ThreadSanitizer") != string::npos))
            { // it happened, although not again: an unsynchronised access or a wrong result is what it is
                o.kind = f.kind; o.msg = f.kind.rfind("fail:", 0) == 0 ? string(slots[f.w]->msg) : report; seenOnce = true;
            }
            if (o.kind == "pass" || o.kind == "discard")
            {
                fprintf(stderr, "[pbt] failure (%s) of %s case %llu did not reproduce in isolation: %s\n", f.kind.c_str(), cfg.subs[f.sub].name.c_str(), (unsigned long long)f.no, tailOfReport(cat(g_tmp, "/w", f.w, ".err")).c_str());
                ++unreproduced;
                continue;
            }
            string msg = o.msg, desc = o.desc;
            vector<uint64_t> best = o.choices;
            if (!seenOnce && shrinkBudget > 0 && best.size() < ChoiceCap) best = shrink(cfg, f.sub, best, o.kind, o.kind == "hang" ? 0 : shrinkBudget, msg, desc);
            unsigned again = 0; Outcome last = o;
            for (int k = 0; k < 3; ++k)
            {
                Outcome x = runIsolated(cfg, f.sub, [&](Gen& g) { g.startReplay(best.data(), best.size()); }, true);
                if (x.kind != "pass" && x.kind != "discard") { ++again; last = x; }
            }
            if (again == 0) { best = o.choices; last = o; }
            const string path = cat(replayDir, "/", cfg.property, "-", cfg.subs[f.sub].name, "-", seed, "-", f.no, ".json");
            mkdir(replayDir.c_str(), 0755);
            writeReplay(path, cfg, f.sub, last, best);
            fprintf(stderr, "[pbt] %s sub=%s case=%llu kind=%s (replayed %u/3, %zu choices)\n%s\n%s\n", cfg.property.c_str(), cfg.subs[f.sub].name.c_str(), (unsigned long long)f.no, last.kind.c_str(), again, best.size(), last.msg.c_str(), last.desc.substr(0, 2500).c_str());
            printf("VIOLATION property=%s replay=%s\n", cfg.property.c_str(), path.c_str());
            fflush(stdout);
            violationJson += cat(violationJson.empty() ? "" : ",", "{\"replay\":\"", jsonEsc(path), "\",\"kind\":\"", jsonEsc(last.kind), "\",\"message\":\"", jsonEsc(last.msg.substr(0, 1500)), "\"}");
            rc = 1;
            break;
        }
        for (auto& k : knownHits) printf("KNOWN-FINDING: property=%s %s (%s; hit %llu times)\n", cfg.property.c_str(), known[k.first].c_str(), k.first.c_str(), (unsigned long long)k.second);

        if (!jsonOut.empty())
        {
            ofstream j(jsonOut);
            j << "{\"evaluations\":" << evals << ",\"discarded\":" << discards << ",\"nontrivial\":" << nontriv << ",\"distinct_nontrivial\":" << distinct << ",\"rule\":\"" << jsonEsc(cfg.rule) << "\",\"samples\":[";
            // spread over workers
            size_t n = 0;
            for (size_t i = 0; i < samples.size() && n < 10; i += max<size_t>(1, samples.size() / 10)) { j << (n++ ? "," : "") << "\"" << samples[i] << "\""; }
            j << "],\"classes\":{";
            bool first = true;
            for (auto& k : classes) { j << (first ? "" : ",") << "\"" << jsonEsc(k.first) << "\":" << k.second; first = false; }
            j << "},\"per_sub\":{"; first = true;
            for (auto& k : perSub) { j << (first ? "" : ",") << "\"" << jsonEsc(k.first) << "\":" << k.second; first = false; }
            j << "},\"assumptions\":["; first = true;
            for (auto& k : cfg.assumptions) { j << (first ? "" : ",") << "\"" << jsonEsc(k) << "\""; first = false; }
            j << "],\"level\":\"" << cfg.level << "\",\"wall_s\":" << tRun << ",\"unreproduced\":" << unreproduced << ",\"planned\":" << total << ",\"violations\":[" << violationJson << "]}";
        }
        printf("[pbt] %s tier=%s seed=%llu: %llu/%llu cases, %llu distinct non-trivial, %llu discarded, %.1f s\n", cfg.property.c_str(), tier.c_str(), (unsigned long long)seed, (unsigned long long)evals, (unsigned long long)total, (unsigned long long)distinct, (unsigned long long)discards, tRun);
        cleanup();
        return rc;
    }
}
