// P05: document statistics equal those of the tiles
#include "stats.hpp"
using namespace czi;
using namespace std;

template <class R> static void compare(const string& where, R& r, const vector<Sb>& v, int order)
{
    const string es = expectedStats(v), ep = expectedPyramid(v);
    auto a = [&] { auto s = statsStr(r.GetStatistics()); PBT_REQUIRE("statistics", s == es, where, ": statistics are\n ", s, "\ninstead of\n ", es); };
    auto b = [&] { auto s = pyramidStr(r.GetPyramidStatistics()); PBT_REQUIRE("pyramid-statistics", s == ep, where, ": pyramid statistics are\n ", s, "\ninstead of\n ", ep); };
    switch (order) { case 0: a(); b(); break; case 1: b(); a(); break; case 2: b(); b(); a(); a(); break; case 3: a(); break; default: b(); break; }
}
static Sb genTile(Gen& g, const vector<DimensionIndex>& dims, int flavour)
{
    Sb s;
    for (auto d : dims) if (flavour != 1 || g.chance(3, 4)) s.dims[d] = g.chance(1, 10) ? (int)g.range0(-1000, 1000) : (int)g.range0(-2, 4);
    if (flavour == 3) s.mValid = false; else s.mValid = g.chance(2, 3);
    if (s.mValid) s.m = g.chance(1, 5) ? (int)g.range0(-1000, 1000000) : (int)g.range(0, 20);
    s.x = genCoord(g, true); s.y = genCoord(g, true);
    s.pw = (int)g.size(1, 40); s.ph = (int)g.size(1, 40);
    int f = flavour == 2 ? g.of<int>({ 2, 3, 4, 9, 16 }) : g.of<int>({ 1, 1, 1, 1, 2, 3, 4, 8, 9, 16, 27, 32, 64, 81, 128, 243, 256, 512, 729, 1024, 2187, 5, 6, 7, 11, 100, 5000 });
    s.w = s.pw * f; s.h = s.ph * f;
    if (g.chance(1, 10)) { s.w = s.pw; }                                    // anisotropic
    if (g.chance(1, 10)) { s.pw = 500; s.ph = 300; s.w = 500 * f + (int)g.range(0, 1); s.h = 300 * f + 1; } // rounding
    if (!layerUnambiguous(s)) { s.w = s.pw; s.h = s.ph; }
    s.pyr = isLayer0(s) ? SubBlockPyramidType::None : SubBlockPyramidType::MultiSubBlock;
    s.data = Bytes(3, 7);
    return s;
}
static bool clash(const vector<Sb>& v, const Sb& s, int except = -1)
{
    for (size_t i = 0; i < v.size(); ++i)
    {
        if ((int)i == except) continue;
        auto& e = v[i];
        if (sameKey(e, s) || fabs(zoomOf(e) - zoomOf(s)) < 0.001) { if (e.dims == s.dims && (e.mValid == s.mValid) && (e.mValid ? e.m == s.m : (e.x == s.x && e.y == s.y))) return true; }
        if (e.dims == s.dims && e.mValid && s.mValid && e.m == s.m) return true;
    }
    return false;
}
static vector<Sb> genTiles(Gen& g, int maxn, vector<DimensionIndex>& dims, int& flavour)
{
    dims = genDimSet(g);
    flavour = (int)g.weighted({ 4, 2, 1, 1 });
    vector<Sb> v;
    int n = g.chance(1, 300) ? (int)g.range(maxn, 500) : (int)g.size(0, maxn);
    for (int i = 0; i < n; ++i) { Sb s = genTile(g, dims, flavour); if (!clash(v, s)) v.push_back(s); }
    static const char* fl[] = { "uniform-dims", "mixed-dims", "pyramid-only", "no-M" };
    g.cls(fl[flavour]); if (dims.empty()) g.cls("no-dims");
    return v;
}
int main(int argc, char** argv)
{
    pbt::Config c;
    c.property = "P05";
    c.rule = "random tile lists (mixed dimensions, scenes, tile indices, pyramid layers of factor 2 and 3, unidentifiable minifications, extreme coordinates) written in random order, and random edit sequences with interleaved statistics queries, compared with statistics recomputed from the list; non-trivial: at least 3 tiles";
    c.assumptions = { "minifications close to the tolerance limit of layer identification are not generated", "coordinates within +-10^9" };
    c.subs.push_back({ "written", 70000, 1500000, [](Gen& g)
        {
            vector<DimensionIndex> dims; int fl;
            auto v = genTiles(g, 30, dims, fl);
            Doc d; d.guid = genGuid(g); d.sbs = v;
            describe(g, d);
            if (v.size() >= 3) g.nontrivial();
            auto st = make_shared<MemStream>();
            auto w = CreateCZIWriter(); w->Create(st, writerInfo(d.guid, genWriteOpts(g)));
            vector<Sb> soFar;
            for (auto& s : v)
            {
                withAddInfo(s, [&](auto& a) { w->SyncAddSubBlock(a); });
                soFar.push_back(s);
                if (g.chance(1, 5)) { auto t = statsStr(w->GetStatistics()); PBT_REQUIRE("writer-statistics", t == expectedStats(soFar), "writer's statistics after ", soFar.size(), " tiles are\n ", t, "\ninstead of\n ", expectedStats(soFar)); }
            }
            w->Close();
            auto r = openReader(st);
            compare("reader", *r, v, (int)g.below(3));
            auto rw = CreateCZIReaderWriter(); rw->Create(st);
            compare("reader-writer", *rw, v, (int)g.below(3));
        } });
    c.subs.push_back({ "edited", 50000, 1200000, [](Gen& g)
        {
            vector<DimensionIndex> dims; int fl;
            auto v = genTiles(g, 10, dims, fl);
            Doc d; d.guid = genGuid(g); d.sbs = v;
            auto st = g.chance(1, 5) ? (v.clear(), make_shared<MemStream>()) : writeDoc(d);
            auto rw = CreateCZIReaderWriter(); rw->Create(st);
            map<int, Sb> m;
            rw->EnumerateSubBlocks([&](int k, const SubBlockInfo& i) { Sb s = fromInfo(i); m[k] = s; return true; });
            auto list = [&] { vector<Sb> l; for (auto& p : m) l.push_back(p.second); return l; };
            string log = pbt::cat(m.size(), " tiles:");
            const int n = (int)g.range(1, 16);
            int edits = 0;
            for (int i = 0; i < n; ++i)
            {
                switch (g.weighted({ 3, 3, 3, 4, 1 }))
                {
                case 0:
                {
                    Sb s = genTile(g, dims, fl); if (clash(list(), s)) break;
                    withAddInfo(s, [&](auto& a) { rw->SyncAddSubBlock(a); });
                    rw->EnumerateSubBlocks([&](int k, const SubBlockInfo&) { if (!m.count(k)) m[k] = s; return true; });
                    log += " add"; ++edits; break;
                }
                case 1:
                {
                    if (m.empty()) break;
                    auto it = m.begin(); advance(it, (long)g.below(m.size()));
                    rw->RemoveSubBlock(it->first); m.erase(it); log += " remove"; ++edits; break;
                }
                case 2:
                {
                    if (m.empty()) break;
                    auto it = m.begin(); advance(it, (long)g.below(m.size()));
                    Sb s = genTile(g, dims, fl); if (clash(list(), s)) break;
                    s.data = g.bytes((size_t)g.size(0, 600));
                    withAddInfo(s, [&](auto& a) { rw->ReplaceSubBlock(it->first, a); });
                    it->second = s; log += " replace"; ++edits; break;
                }
                case 3: { int o = (int)g.below(5); log += pbt::cat(" query", o); compare(log, *rw, list(), o); break; }
                case 4:
                {
                    rw->Close(); rw = CreateCZIReaderWriter(); rw->Create(st);
                    vector<Sb> before = list(); m.clear();
                    rw->EnumerateSubBlocks([&](int k, const SubBlockInfo& inf) { m[k] = fromInfo(inf); return true; });
                    log += " reopen"; break;
                }
                }
            }
            if (edits >= 3) g.nontrivial();
            g.d() << log;
            compare(log, *rw, list(), (int)g.below(3));
            auto l = list();
            rw->Close();
            auto r = openReader(st);
            compare(log + " closed, reader", *r, l, 0);
        } });
    return pbt::main(argc, argv, c);
}
