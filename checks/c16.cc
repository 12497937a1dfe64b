// C16: detection of inline/crossline gathers for every line pattern and
// process count against run-length grouping.
#include "common.hh"
#include "ExSeisDat/PIOL/operations/gather.hh"
using namespace cm;
using exseis::PIOL::Gather_info;
typedef std::pair<long long, long long> IX;
static std::vector<Gather_info> want_of(const std::vector<IX>& v)
{
    std::vector<Gather_info> w;
    for (size_t i = 0; i < v.size(); i++) {
        if (!i || v[i] != v[i - 1]) w.push_back({0, v[i].first, v[i].second});
        w.back().num_traces++;
    }
    return w;
}
static std::string show(const std::vector<Gather_info>& g)
{
    std::string s;
    for (auto& x : g) s += S(x.num_traces) + "x(" + S(x.inline_) + "," + S(x.crossline) + ") ";
    return s;
}
static bool same(const std::vector<Gather_info>& a, const std::vector<Gather_info>& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (a[i].num_traces != b[i].num_traces || a[i].inline_ != b[i].inline_ || a[i].crossline != b[i].crossline) return false;
    return true;
}
static void make(const std::vector<IX>& v)
{
    put_file(mc::fs()["g.segy"], ho_bytes("C", 1, 1000, 5, true), v.size(), 1, [&](size_t i, uc* h) {
        put32(h + 188, uint32_t(int(v[i].first)));
        put32(h + 192, uint32_t(int(v[i].second)));
    }, [](size_t, size_t) { return 0u; });
}
static void body(int rank, std::vector<std::vector<Gather_info>>& got, bool& err)
{
    auto piol = ExSeis::New();
    ReadDirect in(piol, "g.segy");
    ReadInterface* ri = in;
    auto g            = getIlXlGathers(piol.get(), ri);
    auto& o           = got[size_t(rank)];
    o.clear();
    // every process reads the list at once, in different orders
    o.resize(g.size());
    for (size_t k = 0; k < g.size(); k++) {
        size_t i = rank % 2 ? k : g.size() - 1 - k;
        o[i]     = g[i];
    }
    if (piol->log->isErr()) err = true;
    piol->comm->barrier();
}
static void judge(mc::Case& c, const std::vector<IX>& v, int nr)
{
    make(v);
    mc::Config cfg;
    cfg.nranks = nr;
    std::vector<std::vector<Gather_info>> got(static_cast<size_t>(nr));
    bool err       = false;
    mc::Result r   = mc::run_case(c, cfg, [&](int rank) { body(rank, got, err); });
    auto w         = want_of(v);
    uint64_t h     = mc::mix(size_t(nr), v.size());
    for (auto& x : v) h = mc::mix(h, size_t(x.first * 31 + x.second));
    c.state(h);
    c.outcome(mc::hash_bytes(w.data(), w.size() * sizeof(Gather_info)));
    if (r.status != mc::Status::Done || c.failed()) return;
    if (err) c.fail("error", "an error is reported");
    for (int k = 0; k < nr && !c.failed(); k++)
        if (!same(w, got[size_t(k)])) c.fail("gathers", S(v.size()) + " traces on " + S(nr) + " processes: process " + S(k) + " gets " + show(got[size_t(k)]) + "instead of " + show(w));
}
static const IX pal[][4] = {{{1, 1}, {1, 2}, {2, 1}, {2, 2}}, {{-1, 5}, {5, -1}, {0, 0}, {-1, -1}}, {{2147483647, 1}, {-2147483647 - 1, 1}, {1, 2147483647}, {1, -2147483647 - 1}}};
// every pattern of three (two) line pairs
SCENARIO(patterns)
{
    int n  = c.range(0, c.thorough() ? 9 : 7, "traces");
    int nr = c.range(1, 5, "ranks");
    int f0 = c.pick(n > 4 ? 3 : 1, "first");
    if (!c.go()) return;
    int b = n > 7 ? 2 : 3, nk = 1;
    for (int k = 0; k < n - (n > 4); k++) nk *= b;
    for (int code = 0; code < nk && !c.failed(); code++) {
        std::vector<IX> v;
        int x = code;
        if (n > 4) v.push_back(pal[0][f0]);
        while (int(v.size()) < n) {
            v.push_back(pal[0][x % b]);
            x /= b;
        }
        judge(c, v, nr);
    }
}
SCENARIO(values)
{
    int p = c.pick(3, "palette"), n = c.range(1, 4, "traces"), nr = c.range(1, 4, "ranks");
    if (!c.go()) return;
    for (int code = 0; code < (1 << (2 * n)) && !c.failed(); code++) {
        std::vector<IX> v;
        for (int k = 0; k < n; k++) v.push_back(pal[p][(code >> (2 * k)) & 3]);
        judge(c, v, nr);
    }
}
// Longer files: every set of boundaries with gathers spanning processes.
SCENARIO(boundaries)
{
    int n  = c.range(8, c.thorough() ? 14 : 10, "traces");
    int nr = c.range(2, c.thorough() ? 7 : 6, "ranks");
    int hi = c.pick(8, "first boundaries");
    int kd = c.pick(2, "lines repeat");
    if (!c.go()) return;
    for (int m = 0; m < (1 << (n - 4)) && !c.failed(); m++) {
        int mask = m * 8 + hi;
        std::vector<IX> v{{1, 1}};
        for (int k = 0; k + 1 < n; k++) {
            IX x = v.back();
            if ((mask >> k) & 1) x = kd ? (x.first == 1 ? IX{2, 1} : IX{1, 1}) : k % 2 ? IX{x.first + 1, x.second} : IX{x.first, x.second + 1};
            v.push_back(x);
        }
        judge(c, v, nr);
    }
}
// large gathers
SCENARIO(large)
{
    int nr = c.of<int>({1, 2, 3, 4, 5, 8, 9, 16}, "ranks"), sz = c.of<int>({1, 2, 7, 40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 299, 300, 1024, 1025}, "gather size");
    int n  = c.of<int>({257, 300, 1025, 4099}, "traces");
    if (!c.go()) return;
    if (n > 2000 && sz < 7) return;
    std::vector<IX> v;
    for (int i = 0; i < n; i++) v.push_back({i / sz, 7});
    judge(c, v, nr);
}
// The list is complete on return under every schedule.
SCENARIO(schedules)
{
    int pt = c.pick(5, "pattern"), nr = c.range(2, 3, "ranks");
    if (!c.go()) return;
    static const char* pats[5] = {"aabb", "abc", "aaaa", "abab", "ab"};
    std::vector<IX> v;
    for (const char* p = pats[pt]; *p; p++) v.push_back({*p, 3});
    make(v);
    mc::Config cfg;
    cfg.nranks           = nr;
    cfg.explore_sched    = true;
    cfg.bound[mc::SCHED] = c.thorough() ? 2 : 1;
    std::vector<std::vector<Gather_info>> got(static_cast<size_t>(nr));
    bool err = false;
    auto w   = want_of(v);
    mc::explore_case(
      c, cfg, [&]() { make(v); }, [&](int rank) { body(rank, got, err); },
      [&](const mc::Result& r) {
          if (r.status != mc::Status::Done) {
              c.fail("run", std::string(mc::status_name(r.status)) + ": " + r.msg);
              return;
          }
          for (int k = 0; k < nr; k++)
              if (!same(w, got[size_t(k)])) c.fail("schedule", "under some schedule process " + S(k) + " gets " + show(got[size_t(k)]) + "instead of " + show(w));
      });
    c.outcome(size_t(pt * 4 + nr));
}
