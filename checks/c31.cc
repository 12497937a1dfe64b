// C31: an instance created for a group of the processes works with exactly the
// processes of its group, whatever the others do.
#include "work.hh"
using exseis::utils::Integer;
// Every assignment of np processes to groups 0..g-1 (a process in group g has
// no instance), the processes of a group in rank order or the opposite order.
struct Grouping {
    std::vector<int> of;  // group of a process
    bool down = false;
    std::vector<int> members(int g) const
    {
        std::vector<int> m;
        for (size_t i = 0; i < of.size(); i++)
            if (of[i] == g) m.push_back(int(i));
        if (down) std::reverse(m.begin(), m.end());
        return m;
    }
    std::string str() const
    {
        std::string s;
        for (int g : of) s += S(g) + " ";
        return s + (down ? "(down)" : "");
    }
};
static MPI_Comm split(const Grouping& g, int rank, int ng)
{
    MPI_Comm n;
    int o = g.of[size_t(rank)];
    MPI_Comm_split(MPI_COMM_WORLD, o < ng ? o : MPI_UNDEFINED, g.down ? -rank : rank, &n);
    return n;
}
// --------------------------------------------------------- values of a group
static const std::vector<size_t> uv{0, 1, 7, size_t(1) << 32, (size_t(1) << 63) + 5, ~size_t(0)};
SCENARIO(values)
{
    int np = c.range(1, 4, "np"), ng = c.range(1, 2, "groups");
    Grouping g;
    g.down = c.pick(2, "down");
    for (int i = 0; i < np; i++) g.of.push_back(c.pick(ng + 1, "group"));
    std::vector<size_t> val;
    int nv = np <= 2 ? 6 : np == 3 || c.thorough() ? 4 : 3;
    for (int i = 0; i < np; i++) val.push_back(uv[size_t(c.pick(nv, "value") + (nv < 6 ? 1 : 0))]);
    if (!c.go()) return;
    std::vector<std::string> err(static_cast<size_t>(np));
    mc::Config cfg;
    cfg.nranks = np;
    mc::run_case(c, cfg, [&](int rank) {
        MPI_Comm cm = split(g, rank, ng);
        if (cm == MPI_COMM_NULL) return;
        auto m = g.members(g.of[size_t(rank)]);
        size_t me = size_t(std::find(m.begin(), m.end(), rank) - m.begin());
        auto& e   = err[size_t(rank)];
        auto is = [&](const char* w, size_t got, size_t want) {
            if (got != want) e += std::string(w) + " is " + S(got) + " instead of " + S(want) + "; ";
        };
        auto piol = ExSeis::New(PIOL_VERBOSITY_NONE, cm);
        size_t v = val[size_t(rank)], sum = 0, mx = 0, mn = ~size_t(0), off = 0;
        for (size_t i = 0; i < m.size(); i++) {
            size_t x = val[size_t(m[i])];
            if (i < me) off += x;
            sum += x;
            mx = std::max(mx, x);
            mn = std::min(mn, x);
        }
        is("the process number", piol->getRank(), me);
        is("the number of processes", piol->getNumRank(), m.size());
        is("the communicator's process number", piol->comm->getRank(), me);
        is("the communicator's number of processes", piol->comm->getNumRank(), m.size());
        is("the sum", piol->comm->sum(v), sum);
        is("the maximum", piol->comm->max(v), mx);
        is("the minimum", piol->comm->min(v), mn);
        is("the maximum of the instance", piol->max(v), mx);
        is("the offset", piol->comm->offset(v), off);
        piol->barrier();
        piol->comm->barrier();
        auto gather = [&](const char* w, auto f, size_t len) {
            typedef decltype(f(size_t(0), size_t(0))) T;
            std::vector<T> in;
            for (size_t k = 0; k < len; k++) in.push_back(f(v, k));
            auto out = piol->comm->gather(in);
            if (out.size() != len * m.size()) return is(w, out.size(), len * m.size());
            for (size_t i = 0; i < m.size(); i++)
                for (size_t k = 0; k < len; k++)
                    if (out[i * len + k] != f(val[size_t(m[i])], k)) e += std::string(w) + " has a wrong element " + S(i * len + k) + "; ";
        };
        for (size_t len = 0; len < 4; len++) {
            gather("gather of sizes", [](size_t x, size_t k) { return x - k; }, len);
            gather("gather of integers", [](size_t x, size_t k) { return Integer(x) + Integer(k) * 3; }, len);
            gather("gather of doubles", [](size_t x, size_t k) { return double(x) * 1.0000001 - double(k); }, len);
            gather("gather of floats", [](size_t x, size_t k) { return float(x) * 0.3f - float(k); }, len);
        }
        auto one = piol->comm->gather(v);
        is("length of the gathered value", one.size(), m.size());
        for (size_t i = 0; i < std::min(one.size(), m.size()); i++) is("a gathered value", one[i], val[size_t(m[i])]);
    });
    uint64_t h = size_t(np * 4 + ng);
    for (int i = 0; i < np; i++) h = mc::mix(mc::mix(h, size_t(g.of[size_t(i)] * 2 + g.down)), val[size_t(i)]);
    c.state(h);
    for (int i = 0; i < np; i++)
        if (!err[size_t(i)].empty()) return c.fail("value", "groups " + g.str() + ", process " + S(i) + ": " + err[size_t(i)]);
}
// ------------------------------------------------------------ work of groups
struct Job {
    int kind;  // 0..6 operation on shares, 7.. set processing
    int files; // of the set processing
};
static const std::vector<std::vector<int>> prog{{}, {0}, {1}, {3}, {4}, {5}, {7}, {8}, {9}, {0, 3}, {6, 1}};
static std::string jobname(const Job& j)
{
    if (j.kind < 7) return sopn[j.kind];
    std::string s;
    for (int o : prog[size_t(j.kind - 7)]) s += std::string(fop[o]) + ", ";
    return s + "output";
}
static const int njobs = 18;
static mc::FS job_in(const Job& j, const std::string& pre, int seed, size_t nt)
{
    mc::FS in, out;
    if (j.kind < 7) input(in, nt, 2, seed);
    else in = flow_in(j.files, 0);
    for (auto& f : in) out[pre + f.first] = f.second;
    mc::fs().clear();
    return out;
}
static std::vector<size_t> shares_of(size_t np, size_t nt, int form)
{
    std::vector<size_t> s(np, 0);
    if (form == 0)
        for (size_t i = 0; i < nt; i++) s[i % np]++;
    else s[form == 1 ? np - 1 : 0] = nt;
    return s;
}
static void work(const Job& j, const std::vector<size_t>& sh, int me, Vals& v, const std::string& pre, MPI_Comm cm)
{
    if (j.kind < 7) share_body(j.kind, sh, me, v, pre, cm);
    else flow_body(prog[size_t(j.kind - 7)], me, v, pre, cm);
}
// a group of np processes alone
struct Res {
    mc::FS fs;
    Vals v;
};
static Res alone(mc::Case& c, const Job& j, const std::vector<size_t>& sh, const std::string& pre, const mc::FS& in)
{
    Res r;
    r.v.resize(sh.size());
    mc::Config cfg;
    cfg.nranks = int(sh.size());
    mc::fs()   = in;
    mc::run_case(c, cfg, [&](int rank) { work(j, sh, rank, r.v, pre, MPI_COMM_WORLD); });
    r.fs = mc::fs();
    return r;
}
static void drop_temp(mc::FS& fs)
{
    for (auto it = fs.begin(); it != fs.end();)
        if (it->first.find("temp") != std::string::npos) it = fs.erase(it);
        else ++it;
}
static void together(mc::Case& c, const Grouping& g, const std::vector<Job>& jobs, int form, int bound)
{
    int np = int(g.of.size()), ng = int(jobs.size());
    std::vector<Res> ref;
    std::vector<std::vector<size_t>> sh;
    mc::FS in, want;
    exseisdat_model_check_memlim = size_t(1) << 30;
    for (int k = 0; k < ng; k++) {
        auto m = g.members(k);
        size_t nt = m.empty() ? 0 : 3 + size_t(k);
        std::string pre = "g" + S(k) + "_";
        sh.push_back(shares_of(std::max<size_t>(m.size(), 1), nt, form));
        ref.emplace_back();
        if (m.empty()) continue;
        mc::FS gi = job_in(jobs[size_t(k)], pre, k, nt);
        ref.back() = alone(c, jobs[size_t(k)], sh.back(), pre, gi);
        if (c.failed()) return;
        for (auto& f : gi) in[f.first] = f.second;
        for (auto& f : ref.back().fs) want[f.first] = f.second;
    }
    drop_temp(want);
    std::vector<Vals> v;
    auto setup = [&] {
        mc::fs() = in;
        v.clear();
        for (auto& s : sh) v.emplace_back(s.size());
    };
    auto body = [&](int rank) {
        MPI_Comm cm = split(g, rank, ng);
        if (cm == MPI_COMM_NULL) return;
        int k  = g.of[size_t(rank)];
        auto m = g.members(k);
        work(jobs[size_t(k)], sh[size_t(k)], int(std::find(m.begin(), m.end(), rank) - m.begin()), v[size_t(k)], "g" + S(k) + "_", cm);
    };
    auto check = [&]() -> std::string {
        mc::FS got = mc::fs();
        drop_temp(got);
        for (int k = 0; k < ng; k++)
            for (size_t i = 0; i < ref[size_t(k)].v.size(); i++)
                if (v[size_t(k)][i] != ref[size_t(k)].v[i]) return "process " + S(i) + " of group " + S(k) + " has other values than alone";
        for (auto& f : want) {
            if (!got.count(f.first)) return "no file " + f.first;
            if (!(got[f.first] == f.second)) return "file " + f.first + " differs";
        }
        for (auto& f : got)
            if (!want.count(f.first)) return "an additional file " + f.first;
        return "";
    };
    std::string what = "groups " + g.str();
    for (auto& j : jobs) what += ", " + jobname(j);
    mc::Config cfg;
    cfg.nranks = np;
    if (bound == 0) {
        setup();
        mc::run_case(c, cfg, body);
        if (c.failed()) return;
        std::string e = check();
        if (!e.empty()) c.fail("work", what + ": " + e);
    }
    else {
        cfg.explore_sched    = true;
        cfg.bound[mc::SCHED] = bound;
        mc::explore_case(c, cfg, setup, body, [&](const mc::Result& r) {
            if (r.status != mc::Status::Done) return c.fail("run", what + ": " + mc::status_name(r.status) + ": " + r.msg);
            std::string e = check();
            if (!e.empty()) c.fail("schedule", what + ": " + e);
        });
    }
    uint64_t h = size_t(form * 2 + g.down);
    for (int o : g.of) h = mc::mix(h, size_t(o));
    for (auto& j : jobs) h = mc::mix(h, size_t(j.kind * 8 + j.files));
    c.state(h);
}
// One group works, the other processes do nothing
SCENARIO(one)
{
    int np = c.range(2, 4, "np"), form = c.pick(3, "shares");
    Grouping g;
    g.down = c.pick(2, "down");
    for (int i = 0; i < np; i++) g.of.push_back(c.pick(2, "group"));
    Job j{c.pick(njobs, "work"), c.pick(3, "files")};
    if (!c.go()) return;
    if (j.kind < 7 && j.files) return;
    if (j.kind >= 7 && form) return;
    if (g.members(0).empty()) return;
    together(c, g, {j}, form, 0);
}
// Two groups do the same or different work at the same time
SCENARIO(two)
{
    int np = c.range(2, c.thorough() ? 5 : 4, "np");
    Grouping g;
    g.down = c.pick(2, "down");
    for (int i = 0; i < np; i++) g.of.push_back(c.pick(2, "group"));
    Job a{c.pick(njobs, "work"), 1}, b{c.pick(njobs, "other work"), 2};
    if (!c.go()) return;
    if (g.members(0).empty() || g.members(1).empty()) return;
    together(c, g, {a, b}, 0, 0);
}
SCENARIO(schedules)
{
    static const std::vector<Grouping> gs{{{0, 1, 0, 1}, false}, {{0, 0, 1, 1}, true}, {{0, 1, 1, 0}, false}};
    Grouping g = gs[size_t(c.pick(3, "groups"))];
    Job a{c.pick(7, "work"), 0}, b{c.pick(7, "other work"), 0};
    int form = c.pick(2, "shares");
    if (!c.go()) return;
    together(c, g, {a, b}, form, c.thorough() ? 2 : 1);
}
// Up to eight processes in up to four groups, each with work of its own
SCENARIO(many)
{
    static const std::vector<std::vector<int>> gs{{0, 0, 0, 0, 1, 1, 1, 1}, {0, 1, 0, 1, 0, 1, 0, 1}, {0, 1, 1, 1, 1, 1, 1}, {2, 1, 0, 0, 1, 2, 2}, {0, 1, 2, 3, 3, 2, 1, 0}, {1, 3, 2, 0, 3, 3}};
    Grouping g;
    g.of   = gs[size_t(c.pick(int(gs.size()), "groups"))];
    g.down = c.pick(2, "down");
    int a = c.pick(njobs, "work"), st = c.pick(c.thorough() ? njobs : 6, "other work"), form = c.pick(3, "shares");
    if (!c.go()) return;
    if (a >= 7 && form) return;
    std::vector<Job> jobs;
    int ng = *std::max_element(g.of.begin(), g.of.end()) + 1;
    for (int k = 0; k < ng; k++) jobs.push_back({(a + k * st) % njobs, k % 3});
    together(c, g, jobs, form, 0);
}
