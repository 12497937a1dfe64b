// C30: traces of a regular grid of inlines and crosslines, for every small
// grid, either order of the lines in the file, every request list and process
// count.
#include "common.hh"
#include "ExSeisDat/PIOL/ReadSEGYModel.hh"
#include "ExSeisDat/PIOL/makeFile.hh"
#include "ExSeisDat/utils/mpi/MPI_Distributed_vector.hh"
using namespace cm;
using exseis::PIOL::Gather_info;
struct Grid {
    int ni, nx;      // number of inlines and crosslines
    int i0, di, x0, dx;
    bool ilfast;
    int ns = 2, fmt = 5;
    size_t nt() const { return size_t(ni * nx); }
    int il(size_t t) const { return i0 + di * int(ilfast ? t % size_t(ni) : t / size_t(nx)); }
    int xl(size_t t) const { return x0 + dx * int(ilfast ? t / size_t(ni) : t % size_t(nx)); }
    std::string str() const
    {
        return "grid of " + S(ni) + " inlines from " + S(i0) + " by " + S(di) + " and " + S(nx) + " crosslines from " + S(x0) + " by " + S(dx) + (ilfast ? ", inlines fastest" : ", crosslines fastest");
    }
};
// position of a line in 0..n-1 or -1: a line between two lines of the model
// uses the one before it
static int pos(int v, int s, int d, int n)
{
    if (n == 1) return v >= s && v < s + 1 ? 0 : -1;
    for (int k = 0; k < n; k++) {
        int a = s + d * k, b = a + d;
        if (d > 0 ? (v >= a && v < b) : (v <= a && v > b)) return k;
    }
    return -1;
}
static long want_trace(const Grid& g, int il, int xl)
{
    int a = pos(il, g.i0, g.di, g.ni), b = pos(xl, g.x0, g.dx, g.nx);
    if (a < 0 || b < 0) return -1;
    return g.ilfast ? long(b) * g.ni + a : long(a) * g.nx + b;
}
static uint32_t smp(const Grid& g, size_t t, size_t k) { return g.fmt == 5 ? bits(float(t * 8 + k) + 1.5f) : 0x42640000u + uint32_t(t * 16 + k); }
static float wantv(const Grid& g, size_t t, size_t k) { return g.fmt == 5 ? fromb(smp(g, t, k)) : float(0x640000 + t * 16 + k) / 65536.f; }
static void make(const Grid& g)
{
    put_file(mc::fs()["m.segy"], ho_bytes("C model", g.ns, 1000, g.fmt, true), g.nt(), size_t(g.ns), [&](size_t t, uc* h) {
        put32(h + 188, uint32_t(g.il(t)));
        put32(h + 192, uint32_t(g.xl(t)));
    }, [&](size_t t, size_t k) { return smp(g, t, k); });
}
typedef std::pair<int, int> Ln;
// one request: all gathers `ln`; process r asks for the entries idx[r] (list),
// or the range starting at idx[r][0] when contiguous
static void judge(mc::Case& c, const Grid& g, const std::vector<Ln>& ln, const std::vector<std::vector<size_t>>& idx, bool contig)
{
    make(g);
    mc::FS before = mc::fs();
    mc::Config cfg;
    int nr     = int(idx.size());
    cfg.nranks = nr;
    std::vector<std::vector<float>> got(idx.size());
    std::vector<char> err(idx.size(), 0);
    std::string bad;
    mc::Result r = mc::run_case(c, cfg, [&](int rank) {
        auto piol = ExSeis::New();
        exseis::utils::MPI_Distributed_vector<Gather_info> gv(ln.size(), MPI_COMM_WORLD);
        if (rank == 0)
            for (size_t i = 0; i < ln.size(); i++) gv.set(i, {i + 1, ln[i].first, ln[i].second});
        piol->comm->barrier();
        std::unique_ptr<ReadSEGYModel> m = makeFile<ReadSEGYModel>(piol, "m.segy");
        auto& q = idx[size_t(rank)];
        got[size_t(rank)] = contig ? m->readModel(q.empty() ? size_t(0) : q[0], q.size(), gv) : m->readModel(q.size(), q.data(), gv);
        err[size_t(rank)] = char(piol->log->isErr());
        if (m->readNt() != g.nt() || m->readNs() != size_t(g.ns)) bad = "the model has " + S(m->readNt()) + " traces";
        piol->comm->barrier();
    });
    uint64_t h = mc::mix(mc::mix(size_t(g.ni * 100 + g.nx), size_t(g.di * 100 + g.dx)), mc::mix(size_t(g.i0 * 1000 + g.x0), size_t(g.ilfast)));
    for (auto& q : idx)
        for (auto i : q) h = mc::mix(h, i);
    for (auto& l : ln) h = mc::mix(h, size_t(l.first * 1009 + l.second));
    c.state(h);
    if (r.status != mc::Status::Done || c.failed()) return;
    auto where = [&]() {
        std::string s = g.str() + ", " + S(nr) + " processes";
        return s;
    };
    if (!bad.empty()) return c.fail("size", where() + ": " + bad);
    if (mc::fs() != before) return c.fail("changed", where() + ": the model file is changed");
    if (!r.open_files.empty()) return c.fail("open", where() + ": " + r.open_files[0] + " is left open");
    for (size_t p = 0; p < idx.size(); p++) {
        bool out = false;
        if (got[p].size() != idx[p].size() * size_t(g.ns)) return c.fail("count", where() + ": process " + S(p) + " gets " + S(got[p].size()) + " values for " + S(idx[p].size()) + " gathers");
        for (size_t i = 0; i < idx[p].size(); i++) {
            auto& l = ln[idx[p][i]];
            long t  = want_trace(g, l.first, l.second);
            if (t < 0) out = true;
            for (size_t k = 0; k < size_t(g.ns); k++) {
                float w = t < 0 ? 0.f : wantv(g, size_t(t), k), v = got[p][i * size_t(g.ns) + k];
                if (bits(w) != bits(v))
                    return c.fail(t < 0 ? "outside" : "trace", where() + ": inline " + S(l.first) + " crossline " + S(l.second) + (t < 0 ? " outside of the model" : "") + ": sample " + S(k) + " is " + S(double(v)) + " instead of " + S(double(w)) + (t < 0 ? "" : " of trace " + S(size_t(t))));
                c.outcome(mc::mix(uint64_t(t + 1), k));
            }
        }
        if (out != bool(err[p])) return c.fail("error", where() + ": " + (out ? "no error is reported for lines outside of the model" : "an error is reported"));
    }
}
static const int incs[] = {1, 2, 3, 10, -1, -2, -5};
// every line in and around every grid, each as a request of its own position
SCENARIO(grids)
{
    int ni = c.range(1, c.thorough() ? 6 : 5, "inlines"), nx = c.range(1, c.thorough() ? 6 : 5, "crosslines");
    int fast = c.pick(2, "fast");
    int di = c.of<int>(std::vector<int>(incs, incs + 7), "il increment"), dx = c.of<int>(std::vector<int>(incs, incs + 7), "xl increment");
    if (!c.go()) return;
    for (int i0 : {0, 7, -3}) {
        Grid g{ni, nx, i0, di, i0 == 7 ? -11 : 4, dx, bool(fast)};
        std::vector<Ln> ln;
        // all lines of the grid, backwards, and the ones between them
        for (int a = ni * std::abs(di) - 1; a >= 0; a--)
            for (int b = 0; b < nx * std::abs(dx); b++) {
                if (std::abs(di) > 3 && a % 3 == 2) continue;
                if (std::abs(dx) > 3 && b % 4 == 2) continue;
                int il = g.i0 + (di > 0 ? a : -a), xl = g.x0 + (dx > 0 ? b : -b);
                if (want_trace(g, il, xl) < 0) continue;
                ln.push_back({il, xl});
            }
        std::vector<std::vector<size_t>> idx(1);
        for (size_t i = 0; i < ln.size(); i++) idx[0].push_back(i);
        judge(c, g, ln, idx, false);
        if (c.failed()) return;
        // divided in turns (as for gathers)
        for (size_t nr : {2, 3}) {
            idx.assign(nr, {});
            for (size_t i = 0; i < ln.size(); i++) idx[i % nr].push_back(i);
            judge(c, g, ln, idx, false);
            if (c.failed()) return;
        }
    }
}
// lines outside of the model: one position at a time
SCENARIO(outside)
{
    int ni = c.range(1, 3, "inlines"), nx = c.range(1, 3, "crosslines"), fast = c.pick(2, "fast");
    int di = c.of<int>({1, 2, 5, -1, -3}, "il increment"), dx = c.of<int>({1, 2, 5, -1, -3}, "xl increment");
    int nr = c.range(1, 2, "ranks");
    if (!c.go()) return;
    Grid g{ni, nx, 10, di, 20, dx, bool(fast)};
    // beyond the last line by 1, beyond the last increment, before the first
    auto cand = [](int s, int d, int n) {
        std::vector<int> v{s, s + d * (n - 1), s + d * n, s + d * n + 1, s + d * n - 1, s - 1, s + 1, s - d, s + d * 1000, s - d * 1000};
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
        return v;
    };
    for (int a : cand(10, di, ni))
        for (int b : cand(20, dx, nx)) {
            std::vector<Ln> ln{{10, 20}, {a, b}, {g.il(g.nt() - 1), g.xl(g.nt() - 1)}};
            std::vector<std::vector<size_t>> idx(static_cast<size_t>(nr));
            idx[size_t(nr - 1)] = {0, 1, 2};
            if (nr > 1) idx[0] = {2};
            judge(c, g, ln, idx, true);
            if (c.failed()) return;
        }
}
// every list of requests up to a length with repeats, lists and ranges, empty
// processes
SCENARIO(requests)
{
    int nr = c.range(1, 3, "ranks"), fast = c.pick(2, "fast");
    int l0 = c.range(0, 3, "length 0"), l1 = nr > 1 ? c.range(0, 2, "length 1") : (c.pick(1, "-"), 0), l2 = nr > 2 ? c.range(0, 2, "length 2") : (c.pick(1, "-"), 0);
    int contig = c.pick(2, "range"), first = c.pick(6, "first");
    if (!c.go()) return;
    Grid g{3, 2, 5, 2, -4, -1, bool(fast)};
    std::vector<Ln> ln;
    for (size_t t : {3u, 0u, 5u, 1u, 4u, 2u}) ln.push_back({g.il(t), g.xl(t)});
    int tot = l0 + l1 + l2;
    std::vector<std::vector<size_t>> idx(static_cast<size_t>(nr));
    size_t len[3] = {size_t(l0), size_t(l1), size_t(l2)};
    if (contig) {
        for (int s1 = 0; s1 + l1 <= 6; s1 += (l1 ? 1 : 6))
            for (int s2 = 0; s2 + l2 <= 6; s2 += (l2 ? 1 : 6)) {
                size_t st[3] = {size_t(std::min(first, 6 - l0)), size_t(s1), size_t(s2)};
                for (size_t p = 0; p < idx.size(); p++) {
                    idx[p].resize(len[p]);
                    std::iota(idx[p].begin(), idx[p].end(), st[p]);
                }
                judge(c, g, ln, idx, true);
                if (c.failed()) return;
            }
        return;
    }
    if (tot == 0) return judge(c, g, ln, idx, false);
    size_t n = 1;
    for (int i = 1; i < tot; i++) n *= 6;
    size_t step = c.thorough() || n <= 216 ? 1 : n / 216 + (n / 216) % 2 + 1;
    for (size_t k = 0; k < n; k += step) {
        size_t x = k * 6 + size_t(first);
        for (size_t p = 0; p < idx.size(); p++) {
            idx[p].clear();
            for (size_t i = 0; i < len[p]; i++, x /= 6) idx[p].push_back(x % 6);
        }
        judge(c, g, ln, idx, false);
        if (c.failed()) return;
    }
}
// larger grids, IBM numbers, long traces, line numbers at the limits
SCENARIO(large)
{
    int sh = c.pick(4, "shape"), fast = c.pick(2, "fast"), fmt = c.of<int>({5, 1}, "format"), ns = c.of<int>({1, 3, 300}, "samples"), nr = c.of<int>({1, 2, 3, 4, 8}, "ranks");
    size_t nq = c.of<size_t>({60, 257}, "requests");
    int st = c.pick(3, "start");
    if (!c.go()) return;
    const int sz[4][2] = {{37, 41}, {1, 300}, {300, 1}, {100, 3}};
    Grid g{sz[sh][0], sz[sh][1], 0, 4, 0, -7, bool(fast), ns, fmt};
    if (st == 1) g.i0 = 2147483647 - 4 * g.ni, g.x0 = -2147483647 + 7 * g.nx;
    if (st == 2) g.i0 = -2147483647, g.x0 = 2147483647;
    std::vector<Ln> ln;
    std::vector<std::vector<size_t>> idx(static_cast<size_t>(nr));
    for (size_t i = 0; i < nq; i++) {
        size_t t = (i * 7919 + (i % 2) * 131) % g.nt();
        ln.push_back({g.il(t), g.xl(t)});
        idx[i % size_t(nr)].push_back(i);
    }
    judge(c, g, ln, idx, false);
}
