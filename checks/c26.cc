// C26: the 4D binning utility, run on every process of the model, against a
// brute-force pairing.
#include "common.hh"
using namespace cm;
int util_main_fourdbin(int, char**);
extern size_t exseisdat_model_check_memlim;
static int g_ret = 0;
template<class T>
static T ofl(mc::Case& c, std::initializer_list<T> v, const char* l)
{
    return pickv(c, std::vector<T>(v), l);
}
struct Pt {
    float xs, ys, xr, yr;
    int il, xl;
};
struct Survey {
    std::vector<Pt> p;
    int ns, inc, id;
};
static void hdr(const Survey& s, size_t i, uc* h)
{
    for (size_t b = 0; b < 240; b++) h[b] = uc(b * 7 + i * 13 + size_t(s.id) * 29 + 1);
    put16(h + 68, 1);
    put16(h + 70, 1);
    put32(h + 72, uint32_t(int(s.p[i].xs)));
    put32(h + 76, uint32_t(int(s.p[i].ys)));
    put32(h + 80, uint32_t(int(s.p[i].xr)));
    put32(h + 84, uint32_t(int(s.p[i].yr)));
    put32(h + 188, uint32_t(s.p[i].il));
    put32(h + 192, uint32_t(s.p[i].xl));
    put16(h + 114, s.ns);
    put16(h + 116, s.inc);
}
static uint32_t smp(const Survey& s, size_t i, size_t k) { return bits(float(s.id * 100000 + int(i) * 100 + int(k)) + 0.5f); }
static void put(const std::string& n, const Survey& s)
{
    put_file(mc::fs()[n], ho_bytes("C survey", s.ns, s.inc, 5, true), s.p.size(), size_t(s.ns), [&](size_t i, uc* h) { hdr(s, i, h); }, [&](size_t i, size_t k) { return smp(s, i, k); });
}
static double dist(const Pt& a, const Pt& b)
{
    auto hy  = [](double x, double y) { return std::sqrt(x * x + y * y); };
    double f = hy(double(a.xs) - b.xs, double(a.ys) - b.ys) + hy(double(a.xr) - b.xr, double(a.yr) - b.yr);
    double r = hy(double(a.xs) - b.xr, double(a.ys) - b.yr) + hy(double(a.xr) - b.xs, double(a.yr) - b.ys);
    return std::min(f, r);
}
// the two source and receiver offsets of the nearer direction, exact where the
// directions are clearly apart: equal values are equal distances however the
// distance is computed
static bool legs(const Pt& a, const Pt& b, std::vector<double>& v)
{
    auto one = [](double x1, double y1, double x2, double y2, std::vector<double>& w) {
        double x = std::fabs(x1 - x2), y = std::fabs(y1 - y2);
        w.push_back(std::min(x, y));
        w.push_back(std::max(x, y));
        return std::sqrt(x * x + y * y);
    };
    std::vector<double> f, r;
    double df = one(a.xs, a.ys, b.xs, b.ys, f) + one(a.xr, a.yr, b.xr, b.yr, f);
    double dr = one(a.xs, a.ys, b.xr, b.yr, r) + one(a.xr, a.yr, b.xs, b.ys, r);
    if (std::fabs(df - dr) <= 1e-6 * (1 + df)) return false;
    v = df < dr ? f : r;
    if (v[0] > v[2] || (v[0] == v[2] && v[1] > v[3])) std::swap_ranges(v.begin(), v.begin() + 2, v.begin() + 2);
    return true;
}
struct Job {
    Survey a, b;
    double dsrmax;
    bool ix, print;
};
static std::string check_file(const std::string& n, const Survey& s, std::vector<size_t>& which, std::vector<double>& dd, bool print)
{
    if (!mc::fs().count(n)) return "output " + n + " is missing";
    auto& f = mc::fs()[n];
    if (f.size < 3600) return "output " + n + " has " + S(f.size) + " bytes";
    std::vector<uc> h(3600);
    f.read(0, h.data(), 3600);
    if (get16(&h[3216]) != s.inc || get16(&h[3220]) != s.ns) return "output " + n + " has " + S(int(get16(&h[3220]))) + " samples of " + S(int(get16(&h[3216]))) + " us, the input " + S(s.ns) + " of " + S(s.inc);
    size_t st = 240 + 4 * size_t(s.ns);
    if ((f.size - 3600) % st) return "output " + n + " is not a whole number of traces";
    for (uint64_t p = 3600; p < f.size; p += st) {
        std::vector<uc> t(st);
        f.read(p, t.data(), st);
        size_t i = SIZE_MAX;
        for (size_t q = 0; q < s.p.size() && i == SIZE_MAX; q++)
            if (s.ns == 0 || getu32(&t[240]) == smp(s, q, 0)) i = q;
        if (i == SIZE_MAX) return "trace " + S(which.size()) + " of " + n + " holds samples of no input trace";
        for (size_t k = 0; k < size_t(s.ns); k++)
            if (getu32(&t[240 + 4 * k]) != smp(s, i, k)) return "trace " + S(which.size()) + " of " + n + " holds samples of several input traces";
        std::vector<uc> w(240);
        hdr(s, i, w.data());
        double d = 0;
        if (print) {
            int16_t sc = get16(&t[214]);
            double v   = get32(&t[224]);
            if (sc == 0) sc = 1;
            d = sc > 0 ? v * sc : v / double(-int(sc));
            for (size_t q : {214, 215, 224, 225, 226, 227}) w[q] = t[q];
        }
        for (size_t q = 0; q < 240; q++)
            if (w[q] != t[q]) return "header byte " + S(q) + " of trace " + S(which.size()) + " of " + n + " is " + S(int(t[q])) + ", trace " + S(i) + " of the input has " + S(int(w[q]));
        which.push_back(i);
        dd.push_back(d);
    }
    return "";
}
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-4 * (1 + std::max(std::fabs(a), std::fabs(b))); }
static std::string verify(const Job& j)
{
    if (g_ret) return "the utility returns " + S(g_ret);
    std::vector<size_t> o1, o2;
    std::vector<double> d1, d2;
    std::string e = check_file("o1", j.a, o1, d1, j.print);
    if (e.empty()) e = check_file("o2", j.b, o2, d2, j.print);
    if (!e.empty()) return e;
    // expected
    std::vector<size_t> ord(j.a.p.size());
    std::iota(ord.begin(), ord.end(), size_t(0));
    std::stable_sort(ord.begin(), ord.end(), [&](size_t x, size_t y) { return j.a.p[x].xs < j.a.p[y].xs; });
    size_t k = 0;
    for (size_t i : ord) {
        double best = 1e300;
        for (auto& q : j.b.p)
            if (!j.ix || (q.il == j.a.p[i].il && q.xl == j.a.p[i].xl)) best = std::min(best, dist(j.a.p[i], q));
        bool has = k < o1.size() && o1[k] == i;
        if (best > j.dsrmax && !near(best, j.dsrmax)) {
            if (has) return "trace " + S(i) + " is written, its closest partner is " + S(best) + " away, the limit is " + S(j.dsrmax);
            continue;
        }
        if (!has) {
            if (best != j.dsrmax && near(best, j.dsrmax)) continue;
            return "trace " + S(i) + " with a partner " + S(best) + " away is not in place " + S(k) + " of the output, limit " + S(j.dsrmax);
        }
        if (k >= o2.size()) return "the second output has only " + S(o2.size()) + " traces";
        const Pt& q = j.b.p[o2[k]];
        if (j.ix && !(q.il == j.a.p[i].il && q.xl == j.a.p[i].xl)) return "trace " + S(i) + " is paired with trace " + S(o2[k]) + " on another line";
        double d = dist(j.a.p[i], q);
        if (!near(d, best)) return "trace " + S(i) + " is paired with trace " + S(o2[k]) + " at distance " + S(d) + ", the closest is " + S(best) + " away";
        std::vector<double> mine, other;
        if (legs(j.a.p[i], q, mine))
            for (size_t t = 0; t < o2[k]; t++) {
                const Pt& x = j.b.p[t];
                if ((!j.ix || (x.il == q.il && x.xl == q.xl)) && legs(j.a.p[i], x, other) && mine == other) return "trace " + S(i) + " is paired with trace " + S(o2[k]) + ", trace " + S(t) + " is just as close and comes first";
            }
        if (j.print && (std::fabs(d1[k] - d) > 1e-3 * (1 + d) || std::fabs(d2[k] - d) > 1e-3 * (1 + d))) return "the distances in the headers of pair " + S(k) + " are " + S(d1[k]) + " and " + S(d2[k]) + ", expected " + S(d);
        k++;
    }
    if (k != o1.size() || k != o2.size()) return "the outputs have " + S(o1.size()) + " and " + S(o2.size()) + " traces, expected " + S(k);
    return "";
}
static void body(const Job& j)
{
    char t[64];
    snprintf(t, sizeof t, "%.9g", j.dsrmax);
    std::vector<std::string> a{"fourdbin", "-a", "i1", "-b", "i2", "-c", "o1", "-d", "o2", "-t", t};
    if (j.ix) a.push_back("-x");
    if (!j.print) a.push_back("-p");
    std::vector<char*> v;
    for (auto& s : a) v.push_back(const_cast<char*>(s.c_str()));
    v.push_back(nullptr);
    int r = util_main_fourdbin(int(a.size()), v.data());
    if (r) g_ret = r;
}
static void setup(const Job& j)
{
    g_ret = 0;
    mc::fs().clear();
    put("i1", j.a);
    put("i2", j.b);
}
static uint64_t id_of(const Job& j, int np)
{
    uint64_t h = mc::mix(mc::mix(uint64_t(np), uint64_t(j.dsrmax * 16)), size_t(j.ix * 2 + j.print));
    for (auto* s : {&j.a, &j.b})
        for (auto& p : s->p) h = mc::mix(h, mc::mix(uint64_t(int64_t(p.xs * 131 + p.ys * 17)), uint64_t(int64_t(p.xr * 71 + p.yr * 31 + p.il * 7 + p.xl))));
    return h;
}
static void one(mc::Case& c, const Job& j, int np)
{
    c.state(id_of(j, np));
    setup(j);
    mc::Config cfg;
    cfg.nranks = np;
    auto r    = mc::run_case(c, cfg, [&](int) { body(j); });
    if (c.failed() || r.status != mc::Status::Done) return;
    std::string e = verify(j);
    if (!e.empty()) c.fail("pairing", e);
}
// geometries: forward, reversed boat, same source with other receiver, ...
static const std::vector<Pt> cat{{0, 0, 3, 4, 1, 1}, {3, 4, 0, 0, 1, 1}, {1, 0, 3, 4, 1, 2}, {10, 0, 10, 5, 2, 1}, {10, 5, 10, 0, 1, 1}, {-7, 0, 20, 0, 1, 1}};

SCENARIO(bin)
{
    Job j;
    int np   = c.range(1, 3, "np");
    size_t n1 = size_t(c.range(0, c.thorough() ? 3 : 2, "n1")), n2 = size_t(c.range(0, c.thorough() ? 3 : 2, "n2"));
    j.dsrmax = ofl(c, {0.0, 1.0, 9.0, 1000.0}, "limit");
    j.ix     = ofl(c, {0, 1}, "lines");
    j.print  = c.thorough() ? ofl(c, {1, 0}, "print") : j.ix;
    size_t K = n1 + n2 > 5 ? 4 : c.thorough() ? cat.size() : 5;
    for (size_t i = 0; i < n1; i++) j.a.p.push_back(cat[size_t(c.pick(int(K), "a"))]);
    for (size_t i = 0; i < n2; i++) j.b.p.push_back(cat[size_t(c.pick(int(K), "b"))]);
    j.a.ns = 3, j.a.inc = 2000, j.a.id = 1;
    j.b.ns = 2, j.b.inc = 4000, j.b.id = 2;
    if (!c.go()) return;
    one(c, j, np);
}
static Survey gen_lines(size_t n, int id, int shape, int order)
{
    Survey s;
    s.ns = 2, s.inc = 1000, s.id = id;
    for (size_t q = 0; q < n; q++) {
        size_t i = order == 0 ? q : order == 1 ? n - 1 - q : (q * 29 + 7) % n;
        if (order == 2 && n % 29 == 0) i = q;
        float x = float(i) * 12, off = 100;
        Pt p;
        switch (shape) {
            case 0: p = {x, 0, x + off, 0, 0, 0}; break;
            case 1: p = id == 1 ? Pt{x, 0, x + off, 0, 0, 0} : Pt{x + off, 0, x, 0, 0, 0}; break;  // the other direction
            case 2: p = {float(i % 7) * 5, float(i / 7) * 5, 50, 50, 0, 0}; break;                  // many equal x
            case 3: p = id == 1 ? Pt{x, 3, x + off, 3, 0, 0} : Pt{x * 2 + 1, 7, x * 2 + off, 3, 0, 0}; break;
            default: p = {42, 42, float(int(i) * 9) - 100, float(id), 0, 0};  // one source
        }
        p.il = int(i % 3), p.xl = int(i % 2);
        s.p.push_back(p);
    }
    return s;
}
// many traces: every process searches several others, blocks of the alignment
SCENARIO(lines)
{
    Job j;
    int np    = c.range(1, 4, "np");
    size_t n1 = size_t(pickv(c, c.thorough() ? std::vector<int>{1, 5, 31, 33, 70} : std::vector<int>{1, 5, 33}, "n1")), n2 = size_t(pickv(c, c.thorough() ? std::vector<int>{1, 5, 31, 33, 70} : std::vector<int>{1, 6, 70}, "n2"));
    int shape = c.pick(5, "shape"), order = c.pick(3, "order");
    j.dsrmax  = ofl(c, {2.0, 30.0, 100000.0}, "limit");
    j.ix      = ofl(c, {0, 1}, "lines");
    j.print   = !j.ix;
    if (!c.go()) return;
    j.a = gen_lines(n1, 1, shape, order);
    j.b = gen_lines(n2, 2, shape, order);
    one(c, j, np);
}
// surveys of several hundred traces, up to eight processes
SCENARIO(large)
{
    Job j;
    int np    = c.of<int>({1, 2, 5, 8}, "np");
    size_t n1 = c.thorough() ? c.of<size_t>({65, 129, 257, 300, 513}, "n1") : c.of<size_t>({129, 300}, "n1"), n2 = c.thorough() ? c.of<size_t>({64, 127, 256, 257, 511}, "n2") : c.of<size_t>({64, 257}, "n2");
    int shape = c.pick(5, "shape"), order = c.pick(3, "order");
    j.dsrmax  = ofl(c, {2.0, 30.0, 100000.0}, "limit");
    j.ix      = shape % 2;
    j.print   = !j.ix;
    if (!c.go()) return;
    j.a = gen_lines(n1, 1, shape, order);
    j.b = gen_lines(n2, 2, shape, order);
    one(c, j, np);
}
// a partner at exactly the limit of any trace of long lists, on either side and
// for either direction of the boat
SCENARIO(limits)
{
    Job j;
    int np   = c.range(1, 2, "np");
    int n1   = pickv(c, c.thorough() ? std::vector<int>{1, 31, 32, 33, 34, 64, 65, 70, 97, 130} : std::vector<int>{1, 33, 64, 70}, "n1");
    int side = c.pick(2, "side"), rev = c.pick(2, "direction"), n2 = c.range(1, 3, "n2"), lim = c.of<int>({5, 12, 40}, "limit");
    j.ix = c.thorough() ? ofl(c, {0, 1}, "lines") : 0;
    if (!c.go()) return;
    j.print  = true;
    j.dsrmax = lim;
    j.a.ns = 1, j.a.inc = 2000, j.a.id = 1;
    j.b.ns = 1, j.b.inc = 4000, j.b.id = 2;
    for (int i = 0; i < n1; i++) j.a.p.push_back({float(i * 12), 0, float(i * 12 + 1000), float(i * 50), 1, 1});
    for (int at = 0; at < n1 && !c.failed(); at++) {
        j.b.p.clear();
        for (int k = 0; k < n2; k++) {
            int i  = (at + k * 17) % n1;
            auto p = j.a.p[size_t(i)];
            p.xs += float(side ? lim : -lim);
            if (rev) std::swap(p.xs, p.xr), std::swap(p.ys, p.yr);
            j.b.p.push_back(p);
        }
        one(c, j, np);
    }
}
// every schedule of the exchange up to the bound
SCENARIO(schedules)
{
    Job j;
    int np   = c.range(2, 3, "np");
    size_t n1 = size_t(c.range(1, np == 3 && !c.thorough() ? 2 : 3, "n1")), n2 = size_t(c.range(1, np == 3 && !c.thorough() ? 2 : 3, "n2"));
    int g    = c.pick(2, "geometry");
    j.dsrmax = ofl(c, {4.0, 1000.0}, "limit");
    j.ix = false, j.print = true;
    if (!c.go()) return;
    for (size_t i = 0; i < n1; i++) j.a.p.push_back(cat[(i * (g ? 1 : 2)) % cat.size()]);
    for (size_t i = 0; i < n2; i++) j.b.p.push_back(cat[(i * (g ? 3 : 1) + 1) % cat.size()]);
    j.a.ns = 1, j.a.inc = 2000, j.a.id = 1;
    j.b.ns = 1, j.b.inc = 4000, j.b.id = 2;
    c.state(id_of(j, np));
    mc::Config cfg;
    cfg.nranks            = np;
    cfg.explore_sched     = true;
    cfg.bound[mc::SCHED]  = c.thorough() ? 2 : 1;
    mc::explore_case(c, cfg, [&] { setup(j); }, [&](int) { body(j); }, [&](const mc::Result& r) {
        if (r.status != mc::Status::Done) {
            c.fail("run", std::string(mc::status_name(r.status)) + ": " + r.msg);
            return;
        }
        std::string e = verify(j);
        if (!e.empty()) c.fail("pairing", e);
    });
}
// Reading and writing in several blocks because of the memory limit: the
// number of blocks differs between the processes.
SCENARIO(blocks)
{
    Job j;
    int np    = c.range(1, 3, "np");
    size_t n1 = size_t(c.range(0, 8, "n1")), n2 = size_t(c.range(0, 8, "n2"));
    int step  = c.thorough() ? 45 : 180, lim = c.pick(3600 / step, "memory");
    j.dsrmax  = c.thorough() ? ofl(c, {0.0, 13.0, 100000.0}, "limit") : ofl(c, {13.0, 100000.0}, "limit");
    j.ix = c.thorough() ? ofl(c, {0, 1}, "lines") : 0;
    if (!c.go()) return;
    j.print = true;
    auto gen = [&](size_t n, int id) {
        Survey s;
        s.ns = 2, s.inc = 1000, s.id = id;
        for (size_t q = 0; q < n; q++) {
            float x = float((q * 5 + 3) % 8) * 12;
            s.p.push_back({x + float(id), 0, x + 30, float(q), int(q % 2), 1});
        }
        return s;
    };
    j.a = gen(n1, 1);
    j.b = gen(n2, 2);
    exseisdat_model_check_memlim = size_t(2100 + step * lim);
    one(c, j, np);
    exseisdat_model_check_memlim = size_t(1) << 30;
}
