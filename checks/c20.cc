// C20: automatic gain control: windows of AGC for every trace length and
// window size, and the gain functions for every short window over an alphabet.
#include "sets.hh"
#include "ExSeisDat/utils/signal_processing/AGC.h"
#include <algorithm>
extern size_t exseisdat_model_check_memlim;
using namespace cm;
namespace sp = exseis::utils;
// ------------------------------------------------------------- AGC windows
struct Call {
    const float* p;
    size_t n, c;
    float t;
    std::vector<float> v;
};
static std::vector<Call> calls;
static float rec(const float* p, size_t n, float t, size_t cen)
{
    calls.push_back({p, n, cen, t, std::vector<float>(p, p + n)});
    return 2.0f + float(calls.size());
}
// the window of sample j clipped to the trace
struct Win {
    size_t a, n, c;
};
static Win win_of(size_t size, size_t window, size_t j)
{
    size_t h = window / 2;  // half width of the window rounded up to odd
    size_t a = j >= h ? j - h : 0, b = std::min(size - 1, j + h);
    return {a, b - a + 1, j - a};
}
SCENARIO(windows)
{
    int size = c.range(2, c.thorough() ? 80 : 40, "samples"), mode = c.pick(2, "interface");
    if (!c.go()) return;
    for (int w = 0; (w | 1) < size && !c.failed(); w++) {
        std::vector<float> v(static_cast<size_t>(size)), orig;
        for (int i = 0; i < size; i++) v[size_t(i)] = float(i * 7 % 11) - 4.f;
        orig = v;
        calls.clear();
        // exact allocation: reads outside the trace are trapped
        float* d = new float[size_t(size)];
        std::copy(v.begin(), v.end(), d);
        if (mode) sp::exseis_AGC(size_t(size), d, rec, size_t(w), 3.5f);
        else sp::AGC(size_t(size), d, rec, size_t(w), 3.5f);
        v.assign(d, d + size);
        c.executed();
        c.state(mc::mix(size_t(size * 2 + mode), size_t(w)));
        std::string e;
        std::vector<int> used(static_cast<size_t>(size), -1);
        for (size_t k = 0; k < calls.size(); k++) {
            auto& x = calls[k];
            c.transitions(1);
            long a = x.p - d;
            if (a < 0 || size_t(a) + x.n > size_t(size)) e = "a window starts at " + S((long long)a) + " with " + S(x.n) + " samples";
            else {
                size_t j = size_t(a) + x.c;
                auto g   = win_of(size_t(size), size_t(w), j);
                if (j >= size_t(size) || g.a != size_t(a) || g.n != x.n || g.c != x.c) e = "sample " + S(j) + " uses the window of " + S(x.n) + " samples at " + S((long long)a) + " with centre " + S(x.c);
                else if (x.t != 3.5f) e = "target amplitude " + S(double(x.t));
                else if (!std::equal(x.v.begin(), x.v.end(), orig.begin() + a)) e = "the window of sample " + S(j) + " holds changed samples";
                else used[j] = int(k);
            }
            if (!e.empty()) break;
        }
        for (size_t j = 0; j < size_t(size) && e.empty(); j++) {
            if (used[j] < 0) e = "no gain for sample " + S(j);
            else if (v[j] != orig[j] * (3.0f + float(used[j]))) e = "sample " + S(j) + " is " + S(double(v[j])) + " instead of " + S(double(orig[j] * (3.0f + float(used[j]))));
        }
        c.outcome(mc::hash_bytes(v.data(), v.size() * 4));
        delete[] d;
        if (!e.empty()) c.fail("window", S(size) + " samples, window " + S(w) + ": " + e);
    }
}
// ------------------------------------------------------------- gain functions
enum { RMS, TRI, ABS, MED };
static const char* gname[] = {"rectangular rms", "triangular rms", "mean absolute", "median"};
static sp::Gain_function gf(int k, bool capi)
{
    static const sp::Gain_function f[2][4] = {{sp::rectangular_RMS_gain, sp::triangular_RMS_gain, sp::mean_abs_gain, sp::median_gain},
                                              {sp::exseis_rectangular_RMS_gain, sp::exseis_triangular_RMS_gain, sp::exseis_mean_abs_gain, sp::exseis_median_gain}};
    return f[capi][k];
}
// statistic; false if it is zero (no gain is defined)
static bool stat(int k, const std::vector<float>& v, size_t cen, double& out)
{
    size_t num = 0;
    double a = 0;
    for (size_t i = 0; i < v.size(); i++) {
        num += v[i] != 0;
        double s = v[i];
        if (k == TRI) {
            double hw = double(std::max(cen, v.size() - 1 - cen));
            double ds = i > cen ? double(i - cen) : double(cen - i);
            s *= hw == 0 ? 1. : 1. - ds / hw;
        }
        a += k == ABS ? std::fabs(s) : s * s;
    }
    num = std::max<size_t>(num, 1);
    if (k == RMS || k == TRI) a = std::sqrt(a / double(num));
    if (k == ABS) a /= double(num);
    if (k == MED) {
        auto s = v;
        std::sort(s.begin(), s.end());
        size_t n = s.size();
        a        = n % 2 ? s[n / 2] : (double(s[n / 2 - 1]) + s[n / 2]) / 2;
    }
    out = a;
    return std::fabs(a) > 0;
}
static bool near(double a, double b) { return a == b || std::fabs(a - b) <= 2e-6 * std::max(std::fabs(a), std::fabs(b)); }
static void one(mc::Case& c, int k, const std::vector<float>& v, size_t cen, float target, bool capi, bool upper = false)
{
    double st;
    if (!stat(k, v, cen, st)) return;
    float* d = new float[v.size()];
    std::copy(v.begin(), v.end(), d);
    double g = gf(k, capi)(d, v.size(), target, cen);
    bool same = std::equal(v.begin(), v.end(), d);
    delete[] d;
    c.executed();
    c.transitions(1);
    c.state(mc::hash_bytes(v.data(), v.size() * 4, mc::mix(size_t(k * 2 + capi), cen)));
    c.outcome(mc::hash_bytes(&g, 8));
    std::string where = std::string(gname[k]) + " of";
    for (float x : v) where += " " + S(double(x));
    if (k == TRI) where += " centre " + S(cen);
    if (!same) return c.fail("changed", where + ": the samples are changed");
    double w = double(target) / st;
    if (near(g, w)) return;
    std::string key = "gain";
    if (k == MED && v.size() % 2 == 0 && v.size() > 2) {
        // known deviation: the two samples above the middle
        auto s = v;
        std::sort(s.begin(), s.end());
        double up = (double(s[s.size() / 2]) + s[s.size() / 2 + 1]) / 2;
        if (up == 0 ? !std::isfinite(g) : near(g, double(target) / up)) key = "upper";
    }
    if (key == "upper" && upper) return;
    c.fail(key, where + ", target " + S(double(target)) + ": gain " + S(g) + " instead of " + S(w));
}
static const float al[3][5] = {{0.f, 1.f, -1.f, 2.5f, -3.f}, {1e15f, -1e15f, 0.f, 3e14f, 1.f}, {1e-12f, 3.f, -2e-12f, 0.f, -0.0f}};
static void sweep(mc::Case& c, int k, int n, int set, int b, bool upper = false)
{
    int nk = 1;
    for (int i = 0; i < n; i++) nk *= b;
    for (int code = 0; code < nk && !c.failed(); code++) {
        std::vector<float> v;
        int x = code;
        for (int i = 0; i < n; i++, x /= b) v.push_back(al[set][x % b]);
        for (int cen = 0; cen < (k == TRI ? n : 1); cen++) one(c, k, v, size_t(cen), code % 2 ? 1.f : 910.f, code % 3 == 0, upper);
    }
}
SCENARIO(gains)
{
    int k = c.pick(3, "statistic"), n = c.range(1, c.thorough() ? 7 : 6, "window"), set = c.pick(3, "values");
    if (!c.go()) return;
    sweep(c, k, n, set, n > 5 ? 4 : 5);
}
SCENARIO(median)
{
    int n = c.of<int>({1, 3, 5, 7}, "window"), set = c.pick(3, "values");
    if (!c.go()) return;
    sweep(c, MED, n, set, n > 5 ? 4 : 5);
}
// Known finding: the statistic of an even window is the mean of the samples n/2
// and n/2 + 1 (pinned by a test of the repository). One case shows it; the
// enumeration accepts this value or the median, nothing else.
SCENARIO(median_even)
{
    if (!c.go()) return;
    one(c, MED, {1, 2, 4, 8}, 0, 1.f, false);
}
SCENARIO(median_even_all)
{
    int n = c.of<int>({4, 6, 8}, "window"), set = c.pick(3, "values");
    if (!c.go()) return;
    sweep(c, MED, n, set, n > 6 ? 3 : n > 5 ? 4 : 5, true);
}
SCENARIO(median_two)
{
    if (!c.go()) return;
    one(c, MED, {1, 2}, 0, 1.f, false);
}
// long windows
SCENARIO(longer)
{
    int k = c.pick(4, "statistic"), n = c.range(8, c.thorough() ? 200 : 60, "window");
    if (!c.go()) return;
    if (k == MED) n |= 1;
    for (int p = 0; p < 6 && !c.failed(); p++) {
        std::vector<float> v;
        for (int i = 0; i < n; i++) v.push_back(p == 0 ? float(i) : p == 1 ? (i % 2 ? -1.f : 1.f) * float(i) : p == 2 ? float(i == n / 2) : p == 3 ? float(i * i % 17) - 8.f : p == 4 ? -1.f : i < n / 3 ? 0.f : 5.f - float(i % 4));
        for (size_t cen : {size_t(0), v.size() / 2, v.size() - 1, v.size() / 3}) one(c, k, v, cen, 2.f, p % 2 != 0);
    }
}
// -------------------------------------------------- both together, in a set
SCENARIO(set)
{
    int k = c.pick(4, "statistic"), w = c.of<int>({1, 2, 3, 4, 5, 7, 10}, "window"), nr = c.range(1, 3, "ranks"), blk = c.pick(3, "block"), nt = c.of<int>({0, 1, 2, 5}, "traces");
    if (!c.go()) return;
    int ns = 13;
    if (k == MED && (w | 1) == 3) return;  // window of two: see median_two
    mc::fs().clear();
    auto smp = [&](size_t i, size_t j) { return float((i * 31 + j * 17) % 23) * (j % 3 ? -0.5f : 1.f) + 0.25f; };
    put_file(mc::fs()["s.segy"], ho_bytes("C", ns, 1000, 5, true), size_t(nt), size_t(ns), [&](size_t i, uc* h) { put32(h, uint32_t(i)); put16(h + 114, ns); put16(h + 116, 1000); }, [&](size_t i, size_t j) { return bits(smp(i, j)); });
    mc::FS before = mc::fs();
    mc::Config cfg;
    cfg.nranks                   = nr;
    exseisdat_model_check_memlim = blk ? size_t(blk) * 1200 : size_t(1) << 30;
    mc::Result r                 = mc::run_case(c, cfg, [&](int) {
        auto piol = ExSeis::New();
        exseis::Flow::Set s(piol, "s*");
        s.AGC(gf(k, false), size_t(w), 4.f);
        s.output("out");
        piol->isErr();
    });
    c.state(mc::mix(size_t(k * 100 + w), size_t(nr * 100 + blk * 10 + nt)));
    if (r.status != mc::Status::Done || c.failed()) return;
    std::vector<OutFile> out;
    std::string e = outputs(before, out);
    if (!e.empty() || out.size() != 1) return c.fail("files", e + S(out.size()) + " outputs");
    if (out[0].trc.size() != size_t(nt)) return c.fail("count", S(out[0].trc.size()) + " traces instead of " + S(nt));
    for (size_t i = 0; i < size_t(nt); i++)
        for (size_t j = 0; j < size_t(ns); j++) {
            auto g = win_of(size_t(ns), size_t(w), j);
            std::vector<float> v;
            for (size_t n = 0; n < g.n; n++) v.push_back(smp(i, g.a + n));
            // the statistics themselves are decided above
            float want = smp(i, j) * gf(k, false)(v.data(), g.n, 4.f, g.c);
            if (!near(want, out[0].trc[i][j]) && !(std::isnan(want) && std::isnan(out[0].trc[i][j])))
                return c.fail("set", std::string(gname[k]) + ", window " + S(w) + ", " + S(nr) + " processes: sample " + S(j) + " of trace " + S(i) + " is " + S(double(out[0].trc[i][j])) + " instead of " + S(double(want)));
        }
}
// Long traces and windows: a window of every kind of every long trace.
SCENARIO(long_traces)
{
    int k = c.pick(4, "statistic"), ns = c.of<int>({100, 255, 256, 257, 1000, 1001, 2048}, "samples"), w = c.of<int>({1, 3, 31, 63, 64, 65, 99, 127, 254}, "window"), sh = c.pick(4, "signal");
    if (!c.go()) return;
    if ((w | 1) >= ns) return;
    if (k == MED && w == 3) w = 5;
    std::vector<float> v;
    for (int i = 0; i < ns; i++) v.push_back(sh == 0 ? float((i * 37) % 101) - 50.25f : sh == 1 ? (i % 2 ? -1.f : 1.f) * float(1 + i % 9) : sh == 2 ? std::ldexp(1.f + float(i % 5), i % 40 - 20) : i % 64 < 40 ? 0.f : float(i % 13) - 6.f);
    std::unique_ptr<float[]> d(new float[size_t(ns)]);
    std::copy(v.begin(), v.end(), d.get());
    if (sh % 2) sp::exseis_AGC(size_t(ns), d.get(), gf(k, true), size_t(w), 7.5f);
    else sp::AGC(size_t(ns), d.get(), gf(k, false), size_t(w), 7.5f);
    c.executed();
    c.transitions(size_t(ns));
    c.state(mc::mix(size_t(k * 10 + sh), size_t(ns * 1000 + w)));
    c.outcome(mc::hash_bytes(d.get(), size_t(ns) * 4));
    for (size_t j = 0; j < size_t(ns); j++) {
        auto g = win_of(size_t(ns), size_t(w), j);
        double st;
        std::vector<float> x(v.begin() + long(g.a), v.begin() + long(g.a + g.n));
        if (!stat(k, x, g.c, st)) continue;
        if (k == MED && g.n % 2 == 0) {  // see median_even and median_two
            auto s = x;
            std::sort(s.begin(), s.end());
            if (s.size() < 4) continue;
            double up = (double(s[s.size() / 2]) + s[s.size() / 2 + 1]) / 2;
            if (up == 0 || near(double(v[j]) * 7.5 / up, double(d[j]))) continue;
        }
        double want = double(v[j]) * 7.5 / st;
        if (std::fabs(want - double(d[j])) > 1e-5 * std::fabs(want)) return c.fail("long", std::string(gname[k]) + ", signal " + S(sh) + ", " + S(ns) + " samples, window " + S(w) + ": sample " + S(j) + " is " + S(double(d[j])) + " instead of " + S(want));
    }
}
