// C21: tapering, for every pattern of zero and other samples, every pair of
// ramp lengths and every taper function.
#include "sets.hh"
#include "ExSeisDat/utils/signal_processing/taper.h"
#include <algorithm>
extern size_t exseisdat_model_check_memlim;
using namespace cm;
namespace sp = exseis::utils;
static float custom(float pos, float width) { return pos * 100.f + width; }
static std::vector<std::pair<float, float>> seen;
static float rec(float pos, float width)
{
    seen.push_back({pos, width});
    return 0.5f;
}
static sp::Taper_function tf(int k, bool capi)
{
    static const sp::Taper_function f[2][5] = {{sp::linear_taper, sp::cosine_taper, sp::cosine_square_taper, custom, rec},
                                               {sp::exseis_linear_taper, sp::exseis_cosine_taper, sp::exseis_cosine_square_taper, custom, rec}};
    return f[capi][k];
}
static double ramp(int k, double pos, double width)
{
    double cs = 0.5 + 0.5 * std::cos(M_PI * (pos - width) / width);
    return k == 0 ? pos / width : k == 1 ? cs : k == 2 ? cs * cs : k == 3 ? pos * 100 + width : 0.5;
}
// expected samples
static std::vector<double> want(const std::vector<float>& v, int k, size_t l, size_t r)
{
    std::vector<double> w(v.begin(), v.end());
    size_t z = 0;
    while (z < v.size() && v[z] == 0) z++;
    size_t n = v.size() - z;
    l        = std::min(l, n);
    r        = std::min(r, n);
    for (size_t j = 0; j < l; j++) w[z + j] *= ramp(k, double(j + 1), double(l));
    for (size_t j = 0; j < r; j++) w[v.size() - 1 - j] *= ramp(k, double(j + 1), double(r));
    return w;
}
static bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1e-6 * std::max(std::fabs(a), std::fabs(b)) + 1e-6; }
static void one(mc::Case& c, const std::vector<float>& v, int k, size_t l, size_t r, bool capi)
{
    // the samples lie between guard samples of an exact allocation
    std::unique_ptr<float[]> d(new float[v.size()]);
    std::copy(v.begin(), v.end(), d.get());
    seen.clear();
    if (capi) sp::exseis_taper(v.size(), d.get(), tf(k, true), l, r);
    else sp::taper(v.size(), d.get(), tf(k, false), l, r);
    c.executed();
    c.transitions(seen.size() + 1);
    c.state(mc::hash_bytes(v.data(), v.size() * 4, mc::mix(l * 1000 + r, size_t(k))));
    c.outcome(mc::hash_bytes(d.get(), v.size() * 4));
    auto w = want(v, k, l, r);
    std::string e;
    size_t z = 0;
    while (z < v.size() && v[z] == 0) z++;
    size_t n = v.size() - z;
    for (size_t i = 0; i < v.size() && e.empty(); i++) {
        bool touched = false;
        touched  = (i >= z && i < z + std::min(l, n)) || (i >= z && i >= v.size() - std::min(r, n));
        if (touched ? !near(w[i], d[i]) : bits(d[i]) != bits(v[i])) e = "sample " + S(i) + " becomes " + S(double(d[i])) + " instead of " + S(w[i]);
    }
    for (auto& p : seen)
        if (!(p.first > 0 && p.second > 0 && p.first <= p.second)) e = "the taper function is called with position " + S(double(p.first)) + " of " + S(double(p.second));
    if (e.empty()) return;
    std::string s;
    for (size_t i = 0; i < std::min(v.size(), size_t(50)); i++) s += " " + S(double(v[i]));
    if (v.size() > 50) s += " ... (" + S(v.size()) + ")";
    c.fail("taper", "samples" + s + ", ramps " + S(l) + " and " + S(r) + ", function " + S(k) + ": " + e);
}
// every zero pattern
SCENARIO(zeros)
{
    int n = c.range(1, c.thorough() ? 12 : 9, "samples"), k = c.pick(5, "function");
    if (!c.go()) return;
    for (int m = 0; m < (1 << n) && !c.failed(); m++) {
        std::vector<float> v;
        for (int i = 0; i < n; i++) v.push_back((m >> i) & 1 ? float(i % 2 ? -3 - i : 2 + i) : m % 3 == 1 ? -0.f : 0.f);
        for (int l = 0; l < n; l++)
            for (int r = 0; r < n && !c.failed(); r++) one(c, v, k, size_t(l), size_t(r), (l + r) % 2 != 0);
    }
}
SCENARIO(longer)
{
    int n = c.range(10, c.thorough() ? 120 : 50, "samples"), k = c.pick(5, "function");
    if (!c.go()) return;
    for (int z : {0, 1, n / 2, n - 1, n})
        for (int l = 0; l < n && !c.failed(); l++)
            for (int r : {0, 1, 2, l, n - l - 1, n - 1}) {
                std::vector<float> v;
                for (int i = 0; i < n; i++) v.push_back(i < z ? 0.f : float(i % 7) - 3.f);
                one(c, v, k, size_t(l), size_t(std::max(r, 0)), l % 2 != 0);
                if (c.failed()) return;
            }
}
// lengths and ramps around powers of two, up to the largest trace
SCENARIO(sizes)
{
    int n = c.of<int>({100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4097, 32767}, "samples"), k = c.pick(5, "function"), z = c.of<int>({0, 1, 64, 99}, "zeros");
    if (!c.go()) return;
    std::vector<float> v;
    for (int i = 0; i < n; i++) v.push_back(i < z ? 0.f : float(i % 7) - 3.f);
    std::vector<int> ls;
    for (int l : {0, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, n / 2, n - 1})
        if (l < n) ls.push_back(l);
    for (int l : ls)
        for (int r : ls) {
            if (n > 2000 && (l + r) % 3) continue;
            one(c, v, k, size_t(l), size_t(r), (l + r) % 2 != 0);
            if (c.failed()) return;
        }
}
// values which must not change outside the ramps
SCENARIO(values)
{
    int k = c.pick(5, "function"), a = c.pick(10, "first"), b = c.pick(10, "second");
    if (!c.go()) return;
    static const float s[10] = {INFINITY, -INFINITY, 3.4e38f, -3.4e38f, 1e-45f, 1.17549435e-38f, -0.f, 1.f, -1e-30f, 0.f};
    for (int l = 0; l < 5 && !c.failed(); l++)
        for (int r = 0; r + l < 5; r++) {
            std::vector<float> v{2.f, s[a], s[b], s[a], 3.f};
            // keep the products finite
            if (l > 1 || r > 1) v = {2.f, 5.f, s[b], 7.f, 3.f};
            if ((l > 2 || r > 2) && (k == 3 || std::isinf(s[b]))) continue;
            if (k == 3 && (l || r)) continue;
            one(c, v, k, size_t(l), size_t(r), false);
        }
}
// the taper functions themselves
SCENARIO(functions)
{
    int k = c.pick(3, "function"), w = c.range(1, c.thorough() ? 1000 : 200, "width");
    if (!c.go()) return;
    for (int capi = 0; capi < 2; capi++) {
        double last = 0;
        for (int p = 1; p <= w && !c.failed(); p++) {
            double g = tf(k, capi != 0)(float(p), float(w));
            c.executed();
            c.transitions(1);
            c.state(mc::mix(size_t(k), size_t(w * 1000 + p)));
            if (std::fabs(g - ramp(k, p, w)) > 1e-5) c.fail("function", "function " + S(k) + " at " + S(p) + " of " + S(w) + " is " + S(g) + " instead of " + S(ramp(k, p, w)));
            if (g < -1e-6 || g > 1 + 1e-6) c.fail("range", "function " + S(k) + " at " + S(p) + " of " + S(w) + " is " + S(g));
            if (g < last - 1e-5) c.fail("ramp", "function " + S(k) + " decreases at " + S(p) + " of " + S(w));
            last = g;
        }
    }
}
// the set operation: each trace by itself, for all block sizes
SCENARIO(set)
{
    int k = c.pick(4, "function"), nr = c.range(1, 3, "ranks"), blk = c.pick(3, "block"), nt = c.of<int>({0, 1, 2, 5}, "traces"), ns = c.of<int>({1, 2, 6}, "samples");
    if (!c.go()) return;
    for (int l = 0; l < ns && !c.failed(); l++)
        for (int r = 0; r < ns; r++) {
            mc::fs().clear();
            auto smp = [&](size_t i, size_t j) { return j < i ? 0.f : float((i * 31 + j * 17) % 23) - 11.5f; };
            put_file(mc::fs()["s.segy"], ho_bytes("C", ns, 1000, 5, true), size_t(nt), size_t(ns), [&](size_t i, uc* h) { put32(h, uint32_t(i)); put16(h + 114, ns); put16(h + 116, 1000); }, [&](size_t i, size_t j) { return bits(smp(i, j)); });
            mc::FS before = mc::fs();
            mc::Config cfg;
            cfg.nranks                   = nr;
            exseisdat_model_check_memlim = blk ? size_t(blk) * 1200 : size_t(1) << 30;
            mc::Result res               = mc::run_case(c, cfg, [&](int) {
                auto piol = ExSeis::New();
                exseis::Flow::Set s(piol, "s*");
                s.taper(tf(k, false), size_t(l), size_t(r));
                s.output("out");
                piol->isErr();
            });
            c.state(mc::mix(size_t(k * 100 + l * 10 + r), size_t(nr * 1000 + blk * 100 + nt * 10 + ns)));
            if (res.status != mc::Status::Done || c.failed()) return;
            std::vector<OutFile> out;
            std::string e = outputs(before, out);
            if (!e.empty() || out.size() != 1) return c.fail("files", e + S(out.size()) + " outputs");
            if (out[0].trc.size() != size_t(nt)) return c.fail("count", S(out[0].trc.size()) + " traces instead of " + S(nt));
            for (size_t i = 0; i < size_t(nt); i++) {
                std::vector<float> v;
                for (size_t j = 0; j < size_t(ns); j++) v.push_back(smp(i, j));
                auto w = want(v, k, size_t(l), size_t(r));
                for (size_t j = 0; j < size_t(ns); j++)
                    if (!near(w[j], out[0].trc[i][j])) return c.fail("set", "ramps " + S(l) + " and " + S(r) + ", " + S(nr) + " processes: sample " + S(j) + " of trace " + S(i) + " is " + S(double(out[0].trc[i][j])) + " instead of " + S(w[j]));
            }
        }
}
