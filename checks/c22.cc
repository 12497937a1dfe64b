// C22: frequency filtering against the closed form of the designed response and
// a double precision forward-backward filter.
#include "sets.hh"
#include "ExSeisDat/PIOL/operations/temporalfilter.hh"
#include <cmath>
#include <complex>
extern size_t exseisdat_model_check_memlim;
using namespace cm;
typedef std::complex<double> Z;
static const FltrType types[]  = {FltrType::Lowpass, FltrType::Highpass, FltrType::Bandpass, FltrType::Bandstop};
static const char* tname[]     = {"lowpass", "highpass", "bandpass", "bandstop"};
static const PadType pads[]    = {PadType::Zero, PadType::Symmetric, PadType::Replicate, PadType::Cyclic};
static const char* pname[]     = {"zero", "symmetric", "replicate", "cyclic"};
static const double PI         = 3.14159265358979323846;
static bool band(int t) { return t >= 2; }
// squared magnitude of the Butterworth filter at w radians per sample
static double design(int t, int N, double f1, double f2, double w)
{
    double O = std::tan(w / 2), a = std::tan(PI * f1), b = band(t) ? std::tan(PI * f2) : 0, x;
    if (t == 0) x = O / a;
    else if (t == 1) x = O == 0 ? INFINITY : a / O;
    else {
        double B = b - a, o2 = a * b;
        x = O == 0 ? INFINITY : (O * O - o2) / (B * O);
        if (t == 3) x = x == 0 ? INFINITY : 1 / x;
    }
    return 1 / (1 + std::pow(x * x, N));
}
static Z poly(const std::vector<float>& p, double w)
{
    Z r = 0;
    for (size_t j = 0; j < p.size(); j++) r += double(p[j]) * std::exp(Z(0, -w * double(j)));
    return r;
}
static bool stable(const std::vector<float>& d)
{
    // Schur-Cohn
    std::vector<double> a(d.begin(), d.end());
    while (a.size() > 1) {
        double k = a.back() / a[0];
        if (std::fabs(k) >= 1) return false;
        std::vector<double> b;
        for (size_t i = 0; i + 1 < a.size(); i++) b.push_back(a[i] - k * a[a.size() - 1 - i]);
        a = b;
    }
    return true;
}
static void mk(int t, int N, double fs, double f1, double f2, std::vector<float>& b, std::vector<float>& a)
{
    size_t n = size_t(N) * (band(t) ? 2 : 1) + 1;
    b.assign(n, 0);
    a.assign(n, 0);
    makeFilter(types[t], b.data(), a.data(), N, float(fs), float(f1 * fs), band(t) ? float(f2 * fs) : 0.f);
}
static const double fr[] = {0.04, 0.07, 0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4, 0.44};
SCENARIO(design_)
{
    int t = c.pick(4, "type"), N = c.range(1, c.thorough() ? 5 : 4, "order"), k = c.pick(10, "corner"), l = c.pick(band(t) ? 10 : 1, "corner2");
    double fs = c.of<double>({1, 2, 30, 250, 1000}, "rate");
    if (!c.go()) return;
    double f1 = fr[k], f2 = band(t) ? fr[l] : 0;
    if (band(t) && f2 - f1 < 0.09) return;
    if (N == 5 && (band(t) || f1 < 0.07)) return;  // single precision coefficients do not resolve these
    std::vector<float> b, a;
    mk(t, N, fs, f1, f2, b, a);
    if (a[0] != 1) return c.fail("monic", "the first denominator coefficient is " + S(double(a[0])));
    std::string wh = std::string(tname[t]) + " of order " + S(N) + ", corners " + S(f1 * fs) + " " + S(f2 * fs) + ", rate " + S(fs);
    if (!stable(a)) return c.fail("unstable", wh + ": a pole is outside the unit circle");
    double tol = band(t) && N > 2 ? 6e-3 : 2e-3;
    for (int i = 0; i <= 100; i++) {
        double w = PI * i / 100.2, want = design(t, N, f1, f2, w), got = std::norm(poly(b, w)) / std::norm(poly(a, w));
        c.transitions(1);
        c.state(mc::hash_bytes(&got, 8, mc::mix(size_t(t * 10 + N), size_t(k * 100 + l))));
        if (!(std::fabs(want - got) <= tol))
            return c.fail("response", wh + ": squared magnitude " + S(got) + " instead of " + S(want) + " at " + S(w / (2 * PI) * fs));
    }
    c.executed();
    c.outcome(mc::hash_bytes(a.data(), a.size() * 4));
}
// ------------------------------------------------------------ filtering
static std::vector<double> filtfilt(const std::vector<double>& x, const std::vector<float>& bf, const std::vector<float>& af, int pad)
{
    std::vector<double> b(bf.begin(), bf.end()), a(af.begin(), af.end());
    long n = long(x.size()), m = long(b.size()) - 1, P = 3 * (m + 1);
    std::vector<double> e;
    for (long i = -P; i < n + P; i++) {
        double v;
        if (i >= 0 && i < n) v = x[size_t(i)];
        else if (pad == 0) v = 0;
        else if (pad == 1) v = x[size_t(i < 0 ? -i : 2 * (n - 1) - i)];
        else if (pad == 2) v = x[size_t(i < 0 ? 0 : n - 1)];
        else v = x[size_t(i < 0 ? i + n : i - n)];
        e.push_back(v);
    }
    // steady state of the filter for a constant input, direct form II transposed
    double sb = 0, sa = 0;
    for (double v : b) sb += v;
    for (double v : a) sa += v;
    double g = sb / sa;
    std::vector<double> zi(size_t(m) + 1, 0.);
    for (long i = m - 1; i >= 0; i--) zi[size_t(i)] = zi[size_t(i) + 1] + b[size_t(i) + 1] - a[size_t(i) + 1] * g;
    auto run = [&](const std::vector<double>& u) {
        std::vector<double> z = zi, y;
        for (auto& v : z) v *= u[0];
        for (double v : u) {
            double o = b[0] * v + z[0];
            for (long i = 0; i < m; i++) z[size_t(i)] = z[size_t(i) + 1] + b[size_t(i) + 1] * v - a[size_t(i) + 1] * o;
            y.push_back(o);
        }
        return y;
    };
    auto y = run(e);
    std::reverse(y.begin(), y.end());
    y = run(y);
    std::reverse(y.begin(), y.end());
    return std::vector<double>(y.begin() + P, y.begin() + P + n);
}
// The frequency domain filter with the values which tests of the repository pin
// (see the scenario response_of_frequency_domain).
static std::vector<double> fdomain(const std::vector<double>& x, const std::vector<float>& b, const std::vector<float>& a, double fs)
{
    size_t n = x.size();
    std::vector<Z> X(n);
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++) X[i] += x[j] * std::exp(Z(0, -2 * PI * double(i * j % n) / double(n)));
    std::vector<double> y(n);
    for (size_t i = 0; i < n / 2 + 1; i++) {
        double w = fs * double(i) / double(n);
        Z h = poly(b, w) / poly(a, w);
        Z v = X[i] * Z(std::fabs(h.real()), std::fabs(h.imag()));
        for (size_t j = 0; j < n; j++) {
            double p = 2 * PI * double(i * j % n) / double(n);
            if (i == 0) y[j] += v.real();
            else if (2 * i == n) y[j] += v.real() * (j % 2 ? -1 : 1);
            else y[j] += 2 * (v * std::exp(Z(0, p))).real();
        }
    }
    for (auto& v : y) v /= double(n);
    return y;
}
static std::vector<float> signal(int k, size_t n)
{
    std::vector<float> v(n, 0.f);
    if (k < int(n)) {
        v[size_t(k)] = 1;
        return v;
    }
    for (size_t i = 0; i < n; i++) v[i] = k == int(n) ? 2.5f : k == int(n) + 1 ? float((i * 37 + 11) % 19) - 9.f : (i % 2 ? -100.f : 100.f) + float(i);
    return v;
}
struct Win {
    size_t nw, cen, first, len;
};
// documented window: nw samples (made odd) around the center; 0 means all / middle
static bool window(size_t ns, size_t nw, size_t cen, Win& w)
{
    size_t n = nw == 0 || nw > ns ? ns : nw;
    if (n % 2 == 0) n--;
    size_t m = cen == 0 ? ns / 2 : cen;
    w        = {nw, cen, m - n / 2, n};
    return m >= n / 2 && m + n / 2 < ns;
}
static double worst(const std::vector<double>& w) { double m = 1e-30; for (double v : w) m = std::max(m, std::fabs(v)); return m; }
static void filt(mc::Case& c, int t, int N, double fs, double f1, double f2, int dom, int pad, size_t ns, Win w, const std::vector<std::vector<float>>& in, int order)
{
    std::vector<float> b, a;
    mk(t, N, fs, f1, f2, b, a);
    size_t nt = in.size();
    float* d  = new float[nt * ns];
    for (size_t i = 0; i < nt; i++) std::copy(in[i].begin(), in[i].end(), d + i * ns);
    FltrDmn D = dom ? FltrDmn::Freq : FltrDmn::Time;
    temporalFilter(nt, ns, d, float(fs), types[t], D, pads[pad], w.nw, w.cen, {float(f1 * fs), float(f2 * fs)}, size_t(N));
    (void)order;
    c.executed();
    for (size_t i = 0; i < nt && !c.failed(); i++) {
        std::vector<double> x;
        for (size_t j = 0; j < w.len; j++) x.push_back(in[i][w.first + j]);
        auto y     = dom ? fdomain(x, b, a, fs) : filtfilt(x, b, a, pad);
        double amp = std::max(worst(x), worst(y)), tol = (band(t) ? 2e-3 : 1e-3) * amp;
        c.transitions(ns);
        for (size_t j = 0; j < ns; j++) {
            bool inw  = j >= w.first && j < w.first + w.len;
            double wn = inw ? y[j - w.first] : double(in[i][j]), got = d[i * ns + j];
            if (inw ? !(std::fabs(wn - got) <= tol) : wn != got) {
                c.fail(inw ? (dom ? "freq" : "time") : "outside", std::string(tname[t]) + " order " + S(N) + " " + (dom ? "frequency" : "time") + " domain, padding " + pname[pad] + ", corners " + S(f1) + " " + S(f2) + ", " + S(ns) + " samples, window " + S(w.nw) + " around " + S(w.cen) + ": sample " + S(j) + " of trace " + S(i) + " of " + S(nt) + " is " + S(got) + " instead of " + S(wn));
                break;
            }
        }
    }
    c.outcome(mc::hash_bytes(d, nt * ns * 4));
    c.state(mc::hash_bytes(d, nt * ns * 4, mc::mix(size_t(t * 8 + N), size_t(pad))));
    delete[] d;
}
static const double cor[4][3][2] = {{{0.1, 0}, {0.25, 0}, {0.4, 0}}, {{0.1, 0}, {0.2, 0}, {0.35, 0}}, {{0.1, 0.3}, {0.2, 0.4}, {0.05, 0.2}}, {{0.1, 0.3}, {0.2, 0.4}, {0.1, 0.4}}};
// every unit impulse (and three dense signals) in every position of every window
SCENARIO(impulses)
{
    int t = c.pick(4, "type"), N = c.range(1, 3, "order"), k = c.pick(3, "corner"), dom = c.pick(2, "domain"), pad = c.pick(dom ? 1 : 4, "padding");
    int ns = c.of<int>({1, 2, 3, 8, 13, 14, 22, 31, 40}, "samples");
    if (!c.go()) return;
    Win w;
    if (!window(size_t(ns), 0, 0, w)) return;
    size_t P = 3 * (size_t(N) * (band(t) ? 2 : 1) + 1);
    if (!dom && pad && w.len <= P) return;  // padding is taken from the trace, which must be longer
    double fs = dom ? 30 : k == 1 ? 1 : 250;
    for (int s = 0; s < ns + 3 && !c.failed(); s++) filt(c, t, N, fs, cor[t][k][0], cor[t][k][1], dom, pad, size_t(ns), w, {signal(s, size_t(ns))}, 0);
}
SCENARIO(windows)
{
    int t = c.pick(4, "type"), dom = c.pick(2, "domain"), pad = c.pick(dom ? 1 : 4, "padding");
    int ns = c.of<int>({9, 16, 25, 30}, "samples"), nw = c.range(0, 31, "window"), nt = c.of<int>({0, 1, 3}, "traces");
    if (!c.go()) return;
    if (nw > ns + 1) return;
    int N = 1;
    for (int cen = 0; cen < ns && !c.failed(); cen++) {
        Win w;
        if (!window(size_t(ns), size_t(nw), size_t(cen), w)) continue;
        if (!dom && pad && w.len <= 3u * (size_t(N) * (band(t) ? 2 : 1) + 1)) continue;
        std::vector<std::vector<float>> in;
        for (int i = 0; i < nt; i++) in.push_back(signal(i == 0 ? ns + 1 : i == 1 ? cen : ns + 2, size_t(ns)));
        filt(c, t, N, 30, cor[t][0][0], cor[t][0][1], dom, pad, size_t(ns), w, in, 0);
    }
}
// long traces and windows, and many traces at once
SCENARIO(long_traces)
{
    int t = c.pick(4, "type"), N = c.range(1, 2, "order"), dom = c.pick(2, "domain"), pad = c.pick(dom ? 1 : 4, "padding");
    int ns = c.of<int>({64, 100, 127, 128, 129, 255, 256, 257, 500, 1000}, "samples"), nw = c.of<int>({0, 63, 64, 65, 99}, "window"), nt = c.of<int>({1, 2, 9, 40}, "traces");
    if (!c.go()) return;
    if (nw > ns || (dom && nw == 0 && ns > 300)) return;
    if (nt > 2 && (ns != 100 && ns != 129)) return;
    for (int cen : {0, ns / 2, ns / 3, 2 * ns / 3, ns - 33}) {
        Win w;
        if (!window(size_t(ns), size_t(nw), size_t(cen), w)) continue;
        std::vector<std::vector<float>> in;
        for (int i = 0; i < nt; i++) in.push_back(signal(i % 4 == 0 ? ns + 1 : i % 4 == 1 ? ns / 2 : i % 4 == 2 ? ns + 2 : i, size_t(ns)));
        filt(c, t, N, 30, cor[t][0][0], cor[t][0][1], dom, pad, size_t(ns), w, in, 0);
        if (c.failed()) return;
    }
}
// a trace filtered with others is bit for bit the trace filtered alone
SCENARIO(independent)
{
    int t = c.pick(4, "type"), pad = c.pick(4, "padding"), nt = c.range(2, 4, "traces");
    if (!c.go()) return;
    size_t ns = 40;
    auto run  = [&](const std::vector<int>& sig) {
        std::vector<float> d;
        for (int s : sig) {
            auto v = signal(s, ns);
            d.insert(d.end(), v.begin(), v.end());
        }
        temporalFilter(sig.size(), ns, d.data(), 30, types[t], FltrDmn::Time, pads[pad], 0, 0, {float(cor[t][0][0] * 30), float(cor[t][0][1] * 30)}, 2);
        c.executed();
        return d;
    };
    std::vector<int> all;
    for (int i = 0; i < nt; i++) all.push_back(i == 0 ? 41 : i == 1 ? 40 : i == 2 ? 7 : 42);
    auto d = run(all);
    for (int i = 0; i < nt; i++) {
        auto o = run({all[size_t(i)]});
        c.transitions(ns);
        c.state(mc::hash_bytes(o.data(), ns * 4));
        if (memcmp(o.data(), d.data() + size_t(i) * ns, ns * 4)) return c.fail("independent", "trace " + S(i) + " of " + S(nt) + " differs from the trace filtered alone");
    }
}
// order from the corners: 3 dB in the pass band, 20 dB in the stop band
SCENARIO(order)
{
    int t = c.pick(4, "type"), a = c.pick(10, "corner"), b = c.pick(10, "corner"), rev = c.pick(2, "reversed");
    int gap = c.pick(t > 1 ? 16 : 1, "gaps");
    double fs = c.of<double>({1, 2, 30}, "rate");
    if (!c.go()) return;
    if (fr[b] - fr[a] < 0.09) return;
    double lo = fr[a], hi = fr[b];
    auto ord = [](double p, double s) { return 0.5 * std::log(99. / (std::pow(10., 0.3) - 1.)) / std::fabs(std::log(std::tan(PI * s) / std::tan(PI * p))); };
    std::vector<double> co, use;
    double n;
    if (t == 0) { co = {lo, hi}; use = {lo, 0}; n = ord(lo, hi); }
    else if (t == 1) { co = {lo, hi}; use = {hi, 0}; n = ord(hi, lo); }
    else {
        static const double gaps[4] = {0.05, 0.08, 0.11, 0.15};
        double d = gaps[gap % 4], g = gaps[gap / 4];
        if (hi - g - (lo + d) < 0.02) return;
        co = {lo, lo + d, hi - g, hi};
        double n1 = t == 2 ? ord(lo + d, lo) : ord(lo, lo + d), n2 = t == 2 ? ord(hi - g, hi) : ord(hi, hi - g);
        if (std::fabs(n1 - std::round(n1)) < 1e-3 || std::fabs(n2 - std::round(n2)) < 1e-3) return;
        if (t == 2) use = {lo + d, hi - g};
        else use = {lo, hi};
        n = std::max(std::ceil(n1), std::ceil(n2));
    }
    if (t < 2 && std::fabs(n - std::round(n)) < 1e-3) return;
    size_t N = size_t(std::ceil(n)), ns = 61;
    if (N * (t > 1 ? 2 : 1) > 6) return;  // single precision does not resolve these
    std::vector<float> in;
    for (size_t i = 0; i < ns; i++) in.push_back(float((i * 37 + 11) % 19) - 9.f);
    std::vector<float> x = in, y = in, cf, uf;
    for (double v : co) cf.push_back(float(v * fs));
    for (double v : use) uf.push_back(float(v * fs));
    if (rev) std::reverse(cf.begin(), cf.end());
    temporalFilter(1, ns, x.data(), float(fs), types[t], FltrDmn::Time, PadType::Zero, 0, 0, cf);
    temporalFilter(1, ns, y.data(), float(fs), types[t], FltrDmn::Time, PadType::Zero, 0, 0, uf, N);
    c.executed(2);
    c.transitions(ns);
    c.state(mc::hash_bytes(x.data(), ns * 4));
    for (size_t i = 0; i < ns; i++)
        if (!(std::fabs(x[i] - y[i]) <= 1e-4)) return c.fail("order", std::string(tname[t]) + " with corners " + S(lo * fs) + " " + S(hi * fs) + " and rate " + S(fs) + ": sample " + S(i) + " is " + S(double(x[i])) + ", but " + S(double(y[i])) + " with order " + S(N));
}
// Known finding: the response of the frequency domain filter.
SCENARIO(response_of_frequency_domain)
{
    if (!c.go()) return;
    // a sine in the pass band of a lowpass passes
    size_t ns = 61;
    std::vector<float> d;
    for (size_t i = 0; i < ns; i++) d.push_back(float(std::sin(2 * PI * 3 * double(i) / double(ns))));
    auto o = d;
    temporalFilter(1, ns, d.data(), 30, FltrType::Lowpass, FltrDmn::Freq, PadType::Zero, 0, 0, {9.f, 0.f}, 3);
    for (size_t i = 0; i < ns; i++)
        if (std::fabs(d[i] - o[i]) > 0.1) return c.fail("response", "sample " + S(i) + " of a sine of 1.5 Hz is " + S(double(d[i])) + " after a lowpass at 9 Hz, instead of " + S(double(o[i])));
}
// -------------------------------------------------------------- set operation
SCENARIO(set)
{
    int t = c.pick(4, "type"), dom = c.pick(2, "domain"), nr = c.range(1, 3, "ranks"), blk = c.pick(3, "block"), nt = c.of<int>({0, 1, 2, 5}, "traces"), v = c.pick(4, "call");
    if (!c.go()) return;
    size_t ns = 41;
    mc::fs().clear();
    auto smp = [&](size_t i, size_t j) { return float((i * 31 + j * 17) % 23) - 7.f; };
    put_file(mc::fs()["s.segy"], ho_bytes("C", int(ns), 1000, 5, true), size_t(nt), ns, [&](size_t i, uc* h) { put32(h, uint32_t(i)); put16(h + 114, uint16_t(ns)); put16(h + 116, 1000); }, [&](size_t i, size_t j) { return bits(smp(i, j)); });
    mc::FS before = mc::fs();
    mc::Config cfg;
    cfg.nranks                   = nr;
    exseisdat_model_check_memlim = blk ? size_t(blk) * 2600 : size_t(1) << 30;
    FltrDmn D = dom ? FltrDmn::Freq : FltrDmn::Time;
    std::vector<float> two{3, band(t) ? 9.f : 0.f}, corn{3, 7};
    size_t nw = v % 2 ? 21 : 0, cen = v % 2 ? 14 : 0;
    if (v >= 2 && band(t)) corn = {2.5f, 4, 8, 12};
    mc::Result r = mc::run_case(c, cfg, [&](int) {
        auto piol = ExSeis::New();
        exseis::Flow::Set s(piol, "s*");
        if (v < 2) s.temporalFilter(types[t], D, PadType::Zero, 30.f, size_t(1), two, nw, cen);
        else s.temporalFilter(types[t], D, PadType::Zero, 30.f, corn, nw, cen);
        s.output("out");
        piol->isErr();
    });
    c.state(mc::mix(size_t(t * 100 + v), size_t(nr * 100 + blk * 10 + nt)));
    if (r.status != mc::Status::Done || c.failed()) return;
    std::vector<OutFile> out;
    std::string e = outputs(before, out);
    if (!e.empty() || out.size() != 1) return c.fail("files", e + S(out.size()) + " outputs");
    if (out[0].trc.size() != size_t(nt)) return c.fail("count", S(out[0].trc.size()) + " traces instead of " + S(nt));
    for (size_t i = 0; i < size_t(nt); i++) {
        std::vector<float> x;
        for (size_t j = 0; j < ns; j++) x.push_back(smp(i, j));
        if (v < 2) temporalFilter(1, ns, x.data(), 30.f, types[t], D, PadType::Zero, nw, cen, two, 1);
        else temporalFilter(1, ns, x.data(), 30.f, types[t], D, PadType::Zero, nw, cen, corn);
        for (size_t j = 0; j < ns; j++)
            if (!(std::fabs(x[j] - out[0].trc[i][j]) <= 1e-3)) return c.fail("set", std::string(tname[t]) + ", " + S(nr) + " processes: sample " + S(j) + " of trace " + S(i) + " is " + S(double(out[0].trc[i][j])) + " instead of " + S(double(x[j])));
    }
}
