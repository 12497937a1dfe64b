// C15: global minima and maxima over every division of small sets of traces
// against a sequential scan.
#include "common.hh"
#include "ExSeisDat/Flow/Set.hh"
#include "ExSeisDat/PIOL.h"
#include "ExSeisDat/PIOL/operations/minmax.h"
using namespace cm;
using exseis::PIOL::CoordElem;
struct XY {
    double x = 123, y = 456;
};
static const size_t NONE = std::numeric_limits<size_t>::max();

// what the four elements must be; equal values are separated by the other
// coordinate, and then by position
static std::vector<CoordElem> want_of(const std::vector<XY>& v)
{
    std::vector<CoordElem> w(4, CoordElem{0, NONE});
    if (v.empty()) return w;
    for (int co = 0; co < 2; co++) {
        auto key  = [&](size_t i) { return co ? std::make_pair(v[i].y, v[i].x) : std::make_pair(v[i].x, v[i].y); };
        size_t lo = 0, hi = 0;
        for (size_t i = 1; i < v.size(); i++) {
            if (key(i) < key(lo)) lo = i;
            if (key(i) >= key(hi)) hi = i;
        }
        w[size_t(2 * co)]     = {key(lo).first, lo};
        w[size_t(2 * co + 1)] = {key(hi).first, hi};
    }
    return w;
}
static std::string diff(const std::vector<CoordElem>& w, const CoordElem* g, const std::vector<XY>& v)
{
    static const char* nm[4] = {"first minimum", "first maximum", "second minimum", "second maximum"};
    for (size_t k = 0; k < 4; k++) {
        if (g[k].val != w[k].val) return std::string(nm[k]) + " is " + S(g[k].val) + " instead of " + S(w[k].val);
        if (w[k].num == NONE ? g[k].num != NONE : g[k].num >= v.size()) return std::string(nm[k]) + ": trace number " + S(g[k].num);
        if (w[k].num == NONE) continue;
        const XY &a = v[g[k].num], &b = v[w[k].num];
        if ((k < 2 ? a.x : a.y) != w[k].val) return std::string(nm[k]) + ": trace " + S(g[k].num) + " does not have this value";
        if (a.x != b.x || a.y != b.y) return std::string(nm[k]) + ": the other coordinate does not decide between equal values (trace " + S(g[k].num) + ", not " + S(w[k].num) + ")";
    }
    return "";
}
static uint64_t hxy(const std::vector<XY>& v, const std::vector<size_t>& sh)
{
    uint64_t h = 1;
    for (auto& a : v) h = mc::mix(h, mc::hash_bytes(&a, sizeof a));
    for (auto s : sh) h = mc::mix(h, s);
    return h;
}
// how: 0 plain structures, 1 parameter container, 2 C interface
static void one(mc::Case& c, const std::vector<XY>& v, const std::vector<size_t>& sh, int how, Meta m1 = PIOL_META_xSrc, Meta m2 = PIOL_META_ySrc)
{
    auto of = offs_of(sh);
    mc::Config cfg;
    cfg.nranks = int(sh.size());
    std::vector<std::vector<CoordElem>> got(sh.size());
    mc::Result r = mc::run_case(c, cfg, [&](int rank) {
        auto piol = ExSeis::New();
        size_t k  = size_t(rank);
        std::vector<CoordElem> mm(4, CoordElem{-77, 77});
        if (how == 0) {
            std::vector<XY> loc(v.begin() + long(of[k]), v.begin() + long(of[k] + sh[k]));
            exseis::PIOL::getMinMax<XY>(piol.get(), of[k], sh[k], sh[k] ? loc.data() : nullptr, [](const XY& a) { return a.x; }, [](const XY& a) { return a.y; }, mm.data());
        }
        else {
            Param p(sh[k]);
            for (size_t i = 0; i < sh[k]; i++) {
                param_utils::setPrm(i, m1, v[of[k] + i].x, &p);
                param_utils::setPrm(i, m2, v[of[k] + i].y, &p);
            }
            if (how == 1) exseis::PIOL::getMinMax(piol.get(), of[k], sh[k], m1, m2, &p, mm.data());
            else {
                PIOL_ExSeis h = std::shared_ptr<exseis::PIOL::ExSeis>(piol);
                PIOL_File_getMinMax(&h, of[k], sh[k], m1, m2, &p, mm.data());
            }
        }
        got[k] = mm;
    });
    if (r.status != mc::Status::Done || c.failed()) return;
    auto w = want_of(v);
    c.state(hxy(v, sh) + uint64_t(how) * 77);
    for (size_t k = 0; k < sh.size(); k++) {
        std::string e = diff(w, got[k].data(), v);
        if (!e.empty()) {
            c.fail("minmax", S(v.size()) + " traces, shares " + vs(sh) + ", process " + S(k) + ": " + e);
            return;
        }
    }
    for (auto& x : w) c.outcome(mc::mix(x.num, mc::hash_bytes(&x.val, 8)));
}
static std::vector<XY> digits(int n, int code, int b, const double* vx, const double* vy)
{
    std::vector<XY> v(static_cast<size_t>(n));
    for (auto& a : v) {
        a.x = vx[code % b];
        code /= b;
        a.y = vy[code % b];
        code /= b;
    }
    return v;
}
SCENARIO(values)
{
    int n  = c.range(0, c.thorough() ? 5 : 4, "traces");
    int nr = c.range(1, 4, "ranks");
    std::vector<std::vector<size_t>> all;
    all_shares(size_t(n), nr, all);
    auto sh = pickv(c, all, "shares");
    if (!c.go()) return;
    int b = n > 3 ? 2 : 3, nk = 1;
    for (int k = 0; k < 2 * n; k++) nk *= b;
    static const double vx[3][3] = {{-5, -1, -3}, {0, 7, -2}, {1e9, 2, 3}}, vy[3] = {4, -4, 0};
    for (int set = 0; set < 3; set++)
        for (int code = 0; code < nk && !c.failed(); code++) one(c, digits(n, code, b, vx[set], vy), sh, set);
}
static const double special[] = {0., -0., 5e-324, -5e-324, 2.2250738585072014e-308, -2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, INFINITY, -INFINITY, 1., -1., 3.4e38, 9007199254740993.};
SCENARIO(extremes)
{
    int how = c.range(0, 2, "interface");
    int a   = c.pick(14, "first"), b = c.pick(14, "second");
    if (!c.go()) return;
    for (size_t k = 0; k < 14 && !c.failed(); k++) {
        std::vector<XY> v{{special[a], special[k]}, {special[b], special[a]}, {special[k], special[b]}};
        for (auto& sh : std::vector<std::vector<size_t>>{{3}, {1, 2}, {0, 3}, {2, 0, 1}}) one(c, v, sh, how);
    }
    std::vector<XY> u{{special[a], special[b]}};
    for (auto& sh : std::vector<std::vector<size_t>>{{1}, {0, 1}, {1, 0}, {0, 1, 0}}) one(c, u, sh, how);
}
// Each position of the extremes in longer lists; each coordinate pair.
SCENARIO(positions)
{
    int n   = c.range(5, c.thorough() ? 24 : 14, "traces");
    int lo  = c.pick(n, "minimum"), nr = c.range(1, 4, "ranks"), pr = c.pick(5, "parameters");
    if (!c.go()) return;
    static const Meta m[5][2] = {{PIOL_META_xSrc, PIOL_META_ySrc}, {PIOL_META_xRcv, PIOL_META_yRcv}, {PIOL_META_xCmp, PIOL_META_yCmp}, {PIOL_META_il, PIOL_META_xl}, {PIOL_META_Offset, PIOL_META_ySrc}};
    for (int hi = 0; hi < n; hi++) {
        std::vector<XY> v(static_cast<size_t>(n));
        for (size_t i = 0; i < v.size(); i++) v[i] = {double((i * 7) % 5) - 20., -double((i * 3) % 4)};
        v[size_t(lo)].x = -30;
        if (hi != lo) v[size_t(hi)].x = -2;
        v[size_t(hi)].y = 9;
        std::vector<size_t> sh(size_t(nr), size_t(n / nr));
        sh[size_t((lo + hi) % nr)] += size_t(n % nr);
        one(c, v, sh, 1, m[pr][0], m[pr][1]);
        if (c.failed()) return;
    }
}
// Many traces and processes, and extremes next to every boundary
SCENARIO(many)
{
    int n  = c.of(c.thorough() ? std::vector<int>{64, 127, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4097, 70001} : std::vector<int>{64, 257, 1025, 70001}, "traces");
    int nr = c.of(std::vector<int>{1, 2, 5, 8, 9, 16}, "ranks"), div = c.pick(4, "division"), how = c.range(0, 2, "interface");
    if (!c.go()) return;
    if (n > 5000 && (div || how == 2)) return;
    std::vector<size_t> sh(static_cast<size_t>(nr)), at{0, size_t(n) - 1, size_t(n) / 2};
    size_t sum = 0, R = size_t(nr), N = size_t(n);
    for (size_t r = 0; r < R; r++) {
        sh[r] = div == 0 ? N * (r + 1) / R - N * r / R : div == 1 ? (r + 1 == R ? N : 0) : div == 2 ? (r == 0 ? N : 0) : (r + 1 == R ? N - sum : (N - sum) / 2);
        sum += sh[r];
        if (r < 2 || r + 2 >= R)
            for (size_t b : {sum, sum - 1})
                if (b < N && sum) at.push_back(b);
    }
    for (size_t b : {63, 64, 127, 128, 255, 256, 1023, 1024, 65535, 65536})
        if (b < N) at.push_back(b);
    std::vector<XY> v(N);
    for (size_t i = 0; i < N; i++) v[i] = {double((i * 7) % 501) - 20., -double((i * 3) % 407)};
    size_t step = n > 5000 ? 5 : c.thorough() ? 1 : 2;
    for (size_t q = 0; q < at.size() && !c.failed(); q += step) {
        auto w = v;
        w[at[q]].x                        = -30;
        w[at[(q * 5 + 1) % at.size()]].x  = q % 2 ? 1000 : -25;
        w[at[(q * 3 + 2) % at.size()]].y  = 9;
        w[at[(q * 7 + 1) % at.size()]].y  = -900;
        one(c, w, sh, how);
    }
}
// The set layer: one to three files with 0-4 traces.
SCENARIO(set)
{
    int nf = c.range(1, 3, "files");
    int n0 = c.range(0, 4, "traces in file 0"), n1 = nf > 1 ? c.range(0, 3, "traces in file 1") : (c.range(0, 0, "-"), 0), n2 = nf > 2 ? c.range(0, 1, "traces in file 2") : (c.range(0, 0, "-"), 0);
    int nr = c.range(1, 3, "ranks");
    int sg = c.pick(4, "signs");
    int how = c.pick(2, "interface");
    if (!c.go()) return;
    std::vector<int> nt{n0, n1, n2};
    nt.resize(size_t(nf));
    int tot = n0 + n1 + n2;
    int nk  = 1;
    for (int k = 0; k < tot; k++) nk *= 2;
    for (int code = 0; code < nk && !c.failed(); code++) {
        std::vector<std::vector<XY>> v(static_cast<size_t>(nf));
        std::vector<XY> all;
        int x = code;
        for (int f = 0; f < nf; f++)
            for (int i = 0; i < nt[size_t(f)]; i++) {
                double d = (x & 1) ? 3 : 1;
                x >>= 1;
                v[size_t(f)].push_back({sg & 1 ? -d : d, (sg & 2 ? -d : d) * 2});
                all.push_back(v[size_t(f)].back());
            }
        for (int f = 0; f < nf; f++)
            put_file(mc::fs()["s" + S(f) + ".segy"], ho_bytes("C", 2, 1000, 5, true), size_t(nt[size_t(f)]), 2, [&](size_t i, uc* h) {
                put32(h + 72, uint32_t(int(v[size_t(f)][i].x)));
                put32(h + 76, uint32_t(int(v[size_t(f)][i].y)));
            }, [](size_t, size_t) { return 0u; });
        mc::Config cfg;
        cfg.nranks = nr;
        std::vector<std::vector<CoordElem>> got(static_cast<size_t>(nr));
        mc::Result r = mc::run_case(c, cfg, [&](int rank) {
            auto piol = ExSeis::New();
            exseis::Flow::Set set(piol, "s*.segy");
            std::vector<CoordElem> mm(4, CoordElem{-77, 77});
            if (how == 0) set.getMinMax(PIOL_META_xSrc, PIOL_META_ySrc, mm.data());
            else {
                set.getMinMax(PIOL_META_ySrc, PIOL_META_xSrc, mm.data());
                std::swap(mm[0], mm[2]);
                std::swap(mm[1], mm[3]);
            }
            got[size_t(rank)] = mm;
        });
        if (r.status != mc::Status::Done || c.failed()) return;
        auto w = want_of(all);
        c.state(hxy(all, {size_t(n0), size_t(n1), size_t(n2), size_t(nr), size_t(how)}));
        c.outcome(mc::hash_bytes(&w[0].val, 8));
        for (auto& g : got) {
            if (all.empty()) break;
            for (size_t k = 0; k < 4; k++) {
                std::string e;
                if (g[k].val != w[k].val) e = "element " + S(k) + " is " + S(g[k].val) + " instead of " + S(w[k].val);
                else {
                    // the number is that of a trace with this value in some file
                    bool ok = false;
                    for (auto& f : v) ok |= g[k].num < f.size() && (k < 2 ? f[g[k].num].x : f[g[k].num].y) == g[k].val;
                    if (!ok) e = "element " + S(k) + ": no trace " + S(g[k].num) + " has the value " + S(g[k].val);
                }
                if (!e.empty()) {
                    c.fail("set", "files of " + S(n0) + ", " + S(n1) + ", " + S(n2) + " traces on " + S(nr) + " processes: " + e);
                    return;
                }
            }
        }
    }
}
