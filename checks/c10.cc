// C10: trace-header encoding and decoding over complete boundary sets of
// values, against exact decimal arithmetic on the bytes.
#include "common.hh"
using namespace cm;

static const double units[9] = {1e-4, 1e-3, 1e-2, 1e-1, 1, 10, 100, 1000, 10000};
// v / unit without a second rounding where it can be avoided
static long double in_units(double v, int u)
{
    static const long double inv[4] = {10000.0L, 1000.0L, 100.0L, 10.0L};
    return u < 4 ? (long double)v * inv[u] : (long double)v / (long double)units[u];
}
static bool fits(double v, int u)
{
    // values that only fit by rounding down at the very edge may use the next
    // unit
    return fabsl(in_units(v, u)) <= 2147483647.49L;
}
// smallest unit whose integer fits the field
static int fit(double v)
{
    for (int u = 0; u < 9; u++)
        if (fits(v, u)) return u;
    return 9;
}
// largest unit <= 1 of which v (to 1e-4) is an exact multiple
static int need(double v)
{
    if (std::fabs(v) > 1e14) return 4;
    long double q = roundl(in_units(v, 0));
    int u         = 0;
    long double m = 10;
    while (u < 4 && fmodl(q, m) == 0) {
        u++;
        m *= 10;
    }
    return u;
}
static bool unit_index(int16_t s, double& u)
{
    int v = s == 0 ? 1 : s;
    u     = v > 0 ? v : 1.0 / -v;
    return v > 0 ? (v == 1 || v == 10 || v == 100 || v == 1000 || v == 10000) : (v == -1 || v == -10 || v == -100 || v == -1000 || v == -10000);
}

struct G {
    Meta m[3];
    int n;
};
static const G groups[3] = {{{PIOL_META_xSrc, PIOL_META_yCmp, PIOL_META_xRcv}, 3}, {{PIOL_META_RGElev, PIOL_META_WtrDepRcv, PIOL_META_SDElev}, 3}, {{PIOL_META_ShotNum, 0, 0}, 1}};

// Encode the values of one group (another group holds a constant) and compare.
static std::string roundtrip(int g, const std::vector<double>& v, int rkind, size_t stride, size_t skip)
{
    static std::shared_ptr<Rule> rules[2];
    if (!rules[0]) {
        std::vector<Meta> some{PIOL_META_xSrc, PIOL_META_xRcv, PIOL_META_yCmp, PIOL_META_RGElev, PIOL_META_WtrDepRcv, PIOL_META_SDElev, PIOL_META_ShotNum};
        rules[0] = std::make_shared<Rule>(some);
        rules[1] = std::make_shared<Rule>(some);
        rules[1]->addLong(PIOL_META_il, PIOL_TR_il);
        rules[1]->addShort(PIOL_META_Tic, PIOL_TR_TIC);
    }
    auto r = rules[rkind];
    Param p(r, skip + 1), q(r, skip + 1);
    std::map<Meta, double> want;
    for (int k = 0; k < 3; k++)
        for (int j = 0; j < groups[k].n; j++) want[groups[k].m[j]] = k == g ? v[size_t(j) % v.size()] : 17.25;
    for (auto& kv : want) param_utils::setPrm(skip, kv.first, kv.second, &p);
    if (rkind) {
        param_utils::setPrm(skip, PIOL_META_il, Integer(-559038737), &p);
        param_utils::setPrm(skip, PIOL_META_Tic, int16_t(-21555), &p);
    }
    std::vector<uc> b(240 + stride, 0x77);
    SEGY_utils::insertParam(1, &p, b.data(), stride, skip);
    SEGY_utils::extractParam(1, b.data(), &q, stride, skip);
    int best = 0, low = 4;
    for (int j = 0; j < groups[g].n; j++) {
        best = std::max(best, fit(want[groups[g].m[j]]));
        low  = std::min(low, need(want[groups[g].m[j]]));
    }
    double res = units[std::max(best, low)];
    std::vector<bool> mine(240 + stride, false);
    for (auto& kv : want) {
        const Field& f = *field(kv.first);
        double u;
        int16_t s = get16(&b[size_t(f.scal - 1)]);
        if (!unit_index(s, u)) return "scalar is " + S(int(s));
        double d    = decode(f, b.data());
        bool in_g   = false;
        for (int j = 0; j < groups[g].n; j++) in_g |= groups[g].m[j] == kv.first;
        double tol = (in_g ? res : 0.01) / 2 * (1 + 1e-9) + std::fabs(kv.second) * 4e-16;
        if (!(std::fabs(d - kv.second) <= tol)) return std::string("the header holds ") + S(d) + " for " + f.name + " = " + S(kv.second) + " (scalar " + S(int(s)) + ", resolution possible " + S(in_g ? res : 0.01) + ")";
        double back = param_utils::getPrm<Floating_point>(skip, kv.first, &q);
        if (!close_to(back, d)) return std::string("decoding gives ") + S(back) + " for " + f.name + ", the header holds " + S(d);
        if (!(std::fabs(back - kv.second) <= tol)) return std::string("decoding gives ") + S(back) + " for " + f.name + " = " + S(kv.second);
        for (int k = 0; k < 4; k++) mine[size_t(f.loc - 1 + k)] = true;
        for (int k = 0; k < 2; k++) mine[size_t(f.scal - 1 + k)] = true;
    }
    if (rkind) {
        if (get32(&b[188]) != -559038737 || get16(&b[28]) != -21555) return "an integer field is wrong";
        for (int k = 0; k < 4; k++) mine[size_t(188 + k)] = true;
        mine[28] = mine[29] = true;
    }
    for (size_t k = 0; k < b.size(); k++)
        if (!mine[k] && b[k] != 0x77) return "header byte " + S(k + 1) + " of no parameter was changed";
    return "";
}
static const std::vector<double>& value_set(bool big)
{
    static std::vector<double> v[2];
    auto& o = v[big];
    if (!o.empty()) return o;
    std::set<double> s;
    std::vector<double> ip{0, 1, 2, 9, 10, 99, 100, 123, 1000, 9999, 32768, 65536, 99999, 1e6, 6e6, 12345678, 1e8, 123456789};
    for (double e : {1e-4, 1e-3, 1e-2, 1e-1, 1.0})
        for (int d = -2; d <= 2; d++) ip.push_back(std::floor(2147483647.0 * e) + d);
    std::vector<double> fr{0, .1, .5, .9, .01, .25, .99, .001, .125, .995, .9995, .0001, .4567, .9999, .9996, .00005, .00001, .99996, .3333333333};
    if (big)
        for (int k = 1; k < 100; k += 3) fr.push_back(k / 100. + .0007);
    for (double a : ip)
        for (double f : fr) s.insert(a + f), s.insert(-(a + f));
    // multiples that need a multiplier, and the edges where rounding overflows
    for (int u = 4; u < 9; u++)
        for (double q : {2147483646., 2147483647., 2147483648., 1500000000., 300000001., 214748365.})
            for (double d : {-1., -.6, -.5, -.4, 0., .4, .49, .5, .51, .6, 1.}) {
                double x = (q + d) * units[u];
                s.insert(x);
                s.insert(-x);
            }
    for (int u = 0; u < 4; u++)
        for (double q : {2147483646., 2147483647., 2147483648.})
            for (double d : {-1., -.6, -.5, -.4, 0., .4, .49, .5, .51, .6, 1.}) {
                double x = (q + d) * units[u];
                s.insert(x);
                s.insert(-x);
            }
    for (double x : s)
        if (fit(x) < 9) o.push_back(x);
    return o;
}
static void run_set(mc::Case& c, int g, const std::vector<double>& v, int rk, size_t stride, size_t skip)
{
    std::string e = roundtrip(g, v, rk, stride, skip);
    c.executed();
    c.transitions(2);
    uint64_t h = uint64_t(g);
    for (double x : v) h = mc::mix(h, mc::hash_bytes(&x, 8));
    c.state(h);
    if (!e.empty()) {
        std::string w = "values";
        for (double x : v) w += " " + S(x);
        c.fail("scaled", w + ": " + e);
    }
}
// every value alone (all members of the group equal)
SCENARIO(single)
{
    int g = c.pick(3, "group"), blk = c.pick(32, "block");
    if (!c.go()) return;
    auto& v = value_set(true);
    for (size_t k = size_t(blk); k < v.size() && !c.failed(); k += 32)
        for (int rk = 0; rk < 2; rk++)
            for (size_t st : {0, 12}) run_set(c, g, {v[k]}, rk, st, size_t(rk));
    c.outcome(size_t(blk));
}
// every decimal with up to four places in an interval: exact
SCENARIO(decimals)
{
    int base = c.of<int>({0, 1, 99, 214747, 214748, 21474835, 21474836}, "integer part");
    int sg   = c.pick(2, "sign");
    if (!c.go()) return;
    for (int q = 0; q < 10000 && !c.failed(); q++) {
        double x = (double(base) * 10000. + q) / 10000.;
        run_set(c, 0, {sg ? -x : x}, 0, 0, 0);
    }
    c.outcome(size_t(base));
}
// every ordered pair sharing a scalar
SCENARIO(pairs)
{
    auto& v = value_set(false);
    int a   = c.pick(int(v.size()), "first");
    if (!c.go()) return;
    for (size_t b = c.thorough() ? 0 : size_t(a) % 4; b < v.size() && !c.failed(); b += c.thorough() ? 1 : 4) run_set(c, int(b / 4 % 2), {v[size_t(a)], v[b]}, 0, 0, 0);
    c.outcome(size_t(a));
}
// every ordered triple of one representative of each class
SCENARIO(triples)
{
    static std::vector<double> rep;
    if (rep.empty()) {
        std::set<std::pair<int, int>> seen;
        std::set<double> s;
        for (double x : value_set(true))
            if (seen.insert({fit(x) * (x < 0 ? -1 : 1), need(x)}).second) s.insert(x);
        for (double x : {0., 1., -1., 123.4567, 6000000., 0.5, 1e10, -3e12}) s.insert(x);
        rep.assign(s.begin(), s.end());
    }
    int a = c.pick(int(rep.size()), "first");
    if (!c.go()) return;
    for (double x : rep)
        for (double y : rep)
            if (!c.failed()) run_set(c, 0, {rep[size_t(a)], x, y}, 0, 4, 0);
    c.outcome(size_t(a));
}
// decoding: every scalar with boundary integers
SCENARIO(decode_scalars)
{
    int hi = c.pick(256, "high byte");
    if (!c.go()) return;
    static auto r = std::make_shared<Rule>(true, true, true);
    const int32_t iv[] = {0, 1, -1, 2, 12345, -98765, 0x7fffffff, int32_t(0x80000000), 0x01020304, int32_t(0xfedcba98)};
    for (int lo = 0; lo < 256; lo++)
        for (int32_t x : iv) {
            std::vector<uc> b(240, 0);
            for (auto& f : fields())
                if (f.t == FT::Scaled) {
                    put32(&b[size_t(f.loc - 1)], uint32_t(x) + uint32_t(f.loc));
                    b[size_t(f.scal - 1)] = uc(hi);
                    b[size_t(f.scal)]     = uc(lo);
                }
            Param p(r, 1);
            SEGY_utils::extractParam(1, b.data(), &p, 0, 0);
            c.executed();
            for (auto& kv : r->translate) {
                const Field* f = field(kv.first);
                if (!f || f->t != FT::Scaled) continue;
                double got = param_utils::getPrm<Floating_point>(0, kv.first, &p), want = decode(*f, b.data());
                if (!close_to(got, want)) {
                    c.fail("decode", "scalar " + S(int(int16_t(hi * 256 + lo))) + " value " + S(int(x)) + " of " + f->name + " decodes to " + S(got) + ", expected " + S(want));
                    return;
                }
            }
            c.state(mc::mix(size_t(hi * 256 + lo), size_t(uint32_t(x))));
        }
    c.transitions(2560);
    c.outcome(size_t(hi));
}
// integers: every short in every short field; boundary longs in every field,
// one field at a time with the others at a fixed value.
SCENARIO(integers)
{
    int fi  = c.pick(int(fields().size()), "field");
    int blk = c.pick(16, "block");
    if (!c.go()) return;
    const Field& f = fields()[size_t(fi)];
    if (f.t == FT::Scaled) return;
    auto r = std::make_shared<Rule>(true, true, true);
    r->addRule(f.m);
    std::vector<long long> v;
    if (f.t == FT::Short)
        for (int x = -32768 + blk * 4096; x < -32768 + (blk + 1) * 4096; x++) v.push_back(x);
    else
        for (int b = 2 * blk; b < 2 * blk + 2; b++)
            for (int d = -3; d <= 3; d++)
                for (int s : {-1, 1}) {
                    long long x = s * ((1LL << b) + d);
                    if (x >= -2147483648LL && x <= 2147483647LL) v.push_back(x);
                }
    if (f.t == FT::Int && blk == 0) v.insert(v.end(), {-2147483648LL, 2147483647LL, 0x01020304, -0x01020304});
    for (long long x : v) {
        Param p(r, 1), q(r, 1);
        for (auto& k : p.i) k = 0x11223344;
        for (auto& k : p.s) k = 0x5566;
        param_utils::setPrm(0, f.m, Integer(x), &p);
        std::vector<uc> b(240, 0x99);
        SEGY_utils::insertParam(1, &p, b.data(), 0, 0);
        SEGY_utils::extractParam(1, b.data(), &q, 0, 0);
        c.executed();
        c.state(mc::mix(size_t(fi), size_t(x)));
        std::string err;
        long long raw = f.t == FT::Short ? get16(&b[size_t(f.loc - 1)]) : get32(&b[size_t(f.loc - 1)]);
        if (raw != x) err = "header holds " + S(raw);
        if (param_utils::getPrm<Integer>(0, f.m, &q) != x) err = "decodes to " + S(param_utils::getPrm<Integer>(0, f.m, &q));
        for (auto& o : fields())
            if (o.m != f.m && o.t != FT::Scaled && r->translate.count(o.m)) {
                long long w = o.t == FT::Short ? 0x5566 : 0x11223344;
                long long g = o.t == FT::Short ? get16(&b[size_t(o.loc - 1)]) : get32(&b[size_t(o.loc - 1)]);
                if (g != w || param_utils::getPrm<Integer>(0, o.m, &q) != w) err = std::string("field ") + o.name + " changed";
            }
        if (!err.empty()) {
            c.fail("integer", std::string(f.name) + " = " + S(x) + ": " + err);
            return;
        }
    }
    c.transitions(2 * v.size());
    c.outcome(mc::mix(size_t(fi), size_t(blk)));
}
// many traces at once: each entry is scaled on its own
SCENARIO(many)
{
    int n = c.of<int>({1, 2, 3, 4, 5, 6, 64, 127, 257, 1025}, "traces"), st = c.of<int>({0, 4, 40, 4000}, "stride"), skip = c.of<int>({0, 1, 2, 300}, "skip");
    int ph = c.pick(16, "phase");
    if (!c.go()) return;
    auto r = std::make_shared<Rule>(true, true, true);
    Param p(r, size_t(n + skip)), q(r, size_t(n + skip));
    static const double vv[] = {1.5, 20000000., .0625, -3e11, 0, 99999.25, -7, 5e12};
    std::vector<std::map<Meta, double>> want(static_cast<size_t>(n));
    for (int i = 0; i < n; i++)
        for (auto& f : fields())
            if (r->translate.count(f.m)) {
                double x = f.t == FT::Scaled ? vv[(i + ph) % 8] * (f.scal == 69 ? 1 : 2) : f.t == FT::Int ? i * 1000 + f.loc : i * 10 + f.loc;
                want[size_t(i)][f.m] = x;
                if (f.t == FT::Scaled) param_utils::setPrm(size_t(i + skip), f.m, x, &p);
                else param_utils::setPrm(size_t(i + skip), f.m, Integer(x), &p);
            }
    std::vector<uc> b(size_t(n) * size_t(240 + st), 0x31);
    SEGY_utils::insertParam(size_t(n), &p, b.data(), size_t(st), size_t(skip));
    SEGY_utils::extractParam(size_t(n), b.data(), &q, size_t(st), size_t(skip));
    c.executed(2);
    c.transitions(size_t(2 * n));
    c.state(mc::mix(size_t(n * 64 + st), size_t(skip * 16 + ph)));
    for (int i = 0; i < n; i++)
        for (auto& kv : want[size_t(i)]) {
            double d = decode(*field(kv.first), &b[size_t(i) * size_t(240 + st)]), g = param_utils::getPrm<Floating_point>(size_t(i + skip), kv.first, &q);
            if (!close_to(d, kv.second) || !close_to(g, kv.second)) c.fail("many", std::string(field(kv.first)->name) + " of trace " + S(i) + " = " + S(kv.second) + " stored as " + S(d) + ", decoded as " + S(g));
        }
    c.outcome(mc::hash_bytes(b.data(), b.size()));
}
