// C09: parameter containers against a table model: every sequence of sets,
// every pair of rules and every pair of entries for copies.
#include "common.hh"
using namespace cm;

// ------------------------------------------------------------------ rules
static const int NRULES = 12;
static std::shared_ptr<Rule> rule(int k)
{
    std::shared_ptr<Rule> r;
    switch (k) {
        case 0: return std::make_shared<Rule>(true, true);
        case 1: return std::make_shared<Rule>(true, true, true);
        case 2: return std::make_shared<Rule>(std::vector<Meta>{PIOL_META_xl, PIOL_META_il});
        case 3: return std::make_shared<Rule>(std::vector<Meta>{PIOL_META_Tic, PIOL_META_xSrc, PIOL_META_WtrDepSrc, PIOL_META_tn});
        case 4:
            r = std::make_shared<Rule>(true, true);
            r->addCopy();
            return r;
        case 5: return std::make_shared<Rule>(std::vector<Meta>{PIOL_META_COPY});
        case 6:  // same parameters, other kinds
            r = std::make_shared<Rule>(std::vector<Meta>{PIOL_META_yRcv});
            r->addLong(PIOL_META_xSrc, 233);
            r->addShort(PIOL_META_il, 225);
            r->addIndex(PIOL_META_tn);
            r->addSEGYFloat(PIOL_META_xl, 125, 71);
            return r;
        case 7:  // same parameters elsewhere in the header
            r = std::make_shared<Rule>(std::vector<Meta>{PIOL_META_COPY, PIOL_META_yCmp});
            r->addLong(PIOL_META_il, 5);
            r->addLong(PIOL_META_xl, 1);
            r->addShort(PIOL_META_Tic, 91);
            r->addIndex(PIOL_META_Misc1);
            return r;
        case 8: return std::make_shared<Rule>(true, false);
        case 9: {
            r = std::make_shared<Rule>(Rule::RuleMap(), true);
            r->addLong(PIOL_META_il, PIOL_TR_il);
            return r;
        }
        case 10:  // storage order disturbed by removals
            r = std::make_shared<Rule>(true, true, true);
            for (Meta m : {PIOL_META_xSrc, PIOL_META_il, PIOL_META_Tic, PIOL_META_gtn}) r->rmRule(m);
            r->addRule(PIOL_META_xSrc);
            r->addIndex(PIOL_META_Misc2);
            return r;
        default:
            r = std::make_shared<Rule>(true, true, true);
            r->addCopy();
            r->addIndex(PIOL_META_Misc2);
            return r;
    }
}
// every parameter anyone could ask for
static std::vector<Meta> universe()
{
    std::vector<Meta> v;
    for (size_t m = 0; m <= PIOL_META_Misc4; m++) v.push_back(Meta(m));
    return v;
}
static FT kind(const RuleEntry* e)
{
    switch (const_cast<RuleEntry*>(e)->type()) {
        case RuleEntry::MdType::Long: return FT::Int;
        case RuleEntry::MdType::Short: return FT::Short;
        case RuleEntry::MdType::Float: return FT::Scaled;
        case RuleEntry::MdType::Index: return FT::Index;
        default: return FT(99);
    }
}
static const RuleEntry* entry(const Rule& r, Meta m)
{
    auto it = r.translate.find(m);
    return it == r.translate.end() ? nullptr : it->second;
}
// -------------------------------------------------------------- set / get
// one value per kind that survives every integer conversion used
template<class T>
static void put(Param& p, size_t i, Meta m, T v)
{
    param_utils::setPrm(i, m, v, &p);
}
struct Val {
    int t;  // as which type it is set
    double d;
    long long l;
};
static std::vector<Val> values(FT t)
{
    switch (t) {
        case FT::Int: return {{0, 0, 1}, {0, 0, -2147483648LL}, {0, 0, 2147483647LL}, {0, 0, (1LL << 53) + 1}, {0, 0, -(1LL << 62)}, {1, 12345., 12345}, {2, 0, -32768}, {3, 0, 77}};
        case FT::Short: return {{0, 0, 32767}, {0, 0, -32768}, {1, 12., 12}, {2, 0, -1}, {3, 0, 256}};
        case FT::Scaled: return {{1, 1.25, 0}, {1, -1e30, 0}, {1, 1e-300, 0}, {1, 0.1, 0}, {0, 0, 99}, {2, 0, -5}};
        default: return {{3, 0, 1}, {3, 0, -1}, {3, 0, 1LL << 40}, {0, 0, 12}};
    }
}
static void set_val(Param& p, size_t i, Meta m, const Val& v)
{
    switch (v.t) {
        case 0: put<Integer>(p, i, m, v.l); break;
        case 1: put<Floating_point>(p, i, m, v.d); break;
        case 2: put<int16_t>(p, i, m, int16_t(v.l)); break;
        default: put<size_t>(p, i, m, size_t(v.l));
    }
}
// the table: for each kind the exact content
struct Cell {
    double d    = 0;
    long long l = 0;
    size_t u    = 0;
};
static Cell cell_of(FT t, const Val& v)
{
    Cell c;
    double d = v.t == 1 ? v.d : v.t == 3 ? double(size_t(v.l)) : double(v.l);
    if (t == FT::Scaled) c.d = d;
    else if (t == FT::Index) c.u = v.t == 1 ? size_t(v.d) : size_t(v.l);
    else c.l = v.t == 1 ? (long long)v.d : v.l;
    return c;
}
static std::string check_get(const Param& p, size_t i, Meta m, FT t, const Cell& w)
{
    std::string at = "parameter " + S(m) + " of trace " + S(i);
    if (t == FT::Scaled) {
        if (param_utils::getPrm<Floating_point>(i, m, &p) != w.d) return at + " reads " + S(param_utils::getPrm<Floating_point>(i, m, &p)) + ", set to " + S(w.d);
        if (std::fabs(w.d) < 1e9 && param_utils::getPrm<Integer>(i, m, &p) != Integer(w.d)) return at + " reads differently as an integer";
    }
    else if (t == FT::Index) {
        if (param_utils::getPrm<size_t>(i, m, &p) != w.u) return at + " reads " + S(param_utils::getPrm<size_t>(i, m, &p)) + ", set to " + S(w.u);
    }
    else {
        if (param_utils::getPrm<Integer>(i, m, &p) != w.l) return at + " reads " + S(param_utils::getPrm<Integer>(i, m, &p)) + ", set to " + S(w.l);
        if (param_utils::getPrm<Floating_point>(i, m, &p) != double(w.l)) return at + " reads differently as a floating-point number";
        if (t == FT::Short && param_utils::getPrm<int16_t>(i, m, &p) != w.l) return at + " reads differently as a short";
    }
    return "";
}
SCENARIO(set_sequences)
{
    int rk = c.pick(NRULES, "rule");
    int sz = c.range(1, 3, "traces");
    auto U = universe();
    int m0 = c.pick(int(U.size()), "first parameter");
    if (!c.go()) return;
    auto r = rule(rk);
    // every (trace, parameter, value) then every second one of the same
    // trace or parameter class, then a third that revisits the first
    uint64_t tr = 0, ex = 0;
    for (size_t i0 = 0; i0 < size_t(sz); i0++)
        for (auto& v0 : values(entry(*r, U[size_t(m0)]) ? kind(entry(*r, U[size_t(m0)])) : FT::Int))
            for (Meta m1 : U)
                for (size_t i1 = 0; i1 < size_t(sz); i1++) {
                    auto vals = values(entry(*r, m1) ? kind(entry(*r, m1)) : FT::Int);
                    for (size_t q = 0; q < (c.thorough() ? vals.size() : 2); q++) {
                        auto& v1 = vals[(q + size_t(v0.l & 1)) % vals.size()];
                        Param p(r, size_t(sz));
                        Param fresh(r, size_t(sz));
                        std::map<std::pair<size_t, Meta>, Cell> tab;
                        auto doset = [&](size_t i, Meta m, const Val& v) {
                            set_val(p, i, m, v);
                            tr++;
                            if (auto e = entry(*r, m))
                                if (kind(e) != FT(99)) tab[{i, m}] = cell_of(kind(e), v);
                        };
                        doset(i0, U[size_t(m0)], v0);
                        doset(i1, m1, v1);
                        std::string err;
                        bool differs = false;
                        for (size_t i = 0; i < size_t(sz) && err.empty(); i++)
                            for (Meta m : U) {
                                auto e = entry(*r, m);
                                if (!e) {
                                    if (param_utils::getPrm<Integer>(i, m, &p) != 0) err = "a parameter that is not held reads non-zero";
                                    continue;
                                }
                                if (kind(e) == FT(99)) continue;
                                auto it = tab.find({i, m});
                                Cell w  = it == tab.end() ? Cell() : it->second;
                                if (w.d != 0 || w.l != 0 || w.u != 0) differs = true;
                                err = check_get(p, i, m, kind(e), w);
                                if (!err.empty()) break;
                            }
                        for (auto b : p.c)
                            if (b) err = "setting a parameter changed the stored raw header";
                        if ((p == fresh) == differs || (p != fresh) != differs) err = "equality of containers is wrong";
                        if (r->translate.size() != rule(rk)->translate.size()) err = "the rule changed";
                        ex++;
                        if (!err.empty()) {
                            c.fail("set", "rule " + S(rk) + ", set " + S(U[size_t(m0)]) + " of " + S(i0) + " then " + S(m1) + " of " + S(i1) + ": " + err);
                            return;
                        }
                    }
                }
    c.executed(ex);
    c.transitions(tr);
    c.state(mc::mix(size_t(rk * 4 + sz), size_t(m0)));
    c.outcome(mc::mix(ex, tr));
}
// Round robin: set every parameter of every trace in several orders, then
// read all; then again with other values.
SCENARIO(set_all)
{
    int rk    = c.pick(NRULES, "rule");
    int sz    = c.range(1, 4, "traces");
    int order = c.pick(4, "order");
    if (!c.go()) return;
    auto r = rule(rk);
    Param p(r, size_t(sz));
    auto U = universe();
    std::vector<std::pair<size_t, Meta>> cells;
    for (size_t i = 0; i < size_t(sz); i++)
        for (Meta m : U)
            if (entry(*r, m) && kind(entry(*r, m)) != FT(99)) cells.push_back({i, m});
    if (order & 1) std::reverse(cells.begin(), cells.end());
    if (order & 2) std::sort(cells.begin(), cells.end(), [](auto& a, auto& b) { return std::make_pair(a.second, a.first) < std::make_pair(b.second, b.first); });
    for (int round = 0; round < 8; round++) {
        std::map<std::pair<size_t, Meta>, Cell> tab;
        for (size_t k = 0; k < cells.size(); k++) {
            FT t     = kind(entry(*r, cells[k].second));
            auto vs_ = values(t);
            auto v   = vs_[(k + size_t(round)) % vs_.size()];
            if (v.t == 0 && t == FT::Int) v.l = v.l / 2 + (long long)k;
            set_val(p, cells[k].first, cells[k].second, v);
            tab[cells[k]] = cell_of(t, v);
        }
        for (auto& kv : tab) {
            std::string e = check_get(p, kv.first.first, kv.first.second, kind(entry(*r, kv.first.second)), kv.second);
            if (!e.empty()) {
                c.fail("setall", "rule " + S(rk) + ": " + e);
                return;
            }
        }
        c.executed();
        c.transitions(2 * cells.size());
        c.state(mc::mix(mc::mix(size_t(rk), size_t(sz)), size_t(order * 8 + round)));
    }
    c.outcome(mc::mix(size_t(rk), cells.size()));
}
// ------------------------------------------------------------------- copy
static void fill(Param& p, uint64_t seed)
{
    for (size_t k = 0; k < p.f.size(); k++) p.f[k] = double(mc::mix(seed, k) >> 44) / 8.;
    for (size_t k = 0; k < p.i.size(); k++) p.i[k] = Integer(int32_t(mc::mix(seed + 1, k)));
    for (size_t k = 0; k < p.s.size(); k++) p.s[k] = int16_t(mc::mix(seed + 2, k));
    for (size_t k = 0; k < p.t.size(); k++) p.t[k] = mc::mix(seed + 3, k);
    for (size_t k = 0; k < p.c.size(); k++) p.c[k] = uc(mc::mix(seed + 4, k) >> 20);
    for (size_t e = 0; e * 240 < p.c.size(); e++)
        for (int b : {69, 71, 201}) put16(&p.c[e * 240 + size_t(b - 1)], e % 2 ? -100 : 10);
}
static std::string same_entry(const Param& a, size_t i, const Param& b, size_t j)
{
    const Rule& r = *a.r;
    for (size_t k = 0; k < r.numFloat; k++)
        if (a.f[i * r.numFloat + k] != b.f[j * r.numFloat + k]) return "floating-point value " + S(k);
    for (size_t k = 0; k < r.numLong; k++)
        if (a.i[i * r.numLong + k] != b.i[j * r.numLong + k]) return "integer value " + S(k);
    for (size_t k = 0; k < r.numShort; k++)
        if (a.s[i * r.numShort + k] != b.s[j * r.numShort + k]) return "short value " + S(k);
    for (size_t k = 0; k < r.numIndex; k++)
        if (a.t[i * r.numIndex + k] != b.t[j * r.numIndex + k]) return "index value " + S(k);
    if (r.numCopy && memcmp(&a.c[i * 240], &b.c[j * 240], 240)) return "raw header";
    return "";
}
SCENARIO(copies)
{
    int sk = c.pick(NRULES, "source rule"), dk = c.pick(NRULES, "destination rule");
    int mode = c.pick(sk == dk ? 3 : 1, "0 own rules, 1 shared rule, 2 same container");
    int sn = c.range(1, 3, "source traces"), dn = mode == 2 ? sn : c.range(1, 3, "destination traces");
    if (!c.go()) return;
    for (size_t j = 0; j < size_t(sn); j++)
        for (size_t k = 0; k < size_t(dn); k++) {
            if (mode == 2 && j == k) continue;
            auto sr = rule(sk), dr = mode ? sr : rule(dk);
            Param src(sr, size_t(sn)), dst(dr, size_t(dn));
            fill(src, 100 + size_t(sk));
            if (mode == 2) dst = src;
            else fill(dst, 200 + size_t(dk));
            Param s0 = src, want = dst;
            // reference
            if (sr->numCopy) {
                const uc* h = &s0.c[j * 240];
                for (auto& kv : dr->translate) {
                    auto* e = kv.second;
                    switch (kind(e)) {
                        case FT::Int: want.i[k * dr->numLong + e->num] = get32(h + e->loc - 1); break;
                        case FT::Short: want.s[k * dr->numShort + e->num] = get16(h + e->loc - 1); break;
                        case FT::Scaled: {
                            size_t sl = kv.first == PIOL_META_ShotNum ? 201 : (e->loc <= 65 ? 69 : 71);
                            if (kv.first == PIOL_META_xl) sl = 71;
                            Field f{0, FT::Scaled, int(e->loc), int(sl), ""};
                            want.f[k * dr->numFloat + e->num] = decode(f, h);
                            break;
                        }
                        case FT::Index: break;
                        default: memcpy(&want.c[k * 240], h, 240);
                    }
                }
            }
            for (auto& kv : dr->translate) {
                auto* de = kv.second;
                auto se  = entry(*sr, kv.first);
                if (!se || kind(se) != kind(de)) continue;
                switch (kind(de)) {
                    case FT::Int: want.i[k * dr->numLong + de->num] = s0.i[j * sr->numLong + se->num]; break;
                    case FT::Short: want.s[k * dr->numShort + de->num] = s0.s[j * sr->numShort + se->num]; break;
                    case FT::Scaled: want.f[k * dr->numFloat + de->num] = s0.f[j * sr->numFloat + se->num]; break;
                    case FT::Index: want.t[k * dr->numIndex + de->num] = s0.t[j * sr->numIndex + se->num]; break;
                    default: break;
                }
            }
            Param* dp = mode == 2 ? &src : &dst;
            param_utils::cpyPrm(j, &src, k, dp);
            c.executed();
            c.transitions(1);
            c.state(mc::mix(mc::mix(size_t(sk), size_t(dk)), mc::mix(j * 4 + k, size_t(sn * 4 + dn) * 4 + size_t(mode))));
            std::string err;
            for (size_t e = 0; e < size_t(dn) && err.empty(); e++) {
                // scaled values decoded from a raw header: up to rounding
                for (size_t q = 0; q < dr->numFloat; q++)
                    if (close_to(want.f[e * dr->numFloat + q], dp->f[e * dr->numFloat + q])) want.f[e * dr->numFloat + q] = dp->f[e * dr->numFloat + q];
                err = same_entry(want, e, *dp, e);
                if (!err.empty()) err += " of destination trace " + S(e) + (e == k ? " is not the copied one" : " changed");
            }
            if (mode != 2)
                for (size_t e = 0; e < size_t(sn) && err.empty(); e++) {
                    err = same_entry(s0, e, src, e);
                    if (!err.empty()) err += " of the source changed";
                }
            if (!err.empty()) {
                c.fail("copy", "from trace " + S(j) + " (rule " + S(sk) + ") to trace " + S(k) + " (rule " + S(dk) + "): " + err);
                return;
            }
        }
    c.outcome(mc::mix(size_t(sk), size_t(dk)));
}
// absent containers
SCENARIO(absent)
{
    int a = c.pick(3, "source"), b = c.pick(3, "destination");
    if (!c.go()) return;
    Param p(rule(1), 2), q(rule(1), 2);
    fill(p, 1);
    fill(q, 2);
    Param p0 = p, q0 = q;
    const Param* s = a == 0 ? &p : a == 1 ? nullptr : PIOL_PARAM_NULL;
    Param* d       = b == 0 ? &q : b == 1 ? nullptr : PIOL_PARAM_NULL;
    param_utils::cpyPrm(1, s, 0, d);
    c.executed();
    c.state(mc::mix(size_t(a), size_t(b)));
    if (!(p == p0)) c.fail("absent", "source changed");
    if (!(a == 0 && b == 0) && !(q == q0)) c.fail("absent", "destination changed although there is no source");
}
// Containers of many traces
SCENARIO(many)
{
    int rk   = c.pick(NRULES, "rule");
    size_t n = c.of(std::vector<size_t>{64, 127, 128, 255, 256, 257, 1000, 1024, 1025, 4099, 70000}, "traces");
    int rev  = c.pick(2, "order");
    if (!c.go()) return;
    auto r = rule(rk);
    Param p(r, n);
    std::vector<Meta> U;
    for (Meta m : universe())
        if (entry(*r, m) && kind(entry(*r, m)) != FT(99)) U.push_back(m);
    if (p.size() != n) return c.fail("many", "a container for " + S(n) + " traces has the size " + S(p.size()));
    // a few parameters of a large container, all of others
    size_t few = n > 5000 ? 3 : U.size();
    auto val   = [&](size_t i, size_t k) {
        auto vs_ = values(kind(entry(*r, U[k])));
        auto v   = vs_[(i * 5 + k) % vs_.size()];
        if (v.t == 0 && kind(entry(*r, U[k])) == FT::Int) v.l = v.l / 2 + (long long)i;
        return v;
    };
    for (size_t q = 0; q < n; q++)
        for (size_t k = 0; k < std::min(few, U.size()); k++) {
            size_t i = rev ? n - 1 - q : q;
            set_val(p, i, U[k], val(i, k));
        }
    for (size_t i = 0; i < n; i++)
        for (size_t k = 0; k < std::min(few, U.size()); k++) {
            std::string e = check_get(p, i, U[k], kind(entry(*r, U[k])), cell_of(kind(entry(*r, U[k])), val(i, k)));
            if (!e.empty()) return c.fail("many", "rule " + S(rk) + ", " + S(n) + " traces: " + e);
        }
    c.executed();
    c.transitions(2 * n * few);
    c.state(mc::mix(n, size_t(rk)));
    // copies from and to every boundary
    fill(p, 7);
    Param q(r, n), z(r, n);
    size_t at[] = {0, 1, 63, 64, 127, 128, 255, 256, 257, 1023, 1024, 4096, 32767, 32768, 65535, 65536, n - 1};
    for (size_t i : at)
        for (size_t j : at) {
            if (i >= n || j >= n) continue;
            param_utils::cpyPrm(i, &p, j, &q);
            std::string e = same_entry(p, i, q, j);
            if (!e.empty()) return c.fail("many", "rule " + S(rk) + ", from trace " + S(i) + " to " + S(j) + " of " + S(n) + ": " + e);
            c.transitions(1);
        }
    for (size_t j = 0; j < n; j++) {
        bool hit = false;
        for (size_t a : at) hit = hit || a == j;
        std::string e = hit ? "" : same_entry(z, j, q, j);
        if (!e.empty()) return c.fail("many", "rule " + S(rk) + ": copies changed trace " + S(j) + " of " + S(n) + ": " + e);
    }
}
// Containers are equal exactly if all they hold is equal
SCENARIO(equality)
{
    int rk = c.pick(NRULES, "rule");
    int n  = c.range(1, 4, "traces");
    if (!c.go()) return;
    auto r = rule(rk);
    Param p(r, size_t(n)), q(rule(rk), size_t(n));
    fill(p, 3);
    fill(q, 3);
    auto expect = [&](bool eq, const std::string& w) {
        c.executed();
        c.state(mc::hash_bytes(w.data(), w.size()) + size_t(rk * 8 + n));
        if ((p == q) != eq || (p != q) == eq || (q == p) != eq || (q != p) == eq) c.fail("equality", "rule " + S(rk) + ", " + S(n) + " traces: containers with " + w + " are " + (eq ? "not " : "") + "equal");
    };
    expect(true, "the same contents");
    for (size_t k = 0; k < p.f.size(); k++) p.f[k] += 0.5, expect(false, "another floating-point value " + S(k)), p.f[k] = q.f[k];
    for (size_t k = 0; k < p.i.size(); k++) p.i[k] ^= 1LL << (k % 63), expect(false, "another integer " + S(k)), p.i[k] = q.i[k];
    for (size_t k = 0; k < p.s.size(); k++) p.s[k] = int16_t(p.s[k] ^ (1 << k % 15)), expect(false, "another short " + S(k)), p.s[k] = q.s[k];
    for (size_t k = 0; k < p.t.size(); k++) p.t[k] ^= size_t(1) << (k % 64), expect(false, "another index " + S(k)), p.t[k] = q.t[k];
    for (size_t k = 0; k < p.c.size(); k++) p.c[k] = uc(p.c[k] ^ (1 << k % 8)), expect(false, "another raw byte " + S(k)), p.c[k] = q.c[k];
    expect(true, "the same contents again");
    Param s = p;
    q       = s;
    expect(true, "the contents of a copy");
    if (n > 1) {
        q = Param(r, size_t(n - 1));
        fill(q, 3);
        expect(false, "fewer traces");
    }
}
