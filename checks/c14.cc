// C14: the parallel sort over every division of small trace lists and every
// assignment of keys, against a sequential reference.
#include "common.hh"
#include "ExSeisDat/PIOL/operations/sort.hh"
#include "ExSeisDat/PIOL/SortType.h"
using namespace cm;

struct T {
    double sx = 0, sy = 0, rx = 0, ry = 0;
    long long off = 0, il = 0, xl = 0;
    size_t ltn = 0;
};
static const SortType types[] = {PIOL_SORTTYPE_SrcRcv, PIOL_SORTTYPE_SrcOff, PIOL_SORTTYPE_SrcROff, PIOL_SORTTYPE_RcvOff, PIOL_SORTTYPE_RcvROff, PIOL_SORTTYPE_LineOff, PIOL_SORTTYPE_LineROff, PIOL_SORTTYPE_OffLine, PIOL_SORTTYPE_ROffLine};
static const char* tname[]    = {"SrcRcv", "SrcOff", "SrcROff", "RcvOff", "RcvROff", "LineOff", "LineROff", "OffLine", "ROffLine"};

// the keys, most significant first
static std::vector<double> keys(int ty, const T& t)
{
    double calc = (t.sx - t.rx) * (t.sx - t.rx) + (t.sy - t.ry) * (t.sy - t.ry), rd = double(t.off);
    double il = double(t.il), xl = double(t.xl);
    switch (ty) {
        case 0: return {t.sx, t.sy, t.rx, t.ry};
        case 1: return {t.sx, t.sy, calc};
        case 2: return {t.sx, t.sy, rd};
        case 3: return {t.rx, t.ry, calc};
        case 4: return {t.rx, t.ry, rd};
        case 5: return {il, xl, calc};
        case 6: return {il, xl, rd};
        case 7: return {calc, il, xl};
        default: return {rd, il, xl};
    }
}
static void put(Param& p, size_t i, const T& t, size_t gtn)
{
    using namespace param_utils;
    setPrm(i, PIOL_META_xSrc, t.sx, &p);
    setPrm(i, PIOL_META_ySrc, t.sy, &p);
    setPrm(i, PIOL_META_xRcv, t.rx, &p);
    setPrm(i, PIOL_META_yRcv, t.ry, &p);
    setPrm(i, PIOL_META_xCmp, double(gtn) * 3 + 1, &p);
    setPrm(i, PIOL_META_Offset, Integer(t.off), &p);
    setPrm(i, PIOL_META_il, Integer(t.il), &p);
    setPrm(i, PIOL_META_xl, Integer(t.xl), &p);
    setPrm(i, PIOL_META_tn, Integer(gtn + 100), &p);
    setPrm(i, PIOL_META_ltn, t.ltn, &p);
    setPrm(i, PIOL_META_gtn, gtn, &p);
}
// the entry is exactly trace gtn
static bool is(const Param& p, size_t i, const T& t, size_t gtn)
{
    using namespace param_utils;
    return getPrm<Floating_point>(i, PIOL_META_xSrc, &p) == t.sx && getPrm<Floating_point>(i, PIOL_META_ySrc, &p) == t.sy && getPrm<Floating_point>(i, PIOL_META_xRcv, &p) == t.rx && getPrm<Floating_point>(i, PIOL_META_yRcv, &p) == t.ry
           && getPrm<Floating_point>(i, PIOL_META_xCmp, &p) == double(gtn) * 3 + 1 && getPrm<Integer>(i, PIOL_META_Offset, &p) == t.off && getPrm<Integer>(i, PIOL_META_il, &p) == t.il && getPrm<Integer>(i, PIOL_META_xl, &p) == t.xl
           && getPrm<Integer>(i, PIOL_META_tn, &p) == Integer(gtn + 100) && getPrm<size_t>(i, PIOL_META_ltn, &p) == t.ltn && getPrm<size_t>(i, PIOL_META_gtn, &p) == gtn;
}
struct Out {
    std::vector<size_t> order, where;  // order[k]: trace at position k; where[g]: position of trace g
    std::string err;
    bool ok = false;
};
static std::shared_ptr<Rule> rule(bool copy)
{
    auto r = std::make_shared<Rule>(true, true);
    if (copy) {
        r->addShort(PIOL_META_Tic, PIOL_TR_TIC);
        r->addCopy();
    }
    return r;
}
// Sort the traces in the given shares; both result forms.
static Out do_sort(mc::Case& c, const std::vector<T>& t, const std::vector<size_t>& sh, int ty, mc::Config cfg = {}, bool other_comp = false)
{
    Out o;
    size_t n   = t.size();
    cfg.nranks = int(sh.size());
    auto of    = offs_of(sh);
    std::vector<std::vector<size_t>> a(sh.size()), b(sh.size());
    std::vector<std::string> err(sh.size());
    auto body = [&](int rank) {
        auto piol = ExSeis::New();
        size_t r  = size_t(rank);
        for (int form = 0; form < 2; form++) {
            Param p(rule(false), sh[r]);
            for (size_t i = 0; i < sh[r]; i++) put(p, i, t[of[r] + i], of[r] + i);
            CompareP cmp = getComp(types[ty]);
            if (other_comp)
                cmp = [](const Param* q, const size_t i, const size_t j) { return param_utils::getPrm<Floating_point>(i, PIOL_META_xSrc, q) < param_utils::getPrm<Floating_point>(j, PIOL_META_xSrc, q); };
            std::vector<size_t> l;
            if (form == 0 && !other_comp) l = exseis::PIOL::sort(piol.get(), types[ty], &p);
            else l = exseis::PIOL::sort(piol.get(), &p, cmp, form == 0);
            (form == 0 ? b : a)[r] = l;
            // the parameters are those of the traces now held
            if (p.size() != sh[r]) err[r] = "the number of parameters changed";
            for (size_t i = 0; i < sh[r] && err[r].empty(); i++) {
                size_t g = param_utils::getPrm<size_t>(i, PIOL_META_gtn, &p);
                if (g >= n || !is(p, i, t[g], g)) err[r] = "sorted entry " + S(of[r] + i) + " is not one of the traces";
                if (form == 1 && l.size() > i && l[i] != g) err[r] = "the returned trace number differs from the sorted entry";
            }
        }
        if (piol->log->isErr()) err[r] = "an error is reported";
    };
    mc::Result r = mc::run_case(c, cfg, body);
    for (auto& e : err)
        if (!e.empty() && o.err.empty()) o.err = e;
    if (r.status != mc::Status::Done) return o;
    for (size_t k = 0; k < sh.size(); k++) {
        if ((a[k].size() != sh[k] || b[k].size() != sh[k]) && o.err.empty()) o.err = "process " + S(k) + " gets " + S(a[k].size()) + "/" + S(b[k].size()) + " numbers for " + S(sh[k]) + " traces";
        o.order.insert(o.order.end(), a[k].begin(), a[k].end());
        o.where.insert(o.where.end(), b[k].begin(), b[k].end());
    }
    o.ok = true;
    return o;
}
static std::string check(const Out& o, const std::vector<T>& t, int ty, bool other_comp = false)
{
    size_t n = t.size();
    if (!o.err.empty()) return o.err;
    if (!o.ok) return "";
    if (o.order.size() != n || o.where.size() != n) return "wrong number of results";
    std::vector<int> seen(n, 0);
    for (auto g : o.order) {
        if (g >= n || seen[g]++) return "not a permutation: " + vs(o.order);
    }
    for (size_t k = 0; k < n; k++)
        if (o.where[o.order[k]] != k) return "positions " + vs(o.where) + " do not invert the order " + vs(o.order);
    for (size_t k = 1; k < n; k++) {
        auto &a = t[o.order[k - 1]], &b = t[o.order[k]];
        auto ka = keys(ty, a), kb = keys(ty, b);
        if (other_comp) ka = {a.sx}, kb = {b.sx};
        if (ka > kb) return "traces " + S(o.order[k - 1]) + " and " + S(o.order[k]) + " are out of order: " + vs(o.order);
        if (!other_comp && ka == kb && a.ltn > b.ltn) return "equal traces " + S(o.order[k - 1]) + " and " + S(o.order[k]) + " are not in input order: " + vs(o.order);
    }
    return "";
}
static uint64_t htr(const std::vector<T>& t, const std::vector<size_t>& sh, int ty)
{
    uint64_t h = size_t(ty);
    for (auto& x : t) h = mc::mix(h, mc::hash_bytes(&x, sizeof x));
    for (auto s : sh) h = mc::mix(h, s);
    return h;
}
// Compare with the result of one process.
static void judge(mc::Case& c, const std::vector<T>& t, const std::vector<size_t>& sh, int ty, const Out& one, bool other = false)
{
    if (c.failed()) return;
    Out o           = do_sort(c, t, sh, ty, {}, other);
    std::string e   = check(o, t, ty, other);
    std::string at_ = std::string(tname[ty]) + " of " + S(t.size()) + " traces, shares " + vs(sh);
    c.state(htr(t, sh, ty));
    c.outcome(mc::hash_bytes(o.order.data(), o.order.size() * 8));
    if (!e.empty()) c.fail("order", at_ + ": " + e);
    else if (o.ok && one.ok && o.order != one.order) c.fail("shares", at_ + ": order " + vs(o.order) + " differs from that of one process " + vs(one.order));
}

// Every relation between two traces in every field, every sort type, alone
// and one per process.
SCENARIO(comparators)
{
    int ty = c.pick(9, "type"), base = c.pick(5, "base"), r0 = c.pick(9, "relations");
    if (!c.go()) return;
    static const double bs[5] = {0, 1000, -3, 1e9, 0.25};
    for (int m = 0; m < 729; m++) {
        int code = r0 * 729 + m;
        T a, b;
        auto two = [&](auto& x, auto& y, double d) {
            int k = code % 3;
            code /= 3;
            x = std::decay_t<decltype(x)>(bs[base] + d);
            y = std::decay_t<decltype(x)>(bs[base] + d + (k - 1) * (d + 1));
        };
        two(a.sx, b.sx, 0);
        two(a.sy, b.sy, 1);
        two(a.rx, b.rx, 2);
        two(a.ry, b.ry, 3);
        two(a.off, b.off, 0);
        two(a.il, b.il, 1);
        two(a.xl, b.xl, 2);
        int k = code % 3;
        a.ltn = 5;
        b.ltn = size_t(4 + k);
        std::vector<T> t{a, b};
        Out one       = do_sort(c, t, {2}, ty);
        std::string e = check(one, t, ty);
        c.state(htr(t, {2}, ty));
        c.outcome(mc::hash_bytes(one.order.data(), one.order.size() * 8));
        if (!e.empty()) c.fail("compare", std::string(tname[ty]) + ": " + e + " relation " + S(r0 * 729 + m));
        // and three: transitivity over a permuted copy
        T d   = a;
        d.ltn = 9;
        std::vector<T> u{d, b, a};
        Out three = do_sort(c, u, {3}, ty);
        e         = check(three, u, ty);
        if (!e.empty()) c.fail("compare", std::string(tname[ty]) + " of three: " + e + " relation " + S(r0 * 729 + m));
        if (c.failed()) return;
    }
}
// Keys which differ little, or beyond 16 and 32 bits, in one field at a time.
SCENARIO(wide)
{
    static const std::vector<double> co{0, 0.5, 0.25, 100000.5, 100000.25, 3000000, 3000001, -2147483648., 2147483647, 0.01};
    static const std::vector<long long> in{0, 1, -1, 32768, 65536, 65537, -32769, 2147483647, -2147483648LL};
    int ty = c.pick(9, "type"), field = c.pick(7, "field"), shared = c.pick(10, "shared");
    if (!c.go()) return;
    bool fl = field < 4;
    if (!fl && shared) return;
    size_t nv = fl ? co.size() : in.size();
    for (size_t code = 0; code < nv * nv && !c.failed(); code++) {
        size_t i = code % nv, j = code / nv;
        std::vector<T> t(2);
        t[0].ltn = 1;
        t[1].ltn = 0;
        for (auto& x : t) x.sx = x.sy = x.rx = x.ry = co[size_t(shared)];
        double* f[2][4]    = {{&t[0].sx, &t[0].sy, &t[0].rx, &t[0].ry}, {&t[1].sx, &t[1].sy, &t[1].rx, &t[1].ry}};
        long long* g[2][3] = {{&t[0].off, &t[0].il, &t[0].xl}, {&t[1].off, &t[1].il, &t[1].xl}};
        if (fl) *f[0][field] = co[i], *f[1][field] = co[j];
        else *g[0][field - 4] = in[i], *g[1][field - 4] = in[j];
        Out one       = do_sort(c, t, {2}, ty);
        std::string e = check(one, t, ty);
        c.state(htr(t, {2}, ty));
        c.outcome(mc::hash_bytes(one.order.data(), one.order.size() * 8));
        if (!e.empty()) c.fail("compare", std::string(tname[ty]) + ", field " + S(field) + " is " + (fl ? std::to_string(co[i]) + " and " + std::to_string(co[j]) : S(in[i]) + " and " + S(in[j])) + ": " + e);
        else if (code % 7 == 0) judge(c, t, {1, 1}, ty, one);
    }
}
// Every division of up to 6 (8) traces over 2-4 processes x every vector of
// three key values.
static void key_box(mc::Case& c, int n, int nr, int ty)
{
    std::vector<std::vector<size_t>> all;
    all_shares(size_t(n), nr, all);
    auto sh = pickv(c, all, "shares");
    if (!c.go()) return;
    int nk = 1;
    for (int k = 0; k < n; k++) nk *= n > 5 ? 2 : 3;
    int base = n > 5 ? 2 : 3;
    for (int code = 0; code < nk && !c.failed(); code++) {
        std::vector<T> t(static_cast<size_t>(n));
        int x = code;
        for (int k = 0; k < n; k++) {
            double key = x % base;
            x /= base;
            T& q  = t[size_t(k)];
            q.sx  = key;
            q.rx  = key * 2 + 1;
            q.off = (long long)key - 1;
            q.il  = 2 - (long long)key;
            q.ltn = size_t(k);
        }
        Out one = do_sort(c, t, {size_t(n)}, ty);
        judge(c, t, sh, ty, one);
    }
}
SCENARIO(shares_small)
{
    int n  = c.range(0, 5, "traces");
    int nr = c.range(2, 4, "ranks");
    int ty = c.of<int>({0, 4, 6, 8}, "type");
    if (nr == 4 && n == 5) ty = 0;
    key_box(c, n, nr, ty);
}
SCENARIO(shares_more)
{
    int n  = c.range(6, c.thorough() ? 9 : 7, "traces");
    int nr = c.range(2, 3, "ranks");
    key_box(c, n, nr, 0);
}
// Every permutation of distinct keys.
SCENARIO(permutations)
{
    int n  = c.range(2, c.thorough() ? 7 : 6, "traces");
    int nr = c.range(2, 4, "ranks");
    int f0 = c.pick(n, "first");
    std::vector<std::vector<size_t>> all;
    all_shares(size_t(n), nr, all);
    // all divisions for small n, else those with extreme shares
    if (n > 5) {
        std::vector<std::vector<size_t>> f;
        for (auto& s : all)
            if (*std::min_element(s.begin(), s.end()) <= 1 && *std::max_element(s.begin(), s.end()) + 3 >= size_t(n)) f.push_back(s);
        size_t lim = n > 6 ? 8 : 12;
        std::vector<std::vector<size_t>> g;
        for (size_t k = 0; k < f.size(); k += (f.size() + lim - 1) / lim) g.push_back(f[k]);
        all = g;
    }
    auto sh = pickv(c, all, "shares");
    if (!c.go()) return;
    std::vector<size_t> p{size_t(f0)};
    for (size_t k = 0; k < size_t(n); k++)
        if (k != size_t(f0)) p.push_back(k);
    do {
        std::vector<T> t(p.size());
        for (size_t k = 0; k < p.size(); k++) {
            t[k].sx = t[k].sy = double(p[k]);
            t[k].ltn          = k;
        }
        Out one;
        judge(c, t, sh, 0, one);
    } while (!c.failed() && std::next_permutation(p.begin() + 1, p.end()));
}
// Larger lists: shares of 1..40 traces in several arrangements, including
// reverse order (every trace moves) and complete ties.
SCENARIO(large)
{
    int nr   = c.of(std::vector<int>{1, 2, 3, 4, 5, 8}, "ranks");
    int div  = c.pick(11, "division");
    int kind = c.pick(7, "keys");
    int ty   = c.of<int>({0, 3, 5, 8}, "type");
    if (!c.go()) return;
    // (traces move a few places in each round when shares are uneven)
    if (nr == 8 && (div == 5 || div == 7)) return;
    std::vector<size_t> sh(static_cast<size_t>(nr));
    for (int r = 0; r < nr; r++) {
        size_t s = 0;
        switch (div) {
            case 0: s = 20; break;
            case 1: s = r == 0 ? 40 : 1; break;
            case 2: s = r == nr - 1 ? 40 : 1; break;
            case 3: s = r % 2 ? 0 : 25; break;
            case 4: s = r % 2 ? 25 : 0; break;
            case 5: s = size_t(4 + 9 * r); break;
            case 6: s = r == nr / 2 ? 60 : 0; break;
            case 7: s = r < 5 ? size_t(33 - 7 * r) : size_t(3); break;
            case 8: s = 129; break;
            case 9: s = nr == 1 ? 4099 : nr == 2 ? 257 : 65; break;
            default: s = r % 3 ? 64 : 100; break;
        }
        sh[size_t(r)] = s;
    }
    size_t n = std::accumulate(sh.begin(), sh.end(), size_t(0));
    std::vector<T> t(n);
    for (size_t k = 0; k < n; k++) {
        double key = 0;
        switch (kind) {
            case 0: key = double(n - k); break;
            case 1: key = double(k); break;
            case 2: key = 7; break;
            case 3: key = double((k * 37) % (n | 1)); break;
            case 4: key = double(k % 3); break;
            case 5: key = k == 0 ? 1e6 : k + 1 == n ? -1e6 : double(k); break;
            default: key = double(k % 2); break;
        }
        T& q  = t[k];
        q.sx  = key;
        q.rx  = -key;
        q.il  = (long long)key;
        q.off = (long long)key;
        // kind 6: nothing tells equal traces apart
        q.ltn = kind == 6 || kind == 2 ? 0 : k;
    }
    Out one       = do_sort(c, t, {n}, ty);
    std::string e = check(one, t, ty);
    if (!e.empty()) c.fail("order", std::string(tname[ty]) + " on one process: " + e);
    if (nr > 1) judge(c, t, sh, ty, one);
    else c.state(htr(t, sh, ty));
}
// A comparison given by the caller that leaves ties.
SCENARIO(custom)
{
    int n  = c.range(2, 5, "traces");
    int nr = c.range(2, 3, "ranks");
    std::vector<std::vector<size_t>> all;
    all_shares(size_t(n), nr, all);
    auto sh = pickv(c, all, "shares");
    if (!c.go()) return;
    for (int code = 0; code < (1 << n) && !c.failed(); code++) {
        std::vector<T> t(static_cast<size_t>(n));
        for (int k = 0; k < n; k++) t[size_t(k)].sx = (code >> k) & 1;
        Out one = do_sort(c, t, {size_t(n)}, 0, {}, true);
        judge(c, t, sh, 0, one, true);
    }
}
// Every schedule with up to 2 (3) preemptions of a three-process sort.
SCENARIO(schedules)
{
    int div  = c.pick(3, "division"), kind = c.pick(3, "keys");
    if (!c.go()) return;
    std::vector<size_t> sh = div == 0 ? std::vector<size_t>{2, 2, 2} : div == 1 ? std::vector<size_t>{4, 4} : std::vector<size_t>{1, 0, 3};
    auto of                = offs_of(sh);
    size_t n               = 0;
    for (auto s : sh) n += s;
    std::vector<T> t(n);
    for (size_t k = 0; k < n; k++) {
        t[k].sx  = kind == 0 ? double(n - k) : kind == 1 ? double(k * 5 % 7) : double(k % 2);
        t[k].ltn = k;
    }
    Out one = do_sort(c, t, {n}, 0);
    mc::Config cfg;
    cfg.nranks           = int(sh.size());
    cfg.explore_sched    = true;
    cfg.bound[mc::SCHED] = c.thorough() ? 2 : 1;
    std::vector<std::vector<size_t>> a;
    mc::explore_case(
      c, cfg, [&]() { a.assign(sh.size(), {}); },
      [&](int rank) {
          auto piol = ExSeis::New();
          size_t r  = size_t(rank);
          Param p(rule(false), sh[r]);
          for (size_t i = 0; i < sh[r]; i++) put(p, i, t[of[r] + i], of[r] + i);
          a[r] = exseis::PIOL::sort(piol.get(), &p, getComp(types[0]), false);
      },
      [&](const mc::Result& r) {
          if (r.status != mc::Status::Done) {
              c.fail("run", std::string(mc::status_name(r.status)) + ": " + r.msg);
              return;
          }
          std::vector<size_t> o;
          for (auto& x : a) o.insert(o.end(), x.begin(), x.end());
          c.outcome(mc::hash_bytes(o.data(), o.size() * 8));
          if (o != one.order) c.fail("schedule", "order " + vs(o) + " under some schedule, " + vs(one.order) + " on one process");
      });
}
// Parameters that carry the raw headers: they travel with their trace.
SCENARIO(raw_headers)
{
    int n  = c.range(1, c.thorough() ? 6 : 5, "traces");
    int nr = c.range(1, 3, "ranks");
    std::vector<std::vector<size_t>> all;
    all_shares(size_t(n), nr, all);
    auto sh = pickv(c, all, "shares");
    if (!c.go()) return;
    int nk = 1;
    for (int k = 0; k < n; k++) nk *= 3;
    auto of = offs_of(sh);
    for (int code = 0; code < nk && !c.failed(); code += n > 4 ? 2 : 1) {
        std::vector<T> t(static_cast<size_t>(n));
        int x = code;
        for (int k = 0; k < n; k++, x /= 3) t[size_t(k)].sx = x % 3, t[size_t(k)].ltn = size_t(k);
        mc::Config cfg;
        cfg.nranks = nr;
        std::vector<std::string> err(size_t(nr), "");
        std::vector<std::vector<size_t>> got(static_cast<size_t>(nr));
        mc::run_case(c, cfg, [&](int rank) {
            auto piol = ExSeis::New();
            size_t r  = size_t(rank);
            Param p(rule(true), sh[r]);
            for (size_t i = 0; i < sh[r]; i++) {
                size_t g = of[r] + i;
                for (size_t b = 0; b < 240; b++) p.c[i * 240 + b] = uc(g * 61 + b * 7 + 1);
                put(p, i, t[g], g);
                param_utils::setPrm(i, PIOL_META_Tic, Integer(g + 3), &p);
            }
            got[r] = exseis::PIOL::sort(piol.get(), &p, getComp(PIOL_SORTTYPE_SrcRcv), false);
            for (size_t i = 0; i < got[r].size(); i++) {
                size_t g = got[r][i];
                if (g >= t.size() || !is(p, i, t[g], g) || param_utils::getPrm<Integer>(i, PIOL_META_Tic, &p) != Integer(g + 3)) err[r] = "the parameters of entry " + S(i) + " are not those of trace " + S(g);
                for (size_t b = 0; b < 240 && err[r].empty(); b++)
                    if (p.c[i * 240 + b] != uc(g * 61 + b * 7 + 1)) err[r] = "raw header byte " + S(b) + " of entry " + S(of[r] + i) + " is not that of trace " + S(g);
            }
        });
        if (c.failed()) return;
        Out o;
        for (auto& g : got) o.order.insert(o.order.end(), g.begin(), g.end());
        o.where.resize(o.order.size());
        for (size_t k = 0; k < o.order.size(); k++)
            if (o.order[k] < o.where.size()) o.where[o.order[k]] = k;
        o.ok = true;
        for (auto& e : err)
            if (!e.empty()) o.err = e;
        std::string e = check(o, t, 0);
        c.state(htr(t, sh, 100));
        c.outcome(mc::hash_bytes(o.order.data(), o.order.size() * 8));
        if (!e.empty()) c.fail("raw", S(n) + " traces, shares " + vs(sh) + ": " + e);
    }
}
// The order check of files agrees with the keys.
SCENARIO(check_order)
{
    int ty = c.pick(9, "type"), n = c.range(0, 4, "traces"), nr = c.range(1, 2, "ranks");
    if (!c.go()) return;
    int nk = 1;
    for (int k = 0; k < n; k++) nk *= 3;
    for (int code = 0; code < nk && !c.failed(); code++) {
        std::vector<T> t(static_cast<size_t>(n));
        int x = code;
        for (auto& q : t) {
            int k = x % 3;
            x /= 3;
            q.sx  = k;
            q.rx  = 3 * k;
            q.off = k;
            q.il  = k;
            q.xl  = 1;
        }
        auto& f = mc::fs()["order.segy"];
        put_file(f, ho_bytes("C", 0, 1000, 5, true), size_t(n), 0, [&](size_t i, uc* h) {
            put32(h + 72, uint32_t(int(t[i].sx)));
            put32(h + 80, uint32_t(int(t[i].rx)));
            put32(h + 36, uint32_t(int(t[i].off)));
            put32(h + 188, uint32_t(int(t[i].il)));
            put32(h + 192, 1);
        }, [](size_t, size_t) { return 0u; });
        mc::Config cfg;
        cfg.nranks = nr;
        std::vector<int> got(static_cast<size_t>(nr), -1);
        mc::run_case(c, cfg, [&](int rank) {
            auto piol = ExSeis::New();
            ReadDirect in(piol, "order.segy");
            size_t h = size_t(n) / 2;
            exseis::utils::Contiguous_decomposition d(nr == 1 ? 0 : rank ? h : 0, nr == 1 ? size_t(n) : rank ? size_t(n) - h : h);
            ReadInterface* ri = in;
            got[size_t(rank)] = checkOrder(ri, d, types[ty]);
        });
        for (int rank = 0; rank < nr; rank++) {
            size_t h = size_t(n) / 2, lo = nr == 1 ? 0 : rank ? h : 0, sz = nr == 1 ? size_t(n) : rank ? size_t(n) - h : h;
            bool want = true;
            for (size_t k = lo + 1; k < lo + sz; k++) want &= keys(ty, t[k - 1]) <= keys(ty, t[k]);
            if (got[size_t(rank)] != int(want)) c.fail("checkorder", std::string(tname[ty]) + ": the order check of " + S(sz) + " traces says " + S(got[size_t(rank)]));
        }
        c.state(mc::mix(size_t(ty * 8 + n), size_t(code * 4 + nr)));
    }
    c.outcome(size_t(ty));
}
// Index sort of a list of offsets.
SCENARIO(index)
{
    int n = c.range(0, 6, "length");
    if (!c.go()) return;
    size_t nk = 1;
    for (int k = 0; k < n; k++) nk *= 4;
    static const size_t val[4] = {0, 1, 5, ~size_t(0)};
    for (size_t code = 0; code < nk; code++) {
        std::vector<size_t> v;
        size_t x = code;
        for (int k = 0; k < n; k++) {
            v.push_back(val[x % 4]);
            x /= 4;
        }
        auto idx = getSortIndex(size_t(n), v.data());
        c.executed();
        c.state(mc::mix(size_t(n), code));
        std::vector<int> seen(size_t(n), 0);
        std::string e;
        if (idx.size() != size_t(n)) e = "wrong length";
        for (size_t k = 0; k < idx.size() && e.empty(); k++) {
            if (idx[k] >= size_t(n) || seen[idx[k]]++) e = "not a permutation";
            else if (k && v[idx[k - 1]] > v[idx[k]]) e = "not sorted";
        }
        if (!e.empty()) {
            c.fail("index", vs(v) + ": " + e);
            return;
        }
    }
    c.transitions(nk);
    c.outcome(nk);
}
