// C01: the closed file is exactly the SEG-Y bytes that were asked for.
// Reference model: a table of trace headers and samples edited one trace at a
// time, serialised according to the SEG-Y revision 1 standard.
#include "common.hh"
using namespace cm;

static const char* FN = "written.segy";

enum K { TRACE, TRCONLY, PARAM, LTRACE, LTRC, LPARAM, NT, TEXT, INC };
static const char* kn[] = {"writeTrace+params", "writeTrace", "writeParam", "list writeTrace+params", "list writeTrace", "list writeParam", "writeNt", "writeText", "writeInc"};
struct Op {
    K k;
    std::vector<size_t> off, sz;  // per rank (contiguous)
    std::vector<Off> list;        // per rank
    size_t skip = 0, v = 0;
    std::string text;
    std::string str() const
    {
        std::string s = std::string(kn[k]);
        for (size_t r = 0; r < off.size(); r++) s += " r" + S(r) + ":" + S(off[r]) + "+" + S(sz[r]);
        for (auto& l : list) s += " " + vs(l);
        return s + " skip=" + S(skip) + " v=" + S(v);
    }
    bool islist() const { return k >= LTRACE && k <= LPARAM; }
    bool data() const { return k <= LPARAM; }
    bool trc() const { return k == TRACE || k == TRCONLY || k == LTRACE || k == LTRC; }
    bool prm() const { return k == TRACE || k == PARAM || k == LTRACE || k == LPARAM; }
    Off want(int r) const
    {
        if (islist()) return list[size_t(r)];
        Off o;
        for (size_t i = 0; i < sz[size_t(r)]; i++) o.push_back(off[size_t(r)] + i);
        return o;
    }
};
enum RK { DEF, EXTRA, COPYR, FEW };
static std::shared_ptr<Rule> make_rule(int k)
{
    switch (k) {
        default:
        case DEF: return std::make_shared<Rule>(true, true);
        case EXTRA: return std::make_shared<Rule>(true, true, true);
        case COPYR: {
            auto r = std::make_shared<Rule>(true, true);
            r->addCopy();
            return r;
        }
        case FEW: return std::make_shared<Rule>(std::vector<Meta>{PIOL_META_il, PIOL_META_Tic, PIOL_META_WtrDepSrc});
    }
}
static std::vector<Meta> rule_metas(int k)
{
    std::vector<Meta> m = default_metas();
    if (k == EXTRA)
        for (auto x : extra_metas()) m.push_back(x);
    if (k == FEW) m = {PIOL_META_il, PIOL_META_Tic, PIOL_META_WtrDepSrc};
    return m;
}
static double value(const Field& f, size_t tr, int op)
{
    uint64_t h = mc::mix(tr * 64 + size_t(op), size_t(f.m));
    switch (f.t) {
        case FT::Int: return double(int32_t(h >> 16));
        case FT::Short: return double(int16_t(h >> 16));
        default: {
            // all values of one scalar group have the same number of decimals
            static const double dec[] = {1, 10, 100, 1000};
            double d = dec[(tr + size_t(op) + size_t(f.scal)) % 4];
            return double(int64_t((h >> 20) % 2000001) - 1000000) * 4 / d / 4 + (d > 1 ? 1 / d : 0) * 0;
        }
    }
}
static uint32_t word(size_t tr, size_t k, int op)
{
    static const uint32_t sp[] = {0x7fc00001u, 0x7f800001u, 0xffc12345u, 0x80000000u, 0x00000001u, 0xff800000u};
    uint64_t h = mc::mix(tr * 1000 + k, size_t(op) + 99);
    return (h & 7) == 0 ? sp[(h >> 5) % 6] : uint32_t(h >> 7);
}
static uc copybyte(size_t tr, size_t b, int op) { return uc(mc::mix(tr * 300 + b, size_t(op) * 7) >> 11); }

static void execute(mc::Case& c, size_t ns, int nr, size_t maxSize, int rulek, bool direct, const SparseFile* pre, const std::vector<Op>& prog)
{
    mc::Config cfg;
    cfg.nranks       = nr;
    cfg.strict_races = true;
    std::vector<std::string> bad(size_t(nr), "");
    if (pre) mc::fs()[FN] = *pre;
    auto body = [&](int rank) {
        auto R = size_t(rank);
        std::shared_ptr<ExSeisPIOL> piol = ExSeis::New();
        {
            DataMPIIO::Opt opt;
            if (maxSize) opt.maxSize = maxSize;
            WriteSEGY::Opt fo;
            ObjectSEGY::Opt oo;
            std::unique_ptr<WriteDirect> wd(direct ? new WriteDirect(piol, FN) : new WriteDirect(piol, FN, opt, oo, fo));
            WriteInterface& f = *wd;
            f.writeNs(ns);
            int step = 0;
            for (auto& q : prog) {
                if (q.data()) {
                    Off w    = q.want(rank);
                    size_t n = w.size();
                    std::vector<float> tb(n * ns + 4);
                    std::vector<uint32_t> orig(tb.size(), 0xABCD1234u);
                    for (size_t i = 0; i < n * ns; i++) orig[i] = word(w[i / ns], i % ns, step);
                    memcpy(tb.data(), orig.data(), tb.size() * 4);
                    auto rule = make_rule(rulek);
                    Param p(rule, n + q.skip + 1);
                    for (auto& x : p.f) x = 55;
                    for (auto& x : p.i) x = 55;
                    for (auto& x : p.s) x = 55;
                    for (size_t i = 0; i < n; i++) {
                        for (auto m : rule_metas(rulek)) {
                            auto& fd = *field(m);
                            double v = value(fd, w[i], step);
                            if (fd.t == FT::Scaled) param_utils::setPrm(i + q.skip, m, v, &p);
                            else param_utils::setPrm(i + q.skip, m, (long long)v, &p);
                        }
                        param_utils::setPrm(i + q.skip, PIOL_META_ltn, size_t(4242), &p);
                        if (rulek == COPYR)
                            for (size_t b = 0; b < 240; b++) p.c[(i + q.skip) * 240 + b] = copybyte(w[i], b, step);
                    }
                    Param before = p;
                    float* tp = tb.data();
                    switch (q.k) {
                        case TRACE: q.skip || !direct ? f.writeTrace(q.off[R], n, tp, &p, q.skip) : wd->writeTrace(q.off[R], n, tp, &p); break;
                        case TRCONLY: direct ? wd->writeTrace(q.off[R], n, tp) : f.writeTrace(q.off[R], n, tp); break;
                        case PARAM: q.skip || !direct ? f.writeParam(q.off[R], n, &p, q.skip) : wd->writeParam(q.off[R], n, &p); break;
                        case LTRACE: q.skip || !direct ? f.writeTraceNonContiguous(n, w.data(), tp, &p, q.skip) : wd->writeTraceNonContiguous(n, w.data(), tp, &p); break;
                        case LTRC: direct ? wd->writeTraceNonContiguous(n, w.data(), tp) : f.writeTraceNonContiguous(n, w.data(), tp); break;
                        default: q.skip || !direct ? f.writeParamNonContiguous(n, w.data(), &p, q.skip) : wd->writeParamNonContiguous(n, w.data(), &p);
                    }
                    if (memcmp(tb.data(), orig.data(), tb.size() * 4) && bad[R].empty()) bad[R] = q.str() + ": the caller's trace buffer changed";
                    if (!(p == before) && bad[R].empty()) bad[R] = q.str() + ": the caller's parameters changed";
                }
                else if (q.k == NT) f.writeNt(q.v);
                else if (q.k == TEXT) f.writeText(q.text);
                else f.writeInc(double(q.v) * 1e-6);
                // a following call may rewrite the same traces from another
                // process: order the steps
                piol->comm->barrier();
                step++;
            }
        }
        if (piol->log->isErr() && bad[R].empty()) bad[R] = "an error was recorded";
    };
    auto r = mc::run_case(c, cfg, body);
    if (r.status != mc::Status::Done) {
        c.fail("run", std::string(mc::status_name(r.status)) + ": " + r.msg);
        return;
    }
    for (size_t i = 0; i < bad.size(); i++)
        if (!bad[i].empty()) c.fail("caller", "rank " + S(i) + ": " + bad[i]);
    if (!r.open_files.empty()) c.fail("open", "file left open");
    // reference model
    size_t nt = 0;
    std::map<size_t, RefTrace> tr;
    std::map<size_t, int> hset, dset;
    std::string text;
    size_t inc = 0;
    int step   = 0;
    bool truncated = false;
    for (auto& q : prog) {
        if (q.data()) {
            for (int rk = 0; rk < nr; rk++)
                for (size_t t : q.want(rk)) {
                    nt = std::max(nt, t + 1);
                    if (q.trc()) {
                        tr[t].d.assign(ns, 0);
                        for (size_t k = 0; k < ns; k++) tr[t].d[k] = word(t, k, step);
                        dset[t] = 1;
                    }
                    if (q.prm()) {
                        RefHdr h;
                        if (rulek == COPYR)
                            for (size_t b = 0; b < 240; b++) h.b[b] = copybyte(t, b, step);
                        for (auto m : rule_metas(rulek)) {
                            auto& fd = *field(m);
                            double v = value(fd, t, step);
                            if (fd.t == FT::Scaled) h.scaled[m] = v;
                            else if (fd.t == FT::Int) put32(&h.b[size_t(fd.loc - 1)], uint32_t(int32_t(v)));
                            else put16(&h.b[size_t(fd.loc - 1)], int(v));
                        }
                        tr[t].h = h;
                        hset[t] = 1;
                    }
                    c.transitions(1);
                }
        }
        else if (q.k == NT) nt = q.v;
        else if (q.k == TEXT) text = q.text;
        else inc = q.v;
        step++;
    }
    auto& got   = mc::fs()[FN];
    size_t dosz = 240 + 4 * ns;
    if (got.size != 3600 + nt * dosz) c.fail("size", "file size " + S(size_t(got.size)) + ", expected " + S(3600 + nt * dosz) + " for " + S(nt) + " traces");
    std::vector<uc> ho = ho_bytes(text, int(ns), int(inc), 5, true), gh(3600);
    got.read(0, gh.data(), 3600);
    for (size_t i = 0; i < 3600; i++)
        if (gh[i] != ho[i]) {
            c.fail(i < 3200 ? "text" : "binary-header", "file header byte " + S(i) + " is " + S(int(gh[i])) + ", expected " + S(int(ho[i])));
            break;
        }
    // every trace near a touched one, plus all if few
    std::set<size_t> look;
    for (auto& kv : tr)
        for (long long d = -2; d <= 2; d++)
            if ((long long)kv.first + d >= 0) look.insert(size_t((long long)kv.first + d));
    for (size_t i = 0; i < std::min<size_t>(nt, 24); i++) look.insert(i);
    std::vector<uc> g(dosz), z(dosz);
    for (size_t t : look) {
        if (t >= nt) continue;
        uint64_t at = 3600 + uint64_t(t) * dosz;
        got.read(at, g.data(), dosz);
        RefHdr h;
        if (hset[t]) h = tr[t].h;
        else if (pre) {
            // traces beyond the end of the final file were cut and zero-extended
            pre->read(at, h.b.data(), 240);
        }
        std::string m = cmp_hdr(h, g.data());
        if (!m.empty()) {
            c.fail("header", "trace " + S(t) + " header: " + m);
            return;
        }
        std::vector<uc> w(4 * ns);
        if (pre) pre->read(at + 240, w.data(), 4 * ns);
        if (dset[t])
            for (size_t k = 0; k < ns; k++) put32(&w[4 * k], tr[t].d[k]);
        for (size_t k = 0; k < 4 * ns; k++)
            if (w[k] != g[240 + k]) {
                c.fail("samples", "trace " + S(t) + " sample " + S(k / 4) + " byte " + S(k % 4) + " is " + S(int(g[240 + k])) + ", expected " + S(int(w[k])));
                return;
            }
    }
    (void)truncated;
    c.outcome(got.hash());
}

// divide n traces starting at o among ranks in style st
static Op contig(K k, size_t o, size_t n, int nr, int st)
{
    Op q;
    q.k = k;
    q.off.assign(size_t(nr), 0);
    q.sz.assign(size_t(nr), 0);
    auto R = size_t(nr);
    if (st == 0 || st == 1) {  // blocks in order / reversed order
        size_t a = o;
        for (size_t r = 0; r < R; r++) {
            size_t m  = n / R + (r < n % R);
            size_t rr = st ? R - 1 - r : r;
            q.off[rr] = a;
            q.sz[rr]  = m;
            a += m;
        }
    }
    else {  // all on first / last; idle processes give a far offset
        size_t w = st == 2 ? 0 : R - 1;
        for (size_t r = 0; r < R; r++) q.off[r] = r == w ? o : (st == 2 ? 0 : o + n + 7);
        q.sz[w] = n;
    }
    return q;
}
static Op listed(K k, size_t o, size_t n, int nr, int st)
{
    Op q;
    q.k = k;
    q.list.resize(size_t(nr));
    // traces o, o+1, o+3, o+4, o+6 ... dealt out
    for (size_t i = 0; i < n; i++) {
        size_t t = o + i + i / 2, R = size_t(nr);
        size_t r = st == 0 ? i * R / n : st == 1 ? i % R : st == 2 ? 0 : R - 1;
        q.list[r].push_back(t);
    }
    return q;
}
static Op pick_data(mc::Case& c, int nr, int lo, int hi, bool thorough)
{
    K k      = K(c.range(lo, hi, "op"));
    int st   = nr == 1 ? 0 : c.range(0, 3, "division");
    static const std::vector<std::pair<size_t, size_t>> rg{{0, 3}, {1, 2}, {2, 3}, {0, 0}, {4, 1}, {0, 5}};
    auto p   = rg[size_t(c.pick(thorough ? 6 : 5, "range"))];
    Op q     = k >= LTRACE ? listed(k, p.first, p.second, nr, st) : contig(k, p.first, p.second, nr, st);
    if (q.prm()) q.skip = (p.first + size_t(st)) % 2 ? 2 : 0;
    return q;
}
static size_t mx(size_t ns, int i)
{
    size_t d = 240 + 4 * ns;
    return std::vector<size_t>{2 * d, 5 * d + 3, size_t(1) << 30}[size_t(i)];
}

SCENARIO(pairs)
{
    int nr    = c.range(1, 3, "ranks");
    size_t ns = c.of(std::vector<size_t>{0, 1, 3}, "ns");
    int m     = c.pick(nr == 3 || !c.thorough() ? 2 : 3, "maxSize");
    Op a = pick_data(c, nr, 0, 5, c.thorough()), b = pick_data(c, nr, 0, 5, c.thorough());
    if (!c.go()) return;
    execute(c, ns, nr, mx(ns, m), DEF, false, nullptr, {a, b});
}
SCENARIO(rules)
{
    int nr    = c.range(1, 2, "ranks");
    size_t ns = c.of(std::vector<size_t>{1, 2}, "ns");
    int rk    = c.range(0, 3, "rule");
    int dir   = c.range(0, 1, "direct");
    int pre   = c.range(0, 2, "existing file");
    Op a = pick_data(c, nr, 0, 5, false);
    if (!c.go()) return;
    SparseFile p;
    if (pre) {
        std::vector<uc> j(3600 + (pre == 1 ? 12 : 1) * (240 + 4 * ns) + 5);
        for (size_t i = 0; i < j.size(); i++) j[i] = uc(1 + i % 251);
        p.write(0, j.data(), j.size());
    }
    execute(c, ns, nr, dir ? 0 : mx(ns, 0), rk, dir, pre ? &p : nullptr, {a});
}
static Op meta(mc::Case& c)
{
    Op q;
    q.k = K(c.range(NT, INC, "op"));
    if (q.k == NT) q.v = c.of(std::vector<size_t>{0, 1, 3, 4, 9}, "nt");
    if (q.k == INC) q.v = c.of(std::vector<size_t>{1, 4000, 32767}, "us");
    if (q.k == TEXT) {
        int t = c.pick(4, "text");
        q.text = t == 0 ? "" : t == 1 ? "C 1 short text" : std::string(t == 2 ? 3200 : 3300, 'x');
        for (size_t i = 0; i < q.text.size(); i++) q.text[i] = char(32 + (i * 7 + size_t(t)) % 95);
    }
    return q;
}
SCENARIO(headers)
{
    int nr    = c.range(1, 3, "ranks");
    size_t ns = c.of(std::vector<size_t>{0, 2, 32767}, "ns");
    int where = c.range(0, 2, "data op at");
    int haved = c.range(0, 6, "data");
    int pre   = where ? 0 : c.range(0, c.thorough() || ns == 2 ? 1 : 0, "existing file");
    Op d;
    if (haved < 6) d = haved >= 3 ? listed(K(haved), 1, 3, nr, 1) : contig(K(haved), 1, 3, nr, 3);
    Op a = meta(c), b = meta(c);
    if (!c.go()) return;
    std::vector<Op> p{a, b};
    if (haved < 6) p.insert(p.begin() + where, d);
    else if (where) return;
    SparseFile old;
    if (pre) {
        std::vector<uc> j(3600 + 12 * (240 + 4 * ns) + 5);
        for (size_t i = 0; i < j.size(); i++) j[i] = uc(1 + i % 251);
        old.write(0, j.data(), j.size());
    }
    execute(c, ns, nr, 0, DEF, false, pre ? &old : nullptr, p);
}
// every interval that the file header can hold, given in several ways
SCENARIO(intervals)
{
    const size_t B = 128;
    size_t b = size_t(c.range(0, 255, "128 intervals from")) * B;
    int form = c.range(0, 3, "form");
    if (!c.go()) return;
    mc::Config cfg;
    cfg.nranks = 1;
    auto interval = [&](size_t us) {
        switch (form) {
            case 0: return double(us) * 1e-6;
            case 1: return double(us) / 1e6;
            case 2: return double(float(double(us) / 1e6));
            default: return (double(us) - 0.375) * 1e-6;
        }
    };
    auto r = mc::run_case(c, cfg, [&](int) {
        auto piol = ExSeis::New();
        for (size_t us = b; us < b + B; us++) {
            if (!us) continue;
            WriteDirect wd(piol, "i" + S(us));
            wd.writeNs(1);
            wd.writeInc(interval(us));
        }
        if (piol->log->isErr()) c.fail("caller", "an error was recorded");
    });
    if (r.status != mc::Status::Done) {
        c.fail("run", std::string(mc::status_name(r.status)) + ": " + r.msg);
        return;
    }
    for (size_t us = b; us < b + B; us++) {
        if (!us) continue;
        uc g[2];
        mc::fs()["i" + S(us)].read(3216, g, 2);
        int v = g[0] * 256 + g[1];
        c.transitions(1);
        if (v != int(us)) {
            c.fail("interval", "the interval in the file is " + S(v) + " microseconds, expected " + S(us));
            break;
        }
    }
}
// positions around and beyond 2^31 and 2^32
SCENARIO(far)
{
    size_t ns   = c.of(std::vector<size_t>{1, 1000, 32767}, "ns");
    uint64_t at = c.of(std::vector<uint64_t>{(1ull << 31), (1ull << 32), (1ull << 33) + (1ull << 31), (1ull << 41)}, "byte");
    int nr      = c.range(1, 2, "ranks");
    K k         = K(c.range(0, 5, "op"));
    int st      = nr == 1 ? 0 : c.range(0, 3, "division");
    int rk      = c.range(0, 2, "rule");
    if (!c.go()) return;
    size_t base = size_t(at / (240 + 4 * ns)) - 2;
    Op q = k >= LTRACE ? listed(k, base, 5, nr, st) : contig(k, base, 5, nr, st);
    if (st == 3) for (auto& o : q.off) if (o > base + 5) o = base;
    execute(c, ns, nr, 0, rk, true, nullptr, {q});
}
// three data operations, overlapping, one and two processes
SCENARIO_THOROUGH(triples)
{
    int nr = c.range(1, 2, "ranks");
    Op a = pick_data(c, nr, 0, 5, false), b = pick_data(c, nr, 0, 5, false), d = pick_data(c, nr, 0, 5, false);
    if (!c.go()) return;
    execute(c, 1, nr, mx(1, 0), DEF, false, nullptr, {a, b, d});
}
// many traces, long traces and many processes: sizes around powers of two
SCENARIO(many)
{
    int nr    = c.of(c.thorough() ? std::vector<int>{1, 2, 4, 5, 7, 8, 9, 16} : std::vector<int>{1, 8}, "ranks");
    size_t nt = c.of(c.thorough() ? std::vector<size_t>{64, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4097, 10007} : std::vector<size_t>{64, 257, 1025, 4099}, "nt");
    size_t ns = c.of(c.thorough() ? std::vector<size_t>{1, 5, 127, 256, 300, 1025, 4097, 32767} : std::vector<size_t>{1, 5, 300, 4097}, "ns");
    K k       = K(c.range(0, 5, "op"));
    int st    = nr == 1 ? 0 : c.range(0, 3, "division");
    int big   = c.pick(2, "maxSize"), rk = c.of(std::vector<int>{DEF, COPYR}, "rule");
    if (!c.go()) return;
    if (nt * ns > (c.thorough() ? 1300000u : 300000u)) return;
    Op q = k >= LTRACE ? listed(k, 1, nt - 1, nr, st) : contig(k, 1, nt - 1, nr, st);
    if (q.prm()) q.skip = nt % 3;
    execute(c, ns, nr, big ? size_t(1) << 30 : 50 * (240 + 4 * ns) + 1, rk, false, nullptr, {q});
}
// many calls on one file
SCENARIO(long_programs)
{
    int nr  = c.of(std::vector<int>{1, 2, 5}, "ranks");
    int len = c.of(c.thorough() ? std::vector<int>{5, 9, 17, 33, 65, 129, 257, 1030} : std::vector<int>{5, 9, 17, 70, 260}, "calls");
    int how = c.pick(8, "calls made"), st = nr == 1 ? 0 : c.range(0, 3, "division"), step = c.range(0, 2, "step");
    if (!c.go()) return;
    std::vector<Op> p;
    for (int i = 0; i < len; i++) {
        // always the same call, or all in turn, with headers in between
        K k = how < 6 ? K(how) : K((i * (how == 6 ? 1 : 5) + i / 6) % 6);
        if (how == 7 && i % 4 == 3) {
            Op q;
            q.k    = K(int(TEXT) + i / 4 % 2);
            q.text = "text " + S(i);
            q.v    = size_t(i + 1);
            if (q.k != TEXT) q.k = INC;
            p.push_back(q);
            continue;
        }
        size_t o = size_t(i * step);
        p.push_back(k >= LTRACE ? listed(k, o, 3, nr, st) : contig(k, o, 3, nr, st));
    }
    execute(c, 2, nr, 0, DEF, false, nullptr, p);
}
