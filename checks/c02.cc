// C02: reads return exactly the traces and parameters stored in the file.
// Reference model: the file as a table of raw headers and sample words.
#include "common.hh"
using namespace cm;

static const char* FN = "read.segy";

static uint32_t word(int fmt, size_t i, size_t k)
{
    static const uint32_t sp[] = {0x00000000u, 0x7f800000u, 0x7fc12345u, 0xff800001u, 0x80000000u, 0x00000001u, 0x42640000u, 0xc276a000u, 0x40900000u, 0x21000000u, 0x61123456u, 0x41fffff8u};
    uint64_t h = mc::mix(i * 131 + k, 77);
    if (fmt == 1) {
        static const uint32_t ib[] = {0x42640000u, 0xc276a000u, 0x41100000u, 0x00000000u, 0x4019999au, 0x46ffffffu, 0xbf123456u, 0x40010000u};
        return ib[(i * 3 + k) % 8];
    }
    return (h & 3) ? bits(float(int(h >> 40 & 0xffff) - 30000) / 16.f) : sp[(i * 5 + k) % 12];
}
static float want_sample(int fmt, uint32_t w)
{
    if (fmt != 1) return fromb(w);
    double m = double(w & 0xffffff) / 16777216.0;
    double v = std::ldexp(m, 4 * (int((w >> 24) & 127) - 64));
    return float((w >> 31) ? -v : v);
}
static void header(size_t i, uc* h)
{
    for (int b = 0; b < 240; b++) h[b] = uc(mc::mix(i * 1000 + size_t(b), 5) >> 30);
    static const int sc[] = {1, -100, 0, 10, -1, -10000, 10000, 1000};
    put16(h + 68, sc[i % 8]);
    put16(h + 70, sc[(i + 3) % 8]);
    put16(h + 200, sc[(i + 5) % 8]);
}
static SparseFile make(size_t nt, size_t ns, int fmt, size_t extra)
{
    SparseFile f;
    put_file(f, ho_bytes("C 1 TEXT", int(ns), 4000, fmt, true), nt, ns, [](size_t i, uc* h) { header(i, h); }, [&](size_t i, size_t k) { return word(fmt, i, k); });
    if (extra) {
        std::vector<uc> x(extra, 0xEE);
        f.write(f.size, x.data(), extra);
    }
    return f;
}

enum RK { DEF, EXTRA, COPYR, FEW };
static std::shared_ptr<Rule> make_rule(int k)
{
    switch (k) {
        default:
        case DEF: return std::make_shared<Rule>(true, true);
        case EXTRA: return std::make_shared<Rule>(true, true, true);
        case COPYR: {
            auto r = std::make_shared<Rule>(true, true);
            r->addCopy();
            return r;
        }
        case FEW: return std::make_shared<Rule>(std::vector<Meta>{PIOL_META_il, PIOL_META_Tic, PIOL_META_WtrDepSrc});
    }
}
static void poison(Param& p)
{
    for (auto& x : p.f) x = -12345.5;
    for (auto& x : p.i) x = -7777;
    for (auto& x : p.s) x = -333;
    for (auto& x : p.t) x = 987654321;
    for (auto& x : p.c) x = 0xA5;
}
// entry k of p must hold trace tr (tr<0: must be untouched)
static std::string check_entry(const Param& p, size_t k, long long tr, bool any_index = false)
{
    uc h[240];
    if (tr >= 0) header(size_t(tr), h);
    Rule& r = *p.r;
    for (auto& kv : r.translate) {
        auto num = kv.second->num;
        switch (kv.second->type()) {
            case RuleEntry::MdType::Copy:
                for (size_t b = 0; b < 240; b++)
                    if (p.c[k * 240 + b] != (tr >= 0 ? h[b] : 0xA5)) return "raw header byte " + S(b) + " of entry " + S(k) + " is " + S(int(p.c[k * 240 + b]));
                break;
            case RuleEntry::MdType::Index: {
                // parameters which are not stored in the file are not read
                if (any_index && tr >= 0 && kv.first != PIOL_META_ltn) break;
                size_t v = p.t[k * r.numIndex + num], w = (tr >= 0 && kv.first == PIOL_META_ltn) ? size_t(tr) : 987654321;
                if (v != w) return "index parameter " + S(int(kv.first)) + " of entry " + S(k) + " is " + S(v) + ", expected " + S(w);
                break;
            }
            default: {
                const Field& f = *field(kv.first);
                double v, w;
                if (f.t == FT::Scaled) v = p.f[k * r.numFloat + num], w = tr >= 0 ? decode(f, h) : -12345.5;
                else if (f.t == FT::Int) v = double(p.i[k * r.numLong + num]), w = tr >= 0 ? decode(f, h) : -7777;
                else v = p.s[k * r.numShort + num], w = tr >= 0 ? decode(f, h) : -333;
                if (!close_to(v, w)) return std::string("parameter ") + f.name + " of entry " + S(k) + " is " + S(v) + ", expected " + S(w);
            }
        }
    }
    return "";
}

enum Api { CONTIG, LIST, NONMONO };
enum What { TRC, PRM, BOTH };
struct Req {
    Api api;
    What what;
    size_t off = 0, sz = 0;
    Off list;
    size_t skip = 0;
    std::string str() const
    {
        static const char* a[] = {"range", "list", "arbitrary list"};
        static const char* w[] = {"traces", "parameters", "both"};
        std::string s = std::string(a[api]) + " " + w[what];
        s += api == CONTIG ? " off=" + S(off) + " sz=" + S(sz) : " " + vs(list);
        return s + " skip=" + S(skip);
    }
    // trace numbers delivered
    Off want(size_t nt) const
    {
        Off v;
        if (api != CONTIG) return list;
        for (size_t i = off; i < nt && i - off < sz; i++) v.push_back(i);
        return v;
    }
};

static void execute(mc::Case& c, size_t nt, size_t ns, int fmt, size_t extra, int nr, size_t maxSize, int rulek, bool direct, const std::vector<std::vector<Req>>& prog)
{
    mc::fs()[FN]     = make(nt, ns, fmt, extra);
    SparseFile start = mc::fs()[FN];
    mc::Config cfg;
    cfg.nranks       = nr;
    cfg.strict_races = true;
    std::vector<std::string> bad(static_cast<size_t>(nr));
    std::vector<std::string> key(static_cast<size_t>(nr), "data");
    std::vector<uint64_t> oh(static_cast<size_t>(nr), 1);
    auto body = [&](int rank) {
        auto R = size_t(rank);
        std::shared_ptr<ExSeisPIOL> piol = ExSeis::New();
        {
            std::shared_ptr<ReadInterface> file;
            if (direct) {
                file = std::shared_ptr<ReadInterface>();
            }
            std::unique_ptr<ReadDirect> rd;
            ReadInterface* f;
            if (direct) {
                rd.reset(new ReadDirect(piol, FN));
                f = (ReadInterface*)*rd;
            }
            else {
                DataMPIIO::Opt opt;
                opt.maxSize = maxSize;
                ReadSEGY::Opt fo;
                ObjectSEGY::Opt oo;
                rd.reset(new ReadDirect(piol, FN, opt, oo, fo));
                f = (ReadInterface*)*rd;
            }
            if (f->readNt() != nt || f->readNs() != ns) bad[R] = "file opened with nt=" + S(f->readNt()) + " ns=" + S(f->readNs());
            for (auto& q : prog[R]) {
                Off w = q.want(nt);
                size_t n = w.size();
                std::vector<float> tb(n * ns + 8);
                for (auto& x : tb) x = fromb(0xDEADBEEF);
                auto rule = make_rule(rulek);
                Param p(rule, n + q.skip + 2);
                poison(p);
                float* tp  = q.what == PRM ? const_cast<float*>(TRACE_NULL) : tb.data();
                Param* pp  = q.what == TRC ? PIOL_PARAM_NULL : &p;
                size_t sz  = q.api == CONTIG ? q.sz : n;
                const size_t* l = q.list.data();
                if (q.api == CONTIG) {
                    if (q.what == PRM) f->readParam(q.off, sz, pp, q.skip);
                    else if (q.what == TRC && q.skip == 0) f->readTrace(q.off, sz, tp);
                    else f->readTrace(q.off, sz, tp, pp, q.skip);
                }
                else if (q.api == LIST) {
                    if (q.what == PRM) f->readParamNonContiguous(sz, l, pp, q.skip);
                    else if (q.what == TRC && q.skip == 0) f->readTraceNonContiguous(sz, l, tp);
                    else f->readTraceNonContiguous(sz, l, tp, pp, q.skip);
                }
                else {
                    if (q.what == TRC && q.skip == 0) f->readTraceNonMonotonic(sz, l, tp);
                    else f->readTraceNonMonotonic(sz, l, tp, pp, q.skip);
                }
                if (!bad[R].empty()) continue;
                for (size_t i = 0; i < tb.size(); i++) {
                    uint32_t want = 0xDEADBEEF;
                    if (q.what != PRM && i < n * ns) want = bits(want_sample(fmt, word(fmt, w[i / ns], i % ns)));
                    if (bits(tb[i]) != want) {
                        bad[R] = q.str() + ": sample " + S(ns ? i % ns : i) + " of entry " + S(ns ? i / ns : 0) + " has bits " + S(size_t(bits(tb[i]))) + ", expected " + S(size_t(want));
                        if (i >= n * ns) key[R] = "overrun";
                        break;
                    }
                }
                for (size_t k = 0; k < n + q.skip + 2 && bad[R].empty(); k++) {
                    long long tr = -1;
                    if (q.what != TRC && k >= q.skip && k < q.skip + n) tr = (long long)w[k - q.skip];
                    auto m = check_entry(p, k, tr, q.api == NONMONO);
                    if (!m.empty()) bad[R] = q.str() + ": " + m, key[R] = tr < 0 ? "untouched" : "params";
                }
                oh[R] = mc::mix(oh[R], mc::hash_bytes(tb.data(), tb.size() * 4));
            }
        }
        if (piol->log->isErr() && bad[R].empty()) bad[R] = "an error was recorded for a valid read", key[R] = "spurious-error";
    };
    auto r = mc::run_case(c, cfg, body);
    if (r.status != mc::Status::Done) c.fail("run", std::string(mc::status_name(r.status)) + ": " + r.msg);
    for (size_t i = 0; i < bad.size(); i++) {
        if (!bad[i].empty()) c.fail(key[i], "rank " + S(i) + ": " + bad[i]);
        c.outcome(oh[i]);
    }
    if (r.status == mc::Status::Done) {
        if (!(mc::fs()[FN] == start)) c.fail("file-changed", "reading changed the file");
        if (!r.open_files.empty()) c.fail("open", "file left open");
    }
    for (auto& p : prog) c.transitions(p.size());
}

static size_t pick_max(mc::Case& c, size_t ns)
{
    std::vector<size_t> v{2 * (240 + 4 * ns), 3 * (240 + 4 * ns) + 17, size_t(1) << 30};
    return pickv(c, v, "maxSize");
}

// every contiguous request on every rank, every kind of data
SCENARIO(range)
{
    int nr    = c.range(1, c.thorough() ? 3 : 2, "ranks");
    size_t nt = size_t(c.range(0, nr >= 3 ? 2 : 3, "nt"));
    size_t ns = c.of(std::vector<size_t>{0, 1, 3}, "ns");
    int what  = c.range(0, 2, "what");
    size_t mx = pick_max(c, ns);
    std::vector<std::vector<Req>> prog;
    for (int r = 0; r < nr; r++) {
        Req q;
        q.api  = CONTIG;
        q.what = What(what);
        int lim = int(nt) + 2;
        q.off  = size_t(c.pick(lim + 2, "off"));
        if (int(q.off) == lim + 1) q.off = (size_t(1) << 40);
        q.sz = size_t(c.pick(int(nt) + 3, "sz"));
        if (q.sz == nt + 2) q.sz = size_t(1) << 33;
        q.skip = what == TRC ? 0 : size_t(r % 2 ? 2 : 0);
        prog.push_back({q});
    }
    if (!c.go()) return;
    execute(c, nt, ns, (nt + ns) % 2 ? 5 : 1, 0, nr, mx, DEF, false, prog);
}
// strictly increasing lists: every subset on every rank
SCENARIO(lists)
{
    int nr    = c.range(1, 3, "ranks");
    size_t nt = nr == 3 ? (c.thorough() ? 3 : 2) : size_t(c.range(1, c.thorough() ? 4 : 3, "nt"));
    size_t ns = c.of(std::vector<size_t>{0, 1, 3}, "ns");
    int what  = c.range(0, 2, "what");
    int fmt   = c.of(std::vector<int>{5, 1}, "fmt");
    size_t mx = pick_max(c, ns);
    std::vector<std::vector<Req>> prog;
    for (int r = 0; r < nr; r++) {
        Req q;
        q.api    = LIST;
        q.what   = What(what);
        int mask = c.pick(1 << nt, "subset");
        for (size_t i = 0; i < nt; i++)
            if (mask >> i & 1) q.list.push_back(i);
        q.skip = what == TRC ? 0 : size_t((r + 1) % 2);
        prog.push_back({q});
    }
    if (!c.go()) return;
    execute(c, nt, ns, fmt, 0, nr, mx, EXTRA, false, prog);
}
// arbitrary lists, unsorted and with repeats: every tuple on every rank
static Off tuple(mc::Case& c, int base, int maxlen)
{
    Off v;
    int len = c.pick(maxlen + 1, "len");
    for (int i = 0; i < len; i++) v.push_back(size_t(c.pick(base, "tr")));
    return v;
}
SCENARIO(arbitrary)
{
    int nr    = c.range(1, 2, "ranks");
    size_t nt = nr == 1 ? 4 : 3;
    size_t ns = c.of(std::vector<size_t>{1, 2}, "ns");
    int what  = c.range(0, 2, "what");
    size_t mx = pick_max(c, ns);
    std::vector<std::vector<Req>> prog;
    for (int r = 0; r < nr; r++) {
        Req q;
        q.api  = NONMONO;
        q.what = What(what);
        q.list = tuple(c, int(nt), nr == 1 ? 5 : r == 0 ? 3 : (c.thorough() ? 3 : 2));
        q.skip = what == TRC ? 0 : size_t(r % 2 ? 0 : 1);
        prog.push_back({q});
    }
    if (!c.go()) return;
    execute(c, nt, ns, 5, 0, nr, mx, COPYR, false, prog);
}
// empty shares with a default (absent) parameter argument, three and four ranks
SCENARIO(empties)
{
    int nr   = c.range(1, 4, "ranks");
    int api  = c.range(0, 2, "api");
    int what = c.range(0, 2, "what");
    int ns   = c.of(std::vector<int>{0, 2}, "ns");
    int nt   = c.of(std::vector<int>{0, 3}, "nt");
    int mask = c.pick(1 << nr, "nonempty");
    int rk   = c.range(0, 3, "rule");
    int dir  = c.range(0, 1, "direct");
    size_t mx = pick_max(c, size_t(ns));
    if (!c.go()) return;
    std::vector<std::vector<Req>> prog;
    for (int r = 0; r < nr; r++) {
        Req q;
        q.api  = Api(api);
        q.what = What(what);
        if ((mask >> r & 1) && nt) {
            q.off = size_t(r % 3);
            q.sz  = size_t(3 - r % 3);
            if (api == LIST) for (size_t i = q.off; i < 3; i++) q.list.push_back(i);
            if (api == NONMONO) q.list = {2, size_t(r % 3), 2, 0};
        }
        else q.off = r == 1 ? 1000000 : 0;
        prog.push_back({q});
    }
    execute(c, size_t(nt), size_t(ns), 5, 0, nr, mx, rk, dir, prog);
}
// rules, formats, trailing bytes, skip, sequences of different calls
SCENARIO(sequences)
{
    int nr    = c.range(1, 2, "ranks");
    size_t nt = 5, ns = c.of(std::vector<size_t>{0, 1, 4}, "ns");
    int fmt   = c.of(std::vector<int>{5, 1, 2, 3, 0, 6}, "fmt");
    int rk    = c.range(0, 3, "rule");
    int extra = c.of(std::vector<int>{0, 1, 100}, "trailing");
    int s1 = c.pick(9, "first"), s2 = c.pick(9, "second");
    size_t mx = pick_max(c, ns);
    if (!c.go()) return;
    std::vector<std::vector<Req>> prog;
    for (int r = 0; r < nr; r++) {
        std::vector<Req> v;
        for (int s : {s1, s2}) {
            Req q;
            q.api  = Api(s / 3);
            q.what = What(s % 3);
            q.skip = q.what == TRC ? 0 : size_t(s % 2);
            q.off  = size_t(r * 2);
            q.sz   = size_t(3 + r);
            if (q.api == LIST) q.list = r ? Off{3, 4} : Off{0, 2, 4};
            if (q.api == NONMONO) q.list = r ? Off{4, 4, 1} : Off{3, 0, 3, 2};
            v.push_back(q);
        }
        prog.push_back(v);
    }
    execute(c, nt, ns, fmt, ns == 0 ? 0 : size_t(extra), nr, mx, rk, false, prog);
}
// large trace numbers: sparse file, offsets around 2^31 and 2^32
SCENARIO(far)
{
    size_t ns = c.of(std::vector<size_t>{1, 1000, 32767}, "ns");
    uint64_t at = c.of(std::vector<uint64_t>{(1ull << 31), (1ull << 32), (1ull << 33) + (1ull << 31), (1ull << 41)}, "byte");
    int api = c.range(0, 2, "api"), what = c.range(0, 2, "what"), nr = c.range(1, 2, "ranks");
    if (!c.go()) return;
    size_t base = size_t(at / (240 + 4 * ns)) - 2, nt = base + 5;
    SparseFile f;
    auto ho = ho_bytes("C 1 FAR", int(ns), 1000, 5, true);
    f.write(0, ho.data(), ho.size());
    std::vector<uc> t(240 + 4 * ns);
    for (size_t i = base; i < nt; i++) {
        header(i, t.data());
        for (size_t k = 0; k < ns; k++) put32(&t[240 + 4 * k], word(5, i, k));
        f.write(3600 + i * (240 + 4 * ns), t.data(), t.size());
    }
    mc::fs()[FN] = f;
    mc::Config cfg;
    cfg.nranks = nr;
    std::vector<std::string> bad(size_t(nr), "");
    auto r = mc::run_case(c, cfg, [&](int rank) {
        std::shared_ptr<ExSeisPIOL> piol = ExSeis::New();
        ReadDirect rd(piol, FN);
        auto& B = bad[size_t(rank)];
        if (rd.readNt() != nt) B = "nt " + S(rd.readNt()) + " expected " + S(nt);
        Off l = rank ? Off{base + 1, base + 4} : Off{base, base + 2, base + 3};
        if (api == NONMONO) std::reverse(l.begin(), l.end());
        if (api == CONTIG) {
            l.clear();
            for (size_t i = 0; i < 3; i++) l.push_back(base + i + size_t(rank));
        }
        std::vector<float> tb(l.size() * ns);
        Param p(make_rule(DEF), l.size());
        poison(p);
        float* tp = what == PRM ? const_cast<float*>(TRACE_NULL) : tb.data();
        Param* pp = what == TRC ? PIOL_PARAM_NULL : &p;
        if (api == CONTIG) rd.readTrace(l[0], l.size(), tp, pp);
        else if (api == LIST) rd.readTraceNonContiguous(l.size(), l.data(), tp, pp);
        else rd.readTraceNonMonotonic(l.size(), l.data(), tp, pp);
        for (size_t i = 0; i < l.size() && B.empty(); i++) {
            if (what != PRM)
                for (size_t k = 0; k < ns; k++)
                    if (bits(tb[i * ns + k]) != word(5, l[i], k)) {
                        B = "trace " + S(l[i]) + " sample " + S(k) + " wrong";
                        break;
                    }
            if (what != TRC && B.empty()) B = check_entry(p, i, (long long)l[i], api == NONMONO);
        }
        if (piol->log->isErr() && B.empty()) B = "error recorded";
    });
    if (r.status != mc::Status::Done) c.fail("run", std::string(mc::status_name(r.status)) + ": " + r.msg);
    for (auto& b : bad)
        if (!b.empty()) c.fail("far", b);
    c.transitions(size_t(nr));
}
// many traces, long traces and many processes: sizes around powers of two
SCENARIO(many)
{
    int nr    = c.of(c.thorough() ? std::vector<int>{1, 2, 3, 4, 5, 7, 8, 9, 16} : std::vector<int>{1, 8}, "ranks");
    size_t nt = c.of(c.thorough() ? std::vector<size_t>{64, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4097, 10007} : std::vector<size_t>{64, 257, 1025, 4099}, "nt");
    size_t ns = c.of(c.thorough() ? std::vector<size_t>{1, 5, 127, 256, 300, 1025, 4097, 32767} : std::vector<size_t>{1, 5, 300, 4097}, "ns");
    int api = c.range(0, 2, "api"), what = c.range(0, 2, "what");
    int fmt = c.of(std::vector<int>{5, 1}, "fmt");
    int sh  = c.pick(3, "shares");
    int big = c.pick(2, "maxSize");
    if (!c.go()) return;
    if (nt * ns > (c.thorough() ? 1300000u : 300000u)) return;
    std::vector<std::vector<Req>> prog;
    for (int r = 0; r < nr; r++) {
        Req q;
        q.api  = Api(api);
        q.what = What(what);
        size_t R = size_t(r), N = size_t(nr), a = nt * R / N, b = nt * (R + 1) / N;
        // blocks; all traces; all on the last process
        if (sh == 1) a = 0, b = nt;
        if (sh == 2) a = 0, b = R + 1 == N ? nt : 0;
        q.off  = a;
        q.sz   = b - a;
        q.skip = what == TRC ? 0 : R % 2;
        if (api == LIST)
            for (size_t i = a; i < b; i += 1 + i % 3 / 2) q.list.push_back(i);
        if (api == NONMONO)
            for (size_t i = a; i < b; i++) q.list.push_back(a + (b - 1 - i) * 7 % (b - a));
        prog.push_back({q});
    }
    execute(c, nt, ns, fmt, 0, nr, big ? size_t(1) << 30 : 50 * (240 + 4 * ns) + 1, (api + what) % 2 ? DEF : EXTRA, false, prog);
}
// many calls on one file
SCENARIO(long_programs)
{
    int nr  = c.of(std::vector<int>{1, 2, 5}, "ranks");
    int len = c.of(c.thorough() ? std::vector<int>{5, 9, 17, 33, 65, 129, 257, 1030} : std::vector<int>{5, 9, 17, 70, 260}, "calls");
    int how = c.pick(11, "calls made"), rk = c.range(0, 3, "rule");
    if (!c.go()) return;
    std::vector<std::vector<Req>> prog;
    for (int r = 0; r < nr; r++) {
        std::vector<Req> v;
        for (int i = 0; i < len; i++) {
            int s = how < 9 ? how : (i * (how == 9 ? 1 : 4) + i / 9) % 9;
            Req q;
            q.api  = Api(s / 3);
            q.what = What(s % 3);
            q.skip = q.what == TRC ? 0 : size_t(s % 2);
            q.off  = size_t((i + r) % 5);
            q.sz   = size_t(i % 4);
            for (size_t k = q.off; q.api != CONTIG && k < 5; k += 1 + size_t(i % 2)) q.list.push_back(k);
            if (q.api == NONMONO) std::reverse(q.list.begin(), q.list.end());
            v.push_back(q);
        }
        prog.push_back(v);
    }
    execute(c, 5, 3, 5, 0, nr, 0 ? 0 : size_t(1) << 30, rk, false, prog);
}
