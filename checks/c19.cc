// C19: chains of set operations: every sequence of sorts, tapers, gains and
// outputs up to a depth, on every group, for block sizes of one to all traces
// and all process counts, against the same operations applied to a list of
// traces.
#include "sets.hh"
#include "ExSeisDat/PIOL/makeFile.hh"
#include "ExSeisDat/PIOL/ReadSEGY.hh"
#include "ExSeisDat/PIOL/param_utils.hh"
#include "ExSeisDat/utils/signal_processing/AGC.h"
#include "ExSeisDat/utils/signal_processing/taper.h"
#include <algorithm>
extern size_t exseisdat_model_check_memlim;
using namespace cm;
using exseis::Flow::Set;
// ---------------------------------------------------------------- geometry
// Each trace: il, xl, xSrc, ySrc, xRcv, yRcv, stored offset
static void hdr_geo(const InFile& f, size_t i, uc* h, bool ties)
{
    memset(h, 0, 240);
    int u  = f.id * 100 + int(i);
    int k  = ties ? int(i + size_t(f.id)) % 2 : (u * 37) % 101;
    int k2 = ties ? 0 : (u * 53) % 103;
    put32(h + 0, uint32_t(u));
    put32(h + 4, uint32_t(u + 5));
    put32(h + 36, uint32_t(k2));
    put16(h + 68, 1);
    put16(h + 70, 1);
    put32(h + 72, uint32_t(k % 3));
    put32(h + 76, uint32_t(k2 % 5));
    put32(h + 80, uint32_t(k));
    put32(h + 84, uint32_t(-k2));
    put16(h + 88, 1);
    put16(h + 114, f.ns);
    put16(h + 116, f.inc);
    put32(h + 180, uint32_t(k));
    put32(h + 184, uint32_t(k2));
    put32(h + 188, uint32_t(-k));
    put32(h + 192, uint32_t(k2));
    put32(h + 232, uint32_t(u));  // untouched by any operation
}
struct T {
    std::vector<uc> h;
    std::vector<float> v;
    size_t tie;
};
static int gi(const T& t, int b) { return get32(&t.h[size_t(b)]); }
// user comparison: by crossline descending
static bool user_less(const Param* p, size_t a, size_t b)
{
    return param_utils::getPrm<Integer>(a, PIOL_META_xl, p) > param_utils::getPrm<Integer>(b, PIOL_META_xl, p);
}
static bool il_less(const Param* p, size_t a, size_t b)
{
    return param_utils::getPrm<Integer>(a, PIOL_META_il, p) < param_utils::getPrm<Integer>(b, PIOL_META_il, p);
}
static float half(float w, float) { return w * 0.5f; }
static float gain1(const float* s, size_t n, float target, size_t c) { return target - s[c] * 0.25f + float(n); }
// ---------------------------------------------------------------- operations
enum { SRC, LINE, USER, TAP, TAP2, GAIN, OUT, NOP, USER2, USER3 };
static const char* opn[] = {"sort(src,rcv)", "sort(line,offset)", "sort(user)", "taper(half,2,0)", "taper(linear,1,2)", "gain", "output", "-", "sort(il rule)", "sort(xl rule)"};
typedef std::vector<int> Ops;
static bool less_of(int op, const T& a, const T& b)
{
    std::vector<double> x, y;
    auto key = [&](const T& t) -> std::vector<double> {
        if (op == SRC) return {double(gi(t, 72)), double(gi(t, 76)), double(gi(t, 80)), double(gi(t, 84))};
        if (op == USER2) return {double(gi(t, 188))};
        if (op == USER || op == USER3) return {-double(gi(t, 192))};
        return {double(gi(t, 188)), double(gi(t, 192)), double(gi(t, 36))};
    };
    return key(a) < key(b);
}
struct Ref {
    std::map<Key, std::vector<T>> g;
    Ops pend;
};
static void apply(T& t, int op)
{
    if (op == TAP) exseis::utils::taper(t.v.size(), t.v.data(), half, 2, 0);
    if (op == TAP2) exseis::utils::taper(t.v.size(), t.v.data(), exseis::utils::linear_taper, 1, 2);
    if (op == GAIN) exseis::utils::AGC(t.v.size(), t.v.data(), gain1, 3, 1.5f);
}
struct Run {
    int nr = 1, mode = 0;  // 1: prefix in the constructor
    size_t blk = 0;        // traces for each block, 0: all
    bool ties = false;
    bool copyrule = true;
};
static std::string show(const std::vector<InFile>& in, const Ops& ops, const Run& q)
{
    std::string s;
    for (int o : ops) s += std::string(s.empty() ? "" : ", ") + opn[o];
    s += ", output; " + S(q.nr) + " processes, blocks of " + (q.blk ? S(q.blk) : std::string("all")) + " traces, files";
    for (auto& f : in) s += " " + S(f.nt) + "x" + S(f.ns);
    return s;
}
struct Got {
    std::map<Key, OutFile> o[8];
    size_t n = 0;
};
// Returns false if judged as failed
static bool one(mc::Case& c, const std::vector<InFile>& in, const Ops& ops, const Run& q, Got* got = nullptr)
{
    mc::fs().clear();
    for (auto& f : in) put_in(f, [&](const InFile& g, size_t i, uc* h) { hdr_geo(g, i, h, q.ties); });
    mc::FS before = mc::fs();
    std::vector<std::vector<std::vector<std::string>>> names(static_cast<size_t>(q.nr));
    bool err = false;
    mc::Config cfg;
    cfg.nranks = q.nr;
    // room for blk traces with all parameters of the rules
    size_t ns = 0;
    for (auto& f : in) ns = std::max(ns, size_t(f.ns));
    exseisdat_model_check_memlim = q.blk ? q.blk * (40 + 240 + 12 * ns + 2 * 360) : size_t(1) << 30;
    mc::Result r = mc::run_case(c, cfg, [&](int rank) {
        auto piol = ExSeis::New();
        auto& nm  = names[size_t(rank)];
        nm.clear();
        size_t no = 0;
        auto go = [&](Set& s) {
            for (int o : ops) switch (o) {
                case SRC: s.sort(PIOL_SORTTYPE_SrcRcv); break;
                case LINE: s.sort(PIOL_SORTTYPE_LineROff); break;
                case USER: s.sort(user_less); break;
                case USER2: s.sort(std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_il}), il_less); break;
                case USER3: s.sort(std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_xl}), user_less); break;
                case TAP: s.taper(half, 2, 0); break;
                case TAP2: s.taper(exseis::utils::linear_taper, 1, 2); break;
                case GAIN: s.AGC(gain1, 3, 1.5f); break;
                case OUT: nm.push_back(s.output("o" + S(no++))); break;
                default: break;
                }
            if (q.mode == 0) nm.push_back(s.output("o" + S(no)));
        };
        if (q.mode == 0) {
            Set s(piol, "s*.segy");
            go(s);
        }
        else {
            size_t n = size_t(std::count(ops.begin(), ops.end(), int(OUT)));
            Set s(piol, "s*.segy", "o" + S(n));
            go(s);
        }
        if (piol->log->isErr()) err = true;
        piol->isErr();
    });
    uint64_t h = mc::mix(size_t(q.nr * 8 + q.mode), q.blk);
    for (auto& f : in) h = mc::mix(h, mc::mix(f.nt, size_t(f.ns * 100000 + f.inc)));
    for (int o : ops) h = mc::mix(h, size_t(o));
    c.state(h);
    if (r.status != mc::Status::Done || c.failed()) return false;
    auto bad = [&](const char* k, const std::string& m) {
        c.fail(k, show(in, ops, q) + ": " + m);
        return false;
    };
    if (err) return bad("error", "an error is reported");
    std::vector<OutFile> out;
    mc::FS kept;
    for (auto it = mc::fs().begin(); it != mc::fs().end();)
        if (it->first.find("temp") != std::string::npos) it = mc::fs().erase(it);
        else ++it;
    std::string e = outputs(before, out);
    if (!e.empty()) return bad("files", e);
    // reference
    Ref w;
    std::map<Key, size_t> cnt;
    for (auto& f : in) {
        auto& l   = w.g[{f.ns, f.inc}];
        size_t nf = groups(in)[{f.ns, f.inc}].size(), fi = cnt[{f.ns, f.inc}]++;
        for (size_t i = 0; i < f.nt; i++) {
            T t;
            t.h.resize(240);
            hdr_geo(f, i, t.h.data(), q.ties);
            for (size_t k = 0; k < size_t(f.ns); k++) t.v.push_back(fromb(smp_bits(f, i, k)));
            t.tie = i * nf + fi;
            l.push_back(t);
        }
    }
    Ops all = ops;
    all.push_back(OUT);
    size_t no = 0, files = 0;
    for (int o : all) {
        if (o <= USER || o >= USER2)
            for (auto& g : w.g) std::stable_sort(g.second.begin(), g.second.end(), [&](const T& a, const T& b) { return less_of(o, a, b) || (o <= LINE && !less_of(o, b, a) && a.tie < b.tie); });
        if (o != OUT) {
            w.pend.push_back(o);
            continue;
        }
        std::string pre = "o" + S(no);
        std::set<Key> seen;
        std::set<std::string> wn;
        for (auto& f : out) {
            if (f.name.compare(0, pre.size(), pre) || (f.name.size() > pre.size() && f.name != pre + ".segy" && f.name.find('_') == std::string::npos)) continue;
            Key k{f.ns, f.inc};
            if (!w.g.count(k) || !seen.insert(k).second) return bad("group", "unexpected output " + f.name);
            wn.insert(f.name);
            files++;
            if (got) got->o[no][k] = f;
            auto exp = w.g[k];
            for (auto& t : exp)
                for (int p : w.pend) apply(t, p);
            if (f.trc.size() != exp.size()) return bad("count", "output " + f.name + " has " + S(f.trc.size()) + " traces instead of " + S(exp.size()));
            for (size_t i = 0; i < exp.size(); i++) {
                c.outcome(mc::mix(i, size_t(get32(&f.hdr[i][0]))));
                if (get32(&f.hdr[i][232]) != gi(exp[i], 232)) return bad("order", "trace " + S(i) + " of " + f.name + " is trace " + S(get32(&f.hdr[i][232])) + " instead of " + S(gi(exp[i], 232)));
                if (f.hdr[i] != exp[i].h) {
                    size_t b = 0;
                    while (f.hdr[i][b] == exp[i].h[b]) b++;
                    return bad("header", "byte " + S(b) + " of the header of trace " + S(i) + " of " + f.name + " is " + S(int(f.hdr[i][b])) + " instead of " + S(int(exp[i].h[b])));
                }
                for (size_t k2 = 0; k2 < exp[i].v.size(); k2++)
                    if (bits(f.trc[i][k2]) != bits(exp[i].v[k2])) return bad("samples", "sample " + S(k2) + " of trace " + S(i) + " of " + f.name + " is " + S(double(f.trc[i][k2])) + " instead of " + S(double(exp[i].v[k2])));
            }
        }
        if (seen.size() != w.g.size()) return bad("missing", "output " + S(no) + " has " + S(seen.size()) + " files instead of " + S(w.g.size()));
        for (auto& nm : names)
            if (no < nm.size() && std::set<std::string>(nm[no].begin(), nm[no].end()) != wn) return bad("names", "output " + S(no) + ": the returned names are not those of the files");
        w.pend.clear();
        no++;
    }
    if (files != out.size()) return bad("extra", "there are more output files than expected");
    return true;
}
static std::vector<InFile> mks(int kind)
{
    static const std::vector<std::vector<std::array<int, 2>>> k = {
      {{5, 5}}, {{1, 5}}, {{3, 5}, {4, 5}}, {{4, 5}, {3, 6}}, {{2, 5}, {1, 6}, {3, 5}}, {{7, 5}}, {{0, 5}}, {{2, 5}, {0, 5}, {1, 6}}, {{0, 5}, {2, 6}},
      {{100, 5}}, {{65, 5}, {33, 5}}, {{40, 5}, {70, 6}, {17, 5}}, {{99, 7}, {1, 5}}, {{3, 5}, {1, 6}, {2, 5}, {4, 6}, {0, 5}, {5, 5}, {2, 6}, {1, 5}, {3, 7}}};
    std::vector<InFile> in;
    for (auto& a : k[size_t(kind)]) {
        int i = int(in.size());
        in.push_back({"s" + S(i) + ".segy", size_t(a[0]), a[1], 1000, i + 1});
    }
    return in;
}
// every sequence of operations
SCENARIO(chains)
{
    int n = c.range(0, c.thorough() ? 4 : 3, "length");
    Ops ops;
    for (int i = 0; i < n; i++) ops.push_back(c.pick(7, "operation"));
    if (!c.go()) return;
    for (int kind = 0; kind < 6; kind++) {
        Run q;
        q.nr  = 1 + (kind + n) % 3;
        q.blk = size_t(kind % 3);
        if (!one(c, mks(kind), ops, q)) return;
    }
}
// all block sizes, process counts and set shapes for chains of two
SCENARIO(blocks)
{
    int a = c.pick(8, "first"), b = c.pick(8, "second"), kind = c.pick(9, "files"), nr = c.range(1, 4, "ranks");
    if (!c.go()) return;
    Ops ops;
    if (a != NOP) ops.push_back(a);
    if (b != NOP) ops.push_back(b);
    for (size_t blk = 0; blk < 5; blk++) {
        Run q;
        q.nr  = nr;
        q.blk = blk;
        q.ties = a <= LINE && b <= LINE && kind % 2;
        if (!one(c, mks(kind), ops, q)) return;
    }
}
// the output of the destructor
SCENARIO(destructor)
{
    int n = c.range(0, 2, "length");
    Ops ops;
    for (int i = 0; i < n; i++) ops.push_back(c.pick(6, "operation"));
    int kind = c.pick(5, "files"), nr = c.range(1, 2, "ranks");
    if (!c.go()) return;
    Run q;
    q.mode = 1;
    q.nr   = nr;
    one(c, mks(kind), ops, q);
}
// equal keys: the same result for any number of processes
SCENARIO(ties)
{
    int op = c.pick(2, "sort"), op2 = c.pick(3, "second sort"), kind = c.pick(9, "files"), nr = c.range(1, 5, "ranks");
    if (!c.go()) return;
    Run q;
    q.nr   = nr;
    q.ties = true;
    Ops ops{op};
    if (op2 < 2) ops.push_back(op2);
    one(c, mks(kind), ops, q);
}
// sorts with parameter rules of their own
SCENARIO(rules)
{
    int a = c.pick(10, "first"), b = c.range(USER2, USER3, "second"), d = c.pick(10, "third"), nr = c.range(1, 3, "ranks");
    if (!c.go()) return;
    Ops ops;
    for (int o : {a, b, d})
        if (o != NOP) ops.push_back(o);
    for (int kind : {0, 3}) {
        Run q;
        q.nr = nr;
        if (!one(c, mks(kind), ops, q)) return;
    }
}
// long sequences of operations, by every cyclic pattern of three of them
SCENARIO(long_chains)
{
    int n = c.thorough() ? c.of<int>({6, 9, 16, 25}, "length") : c.of<int>({6, 12}, "length");
    int a = c.pick(6, "first"), b = c.pick(7, "second"), d = c.pick(7, "third");
    if (!c.go()) return;
    Ops ops;
    int outs = 0;
    for (int i = 0; i < n; i++) {
        int o = i % 3 == 0 ? a : i % 3 == 1 ? b : d;
        if (o == OUT && ++outs > 6) continue;
        ops.push_back(o);
    }
    for (int kind : {2, 4}) {
        Run q;
        q.nr  = 1 + (a + b + d + kind) % 4;
        q.blk = size_t((a + b + kind) % 3);
        if (!one(c, mks(kind), ops, q)) return;
    }
}
// many traces, many files, many processes and large blocks
SCENARIO(many)
{
    static const int op[6] = {SRC, LINE, TAP, GAIN, OUT, NOP};
    int a = op[c.pick(6, "first")], b = op[c.pick(6, "second")], kind = c.range(9, 13, "files"), nr = c.of<int>({1, 2, 3, 5, 8}, "ranks");
    if (!c.go()) return;
    Ops ops;
    if (a != NOP) ops.push_back(a);
    if (b != NOP) ops.push_back(b);
    for (size_t blk : {size_t(0), size_t(1), size_t(16), size_t(33)}) {
        if (blk == 1 && kind != 13) continue;
        Run q;
        q.nr  = nr;
        q.blk = blk;
        if (!one(c, mks(kind), ops, q)) return;
    }
}
