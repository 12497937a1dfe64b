// C32: every operation releases what it acquired: memory, files, and objects
// of MPI, also when a call fails.
#include "work.hh"
using exseis::utils::Integer;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static std::string live(const mc::Result& r)
{
    std::string s;
    for (auto& l : r.live) s += S(l.second) + " " + l.first + "(s), ";
    return s;
}
typedef std::function<void(int, Vals&)> Body;
// Runs the same program several times: what the first run keeps for good
// (tables, for example) is not counted.
static void judge(mc::Case& c, mc::Config cfg, const std::vector<int>& prefix, const mc::FS& in, const std::string& what, const Body& body, bool memory, std::vector<mc::Point>* trace = nullptr)
{
    long least = 0;
    std::string inj;
    for (int k = 0; k < (memory ? 4 : 1); k++) {
        long before, held;
        Vals v(static_cast<size_t>(cfg.nranks));
        mc::fs().clear();
        before = long(__sanitizer_get_current_allocated_bytes());
        {
            mc::fs() = in;
            mc::Result r = mc::run(cfg, prefix, [&](int rank) { body(rank, v); });
            c.executed();
            c.transitions(r.steps);
            inj.clear();
            for (auto& i : r.injected) inj += i.op + " fails on process " + S(i.rank) + ": ";
            if (trace) *trace = r.trace;
            if (r.status != mc::Status::Done) {
                if (r.injected.empty()) c.fail("run", what + ": " + mc::status_name(r.status) + ": " + r.msg);
                return;  // stopped by the failure: nothing to release yet
            }
            if (!r.live.empty()) {
                c.fail(r.live.begin()->first, what + ": " + inj + live(r) + "not released");
                return;
            }
            mc::fs().clear();
            for (auto& x : v) std::vector<std::string>().swap(x);
        }
        held = long(__sanitizer_get_current_allocated_bytes()) - before;
        if (k == 1 || (k > 1 && held < least)) least = held;
        if (k > 0 && held <= 0) return;
    }
    if (memory && least > 0) c.fail("memory", what + ": " + inj + S((long long)least) + " bytes of memory stay allocated each time");
}
// The run without failures, then each call of each process failing alone.
static void all_faults(mc::Case& c, int np, const mc::FS& in, const std::string& what, const Body& body, bool memory)
{
    mc::Config cfg;
    cfg.nranks             = np;
    cfg.allow_request_leak = true;
    judge(c, cfg, {}, in, what, body, memory);
    if (c.failed()) return;
    cfg.bound[mc::FAULT] = 1;
    cfg.faults.open = cfg.faults.close = cfg.faults.view = cfg.faults.read = cfg.faults.write = cfg.faults.size = cfg.faults.setsize = true;
    std::vector<mc::Point> t;
    judge(c, cfg, {}, in, what, body, false, &t);
    for (size_t i = 0; i < t.size() && !c.failed(); i++) {
        if (t[i].kind != mc::FAULT) continue;
        for (int k = 1; k < t[i].n && !c.failed(); k++) {
            std::vector<int> p(i, 0);
            for (size_t q = 0; q < i; q++) p[q] = t[q].chosen;
            p.push_back(k);
            judge(c, cfg, p, in, what, body, memory);
            c.state(mc::mix(std::hash<std::string>()(what), mc::mix(i, size_t(k))));
        }
    }
}
static const std::vector<std::vector<size_t>> shares2{{4}, {2, 2}, {0, 3}, {4, 1}, {3, 0}, {1, 1, 2}, {0, 0, 5}};
// ------------------------------------------------------------ data layer
static void data_op(DataMPIIO& d, int k, size_t o, size_t n)
{
    std::vector<uc> b(n * 8 + 8);
    Off l;
    for (size_t i = 0; i < n; i++) l.push_back(100 + (o + i) * 8);
    switch (k) {
        case 0: d.read(o * 8, n * 8, b.data()); break;
        case 1: d.write(o * 8, n * 8, b.data()); break;
        case 2: d.read(o * 16, 8, 16, n, b.data()); break;
        case 3: d.write(o * 16, 8, 16, n, b.data()); break;
        case 4: d.read(8, n, l.data(), b.data()); break;
        case 5: d.write(8, n, l.data(), b.data()); break;
        case 6: d.setFileSz(500); break;
        case 7: (void)d.getFileSz(); break;
    }
}
SCENARIO(data)
{
    auto sh = pickv(c, shares2, "shares");
    int a = c.pick(8, "operation"), b = c.pick(8, "second"), coll = c.pick(2, "collective");
    size_t mx = c.of(std::vector<size_t>{16, 40, 4096}, "limit");
    if (!c.go()) return;
    mc::FS in;
    in["data"] = mc::file_from(std::string(400, 'x'));
    all_faults(c, int(sh.size()), in, "data operations " + S(a) + ", " + S(b) + " shares " + vs(sh), [&](int rank, Vals&) {
        auto piol = ExSeis::New();
        DataMPIIO::Opt opt;
        opt.maxSize = mx;
        opt.coll    = coll;
        DataMPIIO d(piol, "data", opt, FileMode::ReadWrite);
        for (int k : {a, b}) data_op(d, k, offs_of(sh)[size_t(rank)], sh[size_t(rank)]);
    }, true);
}
// ------------------------------------------------------------ files
static const char* const wname[] = {"headers", "writeTrace", "writeTrace with parameters", "writeParam", "writeTraceNonContiguous", "writeTraceNonContiguous with parameters", "writeParamNonContiguous", "readTrace", "readTrace with parameters", "readParam", "readTraceNonContiguous", "readParamNonContiguous", "readTraceNonMonotonic", "readTraceNonMonotonic without parameters"};
static void file_op(WriteInterface* w, ReadInterface* r, int k, size_t o, size_t n)
{
    std::vector<size_t> l(n), m(n);
    for (size_t i = 0; i < n; i++) l[i] = o + i, m[i] = o + n - 1 - i / 2;
    Param p(n);
    std::vector<float> t(n * 2 + 1, 1.5f);
    for (size_t i = 0; i < n; i++) param_utils::setPrm(i, PIOL_META_il, Integer(i), &p);
    switch (k) {
        case 0:
            if (w) {
                w->writeText("text");
                w->writeInc(2e-3);
            }
            break;
        case 1: w->writeTrace(o, n, t.data()); break;
        case 2: w->writeTrace(o, n, t.data(), &p); break;
        case 3: w->writeParam(o, n, &p); break;
        case 4: w->writeTraceNonContiguous(n, l.data(), t.data()); break;
        case 5: w->writeTraceNonContiguous(n, l.data(), t.data(), &p); break;
        case 6: w->writeParamNonContiguous(n, l.data(), &p); break;
        case 7: r->readTrace(o, n, t.data()); break;
        case 8: r->readTrace(o, n, t.data(), &p); break;
        case 9: r->readParam(o, n, &p); break;
        case 10: r->readTraceNonContiguous(n, l.data(), t.data()); break;
        case 11: r->readParamNonContiguous(n, l.data(), &p); break;
        case 12: r->readTraceNonMonotonic(n, m.data(), t.data(), &p); break;
        case 13: r->readTraceNonMonotonic(n, m.data(), t.data()); break;
    }
}
SCENARIO(file)
{
    auto sh = pickv(c, shares2, "shares");
    int wr = c.pick(2, "write"), a = c.pick(7, "operation"), b = c.pick(8, "second") - 1;
    if (!c.go()) return;
    if (!wr) a += 7;
    if (!wr && b >= 0) b += 7;
    mc::FS in;
    input(in, 6, 2, 1);
    all_faults(c, int(sh.size()), in, std::string(wname[a]) + (b >= 0 ? std::string(", ") + wname[b] : "") + " shares " + vs(sh), [&](int rank, Vals&) {
        auto piol = ExSeis::New();
        size_t o = offs_of(sh)[size_t(rank)], n = sh[size_t(rank)];
        if (wr) {
            WriteDirect wd(piol, "out.segy");
            WriteInterface* f = &static_cast<WriteInterface&>(wd);
            f->writeNs(2);
            f->writeNt(6);
            for (int k : {a, b}) file_op(f, nullptr, k, o, n);
        }
        else {
            ReadDirect rd(piol, "in.segy");
            ReadInterface* f = rd;
            for (int k : {a, b}) file_op(nullptr, f, k, o, n);
        }
    }, true);
}
SCENARIO(shares)
{
    auto sh = pickv(c, shares2, "shares");
    int op  = c.pick(7, "operation"), faults = c.pick(2, "faults");
    if (!c.go()) return;
    size_t n = 0;
    for (size_t s : sh) n += s;
    mc::FS in;
    input(in, n, 2, 0);
    work_stops = false;
    auto b     = [&](int rank, Vals& v) { share_body(op, sh, rank, v); };
    if (faults) return all_faults(c, int(sh.size()), in, std::string(sopn[op]) + " shares " + vs(sh), b, false);
    mc::Config cfg;
    cfg.nranks = int(sh.size());
    judge(c, cfg, {}, in, std::string(sopn[op]) + " shares " + vs(sh), b, true);
    c.state(mc::mix(size_t(op), sh.size()));
}
SCENARIO(sets)
{
    int a = c.pick(10, "first"), b = c.pick(11, "second"), kind = c.pick(6, "files"), np = c.range(1, 3, "np");
    size_t blk = size_t(c.pick(2, "block")) * 2;
    if (!c.go()) return;
    mc::FS in = flow_in(kind, blk);
    mc::Config cfg;
    cfg.nranks = np;
    work_stops = true;
    std::vector<int> ops{a, b};
    judge(c, cfg, {}, in, std::string(fop[a]) + ", " + fop[b] + ", output of file set " + S(kind) + " on " + S(np) + " processes", [&](int rank, Vals& v) { flow_body(ops, rank, v); }, true);
    c.state(mc::mix(mc::mix(size_t(a * 16 + b), size_t(kind)), size_t(np) * 4 + blk));
}
SCENARIO(set_faults)
{
    int a = c.pick(10, "operation"), kind = c.pick(c.thorough() ? 6 : 3, "files");
    if (!c.go()) return;
    mc::FS in  = flow_in(kind, 0);
    work_stops = false;
    std::vector<int> ops{a};
    all_faults(c, 1, in, std::string(fop[a]) + ", output of file set " + S(kind), [&](int rank, Vals& v) { flow_body(ops, rank, v); }, true);
}
SCENARIO(programs)
{
    int u = c.pick(12, "utility"), n = c.range(1, 6, "traces"), np = c.range(1, 3, "np");
    if (!c.go()) return;
    if ((u == 9 || u == 10) && n < np) return;
    mc::FS in                    = util_in(u, n, 0);
    exseisdat_model_check_memlim = size_t(1) << 30;
    exseisdat_model_check_block  = 4096;
    mc::Config cfg;
    cfg.nranks = np;
    judge(c, cfg, {}, in, std::string(un[u]) + " of " + S(n) + " traces on " + S(np) + " processes", [&](int, Vals&) { util_body(u, n); }, false);
    c.state(size_t(u * 100 + n * 10 + np));
}
// more processes, many traces and many files
SCENARIO(large)
{
    static const std::vector<std::vector<size_t>> sh8{{1, 0, 2, 3, 0, 1, 4, 2}, {64, 64, 1, 0, 128}, {0, 300}, {257}, {40, 40, 40, 40, 40, 40, 40, 40}};
    auto sh = pickv(c, sh8, "shares");
    int op  = c.pick(7, "operation");
    if (!c.go()) return;
    size_t n = 0;
    for (size_t s : sh) n += s;
    mc::FS in;
    input(in, n, 2, 0);
    work_stops = false;
    mc::Config cfg;
    cfg.nranks = int(sh.size());
    judge(c, cfg, {}, in, std::string(sopn[op]) + " shares " + vs(sh), [&](int rank, Vals& v) { share_body(op, sh, rank, v); }, true);
    c.state(mc::mix(size_t(op), sh.size()));
}
SCENARIO(large_sets)
{
    int a = c.pick(10, "first"), b = c.pick(11, "second"), kind = c.range(6, 9, "files"), np = c.of<int>({1, 2, 5, 8}, "np");
    if (!c.go()) return;
    if (kind == 9 && np > 1) return;
    if (np > 2 && kind != 8) return;
    mc::FS in = flow_in(kind, 0);
    mc::Config cfg;
    cfg.nranks = np;
    work_stops = true;
    std::vector<int> ops{a, b};
    judge(c, cfg, {}, in, std::string(fop[a]) + ", " + fop[b] + ", output of file set " + S(kind) + " on " + S(np) + " processes", [&](int rank, Vals& v) { flow_body(ops, rank, v); }, true);
    c.state(mc::mix(mc::mix(size_t(a * 16 + b), size_t(kind)), size_t(np)));
}
SCENARIO(large_programs)
{
    int u = c.pick(11, "utility"), n = c.of<int>({33, 100}, "traces"), np = c.of<int>({1, 2, 8}, "np");
    if (!c.go()) return;
    mc::FS in                    = util_in(u, n, 0);
    exseisdat_model_check_memlim = size_t(1) << 30;
    exseisdat_model_check_block  = 4096;
    mc::Config cfg;
    cfg.nranks = np;
    judge(c, cfg, {}, in, std::string(un[u]) + " of " + S(n) + " traces on " + S(np) + " processes", [&](int, Vals&) { util_body(u, n); }, false);
    c.state(size_t(u * 1000 + n * 10 + np));
}
