// C04: every process returns from every call of every sequence of calls,
// however the traces are divided, for every limit of one transfer.
#include "work.hh"
struct Call {
    int op;
    std::vector<size_t> sh;  // traces of each process
};
static const char* wop[] = {"write traces and parameters", "write traces", "write parameters", "write listed traces and parameters", "write listed traces", "write listed parameters", "set the number of traces", "set the interval and text", "set the number of samples"};
static const char* rop[] = {"read traces and parameters", "read traces", "read parameters", "read listed traces and parameters", "read listed traces", "read listed parameters", "read traces in any order", "read traces in any order and parameters", "query the file"};
static size_t limit(size_t ns, int i)
{
    // traces for one transfer (ranges), half as many for lists
    size_t d = 240 + 4 * ns;
    return std::vector<size_t>{2 * d, 4 * d + 1, size_t(1) << 30}[size_t(i)];
}
static std::string show(const std::vector<Call>& p, bool w)
{
    std::string s;
    for (auto& x : p) s += std::string(s.empty() ? "" : ", ") + (w ? wop : rop)[x.op] + " " + vs(x.sh);
    return s;
}
// the list of a process: every np-th trace, or a block, from its share
static std::vector<size_t> list_of(const Call& q, int rank, size_t np, int how)
{
    std::vector<size_t> l;
    size_t o = offs_of(q.sh)[size_t(rank)];
    for (size_t i = 0; i < q.sh[size_t(rank)]; i++) l.push_back(how ? i * np + size_t(rank) : o + i);
    return l;
}
static void writes(const std::vector<Call>& prog, size_t ns, size_t maxSize, bool null, int rank)
{
    auto piol = ExSeis::New();
    {
        DataMPIIO::Opt opt;
        opt.maxSize = maxSize;
        WriteSEGY::Opt fo;
        ObjectSEGY::Opt oo;
        WriteDirect wd(piol, "w.segy", opt, oo, fo);
        WriteInterface* f = &static_cast<WriteInterface&>(wd);
        f->writeNs(ns);
        size_t k = 0;
        for (auto& q : prog) {
            k++;
            size_t n = q.sh[size_t(rank)], o = offs_of(q.sh)[size_t(rank)], np = q.sh.size();
            auto l = list_of(q, rank, np, int(k % 2));
            Param p(n);
            std::vector<float> t(n * ns + 1, 1.5f);
            for (size_t i = 0; i < n; i++) param_utils::setPrm(i, PIOL_META_il, Integer(i + k), &p);
            // a process without traces can pass null pointers
            Param* pp = null && !n ? nullptr : &p;
            float* tp = null && !n ? nullptr : t.data();
            size_t* lp = null && !n ? nullptr : l.data();
            switch (q.op) {
                case 0: f->writeTrace(o, n, tp, pp); break;
                case 1: f->writeTrace(o, n, tp); break;
                case 2: f->writeParam(o, n, pp); break;
                case 3: f->writeTraceNonContiguous(n, lp, tp, pp); break;
                case 4: f->writeTraceNonContiguous(n, lp, tp); break;
                case 5: f->writeParamNonContiguous(n, lp, pp); break;
                case 6: f->writeNt(q.sh[0] + 1); break;
                case 7:
                    f->writeInc(1e-3 * double(k));
                    f->writeText("Text " + S(k));
                    break;
                case 8: f->writeNs(ns + k); f->writeNs(ns); break;
            }
        }
    }
    piol->isErr();
}
static void reads(const std::vector<Call>& prog, size_t ns, size_t maxSize, bool null, int rank)
{
    auto piol = ExSeis::New();
    {
        DataMPIIO::Opt opt;
        opt.maxSize = maxSize;
        ReadSEGY::Opt fo;
        ObjectSEGY::Opt oo;
        ReadDirect rd(piol, "in.segy", opt, oo, fo);
        ReadInterface* f = rd;
        size_t k         = 0;
        for (auto& q : prog) {
            k++;
            size_t n = q.sh[size_t(rank)], o = offs_of(q.sh)[size_t(rank)], np = q.sh.size();
            auto l = list_of(q, rank, np, int(k % 2));
            // lists in any order repeat traces and go backwards
            if (q.op == 6 || q.op == 7)
                for (size_t i = 0; i < n; i++) l[i] = i % 2 ? l[0] : l[n - 1 - i];
            Param p(n);
            std::vector<float> t(n * ns + 1);
            Param* pp  = null && !n ? nullptr : &p;
            float* tp  = null && !n ? nullptr : t.data();
            size_t* lp = null && !n ? nullptr : l.data();
            switch (q.op) {
                case 0: f->readTrace(o, n, tp, pp); break;
                case 1: f->readTrace(o, n, tp); break;
                case 2: f->readParam(o, n, pp); break;
                case 3: f->readTraceNonContiguous(n, lp, tp, pp); break;
                case 4: f->readTraceNonContiguous(n, lp, tp); break;
                case 5: f->readParamNonContiguous(n, lp, pp); break;
                case 6: f->readTraceNonMonotonic(n, lp, tp); break;
                case 7: f->readTraceNonMonotonic(n, lp, tp, &p); break;
                case 8: f->readNt(), f->readNs(), f->readInc(), f->readText(); break;
            }
        }
    }
    piol->isErr();
}
static void file_calls(mc::Case& c, const std::vector<Call>& prog, bool w, size_t ns, int lim, bool null)
{
    size_t np = prog[0].sh.size();
    mc::fs().clear();
    if (!w) input(mc::fs(), 24, int(ns), 0);
    mc::Config cfg;
    cfg.nranks = int(np);
    auto r     = mc::run_case(c, cfg, [&](int rank) { w ? writes(prog, ns, limit(ns, lim), null, rank) : reads(prog, ns, limit(ns, lim), null, rank); });
    uint64_t h = mc::mix(size_t(lim * 4 + w * 2 + null), ns);
    for (auto& x : prog) h = mc::mix(h, mc::mix(size_t(x.op), std::hash<std::string>()(vs(x.sh))));
    c.state(h);
    c.outcome(mc::mix(size_t(r.io_calls), size_t(w)));
    if (!c.failed() && !r.open_files.empty()) c.fail("open", show(prog, w) + ": " + r.open_files[0] + " is not closed on every process");
}
SCENARIO(pairs)
{
    int np = c.range(2, 3, "np"), w = c.pick(2, "write"), a = c.pick(9, "first"), b = c.pick(9, "second"), lim = c.pick(3, "limit"), ns = c.pick(2, "ns") * 3;
    if (!c.go()) return;
    std::vector<std::vector<size_t>> all, all2;
    all_shares(np == 2 ? 5 : 4, np, all);
    all_shares(2, np, all2);
    // the shares which need different numbers of transfers
    for (auto& x : all)
        for (auto& y : all2)
            for (int null = 0; null < (lim == 2 ? 2 : 1); null++) {
                file_calls(c, {{a, x}, {b, y}}, w, size_t(ns), lim, null);
                if (c.failed()) return;
            }
}
SCENARIO(triples)
{
    int w = c.pick(2, "write"), a = c.pick(9, "first"), b = c.pick(9, "second"), d = c.pick(9, "third");
    if (!c.go()) return;
    static const std::vector<std::vector<size_t>> sh{{3, 0}, {0, 3}, {1, 4}, {0, 0}, {2, 2}, {0, 1, 3}, {4, 0, 0}};
    for (auto& x : sh)
        for (auto& y : sh) {
            if (x.size() != y.size() || (!c.thorough() && x == y)) continue;
            for (int lim = 0; lim < (c.thorough() ? 3 : 1); lim++) {
                file_calls(c, {{a, x}, {b, y}, {d, x}}, w, 1, lim, x < y);
                if (c.failed()) return;
            }
        }
}
// The division of one call in all ways, many processes
SCENARIO(divisions)
{
    int np = c.range(4, c.thorough() ? 6 : 5, "np"), w = c.pick(2, "write"), a = c.pick(9, "call"), n = c.range(0, c.thorough() ? 6 : 4, "traces");
    if (!c.go()) return;
    std::vector<std::vector<size_t>> all;
    all_shares(size_t(n), np, all);
    for (auto& x : all)
        for (int lim = 0; lim < 2; lim++) {
            file_calls(c, {{a, x}}, w, 2, lim, lim == 0);
            if (c.failed()) return;
        }
}
// -------------------------------------------------------------- schedules
// Deadlocks that need a certain order of the processes
static void sched(mc::Case& c, int np, int bound, const mc::FS& in, const std::string& what, const std::function<void(int)>& body)
{
    mc::Config cfg;
    cfg.nranks           = np;
    cfg.explore_sched    = true;
    cfg.bound[mc::SCHED] = bound;
    mc::explore_case(c, cfg, [&] { mc::fs() = in; }, body, [&](const mc::Result& r) {
        c.outcome(size_t(r.io_calls));
        if (r.status != mc::Status::Done) c.fail("schedule", what + ": " + mc::status_name(r.status) + ": " + r.msg);
    });
}
SCENARIO(file_schedules)
{
    int np = c.range(2, 3, "np"), w = c.pick(2, "write"), a = c.pick(9, "first"), b = c.pick(9, "second");
    std::vector<size_t> x = np == 2 ? pickv(c, std::vector<std::vector<size_t>>{{0, 3}, {3, 1}}, "shares") : pickv(c, std::vector<std::vector<size_t>>{{0, 1, 3}, {2, 0, 0}}, "shares");
    if (!c.go()) return;
    mc::FS in;
    if (!w) input(in, 24, 1, 0);
    std::vector<Call> p{{a, x}, {b, x}};
    std::reverse(p[1].sh.begin(), p[1].sh.end());
    c.state(mc::mix(mc::mix(size_t(a), size_t(b)), size_t(np * 100 + w * 10) + x[0]));
    sched(c, np, c.thorough() ? 2 : 1, in, show(p, w), [&](int rank) { w ? writes(p, 1, limit(1, 0), false, rank) : reads(p, 1, limit(1, 0), false, rank); });
}
SCENARIO(work_schedules)
{
    int op = c.range(2, 5, "operation"), np = c.range(2, 3, "np"), n = c.range(0, 4, "traces");
    std::vector<std::vector<size_t>> all;
    all_shares(size_t(n), np, all);
    auto sh = pickv(c, all, "shares");
    if (!c.go()) return;
    if (op == 5 && n == 0) return;
    mc::FS in;
    input(in, size_t(n), 2, 0);
    c.state(mc::mix(size_t(op), std::hash<std::string>()(vs(sh))));
    Vals v;
    sched(c, np, c.thorough() ? 3 : np == 2 ? 2 : 1, in, std::string(sopn[op]) + " with shares " + vs(sh), [&](int rank) {
        if (v.empty()) v.resize(size_t(np));
        share_body(op, sh, rank, v);
    });
}
SCENARIO(flow_schedules)
{
    int a = c.pick(10, "operation"), kind = c.pick(6, "files"), np = c.range(2, 3, "np");
    size_t blk = size_t(c.pick(2, "block")) * 2;
    if (!c.go()) return;
    mc::FS in = flow_in(kind, blk);
    c.state(mc::mix(size_t(a * 10 + kind), size_t(np * 10) + blk));
    Vals v;
    sched(c, np, c.thorough() && np == 2 ? 2 : 1, in, std::string(fop[a]) + " and output of file set " + S(kind), [&](int rank) {
        if (v.empty()) v.resize(size_t(np));
        flow_body({a}, rank, v);
    });
}
// Sets, gathers and utilities on many processes
SCENARIO(flows)
{
    int a = c.pick(11, "first"), b = c.pick(11, "second"), kind = c.pick(6, "files"), np = c.range(1, c.thorough() ? 8 : 6, "np");
    if (!c.go()) return;
    for (size_t blk = 0; blk < 3; blk++) {
        mc::FS in = flow_in(kind, blk);
        mc::fs()  = in;
        mc::Config cfg;
        cfg.nranks = np;
        Vals v(static_cast<size_t>(np));
        auto r = mc::run_case(c, cfg, [&](int rank) { flow_body({a, b}, rank, v); });
        c.state(mc::mix(size_t(a * 100 + b * 10 + kind), size_t(np * 10) + blk));
        c.outcome(size_t(r.io_calls));
        if (c.failed()) return;
    }
}
SCENARIO(utilities)
{
    int u = c.pick(12, "utility"), n = c.range(0, 9, "traces"), np = c.range(1, c.thorough() ? 9 : 6, "np");
    if (!c.go()) return;
    if (n == 0 && u == 8) return;
    if ((u == 9 || u == 10) && n < np) return;
    mc::FS in                    = util_in(u, n, 0);
    exseisdat_model_check_memlim = size_t(1) << 30;
    exseisdat_model_check_block  = 4096;
    mc::fs()                     = in;
    mc::Config cfg;
    cfg.nranks = np;
    auto r     = mc::run_case(c, cfg, [&](int) { util_body(u, n); });
    c.state(mc::mix(size_t(u * 100 + n), size_t(np)));
    c.outcome(size_t(r.io_calls));
    if (c.failed() || np > 3 || (!c.thorough() && n > 4)) return;
    sched(c, np, 1, in, std::string(un[u]) + " of " + S(n) + " traces", [&](int) { util_body(u, n); });
}
