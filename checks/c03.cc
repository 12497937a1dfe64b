// C03: the same work done by one process and by several processes, however the
// traces are divided, gives the same files, values and orders.
#include "work.hh"
// what a run leaves behind: the files and the list of values of all processes
struct Res {
    mc::FS fs;
    std::vector<std::string> val;
};
static std::string diff(const Res& a, const Res& b)
{
    for (auto& f : a.fs)
        if (!b.fs.count(f.first)) return "no file " + f.first;
    for (auto& f : b.fs) {
        auto it = a.fs.find(f.first);
        if (it == a.fs.end()) return "an additional file " + f.first;
        if (it->second == f.second) continue;
        if (it->second.size != f.second.size) return "file " + f.first + " has " + S(f.second.size) + " bytes instead of " + S(it->second.size);
        for (uint64_t p = 0; p < f.second.size; p++) {
            uc x, y;
            it->second.read(p, &x, 1);
            f.second.read(p, &y, 1);
            if (x != y) return "byte " + S(p) + " of " + f.first + " is " + S(int(y)) + " instead of " + S(int(x));
        }
        return "file " + f.first + " differs";
    }
    if (a.val.size() != b.val.size()) return S(b.val.size()) + " values instead of " + S(a.val.size());
    for (size_t i = 0; i < a.val.size(); i++)
        if (a.val[i] != b.val[i]) return "value " + S(i) + " is " + b.val[i] + " instead of " + a.val[i];
    return "";
}
static Res run(mc::Case& c, int np, const mc::FS& in, const std::function<void(int, Vals&)>& body)
{
    Res r;
    mc::fs() = in;
    Vals v(static_cast<size_t>(np));
    mc::Config cfg;
    cfg.nranks = np;
    mc::run_case(c, cfg, [&](int k) { body(k, v); });
    r.fs = mc::fs();
    for (auto& x : v) r.val.insert(r.val.end(), x.begin(), x.end());
    return r;
}
// ------------------------------------------------------------- file access
// Every way to give the traces to processes, in several calls.
static const char* wmode[] = {"traces with parameters", "traces then parameters", "parameters then traces", "traces with parameters in the opposite order", "two traces for each call"};
SCENARIO(write)
{
    int np = c.range(2, 3, "np"), n = c.range(0, c.thorough() ? 6 : np == 2 ? 5 : 4, "traces"), mode = c.pick(5, "mode"), ns = c.pick(2, "ns") * 3;
    std::vector<int> own;
    for (int i = 0; i < n; i++) own.push_back(c.pick(np, "owner"));
    if (!c.go()) return;
    auto go = [&](int np_, const std::vector<int>& o) {
        return run(c, np_, {}, [&](int rank, Vals& v) {
            auto piol = ExSeis::New();
            {
                WriteDirect wd(piol, "w.segy");
                WriteInterface* f = &static_cast<WriteInterface&>(wd);
                f->writeText("Some text");
                f->writeNs(size_t(ns));
                f->writeNt(size_t(n));
                f->writeInc(1e-3);
                std::vector<size_t> mine;
                for (int i = 0; i < n; i++)
                    if (o[size_t(i)] == rank) mine.push_back(size_t(i));
                size_t step = mode == 4 ? 2 : size_t(n) + 1;
                for (size_t at = 0; at < (mode == 4 ? size_t(n) : 1); at += step) {
                    size_t to = std::min(at + step, mine.size());
                    std::vector<size_t> l(mine.begin() + long(std::min(at, mine.size())), mine.begin() + long(to));
                    Param p(l.size());
                    std::vector<float> t(l.size() * size_t(ns) + 1);
                    for (size_t q = 0; q < l.size(); q++) {
                        param_utils::setPrm(q, PIOL_META_il, Integer(100 + l[q]), &p);
                        param_utils::setPrm(q, PIOL_META_xSrc, 2.5 * double(l[q]), &p);
                        param_utils::setPrm(q, PIOL_META_tn, l[q], &p);
                        for (size_t k = 0; k < size_t(ns); k++) t[q * size_t(ns) + k] = float(l[q] * 10 + k) + 0.5f;
                    }
                    if (mode == 2) f->writeParamNonContiguous(l.size(), l.data(), &p);
                    f->writeTraceNonContiguous(l.size(), l.data(), t.data(), mode == 1 || mode == 2 ? PIOL_PARAM_NULL : &p);
                    if (mode == 1) f->writeParamNonContiguous(l.size(), l.data(), &p);
                }
            }
            (void)v;
            piol->isErr();
        });
    };
    Res one = go(1, std::vector<int>(size_t(n), 0));
    if (c.failed()) return;
    Res many = go(np, own);
    if (c.failed()) return;
    uint64_t h = size_t(np * 10 + mode);
    for (int k : own) h = mc::mix(h, size_t(k));
    c.state(mc::mix(h, size_t(ns)));
    std::string e = diff(one, many), s;
    for (int k : own) s += S(k) + " ";
    if (!e.empty()) c.fail("write", std::string(wmode[mode]) + ", traces of processes " + s + ": " + e);
}
// Contiguous shares; reads, orders, extremes, gathers
SCENARIO(shares)
{
    int np = c.range(2, 4, "np"), n = c.range(0, c.thorough() ? 8 : 6, "traces"), op = c.pick(7, "operation"), seed = c.pick(3, "values");
    if (!c.go()) return;
    if (op == 5 && n == 0) return;  // there are no extremes
    mc::FS in;
    input(in, size_t(n), 2, seed);
    auto go = [&](const std::vector<size_t>& sh) {
        return run(c, int(sh.size()), in, [&](int rank, Vals& v) { share_body(op, sh, rank, v); });
    };
    Res one = go({size_t(n)});
    if (c.failed()) return;
    std::vector<std::vector<size_t>> all;
    all_shares(size_t(n), np, all);
    for (auto& sh : all) {
        Res many = go(sh);
        if (c.failed()) return;
        c.state(mc::mix(mc::mix(size_t(op), size_t(seed)), std::hash<std::string>()(vs(sh))));
        if (op == 6) {
            // offsets are the sums of the shares before
            auto of = offs_of(sh);
            one.val.clear();
            for (auto x : of) one.val.push_back(S(x));
        }
        // the same extremes on every process
        if (op == 5) one.val.assign(sh.size(), one.val.at(0));
        std::string e = diff(one, many);
        if (!e.empty()) return c.fail("shares", std::string(sopn[op]) + " of " + S(n) + " traces with shares " + vs(sh) + ": " + e);
    }
}
SCENARIO(gathers)
{
    int n = c.range(0, c.thorough() ? 8 : 7, "traces");
    std::vector<int> brk;
    for (int i = 1; i < n; i++) brk.push_back(c.pick(3, "change"));
    if (!c.go()) return;
    mc::FS in;
    std::vector<int> il(size_t(n) + 1), xl(size_t(n) + 1);
    for (int i = 1; i < n; i++) {
        il[size_t(i)] = il[size_t(i) - 1] + (brk[size_t(i) - 1] == 1);
        xl[size_t(i)] = xl[size_t(i) - 1] + (brk[size_t(i) - 1] == 2);
    }
    put_file(in["in.segy"], ho_bytes("C", 1, 1000, 5, true), size_t(n), 1, [&](size_t i, uc* h) {
        put32(h + 188, uint32_t(il[i]));
        put32(h + 192, uint32_t(xl[i]));
    }, [](size_t, size_t) { return 0u; });
    Res one;
    for (int np = 1; np <= (c.thorough() ? 6 : 4); np++) {
        Res r = run(c, np, in, [&](int rank, Vals& v) {
            auto piol = ExSeis::New();
            {
                ReadDirect rd(piol, "in.segy");
                ReadInterface* ri = rd;
                auto g            = getIlXlGathers(piol.get(), ri);
                if (rank == 0)
                    for (size_t i = 0; i < g.size(); i++) {
                        Gather_info x = g[i];
                        v[0].push_back(S(x.num_traces) + "x" + S(x.inline_) + "," + S(x.crossline));
                    }
                piol->comm->barrier();
            }
            piol->isErr();
        });
        if (c.failed()) return;
        c.state(mc::mix(size_t(np), mc::mix(size_t(n), mc::mix(size_t(il[size_t(n ? n - 1 : 0)]), size_t(xl[size_t(n ? n - 1 : 0)])))));
        if (np == 1) one = r;
        std::string e = diff(one, r);
        if (!e.empty()) return c.fail("gathers", "gathers of " + S(n) + " traces on " + S(np) + " processes: " + e);
    }
}
// ---------------------------------------------------------- set processing
static Res flow(mc::Case& c, int np, int kind, const std::vector<int>& ops, size_t blk)
{
    mc::FS in = flow_in(kind, blk);
    return run(c, np, in, [&](int rank, Vals& v) { flow_body(ops, rank, v); });
}
static void drop_temp(Res& r)
{
    // results kept between operations belong to the set
    for (auto it = r.fs.begin(); it != r.fs.end();)
        if (it->first.find("temp") != std::string::npos) it = r.fs.erase(it);
        else ++it;
}
static void flows(mc::Case& c, const std::vector<int>& ops, int kind, int maxp, bool blocks)
{
    Res one = flow(c, 1, kind, ops, 0);
    if (c.failed()) return;
    drop_temp(one);
    for (int np = 1; np <= maxp; np++)
        for (size_t blk = 0; blk < (blocks ? 4 : 1); blk++) {
            if (np == 1 && blk == 0) continue;
            size_t b = blocks ? blk : size_t(np) % 3;
            Res r    = flow(c, np, kind, ops, b);
            if (c.failed()) return;
            drop_temp(r);
            uint64_t h = mc::mix(size_t(np * 16 + kind), b);
            for (int o : ops) h = mc::mix(h, size_t(o));
            c.state(h);
            std::string e = diff(one, r);
            if (!e.empty()) {
                std::string s;
                for (int o : ops) s += std::string(fop[o]) + ", ";
                return c.fail("flow", s + "output of file set " + S(kind) + " on " + S(np) + " processes with blocks of " + (b ? S(b) : std::string("all")) + " traces: " + e);
            }
        }
    c.outcome(std::hash<std::string>()(one.val.empty() ? "" : one.val[0]) + one.fs.size());
}
SCENARIO(flow1)
{
    int a = c.pick(11, "operation"), kind = c.pick(6, "files");
    if (!c.go()) return;
    flows(c, {a}, kind, c.thorough() ? 8 : 6, true);
}
SCENARIO(flow2)
{
    int a = c.pick(10, "first"), b = c.pick(10, "second"), kind = c.pick(6, "files");
    if (!c.go()) return;
    flows(c, {a, b}, kind, c.thorough() ? 6 : 4, true);
}
SCENARIO_THOROUGH(flow3)
{
    int a = c.pick(10, "first"), b = c.pick(10, "second"), d = c.pick(10, "third");
    if (!c.go()) return;
    for (int kind = 0; kind < 3; kind++) flows(c, {a, b, d}, kind, 3, false);
}
// The same with every bounded deviation of the scheduler
static void explore(mc::Case& c, int np, int bound, const mc::FS& in, const Res& one, const std::string& what, const std::function<void(int, Vals&)>& body)
{
    Vals v;
    mc::Config cfg;
    cfg.nranks           = np;
    cfg.explore_sched    = true;
    cfg.bound[mc::SCHED] = bound;
    mc::explore_case(c, cfg, [&] {
        mc::fs() = in;
        v.assign(static_cast<size_t>(np), {}); }, [&](int k) { body(k, v); }, [&](const mc::Result& r) {
        if (r.status != mc::Status::Done) return c.fail("run", std::string(mc::status_name(r.status)) + ": " + r.msg);
        Res m;
        m.fs = mc::fs();
        for (auto& x : v) m.val.insert(m.val.end(), x.begin(), x.end());
        drop_temp(m);
        std::string e = diff(one, m);
        if (!e.empty()) c.fail("schedule", what + ": " + e);
    });
}
SCENARIO(schedules)
{
    int op = c.range(0, 5, "operation"), np = c.range(2, 3, "np"), n = c.range(2, c.thorough() ? 4 : 3, "traces"), seed = c.pick(2, "values");
    std::vector<std::vector<size_t>> all;
    all_shares(size_t(n), np, all);
    auto sh = pickv(c, all, "shares");
    if (!c.go()) return;
    mc::FS in;
    input(in, size_t(n), 2, seed);
    std::vector<size_t> s1{size_t(n)};
    Res one = run(c, 1, in, [&](int rank, Vals& v) { share_body(op, s1, rank, v); });
    if (c.failed()) return;
    if (op == 5) one.val.assign(sh.size(), one.val.at(0));
    explore(c, np, c.thorough() ? 2 : 1, in, one, std::string(sopn[op]) + " of " + S(n) + " traces with shares " + vs(sh), [&](int rank, Vals& v) { share_body(op, sh, rank, v); });
}
SCENARIO(flow_schedules)
{
    static const std::vector<std::vector<int>> prog{{0}, {1}, {2}, {4}, {7}, {9}, {0, 3}, {6, 0}};
    size_t p = size_t(c.pick(8, "operations"));
    int kind = c.pick(3, "files"), np = c.range(2, c.thorough() ? 3 : 2, "np");
    size_t blk = size_t(c.pick(2, "block")) * 2;
    if (!c.go()) return;
    mc::FS in = flow_in(kind, 0);
    Res one   = run(c, 1, in, [&](int rank, Vals& v) { flow_body(prog[p], rank, v); });
    if (c.failed()) return;
    drop_temp(one);
    flow_in(kind, blk);
    explore(c, np, 1, in, one, std::string(fop[prog[p][0]]) + " and output of file set " + S(kind), [&](int rank, Vals& v) { flow_body(prog[p], rank, v); });
}
// --------------------------------------------------------------- utilities
SCENARIO(utilities)
{
    int u = c.pick(12, "utility"), n = c.range(0, 9, "traces"), seed = c.pick(u == 9 || u == 10 ? 4 : 2, "values");
    if (!c.go()) return;
    if (n == 0 && u == 8) return;  // no extremes
    mc::FS in = util_in(u, n, seed);
    exseisdat_model_check_memlim = size_t(1) << 30;
    exseisdat_model_check_block  = 4096;
    auto go                      = [&](int np) {
        return run(c, np, in, [&](int, Vals&) {
            util_body(u, n);
        });
    };
    Res one;
    for (int np = 1; np <= (c.thorough() ? 8 : 5); np++) {
        Res r = go(np);
        if (c.failed()) return;
        drop_temp(r);
        if (np == 1) one = r;
        c.state(mc::mix(size_t(np), size_t(u * 100 + n * 2 + seed)));
        c.outcome(one.fs.size());
        std::string e = diff(one, r);
        if (!e.empty()) return c.fail("utilities", std::string(un[u]) + " of " + S(n) + " traces on " + S(np) + " processes: " + e);
    }
}
// ---------------------------------------------------- more traces, processes
static std::vector<std::vector<size_t>> big_shares(size_t n)
{
    std::vector<std::vector<size_t>> a;
    for (size_t np : {2, 5, 8, 9, 16}) {
        std::vector<size_t> even(np), last(np), odd(np), geom(np);
        last[np - 1] = n;
        size_t left  = n;
        for (size_t r = 0; r < np; r++) {
            even[r] = n * (r + 1) / np - n * r / np;
            geom[r] = r + 1 == np ? left : left / 2;
            left -= geom[r];
        }
        size_t h = np / 2;
        for (size_t r = 0; r < h; r++) odd[2 * r + 1] = n * (r + 1) / h - n * r / h;
        for (auto& x : {even, last, odd, geom}) a.push_back(x);
    }
    return a;
}
SCENARIO(large_shares)
{
    size_t n = c.of(c.thorough() ? std::vector<size_t>{64, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4097} : std::vector<size_t>{64, 257, 1025}, "traces");
    int op = c.pick(7, "operation"), seed = c.pick(2, "values");
    auto all = big_shares(n);
    size_t k = size_t(c.pick(int(all.size()), "shares"));
    auto sh  = all[k];
    if (!c.go()) return;
    // (sorts of uneven shares pass traces from process to process many times)
    if ((op == 3 || op == 4) && n > 64 && (sh.size() > 9 || (k % 4 && n > 300))) return;
    mc::FS in;
    input(in, n, 2, seed);
    auto go = [&](const std::vector<size_t>& s) {
        return run(c, int(s.size()), in, [&](int rank, Vals& v) { share_body(op, s, rank, v); });
    };
    Res one = go({n});
    if (c.failed()) return;
    Res many = go(sh);
    if (c.failed()) return;
    c.state(mc::mix(mc::mix(size_t(op), size_t(seed)), std::hash<std::string>()(vs(sh))));
    if (op == 6) {
        auto of = offs_of(sh);
        one.val.clear();
        for (auto x : of) one.val.push_back(S(x));
    }
    if (op == 5) one.val.assign(sh.size(), one.val.at(0));
    std::string e = diff(one, many);
    if (!e.empty()) return c.fail("shares", std::string(sopn[op]) + " of " + S(n) + " traces with shares " + vs(sh) + ": " + e);
}
static void large_flow(mc::Case& c, const std::vector<int>& l, int kind, const std::vector<int>& nps, const std::vector<size_t>& blks)
{
    Res one = flow(c, 1, kind, l, 0);
    if (c.failed()) return;
    drop_temp(one);
    for (int np : nps)
        for (size_t blk : blks) {
            if (np == 1 && blk == 0) continue;
            Res r = flow(c, np, kind, l, blk);
            if (c.failed()) return;
            drop_temp(r);
            c.state(mc::mix(mc::hash_bytes(l.data(), l.size() * 4), size_t(np * 16 + kind) * 100 + blk));
            std::string e = diff(one, r);
            if (!e.empty()) {
                std::string s;
                for (int o : l) s += std::string(fop[o]) + ", ";
                return c.fail("flow", s + "output of file set " + S(kind) + " on " + S(np) + " processes with blocks of " + (blk ? S(blk) : std::string("all")) + " traces: " + e);
            }
        }
}
SCENARIO(large_flows)
{
    int a = c.pick(10, "first"), b = c.pick(11, "second"), kind = c.range(6, 9, "files");
    if (!c.go()) return;
    bool deep = c.thorough();
    // (the gathers of the last one are too many)
    if (kind == 9 && (a == 9 || b == 9) && !deep) return;
    std::vector<int> l{a};
    if (b < 10) l.push_back(b);
    large_flow(c, l, kind, deep ? std::vector<int>{1, 2, 3, 5, 8, 9, 16} : kind == 8 ? std::vector<int>{3, 8} : std::vector<int>{8}, deep ? std::vector<size_t>{0, 7, 64} : std::vector<size_t>{b % 2 ? size_t(0) : size_t(50)});
}
// Many operations one after another
SCENARIO(long_flows)
{
    int len = c.of(c.thorough() ? std::vector<int>{4, 6, 9, 17, 33} : std::vector<int>{5, 9, 17}, "operations");
    int from = c.pick(10, "first"), step = c.of(std::vector<int>{0, 1, 3, 7}, "step"), kind = c.pick(c.thorough() ? 6 : 3, "files");
    if (!c.go()) return;
    std::vector<int> l;
    for (int i = 0; i < len; i++) l.push_back((from + i * step) % 10);
    // (filtered and gained again and again the samples leave the domain; one
    // angle transform leaves lines which the next can not have)
    size_t angles = 0;
    for (auto& o : l) {
        if (o == 9 && angles++) o = 3;
    }
    large_flow(c, l, kind, {2, 5}, {0, 2});
}
SCENARIO(large_utilities)
{
    int u = c.pick(11, "utility"), n = c.of(c.thorough() ? std::vector<int>{33, 64, 129, 257, 300, 1025} : std::vector<int>{64, 300}, "traces"), seed = c.pick(2, "values");
    if (!c.go()) return;
    mc::FS in = util_in(u, n, seed);
    exseisdat_model_check_memlim = size_t(1) << 30;
    exseisdat_model_check_block  = 4096;
    Res one;
    for (int np : c.thorough() ? std::vector<int>{1, 2, 5, 7, 8, 9, 16} : std::vector<int>{1, 7, 8}) {
        Res r = run(c, np, in, [&](int, Vals&) { util_body(u, n); });
        if (c.failed()) return;
        drop_temp(r);
        if (np == 1) one = r;
        c.state(mc::mix(size_t(np), size_t(u * 10000 + n * 2 + seed)));
        std::string e = diff(one, r);
        if (!e.empty()) return c.fail("utilities", std::string(un[u]) + " of " + S(n) + " traces on " + S(np) + " processes: " + e);
    }
}
