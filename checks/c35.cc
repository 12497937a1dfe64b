// C35: working memory stays within the memory limit.
#include <algorithm>
#include "work.hh"


extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
int util_main_verifysort(int, char**);
int util_main_assess(int, char**);
int util_main_traceanalysis(int, char**);
int util_main_segy2kml(int, char**);
static bool g_on = false;
static long g_live = 0, g_peak = 0;
static bool counted(size_t n) { return n > 256 && n != mc::SparseFile::PS; }
static void on_malloc(const volatile void*, size_t n)
{
    if (!g_on || !counted(n)) return;
    g_live += long(n);
    g_peak = std::max(g_peak, g_live);
}
static void on_free(const volatile void* p)
{
    if (!g_on || !p) return;
    size_t n = __sanitizer_get_allocated_size(p);
    if (counted(n)) g_live -= long(n);
}
static mc::Result measured(mc::Case& c, int np, const std::function<void(int)>& body)
{
    static int h = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    (void)h;
    mc::Config cfg;
    cfg.nranks = np;
    // the tables of the checker itself may grow during one of the runs
    long least = -1;
    mc::Result r;
    const mc::FS in = mc::fs();
    for (int k = 0; k < 2; k++) {
        mc::fs() = in;
        g_live = g_peak = 0;
        g_on = true;
        r = mc::run_case(c, cfg, body);
        g_on = false;
        if (least < 0 || g_peak < least) least = g_peak;
    }
    g_peak = least;
    return r;
}
// An input whose samples are large in comparison with its headers.
static const int g_ns = 4000;
static const size_t g_trace = size_t(g_ns) * 4;
static void big(const std::string& n, size_t nt, int seed)
{
    put_file(mc::fs()[n], ho_bytes("C", g_ns, 1000, 5, true), nt, size_t(g_ns), [&](size_t i, uc* h) {
        geo(i, h, seed);
        put16(h + 114, g_ns);
        put16(h + 116, 1000);
        put32(h + 188, uint32_t(1 + i / 8));
        put32(h + 192, uint32_t(1 + i / 4 % 2));
    }, [&](size_t, size_t) { return bits(0.f); });
}
// a velocity for every line of the input
static void model(size_t nt)
{
    put_file(mc::fs()["model.segy"], ho_bytes("C", 4, 1000, 5, true), (nt / 8 + 1) * 2, 4, [&](size_t t, uc* h) {
        put32(h + 188, uint32_t(1 + t / 2));
        put32(h + 192, uint32_t(1 + t % 2));
    }, [&](size_t, size_t) { return bits(1500.f); });
}
// Twice the limit on every process, some whole traces, and room for the
// headers and the order of every trace.
static const size_t per_trace = 1000, per_process = 65536;
static void verdict(mc::Case& c, const std::string& w, int np, size_t lim, size_t nt, size_t more = 0)
{
    size_t bound = size_t(np) * (2 * lim + per_process + 4 * g_trace) + nt * per_trace + more;
    c.state(mc::hash_bytes(w.data(), w.size()));
    if (size_t(g_peak) > bound)
        c.fail("memory", w + ": " + S(size_t(g_peak)) + " bytes of memory in use on " + S(np) + " process(es) although " + (lim ? "the limit is " + S(lim) + " bytes per process" : std::string("no samples are needed")) + " (at most " + S(bound) + " expected)");
}
static void op_on(Set& s, int op)
{
    switch (op) {
        case 0: s.sort(PIOL_SORTTYPE_SrcRcv); break;
        case 1: s.sort(user_less); break;
        case 2: s.taper(half, 2, 1); break;
        case 3: s.AGC(exseis::utils::rectangular_RMS_gain, 3, 1.5f); break;
        case 4: s.temporalFilter(FltrType::Lowpass, FltrDmn::Time, PadType::Zero, 30.f, size_t(2), std::vector<float>{3.f, 0.f}); break;
        case 5: s.temporalFilter(FltrType::Lowpass, FltrDmn::Freq, PadType::Zero, 30.f, size_t(2), std::vector<float>{3.f, 0.f}); break;
        case 6: {
            std::vector<CoordElem> mm(4);
            s.getMinMax(PIOL_META_xRcv, PIOL_META_ySrc, mm.data());
            break;
        }
        case 7: s.output("mid"); break;
        case 8: s.toAngle("model.segy", 2, 4, 0.02f); break;
        default: break;
    }
}
static const char* const ops[] = {"sort", "sort by a function", "taper", "gain control", "filter", "filter by frequency", "extremes", "output", "angles", "-"};
// every sequence of operations
SCENARIO(sets)
{
    int depth = c.thorough() ? 3 : 2;
    int N     = c.range(0, c.thorough() ? 2 : 0, "traces");
    int np    = c.range(1, c.thorough() ? 4 : 3, "np");
    int nf    = c.range(1, 2, "files");
    size_t lim = size_t(1) << c.range(17, c.thorough() ? 19 : 17, "limit");
    std::vector<int> l;
    std::string w;
    for (int i = 0; i < depth; i++) {
        int o = c.pick(10, "op");
        if (o == 9) break;
        l.push_back(o);
    }
    if (!c.go()) return;
    for (int o : l) w += std::string(ops[o]) + ", ";
    size_t nt = size_t(160) << (N * 2);
    static std::map<std::pair<size_t, int>, mc::FS> made;
    auto& in = made[{nt, nf}];
    if (in.empty()) {
        mc::fs().clear();
        for (int f = 0; f < nf; f++) big("s" + S(f) + ".segy", nt / size_t(nf), f);
        model(nt);
        in = mc::fs();
    }
    mc::fs() = in;
    exseisdat_model_check_memlim = lim;
    auto r = measured(c, np, [&](int rank) {
        auto piol = ExSeis::New(PIOL_VERBOSITY_NONE, MPI_COMM_WORLD);
        Set s(piol, "s*.segy");
        for (int o : l) op_on(s, o);
        s.output("out");
    });
    exseisdat_model_check_memlim = size_t(1) << 30;
    if (r.status != mc::Status::Done) return;
    // a gather is transformed as a whole
    size_t more = size_t(np) * 16 * 4 * g_trace * size_t(std::count(l.begin(), l.end(), 8));
    verdict(c, w + "output of " + S(nt) + " traces of " + S(nf) + " file(s) with " + S(lim) + " bytes", np, lim, nt, more);
}
static const char* const uname[] = {"fourdbin", "fourdbin -x", "makerep", "makerep naive1", "makerep naive2", "filemake -l", "filemake -r", "filemake", "sort", "concatenate", "radon", "minmax", "verifysort", "segy2kml", "assess", "traceanalysis"};
SCENARIO(utilities)
{
    int u  = c.pick(16, "utility");
    int np = c.range(1, c.thorough() ? 4 : 3, "np");
    int M  = c.pick(c.thorough() ? 3 : 2, "limit");
    int N  = c.range(0, c.thorough() ? 2 : 1, "traces");
    if (!c.go()) return;
    size_t nt = size_t(240) << (N * 2), lim = size_t(131072) << (M * 2);
    mc::fs().clear();
    exseisdat_model_check_memlim = lim;
    // makerep uses two blocks at a time when they are small
    static const size_t blocks[] = {16384, 32768, 60000};
    exseisdat_model_check_block = blocks[M];
    if (u < 2)
        for (int f = 0; f < 2; f++)
            put_file(mc::fs()["survey" + S(f)], ho_bytes("C", g_ns, 1000, 5, true), nt, size_t(g_ns), [&](size_t i, uc* h) {
                put16(h + 68, 1);
                put16(h + 70, 1);
                put32(h + 72, uint32_t(i * 10 + size_t(f)));
                put32(h + 188, 1);
            }, [&](size_t, size_t) { return 0u; });
    else if (u < 5 || u > 7) big("in.segy", nt, 1);
    if (u == 10) model(nt);
    std::string mib = S(M + 1);
    auto r = measured(c, np, [&](int) {
        switch (u) {
            case 0: call(util_main_fourdbin, {"fourdbin", "-a", "survey0", "-b", "survey1", "-c", "o0", "-d", "o1", "-t", "2", "-p"}); break;
            case 1: call(util_main_fourdbin, {"fourdbin", "-a", "survey0", "-b", "survey1", "-c", "o0", "-d", "o1", "-t", "2", "-x"}); break;
            case 2: call(util_main_makerep, {"makerep", "-i", "in.segy", "-o", "out", "-v", "standard", "-r", "3"}); break;
            case 3: call(util_main_makerep, {"makerep", "-i", "in.segy", "-o", "out", "-v", "naive1", "-r", "3"}); break;
            case 4: call(util_main_makerep, {"makerep", "-i", "in.segy", "-o", "out", "-v", "naive2", "-r", "3"}); break;
            case 5: call(util_main_filemake, {"filemake", "-o", "out.segy", "-s", S(g_ns), "-t", S(nt), "-m", mib, "-i", "0.001", "-l"}); break;
            case 6: call(util_main_filemake, {"filemake", "-o", "out.segy", "-s", S(g_ns), "-t", S(nt), "-m", mib, "-i", "0.001", "-r"}); break;
            case 7: call(util_main_filemake, {"filemake", "-o", "out.segy", "-s", S(g_ns), "-t", S(nt), "-m", mib, "-i", "0.001"}); break;
            case 8: call(util_main_sort, {"sort", "-i", "in.segy", "-o", "out"}); break;
            case 9: call(util_main_concatenate, {"concatenate", "-i", "*n.segy", "-o", "out"}); break;
            case 10: call(util_main_radon, {"radon", "-i", "in.segy", "-o", "out", "-v", "model.segy", "-b", "2", "-a", "4"}); break;
            case 11: call(util_main_minmax, {"minmax", "-i", "in.segy", "-o", "out.segy"}); break;
            case 12: call(util_main_verifysort, {"verifysort", "-i", "in.segy"}); break;
            case 13: call(util_main_segy2kml, {"segy2kml", "-i", "in.segy", "-o", "x"}); break;
            case 14: call(util_main_assess, {"assess", "-i", "in.segy"}); break;
            case 15: call(util_main_traceanalysis, {"traceanalysis", "-i", "in.segy"}); break;
        }
    });
    exseisdat_model_check_memlim = size_t(1) << 30;
    exseisdat_model_check_block  = 2097152;
    if (r.status != mc::Status::Done) return;
    size_t more = u == 10 ? size_t(np) * 16 * 4 * g_trace : 0;
    if (u >= 2 && u <= 4) lim = 4 * blocks[M];  // two blocks and their new distribution
    if (u >= 5 && u <= 7) lim = size_t(M + 1) << 20;
    if (u >= 11) lim = 0;
    verdict(c, std::string(uname[u]) + " of " + S(nt) + " traces (size " + S(M) + ")", np, lim, nt, more);
}
// The memory of a read or write (which includes that of the caller) is set by the share of the process, and
// headers are read without the samples.
SCENARIO(direct)
{
    int u      = c.pick(7, "op");
    if (u >= 2) u++;
    int np     = c.range(1, c.thorough() ? 4 : 3, "np");
    size_t nt  = size_t(60) << c.range(0, c.thorough() ? 5 : 3, "traces");
    int prm    = c.pick(2, "headers");
    if (!c.go()) return;
    mc::fs().clear();
    big("in.segy", nt, 1);
    size_t cnt = nt / size_t(np);
    auto r = measured(c, np, [&](int rank) {
        auto piol = ExSeis::New(PIOL_VERBOSITY_NONE, MPI_COMM_WORLD);
        ReadDirect rd(piol, "in.segy");
        ReadInterface* r = rd;
        std::vector<size_t> l;
        size_t o = cnt * size_t(rank);
        for (size_t i = 0; i < cnt; i++) l.push_back(i * size_t(np) + size_t(rank));
        Param p(cnt);
        Param* pp = prm ? &p : const_cast<Param*>(PIOL_PARAM_NULL);
        std::vector<float> t(u >= 3 ? cnt * size_t(g_ns) : 0);
        if (u == 0) r->readParam(o, cnt, &p);
        if (u == 1) r->readParamNonContiguous(cnt, l.data(), &p);
        if (u == 3) r->readTrace(o, cnt, t.data(), pp);
        if (u == 4) r->readTraceNonContiguous(cnt, l.data(), t.data(), pp);
        if (u == 5) r->readTraceNonMonotonic(cnt, l.data(), t.data(), pp);
        if (u >= 6) {
            WriteDirect wd(piol, "out.segy");
            WriteInterface* f = &static_cast<WriteInterface&>(wd);
            f->writeNs(size_t(g_ns));
            f->writeInc(1e-3);
            Param* all = &p;
            if (u == 6) f->writeTrace(o, cnt, t.data(), all);
            else f->writeTraceNonContiguous(cnt, l.data(), t.data(), all);
        }
    });
    if (r.status != mc::Status::Done) return;
    static const char* const n[] = {"headers", "headers of a list", "headers in any order", "traces", "traces of a list", "traces in any order", "traces written", "traces written by a list"};
    verdict(c, std::string(n[u]) + ", " + S(nt) + " traces" + (prm ? " with headers" : ""), np, u < 3 ? 0 : cnt * g_trace * 2, nt);
}
