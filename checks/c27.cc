// C27: the utilities that copy, concatenate, sort and generate files, run on
// every process of the model.
#include "sets.hh"
#include <algorithm>
#include <iostream>
#include "ExSeisDat/utils/decomposition/block_decomposition.h"
using namespace cm;
int util_main_makerep(int, char**);
int util_main_concatenate(int, char**);
int util_main_filemake(int, char**);
int util_main_sort(int, char**);
int util_main_verifysort(int, char**);
int util_main_minmax(int, char**);
int util_main_radon(int, char**);
exseis::utils::Contiguous_decomposition blockDecomp(size_t sz, size_t bsz, size_t numRank, size_t rank, size_t off);
std::vector<size_t> lobdecompose(exseis::PIOL::ExSeisPIOL* piol, size_t sz, size_t numRank, size_t rank);
extern size_t exseisdat_model_check_block;

static int g_ret = 0;
static void call(int (*f)(int, char**), const std::vector<std::string>& a)
{
    std::vector<std::string> s = a;
    std::vector<char*> v;
    for (auto& x : s) v.push_back(const_cast<char*>(x.c_str()));
    v.push_back(nullptr);
    int r = f(int(s.size()), v.data());
    if (r) g_ret = r;
}
// -------------------------------------------------------------- replicate
static uc pat(uint64_t p) { return uc((p * 2654435761u >> 7) ^ (p >> 11) ^ (p >> 17) * 37); }
struct Rep {
    size_t fsz, block;
    int np, ver, rep;
};
static const char* vers[] = {"standard", "naive1", "naive2"};
static void rep_setup(const Rep& q)
{
    g_ret = 0;
    exseisdat_model_check_block = q.block;
    mc::fs().clear();
    std::vector<uc> d(q.fsz);
    for (size_t i = 0; i < q.fsz; i++) d[i] = pat(i);
    mc::fs()["in"].write(0, d.data(), d.size());
}
static void rep_body(const Rep& q) { call(util_main_makerep, {"makerep", "-i", "in", "-o", "out", "-v", vers[q.ver], "-r", S(q.rep)}); }
static std::string rep_verify(const Rep& q)
{
    std::string w = "copy " + std::string(vers[q.ver]) + " of " + S(q.fsz) + " bytes " + S(q.rep) + " times with blocks of " + S(q.block) + " on " + S(q.np) + " processes: ";
    if (g_ret) return w + "returns " + S(g_ret);
    if (!mc::fs().count("out")) return w + "no output";
    auto& o      = mc::fs()["out"];
    size_t want  = 3600 + (q.fsz - 3600) * size_t(q.rep);
    if (o.size != want) return w + "the output has " + S(o.size) + " bytes instead of " + S(want);
    std::vector<uc> d(want);
    o.read(0, d.data(), want);
    for (size_t i = 0; i < want; i++) {
        size_t s = i < 3600 ? i : 3600 + (i - 3600) % (q.fsz - 3600);
        if (d[i] != pat(s)) return w + "byte " + S(i) + " is " + S(int(d[i])) + " instead of byte " + S(s) + " of the input, " + S(int(pat(s)));
    }
    auto& in = mc::fs()["in"];
    if (in.size != q.fsz) return w + "the input is changed";
    return "";
}
static void replicate(mc::Case& c, const Rep& q)
{
    c.state(mc::mix(mc::mix(q.fsz, q.block), size_t(q.np * 100 + q.ver * 10 + q.rep)));
    rep_setup(q);
    mc::Config cfg;
    cfg.nranks = q.np;
    auto r     = mc::run_case(c, cfg, [&](int) { rep_body(q); });
    exseisdat_model_check_block = 2097152;
    if (c.failed() || r.status != mc::Status::Done) return;
    std::string e = rep_verify(q);
    if (!e.empty()) c.fail("copy", e);
}
// every file size at the block boundaries, small blocks
SCENARIO(copy)
{
    Rep q;
    q.ver   = c.pick(3, "version");
    q.np    = c.range(1, c.thorough() ? 5 : 4, "np");
    q.rep   = c.range(1, c.thorough() ? 4 : 3, "copies");
    q.block = c.thorough() ? pickv(c, std::vector<size_t>{4096, 5000, 3600, 7201}, "block") : pickv(c, std::vector<size_t>{4096, 5000}, "block");
    size_t k = size_t(c.range(0, c.thorough() ? 16 : 12, "blocks"));
    int d    = c.pick(c.thorough() ? 9 : 7, "delta");
    if (!c.go()) return;
    static const long dl[] = {0, -1, 1, 3600, 3599, 3601, 2000, 240, -240};
    long f = long(k * q.block) + dl[d];
    if (f < 3601) return;
    q.fsz = size_t(f);
    replicate(c, q);
}
// the real block size
SCENARIO(copy_real)
{
    Rep q;
    q.ver   = c.pick(3, "version");
    q.np    = c.range(1, 4, "np");
    q.rep   = c.range(1, 3, "copies");
    q.block = 2097152;
    q.fsz   = c.thorough() ? pickv(c, std::vector<size_t>{3601, 10000, 20000, 100000, 2097151, 2097152, 2097153, 2100752, 4194304, 4194304 + 3600, 5000000, 8388608 - 1}, "size") : pickv(c, std::vector<size_t>{3601, 20000, 2097153, 4194304 + 3600}, "size");
    if (!c.go()) return;
    replicate(c, q);
}
SCENARIO(copy_schedules)
{
    Rep q;
    q.ver   = 0;
    q.np    = c.range(2, 3, "np");
    q.rep   = c.range(2, 3, "copies");
    q.block = 4096;
    q.fsz   = pickv(c, std::vector<size_t>{9000, 12288, 20480, 23000}, "size");
    if (!c.go()) return;
    c.state(mc::mix(q.fsz, size_t(q.np * 10 + q.rep)));
    mc::Config cfg;
    cfg.nranks           = q.np;
    cfg.explore_sched    = true;
    cfg.bound[mc::SCHED] = c.thorough() ? 3 : 2;
    mc::explore_case(c, cfg, [&] { rep_setup(q); }, [&](int) { rep_body(q); }, [&](const mc::Result& r) {
        if (r.status != mc::Status::Done) return c.fail("run", std::string(mc::status_name(r.status)) + ": " + r.msg);
        std::string e = rep_verify(q);
        if (!e.empty()) c.fail("copy", e);
    });
    exseisdat_model_check_block = 2097152;
}
// ------------------------------------------------------- decompositions
// blocks: contiguous shares in order, boundaries at multiples of the block
SCENARIO(shares)
{
    size_t sz = size_t(c.range(1, c.thorough() ? 60 : 40, "size")), bsz = size_t(c.range(1, 12, "block"));
    if (!c.go()) return;
    for (size_t np = 1; np <= 9; np++)
        for (size_t off = 0; off <= 2 * bsz; off++) {
            c.executed();
            c.state(mc::mix(mc::mix(sz, bsz), mc::mix(np, off)));
            size_t at = 0;
            for (size_t r = 0; r < np; r++) {
                auto d        = blockDecomp(sz, bsz, np, r, off);
                std::string w = "blocks of " + S(bsz) + " for " + S(sz) + " bytes from " + S(off) + ", process " + S(r) + " of " + S(np) + " has " + S(d.local_size) + " from " + S(d.global_offset);
                if (d.local_size == 0) continue;
                if (d.global_offset != at) return c.fail("shares", w + ", expected from " + S(at));
                if (at && (off + at) % bsz) return c.fail("shares", w + ", not at a block boundary");
                at += d.local_size;
            }
            if (at != sz) return c.fail("shares", "blocks of " + S(bsz) + " for " + S(sz) + " bytes from " + S(off) + " on " + S(np) + " processes cover " + S(at));
        }
}
SCENARIO(lobsided)
{
    int np = c.range(1, c.thorough() ? 12 : 8, "np");
    size_t k = size_t(c.range(0, 3, "part"));
    if (!c.go()) return;
    std::vector<size_t> szs;
    for (size_t s = k; s < 64; s += 4) szs.push_back(s);
    if (k == 0) szs.insert(szs.end(), {1000003, size_t(1) << 32, (size_t(1) << 33) + 5});
    for (size_t s : szs) {
        std::vector<std::vector<size_t>> got(static_cast<size_t>(np));
        mc::Config cfg;
        cfg.nranks = np;
        mc::run_case(c, cfg, [&](int rank) {
            auto piol = ExSeis::New();
            got[size_t(rank)] = lobdecompose(piol.get(), s, size_t(np), size_t(rank));
        });
        if (c.failed()) return;
        c.state(mc::mix(s, size_t(np)));
        size_t at = 0, big = 0;
        for (auto& g : got) big = std::max(big, g[1]);
        for (auto& g : got) {
            if (g[0] != at || g[2] != big) return c.fail("shares", "uneven shares of " + S(s) + " on " + S(np) + " processes: offset " + S(g[0]) + " size " + S(g[1]) + " largest " + S(g[2]) + ", expected offset " + S(at) + " largest " + S(big));
            at += g[1];
            if (g[1] > s) return c.fail("shares", "uneven shares of " + S(s) + " on " + S(np) + " processes: a share of " + S(g[1]));
        }
        if (at != s) return c.fail("shares", "uneven shares of " + S(s) + " on " + S(np) + " processes cover " + S(at));
    }
}
// --------------------------------------------------------------- generate
static void generate_one(mc::Case& c, int np, size_t nt, size_t ns, int mode)
{
    mc::fs().clear();
    g_ret = 0;
    mc::Config cfg;
    cfg.nranks = np;
    std::vector<std::string> a{"filemake", "-o", "gen.segy", "-s", S(ns), "-t", S(nt), "-m", "1", "-i", "0.002"};
    if (mode & 1) a.push_back("-l");
    if (mode & 2) a.push_back("-r");
    auto r = mc::run_case(c, cfg, [&](int) { call(util_main_filemake, a); });
    if (c.failed()) return;
    c.state(mc::mix(size_t(np * 10 + mode), mc::mix(nt, ns)));
    auto bad = [&](const std::string& m) { c.fail("generate", "file of " + S(nt) + " traces of " + S(ns) + " samples, mode " + S(mode) + ", " + S(np) + " processes: " + m); };
    if (g_ret) return bad("returns " + S(g_ret));
    OutFile o;
    std::string e = read_out("gen.segy", o);
    if (!e.empty()) return bad(e);
    if (size_t(o.ns) != ns || o.inc != 2000 || o.trc.size() != nt) return bad("it has " + S(o.trc.size()) + " traces of " + S(o.ns) + " samples at " + S(o.inc) + " us");
    if (o.text.compare(0, 10, "Test file\n")) return bad("text " + o.text.substr(0, 20));
    float half = float(nt * ns) / 2.0f, off = float(nt * ns) / 4.0f;
    long nh = long(nt / 2);
    for (size_t i = 0; i < nt; i++) {
        double k = double(nh - std::labs(-nh + long(i)));
        const uc* h = o.hdr[i].data();
        struct {
            Meta m;
            double v;
        } w[] = {{PIOL_META_xSrc, 1600 + k}, {PIOL_META_ySrc, 2400 + k}, {PIOL_META_xRcv, 100000 + k}, {PIOL_META_yRcv, 3000000 + k}, {PIOL_META_xCmp, 10000 + k}, {PIOL_META_yCmp, 4000 + k}, {PIOL_META_il, 2400 + k}, {PIOL_META_xl, 1600 + k}, {PIOL_META_tn, double(i)}};
        for (auto& x : w)
            if (!close_to(decode(*field(x.m), h), x.v)) return bad("trace " + S(i) + " has " + field(x.m)->name + " " + S(decode(*field(x.m), h)) + " instead of " + S(x.v));
        for (size_t j = 0; j < ns; j++) {
            float v = half - std::fabs(-half + float(i * ns + j)) - off;
            if (bits(v) != bits(o.trc[i][j])) return bad("sample " + S(j) + " of trace " + S(i) + " is " + S(double(o.trc[i][j])) + " instead of " + S(double(v)));
        }
    }
    c.outcome(mc::mix(nt, ns));
}
SCENARIO(generate)
{
    int np    = c.range(1, c.thorough() ? 5 : 4, "np");
    size_t nt = size_t(c.range(0, 9, "nt"));
    int nsk   = c.pick(4, "ns"), mode = c.pick(4, "mode");
    if (!c.go()) return;
    generate_one(c, np, nt, std::vector<size_t>{0, 1, 3, 32767}[size_t(nsk)], mode);
}
// ------------------------------------------------- concatenate and sort
static void run_set(mc::Case& c, int np, const std::vector<InFile>& in, const HdrFn& hf, int (*f)(int, char**), const std::vector<std::string>& a, std::vector<OutFile>& out, std::string& e)
{
    mc::fs().clear();
    g_ret = 0;
    for (auto& x : in) put_in(x, hf);
    mc::FS before = mc::fs();
    mc::Config cfg;
    cfg.nranks = np;
    mc::run_case(c, cfg, [&](int) { call(f, a); });
    if (c.failed()) return;
    if (g_ret) e = "returns " + S(g_ret);
    else e = outputs(before, out);
}
static std::string cmp_trace(const OutFile& o, size_t i, const InFile& f, size_t j, const HdrFn& hf)
{
    uc wh[240] = {0};
    hf(f, j, wh);
    for (size_t b = 0; b < 240; b++)
        if (wh[b] != o.hdr[i][b]) return "trace " + S(i) + " of " + o.name + ": header byte " + S(b) + " is " + S(int(o.hdr[i][b])) + " instead of " + S(int(wh[b])) + " as in trace " + S(j) + " of " + f.name;
    for (int k = 0; k < f.ns; k++)
        if (bits(o.trc[i][size_t(k)]) != smp_bits(f, j, size_t(k))) return "sample " + S(k) + " of trace " + S(i) + " of " + o.name + " is not that of trace " + S(j) + " of " + f.name;
    return "";
}
static void concat(mc::Case& c, int np, const std::vector<InFile>& in, int text)
{
    std::vector<std::string> a{"concatenate", "-i", "s*.segy", "-o", "cat"};
    std::string msg = "Concatenated with ExSeisPIOL";
    if (text) {
        msg = "Another text";
        a.insert(a.end(), {"-m", msg});
    }
    std::vector<OutFile> out;
    std::string e;
    run_set(c, np, in, hdr_default, util_main_concatenate, a, out, e);
    if (c.failed()) return;
    uint64_t h = size_t(np * 2 + text);
    for (auto& f : in) h = mc::mix(h, mc::mix(f.nt, size_t(f.ns)));
    c.state(h);
    auto g = groups(in);
    if (e.empty() && out.size() != g.size()) e = S(out.size()) + " outputs for " + S(g.size()) + " kinds of files";
    for (auto& o : out) {
        if (!e.empty()) break;
        auto it = g.find({o.ns, o.inc});
        if (it == g.end()) {
            e = "output " + o.name + " is of no kind of the inputs";
            break;
        }
        if (o.text.compare(0, msg.size() + 1, msg + std::string(1, '\0'))) e = "text " + o.text.substr(0, 40);
        size_t i = 0;
        for (auto& f : it->second)
            for (size_t j = 0; j < f.nt && e.empty(); j++, i++) e = i < o.trc.size() ? cmp_trace(o, i, f, j, hdr_default) : "output " + o.name + " has only " + S(o.trc.size()) + " traces";
        if (e.empty() && i != o.trc.size()) e = "output " + o.name + " has " + S(o.trc.size()) + " traces instead of " + S(i);
    }
    if (!e.empty()) c.fail("concatenate", S(in.size()) + " files on " + S(np) + " processes: " + e);
}
SCENARIO(concatenate)
{
    int np = c.range(1, 4, "np"), nf = c.range(1, 3, "files"), text = c.pick(2, "text");
    std::vector<InFile> in;
    static const int ty[2][2] = {{2, 1000}, {3, 2000}};
    for (int i = 0; i < nf; i++) {
        int t = c.pick(2, "type"), n = c.of(std::vector<int>{0, 1, 3, 4}, "traces");
        in.push_back({"s" + S(i) + ".segy", size_t(n), ty[t][0], ty[t][1], i + 1});
    }
    if (!c.go()) return;
    concat(c, np, in, text);
}
SCENARIO(concatenate_many)
{
    int np = c.of<int>({1, 2, 5, 8}, "np"), nf = c.of<int>({6, 11, 16}, "files"), pat = c.pick(4, "types"), size = c.pick(3, "sizes");
    if (!c.go()) return;
    std::vector<InFile> in;
    for (int i = 0; i < nf; i++) {
        int t = pat == 0 ? 0 : pat == 1 ? i % 2 : pat == 2 ? i % 5 : i;
        char nm[32];
        snprintf(nm, sizeof nm, "s%02d.segy", i);
        in.push_back({nm, size == 0 ? size_t(i * 5 % 4) : size == 1 ? size_t(i * 7 % 40) : size_t(i == 1 ? 1025 : i), 1 + t, t % 2 ? 2000 : 1000, i + 1});
    }
    concat(c, np, in, 0);
}
// the headers of a trace with key k: the fields order the keys differently
static void key_header(const InFile& f, size_t i, int k, uc* h)
{
    memset(h, 0, 240);
    put16(h + 68, 1);
    put16(h + 70, 1);
    put32(h + 0, uint32_t(i + 7));
    put32(h + 36, uint32_t((k * 3 + 1) % 4));         // offset
    put32(h + 72, uint32_t(10 + (k * 5 + 2) % 3));    // source
    put32(h + 76, uint32_t(k * 2 % 3));
    put32(h + 80, uint32_t(20 + 3 * ((k * 2 + 1) % 5)));
    put32(h + 84, uint32_t(k % 2));
    put32(h + 188, uint32_t(k * 7 % 3));
    put32(h + 192, uint32_t((k * 4 + 2) % 5));
    put16(h + 114, f.ns);
    put16(h + 116, f.inc);
}
static std::vector<double> type_key(int type, int k)
{
    InFile f{"", 1, 2, 1000, 1};
    uc h[240];
    key_header(f, 0, k, h);
    auto g = [&](size_t at) { return double(int32_t(get32(h + at))); };
    double sx = g(72), sy = g(76), rx = g(80), ry = g(84), ro = g(36), il = g(188), xl = g(192);
    double off = (sx - rx) * (sx - rx) + (sy - ry) * (sy - ry);
    switch (type) {
        case PIOL_SORTTYPE_SrcRcv: return {sx, sy, rx, ry};
        case PIOL_SORTTYPE_SrcOff: return {sx, sy, off};
        case PIOL_SORTTYPE_SrcROff: return {sx, sy, ro};
        case PIOL_SORTTYPE_RcvOff: return {rx, ry, off};
        case PIOL_SORTTYPE_RcvROff: return {rx, ry, ro};
        case PIOL_SORTTYPE_LineOff: return {il, xl, off};
        case PIOL_SORTTYPE_LineROff: return {il, xl, ro};
        case PIOL_SORTTYPE_OffLine: return {off, il, xl};
        default: return {ro, il, xl};
    }
}
// the answer to the question decides whether anything is written
SCENARIO(prompt)
{
    static const char* answers[] = {"y", "n", "Y", "x", "", "yes", "  y", "\n\ny", "0", "ny"};
    int np = c.range(1, 4, "np"), a = c.pick(10, "answer"), at = c.pick(2, "position");
    if (!c.go()) return;
    std::vector<InFile> in{{"s0.segy", 3, 2, 1000, 1}, {"s1.segy", 2, 2, 1000, 2}};
    mc::fs().clear();
    g_ret = 0;
    for (auto& x : in) put_in(x);
    mc::FS before = mc::fs();
    std::istringstream is(answers[a]);
    std::cin.clear();
    auto* old = std::cin.rdbuf(is.rdbuf());
    mc::Config cfg;
    cfg.nranks = np;
    std::vector<std::string> args{"concatenate", "-i", "s*.segy", "-o", "cat"};
    args.insert(at ? args.end() : args.begin() + 1, "-p");
    auto r = mc::run(cfg, {}, [&](int) { call(util_main_concatenate, args); });
    std::cin.rdbuf(old);
    std::cin.clear();
    c.executed();
    c.transitions(r.steps);
    c.state(size_t(np * 100 + a * 2 + at));
    bool yes = std::string(answers[a]).find_first_not_of(" \n") != std::string::npos && answers[a][std::string(answers[a]).find_first_not_of(" \n")] == 'y';
    c.outcome(yes);
    std::string w = "answer '" + std::string(answers[a]) + "' on " + S(np) + " processes: ", e;
    if (yes ? r.status != mc::Status::Done : r.status != mc::Status::Exited || r.exit_code != 0) return c.fail("prompt", w + "ends with " + mc::status_name(r.status) + " " + r.msg + " code " + S(r.exit_code));
    std::vector<OutFile> out;
    e = outputs(before, out);
    if (e.empty() && out.size() != (yes ? 1u : 0u)) e = S(out.size()) + " outputs";
    if (e.empty() && yes && out[0].trc.size() != 5) e = S(out[0].trc.size()) + " traces";
    if (!e.empty()) c.fail("prompt", w + e);
}
// the options of the conversion of radon gathers are those of the operation
// (C29), with bins of 20 and 60 angles by default
SCENARIO(radon)
{
    int np = c.range(1, 4, "np"), b = c.of<int>({0, 1, 3, 20, 50}, "bin"), o = c.of<int>({0, 1, 2, 7, 60, 85}, "angles"), ord = c.pick(3, "order of options");
    if (!c.go()) return;
    auto setup = [&]() {
        mc::fs().clear();
        put_file(mc::fs()["r.segy"], ho_bytes("C radon", 6, 1000, 5, true), 9, 6, [&](size_t i, uc* h) {
            put32(h + 188, uint32_t(1 + i / 5));
            put32(h + 192, 1);
            put16(h + 68, 1);
            put16(h + 70, 1);
        }, [&](size_t i, size_t k) { return bits(float(i * 16 + k) + 0.5f); });
        put_file(mc::fs()["v.segy"], ho_bytes("C model", 6, 1000, 5, true), 4, 6, [&](size_t t, uc* h) {
            put32(h + 188, uint32_t(1 + t / 2));
            put32(h + 192, uint32_t(1 + t % 2));
        }, [&](size_t t, size_t k) { return bits(float((t * 7 + k * 5) % 11) * 9.5f); });
    };
    mc::Config cfg;
    cfg.nranks = np;
    g_ret      = 0;
    setup();
    std::vector<std::vector<std::string>> opts{{"-i", "r.segy"}, {"-o", "angle"}, {"-v", "v.segy"}};
    if (b) opts.push_back({"-b", S(b)});
    if (o) opts.push_back({"-a", S(o)});
    std::rotate(opts.begin(), opts.begin() + ord, opts.end());
    std::vector<std::string> args{"radon"};
    for (auto& x : opts) args.insert(args.end(), x.begin(), x.end());
    mc::run_case(c, cfg, [&](int) { call(util_main_radon, args); });
    if (c.failed()) return;
    mc::FS got = mc::fs();
    setup();
    mc::run_case(c, cfg, [&](int) {
        auto piol = ExSeis::New();
        exseis::Flow::Set s(piol, "r.segy", "angle");
        s.toAngle("v.segy", b ? size_t(b) : 20, o ? size_t(o) : 60);
    });
    if (c.failed()) return;
    c.state(mc::mix(size_t(np * 100 + b), size_t(o * 10 + ord)));
    std::string w = "bins of " + S(b) + " and " + S(o) + " angles on " + S(np) + " processes: ";
    if (g_ret) return c.fail("radon", w + "returns " + S(g_ret));
    if (!got.count("angle.segy")) return c.fail("radon", w + "no output");
    c.outcome(got["angle.segy"].size);
    for (auto& f : mc::fs())
        if (!got.count(f.first) || !(got[f.first] == f.second)) return c.fail("radon", w + f.first + " is not as the operation of the library writes it");
    if (got.size() != mc::fs().size()) return c.fail("radon", w + "other files are written");
}
SCENARIO(sort)
{
    int np = c.range(1, 4, "np"), n = c.range(0, c.thorough() ? 6 : 5, "traces"), ty = c.range(-1, 8, "type"), perm = c.pick(12, "order");
    if (!c.go()) return;
    std::vector<int> key(static_cast<size_t>(n));
    std::iota(key.begin(), key.end(), perm / 6);
    for (int p = 0; p < perm % 6 * 5 && n; p++) std::next_permutation(key.begin(), key.end());
    HdrFn hf = [&](const InFile& f, size_t i, uc* h) { key_header(f, i, key[i], h); };
    InFile f{"one.segy", size_t(n), 2, 1000, 1};
    std::vector<OutFile> out;
    std::string e;
    std::vector<std::string> a{"sort", "-i", "one.segy", "-o", "sorted"};
    int type = int(PIOL_SORTTYPE_SrcRcv) + std::max(ty, 0);
    if (ty >= 0) a.insert(a.end(), {"-t", S(type)});
    run_set(c, np, {f}, hf, util_main_sort, a, out, e);
    if (c.failed()) return;
    c.state(mc::mix(size_t(np * 10 + n), size_t(ty * 100 + perm)));
    if (e.empty() && out.size() != 1) e = S(out.size()) + " outputs";
    if (e.empty() && out[0].trc.size() != size_t(n)) e = "the output has " + S(out[0].trc.size()) + " traces";
    std::vector<size_t> w(static_cast<size_t>(n));
    std::iota(w.begin(), w.end(), size_t(0));
    std::stable_sort(w.begin(), w.end(), [&](size_t x, size_t y) { return type_key(type, key[x]) < type_key(type, key[y]); });
    for (size_t i = 0; i < size_t(n) && e.empty(); i++) e = cmp_trace(out[0], i, f, w[i], hf);
    if (!e.empty()) c.fail("sort", "sort type " + S(ty) + " of " + S(n) + " traces on " + S(np) + " processes: " + e);
}
// ------------------------------------------- verify the order, extremes
SCENARIO(verify)
{
    int np = c.range(1, 4, "np"), n = c.range(0, c.thorough() ? 6 : 5, "traces"), ty = c.range(-1, 8, "type");
    std::vector<int> key;
    for (int i = 0; i < n; i++) key.push_back(c.pick(i < 3 ? 4 : i < 4 ? 3 : 2, "key"));
    if (!c.go()) return;
    HdrFn hf = [&](const InFile& f, size_t i, uc* h) { key_header(f, i, key[i], h); };
    InFile f{"one.segy", size_t(n), 2, 1000, 1};
    mc::fs().clear();
    put_in(f, hf);
    g_ret = 0;
    std::ostringstream o, e;
    auto *ob = std::cout.rdbuf(o.rdbuf()), *eb = std::cerr.rdbuf(e.rdbuf());
    mc::Config cfg;
    cfg.nranks = np;
    std::vector<std::string> a{"verifysort", "-i", "one.segy"};
    int type = int(PIOL_SORTTYPE_SrcRcv) + std::max(ty, 0);
    if (ty >= 0) a.insert(a.end(), {"-t", S(type)});
    mc::run_case(c, cfg, [&](int) { call(util_main_verifysort, a); });
    std::cout.rdbuf(ob);
    std::cerr.rdbuf(eb);
    if (c.failed()) return;
    bool want = std::is_sorted(key.begin(), key.end(), [&](int x, int y) { return type_key(type, x) < type_key(type, y); }), got = e.str().find("Failure") == std::string::npos;
    uint64_t h = size_t(np * 10 + ty);
    for (int k : key) h = mc::mix(h, size_t(k));
    c.state(h);
    c.outcome(want);
    if (g_ret || (got && o.str().find("Success") == std::string::npos)) c.fail("verify", "order check on " + S(np) + " processes returns " + S(g_ret) + " with the output " + o.str());
    else if (want != got) {
        std::string t;
        for (int k : key) t += S(k) + " ";
        c.fail("verify", "order check " + S(ty) + " of the traces " + t + "on " + S(np) + " processes reports " + (got ? "success" : "failure"));
    }
}
SCENARIO(extremes)
{
    int np = c.range(1, 4, "np"), n = c.range(1, c.thorough() ? 5 : 4, "traces"), rot = c.pick(3, "values");
    std::vector<int> v;
    for (int i = 0; i < n; i++) v.push_back(c.pick(rot == 2 ? 4 : 3, "value"));
    if (!c.go()) return;
    static const int vals[3][4] = {{0, 5, -5, 9}, {2147483647, -2147483647, 0, 1}, {100000, 100001, -3, 70000}};
    static const int pos[6]     = {72, 76, 80, 84, 180, 184};
    auto val = [&](size_t i, size_t k) { return vals[rot][(size_t(v[i]) + k * (i + 1)) % 4]; };
    HdrFn hf = [&](const InFile& f, size_t i, uc* h) {
        memset(h, 0, 240);
        put16(h + 68, 1);
        put16(h + 70, 1);
        put32(h + 0, uint32_t(i + 7));
        for (size_t k = 0; k < 6; k++) put32(h + pos[k], uint32_t(val(i, k)));
        put32(h + 188, uint32_t(i * 2 + 5));
        put32(h + 192, uint32_t(i + 50));
        put16(h + 114, f.ns);
        put16(h + 116, f.inc);
    };
    InFile f{"one.segy", size_t(n), 2, 1000, 1};
    mc::fs().clear();
    put_in(f, hf);
    g_ret = 0;
    mc::FS before = mc::fs();
    mc::Config cfg;
    cfg.nranks = np;
    mc::run_case(c, cfg, [&](int) { call(util_main_minmax, {"minmax", "-i", "one.segy", "-o", "ext.segy"}); });
    if (c.failed()) return;
    uint64_t h = size_t(np * 10 + rot);
    for (int k : v) h = mc::mix(h, size_t(k));
    c.state(h);
    std::vector<OutFile> out;
    std::string e = g_ret ? "returns " + S(g_ret) : outputs(before, out);
    if (e.empty() && (out.size() != 1 || out[0].trc.size() != 12 || out[0].ns != 1 || out[0].inc != 1000)) e = "the output is not a file of twelve traces of one sample";
    for (size_t q = 0; q < 12 && e.empty(); q++) {
        // minimum and maximum of each coordinate in turn
        size_t k  = q / 2;
        double m  = val(0, k);
        for (size_t i = 1; i < size_t(n); i++) m = q % 2 ? std::max(m, double(val(i, k))) : std::min(m, double(val(i, k)));
        const uc* g = out[0].hdr[q].data();
        // any trace which has the extreme, with all its other parameters
        bool found = false;
        for (size_t i = 0; i < size_t(n) && !found; i++) {
            if (val(i, k) != m) continue;
            found = decode(*field(PIOL_META_tn), g) == double(i) && int32_t(get32(g + 188)) == int(i * 2 + 5) && int32_t(get32(g + 192)) == int(i + 50);
            for (size_t j = 0; j < 6 && found; j++) {
                static const Meta ms[6] = {PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv, PIOL_META_xCmp, PIOL_META_yCmp};
                found                   = close_to(decode(*field(ms[j]), g), val(i, j));
            }
        }
        if (!found) e = "trace " + S(q) + " of the output is not a trace with the extreme " + S(m) + " (trace number " + S(decode(*field(PIOL_META_tn), g)) + ", line " + S(int32_t(get32(g + 188))) + ")";
        if (bits(out[0].trc[q][0]) != bits(1.0f)) e = "sample of trace " + S(q);
    }
    if (!e.empty()) c.fail("extremes", "extremes of " + S(n) + " traces on " + S(np) + " processes: " + e);
}
// ------------------------------------------- larger: many traces, files, copies and processes
SCENARIO(copy_large)
{
    Rep q;
    q.ver   = c.pick(3, "version");
    q.np    = c.of<int>({1, 2, 5, 7, 8, 9, 16}, "np");
    q.rep   = c.of<int>({1, 2, 5, 9, 17}, "copies");
    q.block = pickv(c, std::vector<size_t>{4096, 5000, 65536}, "block");
    q.fsz   = pickv(c, std::vector<size_t>{3601, 4096 * 9, 4096 * 16 + 3600, 65536 + 3599, 100000, 131073, 300001}, "size");
    if (!c.go()) return;
    replicate(c, q);
}
SCENARIO(generate_large)
{
    int np    = c.of<int>({1, 2, 3, 8}, "np");
    size_t nt = pickv(c, std::vector<size_t>{64, 127, 257, 1000, 1025, 4099}, "nt"), ns = pickv(c, std::vector<size_t>{1, 3, 128, 1001}, "ns");
    int mode  = c.pick(4, "mode");
    if (!c.go()) return;
    if (nt * ns > 600000 || (np == 8 && mode > 1 && nt > 300)) return;
    generate_one(c, np, nt, ns, mode);
}
SCENARIO(sort_large)
{
    int np = c.of<int>({1, 2, 3, 8}, "np"), n = c.of<int>({33, 64, 100, 257}, "traces"), ty = c.range(-1, 8, "type"), perm = c.pick(3, "order");
    if (!c.go()) return;
    if (np > 2 && n > 100 && perm) return;
    std::vector<int> key(static_cast<size_t>(n));
    for (int i = 0; i < n; i++) key[size_t(i)] = perm == 0 ? n - i : perm == 1 ? i * 29 % n : i;
    HdrFn hf = [&](const InFile& f, size_t i, uc* h) { key_header(f, i, key[i], h); };
    InFile f{"one.segy", size_t(n), 2, 1000, 1};
    std::vector<OutFile> out;
    std::string e;
    std::vector<std::string> a{"sort", "-i", "one.segy", "-o", "sorted"};
    int type = int(PIOL_SORTTYPE_SrcRcv) + std::max(ty, 0);
    if (ty >= 0) a.insert(a.end(), {"-t", S(type)});
    run_set(c, np, {f}, hf, util_main_sort, a, out, e);
    if (c.failed()) return;
    c.state(mc::mix(size_t(np * 1000 + n), size_t(ty * 100 + perm)));
    if (e.empty() && out.size() != 1) e = S(out.size()) + " outputs";
    if (e.empty() && out[0].trc.size() != size_t(n)) e = "the output has " + S(out[0].trc.size()) + " traces";
    std::vector<size_t> w(static_cast<size_t>(n));
    std::iota(w.begin(), w.end(), size_t(0));
    std::stable_sort(w.begin(), w.end(), [&](size_t x, size_t y) { return type_key(type, key[x]) < type_key(type, key[y]); });
    for (size_t i = 0; i < size_t(n) && e.empty(); i++) e = cmp_trace(out[0], i, f, w[i], hf);
    if (!e.empty()) c.fail("sort", "sort type " + S(ty) + " of " + S(n) + " traces on " + S(np) + " processes: " + e);
}
// one pair out of order anywhere in a long file
SCENARIO(verify_large)
{
    int np = c.of<int>({1, 2, 3, 5, 8}, "np"), n = c.of<int>({40, 65, 300}, "traces"), type = c.range(0, 8, "type");
    if (!c.go()) return;
    type += int(PIOL_SORTTYPE_SrcRcv);
    std::vector<int> sorted(static_cast<size_t>(n));
    std::iota(sorted.begin(), sorted.end(), 0);
    std::stable_sort(sorted.begin(), sorted.end(), [&](int x, int y) { return type_key(type, x) < type_key(type, y); });
    for (int at = -1; at + 1 < n && !c.failed(); at += n > 100 ? 7 : 1) {
        auto key = sorted;
        if (at >= 0) std::swap(key[size_t(at)], key[size_t(at) + 1]);
        HdrFn hf = [&](const InFile& f, size_t i, uc* h) { key_header(f, i, key[i], h); };
        mc::fs().clear();
        put_in({"one.segy", size_t(n), 2, 1000, 1}, hf);
        g_ret = 0;
        std::ostringstream o, e;
        auto *ob = std::cout.rdbuf(o.rdbuf()), *eb = std::cerr.rdbuf(e.rdbuf());
        mc::Config cfg;
        cfg.nranks = np;
        mc::run_case(c, cfg, [&](int) { call(util_main_verifysort, {"verifysort", "-i", "one.segy", "-t", S(type)}); });
        std::cout.rdbuf(ob);
        std::cerr.rdbuf(eb);
        if (c.failed()) return;
        bool want = std::is_sorted(key.begin(), key.end(), [&](int x, int y) { return type_key(type, x) < type_key(type, y); }), got = e.str().find("Failure") == std::string::npos;
        c.state(mc::mix(size_t(np * 1000 + n), size_t(type * 1000 + at)));
        c.outcome(want);
        if (g_ret || (got && o.str().find("Success") == std::string::npos)) c.fail("verify", "order check on " + S(np) + " processes returns " + S(g_ret) + " with the output " + o.str());
        else if (want != got) c.fail("verify", "order check " + S(type) + " of " + S(n) + " traces on " + S(np) + " processes, traces " + S(at) + " and " + S(at + 1) + " swapped, reports " + (got ? "success" : "failure"));
    }
}
