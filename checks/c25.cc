// C25: every script of C API calls up to a depth, run by a C program and, in a
// second run from the same state, by the C++ interface: the same values are
// returned and the same files are left.
#include <iostream>
#include <sstream>
#include "sets.hh"
#include "ExSeisDat/Flow.h"
#include "ExSeisDat/PIOL.h"
#include "ExSeisDat/PIOL/operations/minmax.h"
#include "ExSeisDat/utils/signal_processing/AGC.h"
#include "ExSeisDat/utils/signal_processing/taper.h"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace cm;
typedef std::vector<uc> Log;
static std::vector<Log>* logs = nullptr;
extern "C" void c25_log(const void* p, size_t n)
{
    auto& l = (*logs)[size_t(mc::my_rank())];
    l.insert(l.end(), (const uc*)p, (const uc*)p + n);
    l.push_back(uc(0xA5));
}
// what the library records at each verbosity with this handle
extern "C" void c25_probe(void* h)
{
    auto& piol = *static_cast<PIOL_ExSeis*>(h);
    for (int v = 0; v <= 4; v++) piol->log->record("", Logger::Layer::API, Logger::Status::Warning, "message " + S(v), Verbosity(v));
    piol->log->procLog();
}
extern "C" void c25_c_run(int kind, const int* op, int n, int rank, int nr, const char* name, size_t nt);
// the C++ interface under the names of the script
namespace cx {
namespace ut = exseis::utils;
typedef PIOL_File_Rule RP;
inline RP* File_Rule_new(bool d) { return new RP(std::make_shared<Rule>(true, d)); }
inline RP* File_Rule_new_from_list(const Meta* m, size_t n) { return new RP(std::make_shared<Rule>(std::vector<Meta>(m, m + n), true, false, false)); }
inline void File_Rule_delete(RP* r) { delete r; }
inline void File_Rule_addLong(RP* r, Meta m, Tr l) { (*r)->addLong(m, l); }
inline void File_Rule_addShort(RP* r, Meta m, Tr l) { (*r)->addShort(m, l); }
inline void File_Rule_addSEGYFloat(RP* r, Meta m, Tr l, Tr s) { (*r)->addSEGYFloat(m, l, s); }
inline void File_Rule_addIndex(RP* r, Meta m) { (*r)->addIndex(m); }
inline void File_Rule_addCopy(RP* r) { (*r)->addCopy(); }
inline void File_Rule_rmRule(RP* r, Meta m) { (*r)->rmRule(m); }
inline size_t File_Rule_extent(RP* r) { return (*r)->extent(); }
inline size_t File_Rule_memUsage(RP* r) { return (*r)->memUsage(); }
inline size_t File_Rule_paramMem(RP* r) { return (*r)->paramMem(); }
inline bool File_Rule_addRule_Meta(RP* r, Meta m) { return (*r)->addRule(m); }
inline bool File_Rule_addRule_Rule(RP* r, RP* o) { return (*r)->addRule(**o); }
inline Param* File_Param_new(RP* r, size_t n) { return r ? new Param(*r, n) : new Param(n); }
inline void File_Param_delete(Param* p) { delete p; }
inline size_t File_Param_size(const Param* p) { return p->size(); }
inline size_t File_Param_memUsage(const Param* p) { return p->memUsage(); }
inline int16_t File_getPrm_short(size_t i, Meta m, const Param* p) { return param_utils::getPrm<int16_t>(i, m, p); }
inline Integer File_getPrm_Integer(size_t i, Meta m, const Param* p) { return param_utils::getPrm<Integer>(i, m, p); }
inline double File_getPrm_double(size_t i, Meta m, const Param* p) { return param_utils::getPrm<Floating_point>(i, m, p); }
inline void File_setPrm_short(size_t i, Meta m, int16_t v, Param* p) { param_utils::setPrm(i, m, v, p); }
inline void File_setPrm_Integer(size_t i, Meta m, Integer v, Param* p) { param_utils::setPrm(i, m, v, p); }
inline void File_setPrm_double(size_t i, Meta m, double v, Param* p) { param_utils::setPrm(i, m, v, p); }
inline void File_cpyPrm(size_t i, const Param* s, size_t j, Param* d) { param_utils::cpyPrm(i, s, j, d); }
typedef PIOL_ExSeis EX;
inline EX* ExSeis_new(Verbosity v) { return new EX(ExSeis::New(v)); }
inline void ExSeis_delete(EX* e) { delete e; }
inline void ExSeis_barrier(EX* e) { (*e)->barrier(); }
inline void ExSeis_isErr(EX* e, const char* m)
{
    if (m) (*e)->isErr(std::string(m));
    else (*e)->isErr();
}
inline size_t ExSeis_getRank(EX* e) { return (*e)->getRank(); }
inline size_t ExSeis_getNumRank(EX* e) { return (*e)->getNumRank(); }
inline size_t ExSeis_max(EX* e, size_t n) { return (*e)->max(n); }
inline WriteDirect* File_WriteDirect_new(EX* e, const char* n) { return new WriteDirect(*e, n); }
inline ReadDirect* File_ReadDirect_new(EX* e, const char* n) { return new ReadDirect(*e, n); }
inline void File_WriteDirect_delete(WriteDirect* f) { delete f; }
inline void File_ReadDirect_delete(ReadDirect* f) { delete f; }
inline const char* File_ReadDirect_readText(ReadDirect* f) { return f->readText().c_str(); }
inline size_t File_ReadDirect_readNs(ReadDirect* f) { return f->readNs(); }
inline size_t File_ReadDirect_readNt(ReadDirect* f) { return f->readNt(); }
inline double File_ReadDirect_readInc(ReadDirect* f) { return f->readInc(); }
inline void File_WriteDirect_writeText(WriteDirect* f, const char* t) { f->writeText(t); }
inline void File_WriteDirect_writeNs(WriteDirect* f, size_t n) { f->writeNs(n); }
inline void File_WriteDirect_writeNt(WriteDirect* f, size_t n) { f->writeNt(n); }
inline void File_WriteDirect_writeInc(WriteDirect* f, double n) { f->writeInc(n); }
inline void File_ReadDirect_readTrace(ReadDirect* f, size_t o, size_t n, float* t, Param* p) { p ? f->readTrace(o, n, t, p) : f->readTrace(o, n, t); }
inline void File_WriteDirect_writeTrace(WriteDirect* f, size_t o, size_t n, float* t, const Param* p) { p ? f->writeTrace(o, n, t, p) : f->writeTrace(o, n, t); }
inline void File_WriteDirect_writeParam(WriteDirect* f, size_t o, size_t n, const Param* p) { f->writeParam(o, n, p); }
inline void File_ReadDirect_readParam(ReadDirect* f, size_t o, size_t n, Param* p) { f->readParam(o, n, p); }
inline void File_ReadDirect_readTraceNonContiguous(ReadDirect* f, size_t n, const size_t* o, float* t, Param* p) { p ? f->readTraceNonContiguous(n, o, t, p) : f->readTraceNonContiguous(n, o, t); }
inline void File_ReadDirect_readTraceNonMonotonic(ReadDirect* f, size_t n, const size_t* o, float* t, Param* p) { p ? f->readTraceNonMonotonic(n, o, t, p) : f->readTraceNonMonotonic(n, o, t); }
inline void File_WriteDirect_writeTraceNonContiguous(WriteDirect* f, size_t n, const size_t* o, float* t, Param* p) { p ? f->writeTraceNonContiguous(n, o, t, p) : f->writeTraceNonContiguous(n, o, t); }
inline void File_WriteDirect_writeParamNonContiguous(WriteDirect* f, size_t n, const size_t* o, Param* p) { f->writeParamNonContiguous(n, o, p); }
inline void File_ReadDirect_readParamNonContiguous(ReadDirect* f, size_t n, const size_t* o, Param* p) { f->readParamNonContiguous(n, o, p); }
inline void File_getMinMax(EX* e, size_t o, size_t n, Meta a, Meta b, const Param* p, CoordElem* mm) { exseis::PIOL::getMinMax(e->get(), o, n, a, b, p, mm); }
typedef exseis::Flow::Set FS;
inline FS* Set_new(EX* e, const char* p) { return new FS(*e, std::string(p)); }
inline void Set_delete(FS* s) { delete s; }
inline void Set_getMinMax(FS* s, Meta a, Meta b, CoordElem* mm) { s->getMinMax(a, b, mm); }
inline void Set_sort(FS* s, SortType t) { s->sort(t); }
inline void Set_sort_fn(FS* s, bool (*f)(const Param*, size_t, size_t)) { s->sort(CompareP(f)); }
inline void Set_taper(FS* s, ut::Taper_function f, size_t a, size_t b) { s->taper(f, a, b); }
inline void Set_AGC(FS* s, ut::Gain_function f, size_t w, float t) { s->AGC(f, w, t); }
inline void Set_output(FS* s, const char* n) { s->output(n); }
inline void Set_text(FS* s, const char* n) { s->text(n); }
inline void Set_summary(const FS* s) { s->summary(); }
inline void Set_add(FS* s, const char* n) { s->add(std::string(n)); }
// from the documented sizes of the format
inline size_t SEGY_utils_getTextSz() { return 3200; }
inline size_t SEGY_utils_getMDSz() { return 240; }
inline size_t SEGY_utils_getDFSz(size_t ns) { return 4 * ns; }
inline size_t SEGY_utils_getFileSz(size_t nt, size_t ns) { return 3600 + nt * (240 + 4 * ns); }
#define API(x) cx::x
#define API2(x) exseis::utils::x
#define H(x) x
#define NAME(x) c25_x_##x
#define C25_DEC exseis::utils::exseis_Contiguous_decomposition
#include "c25_script.h"
}  // namespace cx

static void header(size_t i, int id, uc* h)
{
    for (size_t b = 0; b < 240; b++) h[b] = uc(b * 7 + i * 13 + size_t(id) * 29 + 1);
    put16(h + 68, -10);
    put16(h + 70, i % 2 ? 10 : -100);
    put16(h + 88, 1);
    put32(h + 188, uint32_t(i * 7 % 5));
    put32(h + 192, uint32_t(i * 3 % 4));
}
static void both(mc::Case& c, int kind, const std::vector<int>& op, int nr, const std::function<void()>& setup, const char* name = "", size_t nt = 0)
{
    struct Out {
        mc::Result r;
        std::vector<Log> l;
        mc::FS fs;
        std::string text;
    } o[2];
    mc::Config cfg;
    cfg.nranks   = nr;
    long held[4] = {0, 0, 0, 0};
    // the first runs may allocate what lasts: judge the memory by the second
    for (int a = 0; a < 4; a++) {
        int k = a % 2;
        if (a > 1 && (o[0].r.status != mc::Status::Done || held[0] <= held[1])) break;
        o[k].fs.clear();
        o[k].r = mc::Result();
        mc::fs().clear();
        setup();
        o[k].l.assign(size_t(nr), {});
        for (auto& l : o[k].l) l.reserve(1 << 17);
        logs        = &o[k].l;
        std::ostringstream text;
        auto *oldc = std::cout.rdbuf(text.rdbuf()), *olde = std::cerr.rdbuf(text.rdbuf());
        long before = long(__sanitizer_get_current_allocated_bytes());
        o[k].r = mc::run(cfg, {}, [&](int rank) { k ? cx::c25_x_run(kind, op.data(), int(op.size()), rank, nr, name, nt) : c25_c_run(kind, op.data(), int(op.size()), rank, nr, name, nt); });
        std::cout.rdbuf(oldc);
        std::cerr.rdbuf(olde);
        o[k].text = text.str();
        held[a] = long(__sanitizer_get_current_allocated_bytes()) - before;
        // a run which stops keeps its objects: only compare how it stops
        o[k].fs = mc::fs();
        c.executed();
        c.transitions(o[k].r.steps);
    }
    uint64_t h = mc::mix(size_t(kind), size_t(nr));
    for (int x : op) h = mc::mix(h, size_t(x));
    c.state(h);
    for (auto& l : o[0].l) c.outcome(mc::hash_bytes(l.data(), l.size()));
    std::string w = "calls";
    for (int x : op) w += " " + S(x);
    w += " on " + S(nr) + " processes: ";
    auto st = [&](int k) { return std::string(mc::status_name(o[k].r.status)) + " " + o[k].r.msg + (o[k].r.status == mc::Status::Exited ? " code " + S(o[k].r.exit_code) : ""); };
    if (o[0].r.status != o[1].r.status || o[0].r.exit_code != o[1].r.exit_code) return c.fail("status", w + "the C program ends with " + st(0) + ", the C++ one with " + st(1));
    if (o[0].r.status != mc::Status::Done && o[0].r.status != mc::Status::Exited) return c.fail("run", w + st(0));
    if (o[0].text != o[1].text) {
        size_t i = 0;
        while (i < o[0].text.size() && i < o[1].text.size() && o[0].text[i] == o[1].text[i]) i++;
        i = i < 20 ? 0 : i - 20;
        return c.fail("text", w + "the C program prints '" + o[0].text.substr(i, 60) + "', the C++ one '" + o[1].text.substr(std::min(i, o[1].text.size()), 60) + "'");
    }
    for (size_t r = 0; r < size_t(nr); r++) {
        auto &a = o[0].l[r], &b = o[1].l[r];
        if (o[0].r.status == mc::Status::Exited) {
            size_t n = std::min(a.size(), b.size());
            a.resize(n), b.resize(n);
        }
        size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
        if (i < a.size() || i < b.size()) {
            std::string v[2];
            size_t s = i / 9 * 9;
            for (int k = 0; k < 2; k++) {
                double d = 0;
                auto& l  = k ? b : a;
                if (s + 8 <= l.size()) memcpy(&d, &l[s], 8);
                v[k] = S(d);
            }
            return c.fail("value", w + "process " + S(r) + ", byte " + S(i) + " of the returned values (" + S(a.size()) + " and " + S(b.size()) + " bytes): about " + v[0] + " in C and " + v[1] + " in C++");
        }
    }
    if (o[0].r.open_files.size() != o[1].r.open_files.size()) return c.fail("open", w + S(o[0].r.open_files.size()) + " files stay open after the C program, " + S(o[1].r.open_files.size()) + " after the C++ one");
    if (o[0].r.status == mc::Status::Done && held[0] > held[1] && held[2] > held[3]) return c.fail("memory", w + "the C program keeps " + S((long long)(held[2] - held[3])) + " bytes more than the C++ one");
    for (auto& f : o[1].fs)
        if (!o[0].fs.count(f.first)) return c.fail("file", w + "the C program does not write " + f.first);
    for (auto& f : o[0].fs) {
        if (!o[1].fs.count(f.first)) return c.fail("file", w + "only the C program writes " + f.first);
        if (o[0].r.status == mc::Status::Done && !(f.second == o[1].fs[f.first])) return c.fail("file", w + "the C program writes another " + f.first);
    }
}
static void nothing() {}
SCENARIO(rules)
{
    int n  = c.range(0, c.thorough() ? 4 : 3, "length");
    int r0 = c.pick(5, "rule"), r1 = c.pick(5, "other rule");
    int a  = n > 2 ? c.pick(13, "op") : (c.pick(1, "-"), 0);
    if (!c.go()) return;
    int nk = 1;
    for (int i = 0; i < n - (n > 2); i++) nk *= 13;
    for (int k = 0; k < nk; k++) {
        std::vector<int> op{r0, r1};
        if (n > 2) op.push_back(a);
        for (int i = 0, x = k; i < n - (n > 2); i++, x /= 13) op.push_back(x % 13);
        both(c, 0, op, 1, nothing);
        if (c.failed()) return;
    }
}
SCENARIO(writes)
{
    int n = c.range(0, c.thorough() ? 4 : 3, "length"), rule = c.pick(6, "rule"), nr = c.range(1, 2, "ranks");
    int a = n > 1 ? c.pick(13, "op") : (c.pick(1, "-"), 0);
    if (!c.go()) return;
    int nk = 1;
    for (int i = 0; i < n - (n > 1); i++) nk *= 13;
    for (int k = 0; k < nk; k++) {
        std::vector<int> op{rule, k % 2};
        if (n > 1) op.push_back(a);
        for (int i = 0, x = k; i < n - (n > 1); i++, x /= 13) op.push_back(x % 13);
        both(c, 1, op, nr, nothing);
        if (c.failed()) return;
    }
}
SCENARIO(reads)
{
    int n = c.range(0, 3, "length"), rule = c.pick(6, "rule"), nr = c.range(1, 2, "ranks");
    int file = c.pick(4, "file");
    int a    = n > 1 ? c.pick(13, "op") : (c.pick(1, "-"), 0);
    if (!c.go()) return;
    const size_t nt[4] = {9, 9, 2, 0};
    const int ns[4]    = {3, MAXN, 2, 1};
    int nk             = 1;
    for (int i = 0; i < n - (n > 1); i++) nk *= 13;
    for (int k = 0; k < nk; k += (n > 2 && !c.thorough() ? 3 : 1)) {
        std::vector<int> op{rule, k % 2};
        if (n > 1) op.push_back(a);
        for (int i = 0, x = k; i < n - (n > 1); i++, x /= 13) op.push_back(x % 13);
        both(c, 2, op, nr, [&]() { put_file(mc::fs()["r.segy"], ho_bytes("C text of the file", ns[file], 4000, file == 1 ? 1 : 5, true), nt[file], size_t(ns[file]), [&](size_t i, uc* h) { header(i, 1, h); }, [&](size_t i, size_t j) { return file == 1 ? 0x42640000u + uint32_t(i * 16 + j) : bits(float(i * 10 + j) + 0.25f); }); }, "r.segy", nt[file]);
        if (c.failed()) return;
    }
}
SCENARIO(missing)
{
    int nr = c.range(1, 3, "ranks"), m = c.pick(2, "message");
    if (!c.go()) return;
    both(c, 2, {0, m, 1, 2, 3}, nr, nothing, "missing.segy", 0);
}
static const int setops[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 35, 36, 37, 38, 39, 40, 41, 42, 43};
SCENARIO(sets)
{
    int n = c.range(0, c.thorough() ? 4 : 3, "length"), nr = c.range(1, 2, "ranks"), verb = c.of<int>({0, 4}, "verbosity"), pat = c.pick(2, "pattern");
    int a = n > 0 ? c.pick(19, "op") : (c.pick(1, "-"), 0);
    if (!c.go()) return;
    if (n > 2 && (verb || pat)) return;
    int nk = 1;
    for (int i = 0; i < n - 1; i++) nk *= 19;
    for (int k = 0; k < nk; k += (n > 2 && !c.thorough() ? 2 : 1)) {
        std::vector<int> op{verb, pat};
        if (n > 0) op.push_back(setops[a]);
        for (int i = 0, x = k; i < n - 1; i++, x /= 19) op.push_back(setops[x % 19]);
        both(c, 3, op, nr, [&]() {
            int id = 0;
            for (auto& f : std::vector<InFile>{{"s0.segy", 4, 5, 1000, 1}, {"s1.segy", 3, 5, 1000, 2}, {"s2.segy", 2, 4, 1000, 3}, {"x.segy", 2, 5, 1000, 4}}) {
                put_in(f, [&](const InFile& g, size_t i, uc* h) {
                    header(i, g.id, h);
                    put16(h + 68, 1);
                    put16(h + 70, 1);
                    put32(h + 36, uint32_t(i * 5 % 7));
                    put16(h + 114, g.ns);
                    put16(h + 116, g.inc);
                });
                id++;
            }
        });
        if (c.failed()) return;
    }
}
SCENARIO(system)
{
    int nr = c.range(1, 5, "ranks"), verb = c.range(0, 4, "verbosity"), sh = c.pick(12, "shift");
    if (!c.go()) return;
    both(c, 4, {verb, sh}, nr, nothing);
    if (!c.failed() && nr == 1) both(c, 5, {0}, 1, nothing);
}
// long programs: every cyclic pattern of three calls
SCENARIO(long_programs)
{
    int kind = c.range(0, 3, "kind"), n = c.of<int>({8, 20}, "length"), rule = c.pick(5, "rule"), nr = kind ? c.range(1, 2, "ranks") : 1;
    int K = kind == 3 ? 19 : 13, a = c.pick(K, "first");
    if (!c.go()) return;
    if (kind == 3 && rule > 1) return;
    for (int k = 0; k < K * K; k += kind == 3 ? 7 : c.thorough() ? 1 : 5) {
        std::vector<int> op{kind == 3 ? 0 : rule, k % 2};
        for (int i = 0; i < n; i++) {
            int o = i % 3 == 0 ? a : i % 3 == 1 ? k % K : k / K;
            op.push_back(kind == 3 ? setops[o] : o);
        }
        both(c, kind, op, nr, [&]() {
            if (kind == 2) put_file(mc::fs()["r.segy"], ho_bytes("C text of the file", 3, 4000, 5, true), 9, 3, [&](size_t i, uc* h) { header(i, 1, h); }, [&](size_t i, size_t j) { return bits(float(i * 10 + j) + 0.25f); });
            if (kind == 3)
                for (auto& f : std::vector<InFile>{{"s0.segy", 4, 5, 1000, 1}, {"s1.segy", 3, 5, 1000, 2}, {"s2.segy", 2, 4, 1000, 3}})
                    put_in(f, [&](const InFile& g, size_t i, uc* h) {
                        header(i, g.id, h);
                        put16(h + 68, 1);
                        put16(h + 70, 1);
                        put32(h + 36, uint32_t(i * 5 % 7));
                        put16(h + 114, g.ns);
                        put16(h + 116, g.inc);
                    });
        }, kind == 2 ? "r.segy" : "", kind == 2 ? 9 : 0);
        if (c.failed()) return;
    }
}
