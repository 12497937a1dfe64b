// C24: every sequence of log records, queries and listings against a list.
#include "common.hh"
#include "ExSeisDat/PIOL/Logger.hh"
#include <algorithm>
#include <iostream>
#include <sstream>
using namespace cm;
typedef Logger::Layer L;
typedef Logger::Status St;
struct Cap {
    std::ostringstream s;
    std::streambuf* old;
    Cap() { old = std::cerr.rdbuf(s.rdbuf()); }
    ~Cap() { std::cerr.rdbuf(old); }
    std::string take()
    {
        std::string r = s.str();
        s.str("");
        return r;
    }
};
static const L layers[] = {L::Data, L::Object, L::File, L::Set, L::Ops, L::Comm, L::Log, L::MPI, L::PIOL, L::API};
static const St stats[] = {St::Note, St::Debug, St::Warning, St::Error, St::Request};
struct Ent {
    std::string file, msg;
    int layer, stat;
    size_t vb;
};
static std::string line(const Ent& e) { return e.file + " " + S(e.layer) + " " + S(e.stat) + " " + e.msg + " " + S(e.vb); }
// The listing holds each entry once, naming file, layer, status and message.
static std::string cmp_list(std::string out, const std::vector<Ent>& w)
{
    std::vector<std::string> lines, want;
    std::istringstream is(out);
    for (std::string l; std::getline(is, l);) lines.push_back(l);
    for (auto& e : w) {
        std::istringstream ms(line(e));
        for (std::string l; std::getline(ms, l);) want.push_back(l);
    }
    // each expected line is found in exactly one line of the listing
    std::vector<bool> used(lines.size());
    for (auto& x : want) {
        bool ok = false;
        for (size_t i = 0; i < lines.size() && !ok; i++)
            if (!used[i] && lines[i] == x) ok = used[i] = true;
        if (!ok) return "the entry '" + x + "' is missing in the listing of " + S(lines.size()) + " lines";
    }
    if (lines.size() != want.size()) return "the listing has " + S(lines.size()) + " lines instead of " + S(want.size());
    return "";
}
enum { REC0, NREC = 12, QUERY = NREC, NUM, LIST, NOPS };
static Ent rec_of(int o, int k)
{
    // status, verbosity and text of the records
    static const int st[NREC] = {3, 3, 3, 2, 2, 0, 1, 4, 3, 2, 0, 3};
    static const size_t vb[NREC] = {0, 1, 4, 0, 3, 2, 1, 0, 0, 0, 4, 2};
    return {o % 3 == 0 ? "" : "file" + S(o) + ".segy", (o % 4 == 1 ? "" : o % 4 == 2 ? "text with  spaces %s" : "message ") + S(k), (o * 3 + k) % 10, st[o], vb[o]};
}
static void seq(mc::Case& c, const std::vector<int>& ops, size_t level)
{
    Cap cap;
    std::string e;
    std::vector<Ent> list;
    bool err = false;
    uint64_t h = level;
    {
        Logger log(level);
        for (size_t k = 0; k < ops.size() && e.empty(); k++) {
            int o = ops[k];
            h     = mc::mix(h, size_t(o));
            c.transitions(1);
            if (o < NREC) {
                Ent x    = rec_of(o, int(k));
                bool cond = o != 8 && o != 9;
                if (o >= 7 && o <= 9) log.record(x.file, layers[x.layer], stats[x.stat], x.msg, x.vb, cond);
                else log.record(x.file, layers[x.layer], stats[x.stat], x.msg, x.vb);
                if (cond) {
                    if (x.vb <= level) list.push_back(x);
                    err |= x.stat == 3;
                }
            }
            else if (o == QUERY) {}
            else if (o == NUM) {
                for (int s = 0; s < 5; s++) {
                    size_t w = size_t(std::count_if(list.begin(), list.end(), [&](const Ent& x) { return x.stat == s; }));
                    if (log.numStat(stats[s]) != w) e = "step " + S(k) + ": " + S(log.numStat(stats[s])) + " entries of status " + S(s) + " instead of " + S(w);
                }
            }
            else {
                log.procLog();
                std::string d = cmp_list(cap.take(), list);
                if (!d.empty()) e = "step " + S(k) + ": " + d;
                list.clear();
            }
            if (log.isErr() != err) e = "step " + S(k) + ": the error query returns " + (err ? "false" : "true");
            size_t n = 0;
            for (auto& i : log.loglist()) n++, (void)i;
            if (n != list.size()) e = "step " + S(k) + ": the log holds " + S(n) + " entries instead of " + S(list.size());
            c.state(mc::mix(h, err));
        }
    }
    // the destructor lists what is left
    if (e.empty()) {
        std::string d = cmp_list(cap.take(), list);
        if (!d.empty()) e = "destructor: " + d;
    }
    c.executed();
    c.outcome(mc::mix(list.size(), err));
    if (!e.empty()) {
        std::string s;
        for (int o : ops) s += " " + S(o);
        c.fail("log", "level " + S(level) + ", operations" + s + ": " + e);
    }
}
SCENARIO(sequences)
{
    int n = c.range(1, c.thorough() ? 5 : 4, "length"), level = c.range(0, 4, "level"), first = c.pick(NOPS, "first");
    if (!c.go()) return;
    long nk = 1;
    for (int i = 1; i < n; i++) nk *= NOPS;
    for (long code = 0; code < nk && !c.failed(); code++) {
        std::vector<int> ops{first};
        long x = code;
        for (int i = 1; i < n; i++, x /= NOPS) ops.push_back(int(x % NOPS));
        seq(c, ops, size_t(level));
    }
}
// every status, layer, verbosity and level, in both forms
SCENARIO(entries)
{
    int st = c.pick(5, "status"), ly = c.pick(10, "layer");
    if (!c.go()) return;
    for (size_t vb = 0; vb < 6; vb++)
        for (size_t lv = 0; lv < 6; lv++)
            for (int form = 0; form < 3 && !c.failed(); form++) {
                Cap cap;
                Logger log(lv);
                Ent x{"f.segy", "some text", ly, st, vb};
                if (form == 0) log.record(x.file, layers[ly], stats[st], x.msg, vb);
                else log.record(x.file, layers[ly], stats[st], x.msg, vb, form == 1);
                bool on = form != 2;
                c.state(mc::mix(size_t(st * 10 + ly), vb * 100 + lv * 10 + size_t(form)));
                c.executed();
                c.transitions(1);
                std::string w = "status " + S(st) + " layer " + S(ly) + " verbosity " + S(vb) + " at level " + S(lv) + ": ";
                if (log.isErr() != (on && st == 3)) c.fail("query", w + "the error query returns " + (log.isErr() ? "true" : "false"));
                if (log.numStat(stats[st]) != size_t(on && vb <= lv)) c.fail("count", w + S(log.numStat(stats[st])) + " entries");
                log.procLog();
                std::string d = cmp_list(cap.take(), on && vb <= lv ? std::vector<Ent>{x} : std::vector<Ent>{});
                if (!d.empty()) c.fail("list", w + d);
                if (log.isErr() != (on && st == 3)) c.fail("query", w + "after the listing the error query returns " + (log.isErr() ? "true" : "false"));
            }
}
// The fatal error query: prints the log and ends the process, on exactly the
// processes which have an error.
static void fatal(mc::Case& c, const std::vector<int>& prog, int how)
{
    // prog[r]: 0 nothing, 1 note, 2 warning, 3 error, 4 error after a listing, 5 missing file
    mc::fs().clear();
    mc::Config cfg;
    cfg.nranks = int(prog.size());
    bool any   = false;
    for (int p : prog) any |= p >= 3;
    std::vector<int> passed(prog.size());
    Cap cap;
    mc::Result r = mc::run(cfg, {}, [&](int rank) {
        int p     = prog[size_t(rank)];
        auto piol = ExSeis::New(PIOL_VERBOSITY_MAX);
        piol->comm->barrier();
        auto rec = [&](St s, const char* m) { piol->log->record("file" + S(rank), L::Data, s, m + S(rank), PIOL_VERBOSITY_NONE); };
        if (p == 1) rec(St::Note, "note");
        if (p == 2) rec(St::Warning, "warning");
        if (p == 3) rec(St::Error, "error");
        if (p == 4) {
            rec(St::Error, "error");
            piol->log->procLog();
        }
        if (piol->log->isErr() != (p >= 3)) passed[size_t(rank)] = 2;
        if (how == 0) piol->isErr("the end");
        else if (how == 1) piol->isErr();
        else {
            std::shared_ptr<ExSeisPIOL> b = piol;
            b->isErr("the end");
        }
        if (!passed[size_t(rank)]) passed[size_t(rank)] = 1;
        if (!any) piol->comm->barrier();
    });
    std::string out = cap.take();
    c.executed();
    c.transitions(r.steps);
    uint64_t h = size_t(how);
    for (int p : prog) h = mc::mix(h, size_t(p));
    c.state(h);
    c.outcome(mc::mix(size_t(r.status), size_t(r.exit_code)));
    std::string w;
    for (int p : prog) w += " " + S(p);
    w = "processes" + w + ": ";
    for (size_t k = 0; k < prog.size(); k++) {
        if (passed[k] == 2) c.fail("query", w + "wrong error query on process " + S(k));
        if (passed[k] == 1 && prog[k] >= 3) c.fail("continues", w + "process " + S(k) + " continues after an error");
    }
    if (!any) {
        if (r.status != mc::Status::Done) c.fail("ends", w + "ended: " + r.msg);
        for (size_t k = 0; k < prog.size(); k++)
            if (prog[k] && out.find((prog[k] == 1 ? "note" : "warning") + S(k)) == std::string::npos) c.fail("text", w + "the entry of process " + S(k) + " is not listed");
        if (out.find("Fatal") != std::string::npos) c.fail("text", w + "a fatal error is listed");
        return;
    }
    if (r.status != mc::Status::Exited || r.exit_code == 0) return c.fail("exit", w + "status " + mc::status_name(r.status) + " code " + S(r.exit_code) + " " + r.msg);
    size_t k = size_t(r.exit_rank);
    if (k >= prog.size() || prog[k] < 3) return c.fail("exit", w + "process " + S(k) + " exits");
    if (out.find("error" + S(k)) == std::string::npos) c.fail("text", w + "the error of process " + S(k) + " is not listed");
    if (how != 1 && out.find("the end") == std::string::npos) c.fail("text", w + "the message of the query is not listed");
    size_t n = 0;
    for (size_t p = out.find("error" + S(k)); p != std::string::npos; p = out.find("error" + S(k), p + 1)) n++;
    if (n != 1) c.fail("text", w + "the error of process " + S(k) + " is listed " + S(n) + " times");
}
SCENARIO(fatal)
{
    int nr = c.range(1, 3, "ranks"), how = c.pick(3, "interface"), p0 = c.pick(5, "process 0");
    if (!c.go()) return;
    for (int a = 0; a < (nr > 1 ? 5 : 1); a++)
        for (int b = 0; b < (nr > 2 ? 5 : 1) && !c.failed(); b++) {
            std::vector<int> p{p0};
            if (nr > 1) p.push_back(a);
            if (nr > 2) p.push_back(b);
            fatal(c, p, how);
        }
}
// Errors which the library finds name the file.
SCENARIO(missing)
{
    int nr = c.range(1, 3, "ranks"), what = c.pick(3, "file");
    if (!c.go()) return;
    mc::fs().clear();
    if (what == 1) mc::fs()["x.segy"] = mc::file_from("too short");
    if (what == 2) put_file(mc::fs()["x.segy"], ho_bytes("C", 2, 1000, 5, true), 2, 2, [](size_t, uc*) {}, [](size_t, size_t) { return 0u; });
    mc::Config cfg;
    cfg.nranks = nr;
    std::vector<int> err(size_t(nr), -1);
    Cap cap;
    mc::Result r = mc::run_case(c, cfg, [&](int rank) {
        auto piol = ExSeis::New();
        ReadDirect in(piol, "x.segy");
        err[size_t(rank)] = piol->log->isErr();
        piol->log->procLog();
        piol->comm->barrier();
    });
    std::string out = cap.take();
    c.state(mc::mix(size_t(nr), size_t(what)));
    if (r.status != mc::Status::Done || c.failed()) return;
    for (int e : err)
        if (what == 0 ? e != 1 : what == 2 ? e != 0 : false) c.fail("missing", "error query " + S(e) + " for file " + S(what));
    if (what == 0 && out.find("x.segy") == std::string::npos) c.fail("name", "the log does not name the file: " + out.substr(0, 200));
}
// long histories: every cyclic pattern of up to four operations
SCENARIO(long_histories)
{
    int n = c.thorough() ? c.of<int>({33, 100, 257, 1030}, "length") : c.of<int>({33, 130}, "length"), level = c.range(0, 4, "level"), a = c.pick(NOPS, "first"), b = c.pick(NOPS, "second");
    if (!c.go()) return;
    for (int d = 0; d < NOPS && !c.failed(); d++)
        for (int last : {int(NUM), int(LIST)}) {
            std::vector<int> ops;
            int every = n < 100 ? 8 : n / 3;
            for (int i = 0; i < n; i++) {
                int o = i % 3 == 0 ? a : i % 3 == 1 ? b : d;
                if (n > 100 && (o == NUM || o == LIST) && i % 40) o = 0;
                ops.push_back(i % every == every - 1 ? last : o);
            }
            seq(c, ops, size_t(level));
            if (c.failed()) return;
        }
}
