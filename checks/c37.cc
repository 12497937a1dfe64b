// C37: nothing but the named outputs is ever written, also when calls fail.
#include "work.hh"
#include "ExSeisDat/PIOL/ReadSEGYModel.hh"
#include <regex>
#include <set>
typedef std::function<void(int, Vals&)> Body;
// A set adds to the name of its output: a number to results in between, and
// the samples and the interval if there are several groups of them.
static bool of_set(const std::string& f, const std::set<std::string>& out)
{
    for (auto& o : out) {
        if (o.empty() || o.back() != '*') continue;
        std::string b = o.substr(0, o.size() - 1);
        if (f.compare(0, b.size(), b)) continue;
        static const std::regex rest("(\\.temp[0-9]+)?([0-9]+_[0-9.]+)?\\.segy");
        if (std::regex_match(f.substr(b.size()), rest)) return true;
    }
    return false;
}
static std::string touched(const mc::FS& in, const mc::FS& now, const std::set<std::string>& out)
{
    for (auto& f : in) {
        auto g = now.find(f.first);
        if (g == now.end()) return "the input " + f.first + " is removed";
        if (!(g->second == f.second)) return "the input " + f.first + " is changed";
    }
    for (auto& f : now)
        if (!in.count(f.first) && !out.count(f.first) && !of_set(f.first, out)) return "the file " + f.first + " is made";
    return "";
}
// One run; the files it may write are given by their names.
static void one(mc::Case& c, const mc::Config& cfg, const std::vector<int>& prefix, const mc::FS& in, const std::string& w, const Body& body, const std::set<std::string>& out, std::vector<mc::Point>* trace)
{
    Vals v(static_cast<size_t>(cfg.nranks));
    mc::fs() = in;
    auto r   = mc::run(cfg, prefix, [&](int rank) { body(rank, v); });
    c.executed();
    c.transitions(r.steps);
    if (trace) *trace = r.trace;
    std::string inj;
    for (auto& i : r.injected) inj += ", " + i.op + " of " + i.file + " fails on process " + S(i.rank);
    uint64_t h = mc::hash_bytes(w.data(), w.size());
    for (int p : prefix) h = mc::mix(h, size_t(p));
    c.state(mc::mix(h, prefix.size()));
    c.outcome(size_t(r.io_calls) * 8 + size_t(r.status));
    if (r.injected.empty() && r.status != mc::Status::Done) return c.fail("run", w + ": " + mc::status_name(r.status) + ": " + r.msg);
    std::string e = touched(in, mc::fs(), out);
    if (!e.empty()) c.fail("written", w + inj + ": " + e);
}
static void all(mc::Case& c, int np, const mc::FS& in, const std::string& w, const Body& body, const std::set<std::string>& out)
{
    mc::Config cfg;
    cfg.nranks             = np;
    cfg.allow_request_leak = true;
    cfg.bound[mc::FAULT]   = 1;
    cfg.faults.open = cfg.faults.close = cfg.faults.view = cfg.faults.read = cfg.faults.write = cfg.faults.size = cfg.faults.setsize = cfg.faults.shortread = true;
    std::vector<mc::Point> t;
    one(c, cfg, {}, in, w, body, out, &t);
    for (size_t i = 0; i < t.size() && !c.failed(); i++) {
        if (t[i].kind != mc::FAULT) continue;
        for (int k = 1; k < t[i].n && !c.failed(); k++) {
            std::vector<int> p;
            for (size_t q = 0; q < i; q++) p.push_back(t[q].chosen);
            p.push_back(k);
            one(c, cfg, p, in, w, body, out, nullptr);
        }
    }
}
static mc::FS with_others(mc::FS in)
{
    for (auto n : {"other.segy", "o", "out.temp", "in", "in.segy.segy", "oo.segy", "o.segy"})
        if (!in.count(n)) in[n] = mc::file_from(std::string(37, 'k'));
    return in;
}
SCENARIO(flows)
{
    int depth = c.thorough() ? 3 : 2;
    int np    = c.range(1, c.thorough() ? 3 : 2, "np");
    int kind  = c.pick(6, "files");
    std::vector<int> l;
    std::string w;
    for (int i = 0; i < depth; i++) {
        int o = c.pick(11, "op");
        if (o == 10) break;
        l.push_back(o);
    }
    static const char* const dirs[] = {"", "../v1.2/", "./", "/work/a b//"};
    std::string pre = dirs[c.thorough() || l.size() < 2 ? c.pick(4, "directory") : 0];
    if (!c.go()) return;
    for (int o : l) w += std::string(fop[o]) + ", ";
    mc::FS in = with_others(flow_in(kind, l.size() % 2 ? 2 : 0));
    if (!pre.empty()) {
        mc::FS m;
        for (auto& f : in) m[pre + f.first] = f.second;
        in = m;
        w += "in " + pre + " ";
    }
    std::set<std::string> out;
    size_t no = size_t(std::count(l.begin(), l.end(), 6)) + 1;
    for (size_t i = 0; i < no; i++) out.insert(pre + "o" + S(i) + "*");
    all(c, np, in, w + "output of file set " + S(kind) + " on " + S(np) + " process(es)", [&](int rank, Vals& v) { flow_body(l, rank, v, pre); }, out);
}
static const std::vector<std::set<std::string>> uout{{"out.segy"}, {"out*"}, {"out.segy"}, {"out.segy"}, {"out.segy"}, {"out"}, {"out"}, {"out"}, {"out.segy"}, {"o0", "o1"}, {"o0", "o1"}, {"out*"}};
SCENARIO(utilities)
{
    int u = c.pick(12, "utility"), n = c.range(1, c.thorough() ? 7 : 4, "traces"), np = c.range(1, c.thorough() ? 4 : 3, "np");
    int seed = c.pick(2, "input");
    if (!c.go()) return;
    if ((u == 9 || u == 10) && n < np) return;
    mc::FS in = util_in(u, n, seed);
    // (concatenate takes every file of its pattern)
    in = with_others(in);
    for (auto& o : uout[size_t(u)]) in.erase(o);
    exseisdat_model_check_memlim = size_t(1) << 30;
    exseisdat_model_check_block  = 4096;
    all(c, np, in, std::string(un[u]) + " of " + S(n) + " traces on " + S(np) + " process(es)", [&](int, Vals&) { util_body(u, n); }, uout[size_t(u)]);
    exseisdat_model_check_block = 2097152;
}
// Direct use of files: only what is opened for writing is written
static const std::vector<std::vector<size_t>> shares{{3}, {0}, {2, 1}, {0, 3}, {1, 0, 2}};
SCENARIO(shares_of_traces)
{
    int op = c.pick(7, "operation");
    auto sh = pickv(c, shares, "shares");
    if (!c.go()) return;
    size_t n = 0;
    for (size_t x : sh) n += x;
    if (op == 5 && n == 0) return;
    mc::FS in;
    input(in, n, 2, 0);
    in = with_others(in);
    all(c, int(sh.size()), in, std::string(sopn[op]) + " with shares " + vs(sh), [&](int rank, Vals& v) { share_body(op, sh, rank, v); }, op == 2 ? std::set<std::string>{"copy.segy"} : std::set<std::string>{});
}
// Opening files which are there or not
SCENARIO(opening)
{
    int k = c.pick(7, "kind"), there = c.pick(3, "file"), np = c.range(1, 3, "np");
    if (!c.go()) return;
    mc::FS in;
    if (there == 1) input(in, 2, 2, 0);
    if (there == 2) in["in.segy"] = mc::file_from("short");
    in = with_others(in);
    static const char* const kn[] = {"reading the data layer", "reading the object layer", "reading a file", "reading a model", "a set", "minmax", "makerep"};
    std::string w = std::string(kn[k]) + " of a " + (there == 0 ? "missing" : there == 1 ? "proper" : "too short") + " file on " + S(np) + " process(es)";
    // the copy of a file which can not be read may be left behind empty
    std::set<std::string> out;
    if (k == 5) out = {"out.segy"};
    if (k == 6) out = {"out"};
    if (k == 4) out = {"set*"};
    mc::Config cfg;
    cfg.nranks             = np;
    cfg.allow_request_leak = true;
    mc::fs() = in;
    auto r = mc::run(cfg, {}, [&](int) {
        if (k == 5) return call(util_main_minmax, {"minmax", "-i", "in.segy", "-o", "out.segy"});
        if (k == 6) return call(util_main_makerep, {"makerep", "-i", "in.segy", "-o", "out", "-r", "2"});
        auto piol = ExSeis::New();
        std::vector<uc> b(5000);
        if (k == 0) {
            DataMPIIO d(piol, "in.segy", FileMode::Read);
            if (!piol->log->isErr()) d.read(0, 5, b.data());
        }
        if (k == 1) {
            auto d = std::make_shared<DataMPIIO>(piol, "in.segy", FileMode::Read);
            ObjectSEGY o(piol, "in.segy", d, FileMode::Read);
            if (!piol->log->isErr()) o.readHO(b.data());
        }
        if (k == 2) {
            ReadDirect f(piol, "in.segy");
            Param p(1);
            ReadInterface* r = f;
            if (!piol->log->isErr()) r->readParam(0, 1, &p);
        }
        if (k == 3) auto m = makeFile<ReadSEGYModel>(piol, "in.segy");
        if (k == 4) {
            Set s(piol, "in.se*y");
            s.output("set");
        }
    });
    c.executed();
    c.transitions(r.steps);
    c.state(mc::hash_bytes(w.data(), w.size()));
    c.outcome(size_t(r.status));
    std::string e = touched(in, mc::fs(), out);
    if (!e.empty()) c.fail("written", w + ": " + e);
}
