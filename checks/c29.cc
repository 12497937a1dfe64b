// C29: conversion of radon gathers to angle gathers with a velocity model, for
// every small set of files, gather shape, model and process count, against
// integer arithmetic on the inputs.
#include "sets.hh"
#include "ExSeisDat/PIOL/makeFile.hh"
#include "ExSeisDat/utils/signal_processing/taper.h"
#include <algorithm>
using namespace cm;
using exseis::Flow::Set;
static const char* MSG = "ExSeisPIOL: Set layer output\n";
struct G {
    int il, xl;
    size_t n;  // traces
};
struct File {
    std::string name;
    std::vector<G> g;
    int ns, inc;
    int id;
};
struct Model {
    int ni = 3, nx = 3, di = 1, dx = 1;  // lines start at 1
    int ns = 4, inc = 1000;
    std::function<float(int, int, int)> v;  // il number, xl number, sample
};
struct Conv {
    size_t vbin, ogsz;
    double oinc;  // radians
};
enum { OUTPUT, DESTRUCTOR };
struct Run {
    int nr = 1, mode = OUTPUT;
    bool sort = false;      // by inline and crossline before
    bool taper = false;     // after
    int fore = 0;           // operations on single traces before the conversion: 1 halves the first sample, 2 the last two as well
    bool between = false;   // and between conversions
    bool twice = false;     // a second output after the first
    std::string text;
    std::vector<Conv> conv;
};
struct ATr {
    int il, xl;
    std::vector<float> v;
    size_t tie = 0;  // order of traces with the same lines
};
typedef std::vector<ATr> Trs;
static float val(const File& f, size_t i, size_t k) { return float(f.id * 4096 + int(i) * 64 + int(k)) + 0.5f; }
static float half(float w, float) { return w * 0.5f; }
static Trs traces(const File& f)
{
    Trs t;
    size_t i = 0;
    for (auto& g : f.g)
        for (size_t n = 0; n < g.n; n++, i++) {
            t.push_back({g.il, g.xl, {}, 0});
            for (int k = 0; k < f.ns; k++) t.back().v.push_back(val(f, i, size_t(k)));
        }
    return t;
}
// angle gathers of one list of traces; increments in units of 1e-6
static Trs convert(const Trs& in, int ns, double inc, const Model& m, const Conv& q)
{
    Trs out;
    for (size_t a = 0; a < in.size();) {
        size_t b = a;
        while (b < in.size() && in[b].il == in[a].il && in[b].xl == in[a].xl) b++;
        int a0 = (in[a].il - 1) / m.di, x0 = (in[a].xl - 1) / m.dx;
        for (size_t j = 0; j < q.ogsz; j++) {
            ATr t{in[a].il, in[a].xl, std::vector<float>(size_t(ns), 0.f), 0};
            for (int z = 0; z < ns; z++) {
                // the sample of the model at or above this depth
                long s = long(std::floor((double(z) * inc + 1e-3) / m.inc));
                double v = m.v(a0, x0, int(std::min<long>(s, m.ns - 1)));
                long n = std::lround(v / std::cos(double(j) * q.oinc));
                long k = n < 0 ? -1 : n / long(q.vbin);
                if (k > 0 && size_t(k) < b - a) t.v[size_t(z)] = in[a + size_t(k)].v[size_t(z)];
            }
            out.push_back(t);
        }
        a = b;
    }
    return out;
}
static int us(double x) { return int(std::lround(x * 1e6)); }
static void put_files(const std::vector<File>& in, const Model& m)
{
    for (auto& f : in) {
        Trs t = traces(f);
        put_file(mc::fs()[f.name], ho_bytes("C radon", f.ns, f.inc, 5, true), t.size(), size_t(f.ns), [&](size_t i, uc* h) {
            put32(h + 188, uint32_t(t[i].il));
            put32(h + 192, uint32_t(t[i].xl));
            put16(h + 68, 1);
            put16(h + 70, 1);
            put16(h + 88, 1);
        }, [&](size_t i, size_t k) { return bits(t[i].v[k]); });
    }
    put_file(mc::fs()["model.segy"], ho_bytes("C model", m.ns, m.inc, 5, true), size_t(m.ni * m.nx), size_t(m.ns), [&](size_t t, uc* h) {
        put32(h + 188, uint32_t(1 + m.di * int(t / size_t(m.nx))));
        put32(h + 192, uint32_t(1 + m.dx * int(t % size_t(m.nx))));
    }, [&](size_t t, size_t k) { return bits(m.v(int(t / size_t(m.nx)), int(t % size_t(m.nx)), int(k))); });
}
static bool one(mc::Case& c, const std::vector<File>& in, const Model& m, const Run& q)
{
    mc::fs().clear();
    put_files(in, m);
    mc::FS before = mc::fs();
    std::vector<std::vector<std::vector<std::string>>> names(static_cast<size_t>(q.nr));
    bool err = false;
    mc::Config cfg;
    cfg.nranks   = q.nr;
    mc::Result r = mc::run_case(c, cfg, [&](int rank) {
        auto piol = ExSeis::New();
        auto& nm  = names[size_t(rank)];
        nm.clear();
        auto ops = [&](Set& s) {
            if (!q.text.empty()) s.text(q.text);
            if (q.fore) s.taper(half, 1, 0);
            if (q.fore == 2) s.taper(half, 0, 2);
            if (q.sort) s.sort(PIOL_SORTTYPE_LineROff);
            for (auto& v : q.conv) {
                if (q.between && &v != &q.conv[0]) s.taper(half, 1, 0);
                s.toAngle("model.segy", v.vbin, v.ogsz, v.oinc);
            }
            if (q.taper) s.taper(half, 2, 0);
        };
        if (q.mode == OUTPUT) {
            Set s(piol, "r*.segy");
            ops(s);
            nm.push_back(s.output("out"));
            if (q.twice) nm.push_back(s.output("again"));
        }
        else {
            Set s(piol, "r*.segy", "out");
            ops(s);
        }
        if (piol->log->isErr()) err = true;
        piol->comm->barrier();
    });
    uint64_t h = mc::mix(size_t(q.nr), size_t(q.sort * 8 + q.taper * 4 + q.twice * 2 + q.mode));
    for (auto& f : in) {
        h = mc::mix(h, mc::mix(f.g.size(), size_t(f.ns * 100000 + f.inc)));
        for (auto& g : f.g) h = mc::mix(h, size_t(g.il * 64 + g.xl * 8) + g.n);
    }
    for (auto& v : q.conv) h = mc::mix(h, v.vbin * 100 + v.ogsz);
    h = mc::mix(h, size_t(m.ns * 100000 + m.inc) + size_t(q.fore * 2 + q.between) * 77777777);
    c.state(h);
    if (r.status != mc::Status::Done || c.failed()) return false;
    auto bad = [&](const char* k, const std::string& msg) {
        std::string s = S(q.nr) + " processes, files";
        for (auto& f : in) {
            s += " " + f.name + "(" + S(f.ns) + " samples at " + S(f.inc) + ":";
            for (auto& g : f.g) s += " " + S(g.n) + "x(" + S(g.il) + "," + S(g.xl) + ")";
            s += ")";
        }
        s += ", model of " + S(m.ns) + " samples at " + S(m.inc);
        for (auto& v : q.conv) s += ", conversion with bins of " + S(v.vbin) + " to " + S(v.ogsz) + " angles by " + S(v.oinc);
        c.fail(k, s + (q.sort ? ", sorted" : "") + (q.taper ? ", tapered" : "") + (q.fore ? ", tapered before" : "") + (q.between ? ", tapered between" : "") + ": " + msg);
        return false;
    };
    if (err) return bad("error", "an error is reported");
    if (!r.open_files.empty()) return bad("open", r.open_files[0] + " is left open");
    // the results which are kept between operations belong to the set
    for (auto it = mc::fs().begin(); it != mc::fs().end();)
        if (!before.count(it->first) && it->first.find("temp") != std::string::npos && (!it->first.compare(0, 3, "out") || !it->first.compare(0, 5, "again"))) it = mc::fs().erase(it);
        else ++it;
    std::vector<OutFile> out;
    std::string e = outputs(before, out);
    if (!e.empty()) return bad("files", e);
    // reference: groups by samples and increment, files in order
    std::map<Key, Trs> cur;
    std::map<Key, size_t> nf, fi;
    for (auto& f : in) nf[{f.ns, f.inc}]++;
    for (auto& f : in) {
        auto& l  = cur[{f.ns, f.inc}];
        Trs t    = traces(f);
        size_t k = fi[{f.ns, f.inc}]++;
        if (q.fore)
            for (auto& x : t) {
                exseis::utils::taper(x.v.size(), x.v.data(), half, 1, 0);
                if (q.fore == 2) exseis::utils::taper(x.v.size(), x.v.data(), half, 0, 2);
            }
        for (size_t i = 0; i < t.size(); i++) t[i].tie = i * nf[{f.ns, f.inc}] + k;
        l.insert(l.end(), t.begin(), t.end());
    }
    if (q.sort)
        for (auto& g : cur) std::stable_sort(g.second.begin(), g.second.end(), [](const ATr& a, const ATr& b) { return std::make_tuple(a.il, a.xl, a.tie) < std::make_tuple(b.il, b.xl, b.tie); });
    struct Grp {
        int ns;
        double inc;
        Trs t;
    };
    std::vector<Grp> gs;
    for (auto& g : cur) gs.push_back({g.first.first, double(g.first.second), g.second});
    for (auto& v : q.conv)
        for (auto& g : gs) {
            if (q.between && &v != &q.conv[0])
                for (auto& x : g.t) exseis::utils::taper(x.v.size(), x.v.data(), half, 1, 0);
            g.t   = convert(g.t, g.ns, g.inc, m, v);
            // nothing is known about the angles of an empty file
            if (!g.t.empty()) g.inc = v.oinc * 1e6;
        }
    std::map<Key, Trs> want;
    for (auto& g : gs) {
        auto& l = want[{g.ns, int(std::lround(g.inc))}];
        l.insert(l.end(), g.t.begin(), g.t.end());
    }
    size_t nout = q.twice ? 2 : 1;
    for (size_t no = 0; no < nout; no++) {
        std::set<Key> seen;
        std::set<std::string> wn;
        std::string pre = no ? "again" : "out";
        for (auto& o : out) {
            if (o.name.compare(0, pre.size(), pre)) continue;
            Key k{o.ns, o.inc};
            if (!want.count(k) || !seen.insert(k).second) return bad("group", "output " + o.name + " has " + S(o.ns) + " samples at " + S(o.inc));
            wn.insert(o.name);
            std::string w = q.text.empty() ? MSG : q.text;
            if (o.text.compare(0, w.size(), w) || o.text.find_first_not_of('\0', w.size()) != std::string::npos) return bad("text", "output " + o.name + " has the text '" + o.text.substr(0, 40) + "'");
            auto t = want[k];
            // only the first output has the taper
            if (q.taper && no == 0)
                for (auto& x : t) exseis::utils::taper(x.v.size(), x.v.data(), half, 2, 0);
            if (t.size() != o.trc.size()) return bad("count", "output " + o.name + " has " + S(o.trc.size()) + " traces instead of " + S(t.size()));
            for (size_t i = 0; i < t.size(); i++) {
                if (get32(&o.hdr[i][188]) != t[i].il || get32(&o.hdr[i][192]) != t[i].xl) return bad("lines", "trace " + S(i) + " of " + o.name + " is at inline " + S(get32(&o.hdr[i][188])) + " crossline " + S(get32(&o.hdr[i][192])) + " instead of " + S(t[i].il) + ", " + S(t[i].xl));
                for (size_t z = 0; z < t[i].v.size(); z++) {
                    c.outcome(mc::mix(bits(t[i].v[z]), z));
                    if (bits(o.trc[i][z]) != bits(t[i].v[z])) return bad("value", "sample " + S(z) + " of trace " + S(i) + " of " + o.name + " is " + S(double(o.trc[i][z])) + " instead of " + S(double(t[i].v[z])));
                }
            }
        }
        if (seen.size() != want.size()) return bad("missing", S(seen.size()) + " output files instead of " + S(want.size()));
        if (q.mode == OUTPUT)
            for (auto& nm : names)
                if (no >= nm.size() || std::set<std::string>(nm[no].begin(), nm[no].end()) != wn || nm[no].size() != wn.size()) return bad("names", "the returned names are not those of the files");
    }
    for (auto& o : out)
        if (o.name.compare(0, 3, "out") && (!q.twice || o.name.compare(0, 5, "again"))) return bad("extra", "unexpected file " + o.name);
    return true;
}
static const double DEG = 3.14159265358979323846 / 180;
static std::vector<float> speeds(size_t bin, size_t n)
{
    std::vector<float> v{0.f, 0.4f, 0.6f, -1.f, -3.f * float(bin), float(bin), float(bin) - 1.f, float(bin) + 0.3f, 1e9f, 123.f};
    for (size_t k = 1; k <= n + 1; k++)
        for (float d : {0.f, -0.6f, -0.4f, 0.4f, 0.6f}) v.push_back(float(k * bin) + d);
    return v;
}
// every velocity around the limits of each radon trace
SCENARIO(velocities)
{
    size_t n = size_t(c.range(1, c.thorough() ? 9 : 6, "traces")), bin = size_t(c.of<int>({1, 2, 3, 7, 100, 1000}, "bin"));
    size_t oj = size_t(c.range(1, 6, "angles"));
    double oi = c.of<double>({0.001, DEG, 0.03, 0.0321}, "increment");
    int nr    = c.range(1, 3, "ranks");
    if (!c.go()) return;
    auto v = speeds(bin, n);
    // away from the limits of rounding for angles other than zero
    Model m;
    m.ni = m.nx = 1;
    m.ns        = int(v.size());
    m.v         = [&](int, int, int k) { return v[size_t(k)]; };
    Run q;
    q.nr = nr;
    q.conv.push_back({bin, oj, oi});
    std::vector<File> in{{"r0.segy", {{1, 1, n}}, int(v.size()), 1000, 1}};
    one(c, in, m, q);
}
// larger angles: a step of up to 15 degrees
SCENARIO(angles)
{
    size_t n = size_t(c.range(2, 12, "traces")), oj = size_t(c.of<int>({1, 2, 20, 40, 85}, "angles")), bin = size_t(c.of<int>({1, 50}, "bin"));
    int nr = c.range(1, 2, "ranks");
    if (!c.go()) return;
    Model m;
    m.ni = m.nx = 1;
    m.ns        = 24;
    m.v         = [&](int, int, int k) { return float(bin) * (0.37f + 0.61f * float(k)); };
    Run q;
    q.nr = nr;
    q.conv.push_back({bin, oj, DEG});
    one(c, {{"r0.segy", {{1, 1, n}}, 24, 1000, 1}}, m, q);
}
// number of samples and increments of the traces and of the model
SCENARIO(depths)
{
    int ns = c.of<int>({1, 2, 3, 5, 60, 130}, "samples"), inc = c.of<int>({1000, 2000, 1333, 3000, 10000, 500, 32767}, "increment");
    int vns = c.of<int>({1, 2, 4, 50, 131}, "model samples"), vinc = c.of<int>({1000, 2000, 4000, 1333, 3000, 6000, 1, 32767}, "model increment");
    if (!c.go()) return;
    Model m;
    m.ni = m.nx = 1;
    m.ns        = vns;
    m.inc       = vinc;
    m.v         = [&](int, int, int k) { return float(1 + k % 7); };
    Run q;
    q.conv.push_back({1, 2, 0.01});
    one(c, {{"r0.segy", {{1, 1, 8}}, ns, inc, 1}}, m, q);
}
SCENARIO(depths_long)
{
    int inc = c.of<int>({1000, 2000, 3000, 4000, 1333, 8000}, "increment"), ratio = c.of<int>({1, 2, 3}, "ratio");
    if (!c.go()) return;
    Model m;
    m.ni = m.nx = 1;
    m.ns        = 4000;
    m.inc       = inc * ratio;
    m.v         = [&](int, int, int k) { return float(1 + k % 7); };
    Run q;
    q.conv.push_back({1, 1, 0.01});
    one(c, {{"r0.segy", {{1, 1, 8}}, 4000, inc, 1}}, m, q);
}
static Model small()
{
    Model m;
    m.v = [](int i, int x, int k) { return float((i * 3 + x + k) % 5) * 2.f; };
    return m;
}
static const int lines[6][2] = {{1, 1}, {1, 2}, {2, 1}, {3, 3}, {1, 3}, {2, 2}};
// every run of gathers on every number of processes
SCENARIO(gathers)
{
    int ng = c.range(0, c.thorough() ? 6 : 5, "gathers"), nr = c.range(1, c.thorough() ? 6 : 5, "ranks");
    int perm = c.pick(6, "first line"), mode = c.pick(2, "output");
    if (!c.go()) return;
    int nk = 1;
    for (int i = 0; i < ng; i++) nk *= 3;
    for (int k = 0; k < nk; k++) {
        File f{"r0.segy", {}, 4, 1000, 1};
        for (int i = 0, p = k; i < ng; i++, p /= 3) {
            auto& l = lines[(perm + i) % 6];
            f.g.push_back({l[0], l[1], size_t(1 + (p % 3) * 2)});
        }
        Run q;
        q.nr   = nr;
        q.mode = mode;
        q.conv.push_back({2, 2, 0.02});
        if (!one(c, {f}, small(), q)) return;
    }
}
static std::vector<File> mk(int kind)
{
    static const std::vector<std::vector<std::vector<int>>> k = {
      // ns, inc, then the first line of each gather
      {{4, 1000, 0, 1}, {4, 1000, 2}},
      {{4, 1000, 0, 1}, {4, 1000, 1, 2}},  // the gather continues in the next file
      {{4, 1000, 3, 0}, {3, 1000, 1}},
      {{4, 1000, 3, 0}, {4, 2000, 1}},
      {{3, 2000}, {4, 1000, 1, 5, 0}, {3, 2000, 2}},
      {{4, 1000}, {4, 1000}},
      {{5, 500, 5, 4, 3, 2, 1, 0}},
      {{4, 1000}},
      {{4, 1000, 0, 0, 1}},
      {{4, 2000, 2, 1}, {4, 1000, 0}, {4, 4000, 3, 4}},
      {{2, 1000, 1, 1}, {3, 1000, 2}, {4, 1000, 3}},
    };
    std::vector<File> in;
    for (auto& f : k[size_t(kind)]) {
        int i = int(in.size());
        in.push_back({"r" + S(i) + ".segy", {}, f[0], f[1], i + 1});
        for (size_t g = 2; g < f.size(); g++) in.back().g.push_back({lines[f[g]][0], lines[f[g]][1], 1 + (g + size_t(i)) % 3 * 2});
    }
    return in;
}
SCENARIO(files)
{
    int kind = c.pick(11, "files"), nr = c.range(1, c.thorough() ? 6 : 4, "ranks"), nconv = c.range(0, 3, "conversions"), fl = c.pick(16, "operations"), mode = c.pick(2, "output");
    int fore = c.range(0, c.thorough() ? 2 : 1, "before"), between = c.pick(nconv > 1 ? 2 : 1, "between");
    if (!c.go()) return;
    Run q;
    q.nr    = nr;
    q.mode  = mode;
    q.fore  = nconv == 0 && (fl & 4) ? 0 : fore;  // the second output is then not tapered
    q.between = between;
    q.sort  = fl & 1;
    q.taper = fl & 2;
    q.twice = (fl & 4) && mode == OUTPUT;
    if (fl & 8) q.text = "C text of the set";
    static const Conv cv[3] = {{2, 3, 0.02}, {1, 4, 0.005}, {2, 2, 0.0123}};
    for (int i = 0; i < nconv; i++) q.conv.push_back(cv[i]);
    if (nconv == 0 && !q.sort) return;
    one(c, mk(kind), small(), q);
}
// models with other line increments
SCENARIO(models)
{
    int di = c.range(1, 3, "il increment"), dx = c.range(1, 3, "xl increment"), nr = c.range(1, 3, "ranks");
    if (!c.go()) return;
    for (int p = 0; p < 6; p++) {
        Model m = small();
        m.di    = di;
        m.dx    = dx;
        File f{"r0.segy", {}, 4, 1000, 1};
        for (int i = 0; i < 6; i++) f.g.push_back({lines[(i + p) % 6][0], lines[(i + p) % 6][1], 5});
        Run q;
        q.nr = nr;
        q.conv.push_back({2, 2, 0.02});
        if (!one(c, {f}, m, q)) return;
    }
}
// many gathers, long gathers, many processes
SCENARIO(large)
{
    int ng = c.of<int>({9, 16, 33, 64, 130}, "gathers"), nr = c.of<int>({1, 2, 3, 5, 8}, "ranks"), len = c.pick(4, "lengths"), nf = c.range(1, 3, "files"), sort = c.pick(2, "sort"), nconv = c.range(1, 2, "conversions");
    if (!c.go()) return;
    if (nconv == 2 && ng > 64) return;
    Model m;
    m.ni = 16, m.nx = 9;
    m.v  = [](int i, int x, int k) { return float((i * 3 + x + k) % 7) * 2.f; };
    std::vector<File> in;
    for (int f = 0; f < nf; f++) in.push_back({"r" + S(f) + ".segy", {}, 4, 1000, f + 1});
    for (int i = 0; i < ng; i++) {
        int at = sort ? i * 29 % 144 : i;
        in[size_t(i * nf / ng)].g.push_back({1 + at / 9, 1 + at % 9, size_t(len == 0 ? 1 : len == 1 ? 1 + i % 5 : len == 2 ? (i == 1 ? 65 : 2) : 12)});
    }
    Run q;
    q.nr   = nr;
    q.sort = sort;
    q.conv.push_back({2, 3, 0.02});
    if (nconv == 2) q.conv.push_back({1, 2, 0.03});
    one(c, in, m, q);
}
