// C36: what is written does not depend on what was at the same path before.
#include "work.hh"
typedef std::function<void(int, Vals&)> Body;
struct Ran {
    bool ok;
    Vals v;
    mc::FS fs;
};
static Ran ran(mc::Case& c, int np, const mc::FS& in, const Body& body)
{
    mc::Config cfg;
    cfg.nranks = np;
    Ran o;
    o.v.resize(size_t(np));
    mc::fs() = in;
    auto r   = mc::run_case(c, cfg, [&](int rank) { body(rank, o.v); });
    o.ok     = r.status == mc::Status::Done && !c.failed();
    o.fs     = mc::fs();
    return o;
}
static bool temporary(const std::string& n) { return n.find(".temp") != std::string::npos; }
static bool differs(mc::Case& c, const std::string& w, const Ran& want, const Ran& got, const mc::FS& in)
{
    for (size_t k = 0; k < want.v.size(); k++)
        if (want.v[k] != got.v[k]) {
            std::string a, b;
            for (size_t i = 0; i < std::max(want.v[k].size(), got.v[k].size()); i++) {
                a = i < want.v[k].size() ? want.v[k][i] : "nothing", b = i < got.v[k].size() ? got.v[k][i] : "nothing";
                if (a != b) break;
            }
            c.fail("result", w + ": process " + S(k) + " gets " + b + " instead of " + a);
            return true;
        }
    for (auto& f : want.fs) {
        if (in.count(f.first) || temporary(f.first)) continue;
        auto g = got.fs.find(f.first);
        if (g == got.fs.end()) {
            c.fail("output", w + ": " + f.first + " is missing");
            return true;
        }
        if (g->second == f.second) continue;
        std::string e;
        if (g->second.size != f.second.size) e = "has " + S(size_t(g->second.size)) + " bytes instead of " + S(size_t(f.second.size));
        else {
            std::string x = f.second.str(), y = g->second.str();
            size_t i      = 0;
            while (i < x.size() && x[i] == y[i]) i++;
            e = "differs in byte " + S(i) + ": " + S(int(uc(y[i]))) + " instead of " + S(int(uc(x[i])));
        }
        c.fail("output", w + ": " + f.first + " " + e);
        return true;
    }
    return false;
}
// All bytes of the traces, or all samples, are zero
static const char* const silents[] = {"", ", zero samples", ", zero traces"};
static void silence(mc::FS& in, int how)
{
    if (!how) return;
    for (auto& f : in) {
        std::string b = f.second.str();
        if (b.size() < 3600 || f.first == "model.segy") continue;
        size_t ns = size_t(uc(b[3220])) * 256 + uc(b[3221]), tr = 240 + 4 * ns;
        for (size_t i = 3600; i < b.size(); i++)
            if (how == 2 || (i - 3600) % tr >= 240) b[i] = 0;
        f.second = mc::file_from(b);
    }
}
static const char* const stales[] = {"a part of a trace more", "three traces more", "as many bytes", "fewer bytes", "many more bytes", "two bytes", "nothing"};
static mc::SparseFile stale(const mc::SparseFile& f, int kind, size_t ns)
{
    size_t tr = 240 + 4 * ns, n = f.size;
    switch (kind) {
        case 0: n += 17; break;
        case 1: n += 3 * tr; break;
        case 2: break;
        case 3: n = n > tr ? n - tr : n / 2; break;
        case 4: n += 12000; break;
        case 5: n = 2; break;
        default: n = 0; break;
    }
    std::string b = f.str();
    if (kind > 1) b.clear();
    size_t k = b.size();
    b.resize(n);
    // a valid file with other content, where that matters
    for (size_t i = k; i < n; i++) b[i] = char(i * 31 % 127 + 1);
    return mc::file_from(b);
}
// the first run gives the expected output, and the names to prepare
static void all_stale(mc::Case& c, int np, const mc::FS& in, size_t ns, const std::string& w, const Body& body, bool each, int kinds)
{
    Ran want = ran(c, np, in, body);
    if (!want.ok) return;
    std::vector<std::string> made;
    for (auto& f : want.fs)
        if (!in.count(f.first)) made.push_back(f.first);
    for (int kind = 0; kind < kinds; kind++)
        for (size_t only = 0; only <= (each && made.size() > 1 ? made.size() : 0); only++) {
            mc::FS x = in;
            for (size_t i = 0; i < made.size(); i++)
                if (!only || only == i + 1) x[made[i]] = stale(want.fs[made[i]], kind, ns);
            Ran got = ran(c, np, x, body);
            uint64_t h = mc::mix(mc::hash_bytes(w.data(), w.size()), size_t(kind * 100) + only);
            c.state(h);
            c.outcome(h);
            std::string was = only ? made[only - 1] + " had " : "the outputs had ";
            if (!got.ok || differs(c, w + " on " + S(np) + " process(es), where " + was + stales[kind], want, got, in)) return;
        }
}
SCENARIO(flows)
{
    int depth = c.thorough() ? 3 : 2;
    int np    = c.range(1, c.thorough() ? 4 : 3, "np");
    int kind  = c.pick(6, "files");
    std::vector<int> l;
    std::string w;
    for (int i = 0; i < depth; i++) {
        int o = c.pick(11, "op");
        if (o == 10) break;
        l.push_back(o);
    }
    int how = c.thorough() || l.size() < 2 ? c.pick(3, "silent") : 0;
    if (!c.go()) return;
    // (the lines have to be those of the model)
    if (how == 2 && std::count(l.begin(), l.end(), 9)) return;
    for (int o : l) w += std::string(fop[o]) + ", ";
    mc::FS in = flow_in(kind, l.size() % 2 ? 2 : 0);
    silence(in, how);
    all_stale(c, np, in, kind == 5 ? 5 : 6, w + "output of file set " + S(kind) + silents[how], [&](int rank, Vals& v) { flow_body(l, rank, v); }, c.thorough() || l.size() < 2, c.thorough() ? 7 : 4);
}
SCENARIO(utilities)
{
    int u = c.pick(12, "utility"), n = c.range(1, c.thorough() ? 9 : 6, "traces"), np = c.range(1, c.thorough() ? 5 : 3, "np");
    int seed = c.pick(2, "input");
    int how  = c.pick(3, "silent");
    if (!c.go()) return;
    if ((u == 9 || u == 10) && n < np) return;
    mc::FS in                    = util_in(u, n, seed);
    silence(in, how);
    exseisdat_model_check_memlim = size_t(1) << 30;
    exseisdat_model_check_block  = 4096;
    all_stale(c, np, in, 3, std::string(un[u]) + " of " + S(n) + " traces" + silents[how], [&](int, Vals&) { util_body(u, n); }, true, 7);
    exseisdat_model_check_block = 2097152;
}
// One run after another in the same place
SCENARIO(again)
{
    int np = c.range(1, c.thorough() ? 4 : 3, "np");
    int a = c.pick(6, "first files"), b = c.pick(6, "second files");
    int o = c.pick(10, "first"), p = c.pick(11, "then");
    if (!c.go()) return;
    if (a == b) return;
    std::vector<int> l{o};
    if (p < 10) l.push_back(p);
    mc::FS inb = flow_in(b, 0), ina = flow_in(a, 0);
    auto body = [&](int rank, Vals& v) { flow_body(l, rank, v); };
    Ran want  = ran(c, np, inb, body);
    if (!want.ok) return;
    Ran first = ran(c, np, ina, body);
    if (!first.ok) return;
    mc::FS x = inb;
    for (auto& f : first.fs)
        if (!ina.count(f.first)) x[f.first] = f.second;
    Ran got = ran(c, np, x, body);
    std::string w = fop[o] + (p < 10 ? ", " + std::string(fop[p]) : "") + ", output of file set " + S(b) + " after that of file set " + S(a) + " on " + S(np) + " process(es)";
    c.state(mc::hash_bytes(w.data(), w.size()));
    if (got.ok) differs(c, w, want, got, inb);
}
SCENARIO(utilities_again)
{
    int u = c.pick(12, "utility"), n = c.range(1, 5, "traces"), m = c.range(1, 9, "traces before"), np = c.range(1, 3, "np");
    if (!c.go()) return;
    if ((u == 9 || u == 10) && (n < np || m < np)) return;
    exseisdat_model_check_memlim = size_t(1) << 30;
    exseisdat_model_check_block  = 4096;
    mc::FS inb = util_in(u, n, 0), ina = util_in(u, m, 1);
    Ran want  = ran(c, np, inb, [&](int, Vals&) { util_body(u, n); });
    Ran first = ran(c, np, ina, [&](int, Vals&) { util_body(u, m); });
    if (want.ok && first.ok) {
        mc::FS x = inb;
        for (auto& f : first.fs)
            if (!ina.count(f.first)) x[f.first] = f.second;
        Ran got = ran(c, np, x, [&](int, Vals&) { util_body(u, n); });
        std::string w = std::string(un[u]) + " of " + S(n) + " traces after one of " + S(m) + " on " + S(np) + " process(es)";
        c.state(mc::hash_bytes(w.data(), w.size()));
        if (got.ok) differs(c, w, want, got, inb);
    }
    exseisdat_model_check_block = 2097152;
}
