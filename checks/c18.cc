// C18: the output of a set of files without operations: one file for each
// combination of samples per trace and sampling interval, with all the traces
// of the matching files in order.
#include "sets.hh"
#include "ExSeisDat/PIOL/makeFile.hh"
#include "ExSeisDat/PIOL/ReadSEGY.hh"
using namespace cm;
using exseis::Flow::Set;
static const char* MSG = "ExSeisPIOL: Set layer output\n";
struct Run {
    int mode = 0, nr = 1;
    std::string text;  // "" = default
    bool twice = false, early = false;  // text before the files
};
// modes: 0 pattern + output(), 1 pattern and prefix in the constructor, output
// by the destructor, 2 add(name) for each file, 3 add(opened file) for each
static void one(mc::Case& c, const std::vector<InFile>& in, const Run& q, const HdrFn& hf = hdr_default)
{
    mc::fs().clear();
    for (auto& f : in) put_in(f, hf);
    mc::fs()["s9.txt"] = mc::file_from("not a seismic file");
    mc::fs()["s.segy.bak"] = mc::file_from("x");
    mc::FS before = mc::fs();
    std::vector<std::vector<std::string>> names(static_cast<size_t>(q.nr));
    bool err = false;
    mc::Config cfg;
    cfg.nranks   = q.nr;
    mc::Result r = mc::run_case(c, cfg, [&](int rank) {
        auto piol = ExSeis::New();
        auto& nm  = names[size_t(rank)];
        nm.clear();
        auto opts = [&](Set& s) {
            if (!q.text.empty()) s.text(q.text);
        };
        if (q.mode == 0) {
            Set s(piol, "s*");
            opts(s);
            nm = s.output("out");
            if (q.twice) s.output("out");
        }
        else if (q.mode == 1) {
            Set s(piol, "s*", "out");
            opts(s);
        }
        else if (q.mode == 2) {
            Set s(piol);
            if (q.early) opts(s);
            for (auto& f : in) s.add(f.name);
            if (!q.early) opts(s);
            nm = s.output("out");
        }
        else {
            Set s(piol);
            if (q.early) opts(s);
            for (auto& f : in) s.add(makeFile<ReadSEGY>(piol, f.name));
            if (!q.early) opts(s);
            nm = s.output("out");
        }
        if (piol->log->isErr()) err = true;
        piol->isErr();
    });
    uint64_t h = mc::mix(size_t(q.nr), size_t(q.mode));
    for (auto& f : in) h = mc::mix(h, mc::mix(f.nt, size_t(f.ns * 100000 + f.inc)));
    c.state(h);
    if (r.status != mc::Status::Done || c.failed()) return;
    std::string where = S(q.nr) + " processes, mode " + S(q.mode) + ", files";
    for (auto& f : in) where += " " + f.name + "(" + S(f.nt) + " traces of " + S(f.ns) + " samples at " + S(f.inc) + " us)";
    auto bad = [&](const char* k, const std::string& m) { c.fail(k, where + ": " + m); };
    if (err) return bad("error", "an error is reported");
    if (!r.open_files.empty()) return bad("open", r.open_files[0] + " is left open");
    std::vector<OutFile> out;
    std::string e = outputs(before, out);
    if (!e.empty()) return bad("files", e);
    auto g = groups(in);
    if (q.mode != 1)
        for (auto& nm : names) {
            std::set<std::string> a(nm.begin(), nm.end()), b;
            for (auto& o : out) b.insert(o.name);
            if (a != b || a.size() != nm.size()) {
                std::string s = "the names returned are [";
                for (auto& n : nm) s += n + " ";
                s += "] but the files written are [";
                for (auto& n : b) s += n + " ";
                return bad("names", s + "]");
            }
        }
    std::set<Key> seen;
    for (auto& o : out) {
        c.outcome(mc::mix(o.trc.size(), size_t(o.ns)));
        Key k{o.ns, o.inc};
        if (!g.count(k) || !seen.insert(k).second) return bad("group", "output " + o.name + " has " + S(o.ns) + " samples at " + S(o.inc) + " us");
        if (o.name.compare(0, 3, "out") || o.name.size() < 8 || o.name.substr(o.name.size() - 5) != ".segy") return bad("name", "output name " + o.name);
        char nm[64] = "out.segy";
        if (in.size() > 1) snprintf(nm, sizeof nm, "out%d_0.%06d.segy", o.ns, o.inc);
        if (o.name != nm) return bad("name", "output name " + o.name + " instead of " + nm);
        std::string w = !q.text.empty() ? q.text : q.mode == 3 ? "" : MSG;
        if (o.text.compare(0, w.size(), w) || o.text.find_first_not_of('\0', w.size()) != std::string::npos)
            return bad("text", "output " + o.name + " has the text '" + o.text.substr(0, 60) + "'");
        size_t i = 0;
        for (auto& f : g[k])
            for (size_t j = 0; j < f.nt; j++, i++) {
                if (i >= o.trc.size()) return bad("count", "output " + o.name + " has " + S(o.trc.size()) + " traces");
                uc wh[240] = {0};
                hf(f, j, wh);
                if (memcmp(wh, o.hdr[i].data(), 240)) {
                    size_t b = 0;
                    while (wh[b] == o.hdr[i][b]) b++;
                    return bad("header", "trace " + S(i) + " of " + o.name + ": header byte " + S(b) + " is " + S(int(o.hdr[i][b])) + " instead of " + S(int(wh[b])));
                }
                for (size_t n = 0; n < size_t(f.ns); n++) {
                    float want = f.fmt == 5 ? fromb(smp_bits(f, j, n)) : float(0x640000 + j * 16 + n) / 65536.f;
                    if (bits(want) != bits(o.trc[i][n])) return bad("trace", "sample " + S(n) + " of trace " + S(i) + " of " + o.name + " is " + S(double(o.trc[i][n])) + " instead of " + S(double(want)));
                }
            }
        if (i != o.trc.size()) return bad("count", "output " + o.name + " has " + S(o.trc.size()) + " traces instead of " + S(i));
    }
    if (seen.size() != g.size()) return bad("missing", S(g.size() - seen.size()) + " groups have no output");
}
static const int types[4][2] = {{2, 1000}, {2, 2000}, {3, 1000}, {1, 32767}};
static InFile mk(int i, size_t nt, int ty)
{
    static const char* nm[4] = {"s0.segy", "s1.sgy", "s2.SEGY", "s3.SgY"};
    return {nm[i], nt, types[ty][0], types[ty][1], i + 1};
}
SCENARIO(files)
{
    int nf = c.range(1, 3, "files");
    int n0 = c.of<int>({0, 1, 2, 5}, "traces 0");
    int t1 = c.pick(nf > 1 ? 3 : 1, "type 1"), t2 = c.pick(nf > 2 ? 3 : 1, "type 2");
    int n1 = nf > 1 ? c.of<int>({0, 1, 4}, "traces 1") : (c.pick(1, "-"), 0), n2 = nf > 2 ? c.of<int>({0, 3}, "traces 2") : (c.pick(1, "-"), 0);
    int nr = c.range(1, c.thorough() ? 4 : 3, "ranks");
    if (!c.go()) return;
    std::vector<InFile> in{mk(0, size_t(n0), 0)};
    if (nf > 1) in.push_back(mk(1, size_t(n1), t1));
    if (nf > 2) in.push_back(mk(2, size_t(n2), t2));
    Run q;
    q.nr = nr;
    for (q.mode = 0; q.mode < 4 && !c.failed(); q.mode++) one(c, in, q);
}
SCENARIO(four)
{
    int ty = c.pick(64, "types"), nr = c.range(1, 4, "ranks");
    if (!c.go()) return;
    for (int n = 0; n < 81 && !c.failed(); n += c.thorough() ? 1 : 4) {
        std::vector<InFile> in;
        for (int i = 0, p = n, t = ty * 4; i < 4; i++, p /= 3, t /= 4) in.push_back(mk(i, size_t(p % 3), t % 4));
        Run q;
        q.nr   = nr;
        q.mode = n % 4;
        one(c, in, q);
    }
}
SCENARIO(text)
{
    int mode = c.pick(4, "mode"), len = c.of<int>({1, 79, 3199, 3200}, "length"), nr = c.range(1, 2, "ranks");
    if (!c.go()) return;
    Run q;
    q.mode = mode;
    q.nr   = nr;
    for (int i = 0; i < len; i++) q.text += char('a' + i % 26);
    one(c, {mk(0, 2, 0), mk(1, 1, 2)}, q);
    q.early = true;
    if (!c.failed()) one(c, {mk(0, 2, 0), mk(1, 1, 2)}, q);
}
SCENARIO(twice)
{
    int t1 = c.pick(3, "type"), nr = c.range(1, 3, "ranks");
    if (!c.go()) return;
    Run q;
    q.twice = true;
    q.nr    = nr;
    one(c, {mk(0, 3, 0), mk(1, 2, t1)}, q);
}
// samples per trace and sampling intervals up to their limits; IBM input
SCENARIO(limits)
{
    int ns = c.of<int>({1, 2, 127, 128, 1000, 32767}, "samples"), inc = c.of<int>({1, 2, 3, 7, 100, 999, 1000, 1001, 1333, 2000, 4000, 10000, 32767}, "interval");
    int nr = c.range(1, 2, "ranks");
    if (!c.go()) return;
    Run q;
    q.nr = nr;
    for (int fmt : {5, 1}) {
        std::vector<InFile> in{mk(0, 2, 0), mk(1, 1, 0), mk(2, 2, 0)};
        for (auto& f : in) {
            f.ns  = ns;
            f.inc = inc;
            f.fmt = fmt;
        }
        in[2].inc = inc == 32767 ? 32766 : inc + 1;
        one(c, in, q);
    }
}
// all header bytes are kept, including scaled coordinates
SCENARIO(headers)
{
    int sc = c.of<int>({-10000, -100, -10, -1, 0, 1, 10, 1000}, "scalar"), pat = c.pick(4, "pattern"), nr = c.range(1, 3, "ranks");
    if (!c.go()) return;
    Run q;
    q.nr = nr;
    one(c, {mk(0, 4, 0), mk(1, 3, 0)}, q, [&](const InFile& f, size_t i, uc* h) {
        for (size_t b = 0; b < 240; b++) h[b] = pat == 0 ? uc(b) : pat == 1 ? uc(255 - b) : pat == 2 ? uc(0) : uc(255);
        put32(h + 0, uint32_t(i + size_t(f.id) * 100));
        put16(h + 68, sc);
        put16(h + 70, sc);
        put16(h + 114, f.ns);
        put16(h + 116, f.inc);
    });
}
// only the parameters of the set's rule are kept if it has no copy of the
// headers, and looking for extremes before does not change that
SCENARIO(rule)
{
    int which = c.pick(6, "rule"), look = c.pick(5, "extremes"), nr = c.range(1, 3, "ranks"), ctor = c.pick(3, "constructor");
    if (!c.go()) return;
    static const std::vector<std::vector<Meta>> rules = {
      {PIOL_META_il, PIOL_META_xl}, {PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_il}, {PIOL_META_COPY, PIOL_META_xSrc}, {PIOL_META_COPY}, {PIOL_META_xRcv}, {PIOL_META_yRcv, PIOL_META_xSrc, PIOL_META_tn, PIOL_META_Offset}};
    static const std::map<Meta, std::pair<size_t, int>> at = {
      {PIOL_META_il, {188, 4}}, {PIOL_META_xl, {192, 4}}, {PIOL_META_xSrc, {72, 4}}, {PIOL_META_ySrc, {76, 4}}, {PIOL_META_xRcv, {80, 4}}, {PIOL_META_yRcv, {84, 4}}, {PIOL_META_tn, {4, 4}}, {PIOL_META_Offset, {36, 4}}};
    static const Meta mm[5][2] = {{PIOL_META_xSrc, PIOL_META_ySrc}, {PIOL_META_xSrc, PIOL_META_ySrc}, {PIOL_META_ySrc, PIOL_META_xSrc}, {PIOL_META_xRcv, PIOL_META_yRcv}, {PIOL_META_yRcv, PIOL_META_xSrc}};
    auto& ru  = rules[size_t(which)];
    auto hf   = [](const InFile& f, size_t i, uc* h) {
        hdr_default(f, i, h);
        // whole numbers which a coordinate can hold
        for (size_t b : {72, 76, 80, 84}) put32(h + b, uint32_t(size_t(f.id) * 1000 + i * 10 + b));
    };
    std::vector<InFile> in{mk(0, 3, 0), mk(1, 2, 2), mk(2, 2, 0)};
    mc::fs().clear();
    for (auto& f : in) put_in(f, hf);
    mc::FS before = mc::fs();
    mc::Config cfg;
    cfg.nranks   = nr;
    bool err     = false;
    std::vector<CoordElem> got(4);
    mc::Result r = mc::run_case(c, cfg, [&](int rank) {
        auto piol = ExSeis::New();
        std::shared_ptr<Rule> rp;
        switch (which) {
            case 0: rp = std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_il, PIOL_META_xl}); break;
            case 1: rp = std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_il}); break;
            case 2: rp = std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_COPY, PIOL_META_xSrc}); break;
            case 3: rp = std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_COPY}); break;
            case 4: rp = std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_xRcv}); break;
            default: rp = std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_yRcv, PIOL_META_xSrc, PIOL_META_tn, PIOL_META_Offset});
        }
        auto ops = [&](Set& s) {
            std::vector<CoordElem> e(4);
            if (look) s.getMinMax(mm[look][0], mm[look][1], e.data());
            if (rank == 0) got = e;
        };
        if (ctor == 0) {
            Set s(piol, "s*", rp);
            ops(s);
            s.output("out");
        }
        else if (ctor == 1) {
            Set s(piol, "s*", "out", rp);
            ops(s);
        }
        else {
            Set s(piol, rp);
            for (auto& f : in) s.add(f.name);
            ops(s);
            s.output("out");
        }
        if (piol->log->isErr()) err = true;
    });
    c.state(mc::mix(size_t(which * 8 + look), size_t(nr * 4 + ctor)));
    if (r.status != mc::Status::Done || c.failed()) return;
    std::string where = S(nr) + " processes, rule " + S(which) + ", extremes " + S(look) + ", constructor " + S(ctor) + ": ";
    if (err) return c.fail("rule-error", where + "an error is reported");
    std::vector<OutFile> out;
    std::string e = outputs(before, out);
    if (!e.empty()) return c.fail("rule-files", where + e);
    auto g = groups(in);
    if (out.size() != g.size()) return c.fail("rule-files", where + S(out.size()) + " output files");
    for (auto& o : out) {
        size_t i = 0;
        for (auto& f : g[Key{o.ns, o.inc}])
            for (size_t j = 0; j < f.nt; j++, i++) {
                if (i >= o.trc.size()) return c.fail("rule-count", where + "too few traces in " + o.name);
                uc wh[240] = {0}, ih[240];
                hf(f, j, ih);
                if (std::find(ru.begin(), ru.end(), PIOL_META_COPY) != ru.end()) memcpy(wh, ih, 240);
                else {
                    for (auto m : ru) memcpy(wh + at.at(m).first, ih + at.at(m).first, size_t(at.at(m).second));
                    for (auto m : ru)
                        if (m == PIOL_META_xSrc || m == PIOL_META_ySrc || m == PIOL_META_xRcv || m == PIOL_META_yRcv) put16(wh + 70, 1);
                }
                for (size_t b = 0; b < 240; b++)
                    if (wh[b] != o.hdr[i][b]) return c.fail("rule-header", where + "trace " + S(i) + " of " + o.name + ": header byte " + S(b) + " is " + S(int(o.hdr[i][b])) + " instead of " + S(int(wh[b])));
                for (size_t n = 0; n < size_t(f.ns); n++)
                    if (bits(fromb(smp_bits(f, j, n))) != bits(o.trc[i][n])) return c.fail("rule-trace", where + "sample " + S(n) + " of trace " + S(i) + " of " + o.name);
            }
        if (i != o.trc.size()) return c.fail("rule-count", where + S(o.trc.size()) + " traces in " + o.name);
    }
    if (look) {
        std::vector<size_t> b;
        static const std::map<Meta, size_t> ab = {{PIOL_META_xSrc, 72}, {PIOL_META_ySrc, 76}, {PIOL_META_xRcv, 80}, {PIOL_META_yRcv, 84}};
        for (int k = 0; k < 2; k++) {
            double lo = 1e300, hi = -1e300;
            for (auto& f : in)
                for (size_t i = 0; i < f.nt; i++) {
                    double v = double(size_t(f.id) * 1000 + i * 10 + ab.at(mm[look][k]));
                    lo = std::min(lo, v), hi = std::max(hi, v);
                }
            if (got[size_t(2 * k)].val != lo || got[size_t(2 * k + 1)].val != hi) return c.fail("rule-extremes", where + "extremes " + S(got[size_t(2 * k)].val) + " and " + S(got[size_t(2 * k + 1)].val) + " instead of " + S(lo) + " and " + S(hi));
        }
    }
}
// Sets of many files, of many traces, and on many processes.
SCENARIO(many)
{
    int nf = c.of<int>({8, 11, 12, 16}, "files"), pat = c.pick(5, "types"), nr = c.of<int>({1, 2, 5, 8}, "ranks");
    if (!c.go()) return;
    Run q;
    q.nr = nr;
    for (q.mode = 0; q.mode < 4 && !c.failed(); q.mode++) {
        std::vector<InFile> in;
        for (int i = 0; i < nf; i++) {
            int t = pat == 0 ? 0 : pat == 1 ? i % 3 : pat == 2 ? i % 2 : pat == 3 ? i >= nf - 1 : i % 7;
            char nm[32];
            snprintf(nm, sizeof nm, "s%02d.%s", i, i % 3 ? "segy" : "sgy");
            in.push_back({nm, size_t(i * 5 % 4), 1 + t, t % 2 ? 2000 : 1000, i + 1});
        }
        one(c, in, q);
    }
}
SCENARIO(large)
{
    int nt = c.of<int>({100, 255, 256, 257, 1000, 1024, 2049, 32769, 65537}, "traces"), shape = c.pick(4, "files"), nr = c.of<int>({1, 2, 3, 8}, "ranks");
    if (!c.go()) return;
    Run q;
    q.nr   = nr;
    q.mode = shape % 2 * 2;
    std::vector<InFile> in{mk(0, size_t(nt), 3)};
    if (shape == 1) in.push_back(mk(1, 300, 3));
    if (shape == 2) in = {mk(0, 1, 0), mk(1, size_t(nt), 3), mk(2, 2, 0)};
    if (shape == 3) in = {mk(0, 65, 0), mk(1, size_t(nt), 0), mk(2, 129, 1)};
    one(c, in, q);
}
