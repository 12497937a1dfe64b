// C33: the utilities which report on files: the listing of files, the fields
// of one trace and the KML outline of surveys, run on every process.
#include "sets.hh"
#include <algorithm>
#include <cstdlib>
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
using namespace cm;
int util_main_assess(int, char**);
int util_main_traceanalysis(int, char**);
int util_main_segy2kml(int, char**);

// what each process prints and returns
struct Text : std::streambuf {
    std::vector<std::string> t;
    std::string& at()
    {
        size_t r = size_t(std::max(0, mc::my_rank()));
        return t[std::min(r, t.size() - 1)];
    }
    int overflow(int c) override
    {
        if (c != EOF) at().push_back(char(c));
        return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        at().append(s, size_t(n));
        return n;
    }
};
struct Out {
    std::vector<std::string> cout, cerr;
    std::vector<int> ret;
};
static mc::Result call(int np, int (*f)(int, char**), const std::vector<std::string>& a, Out& o)
{
    Text to, te;
    to.t.resize(size_t(np));
    te.t.resize(size_t(np));
    o.ret.assign(size_t(np), -99);
    auto *oc = std::cout.rdbuf(&to), *oe = std::cerr.rdbuf(&te);
    auto fc = std::cout.flags();
    auto pc = std::cout.precision();
    mc::Config cfg;
    cfg.nranks = np;
    auto r     = mc::run(cfg, {}, [&](int rank) {
        std::vector<std::string> s = a;
        std::vector<char*> v;
        for (auto& x : s) v.push_back(const_cast<char*>(x.c_str()));
        v.push_back(nullptr);
        int x              = f(int(s.size()), v.data());
        o.ret[size_t(rank)] = x;
    });
    std::cout.rdbuf(oc);
    std::cerr.rdbuf(oe);
    std::cout.flags(fc);
    std::cout.precision(pc);
    std::cout.clear();
    std::cerr.clear();
    o.cout = to.t;
    o.cerr = te.t;
    return r;
}
static std::string bad_end(const mc::Result& r) { return r.status == mc::Status::Done ? "" : "the run ends with " + std::string(mc::status_name(r.status)) + ": " + r.msg; }
static void put_set(const std::string& name, const std::string& text, int ns, int inc, size_t nt, std::function<void(size_t, uc*)> hdr)
{
    put_file(mc::fs()[name], ho_bytes(text, ns, inc, 1, true), nt, size_t(ns), hdr, [&](size_t i, size_t k) { return 0x42640000u + uint32_t(i * 16 + k); });
}

// ------------------------------------------------------ fields of one trace
static const int32_t vals[][8] = {
  {100, 200, 300, 400, 500, 600, 7, 8},
  {-100, -1, 0, 1, -500, 99, -7, -12},
  {123456789, -123456789, 12345678, 987654321, -98765, 1000001, 2147483647, (-2147483647 - 1)},
  {2147483647, -2147483647, 1999999999, -2, 3, 70000003, 65536, -65536},
};
SCENARIO(trace)
{
    int np = c.range(1, 3, "processes");
    int sc = c.of<int>({1, 0, -1, -10, -100, -1000, -10000, 10, 100, -3, 32767, -32768}, "scalar");
    int v  = c.pick(4, "values");
    int nt = c.of<int>({1, 2, 5}, "traces");
    int df = c.pick(2, "trace given");
    int t  = c.pick(df ? nt : 1, "trace");
    if (t >= nt || (!df && t)) return;
    if (!c.go()) return;
    c.state(mc::mix(mc::mix(size_t(np * 16 + nt), size_t(sc + 40000)), size_t(v * 100 + t * 10 + df)));
    mc::fs().clear();
    static const Meta m[8] = {PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv, PIOL_META_xCmp, PIOL_META_yCmp, PIOL_META_il, PIOL_META_xl};
    auto head              = [&](size_t i, uc* h) {
        put16(h + 70, sc);
        for (size_t k = 0; k < 8; k++) put32(h + field(m[k])->loc - 1, uint32_t(vals[(size_t(v) + i) % 4][(k + i) % 8]));
    };
    put_set("in.segy", "text", 3, 2000, size_t(nt), head);
    std::vector<std::string> a{"traceanalysis", "-i", "in.segy"};
    if (df) {
        a.push_back("-t");
        a.push_back(S(t));
    }
    Out o;
    auto r = call(np, util_main_traceanalysis, a, o);
    c.executed();
    c.transitions(r.steps);
    std::string w = "fields of trace " + S(t) + " of " + S(nt) + " with scalar " + S(sc) + " on " + S(np) + " processes: ", e = bad_end(r);
    if (e.empty()) {
        for (int k = 1; k < np && e.empty(); k++)
            if (!o.cout[size_t(k)].empty()) e = "process " + S(k) + " prints too: " + o.cout[size_t(k)];
        for (int k = 0; k < np && e.empty(); k++)
            if (o.ret[size_t(k)]) e = "process " + S(k) + " returns " + S(o.ret[size_t(k)]);
        std::istringstream in(o.cout[0]);
        uc h[240] = {0};
        head(size_t(t), h);
        static const char* nm[8] = {"xSrc", "ySrc", "xRcv", "yRcv", "xCmp", "yCmp", "il", "xl"};
        for (size_t k = 0; k < 8 && e.empty(); k++) {
            std::string n, x;
            in >> n >> x;
            double want = decode(*field(m[k]), h), got = atof(x.c_str());
            // at least nine significant digits
            if (n != nm[k]) e = "prints \"" + n + "\" instead of " + nm[k];
            else if (k >= 6 ? x != S(int(get32(h + field(m[k])->loc - 1))) : std::fabs(got - want) > 1e-9 * std::fabs(want)) e = "prints " + n + " " + x + " instead of " + S(want);
        }
        std::string rest;
        if (e.empty() && in >> rest) e = "prints \"" + rest + "\" after the fields";
        c.outcome(mc::hash_bytes(o.cout[0].data(), o.cout[0].size()));
    }
    if (!e.empty()) c.fail("trace", w + e);
}

// --------------------------------------------------------- listing of files
struct LFile {
    const char* name;
    bool seis;
    int ns, inc;
    size_t nt;
};
static const LFile lfs[] = {
  {"d/a.segy", true, 3, 2000, 2}, {"d/b.SGY", true, 5, 4000, 0}, {"d/c.sgy", true, 1, 500, 7}, {"d/d.SEGY", true, 1000, 32767, 1}, {"d/e.txt", false, 1, 1000, 1}, {"d/f.segy.bak", false, 1, 1000, 1}, {"d/g.sgyx", false, 2, 1000, 1}, {"d/z.SeGY", true, 4, 1000, 3},
};
SCENARIO(listing)
{
    int np  = c.range(1, 3, "processes");
    int sub = c.pick(256, "files");
    int pat = c.pick(4, "pattern");
    static const char* pats[] = {"d/*", "d/*.s*", "*/?.segy", "d/c.sgy"};
    if (!c.go()) return;
    c.state(mc::mix(size_t(np), size_t(sub * 4 + pat)));
    mc::fs().clear();
    std::string want;
    std::vector<std::string> texts;
    size_t nm = 0;
    for (int i = 0; i < 8; i++) {
        if (!(sub >> i & 1)) continue;
        auto& f        = lfs[i];
        std::string n  = f.name, tx = "C 1 survey " + n + " end";
        put_set(n, tx, f.ns, f.inc, f.nt, [](size_t, uc*) {});
        std::string b = n.substr(2);
        bool m        = pat == 0 ? n[0] == 'd' : pat == 1 ? n[0] == 'd' && b.substr(1, 2) == ".s" : pat == 2 ? b.substr(1) == ".segy" : n == "d/c.sgy";
        if (!m) continue;
        nm++;
        if (!f.seis) continue;
        want += "File: " + n + "\n-\tNs: " + S(f.ns) + "\n-\tNt: " + S(f.nt) + "\n-\tInc: ";
        std::ostringstream s;
        s << double(f.inc) * 1e-6;
        want += s.str() + "\n";
        texts.push_back(tx);
    }
    want = "Pattern: " + std::string(pats[pat]) + "\n" + (nm ? "File Count: " + S(nm) + "\n" + want : "");
    Out o;
    auto r = call(np, util_main_assess, {"assess", pats[pat]}, o);
    c.executed();
    c.transitions(r.steps);
    std::string e = bad_end(r);
    for (int k = 0; k < np && e.empty(); k++) {
        auto p = " on process " + S(k) + " of " + S(np);
        if ((o.ret[size_t(k)] == 0) != (nm > 0)) e = "returns " + S(o.ret[size_t(k)]) + p;
        else if (o.cout[size_t(k)] != want) e = "prints " + o.cout[size_t(k)] + " instead of " + want + p;
        size_t at = 0;
        for (auto& t : texts) {
            at = o.cerr[size_t(k)].find(t, at);
            if (at == std::string::npos && e.empty()) e = "does not print the text \"" + t + "\" in order" + p;
            if (at != std::string::npos) at += t.size();
        }
    }
    c.outcome(mc::hash_bytes(o.cout[0].data(), o.cout[0].size()));
    if (!e.empty()) c.fail("listing", "listing of " + std::string(pats[pat]) + ": " + e);
}
SCENARIO(listing_no_pattern)
{
    int np = c.range(1, 3, "processes");
    if (!c.go()) return;
    c.state(size_t(np));
    mc::fs().clear();
    Out o;
    auto r = call(np, util_main_assess, {"assess"}, o);
    c.executed();
    std::string e = bad_end(r);
    for (int k = 0; k < np && e.empty(); k++)
        if (!o.ret[size_t(k)]) e = "returns 0 without a pattern";
    if (!e.empty()) c.fail("listing", e);
}

// ------------------------------------------------------------ KML outlines
// Inverse of the transverse Mercator projection by the series of Krueger.
static void inverse_utm(double b, int zone, bool north, double E, double N, double& lat, double& lon)
{
    const double a = 6378137, n = (a - b) / (a + b), n2 = n * n, n3 = n2 * n, n4 = n3 * n, n5 = n4 * n, n6 = n5 * n;
    const double A  = a / (1 + n) * (1 + n2 / 4 + n4 / 64 + n6 / 256);
    const double B[] = {n / 2 - 2 * n2 / 3 + 37 * n3 / 96 - n4 / 360 - 81 * n5 / 512 + 96199 * n6 / 604800, n2 / 48 + n3 / 15 - 437 * n4 / 1440 + 46 * n5 / 105 - 1118711 * n6 / 3870720, 17 * n3 / 480 - 37 * n4 / 840 - 209 * n5 / 4480 + 5569 * n6 / 90720, 4397 * n4 / 161280 - 11 * n5 / 504 - 830251 * n6 / 7257600, 4583 * n5 / 161280 - 108847 * n6 / 3991680};
    double xi = (north ? N : N - 10000000) / (0.9996 * A), eta = (E - 500000) / (0.9996 * A), x = xi, y = eta;
    for (int j = 1; j <= 5; j++) {
        x -= B[j - 1] * std::sin(2 * j * xi) * std::cosh(2 * j * eta);
        y -= B[j - 1] * std::cos(2 * j * xi) * std::sinh(2 * j * eta);
    }
    // geodetic from conformal latitude, by iteration
    double tc = std::sin(x) / std::sqrt(std::sinh(y) * std::sinh(y) + std::cos(x) * std::cos(x));
    double e  = std::sqrt(1 - b * b / (a * a)), t = tc;
    for (int i = 0; i < 40; i++) {
        double s  = std::sinh(e * std::atanh(e * t / std::sqrt(1 + t * t)));
        double tp = t * std::sqrt(1 + s * s) - s * std::sqrt(1 + t * t);
        double dt = (tc - tp) / std::sqrt(1 + tp * tp) * (1 + (1 - e * e) * t * t) / ((1 - e * e) * std::sqrt(1 + t * t));
        t += dt;
        if (std::fabs(dt) < 1e-16 * (1 + std::fabs(t))) break;
    }
    const double deg = 180 / std::acos(-1.0);
    lat              = std::atan(t) * deg;
    lon              = zone * 6 - 183 + std::atan2(std::sinh(y), std::cos(x)) * deg;
}
struct Scratch {
    std::string d;
    Scratch()
    {
        const char* b = getenv("MC_SCRATCH");
        std::string t = std::string(b ? b : "/tmp") + "/c33.XXXXXX";
        char* p       = mkdtemp(&t[0]);
        d             = p ? p : "";
    }
    ~Scratch()
    {
        if (d.empty()) return;
        unlink((d + "/out.kml").c_str());
        unlink((d + "/list").c_str());
        rmdir(d.c_str());
    }
};
// elements must nest; returns the content of each placemark
static std::string parse(const std::string& x, std::string& folder, std::vector<std::pair<std::string, std::string>>& lines)
{
    std::vector<std::string> st;
    std::string name, coords;
    if (x.compare(0, 5, "<?xml")) return "it does not start with the declaration of XML";
    size_t i = x.find("?>");
    if (i == std::string::npos) return "the declaration has no end";
    i += 2;
    std::string text;
    while (i < x.size()) {
        if (x[i] != '<') {
            if (st.empty() && !isspace(uc(x[i]))) return "text outside of the elements";
            text.push_back(x[i++]);
            continue;
        }
        size_t j = x.find('>', i);
        if (j == std::string::npos) return "an element has no end";
        std::string tag = x.substr(i + 1, j - i - 1);
        i               = j + 1;
        if (tag[0] == '/') {
            tag = tag.substr(1);
            if (st.empty() || st.back() != tag) return "</" + tag + "> closes " + (st.empty() ? "nothing" : st.back());
            st.pop_back();
            size_t a = text.find_first_not_of(" \t\n"), z = text.find_last_not_of(" \t\n");
            std::string tr = a == std::string::npos ? "" : text.substr(a, z - a + 1);
            if (tag == "name") (st.empty() || st.back() != "Placemark" ? folder : name) = text;
            if (tag == "coordinates") {
                if (st.empty() || st.back() != "LineString") return "coordinates outside of a line";
                coords = tr;
            }
            if (tag == "Placemark") {
                lines.push_back({name, coords});
                name.clear(), coords.clear();
            }
            text.clear();
        }
        else if (tag.back() != '/') {
            st.push_back(tag.substr(0, tag.find_first_of(" \n\t")));
            text.clear();
        }
    }
    return st.empty() ? "" : "<" + st.back() + "> is not closed";
}
static std::string corner(const std::string& s, double lon, double lat, double tol)
{
    std::vector<double> v;
    std::istringstream in(s);
    std::string p;
    while (std::getline(in, p, ',')) {
        char* e  = nullptr;
        double d = strtod(p.c_str(), &e);
        if (p.empty() || *e) return "\"" + p + "\" is not a number";
        v.push_back(d);
    }
    if (v.size() != 3) return S(v.size()) + " numbers in \"" + s + "\"";
    if (std::fabs(v[0] - lon) > tol || std::fabs(v[1] - lat) > tol || v[2] != 0) return s + " instead of " + S(lon) + "," + S(lat) + ",0";
    return "";
}
struct KFile {
    std::string name;
    std::vector<std::pair<int32_t, int32_t>> xy;
    int scal;
};
struct Kml {
    int np;
    std::string zone, folder;
    bool list;
    std::vector<KFile> f;
};
static void kml(mc::Case& c, const Kml& q)
{
    uint64_t h = mc::mix(size_t(q.np), mc::hash_bytes(q.zone.data(), q.zone.size()));
    for (auto& f : q.f) {
        h = mc::mix(h, size_t(f.scal + 40000));
        for (auto& p : f.xy) h = mc::mix(mc::mix(h, size_t(uint32_t(p.first))), size_t(uint32_t(p.second)));
    }
    c.state(mc::mix(h, q.list));
    Scratch d;
    if (d.d.empty()) return c.capped("no scratch directory");
    mc::fs().clear();
    std::vector<std::string> a{"segy2kml"};
    std::ofstream ls;
    if (q.list) ls.open(d.d + "/list");
    for (auto& f : q.f) {
        put_set(f.name, "text", 2, 1000, f.xy.size(), [&](size_t i, uc* b) {
            put16(b + 70, f.scal);
            put32(b + 72, uint32_t(f.xy[i].first));
            put32(b + 76, uint32_t(f.xy[i].second));
            // receivers and midpoints elsewhere
            put32(b + 80, uint32_t(f.xy[i].first + 7));
            put32(b + 84, uint32_t(f.xy[i].second - 9));
            put32(b + 180, 3u);
            put32(b + 184, uint32_t(-4));
        });
        if (q.list) ls << f.name << "\n";
        else a.push_back("-i"), a.push_back(f.name);
    }
    ls.close();
    if (q.list) a.push_back("-i"), a.push_back(d.d + "/list");
    a.push_back("-o"), a.push_back(d.d + "/out.kml");
    if (!q.zone.empty()) a.push_back("-z"), a.push_back(q.zone);
    if (!q.folder.empty()) a.push_back("-f"), a.push_back(q.folder);
    Out o;
    auto r = call(q.np, util_main_segy2kml, a, o);
    c.executed();
    c.transitions(r.steps);
    std::string w = "outline of";
    for (auto& f : q.f) w += " " + f.name + " (" + S(f.xy.size()) + " traces from " + S(int(f.xy[0].first)) + "," + S(int(f.xy[0].second)) + " scalar " + S(f.scal) + ")";
    w += " with zone \"" + q.zone + "\" on " + S(q.np) + " processes: ";
    std::string e = bad_end(r);
    for (int k = 0; k < q.np && e.empty(); k++)
        if (o.ret[size_t(k)]) e = "process " + S(k) + " returns " + S(o.ret[size_t(k)]);
    if (!e.empty()) return c.fail("outline", w + e);
    std::ifstream in(d.d + "/out.kml");
    std::string x((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    c.outcome(mc::hash_bytes(x.data(), x.size()));
    std::string folder;
    std::vector<std::pair<std::string, std::string>> lines;
    e = parse(x, folder, lines);
    if (e.empty() && folder != (q.folder.empty() ? "SEG-Y" : q.folder)) e = "the folder is \"" + folder + "\"";
    if (e.empty() && lines.size() != q.f.size()) e = S(lines.size()) + " lines";
    bool expect_msg = false;
    for (size_t i = 0; i < q.f.size() && e.empty(); i++) {
        auto& f    = q.f[i];
        if (lines[i].first != f.name) e = "line " + S(i) + " has the name " + lines[i].first;
        double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
        for (auto& p : f.xy) {
            double xx = p.first * scale_of(int16_t(f.scal)), yy = p.second * scale_of(int16_t(f.scal));
            lo[0] = std::min(lo[0], xx), hi[0] = std::max(hi[0], xx);
            lo[1] = std::min(lo[1], yy), hi[1] = std::max(hi[1], yy);
        }
        std::istringstream cs(lines[i].second);
        std::string p[2], rest;
        cs >> p[0] >> p[1];
        if (e.empty() && (p[1].empty() || cs >> rest)) e = "the line \"" + lines[i].second + "\" does not have two ends";
        bool utm = lo[0] > 180;
        if (utm && q.zone.empty()) {
            expect_msg = true;
            continue;
        }
        // not an easting of any zone
        if (utm && lo[0] < 100000) continue;
        for (int k = 0; k < 2 && e.empty(); k++) {
            const double* v = k ? hi : lo;
            if (!utm) e = corner(p[k], v[0], v[1], 1e-9);
            else {
                // the polar radius in full or rounded to metres
                for (double b : {6356752.0, 6356752.314245}) {
                    double la, ln;
                    inverse_utm(b, atoi(q.zone.c_str()), toupper(q.zone.back()) == 'N', v[0], v[1], la, ln);
                    e = corner(p[k], ln, la, 5e-7);
                    if (e.empty()) break;
                }
            }
            if (!e.empty()) e = std::string(k ? "far" : "near") + " corner of " + f.name + " is " + e;
        }
    }
    for (int k = 0; k < q.np && e.empty(); k++)
        if (expect_msg != (o.cerr[size_t(k)].find("Invalid coordinates") != std::string::npos)) e = expect_msg ? "no message about coordinates which need a zone" : "a message about valid coordinates";
    if (!e.empty()) c.fail("outline", w + e);
}
// every zone, a grid of positions
SCENARIO(outline_utm)
{
    int z  = c.range(1, 60, "zone");
    int s  = c.pick(4, "hemisphere");
    int ex = c.pick(8, "easting");
    int ny = c.pick(9, "northing");
    if (!c.go()) return;
    static const int32_t es[] = {166100, 250000, 333333, 499999, 500000, 500001, 700123, 833900};
    static const int32_t ns[] = {1, 1000, 1000000, 2500000, 4649776, 5999999, 7000001, 8500000, 9300000};
    int32_t n = ns[ny];
    if (s & 1) n = 10000000 - n;
    // away from the equator a zone is narrower
    int32_t e = es[ex];
    if (ny > 4) e = 500000 + (e - 500000) / 3;
    if (ny > 7) e = 500000 + (e - 500000) / 4;
    Kml q;
    q.np   = 1 + (z + ex) % 3;
    q.zone = S(z) + std::string(1, "NSns"[s]);
    q.list = false;
    q.f.push_back({"a.segy", {{e, n}, {e + 1700, n - 1 + (ny == 0)}}, 1});
    kml(c, q);
}
// every order of the extremes over traces and processes, degrees and metres
SCENARIO(outline_order)
{
    int np = c.range(1, 4, "processes");
    int nt = c.range(1, 5, "traces");
    int ux = c.pick(nt, "first"), uy = c.pick(nt, "second");
    int rv = c.pick(4, "order");
    int sc = c.of<int>({1, -100, -10000, 10}, "scalar");
    int ut = c.pick(3, "units");
    if (!c.go()) return;
    Kml q;
    q.np   = np;
    q.list = false;
    KFile f{"b.sgy", {}, sc};
    for (int i = 0; i < nt; i++) {
        int a = (i + ux) % nt, b = (i + uy) % nt;
        if (rv & 1) a = nt - 1 - a;
        if (rv & 2) b = nt - 1 - b;
        if (ut == 1) f.xy.push_back({-3 + a * 2, 5 - b * 3});
        else if (ut == 0) f.xy.push_back(sc == -100 ? std::make_pair(50000005 + a * 1001, 600000002 + b * 707) : sc == -10000 ? std::make_pair(2000000005 + a * 10010001, 2000000 + b * 70707) : sc == 10 ? std::make_pair(45000 + a * 101, 590000 + b * 77) : std::make_pair(480000 + a * 999, 5800000 + b * 555));
        // degrees with fractions
        else f.xy.push_back({(sc == -10000 ? -1234567 + a * 1200003 : sc == -100 ? -17999 + a * 5003 : sc == 10 ? -18 + a : -179 + a * 60), (sc == -10000 ? -900000 + b * 350001 : sc == -100 ? -8999 + b * 3107 : sc == 10 ? -9 + b : -90 + b * 25)});
    }
    q.f.push_back(f);
    if (ut == 0) q.zone = "31N";
    kml(c, q);
}
// several files, named or listed in a file, degrees, metres and both
SCENARIO(outline_files)
{
    int np = c.range(1, 3, "processes");
    int n  = c.range(1, 3, "files");
    int k[3];
    for (int i = 0; i < n; i++) k[i] = c.pick(4, "file");
    int list = c.pick(2, "list");
    int z    = c.pick(3, "zone");
    int up   = c.pick(2, "name");
    if (!c.go()) return;
    const char* nm[3] = {up ? "x/first.SGY" : "x/first.segy", "second.SEGY", "y.sgy"};
    Kml q;
    q.np     = np;
    q.list   = list;
    q.zone   = std::vector<std::string>{"", "31N", "60s"}[size_t(z)];
    q.folder = up ? "lines of 2017" : "";
    for (int i = 0; i < n; i++) {
        KFile f{nm[i], {}, 1};
        if (k[i] == 0) f.xy = {{450000 + i, 6000000}, {460000, 6100000 + i}};
        if (k[i] == 1) f.xy = {{-100000, 512345}, {-5 - i, 7}}, f.scal = -10000;
        if (k[i] == 2) f.xy = {{180, -33 + i}, {181, 55}, {180 - i, 1}};
        if (k[i] == 3) f.xy = {{181 + i, 1000}};
        q.f.push_back(f);
    }
    kml(c, q);
}
// arguments which are not usable: an error, and no document
SCENARIO(outline_arguments)
{
    int np = c.range(1, 3, "processes");
    int k  = c.pick(16, "arguments");
    if (!c.go()) return;
    c.state(mc::mix(size_t(np), size_t(k)));
    Scratch d;
    if (d.d.empty()) return c.capped("no scratch directory");
    mc::fs().clear();
    put_set("a.segy", "text", 2, 1000, 2, [&](size_t i, uc* b) { put32(b + 72, 500000u); put32(b + 76, 5000000u + uint32_t(i)); });
    static const char* zn[] = {"31", "0N", "61N", "31.5N", "-1S", "31X", "1e9N", "60.25s", "N31Q", "0.5n", "61s"};
    std::string out         = d.d + "/out.kml";
    std::vector<std::string> a{"segy2kml"};
    bool ok = false;
    if (k < 11) a = {"segy2kml", "-i", "a.segy", "-o", out, "-z", zn[k]};
    if (k == 11) a = {"segy2kml", "-i", "a.segy"};
    if (k == 12) a = {"segy2kml", "-o", out};
    if (k == 13) a = {"segy2kml"};
    if (k == 14) a = {"segy2kml", "-h"}, ok = true;
    if (k == 15) a = {"segy2kml", "-o", out, "-z", "31N"};
    Out o;
    auto r = call(np, util_main_segy2kml, a, o);
    c.executed();
    std::string e = bad_end(r);
    if (r.status == mc::Status::Exited || r.status == mc::Status::Exception) e = ok ? e : "";
    for (int i = 0; i < np && e.empty(); i++)
        if (r.status == mc::Status::Done && (o.ret[size_t(i)] == 0) != ok) e = "returns " + S(o.ret[size_t(i)]);
    if (e.empty() && !access(out.c_str(), F_OK)) e = "a document is written";
    std::string w;
    for (auto& s : a) w += s + " ";
    if (!e.empty()) c.fail("arguments", w + ": " + e);
}
// a trace which is not there, or a file which is not there: never a report
SCENARIO(trace_missing)
{
    int np = c.range(1, 3, "processes");
    int k  = c.pick(6, "input");
    if (!c.go()) return;
    c.state(mc::mix(size_t(np), size_t(k)));
    mc::fs().clear();
    put_set("in.segy", "text", 3, 2000, k == 3 ? 0 : 2, [](size_t i, uc* h) { put32(h + 72, uint32_t(7 + i)); });
    static const char* tr[] = {"2", "3", "1000000", "0", "", "x"};
    std::vector<std::string> a{"traceanalysis", "-i", k == 4 ? "none.segy" : "in.segy"};
    if (k != 4) a.push_back("-t"), a.push_back(tr[k]);
    Out o;
    auto r = call(np, util_main_traceanalysis, a, o);
    c.executed();
    std::string e, w = "fields of trace " + std::string(tr[k]) + " of a file with " + (k == 3 ? "no traces" : k == 4 ? "no name" : "2 traces") + ": ";
    if (r.status != mc::Status::Done && r.status != mc::Status::Exited && r.status != mc::Status::Exception) e = bad_end(r);
    for (auto& t : o.cout)
        if (e.empty() && t.find("xSrc") != std::string::npos) e = "prints " + t;
    if (!e.empty()) c.fail("trace", w + e);
}
// many traces, files and processes
SCENARIO(outline_large)
{
    int np = c.of<int>({1, 2, 5, 8}, "processes"), nt = c.of<int>({64, 127, 257, 1025}, "traces"), at = c.pick(6, "extremes"), nf = c.of<int>({1, 4, 12}, "files"), ut = c.pick(2, "units");
    if (!c.go()) return;
    Kml q;
    q.np   = np;
    q.list = nf > 4;
    if (ut) q.zone = "31N";
    for (int f = 0; f < nf; f++) {
        KFile k{"f" + S(f) + ".segy", {}, 1};
        for (int i = 0; i < nt; i++) k.xy.push_back(ut ? std::make_pair(400000 + (i * 37 + f) % 997, 5000000 + (i * 53 + f) % 991) : std::make_pair((i * 37 + f) % 97 - 40, (i * 53 + f) % 61 - 30));
        int pos[6] = {0, nt - 1, nt / 2, nt / 3, std::min(nt / np, nt - 1), (nt + np - 1) / np - 1};
        auto& lo   = k.xy[size_t(pos[at])];
        auto& hi   = k.xy[size_t(pos[(at + 2) % 6])];
        lo.first -= ut ? 20000 : 50;
        hi.second += ut ? 20000 : 20;
        q.f.push_back(k);
    }
    kml(c, q);
}
SCENARIO(trace_large)
{
    int np = c.of<int>({1, 2, 8}, "processes"), t = c.of<int>({0, 1, 63, 64, 255, 256, 257, 1023, 1024, 40000, 65535, 65536, 65537, 70000}, "trace"), more = c.of<int>({1, 2, 500}, "traces after");
    if (!c.go()) return;
    c.state(mc::mix(size_t(np), size_t(t * 1000 + more)));
    mc::fs().clear();
    put_set("in.segy", "text", 1, 2000, size_t(t + more), [&](size_t i, uc* h) {
        for (size_t k = 0; k < 8; k++) put32(h + std::array<size_t, 8>{72, 76, 80, 84, 180, 184, 188, 192}[k], uint32_t(i * 10 + k));
    });
    Out o;
    auto r = call(np, util_main_traceanalysis, {"traceanalysis", "-i", "in.segy", "-t", S(t)}, o);
    c.executed();
    c.transitions(r.steps);
    std::string e = bad_end(r), want[8] = {"xSrc", "ySrc", "xRcv", "yRcv", "xCmp", "yCmp", "il", "xl"};
    std::istringstream in(o.cout[0]);
    for (int k = 0; k < 8 && e.empty(); k++) {
        std::string n;
        double x = -1;
        in >> n >> x;
        if (n != want[k] || std::fabs(x - (t * 10 + k)) > 1e-9 * x) e = "prints " + n + " " + S(x) + " instead of " + want[k] + " " + S(t * 10 + k);
    }
    if (!e.empty()) c.fail("trace", "fields of trace " + S(t) + " of " + S(t + more) + " on " + S(np) + " processes: " + e);
}
SCENARIO(listing_many)
{
    int np = c.of<int>({1, 3}, "processes"), n = c.of<int>({9, 12, 40, 130}, "files");
    if (!c.go()) return;
    c.state(mc::mix(size_t(np), size_t(n)));
    mc::fs().clear();
    std::string want = "Pattern: d/*\nFile Count: " + S(n) + "\n";
    for (int i = 0; i < n; i++) {
        char nm[32];
        snprintf(nm, sizeof nm, "d/s%03d.segy", i);
        put_set(nm, "C text", 1 + i % 7, 1000 + i, size_t(i * 7 % 300), [](size_t, uc*) {});
        std::ostringstream s;
        s << double(1000 + i) * 1e-6;
        want += "File: " + std::string(nm) + "\n-\tNs: " + S(1 + i % 7) + "\n-\tNt: " + S(i * 7 % 300) + "\n-\tInc: " + s.str() + "\n";
    }
    Out o;
    auto r = call(np, util_main_assess, {"assess", "d/*"}, o);
    c.executed();
    c.transitions(r.steps);
    std::string e = bad_end(r);
    for (int k = 0; k < np && e.empty(); k++)
        if (o.ret[size_t(k)] || o.cout[size_t(k)] != want) e = "prints " + o.cout[size_t(k)] + " instead of " + want;
    if (!e.empty()) c.fail("listing", "listing of " + S(n) + " files: " + e);
}
