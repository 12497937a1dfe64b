// C07: opening a file of any size and content. Every file size around the
// header and trace boundaries, every value of every header field the reader
// decodes, against direct decoding of the bytes.
#include "common.hh"
#include "ebcdic.hh"
using namespace cm;

static const char* FN = "hdr.segy";

struct Obs {
    bool done = false;
    size_t ns = 0, nt = 0;
    double inc = 0;
    std::string text;
    bool err = false;
    bool have_sample = false;
    float sample = 0;
    std::shared_ptr<Rule> rule;
};
// Open on every process, look at everything, close.
static mc::Result open_all(mc::Case& c, int nr, bool sample, std::vector<Obs>& o)
{
    mc::Config cfg;
    cfg.nranks = nr;
    o.assign(size_t(nr), Obs());
    return mc::run_case(c, cfg, [&](int rank) {
        auto piol = ExSeis::New();
        {
            ReadDirect f(piol, FN);
            Obs& x = o[size_t(rank)];
            x.ns   = f->readNs();
            x.nt   = f->readNt();
            x.inc  = f->readInc();
            x.text = f->readText();
            if (sample && x.nt > 0 && x.ns > 0) {
                std::vector<Trace_value> t(x.ns);
                f->readTrace(0, 1, t.data());
                x.sample      = t[0];
                x.have_sample = true;
            }
            x.done = true;
        }
        o[size_t(rank)].err = piol->log->isErr();
    });
}
static bool printable_a(int b) { return b >= 0x20 && b < 0x7f; }
static bool printable_e(int b) { return e2a[b] != NO && printable_a(e2a[b]); }

// Compare with direct decoding of the file. The sample count is a 16-bit
// count; counts above 32767 do not fit the signed field of revision 1: they may
// be read as unsigned, or rejected as "no traces", but nothing else.
static void compare(mc::Case& c, const std::string& what, const std::vector<Obs>& o, const SparseFile& f)
{
    std::vector<uc> h(3600, 0);
    f.read(0, h.data(), 3600);
    bool has      = f.size >= 3600;
    size_t ns     = has ? size_t(h[3220]) * 256 + h[3221] : 0;
    int inc       = has ? get16(&h[3216]) : 0;
    int fmt       = has ? get16(&h[3224]) : 0;
    size_t nt     = has ? size_t((f.size - 3600) / (240 + 4 * ns)) : 0;
    bool odd      = ns > 32767;
    for (size_t r = 0; r < o.size(); r++) {
        auto& x          = o[r];
        std::string w    = what + ", rank " + S(r) + ": ";
        if (!x.done) {
            c.fail("run", w + "did not finish");
            continue;
        }
        bool rejected = odd && x.nt == 0 && (x.ns == 0 || x.ns == ns);
        if (x.nt != nt && !rejected) c.fail("nt", w + S(x.nt) + " traces, expected " + S(nt) + " (" + S(f.size) + " bytes, " + S(ns) + " samples)");
        if (x.ns != ns && !rejected) c.fail("ns", w + S(x.ns) + " samples, expected " + S(ns));
        if (!close_to(x.inc, inc * 1e-6)) c.fail("inc", w + "interval " + S(x.inc) + ", expected " + S(inc) + " us");
        if (x.have_sample) {
            uc b[4];
            f.read(3600 + 240, b, 4);
            uint32_t wd = getu32(b);
            float want  = fmt == 1 ? float(std::ldexp(double(wd & 0xffffff) / 16777216.0, 4 * (int((wd >> 24) & 127) - 64)) * (wd >> 31 ? -1 : 1)) : fromb(wd);
            if (bits(want) != bits(x.sample)) c.fail("format", w + "format code " + S(fmt) + ": first sample is " + S(double(x.sample)) + ", expected " + S(double(want)));
        }
        if (has) {
            // which of the two codes the text is in is decided by what is in it
            int a = 0, e = 0;
            bool both = true;
            for (int k = 0; k < 3200; k++) {
                a += printable_a(h[size_t(k)]);
                e += printable_e(h[size_t(k)]);
                both &= h[size_t(k)] == 0x40;
            }
            std::string asis(h.begin(), h.begin() + 3200), conv(asis);
            for (auto& ch : conv) ch = char(e2a[uc(ch)] == NO ? 0x1A : e2a[uc(ch)]);
            // eight-ones has two conventions
            std::string conv2 = conv;
            for (size_t k = 0; k < 3200; k++)
                if (h[k] == 0xFF) conv2[k] = char(0xFF);
            bool is_a = x.text == asis, is_e = x.text == conv || x.text == conv2;
            if (a > e && !is_a) c.fail("text", w + "ASCII text header changed (" + S(a) + "/" + S(e) + " printable)");
            if ((e > a || both) && !is_e) c.fail("text", w + "EBCDIC text header not converted (" + S(a) + "/" + S(e) + " printable)");
            if (!is_a && !is_e) c.fail("text", w + "text header neither kept nor converted");
        }
        else if (!x.text.empty()) {
            for (auto ch : x.text)
                if (ch != 0 && ch != ' ') {
                    c.fail("text", w + "a file without header has a text");
                    break;
                }
        }
    }
}

static void put_small(size_t size, int ns, int inc, int fmt, int textkind = 0)
{
    auto& f = mc::fs()[FN];
    f       = SparseFile();
    std::string t(3200, ' ');
    if (textkind == 1)
        for (auto& x : t) x = 0x40;
    auto h = ho_bytes(t, ns, inc, fmt, true);
    std::vector<uc> b(std::min<size_t>(size, 3600 + 4096), 0);
    for (size_t k = 0; k < b.size(); k++) b[k] = k < 3600 ? h[k] : uc(mc::mix(k, 3) >> 21);
    if (b.size() >= 3844) put32(&b[3840], 0x42640000u);  // 100 (IBM), 57 (IEEE)
    if (!b.empty()) f.write(0, b.data(), b.size());
    f.truncate(size);
}

// Every size near each boundary, for several sample counts and processes.
SCENARIO(sizes)
{
    int nr = c.range(1, 3, "ranks");
    int ns = c.of<int>({0, 1, 2, 5, 1000, 32767, 32768, 65476, 65475, 65535}, "samples");
    int at = c.pick(7, "region");
    if (!c.go()) return;
    std::set<size_t> sz;
    size_t tr = 240 + 4 * size_t(ns);
    auto near = [&](size_t x, int d) {
        for (long long k = (long long)x - d; k <= (long long)x + d; k++)
            if (k >= 0) sz.insert(size_t(k));
    };
    switch (at) {
        case 0: near(4, 4); near(240, 3); near(400, 2); break;
        case 1: near(3200, 8); near(3222, 6); near(3500, 4); break;
        case 2: near(3600, c.thorough() ? 300 : 40); break;
        case 3: near(3600 + tr, 6); near(3600 + 240, 4); near(3600 + 2 * tr, 6); break;
        case 4: near(3600 + 3 * tr, 3); near(3600 + 1000 * tr, 2); near(0x7fffffff, 3); break;
        case 5: near(0xffffffff, 3); near(3600 + ((size_t(1) << 31) / tr) * tr, 3); near(3600 + (size_t(1) << 31) * tr, 2); break;
        default: near(3600 + (size_t(1) << 32) * tr, 2); near(size_t(1) << 40, 2); near((size_t(1) << 62), 1); break;
    }
    for (size_t s : sz) {
        put_small(s, ns, 4000, 5);
        auto before = mc::fs()[FN];
        std::vector<Obs> o;
        auto r = open_all(c, nr, true, o);
        c.state(mc::mix(s, size_t(ns) * 8 + size_t(nr)));
        c.outcome(mc::mix(o[0].nt, o[0].ns));
        std::string what = S(s) + " bytes, " + S(ns) + " samples, " + S(nr) + " processes";
        if (r.status != mc::Status::Done) c.fail("run", what + ": " + mc::status_name(r.status) + " " + r.msg);
        compare(c, what, o, before);
        for (auto& x : o)
            if (x.err) c.fail("error", what + ": opening reports an error");
        if (!(mc::fs()[FN] == before)) c.fail("changed", what + ": opening the file changed it");
        if (c.failed()) return;
    }
}

// Every value of the 16-bit fields.
static void field_box(mc::Case& c, int which, int hi)
{
    for (int lo = 0; lo < 256; lo++) {
        int v  = int16_t(hi * 256 + lo);
        int ns = which == 0 ? v : 3, inc = which == 1 ? v : 4000, fmt = which == 2 ? v : 5;
        size_t tr = 240 + 4 * size_t(uint16_t(ns));
        put_small(3600 + 3 * tr + (which == 0 ? size_t(lo % 3) : 0), ns, inc, fmt);
        auto before = mc::fs()[FN];
        std::vector<Obs> o;
        auto r = open_all(c, 1, true, o);
        c.state(mc::mix(size_t(which), size_t(v)));
        c.outcome(mc::mix(mc::mix(o[0].nt, o[0].ns), uint64_t(o[0].inc * 1e6) * 64 + bits(o[0].sample)));
        std::string what = std::string(which == 0 ? "samples" : which == 1 ? "interval" : "format") + " field " + S(v);
        if (r.status != mc::Status::Done) c.fail("run", what + ": " + mc::status_name(r.status) + " " + r.msg);
        compare(c, what, o, before);
        if (c.failed()) return;
    }
}
SCENARIO(every_samples_value)
{
    int hi = c.pick(256, "high byte");
    if (c.go()) field_box(c, 0, hi);
}
SCENARIO(every_interval_value)
{
    int hi = c.pick(256, "high byte");
    if (c.go()) field_box(c, 1, hi);
}
SCENARIO(every_format_value)
{
    int hi = c.pick(256, "high byte");
    if (c.go()) field_box(c, 2, hi);
}

// Text headers: every pair of byte values at every split that could tip the
// decision between the two codes.
SCENARIO(text)
{
    int b = c.pick(256, "byte");
    if (!c.go()) return;
    static const int others[] = {0x00, 0x20, 0x40, 'A', 'z', 0xC1, 0xF0, 0xFF, 0x85, '9', 0x15, 0x0A};
    std::vector<int> ds(others, others + 12);
    if (c.thorough())
        for (int d = 0; d < 256; d++) ds.push_back(d);
    put_small(3600 + 252, 3, 1000, 5);
    for (int d : ds)
        for (int k : {0, 1, 1599, 1600, 1601, 3199}) {
            std::vector<uc> t(3200, uc(b));
            // the k bytes of the other value: at the end, so that order matters
            for (int q = 0; q < k; q++) t[size_t(3199 - q)] = uc(d);
            auto& f = mc::fs()[FN];
            f.write(0, t.data(), 3200);
            std::vector<Obs> o;
            auto r = open_all(c, 1, false, o);
            c.state(mc::mix(mc::mix(size_t(b), size_t(d)), size_t(k)));
            c.outcome(mc::hash_bytes(o[0].text.data(), o[0].text.size()));
            std::string what = "text of " + S(3200 - k) + " x " + S(b) + " and " + S(k) + " x " + S(d);
            if (r.status != mc::Status::Done) c.fail("run", what + ": " + mc::status_name(r.status) + " " + r.msg);
            compare(c, what, o, f);
            if (c.failed()) return;
        }
}
// All 256 characters at once, in both codes, at every rotation.
SCENARIO(text_rotations)
{
    int rot = c.pick(256, "rotation");
    if (!c.go()) return;
    put_small(3600 + 252, 3, 1000, 5);
    for (int code = 0; code < 2; code++) {
        std::vector<int> set;
        for (int b = 0; b < 256; b++)
            if (code ? printable_e(b) : printable_a(b)) set.push_back(b);
        std::vector<uc> t(3200);
        for (size_t k = 0; k < 3200; k++) t[k] = uc(set[(k + size_t(rot)) % set.size()]);
        auto& f = mc::fs()[FN];
        f.write(0, t.data(), 3200);
        std::vector<Obs> o;
        auto r = open_all(c, 2, false, o);
        c.state(mc::mix(size_t(rot), size_t(code)));
        if (r.status != mc::Status::Done) c.fail("run", std::string(mc::status_name(r.status)) + " " + r.msg);
        compare(c, std::string(code ? "EBCDIC" : "ASCII") + " character set", o, f);
        if (c.failed()) return;
    }
}
// A file with two differing header bytes must not mix neighbouring fields:
// every byte of the binary header is set alone.
SCENARIO(lone_bytes)
{
    int pos = c.range(3200, 3599, "byte");
    int val = c.of<int>({1, 0x7f, 0x80, 0xff}, "value");
    int nr  = c.range(1, 2, "ranks");
    if (!c.go()) return;
    put_small(3600 + 4 * 3000, 3, 4000, 5);
    uc b    = uc(val);
    auto& f = mc::fs()[FN];
    f.write(size_t(pos), &b, 1);
    auto before = f;
    std::vector<Obs> o;
    auto r = open_all(c, nr, true, o);
    c.state(mc::mix(size_t(pos), size_t(val)));
    c.outcome(mc::mix(mc::mix(o[0].nt, o[0].ns), uint64_t(o[0].inc * 1e6)));
    if (r.status != mc::Status::Done) c.fail("run", std::string(mc::status_name(r.status)) + " " + r.msg);
    compare(c, "header byte " + S(pos) + " = " + S(val), o, before);
}
