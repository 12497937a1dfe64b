// C05: the MPI-IO data layer moves exactly the addressed bytes.
// Reference model: a byte map; one byte at a time.
#include "mc.hpp"
#include "ExSeisDat/PIOL/DataMPIIO.hh"
#include "ExSeisDat/PIOL/ExSeis.hh"
using namespace exseis::PIOL;
using mc::SparseFile;

static const char* FN = "data.bin";
static std::string S(unsigned long long x) { return std::to_string(x); }

// Content of a pre-existing file byte.
static unsigned char orig(uint64_t off)
{
    uint64_t x = off * 0x9e3779b97f4a7c15ull;
    return (unsigned char)(1 + (x >> 40) % 250);
}
static unsigned char fresh(int rank, size_t i, int op) { return (unsigned char)(128 + ((rank * 41 + int(i) * 7 + op * 97) % 127)); }

enum K { CW, SW, LW, CR, SR, LR };
static const char* kname[] = {"contiguous write", "strided write", "list write", "contiguous read", "strided read", "list read"};
struct Op {
    K k;
    size_t off = 0, bsz = 1, osz = 1, n = 0;
    std::vector<size_t> list;
    std::vector<uint64_t> bytes() const  // file offset of each buffer byte
    {
        std::vector<uint64_t> v;
        if (k == CW || k == CR)
            for (size_t i = 0; i < n; i++) v.push_back(off + i);
        else if (k == SW || k == SR)
            for (size_t i = 0; i < n; i++)
                for (size_t j = 0; j < bsz; j++) v.push_back(off + i * osz + j);
        else
            for (size_t o : list)
                for (size_t j = 0; j < bsz; j++) v.push_back(o + j);
        return v;
    }
    bool wr() const { return k <= LW; }
    std::string str() const
    {
        std::string s = std::string(kname[k]) + " off=" + S(off) + " bsz=" + S(bsz) + " osz=" + S(osz) + " n=" + S(n) + " list=[";
        for (auto o : list) s += S(o) + " ";
        return s + "]";
    }
};
static const int GUARD = 16;

static void apply(DataMPIIO& d, const Op& o, unsigned char* b)
{
    switch (o.k) {
        case CW: d.write(o.off, o.n, (const unsigned char*)b); break;
        case SW: d.write(o.off, o.bsz, o.osz, o.n, (const unsigned char*)b); break;
        case LW: d.write(o.bsz, o.list.size(), o.list.data(), (const unsigned char*)b); break;
        case CR: d.read(o.off, o.n, b); break;
        case SR: d.read(o.off, o.bsz, o.osz, o.n, b); break;
        case LR: d.read(o.bsz, o.list.size(), o.list.data(), b); break;
    }
}

// progs[rank] = list of operations (same length); executed with a barrier
// between operations.
static void execute(mc::Case& c, int nr, bool coll, size_t maxSize, const std::vector<std::vector<Op>>& progs, const SparseFile& start, bool sync)
{
    mc::fs()[FN] = start;
    mc::Config cfg;
    cfg.nranks       = nr;
    cfg.strict_races = true;
    std::vector<std::string> bad((size_t)nr);
    struct Out {
        std::vector<std::vector<unsigned char>> bufs;
        bool err;
        size_t fsz;
    };
    std::vector<Out> outs((size_t)nr);
    auto body = [&](int rank) {
        std::shared_ptr<ExSeisPIOL> piol = ExSeis::New();
        DataMPIIO::Opt opt;
        opt.coll    = coll;
        opt.maxSize = maxSize;
        {
            DataMPIIO d(piol, FN, opt, FileMode::ReadWrite);
            int step = 0;
            for (auto& o : progs[(size_t)rank]) {
                size_t nb = o.bytes().size();
                // exactly sized heap allocation (ASan guards it); buffer 0
                // bytes long is a legal non-null pointer
                std::vector<unsigned char> b(nb + GUARD);
                for (size_t i = 0; i < b.size(); i++) b[i] = o.wr() && i < nb ? fresh(rank, i, step) : (unsigned char)0xC3;
                apply(d, o, b.data());
                outs[(size_t)rank].bufs.push_back(b);
                if (sync) piol->comm->barrier();
                step++;
            }
            outs[(size_t)rank].fsz = d.getFileSz();
        }
        outs[(size_t)rank].err = piol->log->isErr();
    };
    auto r = mc::run_case(c, cfg, body);
    if (r.status != mc::Status::Done) {
        c.fail("run", std::string(mc::status_name(r.status)) + ": " + r.msg);
        return;
    }
    if (!r.open_files.empty()) c.fail("open", "a file was left open");
    // reference
    SparseFile ref = start;
    size_t steps   = progs[0].size();
    for (size_t s = 0; s < steps; s++) {
        for (int rk = 0; rk < nr; rk++) {
            auto& o = progs[(size_t)rk][s];
            auto pos = o.bytes();
            auto& b  = outs[(size_t)rk].bufs[s];
            for (size_t i = 0; i < b.size(); i++) {
                unsigned char want;
                if (i >= pos.size()) want = 0xC3;
                else if (o.wr()) want = fresh(rk, i, (int)s);
                else {
                    if (pos[i] >= ref.size) continue;  // past the end: unspecified
                    ref.read(pos[i], &want, 1);
                }
                if (b[i] != want) {
                    c.fail(i >= pos.size() ? "buffer-overrun" : o.wr() ? "buffer-changed" : "read-data", "rank " + S(rk) + " step " + S(s) + " " + o.str() + ": buffer byte " + S(i) + " is " + S(b[i]) + ", expected " + S(want));
                    return;
                }
            }
        }
        for (int rk = 0; rk < nr; rk++) {
            auto& o = progs[(size_t)rk][s];
            if (!o.wr()) continue;
            auto pos = o.bytes();
            for (size_t i = 0; i < pos.size(); i++) {
                unsigned char x = fresh(rk, i, (int)s);
                ref.write(pos[i], &x, 1);
            }
        }
        c.transitions(1);
    }
    auto& got = mc::fs()[FN];
    if (!(got == ref)) {
        std::string w = "file size " + S(got.size) + " expected " + S(ref.size);
        std::set<uint64_t> pages;
        for (auto& p : got.pages) pages.insert(p.first);
        for (auto& p : ref.pages) pages.insert(p.first);
        for (auto p : pages) {
            unsigned char a[SparseFile::PS], b[SparseFile::PS];
            got.read(p * SparseFile::PS, a, sizeof a);
            ref.read(p * SparseFile::PS, b, sizeof b);
            for (size_t i = 0; i < sizeof a; i++)
                if (a[i] != b[i]) {
                    w += "; byte " + S(p * SparseFile::PS + i) + " is " + S(a[i]) + " expected " + S(b[i]);
                    goto done;
                }
        }
    done:
        std::string ops;
        for (int rk = 0; rk < nr; rk++)
            for (auto& o : progs[(size_t)rk]) ops += " | rank " + S(rk) + " " + o.str();
        c.fail("file", w + ops);
    }
    for (int rk = 0; rk < nr; rk++) {
        if (outs[(size_t)rk].err) c.fail("spurious-error", "an error was logged though nothing failed (rank " + S(rk) + ")");
        if (outs[(size_t)rk].fsz != ref.size) c.fail("size", "file size query returned " + S(outs[(size_t)rk].fsz) + ", expected " + S(ref.size));
    }
    c.outcome(got.hash());
}

static SparseFile prefilled(uint64_t base, size_t n)
{
    SparseFile f;
    for (size_t i = 0; i < n; i++) {
        unsigned char x = orig(base + i);
        f.write(base + i, &x, 1);
    }
    return f;
}

static const std::vector<uint64_t> bases = {0, 1, (1ull << 31) - 7, (1ull << 32) - 7, (1ull << 40) + 3, (1ull << 53) + 5};

// ---- one contiguous operation, every share per process, every chunk limit
SCENARIO(contiguous)
{
    int nr     = c.range(1, 3, "ranks");
    int wr     = c.pick(2, "read");
    int coll   = c.pick(2, "independent");
    size_t mx  = c.of(std::vector<size_t>{1, 2, 3, 4, 1u << 20}, "maxSize");
    uint64_t b = c.of(bases, "base");
    std::vector<size_t> n;
    int top = nr == 1 ? 9 : nr == 2 ? 6 : 4;
    for (int r = 0; r < nr; r++) n.push_back((size_t)c.pick(top + 1, "n"));
    if (!c.go()) return;
    std::vector<std::vector<Op>> p;
    uint64_t o = b;
    for (int r = 0; r < nr; r++) {
        Op x;
        x.k   = wr ? CR : CW;
        x.off = o;
        x.n   = n[(size_t)r];
        o += x.n;
        p.push_back({x});
    }
    execute(c, nr, !coll, mx, p, prefilled(b, size_t(o - b) + 5), true);
}

// ---- one strided operation: every (block, stride, count) and chunk limit
SCENARIO(strided)
{
    int nr     = c.range(1, 2, "ranks");
    int wr     = c.pick(2, "read");
    int coll   = c.pick(2, "independent");
    size_t bsz = (size_t)c.range(1, 3, "bsz");
    size_t osz = bsz + (size_t)c.range(0, 3, "gap");
    size_t mx  = c.of(std::vector<size_t>{osz, 2 * osz, 3 * osz + 1, 1u << 20}, "maxSize");
    uint64_t b = c.of(bases, "base");
    std::vector<size_t> n;
    int top = nr == 1 ? 7 : 5;
    for (int r = 0; r < nr; r++) n.push_back((size_t)c.pick(top + 1, "n"));
    if (!c.go()) return;
    std::vector<std::vector<Op>> p;
    uint64_t o = b;
    for (int r = 0; r < nr; r++) {
        Op x;
        x.k   = wr ? SR : SW;
        x.off = o;
        x.bsz = bsz;
        x.osz = osz;
        x.n   = n[(size_t)r];
        o += x.n * osz;
        p.push_back({x});
    }
    execute(c, nr, !coll, mx, p, prefilled(b, size_t(o - b) + 9), true);
}

// ---- one list operation: every increasing list of block positions
SCENARIO(list)
{
    int nr     = c.range(1, 3, "ranks");
    int wr     = c.pick(2, "read");
    int coll   = c.pick(2, "independent");
    size_t bsz = (size_t)c.range(1, 3, "bsz");
    size_t mx  = 2 * bsz * c.of(std::vector<size_t>{1, 2, 3, 1000}, "chunk-blocks") + 1;
    uint64_t b = c.of(nr == 1 ? bases : std::vector<uint64_t>{0, (1ull << 32) - 7}, "base");
    int slots  = nr == 1 ? 6 : nr == 2 ? 5 : 4;
    // every assignment of block slots to ranks (slot owner 0 = nobody)
    std::vector<int> own;
    for (int i = 0; i < slots; i++) own.push_back(c.pick(nr + 1, "owner"));
    if (!c.go()) return;
    std::vector<std::vector<Op>> p;
    for (int r = 0; r < nr; r++) {
        Op x;
        x.k   = wr ? LR : LW;
        x.bsz = bsz;
        for (int i = 0; i < slots; i++)
            if (own[(size_t)i] == r + 1) x.list.push_back(b + (size_t)i * (bsz + 1));
        x.n = x.list.size();
        p.push_back({x});
    }
    execute(c, nr, !coll, mx, p, prefilled(b, (size_t)slots * (bsz + 1) + 5), true);
}

// ---- lists in which processes read overlapping and repeated blocks, with
// far-apart 64-bit positions
SCENARIO(list_far)
{
    int nr   = c.range(1, 2, "ranks");
    int wr   = c.pick(2, "read");
    int coll = c.pick(2, "independent");
    std::vector<uint64_t> pos = {0, (1ull << 31) - 2, (1ull << 31) + 2, (1ull << 32) - 1, (1ull << 33) + 1, (1ull << 45)};
    int m0 = c.pick(64, "mask0"), m1 = nr == 2 ? c.pick(64, "mask1") : 0;
    size_t mx = c.of(std::vector<size_t>{6, 1000}, "maxSize");
    if (wr == 0 && (m0 & m1)) m1 &= ~m0;
    if (!c.go()) return;
    std::vector<std::vector<Op>> p;
    SparseFile f;
    for (auto o : pos)
        for (uint64_t i = 0; i < 6; i++) {
            unsigned char x = orig(o + i);
            f.write(o + i, &x, 1);
        }
    for (int r = 0; r < nr; r++) {
        Op x;
        x.k   = wr ? LR : LW;
        x.bsz = 3;
        for (size_t i = 0; i < 6; i++)
            if ((r ? m1 : m0) >> i & 1) x.list.push_back(pos[i]);
        x.n = x.list.size();
        p.push_back({x});
    }
    execute(c, nr, !coll, mx, p, f, true);
}

// ---- sequences: every operation leaves the file usable by every other
static Op alpha(int i, int rank, int nr, int step, bool rd_far)
{
    // rank-dependent shapes: rank r's blocks interleave with the others'
    Op x;
    size_t R = (size_t)rank, N = (size_t)nr;
    switch (i) {
        case 0: x.k = CW; x.off = 3 + R * 5; x.n = rank == 1 ? 0 : 4; break;
        case 1: x.k = SW; x.off = 2 + R * 2; x.bsz = 2; x.osz = 2 * N + 1; x.n = 3 - (R % 3); break;
        case 2: x.k = LW; x.bsz = 2; for (size_t k = 0; k < 1 + 2 * R; k++) x.list.push_back(1 + (k * N + R) * 3); break;
        case 3: x.k = CR; x.off = 1 + R; x.n = 9 - 3 * R; break;
        case 4: x.k = SR; x.off = R; x.bsz = 1; x.osz = 3; x.n = 4 + R; break;
        case 5: x.k = LR; x.bsz = 3; for (size_t k = 0; k < (rank == 1 ? 0u : 3u); k++) x.list.push_back(k * 5 + R); break;
        case 6: x.k = SW; x.off = 30 + R * 4; x.bsz = 3; x.osz = 4 * N; x.n = R; break;
    }
    (void)step;
    (void)rd_far;
    return x;
}
SCENARIO(sequences)
{
    int nr    = c.range(1, 3, "ranks");
    int coll  = c.pick(2, "independent");
    size_t mx = c.of(std::vector<size_t>{14, 1u << 20}, "maxSize");
    int len   = c.thorough() ? 4 : 3;
    std::vector<int> ops;
    for (int i = 0; i < len; i++) ops.push_back(c.pick(7, "op"));
    if (!c.go()) return;
    std::vector<std::vector<Op>> p;
    for (int r = 0; r < nr; r++) {
        p.emplace_back();
        for (int i = 0; i < len; i++) p.back().push_back(alpha(ops[(size_t)i], r, nr, i, false));
    }
    execute(c, nr, !coll, mx, p, prefilled(0, 80), true);
}

// ---- resizing
SCENARIO(resize)
{
    int nr        = c.range(1, 3, "ranks");
    uint64_t from = c.of(std::vector<uint64_t>{0, 1, 9, 5000, (1ull << 32) + 5}, "from");
    uint64_t to   = c.of(std::vector<uint64_t>{0, 1, 8, 4096, 4097, (1ull << 31), (1ull << 32) + 1, (1ull << 45)}, "to");
    if (!c.go()) return;
    SparseFile f = prefilled(0, size_t(std::min<uint64_t>(from, 6000)));
    if (from > 6000) f.truncate(from);
    mc::fs()[FN] = f;
    std::vector<size_t> before((size_t)nr), after((size_t)nr);
    std::vector<char> err((size_t)nr);
    mc::Config cfg;
    cfg.nranks = nr;
    auto r     = mc::run_case(c, cfg, [&](int rank) {
        std::shared_ptr<ExSeisPIOL> piol = ExSeis::New();
        {
            DataMPIIO d(piol, FN, FileMode::ReadWrite);
            before[(size_t)rank] = d.getFileSz();
            if (d.isFileNull()) err[(size_t)rank] = 1;
            piol->comm->barrier();
            d.setFileSz(to);
            piol->comm->barrier();
            after[(size_t)rank] = d.getFileSz();
        }
        if (piol->log->isErr()) err[(size_t)rank] = 1;
    });
    if (r.status != mc::Status::Done) {
        c.fail("run", r.msg);
        return;
    }
    f.truncate(to);
    for (int i = 0; i < nr; i++) {
        if (before[(size_t)i] != from || after[(size_t)i] != to) c.fail("size", "size " + S(before[(size_t)i]) + " -> " + S(after[(size_t)i]) + ", expected " + S(from) + " -> " + S(to));
        if (err[(size_t)i]) c.fail("spurious-error", "an error was logged");
    }
    if (!(mc::fs()[FN] == f)) c.fail("file", "resized content differs");
    c.outcome(to * 31 + from);
}

// ---- file modes: read does not create or change, write keeps other bytes
SCENARIO(modes)
{
    int mode  = c.pick(4, "mode");  // Read, Write, ReadWrite, Test
    int exist = c.pick(2, "exists");
    int nr    = c.range(1, 2, "ranks");
    if (!c.go()) return;
    if (exist) mc::fs()[FN] = prefilled(0, 40);
    FileMode fm[] = {FileMode::Read, FileMode::Write, FileMode::ReadWrite, FileMode::Test};
    std::vector<char> err((size_t)nr), null((size_t)nr);
    std::vector<unsigned char> got(10, 0);
    mc::Config cfg;
    cfg.nranks = nr;
    auto r     = mc::run_case(c, cfg, [&](int rank) {
        std::shared_ptr<ExSeisPIOL> piol = ExSeis::New();
        {
            DataMPIIO d(piol, FN, fm[mode]);
            null[(size_t)rank] = d.isFileNull();
            if (!d.isFileNull()) {
                unsigned char b[10];
                if (mode == 0) d.read(3, rank == 0 ? 10 : 0, b);
                else {
                    for (int i = 0; i < 10; i++) b[i] = (unsigned char)(200 + i);
                    d.write(5, rank == 0 ? 10 : 0, (const unsigned char*)b);
                    piol->comm->barrier();
                    if (mode >= 2) d.read(5, rank == 0 ? 10 : 0, b);
                }
                if (rank == 0) got.assign(b, b + 10);
            }
        }
        err[(size_t)rank] = piol->log->isErr();
    });
    if (r.status != mc::Status::Done) {
        c.fail("run", r.msg);
        return;
    }
    bool missing = mode == 0 && !exist;
    for (int i = 0; i < nr; i++) {
        if ((bool)null[(size_t)i] != missing) c.fail("null", "file handle null: " + S((bool)null[(size_t)i]) + " expected " + S(missing));
        if ((bool)err[(size_t)i] != missing) c.fail("error", "error state " + S((bool)err[(size_t)i]) + ", expected " + S(missing));
    }
    SparseFile want;
    bool there = false;
    if (exist && mode != 3) { want = prefilled(0, 40); there = true; }
    if (mode == 1 || mode == 2) {
        there = true;
        for (int i = 0; i < 10; i++) {
            unsigned char x = (unsigned char)(200 + i);
            want.write(uint64_t(5 + i), &x, 1);
        }
    }
    bool is = mc::fs().count(FN) > 0;
    if (is != there) c.fail("existence", "file exists: " + S(is) + ", expected " + S(there));
    else if (there && !(mc::fs()[FN] == want)) c.fail("file", "content differs after open mode " + S(mode));
    if (!missing)
        for (int i = 0; i < 10; i++)
            if (got[(size_t)i] != (mode == 0 ? orig(uint64_t(3 + i)) : (unsigned char)(200 + i))) c.fail("data", "read-back differs in mode " + S(mode));
    c.outcome(uint64_t(mode * 2 + exist));
}

// ---- many blocks, large blocks and many processes: sizes around powers of two
SCENARIO(many)
{
    int nr     = c.of(c.thorough() ? std::vector<int>{1, 2, 5, 8, 9, 16} : std::vector<int>{1, 8}, "ranks");
    int kind   = c.pick(6, "kind");
    int coll   = c.pick(2, "independent");
    size_t bsz = c.of(c.thorough() ? std::vector<size_t>{1, 2, 7, 240, 256, 1000, 4097, 65536, 70001} : std::vector<size_t>{1, 240, 4097, 70001}, "bsz");
    size_t n   = c.of(c.thorough() ? std::vector<size_t>{1, 3, 64, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4097, 10007} : std::vector<size_t>{3, 64, 257, 1025, 4099}, "blocks");
    size_t gap = c.of(std::vector<size_t>{0, 13}, "gap");
    int mxk    = c.pick(3, "maxSize");
    if (!c.go()) return;
    if (n * (bsz + gap) > (c.thorough() ? 600000u : 150000u)) return;
    size_t osz = bsz + gap;
    size_t mx  = mxk == 0 ? 50 * osz + 1 : mxk == 1 ? size_t(1) << 16 : size_t(1) << 30;
    if (mx < 2 * osz) return;
    std::vector<std::vector<Op>> p;
    for (int r = 0; r < nr; r++) {
        size_t R = size_t(r), N = size_t(nr), a = n * R / N, e = n * (R + 1) / N;
        Op x;
        x.k   = K(kind);
        x.off = 5 + a * osz;
        x.bsz = bsz;
        x.osz = osz;
        x.n   = e - a;
        if (x.k == CW || x.k == CR) x.n *= osz;
        if (x.k == LW || x.k == LR)
            for (size_t i = R; i < n; i += N) x.list.push_back(5 + i * osz);
        p.push_back({x});
    }
    execute(c, nr, !coll, mx, p, prefilled(0, n * osz + 9), true);
}

// ---- transfers larger than a 32-bit count with the default chunk limit
SCENARIO(huge)
{
    int which = c.pick(c.thorough() ? 3 : 1, "which");
    if (!c.go()) return;
    DataMPIIO::Opt* none = nullptr;
    (void)none;
    const size_t N = (size_t(1) << 31) + 4099;
    std::vector<size_t> probes;
    for (size_t b : {size_t(0), size_t(2147479551), size_t(2147479552), size_t(2147483647), size_t(2147483648), N - 1})
        for (int d = -2; d <= 2; d++)
            if (b + (size_t)d < N) probes.push_back(b + (size_t)d);
    SparseFile f;
    f.truncate(N + 100);
    const size_t off = 17;
    for (auto p : probes) {
        unsigned char x = orig(p);
        f.write(off + p, &x, 1);
    }
    if (which != 1) mc::fs()[FN] = f;
    mc::Config cfg;
    bool err = false;
    std::string w;
    auto r = mc::run_case(c, cfg, [&](int) {
        std::shared_ptr<ExSeisPIOL> piol = ExSeis::New();
        unsigned char* b                 = static_cast<unsigned char*>(calloc(N, 1));
        {
            DataMPIIO d(piol, FN, FileMode::ReadWrite);
            if (which == 0) {
                d.read(off, N, b);
                for (auto p : probes)
                    if (b[p] != orig(p)) w = "byte " + S(p) + " of a " + S(N) + " byte read is wrong";
            }
            else if (which == 1) {
                for (auto p : probes) b[p] = orig(p);
                d.write(off, N, (const unsigned char*)b);
                d.setFileSz(N + 100);
            }
            else {
                // strided: blocks of 2^16 with stride 2^16 is the same range
                d.read(off, 65536, 65536, N / 65536, b);
                for (auto p : probes)
                    if (p < N / 65536 * 65536 && b[p] != orig(p)) w = "byte " + S(p) + " of a strided read is wrong";
            }
        }
        free(b);
        err = piol->log->isErr();
    });
    if (r.status != mc::Status::Done) c.fail("run", r.msg);
    if (err) c.fail("spurious-error", "an error was logged");
    if (!w.empty()) c.fail("read-data", w);
    if (which == 1) {
        auto& g = mc::fs()[FN];
        for (auto p : probes) {
            unsigned char x = 0;
            g.read(off + p, &x, 1);
            if (x != orig(p)) c.fail("file", "byte " + S(p) + " of a " + S(N) + " byte write is wrong");
        }
    }
    c.outcome(uint64_t(which));
}
