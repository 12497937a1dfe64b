// C23: size and position arithmetic of the SEG-Y layout, against 128-bit
// arithmetic written from the format: 3600 + i*(240 + 4*ns).
#include "mc.hpp"
#include "ExSeisDat/PIOL/segy_utils.hh"
using namespace exseis::PIOL::SEGY_utils;
typedef unsigned __int128 u128;
typedef exseis::utils::Trace_value TV;

static std::string S(size_t x) { return std::to_string(x); }

static bool one(mc::Case& c, size_t nt, size_t ns)
{
    u128 dosz = u128(240) + u128(4) * ns;
    u128 fsz  = u128(3600) + u128(nt) * dosz;
    if (fsz + dosz > (u128(1) << 63)) return false;
    std::string at = " for traces=" + S(nt) + " samples=" + S(ns);
    auto eq        = [&](const char* what, u128 want, size_t got) {
        if (u128(got) != want) c.fail(what, std::string(what) + at + ": got " + S(got) + ", expected " + S(size_t(want)));
    };
    eq("data-field-size", u128(4) * ns, getDFSz<TV>(ns));
    eq("object-size", dosz, getDOSz<TV>(ns));
    eq("file-size", fsz, getFileSz<TV>(nt, ns));
    eq("trace-position", fsz, getDOLoc<TV>(nt, ns));
    eq("sample-position", fsz + 240, getDODFLoc<TV>(nt, ns));
    eq("count-exact", nt, getNt<TV>(size_t(fsz), ns));
    // partial traces are not counted, at every boundary
    for (u128 extra : {u128(1), u128(239), u128(240), dosz - 1})
        if (extra < dosz) eq("count-partial", nt, getNt<TV>(size_t(fsz + extra), ns));
    eq("count-next", nt + 1, getNt<TV>(size_t(fsz + dosz), ns));
    if (getTextSz() != 3200 || getHOSz() != 3600 || getMDSz() != 240) c.fail("constants", "header sizes are not 3200/3600/240");
    c.executed(8);
    c.transitions(8);
    c.state(mc::mix(nt, ns));
    return true;
}

SCENARIO(box)
{
    int N  = c.thorough() ? 4096 : 700;
    int ns = c.pick(N + 1, "samples");
    if (!c.go()) return;
    for (size_t nt = 0; nt <= size_t(N); nt++) {
        one(c, nt, size_t(ns));
        // every file size up to two traces counts the complete ones
        if (c.failed()) return;
    }
    if (ns <= 300)
        for (size_t f = 3600; f < 3600 + 3 * (240 + 4 * size_t(ns)) + 2; f++) {
            size_t want = (f - 3600) / (240 + 4 * size_t(ns));
            if (getNt<TV>(f, size_t(ns)) != want) c.fail("count-any", "file size " + S(f) + " samples " + S(size_t(ns)) + ": " + S(getNt<TV>(f, size_t(ns))) + " traces, expected " + S(want));
            c.executed();
        }
    c.outcome(uint64_t(ns));
}
SCENARIO(boundaries)
{
    std::vector<size_t> vs;
    for (int b = 0; b < 62; b++)
        for (int d = -2; d <= 2; d++)
            if ((size_t(1) << b) + size_t(d) < (size_t(1) << 62)) vs.push_back((size_t(1) << b) + size_t(d));
    for (size_t v : {8947848ul, 17895697ul, 2147483647ul / 240, 4294967295ul / 240 + 1, 1000003ul, 32767ul, 65535ul}) vs.push_back(v);
    size_t nt = c.of(vs, "traces");
    if (!c.go()) return;
    uint64_t k = 0;
    for (size_t ns : vs) k += one(c, nt, ns);
    c.outcome(mc::mix(nt, k));
}
