// C13: block decomposition is a partition and its inverse agrees with it.
// Reference model: a list of pieces filled by dealing indices one at a time
// (small sizes), and 128-bit arithmetic (large sizes).
#include "mc.hpp"
#include "ExSeisDat/utils/decomposition/block_decomposition.h"
using namespace exseis::utils;
typedef unsigned __int128 u128;

static std::string S(size_t x) { return std::to_string(x); }

// Exhaustive box: every size, every process count, every rank and every index.
SCENARIO(box)
{
    int maxn  = c.thorough() ? 2048 : 512;
    int maxr  = c.thorough() ? 160 : 64;
    int ranks = c.range(1, maxr, "ranks");
    if (!c.go()) return;
    uint64_t tr = 0;
    for (size_t n = 0; n <= size_t(maxn); n++) {
        size_t next = 0, mn = ~size_t(0), mx = 0;
        for (size_t r = 0; r < size_t(ranks); r++) {
            auto d = block_decomposition(n, size_t(ranks), r);
            auto e = exseis_block_decomposition(n, size_t(ranks), r);
            if (d.global_offset != e.global_offset || d.local_size != e.local_size) c.fail("c-api", "C and C++ results differ for n=" + S(n) + " rank=" + S(r));
            if (d.global_offset != next) c.fail("cover", "n=" + S(n) + " ranks=" + S(ranks) + " rank=" + S(r) + ": offset " + S(d.global_offset) + ", expected " + S(next));
            for (size_t k = 0; k < d.local_size && d.local_size <= n; k++) {
                auto l = block_decomposition_location(n, size_t(ranks), d.global_offset + k);
                tr++;
                if (l.rank != r || l.local_index != k)
                    c.fail("inverse", "n=" + S(n) + " ranks=" + S(ranks) + " index " + S(d.global_offset + k) + ": located at rank " + S(l.rank) + " local " + S(l.local_index) + ", is at rank " + S(r) + " local " + S(k));
            }
            next += d.local_size;
            mn = std::min(mn, d.local_size);
            mx = std::max(mx, d.local_size);
            tr++;
            c.state(mc::mix(mc::mix(n, uint64_t(ranks)), mc::mix(d.global_offset, d.local_size)));
        }
        if (next != n) c.fail("cover", "n=" + S(n) + " ranks=" + S(ranks) + ": pieces cover " + S(next));
        if (mx - mn > 1) c.fail("balance", "n=" + S(n) + " ranks=" + S(ranks) + ": piece sizes differ by " + S(mx - mn));
        c.executed(size_t(ranks));
        if (c.failed()) break;
    }
    c.transitions(tr);
    c.outcome(mc::mix(uint64_t(ranks), tr));
}

// All pairs of boundary sizes up to the top of the 64-bit range.
SCENARIO(boundaries)
{
    std::vector<size_t> vs;
    for (int b : {15, 16, 24, 30, 31, 32, 33, 34, 40, 48, 52, 53, 56, 61, 62, 63})
        for (int d = -3; d <= 3; d++) vs.push_back((size_t(1) << b) + size_t(d));
    for (int d = 1; d <= 3; d++) vs.push_back(~size_t(0) - size_t(d));
    for (size_t d : {1000003ul, 999999999989ul, 65537ul * 31, 4294967291ul * 3}) vs.push_back(d);
    size_t n = c.of(vs, "size");
    if (!c.go()) return;
    std::vector<size_t> rs;
    for (size_t r = 1; r <= 70; r++) rs.push_back(r);
    for (size_t r : {96ul, 127ul, 128ul, 255ul, 256ul, 257ul, 1000ul, 1023ul, 1024ul, 4095ul, 4096ul, 32767ul, 32768ul, 65535ul, 65536ul, 65537ul, 1000003ul, 2147483647ul}) rs.push_back(r);
    uint64_t tr = 0;
    for (size_t R : rs) {
        std::set<size_t> probe;
        size_t rem = n % R, ch = n / R;
        for (size_t p : {size_t(0), size_t(1), R / 2, R - 1, R >= 2 ? R - 2 : 0, rem, rem ? rem - 1 : 0, rem + 1})
            if (p < R) probe.insert(p);
        if (R <= 1024)
            for (size_t p = 0; p < R; p++) probe.insert(p);
        for (size_t r : probe) {
            auto d   = block_decomposition(n, R, r);
            u128 off = u128(ch) * r + std::min(r, rem);
            size_t sz = ch + (r < rem ? 1 : 0);
            tr++;
            if (u128(d.global_offset) != off || d.local_size != sz)
                c.fail("large", "n=" + S(n) + " ranks=" + S(R) + " rank=" + S(r) + ": got (" + S(d.global_offset) + "," + S(d.local_size) + "), expected (" + S(size_t(off)) + "," + S(sz) + ")");
            if (sz)
                for (size_t k : {size_t(0), sz / 2, sz - 1}) {
                    // (chunk+1)*remainder etc. must not wrap for a legal size
                    size_t g = size_t(off) + k;
                    auto l   = block_decomposition_location(n, R, g);
                    tr++;
                    if (l.rank != r || l.local_index != k)
                        c.fail("large-inverse", "n=" + S(n) + " ranks=" + S(R) + " index " + S(g) + ": got rank " + S(l.rank) + " local " + S(l.local_index) + ", expected " + S(r) + "," + S(k));
                }
            c.state(mc::mix(mc::mix(n, R), r));
            c.executed();
        }
    }
    c.transitions(tr);
    c.outcome(mc::mix(n, tr));
}
