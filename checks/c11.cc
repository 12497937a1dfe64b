// C11: number conversion, every bit pattern.
#include "mc.hpp"
#include "ExSeisDat/utils/encoding/number_encoding.hh"
#include "ExSeisDat/utils/typedefs.h"
using namespace exseis::utils;
typedef std::array<unsigned char, 4> A4;
typedef std::array<unsigned char, 2> A2;

static std::string H(uint64_t x)
{
    char b[32];
    snprintf(b, sizeof b, "0x%llx", (unsigned long long)x);
    return b;
}
static uint32_t fb(float f)
{
    uint32_t u;
    memcpy(&u, &f, 4);
    return u;
}

// The real value of an IBM single is sign * fraction/2^24 * 16^(exponent-64):
// exact in a double, so one conversion to float rounds once, ties to even.
SCENARIO(ibm)
{
    int top = c.pick(4096, "top12");
    if (!c.go()) return;
    uint64_t h = 0, distinct = 0;
    int prev_e   = -1;
    double scale = 0;
    for (uint32_t k = 0; k < (1u << 20); k++) {
        uint32_t x = (uint32_t(top) << 20) | k;
        int e      = int(x >> 24 & 0x7F);
        if (e != prev_e) {
            scale  = ldexp(1.0, 4 * (e - 64) - 24);
            prev_e = e;
        }
        double v = double(x & 0xFFFFFF) * scale;
        if (x >> 31) v = -v;
        float want = float(v);
        A4 be{{(unsigned char)(x >> 24), (unsigned char)(x >> 16), (unsigned char)(x >> 8), (unsigned char)x}};
        A4 le{{be[3], be[2], be[1], be[0]}};
        float g1 = from_IBM_to_float(be, true), g2 = from_IBM_to_float(le, false);
        uint32_t w = fb(want), b1 = fb(g1), b2 = fb(g2);
        bool ok = (b1 == w || (want == 0 && g1 == 0));
        if (!ok) c.fail("ibm-big", "IBM bits " + H(x) + " became IEEE bits " + H(b1) + ", nearest is " + H(w));
        if (b1 != b2) c.fail("ibm-little", "IBM bits " + H(x) + ": byte orders disagree, " + H(b1) + " and " + H(b2));
        if (c.failed()) return;
        h = h * 1099511628211ull + b1;
    }
    c.executed(2u << 20);
    c.transitions(1u << 20);
    c.outcome(h);
    c.state(h);
}

SCENARIO(endian32)
{
    // quick: every value of the low 20 bits under 96 values of the high 12
    // (each byte lane takes all its values); thorough: all 2^32
    int top = c.pick(c.thorough() ? 4096 : 96, "top12");
    if (!c.go()) return;
    if (!c.thorough()) top = top < 32 ? (top << 7 | 0x55) : top < 64 ? (top - 32) * 16 + 0x805 : (top - 64) * 128 + 64;
    uint64_t h = 0;
    for (uint32_t k = 0; k < (1u << 20); k++) {
        uint32_t x = (uint32_t(top) << 20) | k;
        A4 be{{(unsigned char)(x >> 24), (unsigned char)(x >> 16), (unsigned char)(x >> 8), (unsigned char)x}};
        float f;
        memcpy(&f, &x, 4);
        bool ok = to_big_endian<uint32_t>(x) == be && to_big_endian<int32_t>(int32_t(x)) == be && to_big_endian<float>(f) == be
                  && from_big_endian<uint32_t>(be) == x && from_big_endian<int32_t>(be) == int32_t(x) && fb(from_big_endian<float>(be)) == x
                  && from_big_endian<uint32_t>(be[0], be[1], be[2], be[3]) == x && from_big_endian<int32_t>(be[0], be[1], be[2], be[3]) == int32_t(x)
                  && fb(from_big_endian<float>(be[0], be[1], be[2], be[3])) == x;
        if (!ok) {
            c.fail("endian32", "32-bit pattern " + H(x) + " is not converted exactly to or from big-endian bytes");
            return;
        }
        h = h * 31 + x;
    }
    c.executed(9u << 20);
    c.transitions(1u << 20);
    c.outcome(h);
    c.state(h);
}

SCENARIO(endian16)
{
    int top = c.pick(16, "top4");
    if (!c.go()) return;
    for (uint32_t k = 0; k < 4096; k++) {
        uint16_t x = uint16_t(top << 12 | int(k));
        A2 be{{(unsigned char)(x >> 8), (unsigned char)x}};
        bool ok = to_big_endian<uint16_t>(x) == be && to_big_endian<int16_t>(int16_t(x)) == be && from_big_endian<uint16_t>(be) == x
                  && from_big_endian<int16_t>(be) == int16_t(x) && from_big_endian<uint16_t>(be[0], be[1]) == x && from_big_endian<int16_t>(be[0], be[1]) == int16_t(x);
        if (!ok) {
            c.fail("endian16", "16-bit pattern " + H(x) + " is not converted exactly to or from big-endian bytes");
            return;
        }
        c.state(x);
    }
    c.executed(6 * 4096);
    c.transitions(4096);
    c.outcome(uint64_t(top));
}

// Direct construction from components: sign, exponent, left-justified 24-bit
// significands.
SCENARIO(components)
{
    int e = c.range(-420, 420, "exponent");
    if (!c.go()) return;
    std::set<uint32_t> sig;
    for (int i = 0; i < 24; i++)
        for (int j = 0; j < 24; j++)
            for (int d = -2; d <= 2; d++) sig.insert(((1u << 23) | ((1u << i) + (1u << j)) + uint32_t(d)) & 0xFFFFFF);
    for (uint32_t s : {0x800000u, 0xFFFFFFu, 0xFFFFFEu, 0xAAAAAAu, 0xD55555u}) sig.insert(s);
    uint64_t h = 0;
    for (uint32_t s : sig) {
        if (!(s >> 23)) continue;
        for (uint32_t sg : {0u, 1u}) {
            Float_components k;
            k.sign        = sg;
            k.exponent    = e;
            k.significand = s << 8;
            float want    = float(ldexp(double(s), e - 24));
            if (sg) want = -want;
            float got = to_float(k);
            if (fb(got) != fb(want) && !(got == 0 && want == 0)) {
                c.fail("components", "significand " + H(s) + "00 exponent " + std::to_string(e) + " became " + H(fb(got)) + ", nearest is " + H(fb(want)));
                return;
            }
            h = h * 31 + fb(got);
            c.executed();
        }
    }
    c.transitions(sig.size() * 2);
    c.state(h);
    c.outcome(h);
}
