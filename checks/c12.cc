// C12: character conversion, all 256 bytes in both directions, against the
// published EBCDIC-US code page (independent of the tree's own table).
#include "mc.hpp"
#include "ExSeisDat/utils/encoding/character_encoding.hh"
#include "ebcdic.hh"
using namespace exseis::utils;
static std::string H(int x)
{
    char b[16];
    snprintf(b, sizeof b, "0x%02X", x);
    return b;
}
// 0xFF is in neither 7-bit ASCII nor the ASCII-mapped part of the code page:
// both conventions (substitute, or the eight-ones control mapped to itself)
// are accepted.
SCENARIO(from_ebcdic)
{
    int e = c.pick(256, "byte");
    if (!c.go()) return;
    int got  = to_ASCII_from_EBCDIC((unsigned char)e);
    int want = e2a[e] == NO ? 0x1A : e2a[e];
    c.executed(2);
    c.transitions(2);
    c.state(uint64_t(e));
    c.outcome(uint64_t(got));
    if (got != want && !(e == 0xFF && got == 0xFF)) c.fail("from-ebcdic", "EBCDIC " + H(e) + " became ASCII " + H(got) + ", expected " + H(want));
    bool pr = want >= 0x20 && want <= 0x7E;
    if (is_printable_EBCDIC((unsigned char)e) != pr) c.fail("printable-ebcdic", "EBCDIC " + H(e) + " reported " + (pr ? "not printable" : "printable"));
}
SCENARIO(from_ascii)
{
    int a = c.pick(256, "byte");
    if (!c.go()) return;
    int got  = to_EBCDIC_from_ASCII((unsigned char)a);
    int want = 0x3F;
    for (int e = 0; e < 256; e++)
        if (e2a[e] == a) want = e;
    c.executed(2);
    c.transitions(2);
    c.state(1000 + uint64_t(a));
    c.outcome(1000 + uint64_t(got));
    if (got != want && !(a == 0xFF && got == 0xFF)) c.fail("from-ascii", "ASCII " + H(a) + " became EBCDIC " + H(got) + ", expected " + H(want));
    bool pr = a >= 0x20 && a <= 0x7E;
    if (is_printable_ASCII((unsigned char)a) != pr) c.fail("printable-ascii", "ASCII " + H(a) + " reported " + (pr ? "not printable" : "printable"));
    if (want != 0x3F && to_ASCII_from_EBCDIC((unsigned char)got) != a) c.fail("roundtrip", "ASCII " + H(a) + " does not survive the round trip");
}
