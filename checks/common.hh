// Shared reference model of SEG-Y files, independent of the library's code:
// field positions are those of the SEG-Y standard, one trace is a 240-byte
// header plus big-endian samples.
#pragma once
#include "mc.hpp"
#include "ExSeisDat/PIOL/DataMPIIO.hh"
#include "ExSeisDat/PIOL/ExSeis.hh"
#include "ExSeisDat/PIOL/Meta.h"
#include "ExSeisDat/PIOL/ObjectSEGY.hh"
#include "ExSeisDat/PIOL/Param.h"
#include "ExSeisDat/PIOL/ReadDirect.hh"
#include "ExSeisDat/PIOL/ReadSEGY.hh"
#include "ExSeisDat/PIOL/WriteDirect.hh"
#include "ExSeisDat/PIOL/WriteSEGY.hh"
#include "ExSeisDat/PIOL/param_utils.hh"
#include <array>
#include <cmath>
#include <numeric>

namespace cm {
using namespace exseis::PIOL;
using exseis::utils::Floating_point;
using exseis::utils::Integer;
using exseis::utils::Trace_value;
using mc::SparseFile;
typedef unsigned char uc;
typedef std::vector<size_t> Off;

inline std::string S(long long x) { return std::to_string(x); }
inline std::string S(unsigned long long x) { return std::to_string(x); }
inline std::string S(size_t x) { return std::to_string(x); }
inline std::string S(int x) { return std::to_string(x); }
inline std::string S(double x)
{
    char b[64];
    snprintf(b, sizeof b, "%.17g", x);
    return b;
}
inline void put16(uc* p, int v)
{
    p[0] = uc((v >> 8) & 255);
    p[1] = uc(v & 255);
}
inline void put32(uc* p, uint32_t v)
{
    p[0] = uc(v >> 24);
    p[1] = uc(v >> 16);
    p[2] = uc(v >> 8);
    p[3] = uc(v);
}
inline int16_t get16(const uc* p) { return int16_t(p[0] * 256 + p[1]); }
inline uint32_t getu32(const uc* p) { return (uint32_t(p[0]) << 24) | (uint32_t(p[1]) << 16) | (uint32_t(p[2]) << 8) | p[3]; }
inline int32_t get32(const uc* p) { return int32_t(getu32(p)); }
inline uint32_t bits(float f)
{
    uint32_t u;
    memcpy(&u, &f, 4);
    return u;
}
inline float fromb(uint32_t u)
{
    float f;
    memcpy(&f, &u, 4);
    return f;
}

// ---------------------------------------------------------- header fields
enum class FT { Int, Short, Scaled, Index };
struct Field {
    Meta m;
    FT t;
    int loc, scal;
    const char* name;
};
inline const std::vector<Field>& fields()
{
    static const std::vector<Field> f{
      {PIOL_META_WtrDepSrc, FT::Scaled, 61, 69, "WtrDepSrc"},
      {PIOL_META_WtrDepRcv, FT::Scaled, 65, 69, "WtrDepRcv"},
      {PIOL_META_xSrc, FT::Scaled, 73, 71, "xSrc"},
      {PIOL_META_ySrc, FT::Scaled, 77, 71, "ySrc"},
      {PIOL_META_xRcv, FT::Scaled, 81, 71, "xRcv"},
      {PIOL_META_yRcv, FT::Scaled, 85, 71, "yRcv"},
      {PIOL_META_xCmp, FT::Scaled, 181, 71, "xCmp"},
      {PIOL_META_yCmp, FT::Scaled, 185, 71, "yCmp"},
      {PIOL_META_Offset, FT::Int, 37, 0, "Offset"},
      {PIOL_META_il, FT::Int, 189, 0, "il"},
      {PIOL_META_xl, FT::Int, 193, 0, "xl"},
      {PIOL_META_tn, FT::Int, 5, 0, "tn"},
      {PIOL_META_tnl, FT::Int, 1, 0, "tnl"},
      {PIOL_META_tnr, FT::Int, 13, 0, "tnr"},
      {PIOL_META_tne, FT::Int, 25, 0, "tne"},
      {PIOL_META_SrcNum, FT::Int, 17, 0, "SrcNum"},
      {PIOL_META_Tic, FT::Short, 29, 0, "Tic"},
      {PIOL_META_VStack, FT::Short, 31, 0, "VStack"},
      {PIOL_META_HStack, FT::Short, 33, 0, "HStack"},
      {PIOL_META_RGElev, FT::Scaled, 41, 69, "RGElev"},
      {PIOL_META_SSElev, FT::Scaled, 45, 69, "SSElev"},
      {PIOL_META_SDElev, FT::Scaled, 49, 69, "SDElev"},
      {PIOL_META_ns, FT::Short, 115, 0, "ns"},
      {PIOL_META_inc, FT::Short, 117, 0, "inc"},
      {PIOL_META_ShotNum, FT::Scaled, 197, 201, "ShotNum"},
      {PIOL_META_TraceUnit, FT::Short, 203, 0, "TraceUnit"},
      {PIOL_META_TransUnit, FT::Short, 211, 0, "TransUnit"},
    };
    return f;
}
inline const Field* field(Meta m)
{
    for (auto& f : fields())
        if (f.m == m) return &f;
    return nullptr;
}
inline std::vector<Meta> default_metas()
{
    return {PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv, PIOL_META_xCmp, PIOL_META_yCmp, PIOL_META_Offset, PIOL_META_il, PIOL_META_xl, PIOL_META_tn};
}
inline std::vector<Meta> extra_metas()
{
    return {PIOL_META_tnl, PIOL_META_tnr, PIOL_META_tne, PIOL_META_SrcNum, PIOL_META_Tic, PIOL_META_VStack, PIOL_META_HStack, PIOL_META_RGElev, PIOL_META_SSElev, PIOL_META_SDElev, PIOL_META_ns, PIOL_META_inc, PIOL_META_ShotNum, PIOL_META_TraceUnit, PIOL_META_TransUnit};
}
inline double scale_of(int16_t s) { return s == 0 ? 1.0 : s > 0 ? double(s) : 1.0 / double(-int(s)); }
// decode one field of a raw header as the standard says
inline double decode(const Field& f, const uc* h)
{
    switch (f.t) {
        case FT::Int: return get32(h + f.loc - 1);
        case FT::Short: return get16(h + f.loc - 1);
        default: {
            int16_t s = get16(h + f.scal - 1);
            double v  = get32(h + f.loc - 1);
            if (s == 0) s = 1;
            return s > 0 ? v * s : v / double(-int(s));
        }
    }
}
inline bool close_to(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)); }

// What a 240-byte header should hold: raw bytes except for the scaled fields,
// which are compared by decoding.
struct RefHdr {
    std::array<uc, 240> b;
    std::map<Meta, double> scaled;
    RefHdr() { b.fill(0); }
};
// Compare; empty string if equal.
inline std::string cmp_hdr(const RefHdr& want, const uc* got)
{
    std::array<uc, 240> a = want.b, g;
    memcpy(g.data(), got, 240);
    for (auto& kv : want.scaled) {
        const Field& f = *field(kv.first);
        double d       = decode(f, got);
        if (!close_to(d, kv.second)) return std::string("field ") + f.name + " holds " + S(d) + ", expected " + S(kv.second);
        for (int i = 0; i < 4; i++) a[size_t(f.loc - 1 + i)] = g[size_t(f.loc - 1 + i)];
        for (int i = 0; i < 2; i++) a[size_t(f.scal - 1 + i)] = g[size_t(f.scal - 1 + i)];
    }
    for (size_t i = 0; i < 240; i++)
        if (a[i] != g[i]) return "header byte " + S(i) + " is " + S(int(g[i])) + ", expected " + S(int(a[i]));
    return "";
}

// -------------------------------------------------------------- ref file
struct RefTrace {
    RefHdr h;
    std::vector<uint32_t> d;  // IEEE (or raw) sample words
};
struct RefFile {
    std::string text;  // raw 3200 bytes
    int ns = 0, inc = 0, fmt = 5;
    std::array<uc, 400> bin;
    std::vector<RefTrace> tr;
    RefFile() { bin.fill(0); }
};
inline std::vector<uc> ho_bytes(std::string text, int ns, int inc, int fmt, bool written)
{
    std::vector<uc> h(3600);
    text.resize(3200);
    memcpy(h.data(), text.data(), 3200);
    put16(&h[3216], inc);
    put16(&h[3220], ns);
    put16(&h[3224], fmt);
    if (written) {
        put16(&h[3254], 1);
        put16(&h[3500], 0x0100);
        put16(&h[3502], 1);
        put16(&h[3504], 0);
    }
    return h;
}
// a raw file for reading: headers with every byte distinct-ish
inline void put_file(SparseFile& f, const std::vector<uc>& ho, size_t nt, size_t ns, std::function<void(size_t, uc*)> hdr, std::function<uint32_t(size_t, size_t)> smp)
{
    f = SparseFile();
    f.write(0, ho.data(), ho.size());
    std::vector<uc> t(240 + 4 * ns);
    for (size_t i = 0; i < nt; i++) {
        std::fill(t.begin(), t.end(), 0);
        hdr(i, t.data());
        for (size_t k = 0; k < ns; k++) put32(&t[240 + 4 * k], smp(i, k));
        f.write(3600 + i * (240 + 4 * ns), t.data(), t.size());
    }
}
// ---------------------------------------------------------------- shares
// All divisions of n items into r ordered shares, as sizes.
inline void all_shares(size_t n, int r, std::vector<std::vector<size_t>>& out, std::vector<size_t> cur = {})
{
    if (r == 1) {
        cur.push_back(n);
        out.push_back(cur);
        return;
    }
    for (size_t k = 0; k <= n; k++) {
        auto c = cur;
        c.push_back(k);
        all_shares(n - k, r - 1, out, c);
    }
}
inline std::string vs(const std::vector<size_t>& v)
{
    std::string s = "[";
    for (auto x : v) s += S(x) + " ";
    return s + "]";
}
inline std::vector<size_t> offs_of(const std::vector<size_t>& sh)
{
    std::vector<size_t> o;
    size_t a = 0;
    for (auto x : sh) {
        o.push_back(a);
        a += x;
    }
    return o;
}
template<class T>
T pickv(mc::Case& c, const std::vector<T>& v, const char* l)
{
    return v[size_t(c.pick(int(v.size()), l))];
}
}  // namespace cm
