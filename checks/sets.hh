// Input files of a set and the expected output files (C18, C19).
#pragma once
#include "common.hh"
#include "ExSeisDat/Flow/Set.hh"
namespace cm {
struct InFile {
    std::string name;
    size_t nt;
    int ns, inc;  // samples, microseconds
    int id;       // makes the traces of the file unique
    int fmt = 5;
};
inline uint32_t smp_bits(const InFile& f, size_t i, size_t k) { return bits(float(f.id * 1000 + int(i) * 10 + int(k)) + 0.25f); }
typedef std::function<void(const InFile&, size_t, uc*)> HdrFn;
inline void hdr_default(const InFile& f, size_t i, uc* h)
{
    for (size_t b = 0; b < 240; b++) h[b] = uc(b * 7 + i * 13 + size_t(f.id) * 29 + 1);
    put16(h + 68, 1);
    put16(h + 70, 1);
    put16(h + 88, 1);
    put16(h + 114, f.ns);
    put16(h + 116, f.inc);
}
inline void put_in(const InFile& f, const HdrFn& h = hdr_default)
{
    put_file(mc::fs()[f.name], ho_bytes("C in " + f.name, f.ns, f.inc, f.fmt, true), f.nt, size_t(f.ns), [&](size_t i, uc* b) { h(f, i, b); }, [&](size_t i, size_t k) { return f.fmt == 5 ? smp_bits(f, i, k) : 0x42640000u + uint32_t(i * 16 + k); });
}
typedef std::pair<int, int> Key;  // ns, inc in microseconds
// the files of each group in order
inline std::map<Key, std::vector<InFile>> groups(const std::vector<InFile>& in)
{
    std::map<Key, std::vector<InFile>> g;
    for (auto& f : in) g[{f.ns, f.inc}].push_back(f);
    return g;
}
struct OutFile {
    std::string name, text;
    int ns = 0, inc = 0;
    std::vector<std::vector<uc>> hdr;
    std::vector<std::vector<float>> trc;
};
inline std::string read_out(const std::string& n, OutFile& o)
{
    auto& f = mc::fs()[n];
    o.name  = n;
    if (f.size < 3600) return "output " + n + " has " + S(f.size) + " bytes";
    std::vector<uc> h(3600);
    f.read(0, h.data(), 3600);
    o.text.assign((const char*)h.data(), 3200);
    o.inc     = uint16_t(get16(&h[3216]));
    o.ns      = uint16_t(get16(&h[3220]));
    if (get16(&h[3224]) != 5) return "output " + n + " has number format " + S(int(get16(&h[3224])));
    size_t st = 240 + 4 * size_t(o.ns);
    if ((f.size - 3600) % st) return "output " + n + " of " + S(f.size) + " bytes is not a whole number of traces";
    for (uint64_t p = 3600; p < f.size; p += st) {
        std::vector<uc> t(st);
        f.read(p, t.data(), st);
        o.hdr.emplace_back(t.begin(), t.begin() + 240);
        std::vector<float> v;
        for (int k = 0; k < o.ns; k++) v.push_back(fromb(getu32(&t[240 + 4 * size_t(k)])));
        o.trc.push_back(v);
    }
    return "";
}
inline std::string pad3200(std::string s)
{
    s.resize(3200);
    return s;
}
// Collect the output files: every file not in `before` (and none of those changed)
inline std::string outputs(const mc::FS& before, std::vector<OutFile>& out)
{
    for (auto& b : before) {
        if (!mc::fs().count(b.first)) return "input file " + b.first + " disappears";
        if (!(mc::fs()[b.first] == b.second)) return "input file " + b.first + " is changed";
    }
    std::vector<std::string> names;
    for (auto& f : mc::fs())
        if (!before.count(f.first)) names.push_back(f.first);
    for (auto& n : names) {
        out.emplace_back();
        std::string e = read_out(n, out.back());
        if (!e.empty()) return e;
    }
    return "";
}
}  // namespace cm
