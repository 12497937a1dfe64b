// Work for one or several processes: file access, operations on shares of the
// traces, set processing and the utilities (C03, C04).
#pragma once
#include "sets.hh"
#include <algorithm>
#include "ExSeisDat/PIOL/makeFile.hh"
#include "ExSeisDat/PIOL/ReadSEGY.hh"
#include "ExSeisDat/PIOL/operations/gather.hh"
#include "ExSeisDat/PIOL/operations/minmax.h"
#include "ExSeisDat/PIOL/operations/sort.hh"
#include "ExSeisDat/PIOL/operations/temporalfilter.hh"
#include "ExSeisDat/PIOL/param_utils.hh"
#include "ExSeisDat/utils/signal_processing/AGC.h"
#include "ExSeisDat/utils/signal_processing/taper.h"
using namespace cm;
using exseis::Flow::Set;
extern size_t exseisdat_model_check_memlim, exseisdat_model_check_block;
int util_main_makerep(int, char**);
int util_main_concatenate(int, char**);
int util_main_filemake(int, char**);
int util_main_sort(int, char**);
int util_main_minmax(int, char**);
int util_main_fourdbin(int, char**);
int util_main_radon(int, char**);
typedef std::vector<std::vector<std::string>> Vals;  // by process
inline bool work_stops = true;  // an error ends the program
inline std::function<void(int, std::shared_ptr<ExSeis>)> work_end;
inline uc hb(size_t i, size_t b) { return uc(b * 7 + i * 29 + 3); }
inline void geo(size_t i, uc* h, int seed)
{
    for (size_t b = 0; b < 240; b++) h[b] = hb(i, b);
    size_t k = (i * 7 + size_t(seed) * 5) % 11;
    put16(h + 68, 1);
    put16(h + 70, 1);
    put16(h + 88, 1);
    put32(h + 36, uint32_t(k % 4));
    put32(h + 72, uint32_t(k % 3));
    put32(h + 76, uint32_t(k % 2));
    put32(h + 80, uint32_t(int(k) - 5));
    put32(h + 84, uint32_t((i + size_t(seed)) % 2));
    put32(h + 180, uint32_t(k));
    put32(h + 184, uint32_t(k / 3));
    put32(h + 188, uint32_t(i / 3 + size_t(seed)));
    put32(h + 192, uint32_t((i + size_t(seed)) % 3));
}
inline void input(mc::FS& fs, size_t n, int ns, int seed)
{
    put_file(fs["in.segy"], ho_bytes("C text", ns, 1500, 5, true), n, size_t(ns), [&](size_t i, uc* h) { geo(i, h, seed); }, [&](size_t i, size_t k) { return bits(float(i * 100 + k) + 0.25f); });
}
inline std::string hex(double d) { return S(d); }
inline const char* const sopn[] = {"read", "parameters", "copy", "sort by source", "sort by lines", "extremes", "offsets"};
// The processes of a communicator with files of their own (prefix).
inline void share_body(int op, const std::vector<size_t>& sh, int rank, Vals& v, const std::string& pre = "", MPI_Comm comm = MPI_COMM_WORLD)
{
    auto of = offs_of(sh);
    auto piol = ExSeis::New(PIOL_VERBOSITY_NONE, comm);
    size_t o = of[size_t(rank)], sz = sh[size_t(rank)];
    auto& out = v[size_t(rank)];
    {
        auto rf = makeFile<ReadSEGY>(piol, pre + "in.segy");
        Param p(sz);
        std::vector<float> t(sz * 2 + 1);
        if (op == 1 || op >= 3) rf->readParam(o, sz, &p);
        else rf->readTrace(o, sz, t.data(), &p);
        if (op <= 1)
            for (size_t i = 0; i < sz; i++) {
                out.push_back(hex(param_utils::getPrm<Floating_point>(i, PIOL_META_xRcv, &p)) + " " + S(param_utils::getPrm<Integer>(i, PIOL_META_il, &p)));
                if (op == 0) out.push_back(hex(double(t[2 * i])) + " " + hex(double(t[2 * i + 1])));
            }
        if (op == 2) {
            WriteDirect wd(piol, pre + "copy.segy");
            WriteInterface* f = &static_cast<WriteInterface&>(wd);
            f->writeText(rf->readText());
            f->writeNs(rf->readNs());
            f->writeInc(rf->readInc());
            f->writeTrace(o, sz, t.data(), &p);
        }
        if (op == 3 || op == 4) {
            for (size_t i = 0; i < sz; i++) param_utils::setPrm(i, PIOL_META_gtn, o + i, &p);
            auto l = exseis::PIOL::sort(piol.get(), op == 3 ? PIOL_SORTTYPE_SrcRcv : PIOL_SORTTYPE_LineROff, &p);
            for (auto x : l) out.push_back(S(x));
        }
        if (op == 5) {
            std::vector<CoordElem> mm(4);
            exseis::PIOL::getMinMax(piol.get(), o, sz, PIOL_META_xSrc, PIOL_META_ySrc, &p, mm.data());
            std::string s;
            for (auto& m : mm) s += hex(m.val) + "@" + S(m.num) + " ";
            out.push_back(s);
        }
        if (op == 6) out.push_back(S(piol->comm->offset(sz)));
    }
    piol->comm->barrier();
    if (work_end) work_end(rank, piol);
    if (work_stops) piol->isErr();
}
inline float half(float w, float) { return w * 0.5f; }
inline bool user_less(const Param* p, size_t a, size_t b)
{ 
    // no two traces are equal
    auto key = [p](size_t i) { return std::make_pair(-param_utils::getPrm<Integer>(i, PIOL_META_xl, p), param_utils::getPrm<Floating_point>(i, PIOL_META_yCmp, p)); };
    return key(a) < key(b);
}
inline const char* const fop[] = {"sort(src,rcv)", "sort(line,offset)", "sort(user)", "taper", "AGC", "filter", "output", "extremes", "text", "to angles", "-"};
inline std::vector<InFile> files(int kind)
{
    static const std::vector<std::vector<std::array<int, 2>>> k = {{{7, 6}}, {{3, 6}, {4, 6}}, {{2, 6}, {1, 5}, {3, 6}}, {{1, 6}}, {{0, 6}, {2, 6}}, {{0, 5}},
        // larger ones
        {{300, 6}}, {{130, 6}, {257, 6}}, {{3, 6}, {2, 6}, {1, 5}, {4, 6}, {0, 6}, {2, 5}, {5, 6}, {1, 6}, {3, 6}, {2, 6}, {6, 5}, {1, 6}}, {{1025, 6}}};
    std::vector<InFile> in;
    for (auto& a : k[size_t(kind)]) {
        int i = int(in.size());
        in.push_back({"s" + std::string(i / 10 ? "9" : "") + S(i % 10) + ".segy", size_t(a[0]), a[1], 1000, i + 1});
    }
    return in;
}
inline mc::FS flow_in(int kind, size_t blk)
{
    mc::fs().clear();
    // the headers leave a zero interval out so that every group has its own name
    for (auto& f : files(kind)) put_in(f, [](const InFile& g, size_t i, uc* h) {
        geo(i, h, g.id);
        put16(h + 114, g.ns);
        put16(h + 116, g.inc);
        put32(h + 188, uint32_t(1 + i % 5 / 3));
        put32(h + 192, uint32_t(1 + i % 2));
        put32(h + 184, uint32_t(100 * g.id) + uint32_t(i * 7 % 11));
    });
    put_file(mc::fs()["model.segy"], ho_bytes("C model", 4, 1000, 5, true), 9, 4, [&](size_t t, uc* h) {
        put32(h + 188, uint32_t(1 + t / 3));
        put32(h + 192, uint32_t(1 + t % 3));
    }, [&](size_t t, size_t k) { return bits(float(t + k + 1)); });
    exseisdat_model_check_memlim = blk ? blk * (40 + 240 + 12 * 6 + 2 * 360) : size_t(1) << 30;
    return mc::fs();
}
inline void flow_body(const std::vector<int>& ops, int rank, Vals& v, const std::string& pre = "", MPI_Comm comm = MPI_COMM_WORLD)
{
    auto piol = ExSeis::New(PIOL_VERBOSITY_NONE, comm);
    {
        Set s(piol, pre + "s*.segy");
        size_t no = 0;
        auto names = [&](std::vector<std::string> n) {
            std::sort(n.begin(), n.end());
            std::string l;
            for (auto& x : n) l += x + " ";
            if (rank == 0) v[0].push_back(l);
        };
        for (int o : ops) switch (o) {
            case 0: s.sort(PIOL_SORTTYPE_SrcRcv); break;
            case 1: s.sort(PIOL_SORTTYPE_LineROff); break;
            case 2: s.sort(user_less); break;
            case 3: s.taper(half, 2, 1); break;
            case 4: s.AGC(exseis::utils::rectangular_RMS_gain, 3, 1.5f); break;
            case 5: s.temporalFilter(FltrType::Lowpass, FltrDmn::Time, PadType::Zero, 30.f, size_t(2), std::vector<float>{3.f, 0.f}); break;
            case 6: names(s.output(pre + "o" + S(no++))); break;
            case 7: {
                std::vector<CoordElem> mm(4);
                s.getMinMax(PIOL_META_xRcv, PIOL_META_ySrc, mm.data());
                std::string l;
                for (auto& m : mm) l += hex(m.val) + "@" + S(m.num) + " ";
                if (rank == 0) v[0].push_back(l);
                break;
            }
            case 8: s.text("Other text"); break;
            case 9: s.toAngle(pre + "model.segy", 2, 3, 0.02); break;
            default: break;
            }
        names(s.output(pre + "o" + S(no)));
    }
    if (work_end) work_end(rank, piol);
    if (work_stops) piol->isErr();
}
inline void call(int (*f)(int, char**), std::vector<std::string> s)
{
    std::vector<char*> v;
    for (auto& x : s) v.push_back(const_cast<char*>(x.c_str()));
    v.push_back(nullptr);
    f(int(s.size()), v.data());
}
inline const char* const un[] = {"sort", "concatenate", "filemake", "filemake -l", "filemake -r", "makerep", "makerep naive1", "makerep naive2", "minmax", "fourdbin", "fourdbin -x", "radon"};
// the files a utility needs
inline mc::FS util_in(int u, int n, int seed)
{
    mc::FS in;
    input(in, size_t(n), 3, seed);
    if (u == 1) {
        in["s0.segy"] = in["in.segy"];
        input(in, size_t(n) / 2, 3, 1 - seed);
        in["s1.segy"] = in["in.segy"];
    }
    // surveys without equal distances (seed 0, 1), with traces in the same place
    // (seed 2), and with partners at the same distance on both sides (seed 3)
    for (int s = 0; s < 2; s++) put_file(in["survey" + S(s)], ho_bytes("C", 2, 1000, 5, true), size_t(n), 2, [&](size_t i, uc* h) {
        put16(h + 68, 1);
        put16(h + 70, 1);
        size_t k = (i * 4 + size_t(seed)) % (seed == 2 ? 3 : 9);
        if (seed < 3) {
            put32(h + 72, uint32_t(s ? 3 * k + 1 + k * k : 4 * k));
            put32(h + 76, uint32_t(k * k * (s ? 3 : 1)));
            put32(h + 80, uint32_t(s ? 11 * k + 3 : 9 * k));
            put32(h + 84, uint32_t(17 * k));
        }
        else {
            put32(h + 72, uint32_t(4 * k + (s ? 2 : 0)));
            put32(h + 76, 0);
            put32(h + 80, 5);
            put32(h + 84, 0);
        }
        put32(h + 188, uint32_t(k % 2));
        put32(h + 192, uint32_t(k % 3));
    }, [&](size_t i, size_t k) { return bits(float(i * 100 + k + size_t(s) * 5000)); });
    put_file(in["model.segy"], ho_bytes("C model", 4, 1500, 5, true), 64, 4, [&](size_t t, uc* h) {
        put32(h + 188, uint32_t(t / 8));
        put32(h + 192, uint32_t(t % 8));
    }, [&](size_t t, size_t k) { return bits(float(t + k + 1)); });
    return in;
}
inline void util_body(int u, int n)
{
    switch (u) {
        case 0: call(util_main_sort, {"sort", "-i", "in.segy", "-o", "out"}); break;
        case 1: call(util_main_concatenate, {"concatenate", "-i", "s*.segy", "-o", "out"}); break;
        case 2: call(util_main_filemake, {"filemake", "-o", "out.segy", "-s", "3", "-t", S(n * 3), "-m", "1", "-i", "0.001"}); break;
        case 3: call(util_main_filemake, {"filemake", "-o", "out.segy", "-s", "3", "-t", S(n * 3), "-m", "1", "-i", "0.001", "-l"}); break;
        case 4: call(util_main_filemake, {"filemake", "-o", "out.segy", "-s", "3", "-t", S(n * 3), "-m", "1", "-i", "0.001", "-r"}); break;
        case 5: call(util_main_makerep, {"makerep", "-i", "in.segy", "-o", "out", "-v", "standard", "-r", "3"}); break;
        case 6: call(util_main_makerep, {"makerep", "-i", "in.segy", "-o", "out", "-v", "naive1", "-r", "3"}); break;
        case 7: call(util_main_makerep, {"makerep", "-i", "in.segy", "-o", "out", "-v", "naive2", "-r", "3"}); break;
        case 8: call(util_main_minmax, {"minmax", "-i", "in.segy", "-o", "out.segy"}); break;
        case 9: call(util_main_fourdbin, {"fourdbin", "-a", "survey0", "-b", "survey1", "-c", "o0", "-d", "o1", "-t", "12", "-p"}); break;
        case 10: call(util_main_fourdbin, {"fourdbin", "-a", "survey0", "-b", "survey1", "-c", "o0", "-d", "o1", "-t", "100", "-x"}); break;
        case 11: call(util_main_radon, {"radon", "-i", "in.segy", "-o", "out", "-v", "model.segy", "-b", "2", "-a", "3"}); break;
    }
}
