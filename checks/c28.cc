// C28: every sequence of requests to the cache of parameters and traces of
// groups of files returns what a fresh read returns.
#include "sets.hh"
#include "ExSeisDat/Flow/Cache.hh"
#include "ExSeisDat/PIOL/makeFile.hh"
#include "ExSeisDat/PIOL/ReadSEGY.hh"
#include "ExSeisDat/PIOL/param_utils.hh"
#include "ExSeisDat/utils/decomposition/block_decomposition.h"
#include <numeric>
using namespace cm;
using namespace exseis::Flow;
static void hdr(const InFile& f, size_t i, uc* h)
{
    memset(h, 0, 240);
    int u = f.id * 100 + int(i);
    put16(h + 68, -10);
    put16(h + 70, 1);
    put16(h + 88, 1);
    for (int b : {0, 4, 8, 12, 16, 20, 36, 40, 44, 48, 52, 72, 76, 80, 84, 180, 184, 188, 192, 232}) put32(h + b, uint32_t((u * 31 + b * 7) % 5003 - 2000));
    put16(h + 114, f.ns);
    put16(h + 116, f.inc);
}
static std::shared_ptr<Rule> mkrule(int k)
{
    switch (k) {
    case 0: return std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_il, PIOL_META_xl});
    case 1: return std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_tn});
    case 2: return std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_il, PIOL_META_xSrc, PIOL_META_Offset, PIOL_META_xl});
    case 3: return std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_COPY});
    case 4: return std::make_shared<Rule>(true, true);
    case 6: {
        // the coordinates scaled by the scalar of the depths
        auto r = std::make_shared<Rule>(true, false);
        r->addSEGYFloat(PIOL_META_xSrc, PIOL_TR_xSrc, PIOL_TR_ScaleElev);
        r->addSEGYFloat(PIOL_META_ySrc, PIOL_TR_ySrc, PIOL_TR_ScaleElev);
        r->addLong(PIOL_META_tn, PIOL_TR_SeqFNum);
        return r;
    }
    default: {
        // the inline number somewhere else
        auto r = std::make_shared<Rule>(true, false);
        r->addLong(PIOL_META_il, PIOL_TR_xl);
        r->addLong(PIOL_META_xl, PIOL_TR_il);
        return r;
    }
    }
}
static std::vector<Meta> metas(int k)
{
    switch (k) {
    case 0: return {PIOL_META_il, PIOL_META_xl};
    case 1: return {PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_tn};
    case 2: return {PIOL_META_il, PIOL_META_xSrc, PIOL_META_Offset, PIOL_META_xl};
    case 4: return default_metas();
    case 5: return {PIOL_META_il, PIOL_META_xl};
    case 6: return {PIOL_META_xSrc, PIOL_META_ySrc};
    default: return {};
    }
}
// the value which a rule finds in a header
static double expected(int k, Meta m, const uc* h)
{
    if (k == 5) return double(get32(h + (m == PIOL_META_il ? 192 : 188)));
    if (k == 6) return double(get32(h + (m == PIOL_META_xSrc ? 72 : 76))) / 10;
    return decode(*field(m), h);
}
struct Op1 {
    int kind, a, g;  // kind 0 params of rule a, 1 traces, 2 flush, 3 both again
};
static std::string oname(const Op1& o) { return (o.kind == 0 ? "parameters(rule " + S(o.a) + ")" : o.kind == 1 ? std::string("traces") : o.kind == 2 ? std::string("flush") : std::string("output traces")) + " of group " + S(o.g); }
static const std::vector<std::vector<int>> group = {{0}, {0, 1}, {1, 0}, {2}, {1, 2, 0}};
static std::vector<Op1> alphabet()
{
    std::vector<Op1> v;
    for (int g : {1, 2})
        for (int r : {0, 2, 3}) v.push_back({0, r, g});
    for (int g : {1, 2}) v.push_back({1, 0, g});
    for (int g : {1, 2}) v.push_back({2, 0, g});
    v.push_back({3, 0, 1});
    return v;
}
static void judge(mc::Case& c, const std::vector<Op1>& ops, int nr, const std::vector<size_t>& nts)
{
    mc::fs().clear();
    std::vector<InFile> in;
    for (size_t i = 0; i < nts.size(); i++) in.push_back({"s" + S(i) + ".segy", nts[i], 3, 1000, int(i) + 1});
    for (auto& f : in) put_in(f, hdr);
    mc::Config cfg;
    cfg.nranks = nr;
    std::string bad;
    std::vector<std::map<size_t, std::vector<size_t>>> gtn(ops.size());  // op -> rank -> numbers
    mc::Result r = mc::run_case(c, cfg, [&](int rank) {
        auto piol = ExSeis::New();
        Cache cache(piol);
        std::vector<std::shared_ptr<FileDesc>> d;
        for (auto& f : in) {
            auto x  = std::make_shared<FileDesc>();
            x->ifc  = makeFile<ReadSEGY>(piol, f.name);
            auto b  = exseis::utils::block_decomposition(f.nt, size_t(nr), size_t(rank));
            x->ilst.resize(b.local_size);
            std::iota(x->ilst.begin(), x->ilst.end(), b.global_offset);
            // outputs in reverse order
            for (size_t t : x->ilst) x->olst.push_back(f.nt - 1 - t);
            d.push_back(x);
        }
        std::map<int, bool> hasP, hasT;
        std::map<int, int> lastRule;
        auto err = [&](size_t k, const std::string& m) {
            if (bad.empty()) bad = "process " + S(rank) + ", request " + S(k) + ": " + m;
        };
        for (size_t k = 0; k < ops.size(); k++) {
            auto& o = ops[k];
            Cache::FileDeque q;
            std::vector<std::pair<int, size_t>> loc;  // file, trace
            size_t nt = 0;
            for (int f : group[size_t(o.g)]) {
                q.push_back(d[size_t(f)]);
                for (size_t t : d[size_t(f)]->ilst) loc.push_back({f, t});
                nt += nts[size_t(f)];
            }
            if (o.kind == 2) {
                cache.flush(q);
                hasP[o.g] = hasT[o.g] = false;
            }
            else if (o.kind == 3) {
                // requests of each part of the parameters
                auto some = [&](size_t x) { return loc.size() <= 16 || x < 2 || x + 1 >= loc.size() || x == 63 || x == 64 || x == 257 || x == loc.size() / 2; };
                for (size_t off = 0; off <= loc.size(); off++)
                    for (size_t sz = 0; off + sz <= loc.size(); sz++) {
                        if (!some(off) || !(some(sz) || off + sz == loc.size())) continue;
                        auto rule = mkrule(lastRule.count(o.g) ? lastRule[o.g] : 0);
                        Param p(rule, sz);
                        auto out = cache.getOutputTrace(q, off, sz, &p);
                        if (!hasP[o.g]) {
                            if (!out.empty()) err(k, "output traces without cached parameters");
                            continue;
                        }
                        std::vector<std::pair<size_t, size_t>> w;  // output, local
                        for (size_t i = off; i < off + sz; i++) w.push_back({nts[size_t(loc[i].first)] - 1 - loc[i].second, i});
                        std::stable_sort(w.begin(), w.end(), [](auto& x, auto& y) { return x.first < y.first; });
                        if (out.size() != sz) {
                            err(k, S(out.size()) + " output traces instead of " + S(sz));
                            continue;
                        }
                        std::map<size_t, std::multiset<std::string>> a, b;
                        int lr = lastRule[o.g];
                        for (size_t i = 0; i < sz; i++) {
                            if (out[i] != w[i].first) err(k, "output trace " + S(i) + " of " + S(sz) + " at " + S(off) + " is " + S(out[i]) + " instead of " + S(w[i].first));
                            uc h[240];
                            hdr(in[size_t(loc[w[i].second].first)], loc[w[i].second].second, h);
                            std::string x, y;
                            for (Meta m : metas(lr)) {
                                if (!field(m)) continue;
                                x += S((long long)(std::llround(1000 * param_utils::getPrm<Floating_point>(i, m, &p)))) + " ";
                                y += S((long long)(std::llround(1000 * expected(lr, m, h)))) + " ";
                            }
                            a[out[i]].insert(x);
                            b[w[i].first].insert(y);
                        }
                        if (a != b) err(k, "wrong parameters of " + S(sz) + " output traces at " + S(off));
                    }
                continue;
            }
            else {
                auto blk = o.kind == 0 ? cache.cachePrm(mkrule(o.a), q) : cache.cacheTrc(q);
                if (!blk) {
                    err(k, "nothing returned");
                    continue;
                }
                if (blk->ns != 3 || blk->nt != nt || blk->inc != 0.001) err(k, "the block has " + S(blk->nt) + " traces of " + S(blk->ns) + " samples at " + S(blk->inc));
                if (o.kind == 0) {
                    hasP[o.g]     = true;
                    // a rule with more entries may be served
                    lastRule[o.g] = o.a;
                    auto* p = blk->prm.get();
                    if (!p || p->size() != loc.size()) {
                        err(k, "parameters of " + S(p ? p->size() : size_t(0)) + " traces instead of " + S(loc.size()));
                        continue;
                    }
                    gtn[k][size_t(rank)];
                    for (size_t i = 0; i < loc.size(); i++) {
                        uc h[240];
                        hdr(in[size_t(loc[i].first)], loc[i].second, h);
                        for (Meta m : metas(o.a)) {
                            const Field* f = field(m);
                            if (!f) continue;
                            double w = expected(o.a, m, h);
                            double g = param_utils::getPrm<Floating_point>(i, m, p);
                            if (!close_to(w, g)) {
                                err(k, "parameter " + S(int(m)) + " of local trace " + S(i) + " is " + S(g) + " instead of " + S(w));
                                break;
                            }
                        }
                        if (o.a == 3 && (p->c.size() < (i + 1) * 240 || memcmp(&p->c[i * 240], h, 240))) err(k, "the header copy of local trace " + S(i) + " is wrong");
                        gtn[k][size_t(rank)].push_back(param_utils::getPrm<size_t>(i, PIOL_META_gtn, p));
                    }
                }
                else {
                    hasT[o.g] = true;
                    if (blk->trc.size() != 3 * loc.size()) {
                        err(k, S(blk->trc.size()) + " samples instead of " + S(3 * loc.size()));
                        continue;
                    }
                    for (size_t i = 0; i < loc.size(); i++)
                        for (size_t n = 0; n < 3; n++)
                            if (bits(blk->trc[3 * i + n]) != smp_bits(in[size_t(loc[i].first)], loc[i].second, n)) err(k, "sample " + S(n) + " of local trace " + S(i) + " is wrong");
                }
            }
            if (cache.checkPrm(q) != hasP[o.g] || cache.checkTrc(q) != hasT[o.g]) err(k, "parameters " + std::string(cache.checkPrm(q) ? "" : "not ") + "found, traces " + (cache.checkTrc(q) ? "" : "not ") + "found");
        }
        if (piol->log->isErr()) err(ops.size(), "an error is reported");
    });
    uint64_t h = mc::mix(size_t(nr), nts.size());
    for (auto& o : ops) h = mc::mix(h, size_t(o.kind * 100 + o.a * 10 + o.g));
    for (auto n : nts) h = mc::mix(h, n);
    c.state(h);
    c.outcome(mc::hash_bytes(bad.data(), bad.size()));
    if (r.status != mc::Status::Done || c.failed()) return;
    std::string w;
    for (auto& o : ops) w += (w.empty() ? "" : ", ") + oname(o);
    w += " on " + S(nr) + " processes with files of";
    for (auto n : nts) w += " " + S(n);
    if (bad.empty())
        for (size_t k = 0; k < ops.size(); k++) {
            std::set<size_t> all;
            size_t n = 0;
            for (auto& x : gtn[k])
                for (size_t g : x.second) all.insert(g), n++;
            if (all.size() != n || (n && *all.rbegin() != n - 1)) bad = "request " + S(k) + ": the traces are not numbered from 0 to " + S(n);
        }
    if (!bad.empty()) c.fail("cache", w + " traces: " + bad);
}
SCENARIO(sequences)
{
    auto al = alphabet();
    int n   = c.range(1, c.thorough() ? 4 : 3, "length");
    std::vector<Op1> ops;
    for (int i = 0; i < n; i++) ops.push_back(al[size_t(c.pick(int(al.size()), "request"))]);
    int nr = c.range(1, n > 2 ? 2 : 4, "ranks");
    if (!c.go()) return;
    judge(c, ops, nr, {4, 3, 0});
    if (!c.failed()) judge(c, ops, nr, {1, 2, 3});
}
// every rule after every rule, on every group
SCENARIO(rules)
{
    int a = c.pick(7, "first rule"), b = c.pick(7, "second rule"), g = c.pick(5, "group"), nr = c.range(1, 4, "ranks");
    if (!c.go()) return;
    for (auto nts : std::vector<std::vector<size_t>>{{4, 3, 0}, {1, 0, 5}, {0, 0, 0}, {2, 2, 2}}) {
        judge(c, {{0, a, g}, {0, b, g}}, nr, nts);
        if (!c.failed()) judge(c, {{0, a, g}, {1, 0, g}, {0, b, g}, {1, 0, g}, {3, 0, g}, {2, 0, g}, {0, a, g}}, nr, nts);
        if (c.failed()) return;
    }
}
SCENARIO(sizes)
{
    int a = c.range(0, 3, "file 0"), b = c.range(0, 3, "file 1"), d = c.range(0, 2, "file 2"), nr = c.range(1, 5, "ranks");
    if (!c.go()) return;
    for (int g = 0; g < 5 && !c.failed(); g++) judge(c, {{0, 1, g}, {1, 0, g}, {0, 2, g}, {3, 0, g}}, nr, {size_t(a), size_t(b), size_t(d)});
}
// long histories of requests: every cyclic pattern of three, and large files
SCENARIO(long_histories)
{
    auto al = alphabet();
    int n = c.of<int>({9, 40}, "length"), a = c.pick(int(al.size()), "first"), b = c.pick(int(al.size()), "second"), d = c.pick(int(al.size()), "third"), nr = c.range(1, 2, "ranks");
    if (!c.go()) return;
    if (n == 40 && nr == 2) return judge(c, {al[size_t(a)], al[size_t(b)], al[size_t(d)]}, 4, {1, 2, 300});
    std::vector<Op1> ops;
    for (int i = 0; i < n; i++) ops.push_back(al[size_t(i % 3 == 0 ? a : i % 3 == 1 ? b : d)]);
    judge(c, ops, nr, {4, 3, 0});
}
SCENARIO(large)
{
    int a = c.of<int>({0, 40, 257, 1025}, "file 0"), b = c.of<int>({0, 127, 300}, "file 1"), nr = c.of<int>({1, 2, 5, 8}, "ranks"), ru = c.pick(7, "rule");
    if (!c.go()) return;
    for (int g = 0; g < 5 && !c.failed(); g++) judge(c, {{0, ru, g}, {1, 0, g}, {0, (ru + 2) % 7, g}, {3, 0, g}, {0, ru, g}}, nr, {size_t(a), size_t(b), 64});
}
