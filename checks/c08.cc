// C08: a rule after any sequence of edits, against a map model; transfer of
// parameters through it, against byte positions.
#include "common.hh"
#include "ExSeisDat/PIOL/SEGYRuleEntry.hh"
using namespace cm;

struct Ent {
    FT t;
    size_t loc, scal;
    bool operator==(const Ent& o) const { return t == o.t && loc == o.loc && scal == o.scal; }
};
static const FT COPYT = FT(99);
typedef std::map<Meta, Ent> Model;

static RuleEntry::MdType mdt(FT t)
{
    switch (t) {
        case FT::Int: return RuleEntry::MdType::Long;
        case FT::Short: return RuleEntry::MdType::Short;
        case FT::Scaled: return RuleEntry::MdType::Float;
        case FT::Index: return RuleEntry::MdType::Index;
        default: return RuleEntry::MdType::Copy;
    }
}
static Ent standard(Meta m)
{
    if (m == PIOL_META_COPY) return {COPYT, 0, 0};
    const Field& f = *field(m);
    return {f.t, size_t(f.loc), f.t == FT::Scaled ? size_t(f.scal) : 0};
}
// The three parameters edited, with private places in the header for each
// type (at both ends of the header too).
static const Meta metas[3] = {PIOL_META_xSrc, PIOL_META_il, PIOL_META_Misc1};
static const size_t locs[3][4] = {{9, 237, 89, 93}, {21, 129, 101, 105}, {137, 141, 233, 145}};  // long A, long B, short, float
static const size_t scals[3]   = {151, 151, 153};

struct Op {
    int k, m;  // kind and parameter
};
enum { STD, LONGA, LONGB, SHORT, FLOAT, INDEX, REMOVE, LOOKUP, NPER };
enum { COPYADD = 100, COPYRM, MERGE1, MERGE2, SELF, EXTENT };
static std::vector<Op> alphabet(bool small)
{
    std::vector<Op> a;
    for (int m = 0; m < 3; m++)
        for (int k = 0; k < NPER; k++) {
            if (small && (k == LONGB || (m == 2 && (k == STD || k == FLOAT)))) continue;
            a.push_back({k, m});
        }
    for (int k : {COPYADD, COPYRM, MERGE1, MERGE2, EXTENT}) a.push_back({k, 0});
    if (!small) a.push_back({SELF, 0});
    return a;
}
static std::string opname(const Op& o)
{
    static const char* n[] = {"standard", "long", "long'", "short", "float", "index", "remove", "lookup"};
    if (o.k < NPER) return std::string(n[o.k]) + "(" + (o.m == 0 ? "xSrc" : o.m == 1 ? "il" : "Misc1") + ")";
    static const char* g[] = {"copy", "remove(copy)", "merge1", "merge2", "merge(self)", "extent"};
    return g[o.k - 100];
}
static std::shared_ptr<Rule> other_rule(int k)
{
    if (k == MERGE1) {
        auto r = std::make_shared<Rule>(std::vector<Meta>{PIOL_META_xSrc, PIOL_META_Tic});
        r->addLong(PIOL_META_Misc1, 161);
        return r;
    }
    auto r = std::make_shared<Rule>(std::vector<Meta>{PIOL_META_COPY, PIOL_META_xl});
    r->addShort(PIOL_META_il, 165);
    r->addIndex(PIOL_META_Misc2);
    return r;
}
static Model other_model(int k)
{
    Model m;
    m[PIOL_META_gtn] = m[PIOL_META_ltn] = {FT::Index, 0, 0};
    if (k == MERGE1) {
        m[PIOL_META_xSrc]  = standard(PIOL_META_xSrc);
        m[PIOL_META_Tic]   = standard(PIOL_META_Tic);
        m[PIOL_META_Misc1] = {FT::Int, 161, 0};
    }
    else {
        m[PIOL_META_COPY]  = {COPYT, 0, 0};
        m[PIOL_META_xl]    = standard(PIOL_META_xl);
        m[PIOL_META_il]    = {FT::Short, 165, 0};
        m[PIOL_META_Misc2] = {FT::Index, 0, 0};
    }
    return m;
}
static std::string apply(Rule& r, Model& m, const Op& o)
{
    Meta t = metas[o.m];
    switch (o.k) {
        case STD: {
            bool has = m.count(t), std_ = t != PIOL_META_Misc1;
            bool got = r.addRule(t);
            if (got != (!has && std_)) return "adding the standard entry returned " + S(int(got));
            if (!has && std_) m[t] = standard(t);
            break;
        }
        case LONGA:
        case LONGB:
            r.addLong(t, locs[o.m][o.k == LONGA ? 0 : 1]);
            m[t] = {FT::Int, locs[o.m][o.k == LONGA ? 0 : 1], 0};
            break;
        case SHORT:
            r.addShort(t, locs[o.m][2]);
            m[t] = {FT::Short, locs[o.m][2], 0};
            break;
        case FLOAT:
            r.addSEGYFloat(t, locs[o.m][3], scals[o.m]);
            m[t] = {FT::Scaled, locs[o.m][3], scals[o.m]};
            break;
        case INDEX:
            r.addIndex(t);
            m[t] = {FT::Index, 0, 0};
            break;
        case REMOVE:
            r.rmRule(t);
            m.erase(t);
            break;
        case LOOKUP:
            if ((r.getEntry(t) != nullptr) != (m.count(t) != 0)) return "lookup finds an absent entry or misses one";
            break;
        case COPYADD:
            r.addCopy();
            m[PIOL_META_COPY] = {COPYT, 0, 0};
            break;
        case COPYRM:
            r.rmRule(PIOL_META_COPY);
            m.erase(PIOL_META_COPY);
            break;
        case MERGE1:
        case MERGE2: {
            auto x = other_rule(o.k);
            r.addRule(*x);
            for (auto& kv : other_model(o.k)) m.insert(kv);
            break;
        }
        case SELF: r.addRule(r); break;
        default: break;
    }
    return "";
}
// the rule is exactly the model
static std::string same(Rule& r, const Model& m, bool full)
{
    size_t n[5] = {0, 0, 0, 0, 0};
    std::set<size_t> nums[5];
    size_t lo = 240, hi = 0;
    if (r.translate.size() != m.size()) return "holds " + S(r.translate.size()) + " parameters, expected " + S(m.size());
    for (auto& kv : m) {
        auto it = r.translate.find(kv.first);
        if (it == r.translate.end() || !it->second) return "parameter " + S(kv.first) + " is missing";
        RuleEntry* e = it->second;
        if (r.getEntry(kv.first) != e) return "lookup of parameter " + S(kv.first) + " gives another entry";
        if (e->type() != mdt(kv.second.t)) return "parameter " + S(kv.first) + " has the wrong type";
        size_t ti = size_t(e->type());
        n[ti]++;
        if (kv.second.t != COPYT && !nums[ti].insert(e->num).second) return "two parameters share storage number " + S(e->num);
        if (kv.second.t == FT::Int || kv.second.t == FT::Short || kv.second.t == FT::Scaled) {
            if (e->loc != kv.second.loc) return "parameter " + S(kv.first) + " is at header byte " + S(e->loc) + ", expected " + S(kv.second.loc);
            size_t len = kv.second.t == FT::Short ? 2 : 4;
            lo         = std::min(lo, e->loc - 1);
            hi         = std::max(hi, e->loc - 1 + len);
            if (kv.second.t == FT::Scaled) {
                auto f = dynamic_cast<SEGYFloatRuleEntry*>(e);
                if (!f || f->scalLoc != kv.second.scal) return "parameter " + S(kv.first) + " has its scalar elsewhere";
                lo = std::min(lo, f->scalLoc - 1);
                hi = std::max(hi, f->scalLoc - 1 + 2);
            }
        }
        if (kv.second.t == COPYT) lo = 0, hi = 240;
    }
    size_t want[5] = {r.numLong, r.numShort, r.numFloat, r.numIndex, r.numCopy};
    for (size_t t = 0; t < 5; t++) {
        if (n[t] != want[t]) return "count of type " + S(t) + " is " + S(want[t]) + ", holds " + S(n[t]);
        if (t < 4)
            for (auto x : nums[t])
                if (x >= n[t]) return "storage number " + S(x) + " of " + S(n[t]) + " of type " + S(t);
    }
    size_t ext = full ? 240 : hi > lo ? hi - lo : 0;
    if (r.extent() != ext) return "extent is " + S(r.extent()) + ", expected " + S(ext);
    size_t pm = n[0] * sizeof(Integer) + n[1] * 2 + n[2] * sizeof(Floating_point) + n[3] * sizeof(size_t) + n[4] * 240;
    if (r.paramMem() != pm) return "memory for parameters is " + S(r.paramMem()) + ", expected " + S(pm);
    Param p(std::shared_ptr<Rule>(&r, [](Rule*) {}), 3);
    if (p.size() != 3 || p.i.size() != 3 * n[0] || p.s.size() != 3 * n[1] || p.f.size() != 3 * n[2] || p.t.size() != 3 * n[3] || p.c.size() != 720 * n[4]) return "a parameter container has the wrong sizes";
    return "";
}
// Transfer through the rule touches exactly the fields of the model.
static std::string transfer(Rule& r, const Model& m, size_t sz, size_t stride, size_t skip)
{
    std::shared_ptr<Rule> rp(&r, [](Rule*) {});
    size_t w = sz + skip + 1;  // one entry before (if skip) and one after
    Param p(rp, w);
    // into the header: every value distinct
    for (size_t k = 0; k < p.i.size(); k++) p.i[k] = Integer(0x01020304 + 0x11111 * (long long)k) * (k & 1 ? -1 : 1);
    for (size_t k = 0; k < p.s.size(); k++) p.s[k] = int16_t(0x2122 + 257 * int(k));
    for (size_t k = 0; k < p.f.size(); k++) p.f[k] = double(4660 + 97 * int(k)) / ((k & 1) ? 100. : 1.);
    for (size_t k = 0; k < p.t.size(); k++) p.t[k] = 0xDEAD00000ul + k;
    for (size_t k = 0; k < p.c.size(); k++) p.c[k] = uc(k * 7 + 3);
    Param q = p;
    std::vector<uc> buf(sz * (240 + stride), 0x5A);
    SEGY_utils::insertParam(sz, &p, buf.data(), stride, skip);
    if (!(p == q)) return "writing parameters changed the parameters";
    for (size_t i = 0; i < sz; i++) {
        RefHdr ref;
        uc* got = &buf[i * (240 + stride)];
        ref.b.fill(0x5A);
        std::vector<int> raw(240, 0);
        if (m.count(PIOL_META_COPY)) memcpy(ref.b.data(), &p.c[(i + skip) * 240], 240);
        std::map<size_t, std::vector<std::pair<size_t, double>>> groups;
        for (auto& kv : m) {
            auto num = r.translate.at(kv.first)->num;
            size_t l = kv.second.loc - 1;
            if (kv.second.t == FT::Int) put32(&ref.b[l], uint32_t(int32_t(p.i[(i + skip) * r.numLong + num])));
            if (kv.second.t == FT::Short) put16(&ref.b[l], p.s[(i + skip) * r.numShort + num]);
            if (kv.second.t == FT::Scaled) {
                double want = p.f[(i + skip) * r.numFloat + num];
                Field f{0, FT::Scaled, int(kv.second.loc), int(kv.second.scal), ""};
                double d = decode(f, got);
                if (!close_to(d, want)) return "the header holds " + S(d) + " for parameter " + S(kv.first) + ", expected " + S(want);
                memcpy(&ref.b[l], got + l, 4);
                memcpy(&ref.b[kv.second.scal - 1], got + kv.second.scal - 1, 2);
            }
        }
        for (size_t k = 0; k < 240; k++)
            if (ref.b[k] != got[k]) return "writing: header byte " + S(k + 1) + " of trace " + S(i) + " is " + S(int(got[k])) + ", expected " + S(int(ref.b[k]));
        for (size_t k = 0; k < stride; k++)
            if (got[240 + k] != 0x5A) return "writing: touched byte " + S(k) + " after the header of trace " + S(i);
    }
    // and out of it
    for (size_t k = 0; k < buf.size(); k++) buf[k] = uc(mc::mix(k, 11) >> 33);
    for (size_t i = 0; i < sz; i++)
        for (auto& kv : m)
            if (kv.second.t == FT::Scaled) put16(&buf[i * (240 + stride) + kv.second.scal - 1], i % 2 ? -100 : 10);
    auto keep = buf;
    SEGY_utils::extractParam(sz, buf.data(), &p, stride, skip);
    if (keep != buf) return "reading parameters changed the header";
    for (size_t e = 0; e < w; e++) {
        bool in      = e >= skip && e < skip + sz;
        const uc* h  = in ? &buf[(e - skip) * (240 + stride)] : nullptr;
        for (auto& kv : m) {
            auto num = r.translate.at(kv.first)->num;
            Field f{0, kv.second.t, int(kv.second.loc), int(kv.second.scal), ""};
            double got = 0, want = 0;
            switch (kv.second.t) {
                case FT::Int: got = double(p.i[e * r.numLong + num]), want = in ? decode(f, h) : double(q.i[e * r.numLong + num]); break;
                case FT::Short: got = p.s[e * r.numShort + num], want = in ? decode(f, h) : q.s[e * r.numShort + num]; break;
                case FT::Scaled: got = p.f[e * r.numFloat + num], want = in ? decode(f, h) : q.f[e * r.numFloat + num]; break;
                case FT::Index:
                    if (p.t[e * r.numIndex + num] != q.t[e * r.numIndex + num]) return "reading: an index parameter changed";
                    break;
                default:
                    if (memcmp(&p.c[e * 240], in ? h : &q.c[e * 240], 240)) return "reading: raw header of entry " + S(e) + " is wrong";
            }
            if (!close_to(got, want)) return "reading: parameter " + S(kv.first) + " of entry " + S(e) + " is " + S(got) + ", expected " + S(want);
        }
    }
    return "";
}
static std::shared_ptr<Rule> start_rule(int k, Model& m, bool& full)
{
    m.clear();
    m[PIOL_META_gtn] = m[PIOL_META_ltn] = {FT::Index, 0, 0};
    full = k % 2 == 0;
    switch (k / 2) {
        case 0: return std::make_shared<Rule>(full, false);
        case 1:
            for (auto x : default_metas()) m[x] = standard(x);
            return std::make_shared<Rule>(full, true);
        case 2:
            m.clear();
            return std::make_shared<Rule>(Rule::RuleMap(), full);
        case 3:
            for (auto x : default_metas()) m[x] = standard(x);
            for (auto x : extra_metas()) m[x] = standard(x);
            return std::make_shared<Rule>(full, true, true);
        default:
            for (Meta x : {PIOL_META_xSrc, PIOL_META_WtrDepRcv, PIOL_META_COPY, PIOL_META_Tic}) m[x] = standard(x);
            return std::make_shared<Rule>(std::vector<Meta>{PIOL_META_xSrc, PIOL_META_WtrDepRcv, PIOL_META_COPY, PIOL_META_Tic, PIOL_META_xSrc, PIOL_META_Misc3}, full);
    }
}
static uint64_t hash_model(const Model& m)
{
    uint64_t h = 1;
    for (auto& kv : m) h = mc::mix(h, mc::mix(uint64_t(kv.first) * 8 + uint64_t(kv.second.t), kv.second.loc * 512 + kv.second.scal));
    return h;
}
static void sequences(mc::Case& c, bool small, int start, int depth, int first, int second)
{
    auto A = alphabet(small);
    std::vector<int> seq(size_t(depth), 0);
    seq[0] = first;
    if (depth > 1) seq[1] = second;
    uint64_t tr = 0, ex = 0;
    for (;;) {
        {
            Model m;
            bool full;
            auto r          = start_rule(start, m, full);
            std::string err = same(*r, m, full), what;
            for (int k = 0; k < depth && err.empty(); k++) {
                err = apply(*r, m, A[size_t(seq[size_t(k)])]);
                if (err.empty() && k + 1 >= depth) err = same(*r, m, full);
                if (k + 1 < depth && A[size_t(seq[size_t(k)])].k == EXTENT) r->extent();
                tr++;
            }
            size_t id = size_t(seq[size_t(depth - 1)]) + size_t(seq[size_t(depth > 2 ? depth - 2 : 0)]);
            if (err.empty()) err = transfer(*r, m, 1 + id % 2, (id % 3) * 4, id % 5 == 0);
            ex++;
            c.state(mc::mix(hash_model(m), uint64_t(full)));
            c.outcome(hash_model(m));
            if (!err.empty()) {
                what = "start " + S(start) + ":";
                for (int x : seq) what += " " + opname(A[size_t(x)]);
                c.fail("edit", what + ": " + err);
                break;
            }
        }
        int k = depth - 1;
        while (k > 1 && ++seq[size_t(k)] == int(A.size())) seq[size_t(k--)] = 0;
        if (k <= 1) break;
    }
    c.transitions(tr);
    c.executed(ex);
}
static void seq_case(mc::Case& c, bool small, int depth)
{
    int start = c.pick(10, "start");
    int n     = int(alphabet(small).size());
    int a     = c.pick(n, "first");
    int b     = depth > 1 ? c.pick(n, "second") : 0;
    if (!c.go()) return;
    sequences(c, small, start, depth, a, b);
}
SCENARIO(edits1) { seq_case(c, false, 1); }
SCENARIO(edits2) { seq_case(c, false, 2); }
SCENARIO(edits3) { seq_case(c, false, 3); }
SCENARIO(edits4) { seq_case(c, true, 4); }
SCENARIO_THOROUGH(edits4_all) { seq_case(c, false, 4); }

// Every standard parameter alone and every ordered pair of standard
// parameters, all fields at their standard place.
SCENARIO(standard_fields)
{
    std::vector<Meta> all = default_metas();
    for (auto x : extra_metas()) all.push_back(x);
    all.push_back(PIOL_META_WtrDepSrc);
    all.push_back(PIOL_META_WtrDepRcv);
    all.push_back(PIOL_META_COPY);
    int a     = c.pick(int(all.size()), "first");
    bool full = c.pick(2, "partial") == 0;
    if (!c.go()) return;
    for (size_t b = 0; b < all.size(); b++)
        for (int rm = 0; rm < 3; rm++) {
            Model m;
            m[PIOL_META_gtn] = m[PIOL_META_ltn] = {FT::Index, 0, 0};
            Rule r(std::vector<Meta>{all[size_t(a)], all[b]}, full);
            m[all[size_t(a)]] = standard(all[size_t(a)]);
            m[all[b]]         = standard(all[b]);
            if (rm) {
                Meta x = rm == 1 ? all[size_t(a)] : all[b];
                r.rmRule(x);
                m.erase(x);
            }
            std::string err = same(r, m, full);
            for (size_t stride : {0, 4, 400})
                for (size_t skip : {0, 1, 2})
                    if (err.empty()) err = transfer(r, m, 3, stride, skip);
            c.executed(9);
            c.transitions(18);
            c.state(mc::mix(hash_model(m), uint64_t(full)));
            c.outcome(hash_model(m));
            if (!err.empty()) {
                c.fail("field", "parameters " + S(all[size_t(a)]) + " and " + S(all[b]) + (rm ? " (one removed)" : "") + ": " + err);
                return;
            }
        }
}

// Edited rules used with files: write with one, read with another.
static const char* FN = "rule.segy";
static std::shared_ptr<Rule> file_rule(int k, bool full, Model& m)
{
    m.clear();
    m[PIOL_META_gtn] = m[PIOL_META_ltn] = {FT::Index, 0, 0};
    std::shared_ptr<Rule> r;
    auto base = [&](bool extra) {
        r = std::make_shared<Rule>(full, true, extra);
        for (auto x : default_metas()) m[x] = standard(x);
        if (extra)
            for (auto x : extra_metas()) m[x] = standard(x);
    };
    switch (k) {
        case 0: base(false); break;
        case 1: base(true); break;
        case 2:
            base(false);
            for (Meta x : {PIOL_META_ltn, PIOL_META_gtn}) r->rmRule(x), m.erase(x);
            break;
        case 3:
            base(false);
            r->addShort(PIOL_META_il, 239);
            m[PIOL_META_il] = {FT::Short, 239, 0};
            r->addLong(PIOL_META_Misc1, 1);
            m[PIOL_META_Misc1] = {FT::Int, 1, 0};
            break;
        case 4:
            r = std::make_shared<Rule>(std::vector<Meta>{PIOL_META_xl}, full);
            m[PIOL_META_xl] = standard(PIOL_META_xl);
            break;
        case 5: r = std::make_shared<Rule>(full, false); break;
        case 6:
            base(false);
            r->addCopy();
            m[PIOL_META_COPY] = {COPYT, 0, 0};
            break;
        default:
            r = std::make_shared<Rule>(full, false);
            r->addSEGYFloat(PIOL_META_Misc2, 225, 229);
            m[PIOL_META_Misc2] = {FT::Scaled, 225, 229};
    }
    return r;
}
SCENARIO(files)
{
    int wk = c.pick(8, "write rule"), rk = c.pick(8, "read rule");
    int full = c.pick(4, "partial");
    int trc  = c.pick(2, "headers only");
    int nr   = c.range(1, 2, "ranks");
    if (!c.go()) return;
    mc::Config cfg;
    cfg.nranks = nr;
    std::vector<std::string> err(static_cast<size_t>(nr));
    std::array<uc, 240> bg;
    for (size_t k = 0; k < 240; k++) bg[k] = uc(k * 5 + 1);
    for (int b : {69, 71, 151, 201, 229}) put16(&bg[size_t(b - 1)], -100);
    mc::fs().clear();
    auto r = mc::run_case(c, cfg, [&](int rank) {
        auto piol = ExSeis::New();
        Model wm, rm;
        auto wr = file_rule(wk, full & 1, wm), rr = file_rule(rk, (full & 2) != 0, rm);
        {
            WriteDirect wd(piol, FN);
            WriteInterface* f = &static_cast<WriteInterface&>(wd);
            f->writeNs(2);
            f->writeInc(0.004);
            f->writeText("T");
            f->writeNt(size_t(2 * nr));
            Param p(wr, 2);
            for (size_t e = 0; e < 2; e++) {
                size_t tn = size_t(2 * rank) + e;
                for (size_t k = 0; k < wr->numLong; k++) p.i[e * wr->numLong + k] = Integer(tn * 1000 + k);
                for (size_t k = 0; k < wr->numShort; k++) p.s[e * wr->numShort + k] = int16_t(tn * 100 + k);
                for (size_t k = 0; k < wr->numFloat; k++) p.f[e * wr->numFloat + k] = double(tn * 10 + k) / 4.;
                if (wr->numCopy) memcpy(&p.c[e * 240], bg.data(), 240);
            }
            std::vector<Trace_value> t(4, 1.5f);
            f->writeTrace(size_t(2 * rank), 2, t.data(), &p);
        }
        piol->comm->barrier();
        {
            // the bytes of the file
            for (size_t e = 0; e < 2; e++) {
                size_t tn = size_t(2 * rank) + e;
                uc h[240];
                mc::fs()[FN].read(3600 + tn * 248, h, 240);
                std::array<uc, 240> want;
                want.fill(0);
                if (wr->numCopy) want = bg;
                for (auto& kv : wm) {
                    size_t num = wr->translate.at(kv.first)->num, l = kv.second.loc - 1;
                    if (kv.second.t == FT::Int) put32(&want[l], uint32_t(tn * 1000 + num));
                    if (kv.second.t == FT::Short) put16(&want[l], int(tn * 100 + num));
                    if (kv.second.t == FT::Scaled) {
                        Field fl{0, FT::Scaled, int(kv.second.loc), int(kv.second.scal), ""};
                        if (!close_to(decode(fl, h), double(tn * 10 + num) / 4.)) err[size_t(rank)] = "file holds " + S(decode(fl, h)) + " for parameter " + S(kv.first) + " of trace " + S(tn);
                        memcpy(&want[l], h + l, 4);
                        memcpy(&want[kv.second.scal - 1], h + kv.second.scal - 1, 2);
                    }
                }
                for (size_t k = 0; k < 240; k++)
                    if (want[k] != h[k]) err[size_t(rank)] = "file header byte " + S(k + 1) + " of trace " + S(tn) + " is " + S(int(h[k])) + ", expected " + S(int(want[k]));
            }
            ReadDirect f(piol, FN);
            Param p(rr, 2);
            std::vector<Trace_value> t(4, 0.f);
            size_t off = size_t(2 * ((rank + 1) % nr));
            if (trc) f->readParam(off, 2, &p);
            else f->readTrace(off, 2, t.data(), &p);
            for (size_t e = 0; e < 2; e++) {
                uc h[240];
                mc::fs()[FN].read(3600 + (off + e) * 248, h, 240);
                for (auto& kv : rm) {
                    size_t num = rr->translate.at(kv.first)->num;
                    Field fl{0, kv.second.t, int(kv.second.loc), int(kv.second.scal), ""};
                    double got = 0, want = 0;
                    if (kv.second.t == FT::Int) got = double(p.i[e * rr->numLong + num]), want = decode(fl, h);
                    if (kv.second.t == FT::Short) got = p.s[e * rr->numShort + num], want = decode(fl, h);
                    if (kv.second.t == FT::Scaled) got = p.f[e * rr->numFloat + num], want = decode(fl, h);
                    if (kv.second.t == COPYT && memcmp(&p.c[e * 240], h, 240)) err[size_t(rank)] = "raw header differs from the file";
                    if (kv.first == PIOL_META_ltn) got = double(p.t[e * rr->numIndex + num]), want = double(off + e);
                    if (!close_to(got, want)) err[size_t(rank)] = "reading parameter " + S(kv.first) + " of trace " + S(off + e) + " gave " + S(got) + ", file holds " + S(want);
                }
            }
            if (!trc)
                for (auto x : t)
                    if (x != 1.5f) err[size_t(rank)] = "sample is wrong";
        }
    });
    c.state(mc::mix(size_t(wk * 8 + rk), size_t(full * 8 + trc * 4 + nr)));
    c.outcome(mc::fs()[FN].hash());
    for (auto& e : err)
        if (!e.empty()) c.fail("file", e);
}
// Many edits one after another, checked after each
SCENARIO(long_edits)
{
    auto A    = alphabet(false);
    int start = c.pick(10, "start"), first = c.pick(int(A.size()), "first"), step = c.range(0, int(A.size()) - 1, "step");
    int turn  = c.pick(3, "turn");
    if (!c.go()) return;
    Model m;
    bool full;
    auto r = start_rule(start, m, full);
    std::string err, what;
    size_t k = size_t(first);
    int len  = c.thorough() ? 400 : 60;
    for (int i = 0; i < len && err.empty(); i++) {
        what += " " + opname(A[k]);
        err = apply(*r, m, A[k]);
        if (err.empty()) err = same(*r, m, full);
        if (err.empty() && i % 16 == 15) err = transfer(*r, m, 2, 4, 1);
        c.state(mc::mix(hash_model(m), uint64_t(full)));
        // the step changes now and then
        k = (k + size_t(step) + (turn && i % (3 + turn) == 2 ? 1 : 0)) % A.size();
    }
    c.executed();
    c.transitions(size_t(len));
    if (!err.empty()) c.fail("edit", "start " + S(start) + ":" + what.substr(what.size() > 600 ? what.size() - 600 : 0) + ": " + err);
}
// Many traces at once
SCENARIO(many)
{
    int start = c.pick(10, "start"), a = c.pick(int(alphabet(false).size()), "edit");
    size_t n = c.of(std::vector<size_t>{64, 127, 256, 257, 1025}, "traces"), st = c.of(std::vector<size_t>{0, 4, 1000}, "stride");
    if (!c.go()) return;
    Model m;
    bool full;
    auto r          = start_rule(start, m, full);
    std::string err = apply(*r, m, alphabet(false)[size_t(a)]);
    if (err.empty()) err = transfer(*r, m, n, st, n % 3);
    c.executed();
    c.transitions(n);
    c.state(mc::mix(mc::mix(hash_model(m), n), st));
    if (!err.empty()) c.fail("edit", "start " + S(start) + ", " + opname(alphabet(false)[size_t(a)]) + ", " + S(n) + " traces: " + err);
}
