// The model MPI (see mpi/mpi.h): collectives, point-to-point, datatypes,
// MPI-IO over the in-memory file system, and passive/active target RMA.
#include "mc_internal.hpp"

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <glob.h>
#include <fnmatch.h>
#include <getopt.h>
#include <unistd.h>

using namespace mc;

struct mc_fview {
    MPI_Offset disp = 0;
    MPI_Datatype etype = MPI_BYTE, ftype = MPI_BYTE;
    long esize = 1;
    bool plain = true;                        // contiguous bytes
    std::vector<std::pair<long, long>> segs;  // of one filetype tile
    long tsize = 1, text = 1;
    long long pos = 0;  // individual pointer in etypes
};
struct mc_file {
    std::string name;
    int amode;
    CollSeq cs;
    std::vector<mc_fview> view;
    std::vector<bool> closed;
};
struct mc_winop {
    int origin, target;
    int kind;  // 0 put 1 get 2 acc
    std::vector<unsigned char> snap;
    const unsigned char* obuf;
    unsigned char* gbuf;
    size_t off, n;
    uint64_t hash;
    MPI_Op op;
    MPI_Datatype t;
};
struct mc_win {
    CollSeq cs;
    std::vector<unsigned char*> base;
    std::vector<size_t> size;
    std::vector<int> unit;
    std::vector<void*> owned;
    // lock state per target (member index)
    std::vector<int> excl;                 // holder or -1
    std::vector<std::set<int>> shared;     // holders
    std::vector<std::set<int>> nocheck;    // holders that said NOCHECK
    std::vector<std::map<int, int>> mine;  // origin -> (target -> type)
    std::vector<bool> fence;               // in a fence epoch
    std::vector<mc_winop> ops;
    std::vector<bool> freed;
};

namespace mc {
World::World() {}
World::~World() {}

static Type basic(long size)
{
    Type t;
    t.size = size;
    t.ub   = size;
    t.segs = {{0, size}};
    t.committed = t.predefined = t.contiguous = true;
    return t;
}

void World::init_mpi()
{
    static const int sz[] = {0, 1, 1, 1, 1, 2, 2, 4, 4, 8, 8, 8, 8, 4, 8, 16, 1, 1, 2, 4, 8, 1, 2, 4, 8, 8, 8, 8, 1, 1, 8, 16, 16, 8, 4};
    types.resize(100);
    for (size_t i = 1; i < sizeof(sz) / sizeof(sz[0]); i++) types[i] = basic(sz[i]);
    comms.resize(3);
    comms[1]           = std::make_unique<Comm>();
    int n              = int(ranks.size());
    for (int i = 0; i < n; i++) comms[1]->cs.members.push_back(i);
    comms[1]->cs.seq.assign(size_t(n), 0);
    comms[2] = std::make_unique<Comm>();
    vc.assign(size_t(n), std::vector<uint64_t>(size_t(n), 0));
    for (int i = 0; i < n; i++) vc[size_t(i)][size_t(i)] = 1;
    infos.resize(2);
    info_live.assign(2, false);
}

void World::finish_checks()
{
    for (auto& f : files)
        for (size_t i = 0; i < f->closed.size(); i++)
            if (!f->closed[i]) {
                res->open_files.push_back(f->name);
                break;
            }
    if (!res->open_files.empty()) res->live["file"] = int(res->open_files.size());
    for (auto& t : types)
        if (t.owner >= 0 && !t.freed) res->live["datatype"]++;
    for (bool b : info_live)
        if (b) res->live["info"]++;
    for (auto& w : wins)
        for (bool b : w->freed)
            if (!b) {
                res->live["window"]++;
                break;
            }
    for (auto& r : reqs)
        if (r.active && !r.waited) res->live["request"]++;
    if (comms_live) res->live["communicator"] = comms_live;
    if (!cfg->allow_request_leak)
        for (auto& r : reqs)
            if (r.active && !r.waited) {
                res->status = Status::Usage;
                res->msg    = std::string("rank ") + std::to_string(r.rank) + ": " + (r.send ? "send" : "receive") + " request never completed";
                return;
            }
}

void World::cleanup()
{
    for (auto& w : wins)
        for (auto p : w->owned) free(p);
}
}  // namespace mc

namespace {

std::string S(long long v)
{
    return std::to_string(v);
}

// Outside run(): a serial single-rank world so that library calls made by the
// checker itself (e.g. to inspect) are an error rather than a crash.
void need(const char* op)
{
    if (!in_rank()) {
        fprintf(stderr, "mc: %s outside of a rank\n", op);
        die_now(98);
    }
}

Type& type(MPI_Datatype t, const char* op)
{
    if (t <= 0 || size_t(t) >= W->types.size() || (W->types[size_t(t)].size == 0 && W->types[size_t(t)].segs.empty() && !W->types[size_t(t)].ub && t < 100))
        usage(std::string(op) + ": invalid datatype");
    if (W->types[size_t(t)].freed) usage(std::string(op) + ": freed datatype");
    return W->types[size_t(t)];
}

size_t bytes_of(long long count, MPI_Datatype t, const char* op)
{
    if (count < 0) usage(std::string(op) + ": negative count " + S(count));
    return size_t(count) * size_t(type(t, op).size);
}

Comm& comm_of(MPI_Comm c, const char* op)
{
    need(op);
    if (c == MPI_COMM_SELF) {
        auto& cm      = *W->comms[2];
        cm.cs.members = {W->cur};
        cm.cs.seq.assign(1, 0);
        cm.cs.slots.clear();
        return cm;
    }
    if (c <= 0 || size_t(c) >= W->comms.size() || !W->comms[size_t(c)]) usage(std::string(op) + ": invalid communicator");
    auto& cm = *W->comms[size_t(c)];
    if (cm.cs.idx(W->cur) < 0) usage(std::string(op) + ": not in communicator");
    return cm;
}

void tick()
{
    W->vc[size_t(W->cur)][size_t(W->cur)]++;
}

// Join clocks of all members (called by the last arriver of a synchronising
// collective).
void join_all(CollSeq& cs)
{
    std::vector<uint64_t> m(W->ranks.size(), 0);
    for (int r : cs.members)
        for (size_t i = 0; i < m.size(); i++) m[i] = std::max(m[i], W->vc[size_t(r)][i]);
    for (int r : cs.members) {
        W->vc[size_t(r)] = m;
        W->vc[size_t(r)][size_t(r)]++;
    }
}

std::shared_ptr<Coll> collective(
  CollSeq& cs, const char* op, const std::string& sig, const void* in,
  size_t n, const std::function<void(Coll&)>& finalize, bool sync = true)
{
    point(op);
    int me      = cs.idx(W->cur);
    uint64_t sq = cs.seq[size_t(me)]++;
    auto& sl    = cs.slots[sq];
    if (!sl) {
        sl      = std::make_shared<Coll>();
        sl->sig = sig;
        sl->first_rank = W->cur;
        sl->in.resize(cs.members.size());
    }
    auto c = sl;
    if (c->sig != sig)
        usage("collective mismatch: rank " + S(W->cur) + " calls " + sig + " while rank " + S(c->first_rank) + " calls " + c->sig);
    if (n) c->in[size_t(me)].assign(static_cast<const unsigned char*>(in), static_cast<const unsigned char*>(in) + n);
    c->arrived++;
    if (size_t(c->arrived) == cs.members.size()) {
        if (sync) join_all(cs);
        finalize(*c);
        c->complete = true;
        cs.slots.erase(sq);
    }
    else {
        auto& d = W->ranks[size_t(W->cur)].detail;
        d       = " (" + sig + ")";
        block([c]() { return c->complete; });
        W->ranks[size_t(W->cur)].detail.clear();
    }
    return c;
}

template<typename T>
void red(MPI_Op op, unsigned char* a, const unsigned char* b, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        T x, y;
        memcpy(&x, a + i * sizeof(T), sizeof(T));
        memcpy(&y, b + i * sizeof(T), sizeof(T));
        switch (op) {
            case MPI_MAX: x = std::max(x, y); break;
            case MPI_MIN: x = std::min(x, y); break;
            case MPI_SUM: x = T(x + y); break;
            case MPI_PROD: x = T(x * y); break;
            case MPI_LAND: x = T(x && y); break;
            case MPI_LOR: x = T(x || y); break;
            case MPI_REPLACE: x = y; break;
            case MPI_NO_OP: break;
            default: usage("unsupported reduction");
        }
        memcpy(a + i * sizeof(T), &x, sizeof(T));
    }
}
template<typename T>
void redi(MPI_Op op, unsigned char* a, const unsigned char* b, size_t n)
{
    if (op == MPI_BAND || op == MPI_BOR || op == MPI_BXOR || op == MPI_LXOR) {
        for (size_t i = 0; i < n; i++) {
            T x, y;
            memcpy(&x, a + i * sizeof(T), sizeof(T));
            memcpy(&y, b + i * sizeof(T), sizeof(T));
            x = op == MPI_BAND ? T(x & y) : op == MPI_BOR ? T(x | y) : op == MPI_BXOR ? T(x ^ y) : T(!x != !y);
            memcpy(a + i * sizeof(T), &x, sizeof(T));
        }
        return;
    }
    red<T>(op, a, b, n);
}
template<typename T, typename I>
void redloc(MPI_Op op, unsigned char* a, const unsigned char* b, size_t n)
{
    struct P {
        T v;
        I i;
    };
    for (size_t i = 0; i < n; i++) {
        P x, y;
        memcpy(&x, a + i * sizeof(P), sizeof(P));
        memcpy(&y, b + i * sizeof(P), sizeof(P));
        bool take = op == MPI_MINLOC ? (y.v < x.v || (y.v == x.v && y.i < x.i)) : (y.v > x.v || (y.v == x.v && y.i < x.i));
        if (take) x = y;
        memcpy(a + i * sizeof(P), &x, sizeof(P));
    }
}
void reduce(MPI_Op op, MPI_Datatype t, unsigned char* a, const unsigned char* b, size_t n)
{
    switch (t) {
        case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: redi<signed char>(op, a, b, n); break;
        case MPI_BYTE: case MPI_UNSIGNED_CHAR: case MPI_UINT8_T: case MPI_C_BOOL: case MPI_CXX_BOOL: redi<unsigned char>(op, a, b, n); break;
        case MPI_SHORT: case MPI_INT16_T: redi<short>(op, a, b, n); break;
        case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: redi<unsigned short>(op, a, b, n); break;
        case MPI_INT: case MPI_INT32_T: redi<int>(op, a, b, n); break;
        case MPI_UNSIGNED: case MPI_UINT32_T: redi<unsigned>(op, a, b, n); break;
        case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: case MPI_AINT: case MPI_OFFSET: case MPI_COUNT: redi<long>(op, a, b, n); break;
        case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: redi<unsigned long>(op, a, b, n); break;
        case MPI_FLOAT: red<float>(op, a, b, n); break;
        case MPI_DOUBLE: red<double>(op, a, b, n); break;
        case MPI_LONG_DOUBLE: red<long double>(op, a, b, n); break;
        case MPI_FLOAT_INT: redloc<float, int>(op, a, b, n); break;
        case MPI_DOUBLE_INT: redloc<double, int>(op, a, b, n); break;
        case MPI_LONG_INT: redloc<long, int>(op, a, b, n); break;
        case MPI_2INT: redloc<int, int>(op, a, b, n); break;
        default: usage("reduction on unsupported datatype");
    }
}

void set_status(MPI_Status* s, int src, int tag, size_t n, int err = MPI_SUCCESS)
{
    if (!s) return;
    s->MPI_SOURCE = src;
    s->MPI_TAG    = tag;
    s->MPI_ERROR  = err;
    s->_ucount    = n;
}

}  // namespace

extern "C" {

int MPI_Init(int*, char***) { return MPI_SUCCESS; }
int MPI_Init_thread(int*, char***, int, int* p)
{
    if (p) *p = MPI_THREAD_SINGLE;
    return MPI_SUCCESS;
}
int MPI_Initialized(int* f)
{
    *f = 1;
    return MPI_SUCCESS;
}
int MPI_Finalized(int* f)
{
    *f = 0;
    return MPI_SUCCESS;
}
int MPI_Finalize(void) { return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm, int code)
{
    need("MPI_Abort");
    W->res->exit_code = code;
    end_run(Status::Exited, "MPI_Abort(" + S(code) + ")");
}
double MPI_Wtime(void)
{
    static double t0 = 0;
    double& t        = W ? W->now : t0;
    t += 1.0 / 1024;
    return t;
}
double MPI_Wtick(void) { return 1e-6; }
int MPI_Get_library_version(char* s, int* l)
{
    strcpy(s, "model MPI");
    *l = int(strlen(s));
    return MPI_SUCCESS;
}
int MPI_Get_version(int* a, int* b)
{
    *a = 3;
    *b = 1;
    return MPI_SUCCESS;
}
int MPI_Get_processor_name(char* s, int* l)
{
    strcpy(s, "model");
    *l = 5;
    return MPI_SUCCESS;
}
int MPI_Error_class(int e, int* c)
{
    *c = e;
    return MPI_SUCCESS;
}
int MPI_Error_string(int e, char* s, int* l)
{
    *l = snprintf(s, MPI_MAX_ERROR_STRING, "model MPI error %d", e);
    return MPI_SUCCESS;
}

int MPI_Comm_rank(MPI_Comm c, int* r)
{
    *r = comm_of(c, "MPI_Comm_rank").cs.idx(W->cur);
    return MPI_SUCCESS;
}
int MPI_Comm_size(MPI_Comm c, int* s)
{
    *s = int(comm_of(c, "MPI_Comm_size").cs.members.size());
    return MPI_SUCCESS;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n)
{
    auto& cm = comm_of(c, "MPI_Comm_dup");
    auto k   = collective(cm.cs, "MPI_Comm_dup", "MPI_Comm_dup", nullptr, 0, [&](Coll& k) {
        W->comms.push_back(std::make_unique<Comm>());
        W->comms.back()->cs.members = cm.cs.members;
        W->comms.back()->cs.seq.assign(cm.cs.members.size(), 0);
        k.val = (long long)W->comms.size() - 1;
    });
    *n       = int(k->val);
    W->comms_live++;
    return MPI_SUCCESS;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* n)
{
    auto& cm  = comm_of(c, "MPI_Comm_split");
    int in[2] = {color, key};
    auto k    = collective(cm.cs, "MPI_Comm_split", "MPI_Comm_split", in, sizeof in, [&](Coll& k) {
        std::map<int, std::vector<std::pair<int, int>>> g;
        for (size_t i = 0; i < k.in.size(); i++) {
            int v[2];
            memcpy(v, k.in[i].data(), sizeof v);
            if (v[0] != MPI_UNDEFINED) g[v[0]].push_back({v[1], int(i)});
        }
        k.aux.resize(k.in.size() * sizeof(int));
        for (auto& e : g) {
            std::stable_sort(e.second.begin(), e.second.end());
            W->comms.push_back(std::make_unique<Comm>());
            int id = int(W->comms.size()) - 1;
            for (auto& m : e.second) {
                W->comms.back()->cs.members.push_back(cm.cs.members[size_t(m.second)]);
                memcpy(&k.aux[size_t(m.second) * sizeof(int)], &id, sizeof id);
            }
            W->comms.back()->cs.seq.assign(e.second.size(), 0);
        }
    });
    memcpy(n, &k->aux[size_t(cm.cs.idx(W->cur)) * sizeof(int)], sizeof(int));
    if (*n != MPI_COMM_NULL) W->comms_live++;
    return MPI_SUCCESS;
}
int MPI_Comm_free(MPI_Comm* c)
{
    if (*c == MPI_COMM_NULL) usage("MPI_Comm_free of a null communicator");
    *c = MPI_COMM_NULL;
    W->comms_live--;
    return MPI_SUCCESS;
}
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }
int MPI_File_set_errhandler(MPI_File, MPI_Errhandler) { return MPI_SUCCESS; }
int MPI_Win_set_errhandler(MPI_Win, MPI_Errhandler) { return MPI_SUCCESS; }

// ------------------------------------------------------------ collectives
int MPI_Barrier(MPI_Comm c)
{
    auto& cm = comm_of(c, "MPI_Barrier");
    collective(cm.cs, "MPI_Barrier", "MPI_Barrier", nullptr, 0, [](Coll&) {});
    return MPI_SUCCESS;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
    auto& cm  = comm_of(c, "MPI_Bcast");
    size_t sz = bytes_of(n, t, "MPI_Bcast");
    auto k    = collective(cm.cs, "MPI_Bcast", "MPI_Bcast(root " + S(root) + ", " + S((long long)sz) + " bytes)", b, sz, [](Coll&) {});
    if (cm.cs.idx(W->cur) != root && sz) memcpy(b, k->in[size_t(root)].data(), sz);
    return MPI_SUCCESS;
}
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rn, const int* d, MPI_Datatype rt, MPI_Comm c)
{
    auto& cm = comm_of(c, "MPI_Allgatherv");
    long e   = type(rt, "MPI_Allgatherv").size;
    int me   = cm.cs.idx(W->cur);
    const void* src = s;
    size_t sz;
    if (s == MPI_IN_PLACE) {
        src = static_cast<char*>(r) + long(d[me]) * e;
        sz  = size_t(rn[me]) * size_t(e);
    }
    else sz = bytes_of(sn, st, "MPI_Allgatherv");
    auto k = collective(cm.cs, "MPI_Allgatherv", "MPI_Allgatherv", src, sz, [](Coll&) {});
    for (size_t i = 0; i < k->in.size(); i++) {
        if (k->in[i].size() != size_t(rn[i]) * size_t(e)) usage("MPI_Allgatherv: count mismatch");
        if (!k->in[i].empty()) memcpy(static_cast<char*>(r) + long(d[i]) * e, k->in[i].data(), k->in[i].size());
    }
    return MPI_SUCCESS;
}
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c)
{
    auto& cm  = comm_of(c, "MPI_Allgather");
    size_t rs = bytes_of(rn, rt, "MPI_Allgather");
    int me    = cm.cs.idx(W->cur);
    if (s == MPI_IN_PLACE) s = static_cast<char*>(r) + size_t(me) * rs;
    else if (bytes_of(sn, st, "MPI_Allgather") != rs) usage("MPI_Allgather: send and receive sizes differ");
    auto k = collective(cm.cs, "MPI_Allgather", "MPI_Allgather(" + S((long long)rs) + " bytes)", s, rs, [](Coll&) {});
    for (size_t i = 0; i < k->in.size(); i++)
        if (rs) memcpy(static_cast<char*>(r) + i * rs, k->in[i].data(), rs);
    return MPI_SUCCESS;
}
int MPI_Gatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* rn, const int* d, MPI_Datatype rt, int root, MPI_Comm c)
{
    auto& cm  = comm_of(c, "MPI_Gatherv");
    int me    = cm.cs.idx(W->cur);
    size_t sz = 0;
    if (s == MPI_IN_PLACE) {
        long e = type(rt, "MPI_Gatherv").size;
        s      = static_cast<char*>(r) + long(d[me]) * e;
        sz     = size_t(rn[me]) * size_t(e);
    }
    else sz = bytes_of(sn, st, "MPI_Gatherv");
    auto k = collective(cm.cs, "MPI_Gatherv", "MPI_Gatherv(root " + S(root) + ")", s, sz, [](Coll&) {});
    if (me == root) {
        long e = type(rt, "MPI_Gatherv").size;
        for (size_t i = 0; i < k->in.size(); i++) {
            if (k->in[i].size() != size_t(rn[i]) * size_t(e)) usage("MPI_Gatherv: count mismatch");
            if (!k->in[i].empty()) memcpy(static_cast<char*>(r) + long(d[i]) * e, k->in[i].data(), k->in[i].size());
        }
    }
    return MPI_SUCCESS;
}
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
    auto& cm = comm_of(c, "MPI_Gather");
    int me   = cm.cs.idx(W->cur);
    size_t sz;
    if (s == MPI_IN_PLACE) {
        sz = bytes_of(rn, rt, "MPI_Gather");
        s  = static_cast<char*>(r) + size_t(me) * sz;
    }
    else sz = bytes_of(sn, st, "MPI_Gather");
    auto k = collective(cm.cs, "MPI_Gather", "MPI_Gather(root " + S(root) + ", " + S((long long)sz) + " bytes)", s, sz, [](Coll&) {});
    if (me == root)
        for (size_t i = 0; i < k->in.size(); i++)
            if (sz) memcpy(static_cast<char*>(r) + i * sz, k->in[i].data(), sz);
    return MPI_SUCCESS;
}
int MPI_Scatterv(const void* s, const int* sn, const int* d, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
    auto& cm = comm_of(c, "MPI_Scatterv");
    int me   = cm.cs.idx(W->cur);
    std::vector<unsigned char> in;
    std::vector<uint64_t> hd;
    if (me == root) {
        long e = type(st, "MPI_Scatterv").size;
        for (size_t i = 0; i < cm.cs.members.size(); i++) {
            hd.push_back(in.size());
            auto p = static_cast<const unsigned char*>(s) + long(d[i]) * e;
            in.insert(in.end(), p, p + long(sn[i]) * e);
        }
        hd.push_back(in.size());
    }
    std::vector<unsigned char> all(hd.size() * 8);
    if (!hd.empty()) memcpy(all.data(), hd.data(), all.size());
    all.insert(all.end(), in.begin(), in.end());
    auto k = collective(cm.cs, "MPI_Scatterv", "MPI_Scatterv(root " + S(root) + ")", all.data(), all.size(), [](Coll&) {});
    uint64_t a, b;
    auto& v = k->in[size_t(root)];
    memcpy(&a, &v[size_t(me) * 8], 8);
    memcpy(&b, &v[size_t(me) * 8 + 8], 8);
    if (r != MPI_IN_PLACE) {
        if (b - a != bytes_of(rn, rt, "MPI_Scatterv")) usage("MPI_Scatterv: count mismatch");
        if (b > a) memcpy(r, v.data() + (cm.cs.members.size() + 1) * 8 + a, b - a);
    }
    return MPI_SUCCESS;
}
int MPI_Scatter(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
    auto& cm = comm_of(c, "MPI_Scatter");
    std::vector<int> n(cm.cs.members.size(), sn), d;
    for (size_t i = 0; i < n.size(); i++) d.push_back(int(i) * sn);
    return MPI_Scatterv(s, n.data(), d.data(), st, r, rn, rt, root, c);
}
int MPI_Alltoallv(const void* s, const int* sn, const int* sd, MPI_Datatype st, void* r, const int* rn, const int* rd, MPI_Datatype rt, MPI_Comm c)
{
    auto& cm = comm_of(c, "MPI_Alltoallv");
    size_t n = cm.cs.members.size();
    size_t me = size_t(cm.cs.idx(W->cur));
    long es = type(st, "MPI_Alltoallv").size, er = type(rt, "MPI_Alltoallv").size;
    std::vector<uint64_t> hd{0};
    std::vector<unsigned char> in;
    for (size_t i = 0; i < n; i++) {
        auto p = static_cast<const unsigned char*>(s) + long(sd[i]) * es;
        in.insert(in.end(), p, p + long(sn[i]) * es);
        hd.push_back(in.size());
    }
    std::vector<unsigned char> all(hd.size() * 8);
    memcpy(all.data(), hd.data(), all.size());
    all.insert(all.end(), in.begin(), in.end());
    auto k = collective(cm.cs, "MPI_Alltoallv", "MPI_Alltoallv", all.data(), all.size(), [](Coll&) {});
    for (size_t i = 0; i < n; i++) {
        uint64_t a, b;
        memcpy(&a, &k->in[i][me * 8], 8);
        memcpy(&b, &k->in[i][me * 8 + 8], 8);
        if (b - a != uint64_t(rn[i]) * uint64_t(er)) usage("MPI_Alltoallv: count mismatch");
        if (b > a) memcpy(static_cast<char*>(r) + long(rd[i]) * er, k->in[i].data() + (n + 1) * 8 + a, b - a);
    }
    return MPI_SUCCESS;
}
int MPI_Alltoall(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c)
{
    auto& cm = comm_of(c, "MPI_Alltoall");
    size_t n = cm.cs.members.size();
    std::vector<int> a(n, sn), ad, b(n, rn), bd;
    for (size_t i = 0; i < n; i++) {
        ad.push_back(int(i) * sn);
        bd.push_back(int(i) * rn);
    }
    return MPI_Alltoallv(s, a.data(), ad.data(), st, r, b.data(), bd.data(), rt, c);
}
static int reduce_common(const char* name, const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, int mode)
{
    auto& cm  = comm_of(c, name);
    size_t sz = bytes_of(n, t, name);
    size_t me = size_t(cm.cs.idx(W->cur));
    if (s == MPI_IN_PLACE) s = r;
    auto k = collective(cm.cs, name, std::string(name) + "(op " + S(op) + ", " + S(n) + " of type " + S(t) + (root >= 0 ? ", root " + S(root) : "") + ")", s, sz, [](Coll&) {});
    size_t lo = 0, hi = k->in.size();
    if (mode == 1) {  // reduce
        if (int(me) != root) return MPI_SUCCESS;
    }
    else if (mode == 2) hi = me + 1;  // scan
    else if (mode == 3) hi = me;      // exscan
    if (hi == lo) return MPI_SUCCESS;  // exscan on rank 0: undefined
    auto acc = k->in[lo];
    for (size_t i = lo + 1; i < hi; i++) reduce(op, t, acc.data(), k->in[i].data(), size_t(n));
    if (sz) memcpy(r, acc.data(), sz);
    return MPI_SUCCESS;
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return reduce_common("MPI_Reduce", s, r, n, t, op, root, c, 1); }
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce_common("MPI_Allreduce", s, r, n, t, op, -1, c, 0); }
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce_common("MPI_Scan", s, r, n, t, op, -1, c, 2); }
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return reduce_common("MPI_Exscan", s, r, n, t, op, -1, c, 3); }

// ------------------------------------------------------------ p2p
static const int RBASE = 1000;

static Req& req_of(MPI_Request h, const char* op)
{
    if (h < RBASE || size_t(h - RBASE) >= W->reqs.size()) usage(std::string(op) + ": invalid request handle");
    Req& r = W->reqs[size_t(h - RBASE)];
    if (r.rank != W->cur) usage(std::string(op) + ": request of another rank");
    if (r.waited) usage(std::string(op) + ": request already completed");
    return r;
}
static void snapshot(Req& s)
{
    if (s.snap) return;
    if (s.bytes && hash_bytes(s.sbuf, s.bytes) != s.hash) usage("buffer of a pending send was modified before the send completed");
    s.data.assign(static_cast<const unsigned char*>(s.sbuf), static_cast<const unsigned char*>(s.sbuf) + s.bytes);
    s.snap = true;
}
static void try_match(size_t ni)
{
    Req& n = W->reqs[ni];
    if (n.send) {
        for (size_t i = 0; i < W->reqs.size(); i++) {
            Req& r = W->reqs[i];
            if (r.send || r.matched || !r.active || r.rank != n.peer || r.comm != n.comm) continue;
            if ((r.peer == n.rank || r.peer == MPI_ANY_SOURCE) && (r.tag == n.tag || r.tag == MPI_ANY_TAG)) {
                r.matched = n.matched = true;
                r.other = int(ni);
                n.other = int(i);
                return;
            }
        }
        return;
    }
    // receive: earliest unmatched send per source
    std::vector<size_t> cand;
    std::set<int> seen;
    for (size_t i = 0; i < W->reqs.size(); i++) {
        Req& s = W->reqs[i];
        if (!s.send || s.matched || s.peer != n.rank || s.comm != n.comm) continue;
        if (n.peer != MPI_ANY_SOURCE && n.peer != s.rank) continue;
        if (n.tag != MPI_ANY_TAG && n.tag != s.tag) continue;
        if (seen.insert(s.rank).second) cand.push_back(i);
    }
    if (cand.empty()) return;
    size_t k = cand.size() > 1 ? cand[size_t(choose(int(cand.size()), ENV))] : cand[0];
    W->reqs[k].matched = n.matched = true;
    W->reqs[k].other               = int(ni);
    n.other                        = int(k);
}
static int world_of(Comm& cm, int r, const char* op)
{
    if (r == MPI_ANY_SOURCE) return r;
    if (r < 0 || size_t(r) >= cm.cs.members.size()) usage(std::string(op) + ": rank " + S(r) + " out of range");
    return cm.cs.members[size_t(r)];
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* h)
{
    auto& cm = comm_of(c, "MPI_Isend");
    point("MPI_Isend");
    if (dst == MPI_PROC_NULL) {
        *h = MPI_REQUEST_NULL;
        return MPI_SUCCESS;
    }
    Req r;
    r.send  = true;
    r.rank  = W->cur;
    r.peer  = world_of(cm, dst, "MPI_Isend");
    r.tag   = tag;
    r.comm  = c;
    r.sbuf  = b;
    r.bytes = bytes_of(n, t, "MPI_Isend");
    if (r.bytes) r.hash = hash_bytes(b, r.bytes);
    tick();
    W->reqs.push_back(r);
    *h = int(W->reqs.size() - 1) + RBASE;
    try_match(W->reqs.size() - 1);
    return MPI_SUCCESS;
}
int MPI_Issend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request* h) { return MPI_Isend(b, n, t, dst, tag, c, h); }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* h)
{
    auto& cm = comm_of(c, "MPI_Irecv");
    point("MPI_Irecv");
    if (src == MPI_PROC_NULL) {
        *h = MPI_REQUEST_NULL;
        return MPI_SUCCESS;
    }
    Req r;
    r.rank  = W->cur;
    r.peer  = world_of(cm, src, "MPI_Irecv");
    r.tag   = tag;
    r.comm  = c;
    r.rbuf  = b;
    r.bytes = bytes_of(n, t, "MPI_Irecv");
    if (W->cfg->poison && r.bytes) memset(b, 0xA5, r.bytes);
    W->reqs.push_back(r);
    *h = int(W->reqs.size() - 1) + RBASE;
    try_match(W->reqs.size() - 1);
    return MPI_SUCCESS;
}
static void complete(MPI_Request* h, MPI_Status* st)
{
    Req& r = W->reqs[size_t(*h - RBASE)];
    Req& o = W->reqs[size_t(r.other)];
    if (r.send) {
        snapshot(r);
        set_status(st, 0, 0, 0);
    }
    else {
        snapshot(o);
        if (o.data.size() > r.bytes) usage("message of " + S((long long)o.data.size()) + " bytes truncated to " + S((long long)r.bytes));
        if (!o.data.empty()) memcpy(r.rbuf, o.data.data(), o.data.size());
        auto& cm = *W->comms[size_t(r.comm)];
        set_status(st, cm.cs.idx(o.rank), o.tag, o.data.size());
        std::vector<unsigned char>().swap(o.data);
        for (size_t i = 0; i < W->ranks.size(); i++) W->vc[size_t(r.rank)][i] = std::max(W->vc[size_t(r.rank)][i], W->vc[size_t(o.rank)][i]);
        tick();
    }
    r.waited = true;
    *h       = MPI_REQUEST_NULL;
}
int MPI_Wait(MPI_Request* h, MPI_Status* st)
{
    need("MPI_Wait");
    if (*h == MPI_REQUEST_NULL) {
        set_status(st, MPI_ANY_SOURCE, MPI_ANY_TAG, 0);
        return MPI_SUCCESS;
    }
    req_of(*h, "MPI_Wait");
    point("MPI_Wait");
    size_t i = size_t(*h - RBASE);
    block([i]() { return W->reqs[i].matched; });
    complete(h, st);
    return MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request* h, MPI_Status* st)
{
    for (int i = 0; i < n; i++) MPI_Wait(&h[i], st ? &st[i] : nullptr);
    return MPI_SUCCESS;
}
int MPI_Waitany(int n, MPI_Request* h, int* idx, MPI_Status* st)
{
    need("MPI_Waitany");
    std::vector<std::pair<int, size_t>> live;
    for (int i = 0; i < n; i++)
        if (h[i] != MPI_REQUEST_NULL) {
            req_of(h[i], "MPI_Waitany");
            live.push_back({i, size_t(h[i] - RBASE)});
        }
    if (live.empty()) {
        *idx = MPI_UNDEFINED;
        return MPI_SUCCESS;
    }
    point("MPI_Waitany");
    block([live]() {
        for (auto& p : live)
            if (W->reqs[p.second].matched) return true;
        return false;
    });
    std::vector<int> rdy;
    for (auto& p : live)
        if (W->reqs[p.second].matched) rdy.push_back(p.first);
    *idx = rdy[size_t(choose(int(rdy.size()), ENV))];
    complete(&h[*idx], st);
    return MPI_SUCCESS;
}
int MPI_Test(MPI_Request* h, int* f, MPI_Status* st)
{
    need("MPI_Test");
    if (*h == MPI_REQUEST_NULL) {
        *f = 1;
        return MPI_SUCCESS;
    }
    req_of(*h, "MPI_Test");
    point("MPI_Test");
    // polling: let another rank run first
    auto i = size_t(*h - RBASE);
    if (!W->reqs[i].matched && W->ranks.size() > 1) W->next = -1;
    *f = W->reqs[i].matched;
    if (*f) complete(h, st);
    else {
        bool once = false;
        block([&once]() {
            bool r = once;
            once   = true;
            return r;
        });
    }
    return MPI_SUCCESS;
}
int MPI_Testall(int n, MPI_Request* h, int* f, MPI_Status* st)
{
    bool all = true;
    for (int i = 0; i < n; i++)
        if (h[i] != MPI_REQUEST_NULL && !W->reqs[size_t(h[i] - RBASE)].matched) all = false;
    *f = all;
    if (all) return MPI_Waitall(n, h, st);
    point("MPI_Testall");
    bool once = false;
    block([&once]() {
        bool r = once;
        once   = true;
        return r;
    });
    return MPI_SUCCESS;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c)
{
    MPI_Request h;
    MPI_Isend(b, n, t, dst, tag, c, &h);
    return MPI_Wait(&h, MPI_STATUS_IGNORE);
}
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return MPI_Send(b, n, t, dst, tag, c); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* st)
{
    MPI_Request h;
    MPI_Irecv(b, n, t, src, tag, c, &h);
    return MPI_Wait(&h, st);
}
int MPI_Sendrecv(const void* s, int sn, MPI_Datatype stp, int dst, int stag, void* r, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status* st)
{
    MPI_Request h[2];
    MPI_Irecv(r, rn, rt, src, rtag, c, &h[1]);
    MPI_Isend(s, sn, stp, dst, stag, c, &h[0]);
    MPI_Wait(&h[0], MPI_STATUS_IGNORE);
    return MPI_Wait(&h[1], st);
}
static int find_probe(Comm&, int src, int tag, MPI_Comm c)
{
    for (size_t i = 0; i < W->reqs.size(); i++) {
        Req& s = W->reqs[i];
        if (s.send && !s.matched && s.peer == W->cur && s.comm == c && (src == MPI_ANY_SOURCE || s.rank == src) && (tag == MPI_ANY_TAG || s.tag == tag)) return int(i);
    }
    return -1;
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* st)
{
    auto& cm = comm_of(c, "MPI_Probe");
    point("MPI_Probe");
    src    = world_of(cm, src, "MPI_Probe");
    int me = W->cur;
    block([&cm, src, tag, c, me]() {
        int sv = W->cur;
        W->cur = me;
        int r  = find_probe(cm, src, tag, c);
        W->cur = sv;
        return r >= 0;
    });
    Req& s = W->reqs[size_t(find_probe(cm, src, tag, c))];
    set_status(st, cm.cs.idx(s.rank), s.tag, s.bytes);
    return MPI_SUCCESS;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int* f, MPI_Status* st)
{
    auto& cm = comm_of(c, "MPI_Iprobe");
    point("MPI_Iprobe");
    src   = world_of(cm, src, "MPI_Iprobe");
    int i = find_probe(cm, src, tag, c);
    *f    = i >= 0;
    if (*f) set_status(st, cm.cs.idx(W->reqs[size_t(i)].rank), W->reqs[size_t(i)].tag, W->reqs[size_t(i)].bytes);
    return MPI_SUCCESS;
}
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n)
{
    long sz = type(t, "MPI_Get_count").size;
    *n      = sz ? int(s->_ucount / size_t(sz)) : 0;
    return MPI_SUCCESS;
}
int MPI_Get_elements(const MPI_Status* s, MPI_Datatype t, int* n) { return MPI_Get_count(s, t, n); }

// ------------------------------------------------------------ datatypes
static MPI_Datatype add_type(Type t)
{
    t.owner = W->cur;
    W->types.push_back(std::move(t));
    return int(W->types.size()) - 1;
}
static Type build(const std::vector<std::pair<long, long>>& blocks /*disp,count*/, const Type& base)
{
    Type t;
    bool first = true;
    long ext   = base.ub - base.lb;
    for (auto& b : blocks) {
        if (b.second == 0) continue;
        if (first) {
            t.lb  = b.first;
            t.ub  = b.first + b.second * ext;
            first = false;
        }
        t.lb = std::min(t.lb, b.first + base.lb);
        t.ub = std::max(t.ub, b.first + base.lb + b.second * ext);
        if (base.contiguous) {
            if (!t.segs.empty() && t.segs.back().first + t.segs.back().second == b.first) t.segs.back().second += b.second * base.size;
            else t.segs.push_back({b.first, b.second * base.size});
        }
        else
            for (long i = 0; i < b.second; i++)
                for (auto& s : base.segs) t.segs.push_back({b.first + i * ext + s.first, s.second});
        t.size += b.second * base.size;
    }
    t.contiguous = t.segs.size() == 1 && t.segs[0].first == t.lb && t.segs[0].second == t.ub - t.lb;
    return t;
}
int MPI_Type_size(MPI_Datatype t, int* s)
{
    *s = int(type(t, "MPI_Type_size").size);
    return MPI_SUCCESS;
}
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* e)
{
    auto& y = type(t, "MPI_Type_get_extent");
    *lb     = y.lb;
    *e      = y.ub - y.lb;
    return MPI_SUCCESS;
}
int MPI_Type_get_true_extent(MPI_Datatype t, MPI_Aint* lb, MPI_Aint* e) { return MPI_Type_get_extent(t, lb, e); }
int MPI_Type_create_hvector(int n, int b, MPI_Aint stride, MPI_Datatype o, MPI_Datatype* nt)
{
    need("MPI_Type_create_hvector");
    if (n < 0 || b < 0) return MPI_ERR_ARG;
    std::vector<std::pair<long, long>> bl;
    for (long i = 0; i < n; i++) bl.push_back({i * stride, b});
    Type base = type(o, "MPI_Type_create_hvector");
    *nt       = add_type(build(bl, base));
    return MPI_SUCCESS;
}
int MPI_Type_vector(int n, int b, int stride, MPI_Datatype o, MPI_Datatype* nt)
{
    auto& t = type(o, "MPI_Type_vector");
    return MPI_Type_create_hvector(n, b, MPI_Aint(stride) * (t.ub - t.lb), o, nt);
}
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype* nt)
{
    auto& t = type(o, "MPI_Type_contiguous");
    return MPI_Type_create_hvector(1, n, n * (t.ub - t.lb), o, nt);
}
int MPI_Type_create_hindexed(int n, const int* b, const MPI_Aint* d, MPI_Datatype o, MPI_Datatype* nt)
{
    need("MPI_Type_create_hindexed");
    if (n < 0) return MPI_ERR_ARG;
    std::vector<std::pair<long, long>> bl;
    for (int i = 0; i < n; i++) {
        if (b[i] < 0) return MPI_ERR_ARG;
        bl.push_back({long(d[i]), b[i]});
    }
    Type base = type(o, "MPI_Type_create_hindexed");
    *nt       = add_type(build(bl, base));
    return MPI_SUCCESS;
}
int MPI_Type_create_hindexed_block(int n, int b, const MPI_Aint* d, MPI_Datatype o, MPI_Datatype* nt)
{
    std::vector<int> bl(size_t(std::max(n, 0)), b);
    return MPI_Type_create_hindexed(n, bl.data(), d, o, nt);
}
int MPI_Type_indexed(int n, const int* b, const int* d, MPI_Datatype o, MPI_Datatype* nt)
{
    auto& t = type(o, "MPI_Type_indexed");
    std::vector<MPI_Aint> dd;
    for (int i = 0; i < n; i++) dd.push_back(d[i] * (t.ub - t.lb));
    return MPI_Type_create_hindexed(n, b, dd.data(), o, nt);
}
int MPI_Type_create_indexed_block(int n, int b, const int* d, MPI_Datatype o, MPI_Datatype* nt)
{
    std::vector<int> bl(size_t(std::max(n, 0)), b);
    return MPI_Type_indexed(n, bl.data(), d, o, nt);
}
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint e, MPI_Datatype* nt)
{
    Type t       = type(o, "MPI_Type_create_resized");
    t.lb         = lb;
    t.ub         = lb + e;
    t.predefined = false;
    t.committed  = false;
    t.contiguous = t.segs.size() == 1 && t.segs[0].first == lb && t.segs[0].second == e;
    *nt          = add_type(t);
    return MPI_SUCCESS;
}
int MPI_Type_commit(MPI_Datatype* t)
{
    type(*t, "MPI_Type_commit").committed = true;
    return MPI_SUCCESS;
}
int MPI_Type_free(MPI_Datatype* t)
{
    auto& y = type(*t, "MPI_Type_free");
    if (y.predefined) usage("MPI_Type_free of a predefined type");
    y.freed = true;
    *t      = MPI_DATATYPE_NULL;
    return MPI_SUCCESS;
}

// ------------------------------------------------------------ info
int MPI_Info_create(MPI_Info* i)
{
    need("MPI_Info_create");
    W->infos.emplace_back();
    W->info_live.push_back(true);
    *i = int(W->infos.size()) - 1;
    return MPI_SUCCESS;
}
int MPI_Info_dup(MPI_Info a, MPI_Info* b)
{
    need("MPI_Info_dup");
    auto c = W->infos.at(size_t(a));
    W->infos.push_back(c);
    W->info_live.push_back(true);
    *b = int(W->infos.size()) - 1;
    return MPI_SUCCESS;
}
int MPI_Info_set(MPI_Info i, const char* k, const char* v)
{
    W->infos.at(size_t(i))[k] = v;
    return MPI_SUCCESS;
}
int MPI_Info_get(MPI_Info i, const char* k, int n, char* v, int* f)
{
    auto it = W->infos.at(size_t(i)).find(k);
    *f      = it != W->infos.at(size_t(i)).end();
    if (*f) snprintf(v, size_t(n) + 1, "%s", it->second.c_str());
    return MPI_SUCCESS;
}
int MPI_Info_free(MPI_Info* i)
{
    need("MPI_Info_free");
    if (*i <= 1) usage("MPI_Info_free: null info");
    if (!W->info_live.at(size_t(*i))) usage("MPI_Info_free: info freed twice");
    W->info_live[size_t(*i)] = false;
    *i = MPI_INFO_NULL;
    return MPI_SUCCESS;
}

// ------------------------------------------------------------ MPI-IO
static bool fault(const char* op, bool on, const std::string& file)
{
    W->res->io_calls++;
    if (!on) return false;
    if (!W->cfg->fault_file.empty() && W->cfg->fault_file != file) return false;
    if (choose(2, FAULT) == 0) return false;
    W->res->injected.push_back({op, file, W->cur, W->res->steps});
    return true;
}
static mc_file* file_of(MPI_File f, const char* op)
{
    need(op);
    if (f == MPI_FILE_NULL) return nullptr;
    for (auto& p : W->files)
        if (p.get() == f) {
            int me = f->cs.idx(W->cur);
            if (me < 0) usage(std::string(op) + ": file of another communicator");
            if (f->closed[size_t(me)]) usage(std::string(op) + ": closed file");
            return f;
        }
    usage(std::string(op) + ": invalid file handle");
}
int MPI_File_open(MPI_Comm c, const char* name, int amode, MPI_Info, MPI_File* out)
{
    auto& cm = comm_of(c, "MPI_File_open");
    std::string nm(name);
    auto k = collective(cm.cs, "MPI_File_open", "MPI_File_open(" + nm + ", mode " + S(amode) + ")", nullptr, 0, [&](Coll& k) {
        k.val = -MPI_ERR_NO_SUCH_FILE;
        if (fault("MPI_File_open", W->cfg->faults.open, nm)) {
            k.val = -MPI_ERR_IO;
            return;
        }
        auto it = fs().find(nm);
        if (nm.empty()) return;
        if (it == fs().end()) {
            if (!(amode & MPI_MODE_CREATE)) return;
            fs()[nm] = SparseFile();
        }
        else if ((amode & MPI_MODE_EXCL) && (amode & MPI_MODE_CREATE)) {
            k.val = -MPI_ERR_FILE;
            return;
        }
        W->files.push_back(std::make_unique<mc_file>());
        auto& f    = *W->files.back();
        f.name     = nm;
        f.amode    = amode;
        f.cs.members = cm.cs.members;
        f.cs.seq.assign(cm.cs.members.size(), 0);
        f.view.resize(cm.cs.members.size());
        f.closed.assign(cm.cs.members.size(), false);
        k.val = (long long)W->files.size() - 1;
        W->fsver = mix(W->fsver, hash_bytes(nm.data(), nm.size()));
    });
    if (k->val < 0) {
        *out = MPI_FILE_NULL;
        return int(-k->val);
    }
    *out = W->files[size_t(k->val)].get();
    return MPI_SUCCESS;
}
int MPI_File_close(MPI_File* h)
{
    auto f = file_of(*h, "MPI_File_close");
    if (!f) return MPI_ERR_FILE;
    collective(f->cs, "MPI_File_close", "MPI_File_close(" + f->name + ")", nullptr, 0, [&](Coll&) {
        if (f->amode & MPI_MODE_DELETE_ON_CLOSE) fs().erase(f->name);
    });
    bool bad = fault("MPI_File_close", W->cfg->faults.close, f->name);
    f->closed[size_t(f->cs.idx(W->cur))] = true;
    *h = MPI_FILE_NULL;
    return bad ? MPI_ERR_IO : MPI_SUCCESS;
}
int MPI_File_delete(const char* n, MPI_Info)
{
    need("MPI_File_delete");
    return fs().erase(n) ? MPI_SUCCESS : MPI_ERR_NO_SUCH_FILE;
}
int MPI_File_get_size(MPI_File h, MPI_Offset* s)
{
    auto f = file_of(h, "MPI_File_get_size");
    if (!f) return MPI_ERR_FILE;
    point("MPI_File_get_size");
    if (fault("MPI_File_get_size", W->cfg->faults.size, f->name)) return MPI_ERR_IO;
    *s = MPI_Offset(fs()[f->name].size);
    return MPI_SUCCESS;
}
static int set_size(MPI_File h, MPI_Offset s, const char* op, bool grow_only)
{
    auto f = file_of(h, op);
    if (!f) return MPI_ERR_FILE;
    if (s < 0) return MPI_ERR_ARG;
    if (f->amode & MPI_MODE_RDONLY) return MPI_ERR_READ_ONLY;
    collective(f->cs, op, std::string(op) + "(" + f->name + ", " + S(s) + ")", nullptr, 0, [&](Coll&) {
        auto& sf = fs()[f->name];
        if (!(grow_only && sf.size >= uint64_t(s))) sf.truncate(uint64_t(s));
        W->fsver = mix(W->fsver, uint64_t(s));
        if (W->cfg->log_writes) W->res->log.push_back({f->name, W->cur, true, uint64_t(s), {}});
    });
    return fault(op, W->cfg->faults.setsize, f->name) ? MPI_ERR_IO : MPI_SUCCESS;
}
int MPI_File_set_size(MPI_File h, MPI_Offset s) { return set_size(h, s, "MPI_File_set_size", false); }
int MPI_File_preallocate(MPI_File h, MPI_Offset s) { return set_size(h, s, "MPI_File_preallocate", true); }
int MPI_File_sync(MPI_File h)
{
    auto f = file_of(h, "MPI_File_sync");
    if (!f) return MPI_ERR_FILE;
    collective(f->cs, "MPI_File_sync", "MPI_File_sync(" + f->name + ")", nullptr, 0, [](Coll&) {});
    return MPI_SUCCESS;
}
int MPI_File_set_atomicity(MPI_File h, int a)
{
    auto f = file_of(h, "MPI_File_set_atomicity");
    if (!f) return MPI_ERR_FILE;
    collective(f->cs, "MPI_File_set_atomicity", "MPI_File_set_atomicity(" + S(a) + ")", nullptr, 0, [](Coll&) {});
    return MPI_SUCCESS;
}
int MPI_File_set_view(MPI_File h, MPI_Offset disp, MPI_Datatype et, MPI_Datatype ft, const char* rep, MPI_Info)
{
    auto f = file_of(h, "MPI_File_set_view");
    if (!f) return MPI_ERR_FILE;
    auto& e = type(et, "MPI_File_set_view");
    auto& t = type(ft, "MPI_File_set_view");
    if (!e.committed || !t.committed) usage("MPI_File_set_view: uncommitted datatype");
    if (disp < 0) usage("MPI_File_set_view: negative displacement " + S(disp));
    if (std::string(rep) != "native") usage("MPI_File_set_view: unsupported representation");
    long last = t.segs.empty() ? 0 : t.segs[0].first;
    for (auto& s : t.segs) {
        if (s.first < 0) usage("MPI_File_set_view: negative displacement in file type: " + S(s.first));
        if (s.first < last) usage("MPI_File_set_view: file type displacements decrease");
        last = s.first;
    }
    mc_fview v;
    v.disp  = disp;
    v.etype = et;
    v.ftype = ft;
    v.esize = e.size;
    v.plain = t.contiguous && t.lb == 0;
    v.segs  = t.segs;
    v.tsize = t.size;
    v.text  = t.ub;  // tiling from 0
    collective(f->cs, "MPI_File_set_view", "MPI_File_set_view(" + f->name + ", etype " + S(e.size) + ")", nullptr, 0, [](Coll&) {}, false);
    f->view[size_t(f->cs.idx(W->cur))] = v;
    return fault("MPI_File_set_view", W->cfg->faults.view, f->name) ? MPI_ERR_IO : MPI_SUCCESS;
}
int MPI_File_get_view(MPI_File h, MPI_Offset* d, MPI_Datatype* e, MPI_Datatype* t, char* rep)
{
    auto f = file_of(h, "MPI_File_get_view");
    if (!f) return MPI_ERR_FILE;
    auto& v = f->view[size_t(f->cs.idx(W->cur))];
    *d      = v.disp;
    *e      = v.etype;
    *t      = v.ftype;
    strcpy(rep, "native");
    return MPI_SUCCESS;
}
static void access_log(const std::string& file, bool wr, uint64_t off, uint64_t len, const void* d)
{
    if (!W->cfg->strict_races || len == 0) return;
    auto& me = W->vc[size_t(W->cur)];
    for (auto& a : W->accesses) {
        if (a.rank == W->cur || (!a.write && !wr) || a.file != file) continue;
        uint64_t lo = std::max(a.off, off), hi = std::min(a.off + a.len, off + len);
        if (lo >= hi) continue;
        // a happened before me?
        if (a.clock[size_t(a.rank)] <= me[size_t(a.rank)]) continue;
        if (a.write && wr) {
            if (memcmp(a.data.data() + (lo - a.off), static_cast<const char*>(d) + (lo - off), hi - lo) == 0) continue;
        }
        usage("unordered conflicting accesses to " + file + " bytes [" + S((long long)lo) + "," + S((long long)hi) + ") by ranks " + S(a.rank) + " and " + S(W->cur));
    }
    Access a;
    a.rank  = W->cur;
    a.write = wr;
    a.off   = off;
    a.len   = len;
    // ordered before another rank's view once that rank has joined a later
    // clock of ours
    a.clock = me;
    a.file  = file;
    if (wr) a.data.assign(static_cast<const unsigned char*>(d), static_cast<const unsigned char*>(d) + len);
    W->accesses.push_back(a);
    tick();
    W->accesses.back().clock[size_t(W->cur)] = W->vc[size_t(W->cur)][size_t(W->cur)];
}
// Map a stream range of the view on the file.
static void map_view(mc_fview& v, long long off, size_t n, std::vector<std::pair<uint64_t, size_t>>& out, const char* op)
{
    if (n == 0) return;
    if (v.plain) {
        out.push_back({uint64_t(v.disp + off), n});
        return;
    }
    if (v.tsize == 0) usage(std::string(op) + ": access through an empty file view");
    long long tile = off / v.tsize, in = off % v.tsize;
    while (n > 0) {
        for (auto& s : v.segs) {
            if (n == 0) break;
            if (in >= s.second) {
                in -= s.second;
                continue;
            }
            size_t k = size_t(std::min<long long>((long long)n, s.second - in));
            out.push_back({uint64_t(v.disp + tile * v.text + s.first + in), k});
            n -= k;
            in = 0;
        }
        tile++;
    }
}
static int io(MPI_File h, long long off, void* rb, const void* wb, int n, MPI_Datatype t, MPI_Status* st, bool all, bool wr, bool indiv, const char* op)
{
    auto f = file_of(h, op);
    if (!f) {
        set_status(st, 0, 0, 0, MPI_ERR_FILE);
        return MPI_ERR_FILE;
    }
    auto& ty = type(t, op);
    if (!ty.committed) usage(std::string(op) + ": uncommitted datatype");
    size_t sz = bytes_of(n, t, op);
    if (off < 0) usage(std::string(op) + ": negative offset " + S(off));
    bool denied = wr ? (f->amode & MPI_MODE_RDONLY) : (f->amode & MPI_MODE_WRONLY);
    if (all) collective(f->cs, op, std::string(op) + "(" + f->name + ")", nullptr, 0, [](Coll&) {}, false);
    else point(op);
    auto& v = f->view[size_t(f->cs.idx(W->cur))];
    if (indiv) off = v.pos;
    if (denied) {
        set_status(st, 0, 0, 0, MPI_ERR_READ_ONLY);
        return wr ? MPI_ERR_READ_ONLY : MPI_ERR_ACCESS;
    }
    if (fault(op, wr ? W->cfg->faults.write : W->cfg->faults.read, f->name)) {
        set_status(st, 0, 0, 0, MPI_ERR_IO);
        return MPI_ERR_IO;
    }
    std::vector<std::pair<uint64_t, size_t>> segs;
    map_view(v, off * v.esize, sz, segs, op);
    if (wr) {
        for (size_t i = 1; i < segs.size(); i++)
            if (segs[i].first < segs[i - 1].first + segs[i - 1].second) usage(std::string(op) + ": write through a file view with overlapping regions");
    }
    auto& sf = fs()[f->name];
    // pack / unpack memory side
    std::vector<unsigned char> tmp;
    auto rp = static_cast<unsigned char*>(rb);
    auto wp = static_cast<const unsigned char*>(wb);
    if (!ty.contiguous && sz) {
        tmp.resize(sz);
        if (wr) {
            size_t o = 0;
            for (long i = 0; i < n; i++)
                for (auto& s : ty.segs) {
                    memcpy(&tmp[o], wp + i * (ty.ub - ty.lb) + s.first, size_t(s.second));
                    o += size_t(s.second);
                }
            wp = tmp.data();
        }
        else rp = tmp.data();
    }
    size_t done = 0;
    for (auto& s : segs) {
        if (wr) {
            access_log(f->name, true, s.first, s.second, wp + done);
            sf.write(s.first, wp + done, s.second);
            W->fsver = mix(W->fsver, mix(s.first, hash_bytes(wp + done, s.second)));
            if (W->cfg->log_writes) W->res->log.push_back({f->name, W->cur, false, s.first, std::vector<unsigned char>(wp + done, wp + done + s.second)});
            done += s.second;
        }
        else {
            size_t k = s.first >= sf.size ? 0 : size_t(std::min<uint64_t>(s.second, sf.size - s.first));
            access_log(f->name, false, s.first, k, nullptr);
            sf.read(s.first, rp + done, k);
            done += k;
            if (k < s.second) break;
        }
    }
    if (!ty.contiguous && sz && !wr) {
        size_t o = 0;
        for (long i = 0; i < n && o < done; i++)
            for (auto& s : ty.segs) {
                memcpy(static_cast<unsigned char*>(rb) + i * (ty.ub - ty.lb) + s.first, &tmp[o], size_t(s.second));
                o += size_t(s.second);
            }
    }
    if (indiv) v.pos += (long long)(done / size_t(v.esize));
    set_status(st, 0, 0, done);
    return MPI_SUCCESS;
}
int MPI_File_read_at(MPI_File h, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* s) { return io(h, o, b, nullptr, n, t, s, false, false, false, "MPI_File_read_at"); }
int MPI_File_read_at_all(MPI_File h, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* s) { return io(h, o, b, nullptr, n, t, s, true, false, false, "MPI_File_read_at_all"); }
int MPI_File_write_at(MPI_File h, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s) { return io(h, o, nullptr, b, n, t, s, false, true, false, "MPI_File_write_at"); }
int MPI_File_write_at_all(MPI_File h, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s) { return io(h, o, nullptr, b, n, t, s, true, true, false, "MPI_File_write_at_all"); }
int MPI_File_read(MPI_File h, void* b, int n, MPI_Datatype t, MPI_Status* s) { return io(h, 0, b, nullptr, n, t, s, false, false, true, "MPI_File_read"); }
int MPI_File_read_all(MPI_File h, void* b, int n, MPI_Datatype t, MPI_Status* s) { return io(h, 0, b, nullptr, n, t, s, true, false, true, "MPI_File_read_all"); }
int MPI_File_write(MPI_File h, const void* b, int n, MPI_Datatype t, MPI_Status* s) { return io(h, 0, nullptr, b, n, t, s, false, true, true, "MPI_File_write"); }
int MPI_File_write_all(MPI_File h, const void* b, int n, MPI_Datatype t, MPI_Status* s) { return io(h, 0, nullptr, b, n, t, s, true, true, true, "MPI_File_write_all"); }
int MPI_File_seek(MPI_File h, MPI_Offset o, int wh)
{
    auto f = file_of(h, "MPI_File_seek");
    if (!f) return MPI_ERR_FILE;
    auto& v = f->view[size_t(f->cs.idx(W->cur))];
    if (wh == MPI_SEEK_SET) v.pos = o;
    else if (wh == MPI_SEEK_CUR) v.pos += o;
    else v.pos = (long long)fs()[f->name].size / v.esize + o;
    return MPI_SUCCESS;
}

// ------------------------------------------------------------ RMA
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void* p)
{
    *static_cast<void**>(p) = malloc(size_t(n));
    return MPI_SUCCESS;
}
int MPI_Free_mem(void* p)
{
    free(p);
    return MPI_SUCCESS;
}
static mc_win* win_of(MPI_Win w, const char* op)
{
    need(op);
    for (auto& p : W->wins)
        if (p.get() == w) {
            int me = w->cs.idx(W->cur);
            if (w->freed[size_t(me)]) usage(std::string(op) + ": freed window");
            return w;
        }
    usage(std::string(op) + ": invalid window");
}
static int make_win(void* base, MPI_Aint size, int unit, MPI_Comm c, void** out, MPI_Win* win, const char* op)
{
    auto& cm = comm_of(c, op);
    if (size < 0 || unit <= 0) usage(std::string(op) + ": bad size");
    void* owned = nullptr;
    if (out) {
        owned = malloc(size_t(size) ? size_t(size) : 1);
        memset(owned, 0xCD, size_t(size));
        base = owned;
        if (size == 0) {
            free(owned);
            owned = nullptr;
            base  = nullptr;
        }
    }
    struct {
        void* b;
        MPI_Aint s;
        int u;
        void* o;
    } in = {base, size, unit, owned};
    auto k = collective(cm.cs, op, op, &in, sizeof in, [&](Coll& k) {
        W->wins.push_back(std::make_unique<mc_win>());
        auto& w = *W->wins.back();
        w.cs.members = cm.cs.members;
        size_t n = cm.cs.members.size();
        w.cs.seq.assign(n, 0);
        for (size_t i = 0; i < n; i++) {
            decltype(in) v;
            memcpy(&v, k.in[i].data(), sizeof v);
            w.base.push_back(static_cast<unsigned char*>(v.b));
            w.size.push_back(size_t(v.s));
            w.unit.push_back(v.u);
            if (v.o) w.owned.push_back(v.o);
        }
        w.excl.assign(n, -1);
        w.shared.resize(n);
        w.nocheck.resize(n);
        w.mine.resize(n);
        w.fence.assign(n, false);
        w.freed.assign(n, false);
        k.val = (long long)W->wins.size() - 1;
    });
    *win = W->wins[size_t(k->val)].get();
    if (out) *out = base;
    return MPI_SUCCESS;
}
int MPI_Win_allocate(MPI_Aint size, int unit, MPI_Info, MPI_Comm c, void* base, MPI_Win* win) { return make_win(nullptr, size, unit, c, static_cast<void**>(base), win, "MPI_Win_allocate"); }
int MPI_Win_create(void* base, MPI_Aint size, int unit, MPI_Info, MPI_Comm c, MPI_Win* win) { return make_win(base, size, unit, c, nullptr, win, "MPI_Win_create"); }
static void apply(mc_win* w, int origin, int target)
{
    std::vector<mc_winop> rest;
    for (auto& o : w->ops) {
        if (o.origin != origin || (target >= 0 && o.target != target)) {
            rest.push_back(o);
            continue;
        }
        unsigned char* t = w->base[size_t(o.target)] + o.off;
        if (o.kind == 1) memcpy(o.gbuf, t, o.n);
        else {
            if (o.n && hash_bytes(o.obuf, o.n) != o.hash) usage("origin buffer of a pending RMA operation was modified before its completion");
            if (o.kind == 0) memcpy(t, o.obuf, o.n);
            else reduce(o.op, o.t, t, o.obuf, o.n / size_t(W->types[size_t(o.t)].size));
            W->fsver = mix(W->fsver, mix(o.off, hash_bytes(o.obuf, o.n)));
        }
    }
    w->ops.swap(rest);
}
int MPI_Win_free(MPI_Win* h)
{
    auto w = win_of(*h, "MPI_Win_free");
    int me = w->cs.idx(W->cur);
    if (!w->mine[size_t(me)].empty()) usage("MPI_Win_free inside a lock epoch");
    // MPI_Win_free has the semantics of a barrier
    collective(w->cs, "MPI_Win_free", "MPI_Win_free", nullptr, 0, [&](Coll&) {
        for (auto p : w->owned) free(p);
        w->owned.clear();
    });
    w->freed[size_t(me)] = true;
    *h                   = MPI_WIN_NULL;
    return MPI_SUCCESS;
}
int MPI_Win_fence(int, MPI_Win h)
{
    auto w = win_of(h, "MPI_Win_fence");
    int me = w->cs.idx(W->cur);
    apply(w, me, -1);
    collective(w->cs, "MPI_Win_fence", "MPI_Win_fence", nullptr, 0, [](Coll&) {});
    w->fence[size_t(me)] = true;
    return MPI_SUCCESS;
}
static void do_lock(mc_win* w, int type_, int t, int as, const char* op)
{
    int me = w->cs.idx(W->cur);
    if (t < 0 || size_t(t) >= w->base.size()) usage(std::string(op) + ": rank out of range");
    if (w->mine[size_t(me)].count(t)) usage(std::string(op) + ": already locked");
    size_t ti = size_t(t);
    auto conflict = [w, type_, ti]() {
        if (type_ == MPI_LOCK_EXCLUSIVE) return w->excl[ti] >= 0 || !w->shared[ti].empty();
        return w->excl[ti] >= 0;
    };
    if (conflict() && ((as & MPI_MODE_NOCHECK) || !w->nocheck[ti].empty()))
        usage(std::string(op) + ": conflicting lock on rank " + S(t) + " although MPI_MODE_NOCHECK asserts there is none");
    block([conflict]() { return !conflict(); });
    if (type_ == MPI_LOCK_EXCLUSIVE) w->excl[ti] = me;
    else w->shared[ti].insert(me);
    if (as & MPI_MODE_NOCHECK) w->nocheck[ti].insert(me);
    w->mine[size_t(me)][t] = type_;
}
int MPI_Win_lock(int ty, int t, int as, MPI_Win h)
{
    auto w = win_of(h, "MPI_Win_lock");
    point("MPI_Win_lock");
    do_lock(w, ty, t, as, "MPI_Win_lock");
    return MPI_SUCCESS;
}
static void do_unlock(mc_win* w, int t, const char* op)
{
    int me  = w->cs.idx(W->cur);
    auto it = w->mine[size_t(me)].find(t);
    if (it == w->mine[size_t(me)].end()) usage(std::string(op) + ": not locked");
    apply(w, me, t);
    if (it->second == MPI_LOCK_EXCLUSIVE) w->excl[size_t(t)] = -1;
    else w->shared[size_t(t)].erase(me);
    w->nocheck[size_t(t)].erase(me);
    w->mine[size_t(me)].erase(it);
}
int MPI_Win_unlock(int t, MPI_Win h)
{
    auto w = win_of(h, "MPI_Win_unlock");
    point("MPI_Win_unlock");
    do_unlock(w, t, "MPI_Win_unlock");
    return MPI_SUCCESS;
}
int MPI_Win_lock_all(int as, MPI_Win h)
{
    auto w = win_of(h, "MPI_Win_lock_all");
    point("MPI_Win_lock_all");
    for (size_t t = 0; t < w->base.size(); t++) do_lock(w, MPI_LOCK_SHARED, int(t), as, "MPI_Win_lock_all");
    return MPI_SUCCESS;
}
int MPI_Win_unlock_all(MPI_Win h)
{
    auto w = win_of(h, "MPI_Win_unlock_all");
    point("MPI_Win_unlock_all");
    for (size_t t = 0; t < w->base.size(); t++) do_unlock(w, int(t), "MPI_Win_unlock_all");
    return MPI_SUCCESS;
}
int MPI_Win_flush(int t, MPI_Win h)
{
    auto w = win_of(h, "MPI_Win_flush");
    point("MPI_Win_flush");
    apply(w, w->cs.idx(W->cur), t);
    return MPI_SUCCESS;
}
int MPI_Win_flush_all(MPI_Win h) { return MPI_Win_flush(-1, h); }
int MPI_Win_flush_local(int t, MPI_Win h) { return MPI_Win_flush(t, h); }
int MPI_Win_sync(MPI_Win h)
{
    win_of(h, "MPI_Win_sync");
    return MPI_SUCCESS;
}
static int rma(int kind, const void* ob, void* gb, int n, MPI_Datatype t, int tgt, MPI_Aint disp, int tn, MPI_Datatype tt, MPI_Op op, MPI_Win h, const char* name)
{
    auto w    = win_of(h, name);
    size_t sz = bytes_of(n, t, name);
    if (sz != bytes_of(tn, tt, name)) usage(std::string(name) + ": origin and target sizes differ");
    point(name);
    if (tgt == MPI_PROC_NULL || sz == 0) return MPI_SUCCESS;
    int me = w->cs.idx(W->cur);
    if (tgt < 0 || size_t(tgt) >= w->base.size()) usage(std::string(name) + ": target rank out of range");
    if (!w->mine[size_t(me)].count(tgt) && !w->fence[size_t(me)]) usage(std::string(name) + ": outside of an access epoch");
    long long off = (long long)disp * w->unit[size_t(tgt)];
    if (disp < 0 || size_t(off) + sz > w->size[size_t(tgt)])
        usage(std::string(name) + ": bytes [" + S(off) + "," + S(off + (long long)sz) + ") outside the window of " + S((long long)w->size[size_t(tgt)]) + " bytes on rank " + S(tgt));
    mc_winop o;
    o.origin = me;
    o.target = tgt;
    o.kind   = kind;
    o.obuf   = static_cast<const unsigned char*>(ob);
    o.gbuf   = static_cast<unsigned char*>(gb);
    o.off    = size_t(off);
    o.n      = sz;
    o.op     = op;
    o.t      = t;
    o.hash   = ob ? hash_bytes(ob, sz) : 0;
    if (kind == 1 && W->cfg->poison) memset(gb, 0xA5, sz);
    w->ops.push_back(o);
    return MPI_SUCCESS;
}
int MPI_Put(const void* b, int n, MPI_Datatype t, int tgt, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Win w) { return rma(0, b, nullptr, n, t, tgt, d, tn, tt, MPI_REPLACE, w, "MPI_Put"); }
int MPI_Get(void* b, int n, MPI_Datatype t, int tgt, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Win w) { return rma(1, nullptr, b, n, t, tgt, d, tn, tt, MPI_REPLACE, w, "MPI_Get"); }
int MPI_Accumulate(const void* b, int n, MPI_Datatype t, int tgt, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Op op, MPI_Win w) { return rma(2, b, nullptr, n, t, tgt, d, tn, tt, op, w, "MPI_Accumulate"); }
int MPI_Get_address(const void* p, MPI_Aint* a)
{
    *a = reinterpret_cast<MPI_Aint>(p);
    return MPI_SUCCESS;
}

// ------------------------------------------------------------ libc seams
// glob over the in-memory file system when called from a rank.
int __real_glob(const char*, int, int (*)(const char*, int), glob_t*);
void __real_globfree(glob_t*);
int __wrap_glob(const char* p, int fl, int (*e)(const char*, int), glob_t* g)
{
    if (!in_rank()) return __real_glob(p, fl, e, g);
    std::vector<std::string> m;
    for (auto& f : fs())
        if (fnmatch(p, f.first.c_str(), FNM_PATHNAME) == 0) m.push_back(f.first);
    memset(g, 0, sizeof *g);
    if (m.empty()) return GLOB_NOMATCH;
    g->gl_pathc = m.size();
    g->gl_pathv = static_cast<char**>(calloc(m.size() + 1, sizeof(char*)));
    for (size_t i = 0; i < m.size(); i++) g->gl_pathv[i] = strdup(m[i].c_str());
    return 0;
}
void __wrap_globfree(glob_t* g)
{
    if (!in_rank()) return __real_globfree(g);
    for (size_t i = 0; i < g->gl_pathc; i++) free(g->gl_pathv[i]);
    free(g->gl_pathv);
    g->gl_pathv = nullptr;
    g->gl_pathc = 0;
}
// getopt keeps its state in globals, one set per process: restart it when a
// rank begins its own option loop.
int __real_getopt(int, char* const*, const char*);
int __wrap_getopt(int c, char* const* v, const char* o)
{
    if (in_rank() && !W->ranks[size_t(W->cur)].getopt_started) {
        W->ranks[size_t(W->cur)].getopt_started = true;
        optind                                  = 0;
        opterr                                  = 0;
    }
    return __real_getopt(c, v, o);
}
}  // extern "C"
