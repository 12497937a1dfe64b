// C17: the distributed vector against a plain array, for every size, process
// count and small program of accesses under all bounded schedules.
#include "common.hh"
#include "ExSeisDat/utils/mpi/MPI_Distributed_vector.hh"
using namespace cm;
using exseis::utils::MPI_Distributed_vector;
struct Rec {
    size_t a;
    long long b, c;
};
struct Odd {
    char x[13];
};
template<class T>
static T mk(uint64_t seed)
{
    T t;
    memset(&t, 0, sizeof t);
    for (size_t k = 0; k < sizeof t; k++) reinterpret_cast<uc*>(&t)[k] = uc(mc::mix(seed, k) >> 11);
    return t;
}
template<class T>
static bool same(const T& a, const T& b)
{
    return memcmp(&a, &b, sizeof(T)) == 0;
}
// Every size and process count; several ways to say who sets what.
template<class T>
static void layout(mc::Case& c, size_t n, int nr, int how)
{
    mc::Config cfg;
    cfg.nranks = nr;
    std::vector<std::string> err(static_cast<size_t>(nr));
    mc::Result r = mc::run_case(c, cfg, [&](int rank) {
        MPI_Distributed_vector<T> v(n, MPI_COMM_WORLD);
        if (v.size() != n) err[size_t(rank)] = "size() is " + S(v.size());
        for (int round = 0; round < 2; round++) {
            for (size_t i = 0; i < n; i++) {
                int by = how == 0 ? int(i % size_t(nr)) : how == 1 ? 0 : how == 2 ? nr - 1 : how == 3 ? int((n - 1 - i) * size_t(nr) / n) : int(i * size_t(nr) / n);
                if ((by + round) % nr == rank) v.set(i, mk<T>(size_t(round) * 1000 + i));
            }
            MPI_Barrier(MPI_COMM_WORLD);
            for (size_t k = 0; k < n; k++) {
                size_t i = rank % 2 ? n - 1 - k : k;
                if (!same(v.get(i), mk<T>(size_t(round) * 1000 + i)) && err[size_t(rank)].empty()) err[size_t(rank)] = "element " + S(i) + " read by process " + S(rank) + " is not the one set";
                if (!same(v[i], v.get(i)) && err[size_t(rank)].empty()) err[size_t(rank)] = "operator[] differs from get";
            }
            MPI_Barrier(MPI_COMM_WORLD);
        }
        // moving keeps the contents
        exseis::utils::Distributed_vector<T> w(std::move(v));
        if (w.size() != n) err[size_t(rank)] = "size changed by a move";
        for (size_t i = 0; i < n; i++)
            if (!same(w.get(i), mk<T>(1000 + i)) && err[size_t(rank)].empty()) err[size_t(rank)] = "a move changed element " + S(i);
        MPI_Barrier(MPI_COMM_WORLD);
    });
    c.state(mc::mix(n * 8 + size_t(nr), size_t(how) * 64 + sizeof(T)));
    c.outcome(mc::mix(n, size_t(nr)));
    if (r.status != mc::Status::Done) return;
    for (auto& e : err)
        if (!e.empty()) c.fail("layout", S(n) + " elements of " + S(sizeof(T)) + " bytes on " + S(nr) + " processes: " + e);
}
SCENARIO(layouts)
{
    int n  = c.range(0, c.thorough() ? 32 : 14, "elements");
    int nr = c.range(1, 5, "ranks"), how = c.pick(5, "setters"), ty = c.pick(5, "type");
    if (!c.go()) return;
    switch (ty) {
        case 0: layout<char>(c, size_t(n), nr, how); break;
        case 1: layout<int>(c, size_t(n), nr, how); break;
        case 2: layout<double>(c, size_t(n), nr, how); break;
        case 3: layout<Rec>(c, size_t(n), nr, how); break;
        default: layout<Odd>(c, size_t(n), nr, how);
    }
}
SCENARIO(long_vectors)
{
    int nr = c.of<int>({1, 2, 3, 4, 8, 9, 16}, "ranks");
    int n = nr <= 2 ? c.of<int>({100, 255, 256, 257, 1000, 1021, 4099}, "elements") : nr <= 4 ? c.of<int>({100, 255, 256, 257, 1000, 1021}, "elements") : c.of<int>({100, 128, 255, 256, 257}, "elements");
    int how = c.pick(5, "setters");
    if (!c.go()) return;
    layout<Rec>(c, size_t(n), nr, how);
}
// Vectors over parts of the processes, in every order: each group of processes
// has a vector of its own, at the same time.
SCENARIO(groups)
{
    int nr = c.range(2, c.thorough() ? 5 : 4, "ranks"), n = c.range(1, c.thorough() ? 9 : 6, "elements"), key = c.pick(3, "order"), mask = c.pick(1 << (nr - 1), "groups");
    if (!c.go()) return;
    mc::Config cfg;
    cfg.nranks = nr;
    std::vector<std::string> err(static_cast<size_t>(nr));
    mc::Result r = mc::run_case(c, cfg, [&](int rank) {
        int col = rank ? (mask >> (rank - 1)) & 1 : 0, k = key == 0 ? rank : key == 1 ? nr - rank : (rank + 1) % nr, me, sz;
        MPI_Comm g;
        MPI_Comm_split(MPI_COMM_WORLD, col, k, &g);
        MPI_Comm_rank(g, &me);
        MPI_Comm_size(g, &sz);
        auto& e = err[size_t(rank)];
        {
            MPI_Distributed_vector<Rec> v(size_t(n + col), g);
            if (v.size() != size_t(n + col)) e = "size() is " + S(v.size());
            for (int round = 0; round < 3; round++) {
                for (int i = 0; i < n + col; i++)
                    if ((i * (round + 1) + round) % sz == me) v.set(size_t(i), mk<Rec>(size_t(round * 1000 + col * 100 + i)));
                MPI_Barrier(g);
                for (int i = 0; i < n + col; i++)
                    if (!same(v.get(size_t(i)), mk<Rec>(size_t(round * 1000 + col * 100 + i))) && e.empty()) e = "element " + S(i) + " read by process " + S(rank) + ", number " + S(me) + " of its group, is not the one set";
                MPI_Barrier(g);
            }
        }
        MPI_Comm_free(&g);
    });
    c.state(mc::mix(size_t(n * 8 + nr), size_t(mask * 4 + key)));
    c.outcome(size_t(mask));
    if (r.status != mc::Status::Done) return;
    for (auto& e : err)
        if (!e.empty()) return c.fail("groups", S(n) + " elements on groups " + S(mask) + " of " + S(nr) + " processes: " + e);
}
// Indices past the end read as an empty element and set nothing.
SCENARIO(past_the_end)
{
    int n = c.range(0, 6, "elements"), nr = c.range(1, 4, "ranks"), d = c.pick(4, "distance");
    if (!c.go()) return;
    static const size_t dist[4] = {0, 1, 5, size_t(1) << 40};
    size_t i                    = size_t(n) + dist[d];
    mc::Config cfg;
    cfg.nranks = nr;
    std::string err;
    mc::Result r = mc::run_case(c, cfg, [&](int rank) {
        MPI_Distributed_vector<Rec> v(size_t(n), MPI_COMM_WORLD);
        for (size_t k = 0; k < size_t(n); k++)
            if (int(k) % nr == rank) v.set(k, mk<Rec>(k));
        MPI_Barrier(MPI_COMM_WORLD);
        v.set(i, mk<Rec>(99));
        Rec z = v.get(i);
        if (z.a || z.b || z.c) err = "reading index " + S(i) + " of " + S(n) + " does not give an empty element";
        MPI_Barrier(MPI_COMM_WORLD);
        for (size_t k = 0; k < size_t(n); k++)
            if (!same(v.get(k), mk<Rec>(k))) err = "setting index " + S(i) + " of " + S(n) + " changed element " + S(k);
        MPI_Barrier(MPI_COMM_WORLD);
    });
    c.state(mc::mix(i, size_t(n * 8 + nr)));
    c.outcome(size_t(d));
    if (!err.empty()) c.fail("past", err);
}
// Every program of up to two accesses per process where no element is touched
// by one process while another sets it; all schedules up to the bound.
static void program(mc::Case& c, int nr, int n, int len, int bound)
{
    // an access: 0..n-1 set element, n..2n-1 get element, 2n nothing
    std::vector<std::vector<int>> pr(static_cast<size_t>(nr));
    for (int r = 0; r < nr; r++)
        for (int k = 0; k < len; k++) pr[size_t(r)].push_back(c.pick(2 * n + (k ? 1 : 0), "access"));
    if (!c.go()) return;
    // who sets and who reads each element
    bool sensible = true;
    for (int e = 0; e < n && sensible; e++) {
        unsigned setters = 0, users = 0;
        for (int r = 0; r < nr; r++)
            for (int a : pr[size_t(r)]) {
                if (a == e) setters |= 1u << r;
                if (a < 2 * n && a % n == e) users |= 1u << r;
            }
        if (setters && __builtin_popcount(users) > 1) sensible = false;
    }
    if (!sensible) {
        c.outcome(0);
        return;
    }
    std::vector<Rec> fin(static_cast<size_t>(n));
    for (int e = 0; e < n; e++) fin[size_t(e)] = mk<Rec>(size_t(e));
    for (int r = 0; r < nr; r++)
        for (int k = 0; k < len; k++)
            if (pr[size_t(r)][size_t(k)] < n) fin[size_t(pr[size_t(r)][size_t(k)])] = mk<Rec>(size_t(100 + r * 10 + k));
    mc::Config cfg;
    cfg.nranks           = nr;
    cfg.explore_sched    = true;
    cfg.bound[mc::SCHED] = bound;
    std::string err;
    mc::explore_case(
      c, cfg, [&]() { err.clear(); },
      [&](int rank) {
          MPI_Distributed_vector<Rec> v(size_t(n), MPI_COMM_WORLD);
          if (rank == 0)
              for (size_t e = 0; e < size_t(n); e++) v.set(e, mk<Rec>(e));
          MPI_Barrier(MPI_COMM_WORLD);
          std::vector<Rec> mine;
          for (size_t e = 0; e < size_t(n); e++) mine.push_back(mk<Rec>(e));
          for (int k = 0; k < len; k++) {
              int a = pr[size_t(rank)][size_t(k)];
              if (a < n) {
                  mine[size_t(a)] = mk<Rec>(size_t(100 + rank * 10 + k));
                  v.set(size_t(a), mine[size_t(a)]);
              }
              else if (a < 2 * n) {
                  if (!same(v.get(size_t(a - n)), mine[size_t(a - n)])) err = "process " + S(rank) + " read a wrong element " + S(a - n);
              }
          }
          MPI_Barrier(MPI_COMM_WORLD);
          for (size_t e = 0; e < size_t(n); e++)
              if (!same(v.get(e), fin[e]) && err.empty()) err = "process " + S(rank) + " finds a wrong element " + S(e) + " afterwards";
          MPI_Barrier(MPI_COMM_WORLD);
      },
      [&](const mc::Result& r) {
          if (r.status != mc::Status::Done) c.fail("run", std::string(mc::status_name(r.status)) + ": " + r.msg);
          else if (!err.empty()) c.fail("program", err);
      });
    c.state(mc::hash_bytes(fin.data(), fin.size() * sizeof(Rec)));
    c.outcome(mc::hash_bytes(fin.data(), fin.size() * sizeof(Rec)));
}
SCENARIO(programs2) { program(c, 2, c.range(2, 3, "elements"), 2, c.thorough() ? 3 : 2); }
SCENARIO(programs3) { program(c, 3, c.range(4, c.thorough() ? 6 : 4, "elements"), 1, 2); }
SCENARIO_THOROUGH(programs3_long) { program(c, 3, 4, 2, 1); }
