// C34: every history of a program that initialises and finalises MPI, tells the
// library who manages it, makes and releases instances and ends: MPI is
// initialised once, is live whenever it is used, and is finalised once by
// whoever is responsible for it. Each history is a process of its own, with
// calls of MPI recorded in shared memory.
#include "common.hh"
#include "ExSeisDat/PIOL/CommunicatorMPI.hh"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace cm;

struct Shared {
    int n;
    bool init, fin, user;
    char ev[64];
};
static Shared* sh = nullptr;
static void event(char e)
{
    if (sh->n < 63) sh->ev[sh->n++] = e;
}
static bool used() // a call which needs MPI
{
    if (!sh) return false;
    if (!sh->init || sh->fin) event('!');
    return true;
}
extern "C" {
int __real_MPI_Init(int*, char***);
int __real_MPI_Init_thread(int*, char***, int, int*);
int __real_MPI_Initialized(int*);
int __real_MPI_Finalized(int*);
int __real_MPI_Finalize(void);
int __real_MPI_Comm_rank(MPI_Comm, int*);
int __real_MPI_Comm_size(MPI_Comm, int*);
int __real_MPI_Barrier(MPI_Comm);
int __wrap_MPI_Init(int* a, char*** b)
{
    if (!sh) return __real_MPI_Init(a, b);
    event(sh->init ? '!' : sh->user ? 'I' : 'i');
    sh->init = true;
    return MPI_SUCCESS;
}
int __wrap_MPI_Init_thread(int* a, char*** b, int r, int* p)
{
    if (!sh) return __real_MPI_Init_thread(a, b, r, p);
    if (p) *p = r;
    return __wrap_MPI_Init(a, b);
}
int __wrap_MPI_Finalize(void)
{
    if (!sh) return __real_MPI_Finalize();
    event(!sh->init || sh->fin ? '!' : sh->user ? 'F' : 'f');
    sh->fin = true;
    return MPI_SUCCESS;
}
int __wrap_MPI_Initialized(int* f)
{
    if (!sh) return __real_MPI_Initialized(f);
    *f = sh->init;
    return MPI_SUCCESS;
}
int __wrap_MPI_Finalized(int* f)
{
    if (!sh) return __real_MPI_Finalized(f);
    *f = sh->fin;
    return MPI_SUCCESS;
}
int __wrap_MPI_Comm_rank(MPI_Comm c, int* r)
{
    if (!used()) return __real_MPI_Comm_rank(c, r);
    *r = 0;
    return MPI_SUCCESS;
}
int __wrap_MPI_Comm_size(MPI_Comm c, int* r)
{
    if (!used()) return __real_MPI_Comm_size(c, r);
    *r = 1;
    return MPI_SUCCESS;
}
int __wrap_MPI_Barrier(MPI_Comm c)
{
    if (!used()) return __real_MPI_Barrier(c);
    event('b');
    return MPI_SUCCESS;
}
}

// what the program does
enum Op { INIT, FINALIZE, MANAGE, LEAVE, NEW, STATIC, OTHER, DROP, BARRIER, END, NOP };
static const char* opname[] = {"MPI_Init", "MPI_Finalize", "manageMPI(true)", "manageMPI(false)", "New", "a static instance", "a communicator", "release", "barrier", "the end"};
// what is expected of MPI at each step
struct Model {
    bool init = false, fin = false, mgr = false, stat = false;
    int flag = 0; // 0 not set, 1 the library manages MPI, 2 it does not
    int live = 0;
    std::string ev;
    bool usable() const { return !fin && (init || (flag != 2 && !mgr)); }
    bool valid(Op o) const
    {
        switch (o) {
            case INIT: return !init && !fin;
            case FINALIZE: return init && !fin;
            case NEW:
            case OTHER: return usable() && live < 2;
            case STATIC: return usable() && !stat;
            case DROP: return live > 0;
            case BARRIER: return live > 0 && init && !fin;
            default: return true;
        }
    }
    void step(Op o)
    {
        switch (o) {
            case INIT:
                init = true;
                ev += 'I';
                break;
            case FINALIZE:
                fin = true;
                ev += 'F';
                break;
            case MANAGE: flag = 1; break;
            case LEAVE: flag = 2; break;
            case NEW:
            case STATIC:
            case OTHER:
                if (!mgr && flag != 2) {
                    bool was = init;
                    if (!init) {
                        init = true;
                        ev += 'i';
                    }
                    if (!flag) flag = was ? 2 : 1;
                }
                mgr = true;
                if (o == NEW) live++;
                if (o == STATIC) stat = true;
                break;
            case DROP: live--; break;
            case BARRIER: ev += 'b'; break;
            default: break;
        }
    }
    void end()
    {
        ev += 'E';
        // the library finalises what it manages
        if (mgr && flag == 1 && init && !fin) ev += 'f';
    }
};
static void in_program(const std::vector<Op>& ops, int code, bool drop)
{
    std::vector<std::shared_ptr<ExSeis>> live;
    for (Op o : ops) {
        sh->user = true;
        if (o == INIT) MPI_Init(nullptr, nullptr);
        if (o == FINALIZE) MPI_Finalize();
        sh->user = false;
        if (o == MANAGE || o == LEAVE) manageMPI(o == MANAGE);
        if (o == NEW) live.push_back(ExSeis::New());
        if (o == OTHER) {
            Logger log(PIOL_VERBOSITY_NONE);
            CommunicatorMPI comm(&log, CommunicatorMPI::Opt());
            if (comm.getNumRank() != 1 || comm.getRank() != 0) event('?');
        }
        if (o == STATIC) {
            static auto piol = ExSeis::New();
            if (piol->getNumRank() != 1) event('?');
        }
        if (o == DROP) live.pop_back();
        if (o == BARRIER) live.back()->barrier();
    }
    if (drop) live.clear();
    event('E');
    if (drop) return;
    exit(code);
}
static std::string told(const std::string& s)
{
    std::string r;
    for (char ch : s) r += ch == 'I' ? " the program initialises MPI," : ch == 'i' ? " the library initialises MPI," : ch == 'F' ? " the program finalises MPI," : ch == 'f' ? " the library finalises MPI," : ch == 'b' ? " a barrier," : ch == 'E' ? " the program ends," : ch == '!' ? " MPI is used while it is not available or initialised or finalised twice," : " another number of processes,";
    return r;
}
SCENARIO(histories)
{
    int depth = c.thorough() ? 7 : 5;
    Model m;
    std::vector<Op> ops;
    for (int i = 0; i < depth; i++) {
        std::vector<Op> can{END};
        for (int o = INIT; o < END; o++)
            if (m.valid(Op(o)) && !(o == OTHER && i && ops.back() == OTHER)) can.push_back(Op(o));
        Op o = c.of(can, "step");
        if (o == END) break;
        m.step(o);
        ops.push_back(o);
    }
    int how = c.pick(3, "end");
    if (!c.go()) return;
    m.end();
    int code = how == 2 ? 3 : 0;
    uint64_t h = size_t(how);
    for (Op o : ops) h = mc::mix(h, size_t(o) + 1);
    c.state(h);
    void* p = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) return c.capped("no shared memory");
    auto* s = static_cast<Shared*>(p);
    memset(p, 0, sizeof *s);
    fflush(nullptr);
    pid_t k = fork();
    if (k < 0) return c.capped("no process");
    if (k == 0) {
        sh = s;
        in_program(ops, code, how == 0);
        exit(code);
    }
    int st = 0;
    waitpid(k, &st, 0);
    c.executed();
    c.transitions(ops.size() + 1);
    std::string got(s->ev, size_t(s->n)), e;
    munmap(p, 4096);
    c.outcome(mc::hash_bytes(got.data(), got.size()));
    if (!WIFEXITED(st)) e = "the process ends with signal " + S(WTERMSIG(st)) + " after:" + told(got);
    else if (WEXITSTATUS(st) != code) e = "the process returns " + S(WEXITSTATUS(st)) + " after:" + told(got);
    else if (got != m.ev) e = "happens:" + told(got) + " expected:" + told(m.ev);
    std::string w = "program of";
    for (Op o : ops) w += std::string(" ") + opname[o] + ",";
    w += how == 0 ? " return from main: " : how == 1 ? " exit: " : " exit with 3: ";
    if (!e.empty()) c.fail("lifetime", w + e);
}
