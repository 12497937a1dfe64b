// See mc.hpp. Scheduler, choice points, exploration, in-memory files.
#include "mc.hpp"
#include "mc_internal.hpp"

#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <exception>
#include <sys/mman.h>
#include <typeinfo>
#include <unordered_set>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#define MC_ASAN 1
#endif

namespace mc {

// ------------------------------------------------------------------ files
uint64_t hash_bytes(const void* d, size_t n, uint64_t h)
{
    auto p = static_cast<const unsigned char*>(d);
    while (n >= 8) {
        uint64_t w;
        memcpy(&w, p, 8);
        h = mix(h, w);
        p += 8;
        n -= 8;
    }
    uint64_t w = 0;
    memcpy(&w, p, n);
    return mix(h, w + n);
}

void SparseFile::read(uint64_t off, void* d, size_t n) const
{
    auto o = static_cast<unsigned char*>(d);
    while (n > 0) {
        uint64_t pg = off / PS, in = off % PS;
        size_t k = size_t(std::min<uint64_t>(n, PS - in));
        auto it  = pages.find(pg);
        if (it == pages.end()) memset(o, 0, k);
        else memcpy(o, it->second.data() + in, k);
        o += k;
        off += k;
        n -= k;
    }
}

void SparseFile::write(uint64_t off, const void* d, size_t n)
{
    auto p = static_cast<const unsigned char*>(d);
    if (n > 0 && off + n > size) size = off + n;
    while (n > 0) {
        uint64_t pg = off / PS, in = off % PS;
        size_t k = size_t(std::min<uint64_t>(n, PS - in));
        auto& v  = pages[pg];
        if (v.empty()) v.assign(PS, 0);
        memcpy(v.data() + in, p, k);
        p += k;
        off += k;
        n -= k;
    }
}

void SparseFile::truncate(uint64_t sz)
{
    if (sz < size) {
        uint64_t pg = sz / PS, in = sz % PS;
        pages.erase(pages.upper_bound(pg), pages.end());
        auto it = pages.find(pg);
        if (it != pages.end()) {
            if (in == 0) pages.erase(it);
            else memset(it->second.data() + in, 0, PS - in);
        }
    }
    size = sz;
}

static bool zero_page(const std::vector<unsigned char>& v)
{
    for (auto c : v)
        if (c) return false;
    return true;
}

uint64_t SparseFile::hash() const
{
    uint64_t h = mix(1234567, size);
    for (auto& p : pages)
        if (!zero_page(p.second)) h = mix(h, mix(p.first, hash_bytes(p.second.data(), PS)));
    return h;
}

std::string SparseFile::str() const
{
    std::string s(size_t(size), '\0');
    if (size) read(0, &s[0], size_t(size));
    return s;
}

bool SparseFile::operator==(const SparseFile& o) const
{
    if (size != o.size) return false;
    auto covers = [](const SparseFile& a, const SparseFile& b) {
        for (auto& p : a.pages) {
            auto it = b.pages.find(p.first);
            if (it == b.pages.end()) {
                if (!zero_page(p.second)) return false;
            }
            else if (it->second != p.second) return false;
        }
        return true;
    };
    return covers(*this, o) && covers(o, *this);
}

FS& fs()
{
    static FS f;
    return f;
}

SparseFile file_from(const std::string& b)
{
    SparseFile f;
    f.write(0, b.data(), b.size());
    return f;
}

const char* status_name(Status s)
{
    switch (s) {
        case Status::Done: return "done";
        case Status::Deadlock: return "deadlock";
        case Status::Usage: return "mpi-usage-error";
        case Status::Exited: return "exited";
        case Status::Exception: return "exception";
        case Status::Horizon: return "horizon";
    }
    return "?";
}

// ------------------------------------------------------------------ fibers
World* W = nullptr;

extern "C" void mc_switch(void** save_sp, void* new_sp);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch,.-mc_switch
)");

static const size_t STACK = 1 << 20;
static std::vector<char*> stack_pool;
static void* main_sp;
static void* main_fake;
static const void* main_bottom;
static size_t main_size;
struct EH {
    void* a;
    unsigned b;
};
extern "C" void* __cxa_get_globals_raw() __asm__("__cxa_get_globals");

static char* new_stack()
{
    if (!stack_pool.empty()) {
        char* s = stack_pool.back();
        stack_pool.pop_back();
#ifdef MC_ASAN
        __asan_unpoison_memory_region(s, STACK);
#endif
        return s;
    }
    char* s = static_cast<char*>(mmap(
      nullptr, STACK + 4096, PROT_READ | PROT_WRITE,
      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (s == MAP_FAILED) {
        perror("mmap");
        die_now(99);
    }
    mprotect(s, 4096, PROT_NONE);
    return s + 4096;
}

// Called in a fiber: go back to the scheduler.
static void to_main(Rank& r, bool dying)
{
    auto* g = static_cast<EH*>(__cxa_get_globals_raw());
    r.eh[0] = g->a;
    r.eh[1] = reinterpret_cast<void*>(size_t(g->b));
#ifdef MC_ASAN
    __sanitizer_start_switch_fiber(dying ? nullptr : &r.fake, main_bottom, main_size);
#endif
    mc_switch(&r.sp, main_sp);
#ifdef MC_ASAN
    __sanitizer_finish_switch_fiber(r.fake, &main_bottom, &main_size);
#endif
    g->a = r.eh[0];
    g->b = unsigned(size_t(r.eh[1]));
    (void)dying;
}

static void to_rank(int i)
{
    Rank& r = W->ranks[size_t(i)];
    auto* g = static_cast<EH*>(__cxa_get_globals_raw());
    EH save = *g;
    if (!r.started) {
        g->a = nullptr;
        g->b = 0;
    }
    W->cur = i;
#ifdef MC_ASAN
    __sanitizer_start_switch_fiber(&main_fake, r.stack, STACK);
#endif
    mc_switch(&main_sp, r.sp);
#ifdef MC_ASAN
    __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
#endif
    W->cur = -1;
    *g     = save;
}

static void fiber_main()
{
#ifdef MC_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
#endif
    Rank& r   = W->ranks[size_t(W->cur)];
    r.started = true;
    try {
        (*W->body)(W->cur);
        r.done = true;
    }
    catch (std::exception& e) {
        end_run(Status::Exception, std::string("rank ") + std::to_string(W->cur) + ": " + typeid(e).name() + ": " + e.what());
    }
    catch (...) {
        end_run(Status::Exception, "unknown exception");
    }
    r.done = true;
    to_main(r, true);
    abort();
}

bool in_rank()
{
    return W != nullptr && W->cur >= 0;
}
int my_rank()
{
    return W ? W->cur : -1;
}

void end_run(Status s, const std::string& msg)
{
    if (!W->ended) {
        W->ended    = true;
        W->res->status = s;
        W->res->msg = msg;
        W->res->exit_rank = W->cur;
    }
    to_main(W->ranks[size_t(W->cur)], false);
    abort();  // never resumed
}

void usage(const std::string& msg)
{
    end_run(Status::Usage, "rank " + std::to_string(W->cur) + ": " + msg);
}

int choose(int n, Kind k)
{
    if (n <= 1) return 0;
    if (!W) return 0;
    auto& t = W->res->trace;
    int c   = 0;
    if (t.size() < W->prefix->size()) {
        c = (*W->prefix)[t.size()];
        if (c < 0 || c >= n) {
            fprintf(stderr, "mc: replay divergence at point %zu (choice %d of %d)\n", t.size(), c, n);
            die_now(97);
        }
    }
    t.push_back({n, c, k});
    return c;
}

static bool enabled(Rank& r)
{
    if (r.done) return false;
    if (r.pred) {
        if (!r.pred()) return false;
    }
    return true;
}

static constexpr size_t max_states = 6000000;
static void note_state()
{
    // after a failure, or with enough states, only the failures matter
    if (!W->states || states_off || W->states->size() >= max_states) return;
    uint64_t h = W->salt;
    for (auto& r : W->ranks) h = mix(h, mix(r.ops, r.ophash + (r.done ? 7 : 0)));
    h = mix(h, W->fsver);
    W->states->insert(h);
}

void point(const char* op)
{
    Rank& r = W->ranks[size_t(W->cur)];
    r.ops++;
    r.op     = op;
    r.ophash = mix(r.ophash, hash_bytes(op, strlen(op)));
    W->res->steps++;
    note_state();
    if (W->res->steps > W->cfg->max_steps) end_run(Status::Horizon, std::string("step horizon reached in ") + op);
    if (W->ended) {
        to_main(r, false);
        abort();
    }
    if (!W->cfg->explore_sched || W->ranks.size() == 1) return;
    // scheduling choice: continue (0) or switch to another enabled rank
    std::vector<int> en{W->cur};
    int n = int(W->ranks.size());
    for (int d = 1; d < n; d++) {
        int j = (W->cur + d) % n;
        if (enabled(W->ranks[size_t(j)])) en.push_back(j);
    }
    int c = choose(int(en.size()), SCHED);
    if (c != 0) {
        W->next = en[size_t(c)];
        to_main(r, false);
    }
}

void block(const std::function<bool()>& pred)
{
    Rank& r = W->ranks[size_t(W->cur)];
    while (!pred()) {
        r.pred = pred;
        to_main(r, false);
        r.pred = nullptr;
    }
}

Result run(const Config& cfg, const std::vector<int>& prefix,
           const std::function<void(int)>& body)
{
    Result res;
    World w;
    w.cfg    = &cfg;
    w.res    = &res;
    w.prefix = &prefix;
    w.body   = &body;
    w.states = current_states;
    w.salt   = current_salt;
    w.ranks.resize(size_t(cfg.nranks));
    w.init_mpi();
    W = &w;
    for (auto& r : w.ranks) {
        r.stack = new_stack();
        auto top = reinterpret_cast<uintptr_t>(r.stack + STACK) & ~uintptr_t(15);
        auto sp  = reinterpret_cast<void**>(top);
        *--sp    = nullptr;
        *--sp    = reinterpret_cast<void*>(&fiber_main);
        for (int i = 0; i < 6; i++) *--sp = nullptr;
        r.sp = sp;
    }
    int last = 0, n = cfg.nranks;
    while (!w.ended) {
        int pick = -1;
        if (w.next >= 0) {
            pick   = w.next;
            w.next = -1;
        }
        else {
            std::vector<int> en;
            for (int d = 0; d < n; d++) {
                int j = (last + d) % n;
                if (enabled(w.ranks[size_t(j)])) en.push_back(j);
            }
            if (en.empty()) break;
            pick = en[0];
            if (cfg.explore_sched && en.size() > 1) pick = en[size_t(choose(int(en.size()), SCHED))];
        }
        last = pick;
        to_rank(pick);
    }
    if (!w.ended) {
        std::string blocked;
        for (int i = 0; i < n; i++)
            if (!w.ranks[size_t(i)].done)
                blocked += " rank " + std::to_string(i) + " in " + (w.ranks[size_t(i)].op ? w.ranks[size_t(i)].op : "?") + w.ranks[size_t(i)].detail + ";";
        if (!blocked.empty()) {
            res.status = Status::Deadlock;
            res.msg    = "deadlock:" + blocked;
        }
        else w.finish_checks();
    }
    for (auto& r : w.ranks) stack_pool.push_back(r.stack);
    w.cleanup();
    if (res.trace.size() < prefix.size()) {
        fprintf(stderr, "mc: replay divergence: run shorter than its prefix\n");
        die_now(97);
    }
    W = nullptr;
    return res;
}

ExploreStats explore(
  const Config& cfg, const std::function<void()>& setup,
  const std::function<void(int)>& body,
  const std::function<bool(const Result&, const std::vector<int>&)>& check)
{
    ExploreStats st;
    std::vector<int> prefix;
    for (;;) {
        if (st.runs >= cfg.max_runs) {
            st.capped = true;
            return st;
        }
        setup();
        Result r = run(cfg, prefix, body);
        st.runs++;
        st.maxpoints = std::max<uint64_t>(st.maxpoints, r.trace.size());
        std::vector<int> ch;
        for (auto& p : r.trace) ch.push_back(p.chosen);
        if (!check(r, ch)) return st;
        // next prefix
        int cost[NKIND] = {0, 0, 0};
        std::vector<std::array<int, NKIND>> before;
        for (auto& p : r.trace) {
            before.push_back({cost[0], cost[1], cost[2]});
            if (p.chosen) cost[p.kind]++;
        }
        bool found = false;
        for (size_t i = r.trace.size(); i-- > 0;) {
            auto& p = r.trace[i];
            if (p.chosen + 1 < p.n && before[i][size_t(p.kind)] + 1 <= cfg.bound[p.kind]) {
                prefix.assign(ch.begin(), ch.begin() + long(i));
                prefix.push_back(p.chosen + 1);
                found = true;
                break;
            }
        }
        if (!found) return st;
    }
}

std::unordered_set<uint64_t>* current_states = nullptr;
bool states_off = false;
uint64_t current_salt                        = 0;

}  // namespace mc

// ------------------------------------------------------------------ libc
extern "C" {
void __real_exit(int) __attribute__((noreturn));
void __real__Exit(int) __attribute__((noreturn));
void __wrap_exit(int c)
{
    if (mc::in_rank()) {
        mc::W->res->exit_code = c;
        mc::end_run(mc::Status::Exited, "exit(" + std::to_string(c) + ")");
    }
    __real_exit(c);
}
void __wrap__Exit(int c)
{
    if (mc::in_rank()) {
        mc::W->res->exit_code = c;
        mc::end_run(mc::Status::Exited, "_Exit(" + std::to_string(c) + ")");
    }
    __real__Exit(c);
}
void __wrap__exit(int c)
{
    __wrap__Exit(c);
}
void __wrap_quick_exit(int c)
{
    __wrap__Exit(c);
}
}
