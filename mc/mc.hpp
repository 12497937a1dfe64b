// Model-checking runtime: (1) a controlled scheduler that runs the ranks of an
// MPI program as fibers of one process over the model MPI of mc/mpi/mpi.h,
// (2) an in-memory (sparse) file system, (3) choice points with deviation-
// bounded exhaustive exploration, (4) an exhaustive case enumerator with
// crash isolation.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace mc {

// ------------------------------------------------------------------ files
struct SparseFile {
    static constexpr uint64_t PS = 4096;
    uint64_t size = 0;
    std::map<uint64_t, std::vector<unsigned char>> pages;
    void read(uint64_t off, void* d, size_t n) const;   // zero fill
    void write(uint64_t off, const void* d, size_t n);  // grows size
    void truncate(uint64_t sz);
    uint64_t hash() const;
    std::string str() const;  // only for small files
    bool operator==(const SparseFile& o) const;
};
struct WriteRec {  // log of write / set_size operations, for prefix checks
    std::string file;
    int rank;
    bool trunc;
    uint64_t off;
    std::vector<unsigned char> data;
};
using FS = std::map<std::string, SparseFile>;
FS& fs();  // the file system of the current execution (persists between runs)
SparseFile file_from(const std::string& bytes);

// ------------------------------------------------------------------ choices
enum Kind { SCHED = 0, FAULT = 1, ENV = 2, NKIND = 3 };
struct Point {
    int n, chosen;
    Kind kind;
};
int choose(int n, Kind k);
bool in_rank();  // executing inside a rank fiber?
int my_rank();

// ------------------------------------------------------------------ runs
enum class Status { Done, Deadlock, Usage, Exited, Exception, Horizon };
const char* status_name(Status);

struct FaultSpec {
    bool open = false, close = false, view = false, read = false,
         write = false, size = false, setsize = false;
    bool shortread = false;
};
struct Config {
    int nranks          = 1;
    bool explore_sched  = false;  // scheduling alternatives become choices
    int bound[NKIND]    = {0, 0, 1 << 30};
    uint64_t max_steps  = 400000;
    uint64_t max_runs   = ~0ull;
    bool log_writes     = false;
    bool poison         = true;  // poison receive buffers of pending requests
    bool strict_races   = false; // flag conflicting unordered file accesses
    bool allow_request_leak = false;
    FaultSpec faults;
    std::string fault_file;  // only inject on this file ("" = all)
};
struct Injected {
    std::string op, file;
    int rank;
    uint64_t seq;
};
struct Result {
    Status status = Status::Done;
    std::string msg;
    int exit_code = 0;
    int exit_rank = -1;
    std::vector<Point> trace;
    std::vector<WriteRec> log;
    std::vector<Injected> injected;
    uint64_t steps = 0;
    std::vector<std::string> open_files;  // left open at the end
    std::map<std::string, int> live;      // MPI objects not released at the end, by kind
    int io_calls = 0;
};
// Run body on every rank with the given choice prefix (then choice 0).
Result run(const Config& cfg, const std::vector<int>& prefix,
           const std::function<void(int)>& body);
// Deviation-bounded exhaustive exploration. setup() before each run (resets
// the fs to what it should be); check(r) after each; return false to stop.
struct ExploreStats {
    uint64_t runs = 0, maxpoints = 0;
    bool capped   = false;
};
ExploreStats explore(
  const Config& cfg, const std::function<void()>& setup,
  const std::function<void(int)>& body,
  const std::function<bool(const Result&, const std::vector<int>&)>& check);

// stderr/stdout capture of the ranks is left to the caller.

// ------------------------------------------------------------------ cases
struct CaseState;
class Case {
  public:
    CaseState* s;
    // nondeterministic enumeration: 0..n-1
    int pick(int n, const char* label);
    template<typename T>
    T of(const std::vector<T>& v, const char* label)
    {
        return v[pick(int(v.size()), label)];
    }
    int range(int lo, int hi, const char* label)
    {
        return lo + pick(hi - lo + 1, label);
    }
    // All picks must precede go(); false: not this worker's case -> return.
    bool go();
    bool thorough() const;
    void note(const std::string&);  // extra description for the report
    void fail(const std::string& key, const std::string& msg);
    bool failed() const;
    std::string desc() const;
    void state(uint64_t h);  // record a visited state
    void transitions(uint64_t n);
    void executed(uint64_t n = 1);  // executions of the implementation
    void outcome(uint64_t h);       // distinct observed outcome
    void capped(const std::string& why);
};
struct Scenario {
    std::string name;
    std::function<void(Case&)> body;
    int tiers;  // 1 quick, 2 thorough, 3 both
};
void add_scenario(const std::string& name, std::function<void(Case&)> body, int tiers = 3);
struct Reg {
    Reg(const char* n, std::function<void(Case&)> b, int tiers = 3) { add_scenario(n, b, tiers); }
};
#define SCENARIO(NAME)                                   \
    static void scen_##NAME(mc::Case& c);                \
    static mc::Reg reg_##NAME(#NAME, scen_##NAME);       \
    static void scen_##NAME(mc::Case& c)
#define SCENARIO_THOROUGH(NAME)                          \
    static void scen_##NAME(mc::Case& c);                \
    static mc::Reg reg_##NAME(#NAME, scen_##NAME, 2);    \
    static void scen_##NAME(mc::Case& c)

// Convenience: run/explore with failures turned into c.fail for non-Done
// results (unless allowed), counting states and transitions in the case.
Result run_case(Case& c, const Config& cfg, const std::function<void(int)>& body);
ExploreStats explore_case(
  Case& c, const Config& cfg, const std::function<void()>& setup,
  const std::function<void(int)>& body,
  const std::function<void(const Result&)>& check);

uint64_t hash_bytes(const void* d, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t mix(uint64_t a, uint64_t b)
{
    a *= 0x9e3779b97f4a7c15ull;
    a ^= a >> 29;
    a += b + 0x2545f4914f6cdd1dull;
    a *= 0xc4ceb9fe1a85ec53ull;
    a ^= a >> 32;
    a *= 0xff51afd7ed558ccdull;
    return a ^ (a >> 33);
}

}  // namespace mc
