#pragma once
#include <deque>
#include "mc.hpp"
#include "mpi.h"
#include <array>
#include <unordered_set>

#include <sys/syscall.h>
#include <unistd.h>
namespace mc {
// not the wrapped _exit
[[noreturn]] inline void die_now(int c)
{
    for (;;) syscall(SYS_exit_group, c);
}

struct Rank {
    void* sp    = nullptr;
    void* fake  = nullptr;
    char* stack = nullptr;
    bool started = false, done = false;
    std::function<bool()> pred;
    uint64_t ops = 0, ophash = 0;
    const char* op = nullptr;
    std::string detail;
    void* eh[2] = {nullptr, nullptr};
    // getopt
    bool getopt_started = false;
};

struct Coll {
    std::string sig;
    int first_rank = -1;
    int arrived    = 0;
    bool complete  = false;
    std::vector<std::vector<unsigned char>> in;
    std::vector<unsigned char> aux;
    long long val = 0;
};
struct CollSeq {
    std::vector<int> members;  // world ranks
    std::vector<uint64_t> seq; // per member
    std::map<uint64_t, std::shared_ptr<Coll>> slots;
    int idx(int world) const
    {
        for (size_t i = 0; i < members.size(); i++)
            if (members[i] == world) return int(i);
        return -1;
    }
};
struct Comm {
    CollSeq cs;
    bool valid = true;
};
struct Type {
    long size = 0;
    long lb = 0, ub = 0;
    std::vector<std::pair<long, long>> segs;  // (disp, len)
    bool committed = false, freed = false, predefined = false, contiguous = false;
    int owner = -1;  // process which created it
};
struct Req {
    bool send = false, active = true, matched = false;
    int rank = 0, peer = 0, tag = 0, comm = 0;
    const void* sbuf = nullptr;
    void* rbuf       = nullptr;
    size_t bytes     = 0;
    uint64_t hash    = 0;
    bool snap        = false;
    std::vector<unsigned char> data;
    int other    = -1;
    bool waited  = false;
};
struct Access {
    int rank;
    bool write;
    uint64_t off, len;
    std::vector<uint64_t> clock;
    std::vector<unsigned char> data;
    std::string file;
};

struct World {
    const Config* cfg;
    Result* res;
    const std::vector<int>* prefix;
    const std::function<void(int)>* body;
    std::unordered_set<uint64_t>* states = nullptr;
    uint64_t salt = 0, fsver = 0;
    std::vector<Rank> ranks;
    int cur = -1, next = -1;
    bool ended = false;
    std::vector<std::unique_ptr<Comm>> comms;
    std::deque<Type> types;  // references stay valid
    std::deque<Req> reqs;
    std::vector<std::unique_ptr<mc_file>> files;
    std::vector<std::unique_ptr<mc_win>> wins;
    std::vector<std::vector<uint64_t>> vc;  // vector clocks
    std::vector<Access> accesses;
    std::deque<std::map<std::string, std::string>> infos;
    std::deque<bool> info_live;
    int comms_live = 0;
    double now = 1000;
    void init_mpi();
    void finish_checks();
    void cleanup();
    World();
    ~World();
};
extern World* W;
extern std::unordered_set<uint64_t>* current_states;
extern bool states_off;
extern uint64_t current_salt;

[[noreturn]] void end_run(Status, const std::string&);
[[noreturn]] void usage(const std::string&);
void point(const char* op);
void block(const std::function<bool()>& pred);
}  // namespace mc
