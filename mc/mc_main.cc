// Exhaustive case enumeration with worker processes and crash isolation.
#include "mc_internal.hpp"

#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace mc {

static std::vector<Scenario>& scenarios()
{
    static std::vector<Scenario> v;
    return v;
}
void add_scenario(const std::string& n, std::function<void(Case&)> b, int t)
{
    scenarios().push_back({n, b, t});
}

static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}

struct Slot {
    std::atomic<int> running;  // 1 while a case executes
    std::atomic<double> started;
    int scen;
    uint64_t idx;
    char desc[16384];
    char picks[2048];
    int crashed_skip;
};
struct Shared {
    std::atomic<uint64_t> next[256];   // per scenario
    std::atomic<uint64_t> total[256];  // number of cases, once known
    std::atomic<uint64_t> cases, executed, transitions, failures, states, outcomes;
    std::atomic<uint64_t> scen_cases[256];
    std::atomic<int> capped, stop;
    volatile double first_fail;
    Slot slots[64];
};
static Shared* sh;
static bool g_thorough;
static double g_deadline;
static bool g_replay;
static std::string g_dir;

struct Pk {
    int n, chosen;
    const char* label;
};
struct CaseState {
    int scen;
    std::vector<int> prefix;
    std::vector<Pk> picks;
    uint64_t counter = 0;  // case index
    uint64_t claim   = 0;
    bool asked = false, mine = false, replay = false, failed = false;
    std::string extra;
    int worker = 0;
    uint64_t transitions = 0, executed = 0;
    FILE* fails = nullptr;
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> states, outcomes;
    std::set<std::string> caps;
    uint64_t nfail = 0;
};

int Case::pick(int n, const char* label)
{
    if (n <= 0) {
        fprintf(stderr, "mc: empty pick %s\n", label);
        die_now(96);
    }
    if (s->asked) {
        fprintf(stderr, "mc: pick after go()\n");
        die_now(96);
    }
    size_t i = s->picks.size();
    int c    = i < s->prefix.size() ? s->prefix[i] : 0;
    if (c >= n) {
        fprintf(stderr, "mc: case divergence at pick %s\n", label);
        die_now(97);
    }
    s->picks.push_back({n, c, label});
    return c;
}

std::string Case::desc() const
{
    std::string d = scenarios()[size_t(s->scen)].name + "(";
    for (size_t i = 0; i < s->picks.size(); i++) {
        if (i) d += ", ";
        d += std::string(s->picks[i].label) + "=" + std::to_string(s->picks[i].chosen);
    }
    d += ")";
    if (!s->extra.empty()) d += " " + s->extra;
    return d;
}

static std::string picks_str(CaseState* s)
{
    std::string d;
    for (auto& p : s->picks) d += (d.empty() ? "" : ",") + std::to_string(p.chosen);
    return d;
}

bool Case::go()
{
    s->asked = true;
    s->mine  = s->replay || s->counter == s->claim;
    if (!s->mine) return false;
    current_salt = mix(hash_bytes(scenarios()[size_t(s->scen)].name.data(), scenarios()[size_t(s->scen)].name.size()), s->counter);
    if (sh && !s->replay) {
        auto& sl = sh->slots[s->worker];
        sl.scen  = s->scen;
        sl.idx   = s->counter;
        snprintf(sl.desc, sizeof sl.desc, "%s", desc().c_str());
        snprintf(sl.picks, sizeof sl.picks, "%s", picks_str(s).c_str());
        sl.started = now();
        sl.running = 1;
        states_off = sh->first_fail != 0;
    }
    return true;
}
bool Case::thorough() const { return g_thorough; }
void Case::note(const std::string& n)
{
    s->extra += n;
    if (sh && !s->replay && s->mine) {
        auto& sl = sh->slots[s->worker];
        snprintf(sl.desc, sizeof sl.desc, "%s", desc().c_str());
    }
}
static std::string jesc(const std::string& x)
{
    std::string o = "\"";
    for (unsigned char ch : x) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += char(ch);
        }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            o += b;
        }
        else o += char(ch);
    }
    return o + "\"";
}
static void emit_fail(FILE* f, const std::string& scen, const std::string& key, const std::string& msg, const std::string& desc, const std::string& picks, uint64_t idx)
{
    fprintf(f, "{\"scenario\": %s, \"key\": %s, \"msg\": %s, \"case\": %s, \"picks\": %s, \"index\": %llu}\n", jesc(scen).c_str(), jesc(key).c_str(), jesc(msg).c_str(), jesc(desc).c_str(), jesc(picks).c_str(), (unsigned long long)idx);
    fflush(f);
}
void Case::fail(const std::string& key, const std::string& msg)
{
    if (s->failed) return;
    s->failed = true;
    s->nfail++;
    states_off = true;
    if (s->replay) {
        printf("REPRODUCED key=%s\n%s\n  case: %s\n", key.c_str(), msg.c_str(), desc().c_str());
        fflush(stdout);
        return;
    }
    sh->failures++;
    if (sh->first_fail == 0) sh->first_fail = now();
    if (s->nfail <= 40) emit_fail(s->fails, scenarios()[size_t(s->scen)].name, key, msg, desc(), picks_str(s), s->counter);
}
bool Case::failed() const { return s->failed; }
void Case::state(uint64_t h)
{
    if (!states_off && s->states.size() < 6000000) s->states.insert(mix(h, 17));
}
void Case::transitions(uint64_t n) { s->transitions += n; }
void Case::executed(uint64_t n) { s->executed += n; }
void Case::outcome(uint64_t h) { s->outcomes.insert(h); }
void Case::capped(const std::string& w) { s->caps.insert(w); }

Result run_case(Case& c, const Config& cfg, const std::function<void(int)>& body)
{
    current_states = &c.s->states;
    Result r       = run(cfg, {}, body);
    current_states = nullptr;
    c.executed();
    c.transitions(r.steps);
    c.outcome(mix(current_salt, uint64_t(r.status)));
    // no single run of a check is expected to end in any other way
    if (r.status != Status::Done) c.fail("run", std::string(status_name(r.status)) + ": " + r.msg);
    return r;
}

ExploreStats explore_case(
  Case& c, const Config& cfg, const std::function<void()>& setup,
  const std::function<void(int)>& body,
  const std::function<void(const Result&)>& check)
{
    current_states = &c.s->states;
    auto st        = explore(cfg, setup, body, [&](const Result& r, const std::vector<int>& ch) {
        c.executed();
        c.transitions(r.steps);
        if (sh && !c.s->replay) sh->slots[c.s->worker].started = now();
        auto save = c.s->extra;
        std::string sc;
        for (int x : ch) sc += std::to_string(x);
        while (!sc.empty() && sc.back() == '0') sc.pop_back();
        if (!sc.empty()) c.s->extra += " schedule=" + sc;
        if (sh && !c.s->replay) {
            auto& sl = sh->slots[c.s->worker];
            snprintf(sl.desc, sizeof sl.desc, "%s", c.desc().c_str());
        }
        check(r);
        c.s->extra = save;
        return !c.failed();
    });
    current_states = nullptr;
    if (st.capped) c.capped("runs per case capped at " + std::to_string(cfg.max_runs));
    return st;
}

static bool next_prefix(CaseState& s)
{
    for (size_t i = s.picks.size(); i-- > 0;) {
        if (s.picks[i].chosen + 1 < s.picks[i].n) {
            s.prefix.clear();
            for (size_t j = 0; j < i; j++) s.prefix.push_back(s.picks[j].chosen);
            s.prefix.push_back(s.picks[i].chosen + 1);
            return true;
        }
    }
    return false;
}

static void run_worker(int w, const std::vector<int>& scens)
{
    CaseState s;
    s.worker = w;
    std::string fn = g_dir + "/fails." + std::to_string(w);
    s.fails        = fopen(fn.c_str(), "a");
    uint64_t done = 0;
    bool stop     = false;
    for (int si : scens) {
        if (stop) break;
        s.scen    = si;
        s.counter = 0;
        s.prefix.clear();
        s.claim = sh->next[si].fetch_add(1);
        for (;;) {
            if (sh->stop || (g_deadline > 0 && now() > g_deadline) || (sh->first_fail > 0 && now() > sh->first_fail + 60)) {
                sh->capped = 1;
                s.caps.insert("time limit reached in scenario " + scenarios()[size_t(si)].name);
                stop = true;
                break;
            }
            s.picks.clear();
            s.asked = s.mine = s.failed = false;
            s.extra.clear();
            Case c;
            c.s = &s;
            scenarios()[size_t(si)].body(c);
            if (!s.asked) {
                fprintf(stderr, "mc: scenario %s never called go()\n", scenarios()[size_t(si)].name.c_str());
                die_now(96);
            }
            if (s.mine) {
                auto& sl   = sh->slots[w];
                sl.running = 0;
                done++;
                sh->cases++;
                sh->scen_cases[si]++;
                fs().clear();
                if (done <= 2 || (done & (done - 1)) == 0) {
                    if (s.samples.size() < 12) s.samples.push_back(c.desc());
                }
                s.claim = sh->next[si].fetch_add(1);
                if (sh->failures > 300) sh->stop = 1;
            }
            s.counter++;
            if (!next_prefix(s)) {
                sh->total[si] = s.counter;
                break;
            }
        }
    }
    sh->executed += s.executed;
    sh->transitions += s.transitions;
    fclose(s.fails);
    FILE* f = fopen((g_dir + "/sets." + std::to_string(w) + "." + std::to_string(getpid())).c_str(), "w");
    uint64_t n = s.states.size();
    fwrite(&n, 8, 1, f);
    for (auto h : s.states) fwrite(&h, 8, 1, f);
    n = s.outcomes.size();
    fwrite(&n, 8, 1, f);
    for (auto h : s.outcomes) fwrite(&h, 8, 1, f);
    fclose(f);
    f = fopen((g_dir + "/samples." + std::to_string(w) + "." + std::to_string(getpid())).c_str(), "w");
    for (auto& x : s.samples) fprintf(f, "%s\n", x.c_str());
    fclose(f);
    f = fopen((g_dir + "/caps." + std::to_string(w) + "." + std::to_string(getpid())).c_str(), "w");
    for (auto& x : s.caps) fprintf(f, "%s\n", x.c_str());
    fclose(f);
}

static std::string crash_summary(int w, pid_t pid)
{
    std::string fn = g_dir + "/asan." + std::to_string(w) + "." + std::to_string(pid);
    FILE* f        = fopen(fn.c_str(), "r");
    if (!f) return "";
    char line[4096];
    std::string err, frames, summary;
    int nf = 0;
    while (fgets(line, sizeof line, f)) {
        std::string l(line);
        while (!l.empty() && (l.back() == '\n')) l.pop_back();
        if (l.find("ERROR: AddressSanitizer") != std::string::npos) err = l;
        if (l.find("runtime error:") != std::string::npos && err.empty()) err = l;
        if (l.find("SUMMARY:") != std::string::npos) summary = l;
        auto p = l.find(" in ");
        if (nf < 8 && l.find("    #") == 0 && p != std::string::npos) {
            frames += " <- " + l.substr(p + 4, 160);
            nf++;
        }
    }
    fclose(f);
    return err + " | " + summary + " |" + frames;
}

}  // namespace mc

using namespace mc;

int main(int argc, char** argv)
{
    int workers = 8;
    std::string out, only, replay_scen, replay_picks;
    double limit = 0, hang = 60;
    g_dir = ".";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx       = [&]() { return std::string(argv[++i]); };
        if (a == "--workers") workers = atoi(nx().c_str());
        else if (a == "--tier") g_thorough = nx() == "thorough";
        else if (a == "--out") out = nx();
        else if (a == "--dir") g_dir = nx();
        else if (a == "--only") only = nx();
        else if (a == "--time-limit") limit = atof(nx().c_str());
        else if (a == "--hang") hang = atof(nx().c_str());
        else if (a == "--replay") {
            replay_scen  = nx();
            replay_picks = nx();
        }
        else if (a == "--list") {
            for (auto& s : scenarios()) printf("%s\n", s.name.c_str());
            return 0;
        }
        else {
            fprintf(stderr, "unknown option %s\n", a.c_str());
            return 2;
        }
    }
    if (!replay_scen.empty()) {
        g_replay = true;
        CaseState s;
        s.replay = true;
        s.scen   = -1;
        for (size_t i = 0; i < scenarios().size(); i++)
            if (scenarios()[i].name == replay_scen) s.scen = int(i);
        if (s.scen < 0) return 2;
        const char* p = replay_picks.c_str();
        while (*p) {
            s.prefix.push_back(int(strtol(p, const_cast<char**>(&p), 10)));
            if (*p == ',') p++;
        }
        Case c;
        c.s = &s;
        if (!getenv("MC_VERBOSE")) {
            int n = open("/dev/null", O_WRONLY);
            (void)n;
        }
        scenarios()[size_t(s.scen)].body(c);
        printf("%s\n", s.failed ? "replay: FAIL" : "replay: ok");
        fflush(stdout);
        die_now(s.failed ? 1 : 0);
    }
    std::vector<int> scens;
    for (size_t i = 0; i < scenarios().size(); i++)
        if ((scenarios()[i].tiers & (g_thorough ? 2 : 1)) && (only.empty() || only == scenarios()[i].name)) scens.push_back(int(i));
    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    double t0 = now();
    if (limit > 0) g_deadline = t0 + limit;
    std::vector<pid_t> pid(size_t(workers), 0);
    auto spawn = [&](int w) {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            int n = open("/dev/null", O_WRONLY);
            dup2(n, 1);
            std::string e = g_dir + "/stderr." + std::to_string(w);
            (void)e;
            dup2(n, 2);
#if defined(__SANITIZE_ADDRESS__)
            extern void mc_set_report(const char*);
            mc_set_report((g_dir + "/asan." + std::to_string(w)).c_str());
#endif
            run_worker(w, scens);
            die_now(0);
        }
        pid[size_t(w)] = p;
    };
    FILE* ff = fopen((g_dir + "/fails.parent").c_str(), "a");
    for (int w = 0; w < workers; w++) spawn(w);
    int live = workers, respawns = 0, hangs = 0;
    while (live > 0) {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p == 0) {
            usleep(2000);
            for (int w = 0; w < workers; w++) {
                auto& sl = sh->slots[w];
                if (pid[size_t(w)] > 0 && sl.running && now() - sl.started > hang) kill(pid[size_t(w)], SIGKILL);
            }
            continue;
        }
        if (p < 0) break;
        int w = -1;
        for (int i = 0; i < workers; i++)
            if (pid[size_t(i)] == p) w = i;
        if (w < 0) continue;
        live--;
        pid[size_t(w)] = 0;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        auto& sl = sh->slots[w];
        if (!sl.running) {
            fprintf(stderr, "mc: worker %d died outside of a case (status %d)\n", w, st);
            return 3;
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) >= 96 && WEXITSTATUS(st) <= 99) {
            fprintf(stderr, "mc: checker error %d in %s\n", WEXITSTATUS(st), sl.desc);
            return 3;
        }
        bool hung = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
        std::string sum = crash_summary(w, p);
        std::string msg = hung ? "no progress for " + std::to_string(int(hang)) + " s" : (WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "process ended with status " + std::to_string(WEXITSTATUS(st)));
        emit_fail(ff, scenarios()[size_t(sl.scen)].name, hung ? "hang" : "crash", msg + " " + sum, sl.desc, sl.picks, sl.idx);
        sh->failures++;
        if (sh->first_fail == 0) sh->first_fail = now();
        if (hung) hangs++;
        sh->cases++;
        sh->executed++;
        sl.running = 0;
        if (++respawns < 40 && sh->failures < 300 && hangs < 6) {
            spawn(w);
            live++;
        }
        else sh->stop = 1;
    }
    fclose(ff);
    // merge
    std::vector<uint64_t> st, oc;
    std::vector<std::string> samples;
    std::set<std::string> caps;
    std::string cmd;
    {
        std::string pat = g_dir + "/sets.*";
        FILE* ls        = popen(("ls " + g_dir).c_str(), "r");
        char b[512];
        while (fgets(b, sizeof b, ls)) {
            std::string n(b);
            n.pop_back();
            if (n.rfind("sets.", 0) == 0) {
                FILE* f = fopen((g_dir + "/" + n).c_str(), "r");
                uint64_t k, h;
                if (fread(&k, 8, 1, f) == 1)
                    for (; k; k--)
                        if (fread(&h, 8, 1, f) == 1) st.push_back(h);
                if (fread(&k, 8, 1, f) == 1)
                    for (; k; k--)
                        if (fread(&h, 8, 1, f) == 1) oc.push_back(h);
                fclose(f);
            }
            if (n.rfind("samples.", 0) == 0 || n.rfind("caps.", 0) == 0) {
                FILE* f = fopen((g_dir + "/" + n).c_str(), "r");
                char l[8192];
                while (fgets(l, sizeof l, f)) {
                    std::string x(l);
                    x.pop_back();
                    if (n[0] == 's') samples.push_back(x);
                    else caps.insert(x);
                }
                fclose(f);
            }
        }
        pclose(ls);
    }
    for (auto* v : {&st, &oc}) {
        std::sort(v->begin(), v->end());
        v->erase(std::unique(v->begin(), v->end()), v->end());
    }
    if (!out.empty()) {
        FILE* f = fopen(out.c_str(), "w");
        fprintf(f, "{\"cases\": %llu, \"executed\": %llu, \"transitions\": %llu, \"states\": %zu, \"outcomes\": %zu, \"failures\": %llu, \"wall_s\": %.2f, \"capped\": %s,\n", (unsigned long long)sh->cases.load(), (unsigned long long)sh->executed.load(), (unsigned long long)sh->transitions.load(), st.size(), oc.size(), (unsigned long long)sh->failures.load(), now() - t0, (sh->capped || !caps.empty()) ? "true" : "false");
        fprintf(f, "\"scenarios\": {");
        for (size_t i = 0; i < scens.size(); i++)
            fprintf(f, "%s%s: {\"cases_run\": %llu, \"cases_total\": %llu}", i ? ", " : "", jesc(scenarios()[size_t(scens[i])].name).c_str(), (unsigned long long)sh->scen_cases[scens[i]].load(), (unsigned long long)sh->total[scens[i]].load());
        fprintf(f, "},\n\"caps\": [");
        int k = 0;
        for (auto& c : caps) fprintf(f, "%s%s", k++ ? ", " : "", jesc(c).c_str());
        fprintf(f, "],\n\"samples\": [");
        for (size_t i = 0; i < samples.size() && i < 40; i++) fprintf(f, "%s%s", i ? ", " : "", jesc(samples[i]).c_str());
        fprintf(f, "]}\n");
        fclose(f);
    }
    return sh->failures ? 1 : 0;
}

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
void mc_set_report(const char* p)
{
    __sanitizer_set_report_path(p);
}
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=86:"
           "max_malloc_fill_size=4096:malloc_fill_byte=190:free_fill_byte=221:max_free_fill_size=4096:"
           "allocator_may_return_null=1:max_allocation_size_mb=4096:handle_abort=1:quarantine_size_mb=16:malloc_context_size=5";
}
extern "C" const char* __ubsan_default_options()
{
    return "halt_on_error=1:exitcode=86:print_stacktrace=1";
}
#endif
// the memory limit of the set layer (hook EXSEISDAT_MODEL_CHECK in Set.cc)
size_t exseisdat_model_check_memlim = 1024ul * 1024ul * 1024ul;
size_t exseisdat_model_check_block  = 2097152;
