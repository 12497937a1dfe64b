// Runs the programs on the model MPI: MC_CONF=directory MC_NP=processes
#include "jobs.hh"
#include <fstream>
#include <sys/stat.h>
static void dump(const std::string& dir)
{
    mkdir(dir.c_str(), 0777);
    for (auto& f : mc::fs()) {
        std::ofstream o(dir + "/" + f.first, std::ios::binary);
        std::string s = f.second.str();
        o.write(s.data(), long(s.size()));
    }
}
SCENARIO(jobs)
{
    std::string base = getenv("MC_CONF") ? getenv("MC_CONF") : "";
    int np = getenv("MC_NP") ? atoi(getenv("MC_NP")) : 1;
    auto all = jobs(np);
    int i    = c.pick(int(all.size()), "job");
    if (!c.go()) return;
    exseisdat_model_check_memlim = size_t(1) << 30;
    mc::FS in                    = all[size_t(i)].in();
    exseisdat_model_check_memlim = size_t(1) << 30;
    exseisdat_model_check_block  = size_t(2) << 20;
    std::string d = base + "/" + S(i);
    mkdir(d.c_str(), 0777);
    mc::fs() = in;
    dump(d + "/in");
    std::vector<Obs> o(static_cast<size_t>(np));
    mc::Config cfg;
    cfg.nranks = np;
    mc::run_case(c, cfg, [&](int r) { all[size_t(i)].body(r, np, o[size_t(r)]); });
    dump(d + "/model");
    std::ofstream n(d + "/name");
    n << all[size_t(i)].name << "\n";
    for (int r = 0; r < np; r++) {
        std::ofstream f(d + "/model.obs." + S(r));
        for (auto& s : o[size_t(r)]) f << s << "\n";
    }
}
