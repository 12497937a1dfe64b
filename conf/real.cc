// Runs the same programs on the installed MPI library: real DIRECTORY FIRST LAST
#include "jobs.hh"
#include <fstream>
#include <getopt.h>
#include <unistd.h>
size_t exseisdat_model_check_memlim, exseisdat_model_check_block;
namespace mc {
FS& fs() { static FS f; return f; }
SparseFile file_from(const std::string&) { return {}; }
void SparseFile::read(uint64_t, void*, size_t) const {}
void SparseFile::write(uint64_t, const void*, size_t) {}
bool SparseFile::operator==(const SparseFile&) const { return false; }
}
int main(int argc, char** argv)
{
    MPI_Init(&argc, &argv);
    int rank, np;
    MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    MPI_Comm_size(MPI_COMM_WORLD, &np);
    auto all = jobs(np);
    exseis::PIOL::manageMPI(false);
    for (int i = atoi(argv[2]); i < std::min(int(all.size()), atoi(argv[3])); i++) {
        std::string d = std::string(argv[1]) + "/" + S(i);
        if (chdir((d + "/in").c_str())) return 9;
        MPI_Barrier(MPI_COMM_WORLD);
        optind = 0;
        Obs o;
        all[size_t(i)].body(rank, np, o);
        MPI_Barrier(MPI_COMM_WORLD);
        std::ofstream f(d + "/real.obs." + S(rank));
        for (auto& s : o) f << s << "\n";
    }
    MPI_Finalize();
    return 0;
}
