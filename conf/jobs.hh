// Programs run both on the model MPI and on the installed MPI library.
#pragma once
#include "../checks/work.hh"
typedef std::vector<std::string> Obs;
struct JobDef {
    std::string name;
    std::function<mc::FS()> in;                     // only called by the model driver
    std::function<void(int, int, Obs&)> body;       // rank, number of processes
};
// ---- MPI itself
inline std::string stat_str(MPI_Status& s, MPI_Datatype t = MPI_CHAR)
{
    int n = -5;
    MPI_Get_count(&s, t, &n);
    return S(n);
}
inline MPI_File fopen_(int mode)
{
    MPI_File f;
    MPI_File_open(MPI_COMM_WORLD, const_cast<char*>("raw"), mode, MPI_INFO_NULL, &f);
    return f;
}
inline void raw(int id, int rank, int np, Obs& o)
{
    auto put = [&](const std::string& s) { o.push_back(s); };
    std::vector<char> b(64, '.');
    MPI_Status st;
    memset(&st, 0, sizeof st);
    switch (id) {
        case 0: {  // reductions
            for (size_t v : {size_t(rank + 3), ~size_t(0) - size_t(rank), size_t(1) << 63}) {
                size_t r = 0;
                MPI_Allreduce(&v, &r, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
                put(S(r));
                MPI_Allreduce(&v, &r, 1, MPI_UNSIGNED_LONG, MPI_MAX, MPI_COMM_WORLD);
                put(S(r));
                MPI_Allreduce(&v, &r, 1, MPI_UNSIGNED_LONG, MPI_MIN, MPI_COMM_WORLD);
                put(S(r));
                size_t e = 77;
                MPI_Exscan(&v, &e, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
                if (rank) put(S(e));
            }
            int k = rank - 1, s;
            MPI_Allreduce(&k, &s, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
            put(S(s));
            break;
        }
        case 1: {  // gathers, also of nothing
            std::vector<double> in{rank + 0.5, rank * 2.0}, out(2 * size_t(np));
            for (int n : {2, 1, 0}) {
                MPI_Allgather(in.data(), n, MPI_DOUBLE, out.data(), n, MPI_DOUBLE, MPI_COMM_WORLD);
                for (int i = 0; i < n * np; i++) put(S(out[size_t(i)]));
            }
            char c = char('a' + rank);
            MPI_Bcast(&c, 1, MPI_CHAR, np - 1, MPI_COMM_WORLD);
            put(std::string(1, c));
            break;
        }
        case 2: {  // messages in a ring, non-blocking, in order
            int r = (rank + 1) % np, l = (rank + np - 1) % np;
            int a[2] = {rank, rank + 10}, x = -1, y = -1;
            MPI_Request q[4];
            MPI_Irecv(&x, 1, MPI_INT, l, 3, MPI_COMM_WORLD, &q[0]);
            MPI_Irecv(&y, 1, MPI_INT, l, 3, MPI_COMM_WORLD, &q[1]);
            MPI_Isend(&a[0], 1, MPI_INT, r, 3, MPI_COMM_WORLD, &q[2]);
            MPI_Isend(&a[1], 1, MPI_INT, r, 3, MPI_COMM_WORLD, &q[3]);
            for (int i : {0, 1, 2, 3}) MPI_Wait(&q[i], &st);
            put(S(x) + " " + S(y));
            // a shorter message than the buffer
            MPI_Irecv(b.data(), 64, MPI_CHAR, l, 4, MPI_COMM_WORLD, &q[0]);
            MPI_Isend("abcdef", 2 + rank % 3, MPI_CHAR, r, 4, MPI_COMM_WORLD, &q[1]);
            MPI_Wait(&q[0], &st);
            put(stat_str(st) + std::string(b.data(), size_t(2 + l % 3)));
            MPI_Wait(&q[1], &st);
            put(q[1] == MPI_REQUEST_NULL ? "null" : "live");
            break;
        }
        case 3: {  // reading at and past the end
            auto f = fopen_(MPI_MODE_RDONLY | MPI_MODE_UNIQUE_OPEN);
            MPI_Offset sz = -1;
            MPI_File_get_size(f, &sz);
            put(S((long long)sz));
            MPI_File_set_view(f, 0, MPI_CHAR, MPI_CHAR, "native", MPI_INFO_NULL);
            // (collective reads of Open MPI's OMPIO count the bytes past the end of
            // the file as read when several processes take part)
            for (long off : {0l, 120l, 138l, 158l, 160l, 170l}) {
                std::fill(b.begin(), b.end(), '.');
                if (off < 140) MPI_File_read_at_all(f, off + rank, b.data(), 6, MPI_CHAR, &st);
                if (off < 140) put(stat_str(st) + std::string(b.data(), 8));
                std::fill(b.begin(), b.end(), '.');
                MPI_File_read_at(f, off + rank, b.data(), 6, MPI_CHAR, &st);
                put(stat_str(st) + std::string(b.data(), 8));
            }
            int e = MPI_File_write_at(f, 0, b.data(), 1, MPI_CHAR, &st);
            put(e == MPI_SUCCESS ? "written" : "refused");
            MPI_File_close(&f);
            put(f == MPI_FILE_NULL ? "null" : "live");
            break;
        }
        case 4: {  // strided views, reading and writing, some processes with nothing
            auto f = fopen_(MPI_MODE_CREATE | MPI_MODE_RDWR | MPI_MODE_UNIQUE_OPEN);
            for (int n : {3, 1, 0}) {
                int cnt = rank == np - 1 ? 0 : n;
                MPI_Datatype t;
                MPI_Type_vector(cnt ? cnt : 0, 2, 5, MPI_CHAR, &t);
                MPI_Type_commit(&t);
                MPI_File_set_view(f, rank * 17, MPI_CHAR, t, "native", MPI_INFO_NULL);
                std::fill(b.begin(), b.end(), '.');
                MPI_File_read_at_all(f, 0, b.data(), cnt * 2, MPI_CHAR, &st);
                put(stat_str(st) + std::string(b.data(), 8));
                for (auto& x : b) x = char('A' + rank);
                MPI_File_write_at_all(f, 0, b.data(), cnt * 2, MPI_CHAR, &st);
                put(stat_str(st));
                MPI_Type_free(&t);
                MPI_File_set_view(f, 0, MPI_CHAR, MPI_CHAR, "native", MPI_INFO_NULL);
            }
            MPI_File_close(&f);
            break;
        }
        case 5: {  // views of listed blocks
            auto f = fopen_(MPI_MODE_CREATE | MPI_MODE_RDWR | MPI_MODE_UNIQUE_OPEN);
            MPI_Aint d[3] = {rank * 12 + 1, rank * 12 + 4, rank * 12 + 9};
            MPI_Datatype t;
            MPI_Type_create_hindexed_block(3, 2, d, MPI_CHAR, &t);
            MPI_Type_commit(&t);
            MPI_File_set_view(f, 0, MPI_CHAR, t, "native", MPI_INFO_NULL);
            MPI_File_read_at_all(f, 0, b.data(), 6, MPI_CHAR, &st);
            put(stat_str(st) + std::string(b.data(), 8));
            for (int i = 0; i < 6; i++) b[size_t(i)] = char('a' + i + rank);
            MPI_File_write_at_all(f, 0, b.data(), 6, MPI_CHAR, &st);
            MPI_Type_free(&t);
            MPI_File_set_view(f, 0, MPI_CHAR, MPI_CHAR, "native", MPI_INFO_NULL);
            MPI_File_close(&f);
            break;
        }
        case 6: {  // sizes
            auto f = fopen_(MPI_MODE_CREATE | MPI_MODE_RDWR | MPI_MODE_UNIQUE_OPEN);
            MPI_Offset sz;
            for (long n : {10l, 100l, 0l, 55l}) {
                MPI_File_set_size(f, n);
                MPI_File_get_size(f, &sz);
                put(S((long long)sz));
                MPI_Barrier(MPI_COMM_WORLD);
            }
            if (rank == 0) MPI_File_write_at(f, 70, "xyz", 3, MPI_CHAR, &st);
            MPI_Barrier(MPI_COMM_WORLD);
            MPI_File_close(&f);
            break;
        }
        case 7: {  // no such file
            MPI_File f = MPI_FILE_NULL;
            int e = MPI_File_open(MPI_COMM_WORLD, const_cast<char*>("missing"), MPI_MODE_RDONLY | MPI_MODE_UNIQUE_OPEN, MPI_INFO_NULL, &f);
            put(e == MPI_SUCCESS ? "opened" : "refused");
            put(f == MPI_FILE_NULL ? "null" : "live");
            MPI_Offset sz = 5;
            e = MPI_File_get_size(f, &sz);
            put(e == MPI_SUCCESS ? "size" : "refused");
            break;
        }
        case 8: {  // one-sided communication
            MPI_Win w;
            long* base;
            MPI_Win_allocate(3 * MPI_Aint(sizeof(long)), sizeof(long), MPI_INFO_NULL, MPI_COMM_WORLD, &base, &w);
            for (int i = 0; i < 3; i++) base[i] = rank * 10 + i;
            MPI_Barrier(MPI_COMM_WORLD);
            int r = (rank + 1) % np;
            long v = 1000 + rank, x = -1, y = -1;
            MPI_Win_lock(MPI_LOCK_SHARED, r, 0, w);
            MPI_Get(&x, 1, MPI_LONG, r, 1, 1, MPI_LONG, w);
            MPI_Win_unlock(r, w);
            MPI_Win_lock(MPI_LOCK_EXCLUSIVE, r, 0, w);
            MPI_Put(&v, 1, MPI_LONG, r, 2, 1, MPI_LONG, w);
            MPI_Win_unlock(r, w);
            MPI_Barrier(MPI_COMM_WORLD);
            MPI_Win_lock(MPI_LOCK_SHARED, rank, 0, w);
            MPI_Get(&y, 1, MPI_LONG, rank, 2, 1, MPI_LONG, w);
            MPI_Win_unlock(rank, w);
            put(S((long long)x) + " " + S((long long)y));
            MPI_Barrier(MPI_COMM_WORLD);
            MPI_Win_free(&w);
            break;
        }
        case 9: {  // windows over memory of the caller, also of no bytes
            // (this Open MPI cannot create such windows with one process)
            if (np == 1) break;
            std::vector<int> m(rank == 0 ? 0 : 4, rank);
            MPI_Win w;
            MPI_Win_create(m.data(), MPI_Aint(m.size() * sizeof(int)), sizeof(int), MPI_INFO_NULL, MPI_COMM_WORLD, &w);
            int x[4] = {-1, -1, -1, -1};
            {
                MPI_Win_lock(MPI_LOCK_SHARED, np - 1, 0, w);
                MPI_Get(x, 3, MPI_INT, np - 1, 1, 3, MPI_INT, w);
                MPI_Win_unlock(np - 1, w);
            }
            for (int i : x) put(S(i));
            MPI_Win_free(&w);
            break;
        }
        case 10: {  // communicators
            MPI_Comm c, d;
            MPI_Comm_split(MPI_COMM_WORLD, rank % 2, -rank, &c);
            int r, n, s;
            MPI_Comm_rank(c, &r);
            MPI_Comm_size(c, &n);
            MPI_Allreduce(&rank, &s, 1, MPI_INT, MPI_SUM, c);
            put(S(r) + "/" + S(n) + " " + S(s));
            MPI_Comm_split(MPI_COMM_WORLD, rank ? 1 : MPI_UNDEFINED, 0, &d);
            put(d == MPI_COMM_NULL ? "null" : "live");
            MPI_Comm_free(&c);
            if (d != MPI_COMM_NULL) MPI_Comm_free(&d);
            break;
        }
        case 11: {  // nothing to and from no process
            MPI_Request q;
            int x = 5;
            MPI_Irecv(&x, 1, MPI_INT, MPI_PROC_NULL, 0, MPI_COMM_WORLD, &q);
            MPI_Wait(&q, &st);
            put(S(x) + " " + stat_str(st, MPI_INT));
            break;
        }
    }
}
inline mc::FS raw_in()
{
    mc::FS f;
    std::string s;
    for (int i = 0; i < 160; i++) s += char('0' + i % 70);
    f["raw"] = mc::file_from(s);
    return f;
}
inline Obs flat(const Vals& v, int rank) { return v[size_t(rank)]; }
inline std::vector<JobDef> jobs(int np)
{
    std::vector<JobDef> j;
    for (int id = 0; id < 12; id++) j.push_back({"raw " + S(id), raw_in, [id](int r, int n, Obs& o) { raw(id, r, n, o); }});
    // the library
    for (int op = 0; op < 7; op++)
        for (int form = 0; form < 4; form++) {
            std::vector<size_t> sh(size_t(np), 0);
            for (int i = 0; i < 7; i++) sh[size_t(form == 0 ? i % np : form == 1 ? 0 : form == 2 ? np - 1 : i % 2 ? np / 2 : 0)]++;
            j.push_back({std::string("shares ") + sopn[op] + " " + S(form), [] { mc::FS f; input(f, 7, 2, 1); return f; }, [=](int r, int n, Obs& o) {
                Vals v(static_cast<size_t>(n));
                share_body(op, sh, r, v);
                o = v[size_t(r)];
            }});
        }
    for (int a = 0; a < 11; a++)
        for (int kind = 0; kind < 6; kind++) j.push_back({std::string("set ") + fop[a] + " " + S(kind), [kind] { return flow_in(kind, 0); }, [=](int r, int n, Obs& o) {
            Vals v(static_cast<size_t>(n));
            flow_body({a}, r, v);
            o = v[size_t(r)];
        }});
    for (int a = 0; a < 10; a++)
        for (int b = 0; b < 10; b++) j.push_back({std::string("set ") + fop[a] + ", " + fop[b], [] { return flow_in(1, 0); }, [=](int r, int n, Obs& o) {
            Vals v(static_cast<size_t>(n));
            flow_body({a, b}, r, v);
            o = v[size_t(r)];
        }});
    for (int u = 0; u < 12; u++) j.push_back({std::string("utility ") + un[u], [u] { return util_in(u, 6, 0); }, [u](int, int n, Obs&) {
            // no windows over memory of the caller with one process
            if (n > 1 || (u != 9 && u != 10)) util_body(u, 6);
        }});
    return j;
}
