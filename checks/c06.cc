// C06: an I/O failure is never silent. Every I/O call of every process is
// made to fail, one (thorough: two) at a time; the error state of the failing
// process must show it, and must be clear when nothing failed.
#include "work.hh"

static const char* FN = "faulty.segy";
static const size_t NS = 2, DO = 248;

static SparseFile input(size_t nt)
{
    SparseFile f;
    put_file(f, ho_bytes("C 1 X", int(NS), 4000, 5, true), nt, NS, [](size_t i, uc* h) { put32(h + 188, uint32_t(i)); }, [](size_t i, size_t k) { return bits(float(i * 10 + k)); });
    return f;
}
struct Seen {
    ExSeisPIOL* piol = nullptr;
    int phase        = 0;  // number of operations that returned
    std::vector<int> err;  // error state after each returned operation
};
typedef std::function<void(int, std::shared_ptr<ExSeisPIOL>, std::function<void()>)> Prog;

static void explore_faults(mc::Case& c, int nr, int depth, const std::string& what, std::function<void()> setup, Prog prog, bool excl_open = false)
{
    mc::Config cfg;
    cfg.nranks          = nr;
    cfg.bound[mc::FAULT] = depth;
    cfg.faults.open     = true;
    cfg.faults.close = cfg.faults.view = cfg.faults.read = cfg.faults.write = cfg.faults.size = cfg.faults.setsize = true;
    cfg.allow_request_leak = true;
    std::vector<Seen> seen;
    mc::explore_case(
      c, cfg,
      [&]() {
          setup();
          seen.assign(size_t(nr), Seen());
      },
      [&](int rank) {
          auto& s = seen[size_t(rank)];
          std::shared_ptr<ExSeisPIOL> piol = ExSeis::New();
          s.piol = piol.get();
          prog(rank, piol, [&]() {
              s.phase++;
              s.err.push_back(piol->log->isErr());
          });
          s.phase++;
          s.err.push_back(piol->log->isErr());
          s.piol = nullptr;
      },
      [&](const mc::Result& r) {
          std::string inj;
          for (auto& i : r.injected) inj += i.op + " on rank " + S(i.rank) + "; ";
          if (getenv("MC_SHOW") && r.status == mc::Status::Usage) fprintf(stderr, "USAGE %s %s\n", inj.c_str(), r.msg.c_str());
          c.outcome(mc::mix(mc::hash_bytes(inj.data(), inj.size()), uint64_t(r.status)));
          if (r.status != mc::Status::Done && r.status != mc::Status::Deadlock && r.status != mc::Status::Exited) {
              // anything else (misuse, exception) is only looked at when
              // nothing failed: the error path may do what it likes as long
              // as the failure shows
              if (r.injected.empty()) c.fail("run", what + ": " + mc::status_name(r.status) + ": " + r.msg);
          }
          if (r.status == mc::Status::Deadlock && r.injected.empty()) c.fail("run", what + ": " + r.msg);
          for (int rk = 0; rk < nr; rk++) {
              auto& s  = seen[size_t(rk)];
              bool err = s.piol ? s.piol->log->isErr() : (!s.err.empty() && s.err.back());
              bool failed_here = false;
              for (auto& i : r.injected)
                  if (i.rank == rk || i.op == "MPI_File_open") failed_here = true;
              if (r.injected.empty() && err) c.fail("spurious", what + ": rank " + S(rk) + " reports an error although nothing failed");
              // a run that the model ended at a misuse of MPI (the error path of
              // another process) may not have let this process go on
              if (r.status != mc::Status::Done && r.status != mc::Status::Deadlock) continue;
              if (failed_here && !err) c.fail("silent", what + ": " + inj + "failed and rank " + S(rk) + " reports no error (" + mc::status_name(r.status) + ")");
          }
      });
}
static std::vector<std::vector<size_t>> shares_of(int nr, size_t n)
{
    std::vector<std::vector<size_t>> all;
    all_shares(n, nr, all);
    return all;
}

SCENARIO(data_layer)
{
    int nr   = c.range(1, 3, "ranks");
    int op   = c.range(0, 5, "op");
    int op2  = c.range(0, 5, "then");
    int coll = c.range(0, 1, "collective");
    auto sh  = pickv(c, shares_of(nr, 4), "shares");
    size_t mx = c.of(std::vector<size_t>{16, 40, 4096}, "maxSize");
    if (!c.go()) return;
    explore_faults(
      c, nr, c.thorough() && nr <= 2 ? 2 : 1, "data operations " + S(op) + "," + S(op2), [&]() { mc::fs()[FN] = input(8); },
      [&](int rank, std::shared_ptr<ExSeisPIOL> piol, std::function<void()> mark) {
          DataMPIIO::Opt opt;
          opt.maxSize = mx;
          opt.coll    = coll;
          DataMPIIO d(piol, FN, opt, FileMode::ReadWrite);
          mark();
          size_t n = sh[size_t(rank)], o = offs_of(sh)[size_t(rank)];
          std::vector<uc> b(n * 8 + 8);
          Off l;
          for (size_t i = 0; i < n; i++) l.push_back(100 + (o + i) * 8);
          for (int k : {op, op2}) {
              switch (k) {
                  case 0: d.read(o * 8, n * 8, b.data()); break;
                  case 1: d.write(o * 8, n * 8, b.data()); break;
                  case 2: d.read(o * 16, 8, 16, n, b.data()); break;
                  case 3: d.write(o * 16, 8, 16, n, b.data()); break;
                  case 4: d.read(8, n, l.data(), b.data()); break;
                  default: d.write(8, n, l.data(), b.data());
              }
              mark();
          }
          d.getFileSz();
          mark();
          d.setFileSz(1234);
          mark();
      });
}
SCENARIO(read_file)
{
    int nr    = c.range(1, 3, "ranks");
    int api   = c.range(0, 2, "api"), what = c.range(0, 2, "what");
    int dir   = c.range(0, 1, "direct");
    auto sh   = pickv(c, shares_of(nr, 3), "shares");
    size_t mx = c.of(std::vector<size_t>{2 * DO, 1 << 20}, "maxSize");
    if (!c.go()) return;
    explore_faults(
      c, nr, c.thorough() && nr <= 2 ? 2 : 1, "reading api " + S(api) + " what " + S(what), [&]() { mc::fs()[FN] = input(6); },
      [&](int rank, std::shared_ptr<ExSeisPIOL> piol, std::function<void()> mark) {
          DataMPIIO::Opt opt;
          opt.maxSize = mx;
          ReadSEGY::Opt fo;
          ObjectSEGY::Opt oo;
          std::unique_ptr<ReadDirect> rd(dir ? new ReadDirect(piol, FN) : new ReadDirect(piol, FN, opt, oo, fo));
          mark();
          // sizes the caller knows: a failed open must not make reads unsafe
          size_t n = sh[size_t(rank)], o = offs_of(sh)[size_t(rank)];
          size_t ns = (*rd)->readNs();
          Off l;
          for (size_t i = 0; i < n; i++) l.push_back((o + i) * 2);
          if (api == 2) std::reverse(l.begin(), l.end());
          std::vector<float> t(n * std::max(ns, NS) + 1);
          Param p(n);
          float* tp = what == 1 ? const_cast<float*>(TRACE_NULL) : t.data();
          Param* pp = what == 0 ? PIOL_PARAM_NULL : &p;
          if (api == 0) rd->readTrace(o, n, tp, pp);
          else if (api == 1) rd->readTraceNonContiguous(n, l.data(), tp, pp);
          else rd->readTraceNonMonotonic(n, l.data(), tp, pp);
          mark();
      });
}
SCENARIO(write_file)
{
    int nr    = c.range(1, 3, "ranks");
    int op    = c.range(0, 5, "op");
    int dir   = c.range(0, 1, "direct");
    auto sh   = pickv(c, shares_of(nr, 3), "shares");
    size_t mx = c.of(std::vector<size_t>{2 * DO, 1 << 20}, "maxSize");
    if (!c.go()) return;
    explore_faults(
      c, nr, c.thorough() && nr <= 2 ? 2 : 1, "writing op " + S(op), [&]() { mc::fs().clear(); },
      [&](int rank, std::shared_ptr<ExSeisPIOL> piol, std::function<void()> mark) {
          DataMPIIO::Opt opt;
          opt.maxSize = mx;
          WriteSEGY::Opt fo;
          ObjectSEGY::Opt oo;
          std::unique_ptr<WriteDirect> f(dir ? new WriteDirect(piol, FN) : new WriteDirect(piol, FN, opt, oo, fo));
          mark();
          f->writeNs(NS);
          f->writeInc(0.004);
          f->writeText("hello");
          size_t n = sh[size_t(rank)], o = offs_of(sh)[size_t(rank)];
          Off l;
          for (size_t i = 0; i < n; i++) l.push_back((o + i) * 2);
          std::vector<float> t(n * NS + 1);
          Param p(n);
          switch (op) {
              case 0: f->writeTrace(o, n, t.data(), &p); break;
              case 1: f->writeTrace(o, n, t.data()); break;
              case 2: f->writeParam(o, n, &p); break;
              case 3: f->writeTraceNonContiguous(n, l.data(), t.data(), &p); break;
              case 4: f->writeTraceNonContiguous(n, l.data(), t.data()); break;
              default: f->writeParamNonContiguous(n, l.data(), &p);
          }
          mark();
          f->writeNt(7);
          f.reset();
          mark();
      });
}
// genuine failures: missing files, empty names, wrong modes
SCENARIO(missing)
{
    int nr   = c.range(1, 3, "ranks");
    int kind = c.range(0, 4, "kind");
    if (!c.go()) return;
    mc::fs().clear();
    mc::fs()[FN] = input(3);
    mc::Config cfg;
    cfg.nranks = nr;
    std::vector<int> err(size_t(nr), -1);
    auto r = mc::run_case(c, cfg, [&](int rank) {
        std::shared_ptr<ExSeisPIOL> piol = ExSeis::New();
        std::vector<uc> b(64);
        if (kind == 0) ReadDirect f(piol, "absent.segy");
        if (kind == 1) ReadDirect f(piol, "");
        if (kind == 2) WriteDirect f(piol, "");
        if (kind == 3) {
            DataMPIIO d(piol, FN, FileMode::Read);
            d.write(0, 8, b.data());
        }
        if (kind == 4) {
            DataMPIIO d(piol, FN, FileMode::Write);
            d.read(0, 8, b.data());
        }
        err[size_t(rank)] = piol->log->isErr();
    });
    if (r.status != mc::Status::Done) c.fail("run", std::string(mc::status_name(r.status)) + ": " + r.msg);
    for (int e : err)
        if (e == 0) c.fail("silent", "kind " + S(kind) + " failed silently");
}

// Operations on shares of the traces and set processing as a whole
static void whole(mc::Case& c, int nr, const std::string& what, std::function<void()> setup, std::function<void(int, Vals&)> body)
{
    mc::Config cfg;
    cfg.nranks           = nr;
    cfg.bound[mc::FAULT] = 1;
    cfg.faults.open = cfg.faults.close = cfg.faults.view = cfg.faults.read = cfg.faults.write = cfg.faults.size = cfg.faults.setsize = true;
    cfg.allow_request_leak = true;
    std::vector<int> err;
    Vals v;
    work_stops = false;
    work_end   = [&](int rank, std::shared_ptr<ExSeis> piol) { err[size_t(rank)] = piol->log->isErr(); };
    mc::explore_case(
      c, cfg,
      [&]() {
          setup();
          err.assign(size_t(nr), -1);
          v.assign(size_t(nr), {});
      },
      [&](int rank) { body(rank, v); },
      [&](const mc::Result& r) {
          std::string inj;
          for (auto& i : r.injected) inj += i.op + " of " + i.file + " on process " + S(i.rank) + "; ";
          c.outcome(mc::mix(mc::hash_bytes(inj.data(), inj.size()), uint64_t(r.status)));
          if (r.injected.empty()) {
              if (r.status != mc::Status::Done) return c.fail("run", what + ": " + mc::status_name(r.status) + ": " + r.msg);
              for (int e : err)
                  if (e) return c.fail("spurious", what + ": an error is reported although nothing failed");
              return;
          }
          // a program that stopped (or cannot go on because of the failure of
          // another process) is not silent
          if (r.status != mc::Status::Done) return;
          for (auto& i : r.injected)
              if (err[size_t(i.rank)] != 1) return c.fail("silent", what + ": " + inj + "failed and no error is reported");
      });
    work_end = nullptr;
}
SCENARIO(shares)
{
    auto sh = pickv(c, std::vector<std::vector<size_t>>{{4}, {2, 2}, {0, 3}, {4, 1}, {3, 0}}, "shares");
    int op  = c.pick(7, "operation");
    if (!c.go()) return;
    size_t n = 0;
    for (size_t s : sh) n += s;
    whole(c, int(sh.size()), std::string(sopn[op]) + " shares " + vs(sh), [&] { mc::fs().clear(); mc::FS in; input(in, n, 2, 0); mc::fs() = in; }, [&](int rank, Vals& v) { share_body(op, sh, rank, v); });
}
SCENARIO(sets)
{
    int a = c.pick(10, "operation"), kind = c.pick(c.thorough() ? 6 : 3, "files");
    int b = c.pick(c.thorough() ? 11 : 2, "second");
    if (!c.thorough() && b == 1) b = 10;
    if (!c.go()) return;
    mc::FS in = flow_in(kind, 0);
    std::vector<int> ops{a, b};
    whole(c, 1, std::string(fop[a]) + ", " + fop[b] + ", output of file set " + S(kind), [&] { mc::fs() = in; }, [&](int rank, Vals& v) { flow_body(ops, rank, v); });
}
