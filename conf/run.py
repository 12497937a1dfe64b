#!/usr/bin/env python3
"""Conformance of the model MPI: the same programs (MPI calls alone, the
library, the utilities) on the model and on the installed Open MPI must leave
the same files and observe the same values. run.py [process counts]"""
import os, subprocess, sys, tempfile, shutil, filecmp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
B = os.environ.get("MC_BUILD", V + "/build")
nps = [int(x) for x in sys.argv[1:]] or [1, 2, 3, 4]
subprocess.run(["make", "-s", "-j8", "-f", V + "/mc/Makefile", "REPO=" + REPO, "B=" + B, B + "/conf_model", B + "/conf_real"], check=True)
bad = total = 0
for np in nps:
    d = tempfile.mkdtemp(prefix="mcconf.")
    try:
        env = dict(os.environ, MC_CONF=d, MC_NP=str(np), MC_SCRATCH=d)
        st = d + "/scratch"
        os.mkdir(st)
        r = subprocess.run([B + "/conf_model", "--tier", "quick", "--out", st + "/stats.json", "--dir", st, "--time-limit", "300", "--hang", "60"], env=env, cwd=st)
        n = len([x for x in os.listdir(d) if x.isdigit()])
        env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1")
        for i in range(0, n, 20):
            try:
                r = subprocess.run(["mpirun", "--oversubscribe", "-n", str(np), B + "/conf_real", d, str(i), str(i + 20)], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
                if r.returncode:
                    print("mpirun", i, r.returncode, r.stderr.decode()[-500:])
            except subprocess.TimeoutExpired:
                print("mpirun", i, "timeout")
        for i in range(n):
            total += 1
            j = d + "/" + str(i)
            name = open(j + "/name").read().strip() if os.path.exists(j + "/name") else "?"
            f = []
            a, b = set(os.listdir(j + "/in")), set(os.listdir(j + "/model"))
            a = {x for x in a if not x.startswith("core")}
            for x in sorted(a ^ b):
                f.append(("only real: " if x in a else "only model: ") + x)
            for x in sorted(a & b):
                if not filecmp.cmp(j + "/in/" + x, j + "/model/" + x, False):
                    f.append("file %s differs" % x)
            for k in range(np):
                p, q = j + "/model.obs.%d" % k, j + "/real.obs.%d" % k
                if not os.path.exists(p) or not os.path.exists(q):
                    f.append("no observations of process %d" % k)
                elif open(p, "rb").read() != open(q, "rb").read():
                    f.append("process %d observes %r on the model, %r really" % (k, open(p, "rb").read(), open(q, "rb").read()))
            if f:
                bad += 1
                print("np=%d job %d (%s): %s" % (np, i, name, "; ".join(f)[:600]))
    finally:
        if not os.environ.get("MC_KEEP"): shutil.rmtree(d, ignore_errors=True)
print("%d programs, %d differ" % (total, bad))
sys.exit(bad != 0)
