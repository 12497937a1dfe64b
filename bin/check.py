#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--only SCENARIO] [--keep]
   check.py --replay FILE
   check.py --build ID...

Builds the harness of property ID from /repo's current tree, enumerates its
cases, re-executes every reported failure alone before believing it, matches
failures against known_findings.txt, writes evidence/ID.json.
Exit 0 / 1 (+ VIOLATION line); anything else is an error of the check."""
import argparse, glob, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.environ.get("MC_BUILD", os.path.join(V, "build"))
REPO = os.environ.get("MC_REPO", "/repo")
EV = os.environ.get("MC_EVIDENCE", os.path.join(V, "evidence"))


def build(targets):
    r = subprocess.run(["make", "-s", "-k", "-j8", "-f", os.path.join(V, "mc/Makefile"),
                        "REPO=" + REPO, "B=" + B] + [os.path.join(B, t) for t in targets],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=V)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print("check error: the harness did not build against the current tree")
        sys.exit(3)


def known(pid):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) scenario=(\S+) key=(\S+) case=/(.*?)/ (.*)$", l)
            if m and m.group(1) == pid:
                out.append(dict(scenario=m.group(2), key=m.group(3), case=m.group(4), text=m.group(5)))
    return out


def replay(binary, scen, picks, tier, timeout, env=None):
    d = tempfile.mkdtemp(prefix="mcreplay.")
    try:
        e = dict(os.environ)
        e["MC_SCRATCH"] = d
        if env:
            e.update(env)
        try:
            r = subprocess.run([binary, "--tier", tier, "--replay", scen, picks, "--dir", d], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout, cwd=d, env=e)
        except subprocess.TimeoutExpired:
            return True, "no progress for %d s" % timeout
        o = r.stdout.decode("latin1")
        if r.returncode == 0:
            return False, o
        if r.returncode in (1, 86) or r.returncode < 0 or r.returncode not in (2, 3, 96, 97, 98, 99):
            return True, o
        return None, o
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.build:
        ids = a.id or sorted(os.path.basename(x)[:-3] for x in glob.glob(os.path.join(V, "checks", "c[0-9]*.cc")))
        build(ids)
        return 0
    if a.replay:
        j = json.load(open(a.replay))
        b = j["property"].lower()
        build([b])
        bad, o = replay(os.path.join(B, b), j["scenario"], j["picks"], j.get("tier", "quick"), 120)
        print(o)
        print("REPRODUCED" if bad else "not reproduced")
        return 1 if bad else 0
    pid = a.id[0].upper()
    b = pid.lower()
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    build([b])
    tb = time.time() - t0
    binary = os.path.join(B, b)
    info = json.load(open(os.path.join(V, "checks", "info.json"))).get(pid, {})
    d = tempfile.mkdtemp(prefix="mc." + b + ".")
    limit = {"quick": 600, "thorough": 780}[tier]
    rc = 3
    try:
        cmd = [binary, "--tier", tier, "--out", d + "/stats.json", "--dir", d,
               "--time-limit", str(limit), "--hang", "25"]
        if a.only:
            cmd += ["--only", a.only]
        e = dict(os.environ)
        e["MC_SCRATCH"] = d
        try:
            r = subprocess.run(cmd, cwd=d, env=e, timeout=limit + 90)
        except subprocess.TimeoutExpired:
            print("check error: harness did not finish")
            return 3
        if r.returncode not in (0, 1) or not os.path.exists(d + "/stats.json"):
            print("check error: harness ended with", r.returncode)
            return 3
        st = json.load(open(d + "/stats.json"))
        fails = []
        for fn in sorted(glob.glob(d + "/fails.*")):
            for l in open(fn):
                try:
                    fails.append(json.loads(l))
                except ValueError:
                    pass
        fails.sort(key=lambda f: (f["scenario"], f["index"]))
        kf = known(pid)
        seen_kf, bad = {}, []
        for f in fails:
            for k in kf:
                if k["scenario"] == f["scenario"] and k["key"] == f["key"] and re.search(k["case"], f["case"]):
                    seen_kf.setdefault(k["text"], f)
                    break
            else:
                bad.append(f)
        for t in seen_kf:
            print("KNOWN-FINDING: property=%s %s" % (pid, t))
        violations = 0
        rc = 0
        if bad:
            groups = {}
            for f in bad:
                groups.setdefault((f["scenario"], f["key"]), []).append(f)
            confirmed, flaky = [], []
            tr = time.time()
            for (s, k), fs in groups.items():
                ok = None
                for f in fs[:3]:
                    if time.time() - tr > 150:
                        break
                    r1, o1 = replay(binary, f["scenario"], f["picks"], tier, 45)
                    if r1:
                        f["replay_output"] = o1[-4000:]
                        ok = f
                        break
                (confirmed if ok else flaky).append(ok or fs[0])
                if len(confirmed) >= 4:
                    break
            rd = os.path.join(EV, "replays")
            os.makedirs(rd, exist_ok=True)
            for i, f in enumerate(confirmed):
                p = os.path.join(rd, "%s-%d.json" % (pid, i))
                f["property"] = pid
                f["tier"] = tier
                json.dump(f, open(p, "w"), indent=1)
                print("  [%s] %s\n    case %s\n    %s" % (f["key"], f["msg"][:1500], f["case"][:600], ""))
                print("VIOLATION property=%s replay=%s" % (pid, p))
            violations = len(bad)
            if confirmed:
                rc = 1
            else:
                for f in flaky:
                    print("not reproduced alone: [%s] %s\n   case %s picks %s" % (f["key"], f["msg"][:800], f["case"][:500], f["picks"]))
                print("check error: reported failures did not reproduce")
                rc = 3
        scen = st["scenarios"]
        exhaustive = (not st["capped"]) and all(
            x["cases_run"] + sum(f["scenario"] == n and f["key"] in ("crash", "hang") for f in fails) >= x["cases_total"] > 0
            for n, x in scen.items()) and not bad
        cov = {
            "states": st["states"],
            "transitions": st["transitions"],
            "traces_validated_against_impl": st["executed"],
            "distinct_outcomes": st["outcomes"],
            "scenarios": scen,
            "exhaustive": exhaustive,
            "caps": st["caps"],
            "samples": st["samples"][:24],
            "rule": info.get("bounds", ""),
            "explanation": "every case is an execution of the code of the tree itself (no separate model of the library), compared with the reference model; states = distinct scheduler/file/observation states hashed, transitions = scheduler steps plus reference-model steps",
        }
        ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": info.get("level", "model_checking"), "coverage": cov,
              "assumptions": info.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2), "violations": violations}
        os.makedirs(EV, exist_ok=True)
        json.dump(ev, open(os.path.join(EV, pid + ".json"), "w"), indent=1)
        print("%s %s: %d cases, %d executions, %d states, %d transitions, %d outcomes, exhaustive=%s, build %.1fs, total %.1fs%s" % (
            pid, tier, st["cases"], st["executed"], st["states"], st["transitions"], st["outcomes"], exhaustive, tb, time.time() - t0,
            (" caps: " + "; ".join(st["caps"])) if st["caps"] else ""))
    finally:
        if a.keep:
            print("kept", d)
        else:
            shutil.rmtree(d, ignore_errors=True)
    return rc


if __name__ == "__main__":
    sys.exit(main())
