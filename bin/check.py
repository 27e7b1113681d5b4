#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current working tree.

1. govc generates the proof obligations of every contract tagged with the property from /repo's
   current source and hands them to the SMT solvers (the deciding step).
2. The contracts' executable counterparts (harness/) are run against the real code: they replay
   a failed proof as a concrete input, and stand in, bounded, for the parts named in DESIGN.md.
"""
import glob, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off",
           GOENV="off", GOFLAGS="-mod=mod", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
           GOCACHE="/root/.cache/go-build")
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
T0 = time.time()
DEADLINE = T0 + (840 if TIER == "quick" else 3600)
PKGS = {"root": (".", "gosudachi"), "dictionary": ("./dictionary", "dictionary"),
        "dartsclone": ("./dartsclone", "dartsclone"), "lnreader": ("./internal/lnreader", "lnreader"),
        "dicconv": ("./dicconv", "main")}


def ensure_govc():
    exe = os.path.join(HERE, ".build", "govc")
    srcs = glob.glob(os.path.join(HERE, "govc", "*.go"))
    if not os.path.exists(exe) or os.path.getmtime(exe) < max(map(os.path.getmtime, srcs)):
        subprocess.run(["bash", os.path.join(HERE, "bin", "setup.sh")], check=True)
    return exe


def run_govc(tmp, secs=0, limit=0):
    exe = ensure_govc()
    out = os.path.join(tmp, "govc%d.json" % secs)
    cmd = [exe, "-repo", REPO, "-specs", os.path.join(HERE, "contracts"), "-prop", PROP, "-out", out,
           "-cache", os.path.join(tmp, "proved"),  # of this run: the obligations it has discharged already
           "-t", str(secs or (20 if TIER == "quick" else 120))]
    left = limit or DEADLINE - time.time() - 120
    try:
        p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=left,
                           cwd=tmp, text=True, errors="replace")
        log, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        log, rc = "govc: time limit reached\n" + (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else "govc: time limit reached", 124
    rep = None
    if os.path.exists(out):
        try:
            rep = json.load(open(out))
        except ValueError:
            rep = None
    return " ".join(cmd), rc, log, rep


def build_ok(tmp):
    p = subprocess.run(["go", "build", "-buildvcs=false", "-o", os.path.join(tmp, "dist") + "/", "./..."], env=ENV, cwd=REPO,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, p.stdout


def run_harness(tmp, budget_ms, seed):
    """Runs the harness of the property; returns list of runs."""
    res = []
    for short, (rel, pkg) in PKGS.items():
        files = sorted(glob.glob(os.path.join(HERE, "harness", short, PROP.lower() + "_*_test.go")))
        if not files or not os.path.isdir(os.path.join(REPO, rel)):
            continue
        common = sorted(glob.glob(os.path.join(HERE, "harness", short, "common_*_test.go")))
        for fl in files:
            name = os.path.basename(fl)[:-len("_test.go")]
            out = os.path.join(tmp, "h_%s_%s_%d" % (short, name, seed))
            os.makedirs(out)
            rep = {}
            util = os.path.join(out, "util_test.go")
            src = open(os.path.join(HERE, "harness", "util.go.tmpl")).read().replace("package PKG", "package " + pkg)
            open(util, "w").write(src)
            base = os.path.join(REPO, rel)
            rep[os.path.join(base, "zz_verif_util_test.go")] = util
            # a common file is used by the harness files that name it: //verif:use NAME
            text = open(fl).read()
            for c in common:
                if "//verif:use " + os.path.basename(c)[len("common_"):-len("_test.go")] in text:
                    rep[os.path.join(base, "zz_verif_" + os.path.basename(c))] = c
            rep[os.path.join(base, "zz_verif_" + os.path.basename(fl))] = fl
            # the repository's own tests of the package are left out of this build
            for f in glob.glob(os.path.join(base, "*_test.go")):
                rep[f] = ""
            ov = os.path.join(out, "overlay.json")
            json.dump({"Replace": {os.path.normpath(k): v for k, v in rep.items()}}, open(ov, "w"))
            env = dict(ENV, VERIF_HOUT=out, VERIF_SEED=str(seed), VERIF_TIER=TIER, VERIF_BUDGET_MS=str(budget_ms),
                       VERIF_SCRATCH=os.path.join(out, "scratch"))
            os.makedirs(env["VERIF_SCRATCH"])
            cmd = ["go", "test", "-buildvcs=false", "-vet=off", "-overlay", ov, "-count=1", "-run", "^TestVerif" + PROP,
                   "-timeout", "700s", rel]
            lim = max(60, DEADLINE - time.time())
            try:
                p = subprocess.run(cmd, env=env, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   errors="replace", timeout=lim)
                rc, log = p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                rc, log = 124, "harness: time limit reached"
            r = {"file": os.path.relpath(fl, HERE), "cmd": " ".join(cmd), "rc": rc, "log": log[-6000:], "seed": seed,
                 "fails": [], "stats": []}
            for f in sorted(glob.glob(os.path.join(out, "fail-*.json"))):
                r["fails"].append(json.load(open(f)))
            for f in sorted(glob.glob(os.path.join(out, "stats-*.json"))):
                r["stats"].append(json.load(open(f)))
            if rc != 0 and not r["fails"]:
                if "[build failed]" in log or "[setup failed]" in log or rc == 124 or "signal: killed" in log:
                    r["unavailable"] = True
                else:
                    r["fails"].append({"property": PROP, "test": name, "what": "the real code ended the process",
                                       "output": log[-6000:]})
            res.append(r)
    return res


def main():
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % PROP)
    try:
        return decide(tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(tmp):
    ok, blog = build_ok(tmp)
    if not ok:
        print("the repository does not build:\n" + blog)
        return 2
    cmd, rc, log, rep = run_govc(tmp)
    proof_failures = []
    if rep is None:
        proof_failures = [{"name": "govc", "kind": "no report", "out": log[-4000:]}]
        rep = {"obligations": 0, "proved": 0, "units": [], "trusted": [], "axioms": [], "assumptions": []}
    else:
        proof_failures = rep.get("failures") or []
        if not rep.get("obligations") and not proof_failures:
            proof_failures = [{"name": PROP, "kind": "no obligation", "out": "no obligation was generated"}]
    quick_ms = 8000 if TIER == "quick" else 240000
    runs = run_harness(tmp, quick_ms, SEED)
    fails = [f for r in runs for f in r["fails"]]
    if proof_failures and not fails and len(proof_failures) <= 6 and DEADLINE - time.time() > 420:
        # few obligations failed and no input does: give the solvers more time
        cmd2, rc2, log2, rep2 = run_govc(tmp, 90 if TIER == "quick" else 300, 300)
        if rep2 is not None and rep2.get("obligations"):
            cmd, rep, proof_failures = cmd2, rep2, rep2.get("failures") or []
    if proof_failures and not fails:
        # a failed obligation: look harder for a concrete input
        for k in range(1, 3):
            left = DEADLINE - time.time()
            if left < 90:
                break
            more = run_harness(tmp, int(min(90, left / 4) * 1000), SEED + 1000 * k)
            runs += more
            fails = [f for r in more for f in r["fails"]]
            if fails:
                break
    known = []
    try:
        known = json.load(open(os.path.join(HERE, "known-findings.json"))).get("known", [])
    except (OSError, ValueError):
        pass
    rc = 0
    lines = []
    for k in known:
        if k.get("property") == PROP:
            print("KNOWN-FINDING: property=%s %s" % (PROP, k.get("what", "")))
    viol = 0
    rdir = os.path.join(HERE, "replay", PROP)
    if fails or proof_failures:
        shutil.rmtree(rdir, ignore_errors=True)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "violation.json")
        json.dump({"property": PROP, "seed": SEED, "tier": TIER, "failing_inputs": fails[:5],
                   "failed_obligations": proof_failures[:40], "checker": cmd,
                   "reproduce": "VERIF_SEED=%d VERIF_TIER=%s python3 bin/check.py %s" % (SEED, TIER, PROP)},
                  open(path, "w"), indent=1, ensure_ascii=True, default=str)
        viol = max(1, len(fails))
        rc = 1
        for f in proof_failures[:10]:
            print("failed obligation: %s %s" % (f.get("name"), f.get("pos", "")))
        for f in fails[:3]:
            print("failing input: " + json.dumps(f, ensure_ascii=True)[:1500])
        lines.append("VIOLATION property=%s replay=%s%s" % (PROP, os.path.relpath(path, HERE), "" if fails else " no-failing-input-found"))
    stats = [s for r in runs for s in r["stats"]]
    nev = sum(s.get("evaluations", 0) for s in stats)
    ndn = sum(s.get("distinct_nontrivial", 0) for s in stats)
    proved = rep.get("proved", 0)
    ev = {
        "property": PROP, "tier": TIER, "seed": SEED, "level": "proof",
        "coverage": {
            "obligations": rep.get("obligations", 0), "discharged": proved,
            "checker_cmd": cmd,
            "trusted_base": ["govc (verification condition generator, /verif/govc) over golang.org/x/tools/go/ssa", "z3, z3-new, cvc5"] +
                            ["trusted contract: " + str(t) for t in rep.get("trusted") or []] +
                            ["axiom: " + str(a) for a in rep.get("axioms") or []],
            "functions_under_contract": rep.get("units"),
            "trivial_obligations": rep.get("trivial"), "vacuity_covers": rep.get("covers"),
            "discharged_by_back_end": rep.get("by_solver"), "solver_seconds": rep.get("solver_seconds"),
            "slowest": rep.get("slowest"), "skipped_missing": rep.get("skipped_missing"),
            "runtime_contract_validation": {
                "label": "bounded: the contracts' executable counterparts run on generated inputs; never counted as proved",
                "evaluations": nev, "distinct_nontrivial": ndn,
                "rule": "; ".join(sorted({s.get("rule", "") for s in stats if s.get("rule")})),
                "samples": [x for s in stats for x in (s.get("samples") or [])[:2]][:8],
                "unavailable": [r["file"] for r in runs if r.get("unavailable")],
            },
        },
        "assumptions": [str(a) for a in rep.get("assumptions") or []],
        "wall_s": round(time.time() - T0, 2), "violations": viol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", PROP + ".json"), "w"), indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d contract evaluations on the real code (%d distinct), %.1f s" %
          (PROP, rep.get("obligations", 0), proved, nev, ndn, time.time() - T0))
    for r in runs:
        if r.get("unavailable"):
            print("harness not usable here: %s: %s" % (r["file"], r["log"][-600:]))
    for l in lines:
        print(l)
    return rc


sys.exit(main())
