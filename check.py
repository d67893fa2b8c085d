#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current tree.

1. govc regenerates the proof obligations of every function under contract for
   the property from the current source and has the solvers discharge them.
2. The property's concrete oracle runs against the real code: it looks for a
   failing input when an obligation fails, and is the bounded stand-in for
   functions that are outside the verifier's reach.
"""
import json, os, subprocess, sys, time, re, shutil, tempfile

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(V, "build")

def sh(cmd, **kw):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], capture_output=True, text=True, errors="replace", **kw)

def known(prop):
    res = {}
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    cfg = json.load(open(os.path.join(V, "harness", "config.json")))[prop]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        rc = run(prop, tier, seed, t0, cfg, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def run(prop, tier, seed, t0, cfg, scratch):
    notes = []
    # ---- the verifier
    r = sh("bash %s/setup.sh" % V)
    if r.returncode != 0:
        print("verifier does not build:\n" + r.stdout + r.stderr)
        return 2
    to = 20 if tier == "quick" else 60
    rj = os.path.join(scratch, "govc.json")
    dump = os.path.join(scratch, "vc")
    gcmd = "%s/govc -repo %s -specs %s/contracts -prop %s -timeout %d -retry %d -json %s -dump %s" % (BUILD, REPO, V, prop, to, 3 * to, rj, dump)
    try:
        r = sh(gcmd, timeout=600)
        gout = r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        gout = "the verifier ran out of time"
    rep = None
    if os.path.exists(rj):
        rep = json.load(open(rj))
    funcs = (rep or {}).get("Funcs") or []
    if rep is None:
        notes.append("no proof this run: " + gout.strip()[-400:])
    proved = [f for f in funcs if f["Status"] == "proved"]
    failed = [f for f in funcs if f["Status"] == "failed"]
    other = [f for f in funcs if f["Status"] not in ("proved", "failed")]
    lem = (rep or {}).get("Lemmas") or []
    failed += [f for f in lem if f["Status"] != "proved"]
    proved += [f for f in lem if f["Status"] == "proved"]
    # an obligation that no solver decides is retried alone with more time (inside govc)
    # ---- the concrete oracle
    fails, stats, houts = [], [], []
    for h in cfg.get("oracles", []):
        f, s, o = oracle(prop, tier, seed, h, scratch)
        fails += f
        stats += s
        houts.append(o)
    if any(o.get("built") is False for o in houts):
        notes.append("concrete oracle did not compile against this tree: " + "; ".join(o["msg"] for o in houts if o.get("built") is False)[:300])
    kn = known(prop)
    new = [f for f in fails if f["key"] not in kn]
    for k, what in kn.items():
        if any(f["key"] == k for f in fails):
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    # ---- verdict
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, prop + ".json")
    nviol = 0
    fobl = [dict(function=f["Func"], position=f["Pos"], obligations=[dict(kind=o["Kind"], label=o["Label"], at=o["Pos"], result=o["Result"], solver=o["Solver"], output=o.get("Output", "")[:2000]) for o in f.get("Failed") or []]) for f in failed]
    if new or failed:
        nviol = max(len(new), sum(len(f.get("Failed") or [1]) for f in failed), 1)
        doc = dict(property=prop, failing_inputs=new, failed_obligations=fobl, verifier_output=gout[-6000:],
                   how_to_replay="VERIF_SEED=%d VERIF_TIER=%s python3 %s/check.py %s" % (seed, tier, V, prop))
        json.dump(doc, open(replay, "w"), indent=1)
    bounded = [f["Func"] + ": " + f["Status"] + " (" + (f["Reason"] or "").split("\n")[0][:160] + ")" for f in other]
    obl = sum(f["Obligations"] for f in proved + failed)
    dis = sum(f["Discharged"] for f in proved + failed)
    trusted, ext, back, called, inl = set(), set(), {}, set(), set()
    ms = 0
    for f in proved + failed:
        trusted |= set(f["Trusted"] or [])
        ext |= set(f["Externs"] or [])
        called |= set(f["Called"] or [])
        inl |= set(f["Inlined"] or [])
        ms += f["SolverMs"]
        for k, n in (f["Backends"] or {}).items():
            back[k] = back.get(k, 0) + n
    names = set(f["Func"] for f in funcs)
    ev = dict(property=prop, tier=tier, seed=seed, level="proof" if proved and not bounded else "other",
        coverage=dict(
            obligations=obl, discharged=dis,
            checker_cmd="build/govc -repo /repo -specs contracts -prop %s" % prop,
            trusted_base=sorted(["govc obligation generator (govc/) over golang.org/x/tools/go/ssa v0.52.0", "z3 / cvc5"] + ["extern contract: " + x for x in ext] + ["axiom: " + x for x in trusted]),
            functions_under_contract=sorted(f["Func"] for f in proved + failed),
            functions_proved=sorted(f["Func"] for f in proved),
            functions_inlined=sorted(inl),
            callee_contracts_proved_by_other_checks=sorted(called - names),
            functions_outside_reach_this_run=bounded,
            backends=back, solver_ms=ms,
            bounded_oracle_cases=sum(s["cases"] for s in stats),
            bounded_oracle=[h.get("bound", "") for h in cfg.get("oracles", [])],
            bounded_only=cfg.get("bounded_only", []),
            explanation="obligations discharged by the solvers for every function listed; bounded oracle runs are never counted as proved"),
        assumptions=cfg.get("assumptions", []) + GENERAL + notes,
        wall_s=round(time.time() - t0, 2), violations=nviol)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations of %d functions discharged; %d functions outside reach; oracle: %d cases, %d failures (%d known)" % (prop, dis, obl, len(proved + failed), len(bounded), sum(s["cases"] for s in stats), len(fails), len(fails) - len(new)))
    for b in bounded:
        print("  bounded only: " + b)
    for n in notes:
        print("  note: " + n)
    for f in fobl:
        for o in f["obligations"][:6]:
            print("  failed obligation: %s %s: %s at %s (%s)" % (f["function"], o["kind"], o["label"], o["at"], o["result"]))
    for f in new[:5]:
        print("  failing input: %s -- %s" % (json.dumps(f["input"])[:300], f["what"][:300]))
    if new:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if failed:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
        return 1
    return 0

GENERAL = [
    "int and int64 arithmetic is treated as mathematical; unsigned and up to 32-bit arithmetic wraps exactly",
    "single-threaded execution; no data races; pointer receivers are non-nil",
    "govc's translation of SSA to logic is trusted (self-tests in govc/selftest)",
]

def oracle(prop, tier, seed, h, scratch):
    pkg = h["pkg"]
    name = h.get("pkgname", os.path.basename(pkg))
    ov = {}
    common = os.path.join(scratch, name + "_common_test.go")
    src = open(os.path.join(V, "harness", "common.go.tmpl")).read().replace("PKGNAME", name)
    open(common, "w").write(src)
    ov["%s/%s/zz_verif_common_test.go" % (REPO, pkg)] = common
    for f in h["files"]:
        ov["%s/%s/zz_verif_%s" % (REPO, pkg, os.path.basename(f))] = os.path.join(V, "harness", f)
    # the repository's own tests of the package are left out
    d = os.path.join(REPO, pkg)
    if os.path.isdir(d):
        for f in os.listdir(d):
            if f.endswith("_test.go"):
                ov["%s/%s" % (d, f)] = ""
    ovf = os.path.join(scratch, "overlay-%s.json" % name)
    json.dump({"Replace": ov}, open(ovf, "w"))
    env = "VERIF_TIER=%s VERIF_SEED=%d TMPDIR=%s" % (tier, seed, scratch)
    lim = 240 if tier == "quick" else 2400
    binp = os.path.join(scratch, "oracle-%s.test" % name)
    b = sh("cd %s && go test -c -vet=off -overlay %s -o %s ./%s" % (REPO, ovf, binp, pkg))
    if b.returncode != 0:
        return [], [], dict(built=False, msg=(b.stdout + b.stderr)[-600:])
    try:
        r = sh("ulimit -v 16000000; cd %s && %s timeout %d %s -test.run '%s' -test.timeout %ds" % (scratch, env, lim, binp, h["run"], lim - 10), timeout=lim + 30)
        out = r.stdout + "\n" + r.stderr
        rc = r.returncode
    except subprocess.TimeoutExpired:
        return [], [], dict(built=True, msg="oracle ran out of time")
    fails = [json.loads(l[11:]) for l in out.split("\n") if l.startswith("VERIF-FAIL ")]
    stats = [json.loads(l[12:]) for l in out.split("\n") if l.startswith("VERIF-STATS ")]
    if rc != 0 and not fails:
        fails = [dict(key="crash", input="see what", what="the oracle run crashed: " + out[-1500:])]
    return fails, stats, dict(built=True, msg="")

main()
