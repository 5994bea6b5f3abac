"""check.py PROPERTY quick|thorough: decide one property of /repo's current source.

Exit 0: no violation (all obligations decided or listed as undecided in the evidence);
exit 1: VIOLATION line(s); exit 2: the tree could not be analysed."""
import resource, sys, os, time, json, subprocess, tempfile, shutil, fcntl, hashlib, re
sys.setrecursionlimit(200000)
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
REPO = os.environ.get("MAGOG_REPO", "/repo")
sys.path.insert(0, HERE)

def sh(cmd, env=None, cwd=None, timeout=600):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode("utf8", "replace")

def driver():
    """the MIR dumper, built from the committed sources when it is not there"""
    src = os.path.join(ROOT, "driver"); tgt = os.path.join(ROOT, "target")
    exe = os.path.join(tgt, "release", "magog-mir-dump")
    os.makedirs(tgt, exist_ok=True)
    h = hashlib.sha256(open(os.path.join(src, "src", "main.rs"), "rb").read()).hexdigest()
    stamp = os.path.join(tgt, "driver.stamp")
    with open(os.path.join(tgt, "driver.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h):
            env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true")
            for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN", "RUSTFLAGS"): env.pop(k, None)
            rc, out = sh(["cargo", "+nightly", "build", "--release", "--offline"], env, src)
            if rc: print(out[-3000:]); print("cannot build the MIR dumper"); sys.exit(2)
            open(stamp, "w").write(h)
    return exe

def dump(exe, out):
    rc, sr = sh(["rustc", "+nightly", "--print", "sysroot"])
    sr = sr.strip().split("\n")[-1]
    tmp = tempfile.mkdtemp(prefix="magog-analysis-")
    try:
        env = dict(os.environ, MAGOG_DUMP=out, LD_LIBRARY_PATH=sr + "/lib", RUSTC_WORKSPACE_WRAPPER=exe, CARGO_TARGET_DIR=tmp, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
        for k in ("RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "RUSTFLAGS"): env.pop(k, None)
        rc, o = sh(["cargo", "+nightly", "check", "--offline", "--lib"], env, REPO)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    if rc or not os.path.exists(out):
        print(o[-3000:]); print("cannot analyse the tree: it does not compile"); sys.exit(2)

def known():
    """known findings: property and the obligation key each is identified by"""
    r = {}
    f = os.path.join(ROOT, "known-findings.txt")
    for ln in open(f) if os.path.exists(f) else ():
        m = re.match(r"known: property=(C\d+) key=(\w+) (.*)", ln.strip())
        if m: r[(m.group(1), m.group(2))] = m.group(3)
    return r

def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    t0 = time.time()
    import run, base, eval as E
    from base import PROVED, REFUTED, UNDECIDED
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    fd, out = tempfile.mkstemp(prefix="magog-dump-", suffix=".json"); os.close(fd); os.unlink(out)
    try:
        dump(driver(), out)
        p = E.Prog(out)
    finally:
        if os.path.exists(out): os.unlink(out)
    tf = time.time() - t0
    c = base.Ctx(p, pid, tier, seed)
    # an obligation that needs more memory than this is left undecided
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    try: run.rules()[pid](c)
    except Exception as e:
        c.add("rule stopped early", pid, "src", "anchor", base.Verdict(UNDECIDED, "analysis error %s: %s" % (type(e).__name__, str(e)[:160])))
    if not c.obs: c.add("rule produced no obligation", pid, "src", "anchor", base.Verdict(UNDECIDED, "no obligation"))
    n = {s: [o for o in c.obs if o.v.status == s] for s in (PROVED, REFUTED, UNDECIDED)}
    kn = known(); code = 0
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    found = []
    for o in n[REFUTED]:
        key = o.key()
        found.append({"obligation": o.label, "function": o.fn, "at": o.loc, "rule": o.rule, "why": o.v.how, "witness": o.v.witness, "key": key, "known": (pid, key) in kn})
    new = [f for f in found if not f["known"]]
    for f in found:
        if f["known"]: print("KNOWN-FINDING: property=%s %s at %s: %s" % (pid, f["function"], f["at"], kn[(pid, f["key"])]))
    rep = os.path.join(ROOT, "evidence", pid + ".violations.json")
    if os.path.exists(rep): os.unlink(rep)
    if new:
        code = 1
        json.dump({"property": pid, "violations": new, "reproduce": "./check.sh %s %s" % (pid, tier)}, open(rep, "w"), indent=1)
        for f in new:
            print("%s: %s (%s): %s -- %s" % (pid, f["function"], f["at"], f["obligation"], f["why"]))
            if f["witness"]: print("   " + json.dumps(f["witness"])[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, rep))
    checks = json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]
    level = [x["level"] for x in checks if x["property"] == pid] or ["other"]
    from collections import Counter
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level[0], "wall_s": round(time.time() - t0, 3), "coverage": {
        "explanation": "Every obligation is an equation, inclusion or reachability condition on the value graph that the analysis computes from the MIR of the current tree; 'discharged' are those whose normal forms coincide (or whose condition normalises to false), 'violated' those which differ and which an interpretation of the free symbols separates, 'undecided' the rest.",
        "obligations": len(c.obs), "discharged": len(n[PROVED]), "violated": len(n[REFUTED]), "known": sum(f["known"] for f in found), "undecided": len(n[UNDECIDED]),
        "rules": dict(Counter(o.rule for o in c.obs)),
        "decided_by": dict(Counter(o.v.how.split(":")[0][:80] for o in n[PROVED])),
        "functions_analysed": len(c.visited), "call_sites": c.callsites, "summarised_loops": c.loops,
        "functions_in_crate": len(p.insts), "functions": sorted(x if isinstance(x, str) else c.name(x) for x in c.visited)[:200],
        "front_end_s": round(tf, 2), "unmodelled": c.notes[:20],
        "undecided_obligations": [{"obligation": o.label, "function": o.fn, "at": o.loc, "why": o.v.how} for o in n[UNDECIDED]],
        "samples": [{"obligation": o.label, "function": o.fn, "at": o.loc, "rule": o.rule, "verdict": o.v.status, "how": o.v.how, "s": round(o.t, 3)} for o in c.obs][:60]}}
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d violated (%d known), %d undecided; %d functions, %d call sites; %.1f s" % (
        pid, len(c.obs), len(n[PROVED]), len(n[REFUTED]), sum(f["known"] for f in found), len(n[UNDECIDED]), len(c.visited), c.callsites, time.time() - t0))
    for o in n[UNDECIDED]: print("   undecided: %s (%s, %s): %s" % (o.label, o.fn, o.loc, o.v.how))
    sys.exit(code)
if __name__ == "__main__": main()
