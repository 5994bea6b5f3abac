"""mutate.py FILE [ID...] [-t]: run the checks against edited scratch copies of /repo.

FILE defines MUTS: list of dict(id, props=[..] (empty: all), edits=[(file, old, new)], kind="bug"|"same").
kind "bug": some obligation of the properties should be refuted; "same": none may be. -t: also run the tests."""
import sys, os, subprocess, shutil, tempfile, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/analyzer")
DRIVER = os.environ.get("MAGOG_DRIVER", ROOT + "/target/driver/release/magog-mir-dump")
def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode("utf8", "replace")
SR = sh(["rustc", "+nightly", "--print", "sysroot"])[1].strip()
def one(m, tests):
    base = tempfile.mkdtemp(prefix="magog-mut-"); d = base + "/repo"
    try:
        shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("target", ".git"))
        for f, a, b in m["edits"]:
            s = open(d + "/" + f).read()
            if s.count(a) < 1: return "NO MATCH in %s: %s" % (f, a[:60])
            open(d + "/" + f, "w").write(s.replace(a, b, 1))
        rc, o = sh(["cargo", "+nightly", "check", "--offline", "--lib"], d, dict(MAGOG_DUMP=base + "/d.json", LD_LIBRARY_PATH=SR + "/lib", RUSTC_WORKSPACE_WRAPPER=DRIVER, CARGO_TARGET_DIR=base + "/t"))
        if not os.path.exists(base + "/d.json"):
            return "DOES NOT BUILD: " + " / ".join([l for l in o.split("\n") if l.startswith("error")][:3])
        if os.environ.get("KEEP"): shutil.copy(base + "/d.json", os.environ["KEEP"] + "/" + m["id"] + ".json")
        t = ""
        if tests:
            rc, o = sh(["cargo", "test", "--offline", "-q"], d, dict(CARGO_TARGET_DIR=base + "/t2"))
            t = " [tests pass]" if rc == 0 else " [tests FAIL]"
        rc, o = sh([sys.executable, ROOT + "/analyzer/run.py", base + "/d.json"] + list(m.get("props", [])), timeout=3000)
        ref = [l for l in o.split("\n") if l.startswith("    refuted") and not any(k in l for k in m.get("known", KNOWN))]
        err = "" if rc == 0 else " ERROR " + o[-300:]
        ae = [l.strip()[:160] for l in o.split("\n") if "analysis error" in l]
        if ae: err += " ANALYSIS ERROR %d %s" % (len(ae), ae[0])
        und = sum(1 for l in o.split("\n") if l.startswith("    undecided"))
        if m.get("kind", "bug") == "bug": r = "caught" if ref else "MISSED"
        else: r = "FALSE ALARM" if ref else "quiet"
        return "%s%s%s (%d undecided) %s" % (r, t, err, und, (ref[0] if ref and r != "caught" or ref and os.environ.get("V") else "").strip()[:int(os.environ.get("V") or 400)])
    finally: shutil.rmtree(base, ignore_errors=True)
KNOWN = ["centroid"]
def main():
    ns = {}; a = [x for x in sys.argv[1:] if x != "-t"]
    exec(open(a[0]).read(), ns)
    ms = [m for m in ns["MUTS"] if not a[1:] or m["id"] in a[1:]]
    with cf.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for m, r in zip(ms, ex.map(lambda m: one(m, "-t" in sys.argv), ms)): print("%-32s %s" % (m["id"], r), flush=True)
main()
