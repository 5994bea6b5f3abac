"""plant.py SEEDFILE [ID...]: validate planted changes in a scratch copy of /repo and keep them under seeded/.

A seed file defines SEEDS: list of dict(id, property, edits=[(file, old, new)], demo=<main.rs>, needs, breaks).
A change is kept when it builds, the stable tests pass, and the demonstration passes without and fails with it."""
import sys, os, subprocess, json, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds a scratch crate against the repository in the working directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src" && cp "$here/main.rs" "$t/src/main.rs" || exit 2
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock.repo"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
magog = { path = "$repo" }
X
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo build -q --offline 2>"$t/log" || { tail -20 "$t/log"; exit 2; }
timeout 60 "$t/target/debug/demo"
'''
def sh(cmd, cwd, timeout=600, env=None):
    e = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode("utf8", "replace")
def tests(d):
    rc, o = sh(["cargo", "test", "--offline", "--workspace", "--no-fail-fast", "-q"], d)
    if "could not compile" in o: return None, o
    fails = [l for l in o.split("\n") if l.startswith("test ") and "FAILED" in l or l.startswith("    ") and "::" in l and rc]
    return rc == 0, "\n".join(fails[:8])
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    base = tempfile.mkdtemp(prefix="magog-plant-"); d = base + "/repo"
    try:
        sh(["cp", "-a", "/repo", d], "/")
        for s in ns["SEEDS"]:
            if want and s["id"] not in want: continue
            sh(["git", "checkout", "-q", "--", "."], d)
            st = base + "/seed"; shutil.rmtree(st, ignore_errors=True); os.makedirs(st)
            open(st + "/main.rs", "w").write(s["demo"]); open(st + "/demo.sh", "w").write(DEMO); os.chmod(st + "/demo.sh", 0o755)
            rc, o = sh(["bash", st + "/demo.sh"], d)
            if rc: print(s["id"], "DEMO FAILS ON CLEAN TREE", o[-600:]); continue
            bad = False
            for f, a, b in s["edits"]:
                t = open(d + "/" + f).read()
                if t.count(a) != 1: print(s["id"], "EDIT", f, "matches", t.count(a)); bad = True; break
                open(d + "/" + f, "w").write(t.replace(a, b))
            if bad: continue
            ok, o = tests(d)
            if not ok: print(s["id"], "TESTS FAIL" if ok is False else "DOES NOT COMPILE", o[-700:]); continue
            rc, o = sh(["bash", st + "/demo.sh"], d)
            if rc == 0: print(s["id"], "DEMO DOES NOT FAIL", o[-300:]); continue
            _, diff = sh(["git", "diff"], d)
            out = ROOT + "/seeded/" + s["id"]
            shutil.rmtree(out, ignore_errors=True); shutil.copytree(st, out)
            open(out + "/patch.diff", "w").write(diff)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            e = dict(os.environ, MAGOG_REPO=d)
            r = subprocess.run([ROOT + "/check.sh", s["property"], "quick"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode("utf8", "replace").strip().split("\n")
            print(s["id"], "kept;", "CAUGHT" if r.returncode == 1 and "VIOLATION property" in "\n".join(o) else "MISSED (exit %d) %s" % (r.returncode, o[-1][:200]))
            sys.stdout.flush()
    finally: shutil.rmtree(base, ignore_errors=True)
main()
