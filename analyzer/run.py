import sys, time, importlib, json
sys.setrecursionlimit(100000)
from base import *
def rules():
    R = {}
    for m in ("rules1", "rules2", "rules3", "rules4", "rules5", "rules6", "rules7", "rules8", "rules9", "rules10", "rules11", "rules12"):
        try: mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m: raise
            continue
        R.update(mod.RULES)
    return R
if __name__ == "__main__":
    p = E.Prog(sys.argv[1])
    R = rules()
    for pid in sys.argv[2:] or sorted(R):
        t = time.time()
        c = Ctx(p, pid, "quick")
        R[pid](c)
        n = {s: sum(1 for o in c.obs if o.v.status == s) for s in (PROVED, REFUTED, UNDECIDED)}
        print(pid, n, "%.1fs" % (time.time() - t), c.notes[:2] if c.notes else "")
        for o in c.obs:
            if o.v.status != PROVED: print("   ", o.v.status, o.label, "|", o.loc, "|", o.v.how[:200], "|", str(o.v.witness)[:600])
