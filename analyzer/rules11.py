"""C39-: equality and copies of values, sharing between threads, termination."""
from base import *
from base import _al, TO
import signal
import interp
from fractions import Fraction
RULES = {}
def rule(pid):
    def d(f): RULES[pid] = f; return f
    return d
def adtof(p, t):
    while t["k"] in ("ref", "ptr"): t = p.tys[t["t"]]
    return t

class Same(object):
    """equality part by part: same kind, same numbers of parts, equal parts in the same order"""
    def __init__(self, c, stored): self.c = c; self.p = c.p; self.stored = stored
    def cache(self, t): return t.get("path", "").endswith("::primitives::envelope::Envelope")
    def parts(self, path, v):
        fs = [(j, self.p.tys[f[1]]) for j, f in enumerate(self.p.adts[path]["variants"][v]["fields"])]
        if self.stored or not path.split("::")[-2:-1] or "::types::" not in path: return fs
        return [f for f in fs if not self.cache(f[1])] if any(not self.cache(f[1]) for f in fs) else fs
    def __call__(self, t, x, y, depth=0):
        t = adtof(self.p, t); k = t["k"]
        if depth > 12: raise E.Unsupported("deep type")
        if k == "float" or k == "param": return feq(x, y)
        if k in ("int", "uint"): return ieq(x, y)
        if k in ("slice", "array") or k == "adt" and t["path"] in ("alloc::vec::Vec", "std::vec::Vec"):
            et = self.p.tys[t["args"][0] if k == "adt" else t["t"]]; j = fresh("k")
            return And(ieq(seqlen(x), seqlen(y)), forall(j, seqlen(x), self(et, at(x, j), at(y, j), depth + 1)))
        if k == "adt":
            if "PhantomData" in t["path"]: return TRUE
            if t["path"] == interp.OPTION:
                return Or(And(isvar(x, 0, 2), isvar(y, 0, 2)), And(isvar(x, 1, 2), isvar(y, 1, 2), self(self.p.tys[t["args"][0]], fld(x, 1, 0), fld(y, 1, 0), depth + 1)))
            if not t["path"].startswith("magog::") or t["path"] not in self.p.adts: raise E.Unsupported("equality of " + t["s"])
            vs = self.p.adts[t["path"]]["variants"]; out = []
            for v in range(len(vs)):
                e = [isvar(x, v, len(vs)), isvar(y, v, len(vs))] if len(vs) > 1 else []
                out.append(And(*(e + [self(ft, fld(x, v, j), fld(y, v, j), depth + 1) for j, ft in self.parts(t["path"], v)])))
            return Or(*out)
        raise E.Unsupported("equality of " + t["s"])
def again(c, ty, of):
    """a value near the one of symbol `of`: the same, or with one part changed, dropped or added"""
    def leaves(v, at=()):
        if isinstance(v, tuple):
            if v[0] == "L" and len(v) > 1: yield at, "L"
            for j, x in enumerate(v):
                if isinstance(x, tuple): yield from leaves(x, at + (j,))
                elif isinstance(x, (Fraction, float)) : yield at + (j,), "r"
    def put(v, at, x):
        if not at: return x
        return v[:at[0]] + (put(v[at[0]], at[1:], x),) + v[at[0] + 1:]
    def get(v, at):
        for j in at: v = v[j]
        return v
    def fix(m, v):
        if not isinstance(v, tuple): return v
        v = tuple(fix(m, x) if isinstance(x, tuple) else x for x in v)
        return c.fixups[v[1]](m, v) if v[0] == "A" and v[1] in c.fixups and not v[1].endswith("::Envelope") else v
    def g(m):
        r = m.rng; v = m.vals[of]; u = r.random()
        if u < 0.2: return m.gen(ty)
        if u < 0.45: return v
        ls = list(leaves(v))
        if not ls: return m.gen(ty)
        for _ in range(1 if u < 0.9 else 2):
            at, k = r.choice(ls); x = get(v, at) if at else v
            if k == "r": v = put(v, at, m.real(r))
            elif k == "L" and isinstance(x, tuple) and x[0] == "L" and len(x) > 1:
                w = r.random(); j = r.randrange(1, len(x))
                if w < 0.3: x = x[:j] + x[j + 1:]
                elif w < 0.6: x = x[:j] + (x[j],) + x[j:]
                else: x = ("L",) + x[2:] + (x[1],)
                v = put(v, at, x)
            ls = [(a, b) for a, b in ls if b == "r" and a != at] or ls
            break
        return fix(m, v)
    return g
@rule("C39")
def c39(c):
    c.pl
    p = c.p
    geom = lambda s: s and any("%s::%s::" % (d, k) in s for d in ("planar", "linear") for k in ("types", "primitives"))
    for i in p.roots:
        f = p.insts[i]
        if not (f["local"] and geom(f["selfty"]) and f["trait"]): continue
        tr = f["trait"].split("<")[0].split("::")[-1]
        nm = f["selfty"].replace("magog::", "").split("<")[0]
        short = nm.split("::")[0] + " " + nm.split("::")[-1]
        if tr == "PartialEq" and f["name"] in ("eq", "ne") and f["argc"] == 2:
            def t(i=i, f=f):
                ty = adtof(p, c.argty(i, 0))
                x, y = Var("x"), Var("y")
                v, _, _ = c.call(i, [x, y])
                neg = (lambda w: Not(w)) if f["name"] == "ne" else (lambda w: w)
                for st in (True, False):
                    w = neg(Same(c, st)(ty, x, y))
                    if decide.canon(v) is decide.canon(w) if hasattr(decide, "canon") else v is w: return Verdict(PROVED, "the comparison of all parts" + (", the stored boxes included (they are the boxes of the parts: C10)" if st else ""))
                    last = decide.compare(p, v, w, c.retty(i), c.space({x: ty, y: again(c, ty, x)}, trials=0 if st else c.trials))
                    if last.status == PROVED: return Verdict(PROVED, last.how + (" with the comparison of all parts" if st else " with the comparison of the parts"))
                return last
            c.ob("%s: %s means same kind, same parts in the same order" % (short, "==" if f["name"] == "eq" else "!="), i, "value", t)
        if tr == "Clone" and f["name"] == "clone":
            c.eq("%s: a clone is the value cloned" % short, i, lambda s: s)

# ---------------------------------------------------------------- C40
FINITE = set("""slice::iter::Iter slice::iter::IterMut slice::iter::Windows slice::iter::Chunks slice::iter::ChunksExact vec::into_iter::IntoIter vec::drain::Drain ops::range::Range
 ops::range::RangeInclusive array::iter::IntoIter option::IntoIter option::Iter hash_map::Iter hash_map::Keys hash_map::Values hash_map::IntoIter hash_map::IntoKeys hash_map::IntoValues
 hash::map::Iter hash::map::Keys hash::map::Values hash::map::IntoIter hash::map::IntoKeys hash::map::IntoValues hash::set::Iter hash::set::IntoIter hash::set::Intersection hash::set::Difference hash::set::Union
 btree::map::Iter btree::map::Keys btree::map::Values btree::map::IntoIter btree::set::Iter btree::set::IntoIter vec_deque::iter::Iter vec_deque::into_iter::IntoIter vec_deque::drain::Drain
 sources::once::Once sources::empty::Empty str::iter::Chars""".split())
WRAP = set("""map::Map filter::Filter enumerate::Enumerate skip::Skip copied::Copied cloned::Cloned rev::Rev filter_map::FilterMap skip_while::SkipWhile take_while::TakeWhile map_while::MapWhile step_by::StepBy
 peekable::Peekable inspect::Inspect scan::Scan fuse::Fuse""".split())
ALLOF = set("chain::Chain flatten::FlatMap flatten::Flatten intersperse::Intersperse tuple_impl::TupleWindows cons_tuples_impl::ConsTuples adaptors::Product".split())
ANYOF = set("zip::Zip take::Take".split())
INFINITE = set("ops::range::RangeFrom sources::repeat::Repeat sources::repeat_with::RepeatWith sources::successors::Successors sources::from_fn::FromFn cycle::Cycle".split())
def has(path, S): return any(path.endswith("::" + x) or path == x for x in S)
def finite(p, t):
    """True: the iterator type runs dry; False: it never does; None: unknown"""
    while t["k"] in ("ref",): t = p.tys[t["t"]]
    if t["k"] != "adt": return None
    path = t["path"]; a = [p.tys[x] for x in t.get("args", [])]
    if has(path, FINITE): return True
    if has(path, INFINITE): return False
    if has(path, WRAP): return finite(p, a[0]) if a else None
    fs = [finite(p, x) for x in a]
    if has(path, {"take::Take"}): return True
    if has(path, ANYOF): return True if True in fs else (False if fs and all(f is False for f in fs) else None)
    if has(path, ALLOF):
        fs = [finite(p, x) for x in a if x["k"] in ("adt", "ref")]
        return True if fs and all(fs) else (False if False in fs else None)
    return None
POPS = ("pop", "pop_back", "pop_front", "swap_remove", "remove")
class Loop(object):
    """a natural loop of a function body"""
    def __init__(self, p, i, cfg, h):
        self.p = p; self.i = i; self.f = p.insts[i]; self.cfg = cfg; self.h = h; self.body = cfg.loops[h]
        self.latches = [b for b in self.body if h in cfg.succ[b]]
        self.defs = {}
        for b in cfg.order:
            blk = self.f["blocks"][b]
            for s in blk["s"]:
                if s[0] == "=" and not s[1][1]: self.defs.setdefault(s[1][0], []).append((b, s[2]))
            t = blk["t"]
            if t[0] == "call" and isinstance(t[2], list) and t[3]: self.defs.setdefault(t[3][0], []).append((b, ("call", t)))
    def always(self, b):
        """every round passes block b"""
        seen = {self.h} if self.h != b else set(); todo = list(seen)
        while todo:
            x = todo.pop()
            for s in self.cfg.succ[x]:
                if s == b or s not in self.body: continue
                if s == self.h: return False
                if s not in seen: seen.add(s); todo.append(s)
        return True
    def root(self, o, depth=0):
        """the local an operand is a reference to (or into)"""
        if o[0] not in ("copy", "move") or depth > 8: return None
        return self.proot(o[1], depth)
    def proot(self, pl, depth=0):
        l, d = pl[0], self.defs.get(pl[0], [])
        if len(d) == 1 and depth < 8:
            r = d[0][1]
            if r[0] == "ref": return self.proot(r[2], depth + 1)
            if r[0] == "use" and r[1][0] in ("copy", "move"):
                if self.p.tys[self.f["locals"][l]]["k"] in ("ref", "ptr"): return self.root(r[1], depth + 1)
        return l
    def calls(self):
        for b in sorted(self.body):
            t = self.f["blocks"][b]["t"]
            if t[0] == "call" and isinstance(t[1], dict): yield b, t
    def assigned(self, l): return any(b in self.body for b, _ in self.defs.get(l, []))
    def noneexit(self, b, t):
        """the None outcome of the call in block b leaves the loop"""
        d = t[3][0]; x = t[4]
        for _ in range(6):
            if x < 0 or x not in self.body: return x >= 0
            blk = self.f["blocks"][x]
            ds = [s[1][0] for s in blk["s"] if s[0] == "=" and s[2][0] == "discr" and s[2][1][0] == d]
            k = blk["t"]
            if k[0] == "switch" and k[1][0] in ("copy", "move") and k[1][1][0] in ds:
                to = dict((str(v), y) for v, y in k[2]).get("0", k[3])
                seen = set(); todo = [to]
                while todo:
                    y = todo.pop()
                    if y in seen: continue
                    seen.add(y)
                    if y == self.h: return False
                    if y in self.body: todo += self.cfg.succ[y]
                return True
            if k[0] == "goto": x = k[1]; continue
            return False
        return False
    def exits(self): return [(b, s) for b in self.body for s in self.cfg.succ[b] if s not in self.body]
    def decide(self):
        """(status, how)"""
        if not self.exits(): return REFUTED, "the loop has no way out"
        inf = None
        for b, t in self.calls():
            if t[1]["name"] in ("next", "next_back") and t[1]["trait"] and t[1]["trait"].split("<")[0].endswith("Iterator") and t[2] and self.always(b) and self.noneexit(b, t):
                r = self.root(t[2][0])
                ty = self.p.tys[t[1]["self"]]
                f = finite(self.p, ty)
                if f and r is not None and not self.assigned(r): return PROVED, "one step of a finite iterator (%s) in every round, no element left ends it" % ty["s"].split("<")[0].split("::")[-1]
                if f is False and all(s in self.none(b, t) for _, s in self.exits()): inf = ty["s"]
        for b, t in self.calls():
            if t[1]["name"] in POPS and not t[1]["local"] and t[2] and self.always(b):
                r = self.root(t[2][0])
                if r is None or self.assigned(r): continue
                shrink = not self.captured(r); idx = self.noneexit(b, t)
                for b2, t2 in self.calls():
                    for o in t2[2]:
                        if self.root(o) != r: continue
                        if t2[1]["name"] in POPS + ("len", "is_empty", "last", "first", "front", "back", "get", "iter", "truncate", "clear"): continue
                        if t2[1]["name"] == "index" and not t2[1]["local"]:
                            idx = idx or self.always(b2); continue
                        shrink = False
                if shrink and idx: return PROVED, "every round takes an element off a collection nothing is added to, and needs one"
        return UNDECIDED, "infinite iterator %s" % inf if inf else None
    def none(self, b, t): return ()
    def captured(self, l):
        """some value holds on to a mutable reference to the local (a closure, a structure)"""
        for b in self.cfg.order:
            for s in self.f["blocks"][b]["s"]:
                if s[0] != "=": continue
                if s[2][0] == "agg" and any(self.mutref(o) and self.root(o) == l for o in s[2][2]): return True
                if s[1][1] and s[2][0] in ("use", "ref") and (self.root(s[2][1]) if s[2][0] == "use" else self.proot(s[2][2])) == l and (s[2][0] == "ref" and s[2][1] or s[2][0] == "use" and self.mutref(s[2][1])): return True
        return False
    def mutref(self, o):
        if o[0] not in ("copy", "move"): return False
        t = self.p.tys[self.f["locals"][o[1][0]]]
        return t["k"] in ("ref", "ptr") and bool(t.get("mut"))

def others(c, skip):
    """the other properties decided on their own, with what they found"""
    import run
    out = {}
    for pid, r in run.rules().items():
        if pid in skip: continue
        s = Ctx(c.p, pid, c.tier); s.trials = c.trials
        r(s)
        out[pid] = s
    return out
def ends(c, subs):
    """a refutation saying that a computation does not return"""
    for pid, s in subs.items():
        for o in s.obs:
            w = o.v.witness
            if o.v.status == REFUTED and isinstance(w, dict) and "does not return" in str(w.get("found", "")): return o
    return None
INDUCTIONS = ("C24", "C25", "C26", "C27", "C28")
@rule("C40")
def c40(c):
    p = c.p
    fns = sorted(j for j in range(len(p.insts)) if p.insts[j]["local"])
    # one instance per function
    rep = {}
    for j in fns: rep.setdefault((p.insts[j]["path"], p.insts[j]["sp"]), j)
    subs = {}
    def sub(pid):
        import run
        if pid not in subs:
            s = Ctx(p, pid, c.tier); run.rules()[pid](s); subs[pid] = s
        return subs[pid]
    def recursion():
        adj = {j: set() for j in fns}
        for j in fns:
            for b in p.insts[j]["blocks"]:
                t = b["t"]
                if t[0] == "call" and isinstance(t[1], dict):
                    for k in [t[1]["inst"]] + list(t[1]["aux"]):
                        if isinstance(k, int) and k in adj: adj[j].add(k)
        color = {}
        for r in fns:
            if r in color: continue
            st = [(r, iter(sorted(adj[r])))]; color[r] = 1
            while st:
                x, it = st[-1]
                for y in it:
                    if color.get(y) == 1:
                        cyc = [a for a, _ in st]; cyc = cyc[cyc.index(y):]
                        f = p.insts[y]
                        # every way through the function calls it again
                        if cyc == [y] and whole(y, y): return Verdict(REFUTED, "every path through %s calls it again" % f["path"], {"file": f["sp"], "function": f["path"]})
                        return Verdict(UNDECIDED, "recursion through " + ", ".join(p.insts[a]["path"].replace("magog::", "") for a in cyc))
                    if y not in color: color[y] = 1; st.append((y, iter(sorted(adj[y])))); break
                else: color[x] = 2; st.pop()
        return Verdict(PROVED, "%d functions, %d calls between them, no cycle" % (len(fns), sum(map(len, adj.values()))))
    def whole(j, k):
        f = p.insts[j]; g = E.Cfg(f); seen = {0}; todo = [0]
        while todo:
            b = todo.pop(); t = f["blocks"][b]["t"]
            if t[0] == "return": return False
            if t[0] == "call" and isinstance(t[1], dict) and t[1]["inst"] == k: continue
            for s in g.succ[b]:
                if s not in seen: seen.add(s); todo.append(s)
        return True
    c.ob("no function reaches itself", "call graph", "call graph", recursion)
    def sources():
        n = 0
        for j in fns:
            f = p.insts[j]
            for b in f["blocks"]:
                t = b["t"]
                if t[0] != "call" or not isinstance(t[1], dict) or t[1]["local"] or t[1]["self"] is None: continue
                if t[1]["name"] in ("collect", "fold", "for_each", "count", "last", "sum", "min", "max", "product", "extend", "from_iter") and not t[1]["name"] in ("extend", "from_iter"):
                    n += 1
                    if finite(p, p.tys[t[1]["self"]]) is False: return Verdict(REFUTED, "%s of an endless iterator" % t[1]["name"], {"file": b["sp"], "function": f["path"], "iterator": p.tys[t[1]["self"]]["s"][:200]})
        return Verdict(PROVED, "%d consumed iterators, none of a kind that never ends" % n)
    c.ob("no endless iterator is consumed whole", "call sites", "type query", sources)
    hard = []
    for j in sorted(rep.values()):
        f = p.insts[j]
        try: g = E.Cfg(f)
        except E.Unsupported as e:
            hard.append((j, None)); continue
        c.visited.add(f["path"])
        for n, h in enumerate(sorted(g.loops)):
            c.loops += 1
            L = Loop(p, j, g, h)
            st, how = L.decide()
            where = f["blocks"][h]["sp"]
            if st == UNDECIDED: hard.append((j, h))
            else: c.ob("loop %d of %s ends" % (n + 1, f["path"].replace("magog::", "")), j, "loop variant", lambda st=st, how=how, where=where: Verdict(st, how, {"file": where, "function": f["path"]} if st == REFUTED else None))
    # loops the evaluator has a trip count for
    def counted(j):
        f = p.insts[j]
        loopy = {p.insts[k]["path"] for k in rep.values() if k != j and any(True for _ in E.Cfg(p.insts[k]).loops)}
        try:
            ev = E.Ev(p, opaque=lambda i: i["path"] in loopy, contract=c.index)
            signal.signal(signal.SIGALRM, _al); signal.alarm(20)
            try: ev.call_sym(j, [Var("a%d" % k) for k in range(f["argc"])])
            finally: signal.alarm(0)
        except (E.Unsupported, RecursionError, TO, Layout): return False
        return not any(getattr(r, "sys", None) for r in ev.loops)
    done = {}
    for j, h in list(hard):
        if h is None: continue
        if j not in done: done[j] = counted(j)
        if done[j]:
            hard.remove((j, h))
            c.ob("loop at %s of %s ends" % (p.insts[j]["blocks"][h]["sp"], p.insts[j]["path"].replace("magog::", "")), j, "loop variant", lambda: Verdict(PROVED, "its number of rounds is known before it starts"))
    bypath = {}
    for pid in INDUCTIONS if hard else ():
        s = sub(pid)
        ok = bool(s.obs) and all(o.v.status == PROVED for o in s.obs)
        for k in s.visited: bypath.setdefault(k, []).append((pid, ok))
    # the packing of levels shrinks them for a degree of two or more only
    if "C25" in subs and subs["C25"].index is not None:
        for n in ("new_unsorted", "new"):
            if not any(o.v.status == PROVED and "Flatbush::%s stores" % n in o.label for o in subs["C25"].obs): continue
            def shrinks(n=n):
                from rules5 import Index, curve
                s = subs["C25"]; g = Index(s); ev = s.ev(curve)
                v, st, _ = ev.call_sym(g.fn(n), [g.items, g.deg])
                pc = FALSE if st is None else And(st.pc, ilt(Int(1), seqlen(g.items)))
                bad = [k for k in (0, 1) if subst(pc, {g.deg: Int(k)}) is not FALSE]
                if not bad: return Verdict(PROVED, "degrees 0 and 1 panic before the loop")
                r = decide.never(p, And(pc, ilt(g.deg, Int(2))), g.space({g.items: g.tokens, g.deg: lambda m: m.rng.choice((0, 1, 1))}))
                if r.status == REFUTED: r.how = "the loop is reached with a degree that does not make a level smaller"
                return r
            c.ob("the packing loop of Flatbush::%s is reached only with a degree that makes the levels smaller" % n, subs["C25"].find("Flatbush", n)[0], "loop variant", shrinks)
    rest = []
    for j, h in hard:
        f = p.insts[j]
        pr = [pid for pid, ok in bypath.get(f["path"], []) if ok]
        if h is not None and pr: c.ob("loop at %s of %s ends" % (f["blocks"][h]["sp"], f["path"].replace("magog::", "")), j, "loop variant",
            lambda pr=pr: Verdict(PROVED, "level by level towards the leaves or the root: the induction of %s" % ", ".join(pr)))
        else: rest.append((j, h))
    if rest:
        allsubs = dict(subs); allsubs.update(others(c, set(subs) | {"C40", "C32", "C33"}))
        o = ends(c, allsubs)
        for j, h in rest:
            f = p.insts[j]
            def t(o=o, f=f, j=j):
                if o is not None: return Verdict(REFUTED, "%s: %s" % (o.fn, o.v.witness.get("found")), o.v.witness)
                return Verdict(UNDECIDED, "no variant recognised")
            c.ob("loop at %s of %s ends" % (f["blocks"][h]["sp"] if h is not None else f["sp"], f["path"].replace("magog::", "")), j, "loop variant", t)
