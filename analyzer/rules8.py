"""C32, C33, C37: hash order, purity, panic reachability."""
from base import *
import re
from interp import veq
RULES = {}
def rule(pid):
    def d(f): RULES[pid] = f; return f
    return d

# ---------------------------------------------------------------- whole-crate queries over the MIR
def callees(f):
    """(callee, argument operands, block) of every call of a function"""
    for b in f["blocks"]:
        if b.get("cleanup"): continue
        if b["t"][0] == "call" and isinstance(b["t"][1], dict): yield b["t"][1], b["t"][2], b
def consts(x):
    """constants mentioned anywhere in a piece of MIR"""
    if isinstance(x, dict):
        if "c" in x: yield x
        for v in x.values():
            for y in consts(v): yield y
    elif isinstance(x, list):
        for v in x:
            for y in consts(v): yield y
def fnvalues(p, f):
    """functions used as values"""
    for b in f["blocks"]:
        for k in consts([b["s"], b["t"][2:] if b["t"][0] == "call" else b["t"]]):
            t = p.tys[k["t"]] if isinstance(k.get("t"), int) else None
            if t is not None and t["k"] == "fndef": yield t["callee"], b
def blockline(f, b): return b.get("sp") or f["sp"]
def local(p): return [i for i, f in enumerate(p.insts) if f["local"]]
def tyclosure(p, t, seen=None, into=True):
    """every type mentioned in t; through the fields of the crate's own types when into"""
    seen = {} if seen is None else seen
    if isinstance(t, int): t = p.tys[t]
    if t["s"] in seen: return seen
    seen[t["s"]] = t
    for k in ("t",):
        if isinstance(t.get(k), int): tyclosure(p, t[k], seen, into)
    for k in ("args", "ts", "upvars"):
        for x in t.get(k, ()): tyclosure(p, x, seen, into)
    if into:
        for v in t.get("variants", ()):
            for f in v["fields"]: tyclosure(p, f[1], seen, into)
    return seen

EFFECTS = ("std::io", "std::fs", "std::env", "std::net", "std::process", "std::time", "std::thread", "std::os", "std::sync", "core::sync", "alloc::sync", "std::sys", "core::time",
           "core::arch", "core::ptr", "core::mem::transmute", "core::hint", "libc", "std::random", "core::random", "alloc::rc", "core::cell", "std::alloc", "alloc::alloc")
# of the effect modules, what is pure plumbing
PURE = ("core::mem::", "core::sync::atomic::Ordering", "core::ptr::drop", "core::hint::unreachable", "core::ptr::eq", "core::hint::must_use")
INTERIOR = re.compile(r"(^|::)(UnsafeCell|Cell|RefCell|OnceCell|LazyCell|Mutex|RwLock|OnceLock|LazyLock|Once|Condvar|Atomic\w*|SyncUnsafeCell|LocalKey)$")
SEED = ("RandomState",)
def effect(path):
    """does the function belong to a module of effects"""
    if any(path.startswith(x) for x in PURE): return None
    for x in EFFECTS:
        if path == x or path.startswith(x + "::") or path.startswith(x): return x
    return None

@rule("C33")
def c33(c):
    p = c.p; d = p.d
    fns = local(p)
    c.visited |= set(fns)
    def refute(what, at): return Verdict(REFUTED, what, {"form": what, "at": at})
    def statics():
        ss = [x for x in d["items"] if x.get("static")]
        bad = [x for x in ss if x["mut"] or not x["freeze"]]
        if bad: return refute("mutable shared state: static %s of type %s" % (bad[0]["path"].split("::")[-1], bad[0]["ty"]), bad[0]["sp"])
        return Verdict(PROVED, "%d items of the crate, %d statics, none mutable" % (len(d["items"]), len(ss)))
    c.ob("no static item holds mutable state", "static items", "item query", statics)
    def uns():
        if d["unsafe"]: return refute("unsafe block", d["unsafe"][0])
        bad = [x for x in d["items"] if x.get("unsafe")]
        if bad: return refute("unsafe implementation of %s" % bad[0]["trait"], bad[0]["sp"])
        return Verdict(PROVED, "no unsafe block and no unsafe implementation in the crate")
    c.ob("no unsafe code", "unsafe blocks", "item query", uns)
    def calls():
        n = 0
        for i in fns:
            f = p.insts[i]
            for cal, b in [(x, b) for x, _, b in callees(f)] + list(fnvalues(p, f)):
                n += 1
                if cal["local"]: continue
                st = p.tys[cal["self"]] if cal["self"] is not None else None
                for path in [cal["path"], cal["rpath"]] + ([st["path"]] if st and st["k"] == "adt" else []):
                    if not path: continue
                    e = effect(path)
                    if e and not INTERIOR.search(path) and not path.startswith("core::cell") and not path.startswith("alloc::rc"):
                        return refute("call of %s" % cal["path"], "%s (%s)" % (f["path"], blockline(f, b)))
                if cal["name"] in ("build_hasher", "hash_one") or st and st["k"] == "adt" and st["path"].endswith("RandomState") and cal["name"] != "default":
                    return refute("use of the randomly seeded hasher's value", "%s (%s)" % (f["path"], blockline(f, b)))
        c.callsites += n
        return Verdict(PROVED, "%d call sites in %d functions reach no effect module" % (n, len(fns)))
    c.ob("no function performs I/O, reads time, environment or randomness, or uses shared memory", "call sites", "effect query", calls)
    def fields():
        n = 0
        for a in d["adts"]:
            for s, t in tyclosure(p, a["t"]).items():
                n += 1
                if t["k"] == "adt" and INTERIOR.search(t["path"]): return refute("%s holds interior mutability: %s" % (a["path"].split("::")[-1], s), a["sp"])
                if t["k"] == "ptr": return refute("%s holds a raw pointer" % a["path"].split("::")[-1], a["sp"])
        return Verdict(PROVED, "%d types reachable from the fields of %d types of the crate" % (n, len(d["adts"])))
    c.ob("no type of the crate holds interior mutability", "type definitions", "type query", fields)
    def sendsync(a):
        def f():
            bad = [k for k in ("send", "sync") if not a[k]]
            if bad: return refute("%s is not %s for every coordinate type" % (a["path"].split("::")[-1], " and ".join(x.capitalize() for x in bad)), a["sp"])
            return Verdict(PROVED, "the trait solver derives Send and Sync")
        c.ob("%s is Send and Sync for every coordinate type" % a["path"].replace("magog::", ""), a["path"], "trait query", f)
    for a in d["adts"]:
        if a["pub"]: sendsync(a)
    def returns():
        """no public function hands out a way to change a value through a shared reference"""
        n = 0
        for i in c.p.roots:
            f = p.insts[i]
            if not f["pub"]: continue
            n += 1
            ts = tyclosure(p, f["locals"][0])
            for k in range(f["argc"]): tyclosure(p, f["locals"][k + 1], ts)
            for s, t in ts.items():
                if t["k"] == "adt" and INTERIOR.search(t["path"]): return refute("interface type %s" % s, f["path"])
        return Verdict(PROVED, "interface types of %d public functions" % n)
    c.ob("no public function's interface has interior mutability", "signatures", "type query", returns)

# ---------------------------------------------------------------- C32
HASHY = re.compile(r"::(HashMap|HashSet)$")
MEMBER = set("new with_capacity with_hasher default insert contains remove len is_empty entry get index contains_key get_mut capacity reserve clear clone eq ne take replace is_subset is_superset is_disjoint or_insert or_insert_with or_default and_modify key get_or_insert_with insert_entry drop drop_in_place from_iter from borrow deref as_ref get_key_value remove_entry shrink_to_fit extend fmt retain".split())
def sites(c):
    """functions with a call that can observe the order of a hash-based container: function -> call sites"""
    p = c.p; r = {}
    for i in local(p):
        f = p.insts[i]
        for cal, args, b in callees(f):
            if cal["local"]: continue
            ts = [p.tys[x] for x in cal["args"]] + ([p.tys[cal["self"]]] if cal["self"] is not None else [])
            hs = []
            for t in ts:
                while t["k"] == "ref": t = p.tys[t["t"]]
                if t["k"] == "adt" and HASHY.search(t["path"]): hs.append(t)
            if not (hs or HASHY.search(cal["path"].rsplit("::", 1)[0]) or re.search(r"collections::hash", cal["path"])): continue
            if cal["name"] in MEMBER:
                st = p.tys[cal["self"]] if cal["self"] is not None else None
                while st is not None and st["k"] == "ref": st = p.tys[st["t"]]
                own = st is not None and st["k"] == "adt" and HASHY.search(st["path"]) or re.search(r"collections::hash", cal["path"])
                if own and not (cal["name"] in ("from_iter", "extend", "fmt") and not own): continue
            r.setdefault(i, []).append((cal["path"], blockline(f, b)))
    return r

def unpair(t):
    """exists k. P(k) and (exists j<k. Q(j)) or Q(k) and (exists j<k. P(j)), for exclusive P and Q: both occur"""
    memo = {}
    def ga(a):
        if isinstance(a, T): return go(a)
        if isinstance(a, tuple): return tuple(ga(y) for y in a)
        return a
    def go(x):
        r = memo.get(x.id)
        if r is None:
            args = tuple(ga(a) for a in x.args)
            r = x if all(p is q for p, q in zip(args, x.args)) else rebuild(x.op, args)
            if r.op == "ex": r = pair(r)
            memo[x.id] = r
        return r
    return go(t)
def pair(e):
    vs, doms, body = opened(e)
    if len(vs) != 1: return e
    k, n = vs[0], doms[0]
    inner = []
    for x in walk(body):
        if x.op == "ex" and x not in inner:
            v2, d2, b2 = opened(x)
            if len(v2) == 1 and d2[0] is k and not any(y is k for y in walk(b2)): inner.append(x)
    if len(inner) != 2: return e
    i1, i2 = Var("i1#"), Var("i2#")
    A = []
    for x in inner:
        v2, d2, b2 = opened(x)
        A.append(subst(b2, {v2[0]: k}))
    q = subst(body, {inner[0]: atom("veq", i1, TRUE), inner[1]: atom("veq", i2, TRUE)})
    w = Or(And(A[0], atom("veq", i2, TRUE)), And(A[1], atom("veq", i1, TRUE)))
    if And(A[0], A[1]) is not FALSE or any(y in (inner[0], inner[1]) for y in walk(q)): return e
    if decide.equal(q, w, True): return And(exists([k], [n], A[0]), exists([k], [n], A[1]))
    return e
def opened(x):
    vs, lead, rest = openb(x)
    doms, body = rest[0], rest[-1]
    return vs, doms, body

UNORD = ("hashorder", "mapkeys", "mapvals", "mapitems")
def orderfree(v):
    """does no result depend on the order in which an unordered container is traversed"""
    memo = {}
    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = True
            if x.op in UNORD: r = False
            elif x.op == "len" and x.args[0].op in UNORD: r = all(go(y) for y in x.args[0].args if isinstance(y, T))
            elif x.op in ("ex",) or x.op in ("usorted", "set", "tog", "count") and False: r = quant(x)
            elif x.op == "usorted" and x.args[0].op == "set": r = bag(x.args[0].args[-1])
            elif x.op in ("set", "setlen", "inset") and x.op == "set": r = bag(x.args[-1])
            else: r = all(go(y) for y in subterms(x))
            memo[x.id] = r
        return r
    def quant(x):
        vs, doms, body = opened(x)
        for k, n in zip(vs, doms):
            if n.op == "len" and n.args[0].op in UNORD:
                S = n.args[0]
                if not all(go(y) for y in S.args if isinstance(y, T)): return False
                body = subst(body, {at(S, k): fresh("el")})
                if any(y is k for y in walk(body)): return False
            elif not go(n): return False
        return go(body)
    def bag(s):
        if s.op == "comp":
            vs, lead, rest = openb(s)
            doms = rest[0]; bs = [z for z in rest[1:]]
            for k, n in zip(vs, doms):
                if n.op == "len" and n.args[0].op in UNORD:
                    S = n.args[0]
                    if not all(go(y) for y in S.args if isinstance(y, T)): return False
                    bs = [subst(z, {at(S, k): fresh("el")}) for z in bs]
                    if any(y is k for z in bs for y in walk(z)): return False
                elif not go(n): return False
            return all(go(z) for z in bs)
        if s.op in UNORD: return all(go(y) for y in s.args if isinstance(y, T))
        if s.op == "cat": return all(bag(y) for y in subterms(s))
        return go(s)
    return go(v)
def subterms(x):
    out = []
    def g(a):
        if isinstance(a, T): out.append(a)
        elif isinstance(a, tuple):
            for y in a: g(y)
    for a in x.args: g(a)
    return out

@rule("C32")
def c32(c):
    p = c.p
    ss = sites(c); fns = local(p)
    c.visited |= set(fns)
    c.callsites += sum(1 for i in fns for _ in callees(p.insts[i]))
    def addresses():
        for i in fns:
            f = p.insts[i]
            for b in f["blocks"]:
                for st in b["s"]:
                    if "ExposeProvenance" in str(st) or "PointerExposeAddress" in str(st):
                        return Verdict(REFUTED, "an address becomes a number", {"form": "address", "at": "%s (%s)" % (f["path"], blockline(f, b))})
        return Verdict(PROVED, "no pointer-to-integer cast in %d functions" % len(fns))
    c.ob("no address becomes a value", "casts", "cast query", addresses)
    c.ob("hash-based containers are traversed at known sites only", "call sites", "type query",
         lambda: Verdict(PROVED, "%d functions traverse one: %s" % (len(ss), ", ".join(sorted(set(p.insts[i]["path"].split("::")[-1] for i in ss))))))
    callers = {}
    for i in fns:
        for cal, _, _ in callees(p.insts[i]):
            if cal["inst"] is not None: callers.setdefault(p.insts[cal["inst"]]["path"], set()).add(p.insts[i]["path"])
        for cal, _ in fnvalues(p, p.insts[i]):
            if cal["inst"] is not None: callers.setdefault(p.insts[cal["inst"]]["path"], set()).add(p.insts[i]["path"])
    def owner(path):
        while "::{closure" in path: path = path.rsplit("::{closure", 1)[0]
        return path
    roots = {p.insts[i]["path"]: i for i in p.roots}
    done = {}
    work = sorted(set(owner(p.insts[i]["path"]) for i in ss))
    why = {}
    for i in ss: why.setdefault(owner(p.insts[i]["path"]), ss[i])
    while work:
        q = work.pop(0)
        if q in done: continue
        if q not in roots:
            done[q] = None; continue
        i = roots[q]; f = p.insts[i]
        res = {}
        def t(i=i, res=res):
            args = c.sym(i)
            v, cells, ev = c.call(i, args)
            outs = [(unpair(v), c.retty(i))] + [(unpair(x), None) for x in cells if x is not None and x is not BOT]
            if all(orderfree(x) for x, _ in outs): return Verdict(PROVED, "every traversal is under a quantifier or builds an ordered or unordered set")
            res["bad"] = True
            v = outs[0][0]
            def test(m):
                a = m.value(v)
                m.hseed = m.seed + 7; b = m.value(v); m.hseed = m.seed
                return None if veq(a, b) else (str(a)[:300], str(b)[:300])
            sp = c.space(c.vars(i, args)); sp.steer(v)
            m, dd, tried, w = decide.refute(sp, test)
            if m is not None:
                if not f["pub"] and f["trait"] is None and callers.get(q): res["up"] = True; return None
                return Verdict(REFUTED, "the result depends on the order in which a hash-based container is traversed", {"values": sp.describe(m), "one order": dd[0], "another order": dd[1], "sites": [list(x) for x in why.get(q, ())][:4]})
            return Verdict(UNDECIDED, "order of traversal not shown irrelevant; none of %d interpretations differs%s" % (tried, "; " + w if w else ""))
        c.ob("the result does not depend on the order of a hash-based container", i, "taint", t)
        done[q] = True
        if res.get("bad") and not f["pub"]:
            for x in callers.get(q, ()):
                x = owner(x); why.setdefault(x, why.get(q, [])); work.append(x)
