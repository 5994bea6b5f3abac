"""Comparing the value graph of a function with the one a property demands."""
import itertools, time, os, mmap, signal
from terms import *
import terms
import eval as E
import interp
from interp import Model, constants, NoInterp, DontCare, Diverges, veq, stable, SEQP

PROVED, REFUTED, UNDECIDED = "proved", "refuted", "undecided"

# ---------------------------------------------------------------- canonical forms by type
def eta(p, v, ty, depth=0):
    """expand a value by its type, so that rebuilt and passed-through values agree;
    payloads of error results are erased (their wording is not compared)"""
    if ty is None: return v
    k = ty["k"]
    if k in ("ref", "ptr"): return eta(p, v, p.tys[ty["t"]], depth)
    if v is BOT: return v
    if k == "tuple":
        if not ty["ts"]: return UNIT
        return E.lift_nc(lambda x: tup(*[eta(p, fld(x, 0, i), p.tys[t], depth + 1) for i, t in enumerate(ty["ts"])]), v)
    if k in ("slice", "array"): return etaseq(p, v, p.tys[ty["t"]], depth)
    if k == "adt":
        path = ty["path"]
        if path in SEQP: return etaseq(p, v, p.tys[ty["args"][0]], depth)
        vs = ty["variants"]
        if path == "core::marker::PhantomData": return adt(path, 0)
        if not vs and path in p.adts: vs = p.adts[path]["variants"]
        if not vs or path in ("alloc::string::String", "alloc::boxed::Box") or "HashMap" in path or "Set" in path.split("::")[-1]: return v
        n = len(vs)
        if path == RESULT:
            e = p.tys[vs[1]["fields"][0][1]]
            while e["k"] == "ref": e = p.tys[e["t"]]
            if e["k"] == "str" or e["s"].endswith("String"):
                okty = p.tys[vs[0]["fields"][0][1]]
                return ite(isvar(v, 0, 2), Ok(eta(p, only(v, 0), okty, depth + 1)), Err(Str("error")))
        def f(x):
            if x.op == "fold":
                (va, ve), (s, i), (st,) = openb(x, 2)
                x = fold(va, ve, s, eta(p, i, ty, depth + 1), deepcof(eta(p, st, ty, depth + 1)))
                if x.op == "ite": return E.lift_nc(f, x)
            if x.op not in ("adt",) and n > 1:
                r = BOT
                for i in range(n - 1, -1, -1):
                    w = adt(path, i, *[eta(p, fld(x, i, j), p.tys[t[1]], depth + 1) for j, t in enumerate(vs[i]["fields"])])
                    r = w if r is BOT else ite(isvar(x, i, n), w, r)
                return r
            i = x.args[1] if x.op == "adt" else 0
            if i >= n: return x
            return adt(path, i, *[eta(p, fld(x, i, j), p.tys[t[1]], depth + 1) for j, t in enumerate(vs[i]["fields"])])
        return E.lift_nc(f, v)
    return v
def deepcof(x, budget=20000):
    """settle inside constructors what the path to them has already settled"""
    n = [budget]; memo = {}
    def go(x, F):
        n[0] -= 1
        if n[0] < 0: return x
        if x.op == "ite":
            t = x.args[0]
            if t in F: return go(x.args[1] if F[t] else x.args[2], F)
            return ite(mk("ite", t, TRUE, FALSE), go(x.args[1], dict(F, **{}) | {t: True}), go(x.args[2], F | {t: False}))
        if F and x.op in ("adt", "tuple", "lit", "cat", "array"):
            k = 2 if x.op == "adt" else 0
            a = tuple(go(y, F) for y in x.args[k:])
            return x if a == x.args[k:] else rebuild(x.op, x.args[:k] + a)
        return x
    return go(x, {})
INTS = ("ipos", "ieq0")
def intimplied(a, F):
    lo = hi = None; ne = set(); L = terms._lp(a.args[0])[1]
    for q, v in F:
        if q.op not in INTS: continue
        bd = terms.intbounds(q, v)
        if bd is None or bd[0] != L: continue
        if bd[1] is not None: lo = bd[1] if lo is None else max(lo, bd[1])
        if bd[2] is not None: hi = bd[2] if hi is None else min(hi, bd[2])
        if bd[3] is not None: ne.add(bd[3])
    if lo is not None:
        while lo in ne: lo += 1
    if hi is not None:
        while hi in ne: hi -= 1
    r = terms.intdecide(a, (L, lo, hi, None))
    if r is None and a.op == "ieq0" and -terms._lp(a.args[0])[0] in ne: return False
    return linear(a, F) if r is None else r
def _ineqs(q, v):
    """linear expressions that are >= 0 where atom q has the value v"""
    d = terms._lin(q.args[0]); neg = (-d[0], {x: -k for x, k in d[1].items()})
    if q.op == "ipos": return [(d[0] - 1, d[1])] if v else [neg]
    if q.op == "ieq0" and v: return [d, neg]
    return []
_lin_memo = {}
def linear(a, F):
    """does a conjunction of linear integer facts settle atom a?"""
    xs = set(terms._lin(a.args[0])[1])
    rel = []; rest = [(q, v) for q, v in F if q.op in INTS and q is not a]
    grew = True
    while grew:
        grew = False
        for f in list(rest):
            ys = set(terms._lin(f[0].args[0])[1])
            if ys & xs: rel.append(f); rest.remove(f); xs |= ys; grew = True
    if not rel or len(xs) > 6 or len(rel) > 8:
        if not rel and not any(terms.unsigned(x) for x in xs): return None
        if rel: return None
    k = (a, frozenset(rel))
    if k not in _lin_memo:
        base = [(0, {x: 1}) for x in xs if terms.unsigned(x)]
        nes = []
        for q, v in rel:
            base += _ineqs(q, v)
            if q.op == "ieq0" and not v: nes.append(terms._lin(q.args[0]))
        def no(extra):
            """no integers satisfy base and extra: each disequality of a sign-definite form sharpens it"""
            b = base + extra
            for c, m in nes:
                neg = (-c, {x: -k for x, k in m.items()})
                if infeasible(b + [(-c - 1, neg[1])]): b = b + [(c - 1, m)]
                elif infeasible(b + [(c - 1, m)]): b = b + [(-c - 1, neg[1])]
            return infeasible(b)
        d = terms._lin(a.args[0]); neg = (-d[0], {x: -k for x, k in d[1].items()})
        if a.op == "ipos": t, f = [(d[0] - 1, d[1])], [neg]
        else: t, f = [d, neg], None
        r = None
        if no(t): r = False
        elif f is not None:
            if no(f): r = True
        elif no([(d[0] - 1, d[1])]) and no([(-d[0] - 1, neg[1])]): r = True
        _lin_memo[k] = r
    return _lin_memo[k]
def infeasible(ineqs, cap=200):
    """Fourier-Motzkin elimination: no rational solution"""
    cur = {(c, frozenset((x, k) for x, k in m.items() if k)) for c, m in ineqs}
    while True:
        if any(not m and c < 0 for c, m in cur): return True
        vs = {x for _, m in cur for x, _ in m}
        if not vs: return False
        x = min(vs, key=lambda v: (sum(1 for _, m in cur if dict(m).get(v, 0) > 0) * sum(1 for _, m in cur if dict(m).get(v, 0) < 0), v.id))
        up = [(c, dict(m)) for c, m in cur if dict(m).get(x, 0) < 0]; lo = [(c, dict(m)) for c, m in cur if dict(m).get(x, 0) > 0]
        nxt = {(c, m) for c, m in cur if not dict(m).get(x, 0)}
        for c1, m1 in up:
            for c2, m2 in lo:
                p, q = m2[x], -m1[x]
                m = {y: p * m1.get(y, 0) + q * m2.get(y, 0) for y in set(m1) | set(m2)}
                nxt.add((p * c1 + q * c2, frozenset((y, k) for y, k in m.items() if k)))
        if len(nxt) > cap: return False
        cur = nxt
def impossible(cond, depth=6, budget=4000, hook=None):
    """no state satisfies cond: every path through its decisions contradicts linear facts about indices, after opening what exists"""
    left = [budget]; used = set()
    def units(t):
        """facts that hold of the natural numbers a linear fact speaks of"""
        out = []; todo = [t]; seen = set()
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            if terms.unsigned(x) or terms.nonneg(x): out.append((0, {x: 1}))
            if x.op == "nat":
                c, m = terms._lin(x.args[0])
                e = {y: -k for y, k in m.items()}; e[x] = e.get(x, 0) + 1
                out.append((-c, e))
                todo += list(m)
            if x.op == "imul":
                for y in x.args: todo += list(terms._lin(y)[1])
        return out
    def opened(x):
        """x = at(comp, k) within the comp's length: its element, and what holds of it"""
        vs, ds, g, e = open_comp(x)
        return [(v, d) for v, d in zip(vs, ds)], g, e
    def close(F, depth):
        left[0] -= 1
        if left[0] < 0: return False
        # open what exists
        for a, v in F:
            if a.op == "ex" and v:
                vs, ds, body = open_ex(a)
                f = body
                for k, n in zip(vs, ds): f = And(f, ilt(k, n))
                return depth > 0 and go(f, F - {(a, v)}, depth - 1)
        ineqs = []; xs = set(); nats = set()
        for a, v in F:
            if a.op in INTS:
                ineqs += _ineqs(a, v); xs |= set(terms._lin(a.args[0])[1])
        # elements of constructed sequences
        for x in xs:
            for y in walk(x):
                if y.op == "at" and y.args[0].op == "comp":
                    S, k = y.args
                    inside = ilt(k, seqlen(S))
                    if inside is not FALSE and not infeasible(ineqs + [u for z in xs for u in units(z)] + [q for b in [Not(inside)] if b.op == "ite" for q in _ineqs(b.args[0], b.args[1] is TRUE)]): continue
                    vs, ds, g, e = open_comp(S)
                    el = e
                    f = g
                    for k2, n in zip(vs, ds): f = And(f, ilt(k2, n))
                    for a, v in F:
                        l = mk("ite", a, TRUE, FALSE)
                        f = And(f, subst(l if v else Not(l), {y: el}))
                    return depth > 0 and go(f, frozenset(), depth - 1)
        # max(0, d) is one or the other
        for x in xs:
            if x.op == "nat" and not any(mk("ite", a, TRUE, FALSE) is ipos(x.args[0]) for a, v in F):
                p = ipos(x.args[0])
                if p.op == "ite":
                    def case(t, val):
                        f = TRUE
                        for a, v in F:
                            l = mk("ite", a, TRUE, FALSE); f = And(f, subst(l if v else Not(l), {x: val}))
                        return And(t, f)
                    return depth > 0 and go(case(p, x.args[0]), frozenset(), depth - 1) and go(case(Not(p), Int(0)), frozenset(), depth - 1)
        base = ineqs + [u for z in xs for u in units(z)]
        if infeasible(base): return True
        # what is known of the parts of the program
        if hook:
            new = [(a, v, hook(a, v)) for a, v in F if (a, v) not in used]
            new = [(a, v, f) for a, v, f in new if f is not None]
            if new:
                f = TRUE
                for _, _, y in new: f = And(f, y)
                keep = {(a, v) for a, v, _ in new}
                used.update(keep)
                try: return depth > 0 and go(f, F, depth)
                finally: used.difference_update(keep)
        # what holds of no element does not hold of the elements spoken of
        for a, v in F:
            if a.op != "ex" or v: continue
            vs, ds, body = open_ex(a)
            if len(vs) != 1: continue
            heads = {y.args[0] for y in walk(body) if y.op == "at" and y.args[1] is vs[0]}
            ks = []
            for b, _ in F:
                if b is a: continue
                for y in walk(b):
                    if y.op == "at" and y.args[0] in heads and y.args[1] not in ks and not any(z.op == "bvar" for z in walk(y.args[1])): ks.append(y.args[1])
            if not ks: continue
            f = TRUE
            for k in ks: f = And(f, Not(And(ilt(k, subst(ds[0], {vs[0]: k})), subst(body, {vs[0]: k}))))
            return depth > 0 and go(f, F - {(a, v)}, depth - 1)
        for a, v in F:
            if a.op == "ieq0" and not v:
                c, m = terms._lin(a.args[0]); neg = {x: -k for x, k in m.items()}
                if infeasible(base + [(c - 1, m)]) and infeasible(base + [(-c - 1, neg)]): return True
        return False
    def go(f, F, depth):
        left[0] -= 1
        if left[0] < 0: return False
        if f is FALSE: return True
        if f is TRUE: return close(F, depth)
        if f.op != "ite": return False
        a = f.args[0]
        for q, v in F:
            if q is a: return go(f.args[1] if v else f.args[2], F, depth)
        if not go(f.args[1], F | {(a, True)}, depth): return False
        return go(f.args[2], F | {(a, False)}, depth)
    return go(cond, frozenset(), depth)
_occ = {}
def occurring(t):
    """atoms decided anywhere in t, at any depth"""
    r = _occ.get(t.id)
    if r is None:
        r = frozenset()
        for c in children(t): r = r | occurring(c)
        if t.op == "ite": r = r | {t.args[0]}
        _occ[t.id] = r
    return r
def context(t, budget=40000):
    """drop from nested conditions what the path to them has already settled"""
    n = [budget]; memo = {}
    def go(x, F):
        if not isinstance(x, T): return tuple(go(y, F) for y in x) if isinstance(x, tuple) else x
        if F:
            o = occurring(x)
            ints = any(q.op in INTS for q in o)
            F = frozenset(q for q in F if q[0] in o or ints and q[0].op in INTS)
        if not F and x.op != "ite" and not occurring(x): return x
        k = (x.id, F)
        r = memo.get(k)
        if r is None:
            n[0] -= 1
            if n[0] < 0: raise TooBig()
            r = memo[k] = go2(x, F)
        return r
    def go2(x, F):
        if x.op == "ite":
            a = x.args[0]
            for q, v in F:
                if q is a: return go(x.args[1] if v else x.args[2], F)
            if a.op in INTS:
                v = intimplied(a, F)
                if v is not None: return go(x.args[1] if v else x.args[2], F)
            b = go(a, F)
            c = b if b.op in ("ite", "true", "false") else mk("ite", b, TRUE, FALSE)
            G = F | {(a, True)}
            return ite(c, go(x.args[1], G), go(x.args[2], F | {(a, False)}))
        if x.op in terms.BINDERS: return terms.BINDERS[x.op](x, lambda y: go(y, F))
        a = tuple(go(y, F) for y in x.args)
        return x if all(p is q for p, q in zip(a, x.args)) else rebuild(x.op, a)
    return go(t, frozenset())
def only(v, k):
    """payload of variant k, a don't-care elsewhere"""
    return fld(v, k, 0)
def etaseq(p, v, et, depth):
    def f(s):
        if s.op in ("lit", "array"): return lit(*[eta(p, x, et, depth + 1) for x in s.args])
        if s.op == "cat": return cat(*[f(x) for x in s.args])
        if s.op == "iter": return s
        if s.op == "comp":
            vs, ds, g, e = open_comp(s)
            return comp(vs, ds, g, eta(p, e, et, depth + 1))
        if s.op in ("flat", "sorted", "usorted", "hashorder", "rev", "set", "tog", "sys", "wh", "havoc"): return s
        k = fresh("k"); n = seqlen(s)
        e = at(s, k); x = eta(p, e, et, depth + 1)
        return s if x is e else comp([k], [n], TRUE, x)
    return E.lift_nc(f, v)

# ---------------------------------------------------------------- polynomial normal form of real terms
def poly(t, memo=None, quot=False):
    """radd/rsub/rmul/rneg in real subterms brought to polynomial normal form
    (quot: as functions of finite reals where divisors are not zero: equal factors cancel, constants are compared)"""
    if memo is None: memo = {}
    RO = ("radd", "rsub", "rmul", "rneg", "rdiv", "poly")
    def go(x):
        r = memo.get(x.id)
        if r is not None: return r
        if x.op in RO: r = frompoly(topoly(x))
        elif quot and x.op == "feq" and x.args[0] is x.args[1]: r = TRUE
        elif x.op in ("flt", "feq") and any(arith(y) for y in x.args): r = cmpatom(x.op, x.args[0], x.args[1])
        elif x.op == "psign": r = cmpatom(x.args[0], Num(0), x.args[1])
        else:
            args = tuple(ga(a) for a in x.args)
            r = x if all(p is q for p, q in zip(args, x.args)) else rebuild(x.op, args)
        memo[x.id] = r
        return r
    def ga(a):
        if isinstance(a, T): return go(a)
        if isinstance(a, tuple): return tuple(ga(y) for y in a)
        return a
    def times(a, b):
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = tuple(sorted(m + n, key=lambda y: y.id))
                r[k] = r.get(k, 0) + c * d
                if r[k] == 0: del r[k]
        return r
    def topoly(x):
        if x.op == "num": return {(): x.args[0]} if x.args[0] else {}
        if x.op == "poly":
            r = {}
            for q, ms in x.args[0]:
                t = {(): q}
                for m in ms: t = times(t, topoly(m))
                for m, c in t.items():
                    r[m] = r.get(m, 0) + c
                    if r[m] == 0: del r[m]
            return r
        if x.op in ("radd", "rsub"):
            a, b = topoly(x.args[0]), topoly(x.args[1])
            s = 1 if x.op == "radd" else -1
            r = dict(a)
            for m, c in b.items():
                r[m] = r.get(m, 0) + s * c
                if r[m] == 0: del r[m]
            return r
        if x.op == "rneg": return {m: -c for m, c in topoly(x.args[0]).items()}
        if x.op == "rmul":
            a, b = topoly(x.args[0]), topoly(x.args[1])
            if len(a) * len(b) > 400: return {(go0(x),): 1}
            return times(a, b)
        if x.op == "rdiv":
            den = x.args[1]
            if den.op == "num" and den.args[0] != 0: return {m: c / den.args[0] for m, c in topoly(x.args[0]).items()}
            d = topoly(den)
            if quot and d:
                num = topoly(x.args[0])
                if set(num) == set(d):
                    q = {num[m] / d[m] for m in d}
                    if len(q) == 1: return {(): q.pop()}
            if d:
                key = min(d, key=lambda m: (-len(m), [y.id for y in m])); c0 = d[key]
                inv = mk("rinv", frompoly({m: q / c0 for m, q in d.items()}))
                r = {}
                for m, q in topoly(x.args[0]).items():
                    k = tuple(sorted(m + (inv,), key=lambda y: y.id)); r[k] = q / c0
                return r
        if x.op == "rdiv": return {(go0(x),): Fraction(1)}
        return {(go(x),): Fraction(1)}
    def arith(y): return y.op in RO
    def cmpatom(op, lo, hi):
        """comparisons of polynomials as sign conditions on their difference, content and sign normalised"""
        d = dict(topoly(hi))
        for m, q in topoly(lo).items():
            d[m] = d.get(m, 0) - q
            if d[m] == 0: del d[m]
        if quot and not d: return Bool(op == "feq")
        if quot and set(d) == {()}: return Bool(op == "flt" and d[()] > 0)
        if not d: return mk("psign", op, frompoly(d))
        key = min(d, key=lambda m: (-len(m), [y.id for y in m]))
        sc = abs(d[key]) if op == "flt" else d[key]
        return mk("psign", op, frompoly({m: q / sc for m, q in d.items()}))
    def go0(x): return mk(x.op, *[go(y) for y in x.args])
    def frompoly(pl):
        if quot and not pl: return Num(0)
        if quot and set(pl) == {()}: return Num(pl[()])
        if quot and len(pl) == 1:
            (m, q), = pl.items()
            if len(m) == 1 and q == 1: return m[0]
        return mk("poly", tuple(sorted(((c, tuple(m)) for m, c in pl.items()), key=lambda q: (len(q[1]), [y.id for y in q[1]]))))
    return go(t)
from fractions import Fraction

class TooBig(Exception): pass
BINDERS = ("comp", "fold", "ex", "first", "last", "sys", "bsys", "wh", "bwh", "whex", "cmpby", "poly", "psign", "var", "bvar", "num", "int", "str")
class Equiv(object):
    """equality of two decision diagrams on every combination of atom outcomes
    consistent with the order of floating-point numbers (trichotomy except for NaN, transitivity of equality)"""
    def __init__(self, exact, limit=60000): self.n = limit; self.memo = {}; self.exact = exact
    def run(self, a, b, facts=()): return self.eq(a, b, tuple(facts))
    def eq(self, a, b, fs):
        if a is b: return True
        if a is BOT or b is BOT: return True
        self.n -= 1
        if self.n < 0: raise TooBig()
        k = (a.id, b.id, fs)
        r = self.memo.get(k)
        if r is None: r = self.memo[k] = self.eq2(a, b, fs)
        return r
    def eq2(self, a, b, fs):
        if a.op == "ite" or b.op == "ite":
            t = min((x.args[0] for x in (a, b) if x.op == "ite"), key=lambda y: y.id)
            f = lambda x, v: (x.args[1] if v else x.args[2]) if x.op == "ite" and x.args[0] is t else x
            v = implied(t, fs)
            if v is not None: return self.eq(f(a, v), f(b, v), fs)
            return all(self.eq(f(a, v), f(b, v), self.add(fs, t, v)) for v in (True, False))
        if a.op != b.op: return self.same(a, b, fs)
        if a.op == "adt":
            return a.args[:2] == b.args[:2] and all(self.eq(x, y, fs) for x, y in zip(a.args[2:], b.args[2:]))
        if a.op in ("tuple", "lit", "cat", "array"):
            return len(a.args) == len(b.args) and all(self.eq(x, y, fs) for x, y in zip(a.args, b.args))
        if a.op in ("comp", "fold", "first", "last"):
            no = {"comp": None, "fold": 2, "first": None, "last": None}[a.op]
            if a.op == "comp" and a.args[0] == b.args[0] and len(a.args[2]) == len(b.args[2]):
                vs, ds, g, e = open_comp(a); ws, es, h, f = open_comp(b)
                m = dict(zip(ws, vs))
                es = [subst(x, m) for x in es]; h = subst(h, m); f = subst(f, m)
                if all(self.eq(x, y, fs) for x, y in zip(ds, es)) and self.eq(g, h, fs):
                    g2 = [(t, v) for t, v in lits(g)]
                    for t, v in g2: fs = self.add(fs, t, v)
                    return self.eq(e, f, fs)
            if a.op == "fold":
                (va, ve), (s, i), (st,) = openb(a, 2); (wa, we), (s2, i2), (st2,) = openb(b, 2)
                st2 = subst(st2, {wa: va, we: ve})
                return self.eq(s, s2, fs) and self.eq(i, i2, fs) and self.eq(st, st2, fs)
        if a.op not in BINDERS:
            if len(a.args) == len(b.args) and a.args and all(self.eq(x, y, fs) if isinstance(x, T) and isinstance(y, T) else x == y for x, y in zip(a.args, b.args)): return True
        return self.same(a, b, fs)
    def same(self, a, b, fs):
        if not self.exact:
            x, y = (a, b) if a.id < b.id else (b, a)
            for t, v in fs:
                if v and t.op == "feq" and t.args[0] is x and t.args[1] is y: return True
        return False
    def add(self, fs, t, v): return tuple(sorted(set(fs) | {(t, v)}, key=lambda q: (q[0].id, q[1])))
def lits(g):
    """literals of a conjunction"""
    r = []
    while g.op == "ite":
        if g.args[2] is FALSE: r.append((g.args[0], True)); g = g.args[1]
        elif g.args[1] is FALSE: r.append((g.args[0], False)); g = g.args[2]
        else: break
    return r
def implied(t, fs):
    """truth of atom t under the facts, None if open"""
    F = {}
    for u, v in fs: F[u] = v
    if t in F: return F[t]
    g = lambda op, *a: F.get(mk(op, *a)) if True else None
    def eq(x, y): return g("feq", *((x, y) if x.id < y.id else (y, x)))
    def notnan(x):
        if x.op == "num" or g("isfinite", x) or g("feq", x, x): return True
        for u, v in F.items():
            if v and u.op in ("flt", "feq") and x in u.args: return True
        return False
    if t.op == "flt":
        a, b = t.args
        if a is b or eq(a, b) or g("flt", b, a): return False
        if g("feq", a, a) is False or g("feq", b, b) is False: return False
        if notnan(a) and notnan(b):
            if g("flt", b, a) is False and eq(a, b) is False: return True
        for u, v in F.items():
            if v and u.op == "feq" and a in u.args and u.args[0] is not u.args[1]:
                c = u.args[0] if u.args[1] is a else u.args[1]
                r = g("flt", c, b)
                if r is not None: return r
                if eq(c, b): return False
            if v and u.op == "feq" and b in u.args and u.args[0] is not u.args[1]:
                c = u.args[0] if u.args[1] is b else u.args[1]
                r = g("flt", a, c)
                if r is not None: return r
            if v and u.op == "flt" and u.args[0] is a and g("flt", u.args[1], b): return True
            if v and u.op == "flt" and u.args[0] is b and g("flt", u.args[1], a): return False
    elif t.op == "feq":
        a, b = t.args
        if a is b: return True if notnan(a) else (False if g("isfinite", a) and False else None)
        if g("flt", a, b) or g("flt", b, a): return False
        if g("feq", a, a) is False or g("feq", b, b) is False: return False
        if g("flt", a, b) is False and g("flt", b, a) is False and notnan(a) and notnan(b): return True
        if g("isfinite", a) is not None and g("isfinite", b) is not None and g("isfinite", a) != g("isfinite", b): return False
        for u, v in F.items():
            if v and u.op == "feq" and u.args[0] is not u.args[1]:
                for x, y in ((a, b), (b, a)):
                    if x in u.args:
                        c = u.args[0] if u.args[1] is x else u.args[1]
                        r = eq(c, y)
                        if r is not None and c is not y: return r
    elif t.op in INTS: return intimplied(t, fs)
    elif t.op == "is":
        x, k, n = t.args; no = 0
        for u, v in fs:
            if u.op == "is" and u.args[0] is x and u.args[2] == n and u.args[1] != k:
                if v: return False
                no += 1
        if no == n - 1: return True
    elif t.op == "isfinite":
        a = t.args[0]
        if g("feq", a, a) is False: return False
        for u, v in F.items():
            if v and u.op == "feq" and a in u.args:
                c = u.args[0] if u.args[1] is a else u.args[1]
                r = g("isfinite", c)
                if r is not None: return r
    elif t.op == "psign":
        k, q = t.args
        neg = mk("poly", tuple((-c, m) for c, m in q.args[0]))
        mon = neg if k == "flt" else None
        if k == "flt":
            z = pz(q)
            if F.get(mk("psign", "flt", neg)): return False
            if z is not None and F.get(z): return False
            if F.get(mk("psign", "flt", neg)) is False and z is not None and F.get(z) is False: return True
        else:
            for s in pflt(q):
                if F.get(s): return False
            if all(F.get(s) is False for s in pflt(q)): return True
    return None
def _lead(q): return min(q.args[0], key=lambda cm: (-len(cm[1]), [y.id for y in cm[1]]))[0]
def pz(q):
    if not q.args[0]: return None
    c0 = _lead(q)
    return mk("psign", "feq", mk("poly", tuple((c / c0, m) for c, m in q.args[0])))
def pflt(q):
    if not q.args[0]: return []
    return [mk("psign", "flt", q), mk("psign", "flt", mk("poly", tuple((-c, m) for c, m in q.args[0])))]

class Verdict(object):
    def __init__(self, status, how, witness=None):
        self.status, self.how, self.witness = status, how, witness

class Space(object):
    """the symbols a comparison ranges over and how to interpret them"""
    def __init__(self, prog, vars, pre=TRUE, contracts=None, hooks=None, fixups=None, trials=300, special=0.08, lo=0):
        self.p = prog; self.vars = dict(vars); self.pre = pre
        self.contracts = contracts or {}; self.hooks = hooks or {}; self.fixups = fixups or {}
        self.body = None; self.envbody = None; self.trials = trials; self.special = special; self.lo = lo
    limit = 12.0; consts = ()
    def steer(self, *terms): self.consts = constants(terms)
    def model(self, seed):
        m = Model(self.p, seed, hooks=self.hooks, contracts=self.contracts, fixups=self.fixups, special=self.special)
        m.body = self.body; m.envbody = self.envbody; m.steer(self.consts)
        try:
            for v, ty in self.vars.items(): m.setvar(v, m.gen(ty) if not callable(ty) else ty(m))
            if m.tiny:
                # the same configuration in a very small neighbourhood
                for v, ty in self.vars.items(): m.setvar(v, m.scaled(m.vals[v], not callable(ty)))
        except DontCare: return None
        return m
    def describe(self, m):
        return {show(v): stable(m.vals[v])[:300] for v in self.vars}

def refute(space, test, trials=None, limit=None):
    """look for an interpretation in which test(model) holds; (model, detail) or None, and the number tried"""
    n = trials or space.trials; limit = limit or space.limit
    m, d, tried, why, end = _refute(space, test, space.lo, space.lo + n, 1, min(limit, 0.8))
    if m is not None or end >= space.lo + n or why and tried == 0: return m, d, tried, why
    # the rest in parallel
    workers = min(8, os.cpu_count() or 1)
    best = mmap.mmap(-1, 8 * (workers + 1))
    put = lambda k, v: best.__setitem__(slice(8 * k, 8 * k + 8), v.to_bytes(8, "little"))
    get = lambda k: int.from_bytes(best[8 * k:8 * k + 8], "little")
    put(0, (1 << 63) - 1)
    pids = []
    try:
        for w in range(workers):
            pid = os.fork()
            if pid == 0:
                try:
                    signal.alarm(0)
                    mm, _, t, _, _ = _refute(space, test, end + w, space.lo + n, workers, limit, lambda seed: seed > get(0))
                    if mm is not None and mm.seed < get(0): put(0, mm.seed)
                    put(w + 1, t)
                finally: os._exit(0)
            pids.append(pid)
        for pid in list(pids): os.waitpid(pid, 0); pids.remove(pid)
    finally:
        for pid in pids:
            try: os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
            except OSError: pass
    tried += sum(get(w + 1) for w in range(workers))
    if get(0) < (1 << 63) - 1:
        m, d, _, _, _ = _refute(space, test, get(0), get(0) + 1, 1, 60)
        if m is not None: return m, d, tried, None
    return None, None, tried, why
def _refute(space, test, lo, hi, step, limit, stop=None):
    t0 = time.time(); tried = 0; why = None; seed = lo
    while seed < hi:
        if time.time() - t0 > limit or stop and stop(seed): break
        m = space.model(seed); seed += step
        if m is None: continue
        try:
            if space.pre is not TRUE and not m.value(space.pre): continue
            m.budget = getattr(space, "budget", 400000)
            r = test(m)
            tried += 1
            if r: return m, r, tried, None, seed
        except DontCare: continue
        except Diverges as e:
            if getattr(space, "ends", False): return m, ("does not return: " + str(e), "returns"), tried, None, seed
            why = str(e); continue
        except NoInterp as e:
            why = str(e)
            if tried == 0 and m.seed > lo + 30 and "budget" not in why: break
            continue
        except RecursionError: continue
    return None, None, tried, why, seed

def equal(x, y, exact=False):
    """how the two normal forms are shown equal, None if they are not"""
    if x is y: return "identical normal forms"
    try:
        if Equiv(exact).run(x, y): return "equal on every consistent combination of comparisons"
    except TooBig: pass
    try:
        x2, y2 = context(x), context(y)
        if x2 is y2 or (x2 is not x or y2 is not y) and Equiv(exact).run(x2, y2): return "equal once nested conditions are read in their context"
    except TooBig: pass
def realequal(x, y, pre=TRUE):
    """equality as functions of finite reals (divisors not zero), where pre holds"""
    pre = poly(pre, quot=True); out = Str("outside")
    try:
        for _ in range(4):
            if x is y: return True
            x2, y2 = [context(ite(pre, poly(restrict(z, pre), quot=True), out)) for z in (x, y)]
            if x2 is x and y2 is y: break
            x, y = x2, y2
        return x is y or Equiv(False).run(x, y)
    except TooBig: return False

def compare(p, got, want, ty, space, exact=False):
    """is got = want for all values of the free symbols (under space.pre)?"""
    a, b = eta(p, got, ty), eta(p, want, ty)
    if space.pre is not TRUE: a, b = restrict(a, space.pre), restrict(b, space.pre)
    if a is b: return Verdict(PROVED, "identical normal forms")
    if not exact:
        x, y = poly(a), poly(b)
        if x is y: return Verdict(PROVED, "identical polynomial normal forms")
    else: x, y = a, b
    how = equal(x, y, exact)
    if how: return Verdict(PROVED, how)
    def test(m):
        va = m.value(a); vb = m.value(b)
        return None if veq(va, vb) else (stable(va)[:400], stable(vb)[:400])
    space.ends = True; space.steer(a, b)
    m, d, tried, why = refute(space, test)
    if m is not None:
        return Verdict(REFUTED, "normal forms differ", {"values": space.describe(m), "found": d[0], "required": d[1]})
    return Verdict(UNDECIDED, "normal forms differ in form, no separating interpretation among %d%s" % (tried, "; " + why if why else ""))

def never(p, cond, space):
    """is cond unsatisfiable (under space.pre)?"""
    c = And(space.pre, cond) if space.pre is not TRUE else cond
    if c is FALSE or c is BOT: return Verdict(PROVED, "condition is empty")
    space.steer(c)
    def test(m): return "reached" if m.value(c) else None
    m, d, tried, why = refute(space, test)
    if m is not None: return Verdict(REFUTED, "condition is satisfiable", {"values": space.describe(m)})
    return Verdict(UNDECIDED, "condition not reduced to false, no satisfying interpretation among %d%s" % (tried, "; " + why if why else ""))
def always(p, cond, space):
    return never(p, Not(cond), space)
def exactfin(t):
    """identities that hold exactly for floating-point numbers, given finite operands and no division by zero"""
    memo = {}
    def ga(a):
        if isinstance(a, T): return go(a)
        if isinstance(a, tuple): return tuple(ga(y) for y in a)
        return a
    def zero(x): return x.op == "num" and x.args[0] == 0
    def go(x):
        r = memo.get(x.id)
        if r is None:
            args = tuple(ga(a) for a in x.args)
            r = x if all(p is q for p, q in zip(args, x.args)) else rebuild(x.op, args)
            if r is not x and r.op == "ite": pass
            elif len(r.args) == 2 and isinstance(r.args[0], T):
                a, b = r.args
                if r.op == "rsub" and a is b: r = Num(0)
                elif r.op == "rmul" and (zero(a) or zero(b)): r = Num(0)
                elif r.op == "rdiv" and zero(a): r = Num(0)
                elif r.op == "rdiv" and a is b: r = Num(1)
                elif r.op == "feq" and a is b: r = TRUE
            memo[x.id] = r
        return r
    return go(t)
