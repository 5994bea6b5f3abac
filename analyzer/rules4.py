"""C08, C09: intersections of segments."""
from base import *
from rules1 import cross2, sub2
RULES = {}
def rule(pid):
    def d(f): RULES[pid] = f; return f
    return d
BOOL = {"k": "bool", "s": "bool"}
SI = "planar::primitives::segment::SegmentIntersection"
REAL = {"k": "float", "s": "f64"}
NAMES = ("ax", "ay", "bx", "by", "cx", "cy", "dx", "dy")

NM = {"a": "a", "b": "b", "c": "cc", "d": "dd"}
class Sgm(object):
    """two segments a->b and c->d given by eight coordinates"""
    def __init__(self, c):
        self.c = c; self.d = d = c.pl; self.v = c.voc
        self.X = {n: Var(n) for n in NAMES}
        P = lambda n: d.pos(self.X[n + "x"], self.X[n + "y"])
        self.a, self.b, self.cc, self.dd = P("a"), P("b"), P("c"), P("d")
        self.s, self.o = d.seg(self.a, self.b), d.seg(self.cc, self.dd)
        self.fin = And(*[isfinite(x) for x in self.X.values()])
    none = property(lambda s: s.v.con(SI, "None"))
    def pos(self, p): return self.v.con(SI, "Position", p)
    def sgm(self, p, q): return self.v.con(SI, "Segment", self.d.seg(p, q))
    def xy(self, p): return self.d.coords(p)
    def on(self, s, p):
        d = self.d; a, b = d.start(s), d.end(s)
        cr = cross2(sub2(self.xy(b), self.xy(a)), sub2(self.xy(p), self.xy(a)))
        return And(d.contains(d.boxof(a, b), d.box(p, p)), feq(cr, Num(0)))
    def interp(self, t, a=None, b=None):
        d = self.d; a = a or self.a; b = b or self.b
        x = d.pos(*[radd(p, rmul(rsub(q, p), t)) for p, q in zip(self.xy(a), self.xy(b))])
        return ite(feq(t, Num(0)), a, ite(feq(t, Num(1)), b, x))
    def want(self, shared=False, same=False):
        """what the carrier lines dictate; optionally with the (redundant) cases of shared ends"""
        d = self.d; xy = self.xy; a, b, c, e = self.a, self.b, self.cc, self.dd
        da, db, off = sub2(xy(b), xy(a)), sub2(xy(e), xy(c)), sub2(xy(c), xy(a))
        dot = lambda p, q: radd(rmul(p[0], q[0]), rmul(p[1], q[1]))
        den, oa = cross2(da, db), cross2(off, da)
        one, zero = Num(1), Num(0)
        ta, tb = rdiv(cross2(off, db), den), rdiv(oa, den)
        unit = lambda t: And(fle(zero, t), fle(t, one))
        cross_ = ite(And(unit(ta), unit(tb)), self.pos(self.interp(ta)), self.none)
        if shared:
            cross_ = ite(Or(d.peq(a, c), d.peq(a, e)), self.pos(a), ite(Or(d.peq(b, c), d.peq(b, e)), self.pos(b), cross_))
        da2 = dot(da, da)
        t0, t1 = rdiv(dot(off, da), da2), rdiv(dot(sub2(xy(e), xy(a)), da), da2)
        lo, hi = fmin(t0, t1), fmax(t0, t1)
        p, q = self.interp(fmax(lo, zero)), self.interp(fmin(hi, one))
        par = ite(Or(flt(one, lo), flt(hi, zero)), self.none, ite(d.peq(p, q), self.pos(p), self.sgm(p, q)))
        par = ite(feq(oa, zero), par, self.none)
        r = ite(feq(den, zero), par, cross_)
        if same: r = ite(And(d.peq(a, c), d.peq(b, e)), self.sgm(a, b), r)
        r = ite(d.peq(c, e), ite(self.on(self.s, c), self.pos(c), self.none), r)
        return ite(d.peq(a, b), ite(self.on(self.o, a), self.pos(a), self.none), r)
    def cases(self):
        x = self.X
        eq = lambda p, q: [(x[q + "x"], x[p + "x"]), (x[q + "y"], x[p + "y"])]
        return [eq("a", "b"), eq("c", "d"), eq("a", "c") + eq("b", "d"), eq("a", "d") + eq("b", "c"), eq("a", "c"), eq("a", "d"), eq("b", "c"), eq("b", "d")]
    def real(self, m):
        return Fraction(m.rng.choice(self.grid(m)))
    def grid(self, m):
        return ((0, 1), (0, 1, 2), (0, 1, 2, 3, 4), (-2, 0, 1, 3, 5), tuple(range(-4, 9)))[m.seed % 5]
    def vars(self):
        """coordinates for interpretation: small integers, ends often shared, segments often collinear"""
        def first_(m):
            g = self.grid(m); r = m.rng
            p = [(r.choice(g), r.choice(g)) for _ in range(4)]
            if m.seed % 3 == 0:
                k = r.choice(((1, 0), (0, 1), (1, 1), (2, 1), (1, -2), (3, 1)))
                o = (r.choice((0, 1)), r.choice((0, 1)))
                p = [(o[0] + t * k[0], o[1] + t * k[1]) for t in (r.choice((-1, 0, 1, 2, 3, 4, 5, 7)) for _ in range(4))]
                if r.random() < 0.1: p[3] = (p[3][0], p[3][1] + 1)
            if r.random() < 0.15: p[r.randrange(4)] = p[r.randrange(4)]
            if m.tiny and m.tiny[2].random() < 0.7:
                # almost touching, almost parallel, almost shared
                e = Fraction(1, 1 << m.tiny[2].choice((24, 40, 56)))
                p = [tuple(z + (e * r.choice((-1, 1)) if r.random() < 0.25 else 0) for z in q) for q in p]
            m.xs = dict(zip(NAMES, [Fraction(z) for q in p for z in q]))
            return m.xs["ax"]
        vs = {self.X["ax"]: first_}
        for n in NAMES[1:]: vs[self.X[n]] = (lambda n: lambda m: m.xs[n])(n)
        return vs
from fractions import Fraction

@rule("C08")
def c08(c):
    g = Sgm(c); d = c.pl
    def con():
        i = c.one(d.Sg, "contains")
        def f():
            p = d.pos(g.X["cx"], g.X["cy"])
            v, _, _ = c.call(i, [g.s, p])
            return decide.compare(c.p, v, g.on(g.s, p), BOOL, c.space(g.vars(), pre=g.fin))
        c.ob("Segment::contains: on the carrier line and within the segment's box", i, "value", f)
    def isx():
        i = c.one(d.Sg, "intersect_segment")
        def f():
            v, _, _ = c.call(i, [g.s, g.o])
            t = c.retty(i)
            forms = [g.want(shared=a, same=b) for a in (False, True) for b in (False, True)]
            return bycases(c, v, forms, t, g)
        c.ob("Segment::intersect_segment gives what the carrier lines dictate", i, "value in real arithmetic, by cases of shared ends", f)
    each(c, con, isx)

def bycases(c, v, forms, t, g):
    """equal to the first form in real arithmetic: directly, or in every case of coinciding ends"""
    a = restrict(decide.eta(c.p, v, t), g.fin)
    fs = [restrict(decide.eta(c.p, w, t), g.fin) for w in forms]
    how = None
    if any(x is a for x in fs[:1]): return Verdict(PROVED, "identical normal forms")
    b = fs[0]
    n = 0
    not_ = TRUE
    for case in g.cases() + [[]]:
        m = dict(case)
        eqs = And(*[feq(x, y) for x, y in case]) if case else None
        pre = And(g.fin, subst(not_, m)) 
        x, y = restrict(subst(a, m), pre), restrict(subst(b, m), pre)
        if eqs is not None: not_ = And(not_, Not(eqs))
        if pre is FALSE: continue
        h = decide.realequal(x, y, pre)
        if not h: how = "case %s" % ", ".join("%s=%s" % (show(p), show(q)) for p, q in case); break
        n += 1
    if how is None: return Verdict(PROVED, "equal as real functions in %d cases of coinciding ends" % n)
    r = decide.compare(c.p, a, b, t, c.space(g.vars(), pre=g.fin))
    if r.status == UNDECIDED: r.how += " (%s)" % how
    return r

@rule("C09")
def c09(c):
    g = Sgm(c); d = c.pl
    i = c.one(d.Sg, "intersect_segment")
    t = c.retty(i)
    SIP = c.voc.path(SI)
    vp, vs = c.voc.variant(SIP, "Position")[0], c.voc.variant(SIP, "Segment")[0]
    def value():
        v, _, _ = c.call(i, [g.s, g.o])
        return decide.eta(c.p, v, t)
    def proper(): return And(g.fin, Not(d.peq(g.a, g.b)), Not(d.peq(g.cc, g.dd)))
    def shared():
        for n, (p, q) in zip(("start to start", "start to end", "end to start", "end to end"), (("a", "c"), ("a", "d"), ("b", "c"), ("b", "d"))):
            def f(p=p, q=q):
                m = {g.X[q + k]: g.X[p + k] for k in "xy"}
                e = d.pos(g.X[p + "x"], g.X[p + "y"])
                both = d.peq(getattr(g, NM["b" if p == "a" else "a"]), getattr(g, NM["d" if q == "c" else "c"]))   # then they overlap
                pre = decide.exactfin(subst(And(proper(), Not(both)), m))
                x = subst(value(), m)
                n = [x]
                for _ in range(3): n.append(decide.context(ite(pre, decide.exactfin(restrict(n[-1], pre)), Str("outside"))))
                y = n[-1]
                w = E.lift_nc(lambda z: adt(SIP, vp, e) if z.op == "adt" and z.args[1] == vp else z, y)
                w = decide.context(decide.eta(c.p, w, t)) if w.op != "ite" else decide.context(w)
                if w is y: return Verdict(PROVED, "the position is the shared end in every case")
                try:
                    if decide.Equiv(False).run(y, w): return Verdict(PROVED, "the position equals the shared end in every case")
                except decide.TooBig: pass
                x0 = decide.exactfin(x) if False else x
                def test(m):
                    r = m.value(x0)
                    if r[2] != vp: return None
                    want = m.value(e)
                    return None if r[3] == want else (stable17(r[3]), stable17(want))
                sp = c.space(floats(g, skip=(q,), share=(p, q)), pre=pre)
                sp.ends = True; sp.steer(x0, e)
                m_, dd, tried, why = decide.refute(sp, test)
                if m_ is not None: return Verdict(REFUTED, "a recomputed position is reported where the segments share an end", {"values": {k: stable17(m_.vals[x]) for k, x in g.X.items() if x in m_.vals}, "found": dd[0], "required": dd[1]})
                return Verdict(UNDECIDED, "not shown to be the shared end; none of %d interpretations differs%s" % (tried, "; " + why if why else ""))
            c.ob("segments sharing an end (%s) meet exactly in it" % n, i, "value in floating-point arithmetic", f)
    def overlap():
        def f():
            pre = proper()
            seg = lambda x: E.lift_nc(lambda z: z if z.op == "adt" and z.args[1] == vs else g.none, x)
            norm = lambda x: decide.context(ite(pre, restrict(x, pre), Str("outside")))
            x = norm(seg(value()))
            for sh in (False, True):
                for sm in (True, False):
                    w = norm(seg(decide.eta(c.p, g.want(sh, sm), t)))
                    if w is x or decide.Equiv(True).run(x, w): return Verdict(PROVED, "the overlap is clamped to the first segment and its ends are returned unchanged at the clamped parameters")
            raw = value()
            def test(m):
                r = m.value(raw)
                if r[2] != vs: return None
                xs = {k: Fraction(m.vals[g.X[k]]) for k in NAMES}
                A, B, C, D = [(xs[k + "x"], xs[k + "y"]) for k in "abcd"]
                u = (B[0] - A[0], B[1] - A[1]); l = u[0] * u[0] + u[1] * u[1]
                par = lambda P: ((P[0] - A[0]) * u[0] + (P[1] - A[1]) * u[1]) / l
                lo, hi = min(par(C), par(D)), max(par(C), par(D))
                got = [r[3][3][3:], r[3][4][3:]]
                for reach, e, nm in ((lo <= 0, "a", "start"), (hi >= 1, "b", "end")):
                    w = (m.vals[g.X[e + "x"]], m.vals[g.X[e + "y"]])
                    if reach and w not in got: return ("%s, %s" % tuple(stable17(z) for z in got), "the %s %s unchanged" % (nm, stable17(w)))
                return None
            sp = c.space(floats(g, collinear=True), pre=pre)
            sp.ends = True
            m_, dd, tried, why = decide.refute(sp, test)
            if m_ is not None: return Verdict(REFUTED, "an overlap reaching an end of the first segment does not report that end", {"values": {k: stable17(m_.vals[x]) for k, x in g.X.items()}, "found": dd[0], "required": dd[1]})
            return Verdict(UNDECIDED, "not shown; none of %d interpretations differs%s" % (tried, "; " + why if why else ""))
        c.ob("overlaps report the ends of the first segment unchanged where they reach them", i, "value in floating-point arithmetic", f)
    each(c, shared, overlap)
def stable17(v):
    if isinstance(v, (float, Fraction)): return "%.17g" % float(v)
    if isinstance(v, tuple): return "(" + ",".join(stable17(x) for x in v) + ")"
    return str(v)

def floats(g, skip=(), share=None, collinear=False):
    """floating-point coordinates"""
    def first_(m):
        r = m.rng
        num = (lambda: float(r.choice((r.uniform(-10, 10), round(r.uniform(-3, 3), 1), r.randrange(-3, 4), round(r.uniform(0, 1), 2)))))
        p = {k: (num(), num()) for k in "abcd"}
        if collinear or r.random() < 0.3:
            o = num(); kind = r.randrange(3)
            f = [lambda t: (t, o), lambda t: (o, t), lambda t: (t, t)][kind]
            p = {k: f(num()) for k in "abcd"}
        if share: p[share[1]] = p[share[0]]
        elif r.random() < 0.4: p[r.choice("cd")] = p[r.choice("ab")]
        m.xs = {k + x: p[k][j] for k in "abcd" for j, x in enumerate("xy")}
        return m.xs["ax"]
    vs = {g.X["ax"]: first_}
    for n in NAMES[1:]:
        if n[0] in skip: continue
        vs[g.X[n]] = (lambda n: lambda m: m.xs[n])(n)
    return vs
