"""C17-C23: boundaries of collections, simplicity and validation."""
from base import *
from rules2 import Geo, heavy, HEAVY, KINDS, PT, LS, PG, MP, ML, MG, EM, GE
RULES = {}
def rule(pid):
    def d(f):
        def g(c):
            c.indexed = True; c.opaque_default = heavy()
            ringhook(c)
            return f(c)
        RULES[pid] = g; return g
    return d
BOOL = {"k": "bool", "s": "bool"}
def isok(v): return E.lift_nc(lambda x: ite(isvar(x, 0, 2), TRUE, FALSE), v)

def ringhook(c):
    """polylines for interpretation: often closed or simple, so that the later stages of validation are reached"""
    import interp
    from fractions import Fraction
    try: path = c.voc.path(LS); P = c.voc.path(c.pl.P)
    except Layout: return
    R = [[(0, 0), (4, 0), (4, 4), (0, 4)], [(1, 1), (3, 1), (3, 3), (1, 3)], [(1, 1), (2, 1), (2, 2)], [(2, 2), (3, 3), (2, 3)], [(5, 0), (7, 0), (6, 2)], [(4, 0), (6, 0), (6, 4), (4, 4)],
         [(3, 2), (5, 2), (5, 3)], [(0, 0), (8, 0), (8, 8), (0, 8)], [(5, 5), (7, 5), (7, 7), (5, 7)], [(4, 4), (5, 4), (5, 5)], [(1, 0), (3, 0), (2, 2)]]
    O = [[(0, 0), (2, 0)], [(0, 0), (2, 2), (4, 0)], [(0, 2), (2, 0)], [(0, 0), (0, 2), (2, 2), (2, 0)], [(2, 0), (4, 0)], [(2, 2), (2, 4)], [(0, 0), (4, 0), (2, 0)], [(0, 0), (4, 0), (4, 4), (2, -2)],
         [(1, 0), (1, 3)], [(0, 0), (2, 0), (1, 1), (0, 0)], [(0, 0), (2, 0), (2, 2), (0, 0), (1, 3)], [(0, 0), (3, 0), (3, 3), (1, 0)]]
    def mono(rng):
        """a valid open polyline: one coordinate strictly increases"""
        n = rng.choice((2, 2, 2, 3)); xs = sorted(rng.sample(range(5), n)); ys = [rng.randrange(5) for _ in range(n)]
        q = list(zip(xs, ys))
        if rng.random() < 0.5: q = [(y, x) for x, y in q]
        return q
    def hook(m, ty, rng, depth):
        v = ("A", path, 0)
        u = rng.random()
        mode = 0 if getattr(m, 'rings', False) else m.seed % 5 if depth > 0 else 4       # 0-1: rings, 2-3: lines, 4: anything
        if mode in (0, 1) and u < (0.995 if m.seed % 3 else 0.9):
            q = rng.choice(R)
            if rng.random() < 0.5:
                a, b, w = rng.randrange(9), rng.randrange(9), rng.choice((1, 2, 4, 8)); q = [(a, b), (a + w, b), (a + w, b + w), (a, b + w)]
            q = q + q[:1]
            ps = tuple(("A", P, 0, Fraction(x), Fraction(y)) for x, y in q)
        elif mode in (2, 3) and u < 0.95:
            q = mono(rng) if rng.random() < 0.9 else (lambda z: z + z[:1])(rng.choice(R))
            ps = tuple(("A", P, 0, Fraction(x), Fraction(y)) for x, y in q)
        elif u < 0.25: ps = tuple(("A", P, 0, m.real(rng), m.real(rng)) for _ in range(rng.choice((0, 1, 2, 2, 3, 3, 4, 5))))
        else:
            if u < 0.7: q = rng.choice(R); q = q + q[:1]
            else: q = rng.choice(O)
            if rng.random() < 0.3: q = q[::-1]
            if rng.random() < 0.2: q = [(y, x) for x, y in q]
            dx, dy = (rng.choice((0, 1, 2, 10)), rng.choice((0, 0, 1))) if rng.random() < 0.4 else (0, 0)
            ps = tuple(("A", P, 0, Fraction(x + dx), Fraction(y + dy)) for x, y in q)
        if m.extra and ps and rng.random() < 0.3:
            # as many positions as the code's own constants ask for, without changing the shape
            k = rng.choice([int(x) for x in m.extra if x.denominator == 1 and x < 3000] or [0]) + rng.randrange(-1, 3); ps = list(ps)
            while len(ps) < k and len(ps) > 1:
                j = rng.randrange(len(ps) - 1); u_, w_ = ps[j][3:], ps[j + 1][3:]
                if u_ == w_ or not all(interp.fin(x) for x in u_ + w_): break
                ps.insert(j + 1, ("A", P, 0) + tuple((x + y) / 2 for x, y in zip(u_, w_)))
            ps = tuple(ps)
        if ps and rng.random() < (0.12 if depth == 0 else 0.02):
            # almost right: a position repeated, dropped, moved, exchanged or not finite
            ps = list(ps); j = rng.randrange(len(ps)); w_ = rng.randrange(6)
            if w_ in (0, 1): ps.insert(j, ps[j])
            elif w_ == 2: del ps[j]
            elif w_ == 3: ps[j] = ("A", P, 0, m.real(rng), m.real(rng))
            elif w_ == 4: k = rng.randrange(len(ps)); ps[j], ps[k] = ps[k], ps[j]
            elif m.special: x = list(ps[j]); x[3 + rng.randrange(len(x) - 3)] = rng.choice((interp.NAN, interp.INF, -interp.INF)); ps[j] = tuple(x)
            ps = tuple(ps)
        fs = []
        for f in c.p.adts[path]["variants"][0]["fields"]:
            t = c.p.tys[f[1]]
            fs.append(("L",) + ps if t.get("path") == "alloc::vec::Vec" else m.gen(t, rng, depth + 1))
        v += tuple(fs)
        if path in m.fixups: v = m.fixups[path](m, v)
        return v
    c.hooks[path] = hook
def manyholes(m, rng):
    """a number of holes beyond the code's own constants, now and then"""
    ks = [int(x) for x in m.extra if x.denominator == 1 and 3 < x <= 40]
    return rng.choice(ks) + rng.randrange(1, 3) if ks and rng.random() < 0.4 else 0

def verdict_of_bounds(c, i, got, lower, upper, refs, vars):
    """lower => got => upper, proved when got is one of the reference forms (each between the bounds)"""
    g = decide.eta(c.p, got, BOOL)
    for r in refs:
        if decide.eta(c.p, r, BOOL) is g: return Verdict(PROVED, "identical normal forms")
    sp = c.space(vars)
    for r in refs:
        how = decide.equal(g, decide.eta(c.p, r, BOOL))
        if how: return Verdict(PROVED, how)
    def test(m):
        x = m.value(got)
        if x and not m.value(upper): return ("accepted", "must be rejected")
        if not x and m.value(lower): return ("rejected", "must be accepted")
        return None
    sp.ends = True; sp.steer(got, lower, upper)
    m, d, tried, why = decide.refute(sp, test)
    if m is not None: return Verdict(REFUTED, "normal forms differ", {"values": sp.describe(m), "found": d[0], "required": d[1]})
    return Verdict(UNDECIDED, "normal forms differ in form, no separating interpretation among %d%s" % (tried, "; " + why if why else ""))

class V(Geo):
    """vocabulary of validation"""
    def __init__(self, c):
        Geo.__init__(self, c)
        self.ix = c.index
    def valid(self, typ, x):
        return isok(self.c.call_opaque(self.c.one(typ, "validate"), [x], heavy()))
    def segs(self, l):
        p = self.positions(l)
        return lambda i: self.d.seg(at(p, i), at(p, iadd(i, Int(1))))
    def nsegs(self, l): return inat(isub(seqlen(self.positions(l)), Int(1)))
    def sbox(self, s): return self.d.boxof(self.d.start(s), self.d.end(s))
    def meet(self, a, b): return self.ix.meets(a, b)
    def isx(self, s, t):
        i = self.c.one(self.d.Sg, "intersect_segment")
        return self.c.call_opaque(i, [s, t], heavy())
    SI = "planar::primitives::segment::SegmentIntersection"
    def xis(self, x, v): return self.v.isv(x, self.SI, v)
    def xpos(self, x): return self.v.get(x, self.SI, "0", "Position")
    def rel(self, a, b):
        i = relfn(self.c)
        return self.c.call_opaque(i, [a, b], heavy())
    def ris(self, r, name): return self.v.isv(r, self.relty, name)
    @property
    def relty(self):
        return self.c.retty(relfn(self.c))["path"].replace("magog::", "", 1)
    def pairs(self, n, f):
        """some i < j < n with f(i, j)"""
        i, j = fresh("k"), fresh("k")
        return exists([j, i], [n, j], f(i, j))
    def lbox(self, typ, x):
        return self.c.call(self.c.one(typ, "envelope", "HasEnvelope"), [x])[0]

def relfn(c):
    """the ring comparison, by what it takes and gives"""
    if not hasattr(c, "_rel"):
        out = []
        for i, f in enumerate(c.p.insts):
            if not f["local"] or f["closure"] or f["argc"] != 2: continue
            r = c.p.tys[f["locals"][0]]
            if r["k"] != "adt" or {v["name"] for v in r["variants"]} < {"Separate", "Contains", "Within", "Crosses"} or len(r["variants"]) != 4: continue
            if all(strip(c.p, c.argty(i, k)).get("path", "").endswith(LS) for k in (0, 1)): out.append(i)
        named = [i for i in out if c.p.insts[i]["name"] == "find_loop_loop_relation"]
        out = named or out
        if len(out) != 1: raise Layout("ring comparison: %d candidates" % len(out))
        c._rel = out[0]
    return c._rel
def strip(p, t):
    while t["k"] == "ref": t = p.tys[t["t"]]
    return t

@rule("C17")
def c17(c):
    g = V(c); d = c.pl
    def f():
        i = c.one(ML, "boundary")
        def want(m):
            s = g.lines(m)
            def ends(pick):
                k = fresh("k"); l = at(s, k); p = g.positions(l)
                q = pick(p)
                key = tup(*[adt(E.NOTNAN, 0, x) for x in d.coords(q)])
                return comp([k], [seqlen(s)], And(ipos(seqlen(p)), Not(g.closed(l)), Not(d.pnan(q))), key)
            t = mk("tog", "B", cat(ends(lambda p: at(p, Int(0))), ends(lambda p: at(p, isub(seqlen(p), Int(1))))))
            u = usorted(t); k = fresh("k"); x = at(u, k)
            pos = d.pos(*[fld(fld(x, 0, n), 0, 0) for n in range(2)])
            pts = comp([k], [seqlen(u)], TRUE, g.point(pos))
            return ite(ieq(mk("setlen", t), Int(0)), g.gempty(), g.geom("MultiPoint", g.built(MP, pts)))
        c.eq("MultiLineString::boundary is the set of odd endpoints in ascending order", i, want)
        def det():
            v, _, ev = c.call(i, c.sym(i))
            bad = [x for x in walk(v) if x.op in ("hashorder", "mapkeys")]
            return Verdict(UNDECIDED, "hash order reaches the result") if bad else Verdict(PROVED, "no unordered iteration in the value")
        c.ob("MultiLineString::boundary does not depend on hash order", i, "taint", det)
    each(c, f)

@rule("C18")
def c18(c):
    g = V(c)
    for k, t, _ in KINDS:
        def f(k=k, t=t):
            i = c.one(t, "is_simple")
            vi = c.one(t, "validate")
            def ob():
                x = c.sym(i)
                own = c.p.insts[vi]["path"] if vi is not None else None
                op = heavy()
                def opaque(inst): return inst["path"] == own or op(inst)
                v, _, ev = c.call(i, x, opaque)
                if vi is None: w = TRUE
                else: w = isok(c.call_opaque(vi, x, opaque))
                a = decide.eta(c.p, v, BOOL); b = decide.eta(c.p, w, BOOL)
                if a is b: return Verdict(PROVED, "identical normal forms: is_simple = validate().is_ok()")
                # expand the validation of this kind on both sides
                v2, _, _ = c.call(i, x, lambda inst: inst["path"] != own and op(inst))
                w2 = isok(c.call(vi, x)[0]) if vi is not None else TRUE
                return decide.compare(c.p, v2, w2, BOOL, c.space(c.vars(i, x)))
            c.ob("%s::is_simple is true exactly when validate succeeds" % k, i, "value", ob)
        each(c, f)
    def emp():
        i2 = c.one(GE, "is_simple")
        def ob2():
            v, _, _ = c.call(i2, [g.gempty()])
            return decide.compare(c.p, v, TRUE, BOOL, c.space({}))
        c.ob("the Empty geometry is simple", i2, "value", ob2)
        def ob1():
            j = c.one(EM, "validate")
            return decide.compare(c.p, isok(c.call(j, [Var("x")])[0]), TRUE, BOOL, c.space({}))
        c.ob("the Empty geometry is valid", c.one(EM, "validate"), "value", ob1)
        for k, t, _ in KINDS:
            def ob3(k=k, t=t):
                j = c.one(t, "validate")
                x = Var("x")
                path = c.p.insts[j]["path"]; own = c.p.insts[i2]["path"]; op = heavy(names=tuple(n for n in HEAVY if n != "is_simple"))
                v, _, _ = c.call(i2, [g.geom(k, x)], lambda inst: inst["path"] != own and (inst["path"] == path or op(inst)))
                w = isok(c.call_opaque(j, [x], lambda inst: True))
                tt = [y for y in c.p.tys if y["k"] == "adt" and y["path"].endswith("::" + t)]
                if k == "Empty": w = TRUE
                vd = decide.eta(c.p, v, BOOL)
                if k == "Empty" and vd is decide.eta(c.p, isok(c.call_opaque(j, [x], lambda inst: True)), BOOL): return Verdict(PROVED, "identical normal forms")
                return decide.compare(c.p, v, w, BOOL, c.space({x: tt[0]}))
            c.ob("Geometry::is_simple of a %s is true exactly when the %s's validation succeeds" % (k, k), i2, "value", ob3)
    each(c, emp)

@rule("C19")
def c19(c):
    g = V(c); d = c.pl
    i = c.one(LS, "validate")
    def forms(l):
        p = g.positions(l); n = seqlen(p); sg = g.segs(l); ns = g.nsegs(l)
        k = fresh("k"); a, b = at(p, k), at(p, iadd(k, Int(1)))
        basic = exists([k], [ns], Or(Not(d.pfin(a)), Not(d.pfin(b)), d.peq(a, b)))
        closed = g.closed(l)
        def bad(allow):
            def f(i, j):
                s, t = sg(i), sg(j)
                x = g.isx(s, t); q = g.xpos(x)
                return And(g.meet(g.sbox(s), g.sbox(t)), Not(g.xis(x, "None")), Or(Not(g.xis(x, "Position")), Not(allow(i, j, s, t, q))))
            return g.pairs(ns, f)
        def out(allow): return ite(Not(ipos(n)), TRUE, ite(ieq(n, Int(1)), FALSE, And(Not(basic), Not(bad(allow)))))
        adj = lambda i, j: ieq(j, iadd(i, Int(1)))
        wrap = lambda i, j: And(closed, ieq(i, Int(0)), ieq(j, isub(isub(n, Int(1)), Int(1))))
        tight = lambda i, j, s, t, q: Or(And(adj(i, j), d.peq(q, d.end(s))), And(wrap(i, j), d.peq(q, d.start(s))))
        loose = lambda i, j, s, t, q: And(Or(adj(i, j), wrap(i, j)), Or(d.peq(q, d.end(s)), d.peq(q, d.start(s))))
        return out(tight), out(loose)
    def f():
        x = c.sym(i)
        v, _, ev = c.call(i, x)
        lo, up = forms(x[0])
        return verdict_of_bounds(c, i, isok(v), lo, up, [up, lo], c.vars(i, x))
    c.ob("LineString::validate accepts exactly: empty, or >= 2 finite positions, consecutive ones different, segments meeting only at shared ends", i, "value", f)
    def tree():
        j = c.one(LS, "build_rtree")
        x = c.sym(j)
        v, _, _ = c.call(j, x)
        p = g.positions(x[0]); k = fresh("k")
        want = comp([k], [g.nsegs(x[0])], TRUE, g.sbox(g.segs(x[0])(k)))
        if v.op != "rtree": return Verdict(UNDECIDED, "not an index of a sequence")
        t = [y for y in c.p.tys if y["k"] == "adt" and y["path"].endswith("planar::primitives::envelope::Envelope")][0]
        return decide.compare(c.p, v.args[0], want, None, c.space(c.vars(j, x)))
    c.ob("LineString::build_rtree indexes every segment", c.one(LS, "build_rtree"), "value", tree)

@rule("C20")
def c20(c):
    g = V(c); d = c.pl
    def val():
        def want(m):
            s = g.points(m); n = seqlen(s)
            P = lambda k: g.ppos(at(s, k))
            k = fresh("k"); j = fresh("k")
            return Not(exists([k], [n], Or(Not(d.pfin(P(k))), exists([j], [k], d.peq(P(k), P(j))))))
        i = c.one(MP, "validate")
        c.eq("MultiPoint::validate accepts exactly finite, pairwise different points", i, want, got=lambda v, *a: isok(v), ty=BOOL)
    def simp():
        def want(m):
            s = g.points(m); k = fresh("k"); q = g.ppos(at(s, k))
            key = tup(*[adt(E.NOTNAN, 0, x) for x in d.coords(q)])
            u = usorted(mk("set", "B", comp([k], [seqlen(s)], d.pfin(q), key)))
            j = fresh("k"); x = at(u, j)
            pts = comp([j], [seqlen(u)], TRUE, g.point(d.pos(*[fld(fld(x, 0, n), 0, 0) for n in range(2)])))
            some = exists([k], [seqlen(s)], d.pfin(q))
            return ite(some, g.geom("MultiPoint", g.built(MP, pts)), g.gempty())
        c.eq("MultiPoint::make_simple keeps each finite point once, ascending", c.one(MP, "make_simple"), want)
    def has():
        def want(m, p):
            s = g.points(m); k = fresh("k")
            return exists([k], [seqlen(s)], d.peq(g.ppos(at(s, k)), g.ppos(p)))
        c.eq("MultiPoint::contains_point", c.one(MP, "contains_point"), want)
    each(c, val, simp, has)

def relcontract(c):
    """the ring comparison, interpreted: any relation, mirrored when the rings are exchanged, separate when their boxes do not meet"""
    import interp
    path = c.p.insts[relfn(c)]["path"]
    rt = c.retty(relfn(c))
    names = [v["name"] for v in rt["variants"]]
    mirror = {"Contains": "Within", "Within": "Contains"}
    lsp = c.voc.path(LS)
    def f(m, a, b):
        bx = c.fixups[lsp](m, a), c.fixups[lsp](m, b)
        def box(v): return [x for x in v[3:] if x[0] == "A" and x[1].endswith("::Envelope")][0]
        x, y = box(bx[0]), box(bx[1])
        if x[2] == 0 or y[2] == 0 or not (all(p <= q for p, q in zip(x[3][3:], y[4][3:])) and all(p <= q for p, q in zip(y[3][3:], x[4][3:]))):
            return ("A", rt["path"], names.index("Separate"))
        ka, kb = interp.stable(a), interp.stable(b)
        if ka == kb: return ("A", rt["path"], names.index("Crosses"))
        r = interp.seed_of(m.seed, min(ka, kb), max(ka, kb)) % 10
        name = "Separate" if r < 4 else "Crosses" if r == 4 else "Contains" if r < 8 else "Within"
        if ka > kb: name = mirror.get(name, name)
        inside = lambda p, q: all(s <= t for s, t in zip(p[3][3:], q[3][3:])) and all(t <= s for s, t in zip(p[4][3:], q[4][3:]))
        if name == "Contains" and not inside(x, y) or name == "Within" and not inside(y, x): name = "Crosses" if r in (5, 8) else "Separate"
        return ("A", rt["path"], names.index(name))
    c.contracts[path] = f
    try: pgp, ls = c.voc.path(PG), c.voc.path(LS)
    except Layout: return
    lst = [t for t in c.p.tys if t["k"] == "adt" and t["path"] == ls]
    posp = c.voc.path(c.pl.P)
    def mksquare(m, rng, depth, x, y, w):
        w = max(w, 1)
        q = [(x, y), (x + w, y), (x + w, y + w), (x, y + w), (x, y)]
        if rng.random() < 0.1 or m.extra and rng.random() < 0.4:
            k = 5 + rng.randrange(1, 5)
            if m.extra and rng.random() < 0.7: k = min(60, int(max(m.extra)) + rng.randrange(3))
            F_ = interp.Fraction
            while len(q) < k:
                j = rng.randrange(len(q) - 1)
                if rng.random() < 0.5: j = max(range(len(q) - 1), key=lambda j: abs(q[j][0] - q[j + 1][0]) + abs(q[j][1] - q[j + 1][1]))
                q.insert(j + 1, (F_(q[j][0] + q[j + 1][0]) / 2, F_(q[j][1] + q[j + 1][1]) / 2))
        v = ("A", ls, 0)
        for f_ in c.p.adts[ls]["variants"][0]["fields"]:
            t = c.p.tys[f_[1]]
            v += (("L",) + tuple(("A", posp, 0, interp.Fraction(s), interp.Fraction(t)) for s, t in q) if t.get("path") == "alloc::vec::Vec" else m.gen(t, rng, depth + 2),)
        return c.fixups[ls](m, v) if ls in c.fixups else v
    def poly(m, ty, rng, depth):
        """polygons, often with holes that the relation of this interpretation finds inside the exterior and separate"""
        if m.seed % 5 == 4 or not lst: return None
        m.rings = True
        keep = 0.93 if m.seed % 2 else 0.5
        fs = c.p.adts[pgp]["variants"][0]["fields"]
        vec = [j for j, x in enumerate(fs) if c.p.tys[x[1]].get("path") == "alloc::vec::Vec"]
        one = [j for j, x in enumerate(fs) if c.p.tys[x[1]].get("path") == ls]
        if len(vec) != 1 or len(one) != 1: return None
        own = rng.random() < 0.6; R = rng.randrange
        ring = lambda: mksquare(m, rng, depth, R(28), R(28), 1 + R(12)) if own and rng.random() < 0.97 else m.gen(lst[0], rng, depth + 1)
        e = mksquare(m, rng, depth, R(3), R(3), 30 + R(9)) if own else ring(); hs = []; n = rng.choice((0, 1, 2, 3, 4)); many = manyholes(m, rng) if own else 0
        n = many or n; aim = rng.choice((0, 0, 1, 1, 2)) if n > 1 else 0
        if aim: keep = 1.0
        for _ in range(4 * n + 8 if many else 20 if aim else 8):
            if len(hs) >= n: break
            h = mksquare(m, rng, depth, 4 + R(26), 4 + R(26), 1) if many and rng.random() < 0.9 else ring()
            inner = names[f(m, e, h)[2]] == "Contains"; apart = all(names[f(m, x, h)[2]] == "Separate" for x in hs)
            good = inner and apart
            if aim and len(hs) == n - 1: good = (inner and not apart) if aim == 1 else (apart and not inner)    # a single defect
            if good or rng.random() > keep: hs.append(h)
        v = ("A", pgp, 0)
        for j, x in enumerate(fs): v += (e if j == one[0] else ("L",) + tuple(hs) if j == vec[0] else m.gen(c.p.tys[x[1]], rng, depth + 1),)
        return c.fixups[pgp](m, v) if pgp in c.fixups else v
    c.hooks[pgp] = poly
    try: mgp = c.voc.path(MG)
    except Layout: return
    pgt = [t for t in c.p.tys if t["k"] == "adt" and t["path"] == pgp]
    def multi(m, ty, rng, depth):
        """several polygons, often one of them in a hole of another"""
        if m.seed % 5 == 4 or not pgt or rng.random() < 0.3: return None
        fs = c.p.adts[mgp]["variants"][0]["fields"]; pf = c.p.adts[pgp]["variants"][0]["fields"]
        vec = [j for j, x in enumerate(fs) if c.p.tys[x[1]].get("path") == "alloc::vec::Vec"]
        hv = [j for j, x in enumerate(pf) if c.p.tys[x[1]].get("path") == "alloc::vec::Vec"]
        ev = [j for j, x in enumerate(pf) if c.p.tys[x[1]].get("path") == ls]
        if len(vec) != 1 or len(hv) != 1 or len(ev) != 1 or len(pf) not in (2, 3): return None
        m.rings = True
        def ring(): return m.gen(lst[0], rng, depth + 2)
        rel = lambda x, y: names[f(m, x, y)[2]]
        def polygon(e, hs):
            v = ("A", pgp, 0)
            for j, x in enumerate(pf): v += (e if j == ev[0] else ("L",) + tuple(hs) if j == hv[0] else m.gen(c.p.tys[x[1]], rng, depth + 2),)
            return c.fixups[pgp](m, v) if pgp in c.fixups else v
        own = rng.random() < 0.8
        square = lambda x, y, w: mksquare(m, rng, depth, x, y, w)
        R = rng.randrange
        hs = []
        for _ in range(30):
            e = square(R(3), R(3), 30 + R(9)) if own else ring()
            bx, by, bw = 8 + R(12), 8 + R(12), 1 + R(6)
            b = square(bx, by, bw) if own else ring()
            if rel(e, b) == "Contains": break
        def hole():
            if not own: return ring()
            if len(hs) == at: return square(bx - R(4), by - R(4), bw + R(7))
            return square(R(28), R(28), 1 + R(12) if want < 5 else 1)
        want = (manyholes(m, rng) if own else 0) or rng.choice((0, 1, 2, 2, 3, 3)); at = rng.randrange(want) if want else 0     # the hole that b touches first, and how
        how = rng.choice(("Within", "Within", "Within", "Crosses", "Contains"))
        for _ in range(80):
            if len(hs) >= want: break
            h = hole(); r = rel(b, h)
            if len(hs) == at and r != how or len(hs) != at and r != "Separate": continue
            if rng.random() < 0.97 and (rel(e, h) != "Contains" or any(rel(x, h) != "Separate" for x in hs)): continue
            hs.append(h)
        ps = [polygon(e, hs), polygon(b, [])]
        if rng.random() < 0.2: ps.append(m.gen(pgt[0], rng, depth + 1))
        rng.shuffle(ps)
        v = ("A", mgp, 0)
        for j, x in enumerate(fs): v += (("L",) + tuple(ps) if j == vec[0] else m.gen(c.p.tys[x[1]], rng, depth + 1),)
        return c.fixups[mgp](m, v) if mgp in c.fixups else v
    c.hooks[mgp] = multi

@rule("C21")
def c21(c):
    g = V(c); d = c.pl
    relcontract(c)
    i = c.one(PG, "validate")
    def want(p):
        e, h = g.exterior(p), g.interiors(p); n = seqlen(h)
        k = fresh("k"); x = at(h, k)
        ring = lambda l: And(g.closed(l), g.valid(LS, l))
        holes = Not(exists([k], [n], Or(Not(ring(x)), Not(g.ris(g.rel(e, x), "Contains")))))
        pr = g.pairs(n, lambda i, j: And(g.meet(g.lbox(LS, at(h, i)), g.lbox(LS, at(h, j))), Not(g.ris(g.rel(at(h, i), at(h, j)), "Separate"))))
        empty = And(g.isempty("LineString", e), Not(ipos(n)))
        return ite(empty, TRUE, And(ring(e), holes, Not(pr)))
    def ok():
        vs = {}
        c.eq("Polygon::validate accepts exactly: empty, or closed valid rings, holes contained in the exterior and separate from each other", i, want, got=lambda v, *a: isok(v), ty=BOOL, special=0.0)
    def order():
        # rings are compared only after both were found closed and valid
        def f():
            x = c.sym(i)
            rel = c.p.insts[relfn(c)]["path"]
            ev = c.ev(heavy())
            sites = []
            oc = ev.opaque_call
            def wrap(inst, cal, args, st, retty):
                if inst and inst["path"] == rel: sites.append((And(ev.base, st.pc), [ev.deep(st, a) for a in args], list(ev.ctx)))
                return oc(inst, cal, args, st, retty)
            ev.opaque_call = wrap
            c.call(i, x, ev=ev)
            if not sites: return Verdict(UNDECIDED, "no comparison of rings found")
            bad = []
            for pc, args, ctx in sites:
                dom = TRUE
                for k, n in ctx: dom = And(dom, ipos(isub(n, k)))
                for a in args:
                    need = And(g.closed(a), g.valid(LS, a))
                    r = restrict(need, And(pc, dom))
                    if r is TRUE: continue
                    if all(covered(r2, And(pc, dom), g, a, x[0]) for r2 in (r,)): continue
                    bad.append((show(a)[:80], show(r)[:200]))
            if bad: return Verdict(UNDECIDED, "not shown closed and valid before the comparison: %s" % (bad[:2],))
            return Verdict(PROVED, "%d comparisons, each reached only after both rings were found closed and valid" % len(sites))
        c.ob("rings are compared only after both were found closed and valid", i, "dominance", f)
    def covered(r, pc, g, a, p):
        """a hole: every hole was found closed and valid by a completed loop over the holes"""
        if a.op == "at" and a.args[0] is g.interiors(p):
            k = fresh("k"); x = at(g.interiors(p), k)
            some = exists([k], [seqlen(g.interiors(p))], Not(And(g.closed(x), g.valid(LS, x))))
            if And(pc, some) is FALSE: return True
            for q in atoms(pc):
                # a refuted existential over the holes whose condition covers 'not closed or not valid'
                if q.op == "ex" and cofactor(pc, q, True) is FALSE:
                    vs, _, (doms, cond) = openb(q)
                    if len(vs) == 1 and doms[0] is seqlen(g.interiors(p)):
                        y = at(g.interiors(p), vs[0])
                        if And(Not(cond), Not(And(g.closed(y), g.valid(LS, y)))) is FALSE: return True
        return False
    each(c, ok, order)

@rule("C22")
def c22(c):
    g = V(c); d = c.pl
    i = c.one(ML, "validate")
    def want(m):
        s = g.lines(m); n = seqlen(s)
        k = fresh("k")
        members = exists([k], [n], Not(g.valid(LS, at(s, k))))
        def isend(l, q):
            p = g.positions(l)
            return And(Not(g.closed(l)), Or(d.peq(at(p, Int(0)), q), d.peq(at(p, isub(seqlen(p), Int(1))), q)))
        def bad(i, j):
            a, b = at(s, i), at(s, j)
            x, y = fresh("k"), fresh("k")
            sa, sb = g.segs(a)(x), g.segs(b)(y)
            r = g.isx(sa, sb); q = g.xpos(r)
            inner = exists([x, y], [g.nsegs(a), g.nsegs(b)], And(g.meet(g.sbox(sa), g.sbox(sb)), Not(g.xis(r, "None")),
                        Or(Not(g.xis(r, "Position")), Not(And(isend(a, q), isend(b, q))))))
            return And(g.meet(g.lbox(LS, a), g.lbox(LS, b)), inner)
        return ite(Not(ipos(n)), TRUE, And(Not(members), Not(g.pairs(n, bad))))
    def ok():
        c.eq("MultiLineString::validate accepts exactly: valid members meeting only in isolated positions in the boundary of both", i, want, got=lambda v, *a: isok(v), ty=BOOL, special=0.0)
    each(c, ok)

@rule("C23")
def c23(c):
    g = V(c)
    relcontract(c)
    i = c.one(MG, "validate")
    def want(m):
        s = g.polygons(m); n = seqlen(s)
        k = fresh("k")
        members = exists([k], [n], Not(g.valid(PG, at(s, k))))
        def inhole(inner, outer):
            h = g.interiors(outer); k = fresh("k")
            r = lambda q: g.rel(g.exterior(inner), at(h, q))
            touched = Not(g.ris(r(k), "Separate"))
            return And(exists([k], [seqlen(h)], touched), g.ris(r(first(k, seqlen(h), touched)), "Within"))
        def bad(i, j):
            a, b = at(s, i), at(s, j)
            r = g.rel(g.exterior(a), g.exterior(b))
            return And(g.meet(g.lbox(PG, a), g.lbox(PG, b)), Not(g.ris(r, "Separate")),
                       Or(g.ris(r, "Crosses"), And(g.ris(r, "Contains"), Not(inhole(b, a))), And(g.ris(r, "Within"), Not(inhole(a, b)))))
        return ite(Not(ipos(n)), TRUE, And(Not(members), Not(g.pairs(n, bad))))
    c.eq("MultiPolygon::validate accepts exactly: valid members, pairwise separate or nested in a hole", i, want, got=lambda v, *a: isok(v), ty=BOOL, special=0.0)
