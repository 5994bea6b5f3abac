"""C01-C07: boxes, positions, measures."""
from base import *
RULES = {}
def rule(pid):
    def d(f): RULES[pid] = f; return f
    return d
def dims(c): return [("planar", c.pl), ("linear", c.li)]
HE = "HasEnvelope"

@rule("C01")
def c01(c):
    for n, d in dims(c):
        def new():
            i = c.one(d.Ev, "new")
            c.eq(n + " Envelope::new normalises its corners", i, lambda a, b: d.boxof(a, b))
        def frm():
            for i in c.find(d.Ev, "from"):
                t = c.argty(i, 0)
                if t["k"] == "tuple" and len(t["ts"]) == 2:
                    conv = into(c, d.P)
                    c.eq(n + " Envelope::from((p, q)) normalises its corners", i, lambda a: d.boxof(conv(fld(a, 0, 0)), conv(fld(a, 0, 1))))
        def penv():
            c.eq(n + " box of a position", c.one(d.P, "envelope", HE), lambda a: d.box(a, a))
        def senv():
            c.eq(n + " box of a segment", c.one(d.Sg, "envelope", HE), lambda s: d.boxof(d.start(s), d.end(s)))
        def eenv():
            c.eq(n + " box of a box", c.one(d.Ev, "envelope", HE), lambda e: e)
        def corners():
            if n != "planar": return
            c.eq("Envelope::min is the lower corner", c.one(d.Ev, "min"), lambda e: ite(d.isempty(e), NONE, Some(d.lo(e))))
            c.eq("Envelope::max is the upper corner", c.one(d.Ev, "max"), lambda e: ite(d.isempty(e), NONE, Some(d.hi(e))))
        def emp():
            c.eq(n + " Envelope::empty", c.one(d.Ev, "empty"), lambda: d.nobox)
            c.eq(n + " Envelope::is_empty", c.one(d.Ev, "is_empty"), lambda e: d.isempty(e))
        def pmm():
            c.eq(n + " Position::min", c.one(d.P, "min"), lambda a, b: d.pmin(a, b))
            c.eq(n + " Position::max", c.one(d.P, "max"), lambda a, b: d.pmax(a, b))
            c.eq(n + " Position::min_max", c.one(d.P, "min_max"), lambda a, b: tup(d.pmin(a, b), d.pmax(a, b)))
        def smm():
            if n == "planar": return
            c.eq("linear Segment::min", c.one(d.Sg, "min"), lambda s: d.pmin(d.start(s), d.end(s)))
            c.eq("linear Segment::max", c.one(d.Sg, "max"), lambda s: d.pmax(d.start(s), d.end(s)))
        each(c, new, frm, penv, senv, eenv, corners, emp, pmm, smm)
    def cmm():
        i = [j for j in c.p.roots if c.p.insts[j]["path"].endswith("Coordinate::min_max")]
        for j in i: c.eq("Coordinate::min_max", j, lambda a, b: tup(fmin(a, b), fmax(a, b)))
    each(c, cmm)

def into(c, path):
    """the conversion Into<path> of a type parameter"""
    ts = [t["s"] for t in c.p.tys if t["k"] == "adt" and t["path"].endswith("::" + path) and t["s"].endswith("<C>")]
    if not ts: raise Layout("type " + path)
    ty = [t for t in c.p.tys if t["s"] == ts[0]][0]
    return lambda x: decide.eta(c.p, E.lift_nc(lambda y: mk("into", ts[0], y), x), ty)

def envarg(c, i, k, d):
    """the box of argument k: itself, or what its HasEnvelope implementation gives"""
    t = c.argty(i, k)
    while t["k"] == "ref": t = c.p.tys[t["t"]]
    if t["k"] == "adt" and t["path"].endswith(d.Ev): return lambda x: x
    return lambda x: mk("envof", x)

@rule("C02")
def c02(c):
    for n, d in dims(c):
        def con():
            i = c.one(d.Ev, "contains"); g = envarg(c, i, 1, d)
            c.eq(n + " Envelope::contains", i, lambda a, b: d.contains(a, g(b)))
        def isx():
            i = c.one(d.Ev, "intersects"); g = envarg(c, i, 1, d)
            c.eq(n + " Envelope::intersects", i, lambda a, b: d.meets(a, g(b)))
        each(c, con, isx)

@rule("C03")
def c03(c):
    for n, d in dims(c):
        def mer():
            i = c.one(d.Ev, "merge"); g = envarg(c, i, 1, d)
            c.eq(n + " Envelope::merge", i, lambda a, b: d.merge(a, g(b)))
        def exp():
            i = c.one(d.Ev, "expand"); g = envarg(c, i, 1, d)
            c.eq(n + " Envelope::expand", i, lambda a, b: d.merge(a, g(b)), mutarg=0)
        def of():
            i = c.one(d.Ev, "of")
            c.eq(n + " Envelope::of merges every item", i, lambda s: d.mergeall(s, lambda x: mk("envof", x)), vars={Var("a0"): objseq})
        each(c, mer, exp, of)
def objseq(m):
    return ("L",) + tuple(("Tok", m.rng.randrange(6)) for _ in range(m.rng.randrange(m.maxlen + 1)))

@rule("C04")
def c04(c):
    d = c.pl
    def buf():
        c.eq("Envelope::buffer", c.one(d.Ev, "buffer"), lambda e, t: ite(d.isempty(e), d.nobox,
             d.box(d.pos(*[rsub(x, t) for x in d.coords(d.lo(e))]), d.pos(*[radd(x, t) for x in d.coords(d.hi(e))]))))
    def cen():
        c.eq("Envelope::center", c.one(d.Ev, "center"), lambda e: ite(d.isempty(e), NONE,
             Some(d.pos(*[rdiv(radd(x, y), Num(2)) for x, y in zip(d.coords(d.lo(e)), d.coords(d.hi(e)))]))))
    each(c, buf, cen)

@rule("C05")
def c05(c):
    for n, d in dims(c):
        def pos():
            c.eq(n + " Position::validate", c.one(d.P, "validate"), lambda a: okerr(d.pfin(a)))
        def seg():
            c.eq(n + " Segment::validate", c.one(d.Sg, "validate"), lambda s: okerr(And(d.pfin(d.start(s)), d.pfin(d.end(s)))))
        def env():
            def want(e):
                lo, hi = d.lo(e), d.hi(e)
                ok = And(d.pfin(lo), d.pfin(hi), *[fle(x, y) for x, y in zip(d.coords(lo), d.coords(hi))])
                return okerr(Or(d.isempty(e), ok))
            # NaN is not finite, so only the order of finite bounds matters
            c.eq(n + " Envelope::validate", c.one(d.Ev, "validate"), want)
        each(c, pos, seg, env)
    def pt():
        i = c.one("planar::types::point::Point", "validate")
        c.eq("Point::validate", i, lambda p: okerr(c.pl.pfin(c.voc.get(p, "planar::types::point::Point", "0"))))
    each(c, pt)

@rule("C06")
def c06(c):
    for n, d in dims(c):
        def ops():
            for nm, tr, f in (("add", "Add", radd), ("sub", "Sub", rsub)):
                i = c.one(d.P, nm, tr)
                c.eq("%s Position %s Position" % (n, nm), i, lambda a, b, f=f: d.pos(*[f(x, y) for x, y in zip(d.coords(a), d.coords(b))]), exact=False)
        def sc():
            for nm, tr, f in (("mul", "Mul", rmul), ("div", "Div", rdiv)):
                i = c.one(d.P, nm, tr, pick=lambda f: True)
                c.eq("%s Position %s scalar" % (n, nm), i, lambda a, b, f=f: d.pos(*[f(x, b) for x in d.coords(a)]))
        def new():
            c.eq(n + " Position::new", c.one(d.P, "new"), lambda *a: d.pos(*a))
        def hash_():
            i = c.one(d.P, "to_hashable")
            E_ = Err(adt("x", 0))
            rt = c.retty(i); ok = c.p.tys[rt["variants"][0]["fields"][0][1]]
            def want(a):
                ks = [adt(E.NOTNAN, 0, x) for x in d.coords(a)]
                v = tup(*ks) if ok["k"] == "tuple" else ks[0]
                return ite(Not(d.pnan(a)), Ok(v), Err(UNIT))
            def got(v, a): return ite(boolv(v, lambda x: isvar(x, 0, 2)), Ok(E.lift_nc(lambda x: fld(x, 0, 0), v)), Err(UNIT))
            c.eq(n + " Position::to_hashable", i, want, got=got)
        def eq():
            c.eq(n + " Position equality", c.one(d.P, "eq", "PartialEq"), lambda a, b: d.peq(a, b))
        def frm():
            k = 0
            for i in c.find(d.P, "from"):
                t = c.argty(i, 0); k += 1
                nn = lambda x, ty: E.lift_nc(lambda y: fld(y, 0, 0), x) if ty.get("path") == E.NOTNAN else x
                if t["k"] == "tuple": w = lambda a, t=t: d.pos(*[nn(fld(a, 0, j), c.p.tys[q]) for j, q in enumerate(t["ts"])])
                elif t["k"] == "array": w = lambda a: d.pos(*[at(a, Int(j)) for j in range(len(d.axes))])
                else: w = lambda a, t=t: d.pos(nn(a, t))
                c.eq("%s Position::from(%s)" % (n, t["s"][:60]), i, w)
            if n == "planar" and k < 3 or n == "linear" and k < 2:
                c.add(n + " conversions", d.P, "src", "anchor", Verdict(REFUTED, "a conversion into Position does not exist any more", {"found": str(k)}))
        each(c, ops, sc, new, hash_, eq, frm)
    d = c.pl
    def prod():
        def xy(p): return d.coords(p)
        c.eq("Position::cross", c.one(d.P, "cross"), lambda a, b: rsub(rmul(xy(a)[0], xy(b)[1]), rmul(xy(a)[1], xy(b)[0])))
        c.eq("Position::dot", c.one(d.P, "dot"), lambda a, b: radd(rmul(xy(a)[0], xy(b)[0]), rmul(xy(a)[1], xy(b)[1])))
    each(c, prod)

def cross2(a, b): return rsub(rmul(a[0], b[1]), rmul(a[1], b[0]))
def sub2(a, b): return [rsub(a[0], b[0]), rsub(a[1], b[1])]

@rule("C07")
def c07(c):
    d = c.pl
    PL = "planar::primitives::segment::PositionLocation"
    def xy(p): return d.coords(p)
    def loc():
        i = c.one(d.Sg, "position_location")
        L, On, R = [c.voc.con(PL, v) for v in ("Left", "On", "Right")]
        def want(s, p):
            t = cross2(sub2(xy(d.end(s)), xy(d.start(s))), sub2(xy(p), xy(d.start(s))))
            return ite(flt(Num(0), t), L, ite(flt(t, Num(0)), R, On))
        def pre(s, p): return And(d.pfin(d.start(s)), d.pfin(d.end(s)), d.pfin(p))
        c.eq("Segment::position_location is the sign of the cross product", i, want, pre=pre, special=0)
    def sq(s): 
        v = sub2(xy(d.end(s)), xy(d.start(s)))
        return radd(rmul(v[0], v[0]), rmul(v[1], v[1]))
    def lens():
        c.eq("Segment::length_squared", c.one(d.Sg, "length_squared"), sq)
        c.eq("Segment::length", c.one(d.Sg, "length"), lambda s: rsqrt(sq(s)))
        c.eq("Segment::determinant", c.one(d.Sg, "determinant"), lambda s: cross2(xy(d.start(s)), xy(d.end(s))))
    def tri():
        T_ = "planar::primitives::triangle::Triangle"
        pt = lambda t, k: xy(c.voc.get(t, T_, str(k)))
        def sa(t):
            a, b, cc = pt(t, 0), pt(t, 1), pt(t, 2)
            return rdiv(cross2(sub2(b, a), sub2(cc, a)), Num(2))
        c.eq("Triangle::signed_area", c.one(T_, "signed_area"), sa)
        c.eq("Triangle::area", c.one(T_, "area"), lambda t: rabs(sa(t)))
    def lsl(): 
        LS = "planar::types::line_string::LineString"
        def length(l):
            p = c.voc.get(l, LS, "positions"); k = fresh("k")
            a, b = at(p, k), at(p, iadd(k, Int(1)))
            return rsum(comp([k], [inat(isub(seqlen(p), Int(1)))], TRUE, rsqrt(sq(d.seg(a, b)))))
        c.eq("LineString::length", c.one(LS, "length"), length)
        ML = "planar::types::multi_line_string::MultiLineString"
        c.eq("MultiLineString::length", c.one(ML, "length"), lambda m: rsum(mapseq(c.voc.get(m, ML, "line_strings"), length)))
    each(c, loc, lens, tri, lsl)
