"""C30, C31, C35: text conversion and representative points."""
from base import *
import interp
from rules2 import Geo, LS, PG, MG
RULES = {}
def rule(pid):
    def d(f): RULES[pid] = f; return f
    return d

KINDS = ["Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon"]

class Text(object):
    """vocabulary of the parser crate and the conversion required of each of its kinds"""
    def __init__(self, c):
        self.c = c; p = c.p
        self.parse = c.p.find(None, "parse_wkt")
        if len(self.parse) != 1:
            c.add("item parse_wkt", "parse_wkt", "src", "anchor", Verdict(REFUTED if not self.parse else UNDECIDED, "%d functions of this name" % len(self.parse), {"missing": "parse_wkt"}))
            raise Skip()
        self.parse = self.parse[0]
        self.geom = [k for k in p.adts if k == "wkt::Geometry"]
        if not self.geom: raise Layout("the parser crate's Geometry")
        self.vs = p.adts[self.geom[0]]["variants"]
        self.n = len(self.vs)
        # half of the texts have no unsupported kind, long ones seldom
        ok = [i for i, v in enumerate(self.vs) if v["name"] in KINDS]
        def hook(m, ty, rng, depth):
            if m.seed % 4 < 2 and (m.longdepth is None or rng.random() * m.long >= m.long - 1): return None
            i = rng.choice(ok)
            return ("A", self.geom[0], i) + tuple(m.gen(p.tys[f[1]], rng, depth + 1) for f in self.vs[i]["fields"])
        c.hooks[self.geom[0]] = hook
        cp = [k for k in p.adts if k.startswith("wkt::") and k.endswith("::Coord")]
        names = [f[0] for f in p.adts[cp[0]]["variants"][0]["fields"]]
        self.ix, self.iy = names.index("x"), names.index("y")
        self.new = {n: c.one("types::%s::%s" % (m, n), "new") for n, m in (("LineString", "line_string"), ("Polygon", "polygon"), ("MultiPoint", "multi_point"), ("MultiLineString", "multi_line_string"), ("MultiPolygon", "multi_polygon"))}
        self.G = c.voc.path("types::geometry::Geometry")
    def idx(self, name): return [i for i, v in enumerate(self.vs) if v["name"] == name][0]
    def inner(self, g, name): return fld(fld(g, self.idx(name), 0), 0, 0)
    def build(self, name, *args): return self.c.call(self.new[name], list(args))[0]
    def pos(self, co): return self.c.pl.pos(fld(co, 0, self.ix), fld(co, 0, self.iy))
    def point(self, o): return self.c.voc.con("planar::types::point::Point", "Point", self.pos(fld(o, 1, 0)))
    def line(self, s): return self.build("LineString", mapseq(s, self.pos))
    def poly(self, s):
        k = fresh("k")
        return self.build("Polygon", self.line(fld(at(s, Int(0)), 0, 0)), comp([k], [inat(iadd(seqlen(s), Int(-1)))], TRUE, self.line(fld(at(s, iadd(k, Int(1))), 0, 0))))
    def keep(self, s, cond, f):
        k = fresh("k")
        return comp([k], [seqlen(s)], cond(at(s, k)), f(at(s, k)))
    def wrap(self, kind, v): return self.c.voc.con("types::geometry::Geometry", kind, v)
    def empty(self):
        e = self.c.p.find("Geometry", "empty")
        return self.c.call(self.c.one("types::geometry::Geometry", "empty"), [])[0]
    def conv(self, g, name):
        """the geometry required for a parsed value of this kind"""
        x = self.inner(g, name)
        some = lambda o: isvar(fld(o, 0, 0), 1, 2)
        if name == "Point": return ite(isvar(x, 1, 2), self.wrap("Point", self.point(x)), self.empty())
        if name == "LineString": return self.wrap("LineString", self.line(x))
        if name == "Polygon": return ite(ipos(seqlen(x)), self.wrap("Polygon", self.poly(x)), self.empty())
        if name == "MultiPoint": return self.wrap("MultiPoint", self.build("MultiPoint", self.keep(x, some, lambda o: self.point(fld(o, 0, 0)))))
        if name == "MultiLineString": return self.wrap("MultiLineString", self.build("MultiLineString", mapseq(x, lambda l: self.line(fld(l, 0, 0)))))
        if name == "MultiPolygon": return self.wrap("MultiPolygon", self.build("MultiPolygon", self.keep(x, lambda q: ipos(seqlen(fld(q, 0, 0))), lambda q: self.poly(fld(q, 0, 0)))))
    def kind(self, g, name): return isvar(g, self.idx(name), self.n)
    def any(self, g):
        """... of a supported kind"""
        r = BOT
        for n in reversed(KINDS): r = ite(self.kind(g, n), self.conv(g, n), r)
        return r
    def supported(self, g): return Or(*[self.kind(g, n) for n in KINDS])

def parsed(t, v, a):
    """the parser's answer for the text, as the crate's code obtains it"""
    c = set(x for x in walk(v) if x.op == "call" and isinstance(x.args[0], str) and x.args[0].startswith("wkt::") and x.args[0].endswith("from_str"))
    if len(c) != 1: return None
    x = c.pop()
    return x if x.args[1:] == (a,) else None

def text(c, t):
    """the value of parse_wkt as a function of the parser's answer: (answer, value, evaluator)"""
    a = c.sym(t.parse)[0]
    v, _, ev = c.call(t.parse, [a])
    w = parsed(t, v, a)
    return w, v, ev

def anstype(c, t):
    """the type of the parser's answer, from the call of the parser"""
    ts = [x for x in c.p.tys if x["k"] == "adt" and x["path"].endswith("Result") and c.p.tys[x["args"][0]].get("path") == "wkt::Wkt"]
    if not ts: raise Layout("the parser's result type")
    return ts[0]
def fieldty(c, ty, var, k):
    return c.p.tys[c.p.adts[ty["path"]]["variants"][var]["fields"][k][1]]

@rule("C30")
def c30(c):
    t = Text(c); i = t.parse
    w, v, ev = text(c, t)
    if w is None: c.add("the text given is the text parsed", c.name(i), c.loc(i), "anchor", Verdict(UNDECIDED, "no single call of the parser with the text itself")); return
    S = Var("items"); X = Var("parts")
    wk = c.p.tys[anstype(c, t)["args"][0]]
    ity = fieldty(c, wk, 0, 0)
    g = subst(v, {w: adt(RESULT, 0, adt("wkt::Wkt", 0, S))})
    def whole():
        k = fresh("k")
        return decide.compare(c.p, g, ite(exists([k], [seqlen(S)], Not(t.supported(at(S, k)))), Err(Str("error")), Ok(mapseq(S, t.any))), c.retty(i), c.space({S: ity}))
    c.ob("parsing yields one geometry per parsed item, in order", i, "value", whole)
    for n in KINDS:
        def f(n=n):
            gp = t.vs[t.idx(n)]["fields"][0][1]; ty = c.p.tys[gp]
            item = adt(t.geom[0], t.idx(n), adt(ty["path"], 0, X))
            return decide.compare(c.p, subst(g, {S: lit(item)}), Ok(lit(t.conv(item, n))), c.retty(i), c.space({X: fieldty(c, ty, 0, 0)}))
        c.ob("a parsed %s becomes the matching geometry with its parts in order" % n, i, "value", f)

@rule("C31")
def c31(c):
    t = Text(c); i = t.parse
    w, v, ev = text(c, t)
    W = Var("answer")
    def never():
        a = c.sym(i)[0]
        for x in ev.panics:
            b = x.binders
            q = exists([k for k, _ in b], [e for _, e in b], x.cond) if b else x.cond
            if w is not None: q = subst(q, {w: W})
            if q is FALSE: continue
            r = decide.never(c.p, q, c.space({a: c.argty(i, 0)} if w is None else {W: anstype(c, t)}))
            if r.status != PROVED:
                r.how = "%s at %s: %s" % (x.kind, x.sp, r.how); return r
        return Verdict(PROVED, "none of %d panic sites is reachable" % len(ev.panics))
    c.ob("parsing any text never panics", i, "reachability", never)
    if w is None: c.add("the text given is the text parsed", c.name(i), c.loc(i), "anchor", Verdict(UNDECIDED, "no single call of the parser with the text itself")); return
    def errs():
        k = fresh("k"); it = fld(fld(W, 0, 0), 0, 0)
        want = Or(isvar(W, 1, 2), exists([k], [seqlen(it)], Not(t.supported(at(it, k)))))
        got = E.lift_nc(lambda x: isvar(x, 1, 2), subst(v, {w: W}))
        return decide.compare(c.p, got, want, {"k": "bool"}, c.space({W: anstype(c, t)}))
    c.ob("an error is returned exactly for a parser error or an unsupported kind", i, "value", errs)
    def one(n):
        S = adt(RESULT, 0, adt("wkt::Wkt", 0, lit(adt(t.geom[0], t.idx(n), Var("parts")))))
        def f():
            ty = c.p.tys[t.vs[t.idx(n)]["fields"][0][1]]
            got = E.lift_nc(lambda x: isvar(x, 1, 2), subst(v, {w: S}))
            return decide.compare(c.p, got, Not(t.supported(adt(t.geom[0], t.idx(n), Var("parts")))), {"k": "bool"}, c.space({Var("parts"): ty}))
        c.ob("a parsed %s is %s" % (n, "accepted" if n in KINDS else "an error"), i, "value", f)
    for n in [x["name"] for x in t.vs]: one(n)

@rule("C35")
def c35(c):
    d = c.pl; g = Geo(c)
    def start(p): return Some(g.point(at(g.positions(g.exterior(p)), Int(0))))
    def surface():
        i = c.one(PG, "point_on_surface")
        c.eq("the point on a polygon's surface is the start of its exterior, nothing when empty", i,
             lambda p: ite(g.isempty("Polygon", p), NONE, start(p)))
    def msurface():
        i = c.one(MG, "point_on_surface")
        def want(m):
            ps = g.polygons(m); k = fresh("k")
            some = Not(g.isempty("Polygon", at(ps, k)))
            return ite(exists([k], [seqlen(ps)], some), start(at(ps, first(k, seqlen(ps), some))), NONE)
        c.eq("the point on a multipolygon's surface is that of its first non-empty polygon", i, want)
    def centroid(T, name):
        i = c.one(T, "centroid")
        def f():
            a = c.sym(i)[0]
            v, _, ev = c.call(i, [a])
            if not any(x is a for x in walk(v)):
                return Verdict(REFUTED, "the centroid does not depend on the geometry", {"form": show(v), "values": "every %s has the centroid %s" % (name, show(v))})
            dx, dy = Var("dx"), Var("dy")
            mv = lambda q: d.pos(*[radd(x, y) for x, y in zip(d.coords(q), (dx, dy))])
            ls = lambda l: g.built(LS, mapseq(g.positions(l), mv))
            pg = lambda p: g.built(PG, ls(g.exterior(p)), mapseq(g.interiors(p), ls))
            moved = pg(a) if name == "polygon" else g.built(MG, mapseq(g.polygons(a), pg))
            v2, _, _ = c.call(i, [moved])
            w = E.lift_nc(lambda q: g.point(mv(g.ppos(q))), v)
            fl = {"k": "float", "n": "f64"}
            return decide.compare(c.p, v2, w, c.retty(i), c.space({a: c.argty(i, 0), dx: fl, dy: fl}, Not(g.isempty("Polygon" if name == "polygon" else "MultiPolygon", a)), special=0))
        c.ob("the centroid of a %s moves with it" % name, i, "dataflow", f)
    each(c, surface, msurface, lambda: centroid(PG, "polygon"), lambda: centroid(MG, "multipolygon"))

# ---------------------------------------------------------------- convex hull
def hullrings(c, g):
    """simple closed rings: star-shaped and monotone ones, any start and direction"""
    import math
    from fractions import Fraction as Fr
    d = c.pl
    PP = c.voc.path(d.P); LP = c.voc.path(LS); GP = c.voc.path(PG)
    pnames = [f[0] for f in c.p.adts[PP]["variants"][0]["fields"]]
    def pos(x, y):
        v = {"x": Fr(x), "y": Fr(y)}
        return ("A", PP, 0) + tuple(v[n] for n in pnames)
    def ring(m):
        r = m.rng
        if r.random() < 0.5:
            n = r.randrange(3, 9); pts = {}
            for _ in range(n):
                x, y = r.randrange(-6, 7), r.randrange(-6, 7)
                if (x, y) != (0, 0):
                    k = math.gcd(abs(x), abs(y)); pts[(x // k, y // k)] = (x, y)
            ps = sorted(pts.values(), key=lambda q: math.atan2(q[1], q[0]))
            a = [math.atan2(q[1], q[0]) for q in ps]
            if len(ps) < 3 or any((a[(i + 1) % len(a)] - a[i]) % (2 * math.pi) >= math.pi - 1e-9 for i in range(len(a))): return None
        else:
            n = r.randrange(1, 5); w = n + 1
            up = [(x, r.randrange(1, 7)) for x in range(1, w) if r.random() < 0.8]; lo = [(x, -r.randrange(1, 7)) for x in range(1, w) if r.random() < 0.8]
            ps = [(0, 0)] + lo + [(w, 0)] + list(reversed(up))
            if len(ps) < 3: return None
        if r.random() < 0.5: ps.reverse()
        k = r.randrange(len(ps)); ps = ps[k:] + ps[:k]
        if r.random() < 0.5: ps = [(y, x) for x, y in ps]
        return ps + ps[:1]
    def gen(m):
        for _ in range(50):
            q = ring(m)
            if q: break
        else: raise interp.DontCare()
        v = m.gen(c.p.adts[LP]); v = list(v)
        for j, f in enumerate(c.p.adts[LP]["variants"][0]["fields"]):
            if not c.p.tys[f[1]].get("path", "").endswith("::Envelope"): v[3 + j] = ("L",) + tuple(pos(x, y) for x, y in q)
        v = c.fixups[LP](m, tuple(v))
        w = list(m.gen(c.p.adts[GP]))
        for j, f in enumerate(c.p.adts[GP]["variants"][0]["fields"]):
            if f[0] == "exterior": w[3 + j] = v
        return tuple(w)
    return gen

@rule("C34")
def c34(c):
    d = c.pl; g = Geo(c)
    SG = d.Sg
    pl = c.one(SG, "position_location")
    path = c.name(pl)
    op = lambda inst: inst["path"] == path
    LOC = c.voc.path("segment::PositionLocation"); nv = c.voc.nvar(LOC)
    def loc(a, b, q): return c.call_opaque(pl, [d.seg(a, b), q], op)
    def isl(x, n): return boolv(x, lambda y: isvar(y, c.voc.variant(LOC, n)[0], nv))
    def f():
        i = c.one(PG, "convex_hull")
        a = c.sym(i)[0]
        v, _, ev = c.call(i, [a], opaque=op)
        P = g.positions(g.exterior(a)); n = seqlen(P)
        p = [at(P, Int(k)) for k in range(4)]
        L = loc(p[1], p[2], p[3])
        def hull(D0):
            k, D, B, F = fresh("k"), fresh("mu"), fresh("mu"), fresh("mu")
            q = at(P, iadd(Int(4), k))
            back = lambda D: loc(at(D, isub(seqlen(D), Int(2))), at(D, isub(seqlen(D), Int(1))), q)
            front = lambda D: loc(q, at(D, Int(0)), at(D, Int(1)))
            butlast = lambda D: E.lift_nc(lambda s: s, ite(ipos(seqlen(D)), slice_(D, Int(0), isub(seqlen(D), Int(1))), D))
            rest = lambda D: ite(ipos(seqlen(D)), slice_(D, Int(1), seqlen(D)), D)
            kept = whval([B], Int(0), (D,), Not(isl(back(B), "Right")), (butlast(B),))
            kept = cat(kept, lit(q))
            kept = whval([F], Int(0), (kept,), Not(isl(front(F), "Right")), (rest(F),))
            kept = cat(lit(q), kept)
            nxt = ite(Or(isl(front(D), "Left"), isl(back(D), "Left")), kept, D)
            D1 = sysval([k, D], Int(0), inat(isub(n, Int(4))), (D0,), (nxt,))
            return g.built(LS, rev(D1))
        vars = {a: hullrings(c, g)}
        def part(name):
            def t():
                j, _ = c.voc.variant(LOC, name)
                one = {L: adt(LOC, j)}
                D0 = lit(p[3], p[1], p[2], p[3]) if name == "Right" else lit(p[3], p[2], p[1], p[3])
                got = subst(restrict(v, ipos(isub(n, Int(3)))), one); want = hull(D0)
                if restrict(want, ipos(isub(n, Int(3)))) is got or want is got: return Verdict(PROVED, "identical normal forms")
                sp = c.space(vars, isl(L, name), trials=c.trials)
                return decide.compare(c.p, restrict(v, ipos(isub(n, Int(3)))), ite(isl(L, name), hull(D0), BOT), c.retty(i), sp)
            c.ob("the hull is built from the exterior by keeping right turns (first three vertices: %s)" % name, i, "loop body", t)
        for nm in [x["name"] for x in c.p.adts[LOC]["variants"]]: part(nm)
    each(c, f)
