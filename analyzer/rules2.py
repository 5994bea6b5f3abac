"""C10-C16, C36: geometry types as values."""
from base import *
from rules1 import into, envarg, cross2, sub2, objseq
RULES = {}
def rule(pid):
    def d(f): RULES[pid] = f; return f
    return d
PT = "planar::types::point::Point"; LS = "planar::types::line_string::LineString"; PG = "planar::types::polygon::Polygon"
MP = "planar::types::multi_point::MultiPoint"; ML = "planar::types::multi_line_string::MultiLineString"; MG = "planar::types::multi_polygon::MultiPolygon"
EM = "planar::types::empty::Empty"; GE = "planar::types::geometry::Geometry"
KINDS = [("Empty", EM, "as_empty"), ("Point", PT, "as_point"), ("LineString", LS, "as_linestring"), ("Polygon", PG, "as_polygon"), ("MultiPoint", MP, "as_multipoint"),
         ("MultiLineString", ML, "as_multilinestring"), ("MultiPolygon", MG, "as_multipolygon")]
LPT = "linear::types::point::Point"; LLN = "linear::types::line::Line"; LML = "linear::types::multiline::MultiLine"; LMP = "linear::types::multipoint::MultiPoint"
HE = "HasEnvelope"

HEAVY = ("validate", "is_simple", "find_loop_loop_relation", "intersect_segment", "new_unsorted", "find_intersection_candidates", "find_candidates_within",
         "find_self_intersection_candidates", "find_other_rtree_intersection_candidates")
def heavy(names=HEAVY, types=None):
    """functions with a property of their own stay opaque for their callers"""
    def f(inst):
        if not inst["local"] or inst["closure"]: return False
        n = inst["name"]
        if n in ("validate", "is_simple") and n in names:
            return any(inst["selfty"] and inst["selfty"].split("<")[0].endswith(t) for t in (LS, PG, MP, ML, MG, GE))
        if n in ("new", "new_empty", "envelope"): return bool(inst["selfty"]) and "flatbush::Flatbush" in inst["selfty"] and "new_unsorted" in names
        return n in names
    return f

class Geo(object):
    def __init__(self, c):
        self.c = c; self.v = c.voc; self.d = c.pl
    def positions(self, l): return self.v.get(l, LS, "positions")
    def exterior(self, p): return self.v.get(p, PG, "exterior")
    def interiors(self, p): return self.v.get(p, PG, "interiors")
    def points(self, m): return self.v.get(m, MP, "points")
    def lines(self, m): return self.v.get(m, ML, "line_strings")
    def polygons(self, m): return self.v.get(m, MG, "polygons")
    def ppos(self, p): return self.v.get(p, PT, "0")
    def point(self, pos): return self.v.con(PT, "Point", pos)
    def isempty(self, kind, x):
        if kind == "Empty": return TRUE
        if kind == "Point": return FALSE
        if kind == "LineString": return Not(ipos(seqlen(self.positions(x))))
        if kind == "MultiPoint": return Not(ipos(seqlen(self.points(x))))
        if kind == "Polygon": return self.isempty("LineString", self.exterior(x))
        s, k = (self.lines(x), "LineString") if kind == "MultiLineString" else (self.polygons(x), "Polygon")
        j = fresh("k")
        return forall(j, seqlen(s), self.isempty(k, at(s, j)))
    def closed(self, l):
        p = self.positions(l); n = seqlen(p)
        return And(ilt(Int(3), n), self.d.peq(at(p, Int(0)), at(p, isub(n, Int(1)))))
    # constructors through the crate's own `new` (C10/C11 check these)
    def built(self, typ, *args, name="new"):
        i = self.c.one(typ, name)
        v, _, _ = self.c.call(i, list(args))
        return v
    def geom(self, kind, x): return self.v.con(GE, kind, x)
    def gempty(self):
        i = self.c.one(GE, "empty")
        return self.c.call(i, [])[0]

@rule("C10")
def c10(c):
    g = Geo(c); d = c.pl; D = c.li
    def env(dim, typ, v, i=None):
        """the box a value reports"""
        j = c.one(typ, "envelope", HE)
        return c.call(j, [v])[0]
    def check(label, typ, i, want, dim=d):
        def f():
            args = c.sym(i)
            v, _, ev = c.call(i, args)
            got = env(dim, typ, v)
            t = c.retty(c.one(typ, "envelope", HE))
            return decide.compare(c.p, got, want(*args), t, c.space(c.vars(i, args)))
        c.ob(label, i, "reported box = merge of the boxes of the parts", f)
    def ls():
        for nm in ("new",): check("LineString::new", LS, c.one(LS, nm), lambda s: d.mergeall(s, lambda p: d.box(p, p)))
        for i in c.find(LS, "from"): 
            cv = into(c, d.P); check("LineString::from", LS, i, lambda s: d.mergeall(s, lambda p: d.box(cv(p), cv(p))))
        i = c.one(LS, "collect_from")
        def f():
            s = Var("a0"); v, _, _ = c.call(i, [s])
            return decide.compare(c.p, env(d, LS, v), d.mergeall(s, lambda p: d.box(p, p)), c.retty(c.one(LS, "envelope", HE)), c.space({s: posseq(c)}))
        c.ob("LineString::collect_from", i, "reported box = merge of the boxes of the parts", f)
    ebox = lambda l: env(d, LS, l)
    def pg():
        check("Polygon::new", PG, c.one(PG, "new"), lambda e, h: ebox(e))
        for i in c.find(PG, "from"):
            cv = into(c, LS); check("Polygon::from", PG, i, lambda l: ebox(cv(l)))
    def mp():
        pb = lambda p: d.box(g.ppos(p), g.ppos(p))
        check("MultiPoint::new", MP, c.one(MP, "new"), lambda s: d.mergeall(s, pb))
        for i in c.find(MP, "from"):
            cv = into(c, d.P); check("MultiPoint::from", MP, i, lambda s: d.mergeall(s, lambda x: d.box(cv(x), cv(x))))
    def ml():
        check("MultiLineString::new", ML, c.one(ML, "new"), lambda s: d.mergeall(s, ebox))
        for i in c.find(ML, "from"):
            cv = into(c, LS); check("MultiLineString::from", ML, i, lambda s: d.mergeall(s, lambda x: ebox(cv(x))))
    def mg():
        pb = lambda x: env(d, PG, x)
        check("MultiPolygon::new", MG, c.one(MG, "new"), lambda s: d.mergeall(s, pb))
        for i in c.find(MG, "from"):
            cv = into(c, PG); check("MultiPolygon::from", MG, i, lambda s: d.mergeall(s, lambda x: pb(cv(x))))
    def pt():
        i = c.one(PT, "envelope", HE)
        c.eq("Point::envelope", i, lambda p: d.box(g.ppos(p), g.ppos(p)))
        c.eq("Empty::envelope", c.one(EM, "envelope", HE), lambda e: d.nobox)
    def lin():
        sb = lambda s: D.boxof(D.start(s), D.end(s)); pb = lambda p: D.box(p, p)
        check("linear MultiLine::new", LML, c.one(LML, "new"), lambda s: D.mergeall(s, sb), D)
        check("linear MultiPoint::new", LMP, c.one(LMP, "new"), lambda s: D.mergeall(s, pb), D)
        check("linear MultiLine::empty", LML, c.one(LML, "empty"), lambda: D.nobox, D)
        check("linear MultiPoint::empty", LMP, c.one(LMP, "empty"), lambda: D.nobox, D)
        for i in c.find(LML, "from"):
            cv = into(c, D.Sg); check("linear MultiLine::from", LML, i, lambda s: D.mergeall(s, lambda x: sb(cv(x))), D)
        for i in c.find(LMP, "from"):
            cv = into(c, D.P); check("linear MultiPoint::from", LMP, i, lambda s: D.mergeall(s, lambda x: pb(cv(x))), D)
        def line(label, i, want):
            check(label, LLN, i, want, D)
        line("linear Line::new", c.one(LLN, "new"), lambda a, b: D.boxof(a, b))
        line("linear Line::empty", c.one(LLN, "empty"), lambda: D.nobox)
        for i in c.find(LLN, "from"):
            cv = into(c, D.Sg); line("linear Line::from", i, lambda s: sb(cv(s)))
    def writes():
        frozen(c)
    each(c, ls, pg, mp, ml, mg, pt, lin, writes)

GEOMS = (PT, LS, PG, MP, ML, MG, EM, GE, LPT, LLN, LML, LMP)
def frozen(c):
    """no function writes into, mutably borrows a field of, or builds by literal, a geometry after its construction"""
    p = c.p
    boxed = {}
    for k, a in p.adts.items():
        if k.startswith("magog::") and any(k.endswith("::" + t) for t in GEOMS):
            boxed[k] = [v for v in a["variants"]]
    n = 0
    for i, f in enumerate(p.insts):
        if not f["local"] or f["file"] and "/tests" in str(f["file"]): continue
        for a in range(1, f["argc"] + 1):
            t = p.tys[f["locals"][a]]
            if t["k"] == "ref" and t["mut"]:
                u = p.tys[t["t"]]
                if u["k"] == "adt" and u["path"] in boxed and f["root"]:
                    c.add("takes a geometry by mutable reference: " + f["name"], f["path"], f["sp"], "geometries are never modified after construction", Verdict(UNDECIDED, "function with &mut %s" % u["s"]))
        n += 1
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] != "assign": continue
                pl = s[1]; bad = placewrites(p, f, pl, boxed)
                if bad and not movedin(p, f, pl):
                    c.add("assignment into a field of " + bad, f["path"], "%s" % (s[-1],), "geometries are never modified after construction",
                          Verdict(REFUTED, "a field of a geometry is assigned after construction", {"place": str(pl)[:200]}))
    c.add("no assignment through a field of a geometry", "all %d functions" % n, "src", "geometries are never modified after construction", Verdict(PROVED, "effect query over every assignment"))

def placewrites(p, f, pl, boxed):
    """does the assigned place pass through a field of a geometry reached by reference"""
    l, proj = pl[0], pl[1]
    t = p.tys[f["locals"][l]]
    seen_deref = False
    for e in proj:
        if e[0] == "deref" if isinstance(e, list) else e == "deref":
            seen_deref = True
            t = p.tys[t["t"]] if t["k"] in ("ref", "ptr") else t
            continue
        if isinstance(e, list) and e[0] == "field":
            if t["k"] == "adt" and t["path"] in boxed and seen_deref: return t["path"].split("::")[-1]
            return None if t["k"] != "adt" else walkfield(p, f, t, proj, proj.index(e), boxed, seen_deref)
        return None
    return None
def walkfield(p, f, t, proj, k, boxed, seen): return None
def movedin(p, f, pl): return False

def fieldtype(c, typ, field):
    path = c.voc.path(typ); vs = c.p.adts[path]["variants"][0]["fields"]
    for f in vs:
        if f[0] == field: return c.p.tys[f[1]]
    f = [f for f in vs if not c.p.tys[f[1]].get("path", "").endswith("::Envelope")]
    return c.p.tys[f[0][1]]

@rule("C11")
def c11(c):
    g = Geo(c); d = c.pl; D = c.li
    ft = lambda typ, field: fieldtype(c, typ, field)
    def check(label, i, typ, field, want, sym=None):
        def f():
            args = c.sym(i)
            v, _, _ = c.call(i, args)
            vs = c.vars(i, args)
            if sym: vs.update(sym)
            return decide.compare(c.p, c.voc.get(v, typ, field), want(*args), ft(typ, field), c.space(vs))
        c.ob(label, i, "the stored parts are the given ones, in order", f)
    def sq(label, typ, field, conv):
        check(label + "::new", c.one(typ, "new"), typ, field, lambda s: s)
        for i in c.find(typ, "from"): check(label + "::from(Vec)", i, typ, field, lambda s: mapseq(s, conv))
    def ls():
        sq("LineString", LS, "positions", lambda x: into(c, d.P)(x))
        i = c.one(LS, "collect_from")
        def f():
            s = Var("a0"); v, _, _ = c.call(i, [s])
            return decide.compare(c.p, g.positions(v), s, ft(LS, "positions"), c.space({s: posseq(c)}))
        c.ob("LineString::collect_from", i, "the stored parts are the given ones, in order", f)
    def pg():
        check("Polygon::new exterior", c.one(PG, "new"), PG, "exterior", lambda e, h: e)
        check("Polygon::new holes", c.one(PG, "new"), PG, "interiors", lambda e, h: h)
        for i in c.find(PG, "from"):
            check("Polygon::from exterior", i, PG, "exterior", lambda l: into(c, LS)(l))
            check("Polygon::from has no holes", i, PG, "interiors", lambda l: EMPTYSEQ)
    def mul():
        sq("MultiPoint", MP, "points", lambda x: g.point(into(c, d.P)(x)))
        sq("MultiLineString", ML, "line_strings", lambda x: into(c, LS)(x))
        sq("MultiPolygon", MG, "polygons", lambda x: into(c, PG)(x))
    def pt():
        c.eq("Point::new", c.one(PT, "new"), lambda p: g.point(p))
        for i in c.find(PT, "from"): c.eq("Point::from", i, lambda p: g.point(into(c, d.P)(p)))
    def seg():
        for n, q in (("planar", d), ("linear", D)):
            c.eq(n + " Segment::new", c.one(q.Sg, "new"), lambda a, b: q.seg(a, b))
            for i in c.find(q.Sg, "from"):
                cv = into(c, q.P)
                c.eq(n + " Segment::from", i, lambda t: q.seg(cv(fld(t, 0, 0)), cv(fld(t, 0, 1))))
    def tri():
        T_ = "planar::primitives::triangle::Triangle"
        c.eq("Triangle::new", c.one(T_, "new"), lambda a, b, e: c.voc.con(T_, "Triangle", a, b, e))
        for i in c.find(T_, "from"):
            cv = into(c, d.P)
            c.eq("Triangle::from", i, lambda t: c.voc.con(T_, "Triangle", *[cv(fld(t, 0, k)) for k in range(3)]))
        i = c.one(T_, "to_array")
        et = c.p.tys[c.retty(i)["t"]]
        f = (lambda p: tup(*d.coords(p))) if et["k"] == "tuple" else (lambda p: p)
        c.eq("Triangle::to_array", i, lambda t: lit(*[f(c.voc.get(t, T_, str(k))) for k in range(3)]))
    def lin():
        check("linear MultiLine::new", c.one(LML, "new"), LML, "segments", lambda s: s)
        check("linear MultiPoint::new", c.one(LMP, "new"), LMP, "positions", lambda s: s)
        for i in c.find(LML, "from"): check("linear MultiLine::from", i, LML, "segments", lambda s: mapseq(s, into(c, D.Sg)))
        for i in c.find(LMP, "from"): check("linear MultiPoint::from", i, LMP, "positions", lambda s: mapseq(s, into(c, D.P)))
        check("linear Line::new", c.one(LLN, "new"), LLN, "segment", lambda a, b: Some(D.seg(a, b)))
        for i in c.find(LLN, "from"): check("linear Line::from", i, LLN, "segment", lambda s: Some(into(c, D.Sg)(s)))
        c.eq("linear Point::new", c.one(LPT, "new"), lambda p: c.voc.con(LPT, "Point", p))
        for i in c.find(LPT, "from"): c.eq("linear Point::from", i, lambda p: c.voc.con(LPT, "Point", into(c, D.P)(p)))
    each(c, ls, pg, mul, pt, seg, tri, lin)

def posseq(c):
    ts = [t for t in c.p.tys if t["k"] == "adt" and t["path"].endswith("::" + c.pl.P) and t["s"].endswith("<C>")]
    return lambda m: ("L",) + tuple(m.gen(ts[0]) for _ in range(m.rng.randrange(m.maxlen + 1)))

def seqn(c, s, typ):
    """a sequence with its elements expanded by type"""
    ts = [t for t in c.p.tys if t["k"] == "adt" and t["path"].endswith("::" + typ) and t["s"].endswith("<C>")]
    return decide.etaseq(c.p, s, ts[0], 0)

def geoempty(c, g, x):
    r = BOT
    for j, (k, t, _) in reversed(list(enumerate(KINDS))):
        v = g.isempty(k, E.lift_nc(lambda y: fld(y, j, 0), x))
        r = v if r is BOT else ite(c.voc.isv(x, GE, k), v, r)
    return r

@rule("C12")
def c12(c):
    g = Geo(c)
    op = heavy()
    n = len(KINDS)
    def variants():
        path = c.voc.path(GE)
        have = [v["name"] for v in c.p.adts[path]["variants"]]
        if have != [k for k, _, _ in KINDS]:
            c.add("kinds of Geometry", path, "src", "anchor", Verdict(UNDECIDED, "variants are " + ", ".join(have)))
            raise Skip()
    def wrap():
        for k, t, acc in KINDS:
            ii = [i for i in c.find(GE, "from") if c.argty(i, 0).get("path", "").endswith("::" + t)]
            if not ii: c.add("Geometry::from(%s)" % k, GE, "src", "anchor", Verdict(REFUTED, "conversion does not exist", {"kind": k}))
            for i in ii: c.eq("Geometry::from(%s)" % k, i, lambda x: g.geom(k, x))
            j = c.one(GE, acc)
            if k != "Empty": c.eq("Geometry::%s" % acc, j, lambda x: ite(c.voc.isv(x, GE, k), Some(c.voc.get(x, GE, "0", k)), NONE))
            else:
                emp = lambda: c.call(c.one(EM, "new"), [])[0]
                c.eq("Geometry::as_empty", j, lambda x: opt(geoempty(c, g, x), emp()))
        c.eq("Geometry::empty", c.one(GE, "empty"), lambda: g.geom("Empty", c.call(c.one(EM, "new"), [])[0]))
    def deleg():
        for m in ("dimension", "geometry_type", "envelope", "is_empty", "is_simple", "boundary"):
            i = c.one(GE, m)
            def want(x):
                r = BOT
                for k, t, _ in reversed(KINDS):
                    j = c.find(t, m) or c.find(t, m, HE)
                    if len(j) != 1: raise Layout("%s::%s" % (t, m))
                    y = E.lift_nc(lambda v: fld(v, [a for a, _, _ in KINDS].index(k), 0), x)
                    inst = c.p.insts[j[0]]
                    if op(inst):
                        v = c.call_opaque(j[0], [y], op)
                    else: v = c.call(j[0], [y], op)[0]
                    r = v if r is BOT else ite(c.voc.isv(x, GE, k), v, r)
                return r
            c.eq("Geometry::%s delegates for every kind" % m, i, want, opaque=lambda f: op(f) and not (f["selfty"] or "").split("<")[0].endswith(GE))
    each(c, variants, wrap, deleg)

def strs(t): return Str(t)
@rule("C13")
def c13(c):
    dim = {"Empty": 0, "Point": 0, "MultiPoint": 0, "LineString": 1, "MultiLineString": 1, "Polygon": 2, "MultiPolygon": 2}
    for k, t, _ in KINDS:
        def f():
            c.eq(k + "::dimension", c.one(t, "dimension"), lambda x: Int(dim[k]), ty={"k": "uint", "s": "u8"})
            c.eq(k + "::geometry_type", c.one(t, "geometry_type"), lambda x: Str(k), ty={"k": "str", "s": "str"})
        each(c, f)
    def g():
        def byk(x, f):
            r = BOT
            for k, t, _ in reversed(KINDS): r = f(k) if r is BOT else ite(c.voc.isv(x, GE, k), f(k), r)
            return r
        c.eq("Geometry::dimension", c.one(GE, "dimension"), lambda x: byk(x, lambda k: Int(dim[k])))
        c.eq("Geometry::geometry_type", c.one(GE, "geometry_type"), lambda x: byk(x, Str))
    each(c, g)

@rule("C14")
def c14(c):
    g = Geo(c)
    for k, t, _ in KINDS:
        def f(): c.eq(k + "::is_empty", c.one(t, "is_empty"), lambda x: g.isempty(k, x))
        each(c, f)
    def ge():
        c.eq("Geometry::is_empty", c.one(GE, "is_empty"), lambda x: geoempty(c, g, x))
    def cl():
        c.eq("LineString::is_closed", c.one(LS, "is_closed"), lambda l: g.closed(l))
        def allc(m):
            s = g.lines(m); j = fresh("k")
            return forall(j, seqlen(s), g.closed(at(s, j)))
        c.eq("MultiLineString::is_closed", c.one(ML, "is_closed"), allc)
        op = heavy()
        c.eq("LineString::is_ring", c.one(LS, "is_ring"), lambda l: And(g.closed(l), c.call_opaque(c.one(LS, "is_simple"), [l], op)), opaque=op)
    def bx():
        for n, d in (("planar", c.pl), ("linear", c.li)):
            c.eq(n + " Envelope::is_empty", c.one(d.Ev, "is_empty"), lambda e, d=d: d.isempty(e))
    each(c, ge, cl, bx)

@rule("C15")
def c15(c):
    g = Geo(c); d = c.pl; D = c.li
    pt = g.point
    def ls():
        P = g.positions
        c.eq("LineString::num_points", c.one(LS, "num_points"), lambda l: seqlen(P(l)))
        c.eq("LineString::get_point", c.one(LS, "get_point"), lambda l, n: opt(ilt(n, seqlen(P(l))), pt(at(P(l), n))))
        c.eq("LineString::start_point", c.one(LS, "start_point"), lambda l: opt(ipos(seqlen(P(l))), pt(at(P(l), Int(0)))))
        c.eq("LineString::end_point", c.one(LS, "end_point"), lambda l: opt(ipos(seqlen(P(l))), pt(at(P(l), isub(seqlen(P(l)), Int(1))))))
        c.eq("LineString::get_segment", c.one(LS, "get_segment"), lambda l, n: d.seg(at(P(l), n), at(P(l), iadd(n, Int(1)))),
             pre=lambda l, n: ilt(iadd(n, Int(1)), seqlen(P(l))))
        j = c.one(LS, "get_segment")
        def refuses():
            l, n = c.sym(j)
            _, _, ev = c.call(j, [l, n])
            stops = FALSE
            for x in ev.panics: stops = Or(stops, reached(ev, x))
            return decide.always(c.p, stops, c.space(c.vars(j, [l, n]), pre=Not(ilt(iadd(n, Int(1)), seqlen(P(l))))))
        c.ob("LineString::get_segment panics for a segment that does not exist", j, "panic reachability", refuses)
        i = c.one(LS, "segments_iter")
        def want(l):
            k = fresh("k")
            return comp([k], [inat(isub(seqlen(P(l)), Int(1)))], TRUE, d.seg(at(P(l), k), at(P(l), iadd(k, Int(1)))))
        from models import rest
        def got(v, l): 
            st = E.St(TRUE, {})
            return segn(rest(c.ev(), st, v))
        def segn(s): return seqn(c, s, d.Sg)
        c.eq("LineString::segments_iter", i, lambda l: segn(want(l)), got=got, ty={"k": "none", "s": ""})
    def mp():
        c.eq("MultiPoint::num_points", c.one(MP, "num_points"), lambda m: seqlen(g.points(m)))
        def has(m, p):
            s = g.points(m); k = fresh("k")
            return exists([k], [seqlen(s)], d.peq(g.ppos(at(s, k)), g.ppos(p)))
        c.eq("MultiPoint::contains_point", c.one(MP, "contains_point"), has)
        c.eq("Point::x", c.one(PT, "x"), lambda p: d.coords(g.ppos(p))[0])
        c.eq("Point::y", c.one(PT, "y"), lambda p: d.coords(g.ppos(p))[1])
    def lin():
        lp = lambda x: c.voc.con(LPT, "Point", x)
        P = lambda m: c.voc.get(m, LMP, "positions"); S = lambda m: c.voc.get(m, LML, "segments")
        c.eq("linear MultiPoint::num_points", c.one(LMP, "num_points"), lambda m: seqlen(P(m)))
        c.eq("linear MultiPoint::get_point", c.one(LMP, "get_point"), lambda m, n: opt(ilt(n, seqlen(P(m))), lp(at(P(m), n))))
        c.eq("linear MultiLine::get_line", c.one(LML, "get_line"), lambda m, n: opt(ilt(n, seqlen(S(m))), c.voc.con(LLN, "Line", Some(at(S(m), n)))))
        sg = lambda l: c.voc.get(l, LLN, "segment")
        has = lambda l: boolv(sg(l), lambda x: isvar(x, 1, 2))
        p = lambda l: E.lift_nc(lambda x: fld(x, 1, 0), sg(l))
        c.eq("linear Line::start", c.one(LLN, "start"), lambda l: opt(has(l), lp(D.start(p(l)))))
        c.eq("linear Line::end", c.one(LLN, "end"), lambda l: opt(has(l), lp(D.end(p(l)))))
    each(c, ls, mp, lin)

@rule("C16")
def c16(c):
    g = Geo(c); d = c.pl
    def simple():
        for k, t in (("Empty", EM), ("Point", PT), ("MultiPoint", MP)):
            c.eq(k + "::boundary is empty", c.one(t, "boundary"), lambda x: g.gempty())
    def ls():
        def want(l):
            p = g.positions(l); n = seqlen(p)
            b = g.geom("MultiPoint", g.built(MP, lit(g.point(at(p, Int(0))), g.point(at(p, isub(n, Int(1)))))))
            return ite(Or(Not(ipos(n)), g.closed(l)), g.gempty(), b)
        c.eq("LineString::boundary", c.one(LS, "boundary"), want)
    def rings(p): return cat(lit(g.exterior(p)), g.interiors(p))
    def pg():
        def want(p):
            return g.geom("MultiLineString", g.built(ML, rings(p)))
        c.eq("Polygon::boundary", c.one(PG, "boundary"), want)
        def wm(m):
            s = g.polygons(m); k = fresh("k")
            x = at(s, k); j = fresh("k")
            some = Or(Not(g.isempty("Polygon", x)), exists([j], [seqlen(g.interiors(x))], Not(g.isempty("LineString", at(g.interiors(x), j)))))
            r = flat(comp([k], [seqlen(s)], some, rings(x)))
            return g.geom("MultiLineString", g.built(ML, r))
        c.eq("MultiPolygon::boundary", c.one(MG, "boundary"), wm)
    each(c, simple, ls, pg)

@rule("C36")
def c36(c):
    D = c.li
    def pt():
        pos = lambda p: c.voc.get(p, LPT, "0")
        c.eq("linear Point::is_empty", c.one(LPT, "is_empty"), lambda p: D.pnan(pos(p)))
        c.eq("linear Point::x", c.one(LPT, "x"), lambda p: opt(Not(D.pnan(pos(p))), D.coords(pos(p))[0]))
        c.eq("linear Point::envelope", c.one(LPT, "envelope", HE), lambda p: ite(D.pnan(pos(p)), D.nobox, D.box(pos(p), pos(p))))
        c.eq("linear Point::empty is empty", c.one(LPT, "is_empty"), lambda: TRUE) if False else None
        def emp():
            v, _, _ = c.call(c.one(LPT, "empty"), [])
            r, _, _ = c.call(c.one(LPT, "is_empty"), [v])
            return decide.compare(c.p, r, TRUE, {"k": "bool", "s": "bool"}, c.space({}))
        c.ob("linear Point::empty().is_empty()", c.one(LPT, "empty"), "value", emp)
    def ln():
        sg = lambda l: c.voc.get(l, LLN, "segment")
        has = lambda l: boolv(sg(l), lambda x: isvar(x, 1, 2))
        p = lambda l: E.lift_nc(lambda x: fld(x, 1, 0), sg(l))
        lp = lambda x: c.voc.con(LPT, "Point", x)
        c.eq("linear Line::is_empty", c.one(LLN, "is_empty"), lambda l: Not(has(l)))
        c.eq("linear Line::envelope", c.one(LLN, "envelope", HE), lambda l: ite(has(l), D.boxof(D.start(p(l)), D.end(p(l))), D.nobox))
        c.eq("linear Line::start", c.one(LLN, "start"), lambda l: opt(has(l), lp(D.start(p(l)))))
        c.eq("linear Line::end", c.one(LLN, "end"), lambda l: opt(has(l), lp(D.end(p(l)))))
        c.eq("linear Line::empty", c.one(LLN, "empty"), lambda: c.voc.con(LLN, "Line", NONE))
    def mu():
        P = lambda m: c.voc.get(m, LMP, "positions"); S = lambda m: c.voc.get(m, LML, "segments")
        c.eq("linear MultiLine::is_empty", c.one(LML, "is_empty"), lambda m: Not(ipos(seqlen(S(m)))))
        for t, q in ((LML, S), (LMP, P)):
            def emp(t=t, q=q):
                v, _, _ = c.call(c.one(t, "empty"), [])
                e, _, _ = c.call(c.one(t, "envelope", HE), [v])
                return decide.compare(c.p, tup(seqlen(q(v)), e), tup(Int(0), D.nobox), None, c.space({}))
            c.ob(t + "::empty has no elements and an empty box", c.one(t, "empty"), "value", emp)
    def built():
        sb = lambda s: D.boxof(D.start(s), D.end(s)); pb = lambda p: D.box(p, p); same = lambda x: x
        def ob(label, i, typ, field, parts, box):
            def f():
                args = c.sym(i); v, _, _ = c.call(i, args)
                e, _, _ = c.call(c.one(typ, "envelope", HE), [v])
                r = decide.compare(c.p, c.voc.get(v, typ, field), parts(*args), fieldtype(c, typ, field), c.space(c.vars(i, args)))
                return r if r.status != PROVED else decide.compare(c.p, e, box(*args), c.retty(c.one(typ, "envelope", HE)), c.space(c.vars(i, args)))
            c.ob(label + " keeps its elements in order and their box", i, "value", f)
        for typ, n, field, el, bx in ((LML, "MultiLine", "segments", D.Sg, sb), (LMP, "MultiPoint", "positions", D.P, pb)):
            for i, cv in [(c.one(typ, "new"), same)] + [(i, into(c, el)) for i in c.find(typ, "from")]:
                ob("linear %s::%s" % (n, "new" if cv is same else "from"), i, typ, field, lambda s, cv=cv: s if cv is same else mapseq(s, cv), lambda s, cv=cv, bx=bx: D.mergeall(s, lambda x: bx(cv(x))))
        ob("linear Line::new", c.one(LLN, "new"), LLN, "segment", lambda a, b: Some(D.seg(a, b)), lambda a, b: D.boxof(a, b))
        for i in c.find(LLN, "from"): ob("linear Line::from", i, LLN, "segment", lambda s: Some(into(c, D.Sg)(s)), lambda s: sb(into(c, D.Sg)(s)))
        c.eq("linear Point::new", c.one(LPT, "new"), lambda p: c.voc.con(LPT, "Point", p))
        for i in c.find(LPT, "from"): c.eq("linear Point::from", i, lambda p: c.voc.con(LPT, "Point", into(c, D.P)(p)))
    def got():
        P = lambda m: c.voc.get(m, LMP, "positions"); S = lambda m: c.voc.get(m, LML, "segments")
        c.eq("linear MultiPoint::num_points", c.one(LMP, "num_points"), lambda m: seqlen(P(m)))
        c.eq("linear MultiPoint::get_point", c.one(LMP, "get_point"), lambda m, n: opt(ilt(n, seqlen(P(m))), c.voc.con(LPT, "Point", at(P(m), n))))
        c.eq("linear MultiLine::get_line", c.one(LML, "get_line"), lambda m, n: opt(ilt(n, seqlen(S(m))), c.voc.con(LLN, "Line", Some(at(S(m), n)))))
    each(c, pt, ln, mu, built, got)
