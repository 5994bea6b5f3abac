"""C24: how two rings relate."""
from base import *
from fractions import Fraction as Fr
import itertools
import interp, rules5
from rules5 import Index, Tree, Meets, No, need, leaves, bycond, same, assume, curve, nodeof, samecomp
RULES = {}
def rule(pid):
    def d(f):
        def g(c):
            if c.index is not None: c.index = Meets(c.index)
            c.indexed = True
            return f(c)
        RULES[pid] = g; return g
    return d
LS = "types::line_string::LineString"
KINDS = ["Separate", "Contains", "Within", "Crosses"]

# ---------------------------------------------------------------- exact geometry of the oracle
def cross(o, a, b): return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])
def within(p, a, b): return cross(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])
def segs(ps): return list(zip(ps, ps[1:]))
def sign(x): return (x > 0) - (x < 0)
def contact(s, t):
    """None, 'many', 'inner' (a point that ends neither), or the shared end"""
    a, b = s; p, q = t
    if cross(a, b, p) == 0 and cross(a, b, q) == 0:
        pts = {x for x in (a, b, p, q) if within(x, a, b) and within(x, p, q)}
        return "many" if len(pts) > 1 else (pts.pop() if pts else None)
    o1, o2, o3, o4 = sign(cross(a, b, p)), sign(cross(a, b, q)), sign(cross(p, q, a)), sign(cross(p, q, b))
    for x, h in ((p, within(p, a, b)), (q, within(q, a, b)), (a, within(a, p, q)), (b, within(b, p, q))):
        if h: return x
    return "inner" if o1 * o2 < 0 and o3 * o4 < 0 else None
def simple(ps):
    n = len(ps) - 1; ss = segs(ps)
    if n < 3 or len(set(ps[:-1])) != n: return False
    for i in range(n):
        for j in range(i + 1, n):
            k = contact(ss[i], ss[j])
            if j == i + 1 or (i == 0 and j == n - 1):
                if k in ("many", "inner"): return False
                if n == 3 and j == i + 1 and cross(*(list(ss[i]) + [ss[j][1]])) == 0: return False
            elif k is not None: return False
    return True
def inside(v, ring):
    r = False
    for (ax, ay), (bx, by) in segs(ring):
        if (ay <= v[1]) != (by <= v[1]):
            if ax + Fr(v[1] - ay) * (bx - ax) / (by - ay) > v[0]: r = not r
    return r
def relation(p, q):
    """the required answer for two rings"""
    bb = lambda r: (min(x for x, _ in r), max(x for x, _ in r), min(y for _, y in r), max(y for _, y in r))
    a, b = bb(p), bb(q)
    if a[1] < b[0] or b[1] < a[0] or a[3] < b[2] or b[3] < a[2]: return "Separate"
    on = set()
    for s in segs(p):
        for t in segs(q):
            k = contact(s, t)
            if k in ("many", "inner"): return "Crosses"
            if k is not None: on.add(k)
    def side(r, o):
        ss = {inside(v, o) for v in r if v not in on}
        return "both" if len(ss) == 2 else None if not ss else "in" if ss.pop() else "out"
    x, y = side(p, q), side(q, p)
    if "both" in (x, y): return "Crosses"
    if (x, y) in ((None, None), ("in", "in")): return "Crosses"
    if x == y == "out": return "Separate"
    if x == "in" or x is None and y == "out": return "Within"
    return "Contains"

# ---------------------------------------------------------------- pairs of rings
def aring(r, k):
    """some simple ring in the k x k grid"""
    for _ in range(60):
        u = r.random()
        if u < 0.25:
            x, y = r.randrange(k - 1), r.randrange(k - 1); a, b = r.randrange(x + 1, k), r.randrange(y + 1, k)
            ps = [(x, y), (a, y), (a, b), (x, b)]
            if r.random() < 0.4: ps = [p for i in range(4) for p in [ps[i]] + ([((ps[i][0] + ps[(i + 1) % 4][0]) / Fr(2), (ps[i][1] + ps[(i + 1) % 4][1]) / Fr(2))] if r.random() < 0.5 else [])]
        elif u < 0.6:
            ps = [(r.randrange(k), r.randrange(k)) for _ in range(r.choice((3, 3, 4, 4, 5)))]
        elif u < 0.85:
            n = r.randrange(2, k + 2)
            c0 = r.randrange(1, k)
            up = [(x, c0 + r.randrange(1, 3)) for x in range(n)]; lo = [(x, c0 - r.randrange(0, 3)) for x in range(n)]
            ps = lo + up[::-1]
            if r.random() < 0.5: ps = [(y, x) for x, y in ps]
        else:
            # U and S shapes
            w = r.randrange(1, 3); h = r.randrange(2, k)
            ps = [(0, 0), (3 * w, 0), (3 * w, h), (2 * w, h), (2 * w, r.randrange(1, h)), (w, r.randrange(1, h)), (w, h), (0, h)]
            dx, dy = r.randrange(2), r.randrange(2); ps = [(x + dx, y + dy) for x, y in ps]
            if r.random() < 0.5: ps = [(y, x) for x, y in ps]
            if r.random() < 0.5: ps = [(x, 8 - y) for x, y in ps]
        ps = [(Fr(x), Fr(y)) for x, y in ps]
        if simple(ps + ps[:1]): return ps
    return [(Fr(0), Fr(0)), (Fr(1), Fr(0)), (Fr(0), Fr(1))]
def other(r, ps, k):
    """a ring related to ps"""
    n = len(ps)
    bb = [(min(x for x, _ in ps), max(x for x, _ in ps)), (min(y for _, y in ps), max(y for _, y in ps))]
    for _ in range(30):
        u = r.random()
        if u < 0.3: return aring(r, k)
        if u < 0.45: qs = [(x + r.randrange(-3, 4) * 0 + dx, y + dy) for dx, dy in [(r.randrange(-3, 4), r.randrange(-3, 4))] for x, y in ps]
        elif u < 0.6:
            f = r.choice((Fr(1, 2), 2, Fr(1, 3), 3)); o = r.choice(ps) if r.random() < 0.6 else (r.randrange(k), r.randrange(k))
            qs = [(o[0] + (x - o[0]) * f, o[1] + (y - o[1]) * f) for x, y in ps]
        elif u < 0.85:
            # some positions of ps: its vertices, points of its edges, others
            pool = list(ps) + [((a[0] + b[0]) / 2, (a[1] + b[1]) / 2) for a, b in segs(ps + ps[:1])]
            m = r.choice((3, 3, 4, 5)); 
            idx = sorted(r.sample(range(len(pool)), min(m, len(pool))))
            key = {j: (j if j < n else j - n + 0.5) for j in idx}
            qs = [pool[j] for j in sorted(idx, key=lambda j: key[j])]
            if r.random() < 0.5: qs.insert(r.randrange(len(qs)), (Fr(r.randrange(-1, k + 2)), Fr(r.randrange(-1, k + 2))))
        else:
            lo, hi = bb; e = r.randrange(0, 2)
            qs = [(lo[0] - e, hi[0] - e), (lo[1] + e, hi[0] - e), (lo[1] + e, hi[1] + e), (lo[0] - e, hi[1] + e)]
        if simple(qs + qs[:1]): return qs
    return aring(r, k)
def turn(r, ps):
    if r.random() < 0.5: ps = ps[::-1]
    j = r.randrange(len(ps)); ps = ps[j:] + ps[:j]
    return ps + ps[:1]
# two rings through the same six positions without a common edge or a proper crossing
OCT = {"A": (0, 0), "B": (12, 0), "C": (6, 12), "a": (7, 5), "b": (5, 5), "c": (6, 2)}
TWO = (("ABCacb", "ACbaBc"), ("ABCbac", "ACaBcb"), ("ABaCbc", "ACBcab"), ("ABacbC", "AbaCBc"), ("ABcaCb", "ACBabc"), ("ABcbaC", "AbCBac"))
def mids(ps, keep): return [x for a, b in segs(ps + ps[:1]) for x in [a] + [((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)] * bool(keep(((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)))]
def same_vertices(r):
    p, q = [[(Fr(OCT[k][0]), Fr(OCT[k][1])) for k in h] for h in r.choice(TWO)]
    u = r.random()
    if u < 0.75:
        w = r.choice((lambda x, o: inside(x, o), lambda x, o: not inside(x, o), lambda x, o: r.random() < 0.3))
        p2 = mids(p, lambda x: w(x, q + q[:1])); q2 = mids(q, lambda x: w(x, p + p[:1]))
        if u < 0.5: p = p2
        if u > 0.25: q = q2
    return turn(r, p), turn(r, q)
def dented(r, ps):
    """ps with every edge bent in or out"""
    n = len(ps); w = r.choice((0.0, 0.5, 1.0))
    for _ in range(20):
        f = Fr(1, r.choice((2, 4, 8))); out = []
        for a, b in segs(ps + ps[:1]):
            s = f if r.random() < w else -f
            out += [a, ((a[0] + b[0]) / 2 - s * (b[1] - a[1]), (a[1] + b[1]) / 2 + s * (b[0] - a[0]))]
        if r.random() < 0.4:
            j = r.randrange(0, n) * 2
            out[j] = (out[j][0] + r.randrange(-2, 3), out[j][1] + r.randrange(-2, 3))
        if simple(out + out[:1]): return out
    return None
def divided(p, f): return [(a[0] + (b[0] - a[0]) * Fr(i, f), a[1] + (b[1] - a[1]) * Fr(i, f)) for a, b in segs(p + p[:1]) for i in range(f)]
def longpair(r, n):
    """about n vertices or more in the first, the second or both rings"""
    while True:
        p, q = ringpair(r)
        if len(p) < 15 and len(q) < 15: break
    w = r.choice((1, 1, 2, 2, 3)); m = n + r.choice((-1, 0, 1, 2, 7))
    def long(p):
        p = p[:-1]; f = -(-m // len(p)); k = f * len(p) - m
        # each side divided alike; some of the new vertices left out to have m
        p = divided(p, f); out = {i for i in range(len(p)) if i % f}
        for i in sorted(out)[:max(0, k)]: p[i] = None
        p = [x for x in p if x is not None]
        return p + p[:1]
    return long(p) if w & 1 else p, long(q) if w & 2 else q
def ringpair(r):
    if r.random() < 0.06: return same_vertices(r)
    k = r.choice((3, 4, 5, 7))
    if r.random() < 0.15:
        p = aring(r, k); q = dented(r, p)
        if q:
            if r.random() < 0.5: p, q = q, p
            return turn(r, p), turn(r, q)
    p = aring(r, k); q = other(r, p, k)
    if r.random() < 0.3: p, q = q, p
    if r.random() < 0.15:
        # many vertices: subdivide
        f = r.randrange(2, 5)
        div = lambda p: [(a[0] + (b[0] - a[0]) * Fr(i, f), a[1] + (b[1] - a[1]) * Fr(i, f)) for a, b in segs(p + p[:1]) for i in range(f)]
        p = div(p)
        if r.random() < 0.5: q = div(q)
    if r.random() < 0.08:
        # almost touching
        e = Fr(1, 1 << r.choice((16, 30, 46))); dx, dy = r.choice(((e, 0), (-e, 0), (0, e), (0, -e), (e, e), (-e, e)))
        q = [(x + dx, y + dy) for x, y in q]
    p, q = turn(r, p), turn(r, q)
    if p[0] in q and r.random() < 0.4:
        # a common start
        j = q.index(p[0]); q = q[:-1]; q = q[j:] + q[:j]; q = q + q[:1]
    return p, q

def c24fn(c):
    """the comparison: two linestrings in, one of the four answers out"""
    out = []
    for i in c.p.lib:
        f = c.p.insts[i]
        if f["closure"] or f["argc"] != 2: continue
        t = c.p.tys[f["locals"][0]]
        if t["k"] != "adt" or t["path"] not in c.p.adts: continue
        if sorted(v["name"] for v in c.p.adts[t["path"]]["variants"]) != sorted(KINDS): continue
        a = [c.argty(i, k) for k in (0, 1)]
        if all(x["k"] == "ref" and c.p.tys[x["t"]].get("path", "").endswith(LS) for x in a): out.append(i)
    if len(out) != 1: out = [i for i in out if c.p.insts[i]["name"] == "find_loop_loop_relation"]
    if len(out) != 1:
        c.add("ring comparison", "loop_relation", "src", "anchor", Verdict(UNDECIDED, "%d candidates" % len(out))); raise Skip()
    return out[0]

def ringrule(c, which):
    g = Index(c)
    def f():
        i = c24fn(c); d = c.pl
        a, b = c.sym(i)
        LP = c.voc.path(LS); PP = c.voc.path(d.P)
        pn = [x[0] for x in c.p.adts[PP]["variants"][0]["fields"]]
        RT = c.retty(i)["path"]; names = [v["name"] for v in c.p.adts[RT]["variants"]]
        def ls(m, ps):
            v = list(m.gen(c.p.adts[LP]))
            for j, x in enumerate(c.p.adts[LP]["variants"][0]["fields"]):
                if not c.p.tys[x[1]].get("path", "").endswith("::Envelope"):
                    v[3 + j] = ("L",) + tuple(("A", PP, 0) + tuple({"x": q[0], "y": q[1]}[n] for n in pn) for q in ps)
            return c.fixups[LP](m, tuple(v))
        def pair(m):
            if "pair" not in m.__dict__:
                r = interp.random.Random(interp.seed_of(m.seed, "rings")); big = done.get("big")
                if big and r.random() < 0.25: m.budget = 60000000; m.pair = longpair(r, r.choice(big))
                else: m.pair = ringpair(r)
            return m.pair
        done = {}
        vars = {a: lambda m: ls(m, pair(m)[0]), b: lambda m: ls(m, pair(m)[1])}
        part = lambda inst: inst["name"].startswith("new") and (inst["selfty"] or "").split("<")[0].endswith("Flatbush") or inst["name"] in ("intersect_segment", "find_winding_number")
        def value():
            if "v" not in done:
                done["v"] = c.call(i, [a, b], opaque=part)
                done["big"] = [int(k) for k in interp.constants([done["v"][0]]) if k.denominator == 1 and 5 < k <= 300]
            return done["v"]
        E_ = c.p.find("Segment", "envelope", "HasEnvelope")
        E_ = [j for j in E_ if "planar" in c.name(j)]
        def envof(m, s):
            b = c.body(c.name(E_[0])) if len(E_) == 1 else None
            if b is None: raise interp.NoInterp("box of a segment")
            return m.inbody(b, (s,))
        def space():
            sp = c.space(vars, contracts={"envof": envof, "into": lambda m, v: v}); sp.budget = 3000000
            return sp
        def answer():
            v, _, ev = value()
            try: return Verdict(PROVED, proof(c, g, i, a, b, v, ev))
            except No as e: why = str(e)
            def test(m):
                got = m.value(v); want = relation(*pair(m))
                if not (isinstance(got, tuple) and got[0] == "A" and got[1] == RT): return None
                return None if names[got[2]] == want else (names[got[2]], want)
            sp = space()
            sp.ends = True
            m, dd, tried, w2 = decide.refute(sp, test)
            if m is not None: return Verdict(REFUTED, "two rings are taken for %s" % dd[0], {"rings": ["; ".join("%s %s" % q for q in r) for r in pair(m)], "found": dd[0], "required": dd[1]})
            return Verdict(UNDECIDED, "structure not recognised (%s); none of %d pairs of rings differs%s" % (why, tried, "; " + w2 if w2 else ""))
        if "answer" in which: c.ob("two rings are related by the crossing rule and vertex parity", i, "worklist induction", answer)
        def calm():
            v, _, ev = value()
            sp = space()
            try: return Verdict(PROVED, nopanics(c, g, i, a, b, v, ev))
            except No as e: why = str(e)
            conds = [(x, reached(ev, x)) for x in ev.panics]
            conds = [(x, k) for x, k in conds if k is not FALSE]
            def test(m):
                m.memo = {}
                for x, k in conds:
                    try: h = m.ev(k, {})
                    except interp.DontCare: continue
                    if h: return ("%s at %s" % (x.kind, x.sp), x)
                return None
            sp.ends = True
            m, dd, tried, w2 = decide.refute(sp, test)
            if m is not None: return Verdict(REFUTED, "comparing two rings reaches a panic: %s" % dd[0], {"rings": ["; ".join("%s %s" % q for q in r) for r in pair(m)], "panic": dd[0]})
            if not conds: return Verdict(PROVED, "no panic site")
            return Verdict(UNDECIDED, "%d panic sites not excluded (%s); none of %d pairs of rings reaches one%s" % (len(conds), why, tried, "; " + w2 if w2 else ""))
        if "calm" in which: c.ob("comparing two closed rings never panics", i, "reachability", calm)
    each(c, f)
def crossing(c):
    """which segments the ray from a position crosses: one half-open convention for all of them"""
    def f():
        d = c.pl
        i = c.one(d.Sg, "find_winding_number", private=True)
        args = c.sym(i)
        ty = [c.p.tys[x["t"]] if x["k"] == "ref" else x for x in (c.argty(i, k) for k in range(len(args)))]
        ps = [a for a, t in zip(args, ty) if t.get("path") == c.voc.path(d.P)]
        sg = [a for a, t in zip(args, ty) if t.get("path") == c.voc.path(d.Sg)]
        if len(ps) != 1 or len(sg) != 1 or len(args) != 2: return c.add("crossing rule", "find_winding_number", "src", "anchor", Verdict(UNDECIDED, "not a function of a position and a segment"))
        px, py = d.coords(ps[0]); ax, ay = d.coords(d.start(sg[0])); bx, by = d.coords(d.end(sg[0]))
        lo, hi = fmin(ay, by), fmax(ay, by)
        cross = rsub(rmul(rsub(bx, ax), rsub(py, ay)), rmul(rsub(by, ay), rsub(px, ax)))
        left = flt(Num(0), cross); right = flt(cross, Num(0)); up = flt(ay, by)
        # not on the segment
        off = Or(left, right, flt(py, lo), flt(hi, py), And(feq(ay, by), Or(flt(px, fmin(ax, bx)), flt(fmax(ax, bx), px))))
        pre = And(off, *[isfinite(x) for x in (px, py, ax, ay, bx, by)])
        mm = lambda lo, hi: {fmin(ay, by): lo, fmin(by, ay): lo, fmax(ay, by): hi, fmax(by, ay): hi}
        cases = [(flt(ay, by), mm(ay, by)), (flt(by, ay), mm(by, ay)), (TRUE, dict(list(mm(ay, ay).items()) + [(by, ay)]))]
        refs = {}
        for nm, band in (("lower end included", And(fle(lo, py), flt(py, hi))), ("upper end included", And(flt(lo, py), fle(py, hi)))):
            for side, s in (("right", ite(up, left, right)), ("left", ite(up, right, left))):
                refs[nm + ", ray to the " + side] = And(band, s)
        def value():
            v = c.call(i, args)[0]
            return ite(Or(ieq(v, Int(1)), ieq(v, Int(-1))), Int(1), ite(ieq(v, Int(0)), Int(0), Int(2)))
        def thunk():
            v = value()
            last = None
            for nm, r in refs.items():
                w = ite(r, Int(1), Int(0))
                # the segment rises, falls or is level
                if all(decide.realequal(subst(v, m_), subst(w, m_), And(k, subst(pre, m_))) for k, m_ in cases):
                    return Verdict(PROVED, "%s: equal where the segment rises, falls and is level" % nm)
            sp = c.space(c.vars(i, args), pre=pre, special=0); sp.ends = True; sp.steer(v)
            # each convention has to be separated from the function, whichever it follows
            ws = []
            for nm, r in refs.items():
                w = ite(r, Int(1), Int(0))
                def test(m):
                    x, y = m.value(v), m.value(w)
                    return None if x == y else (str(x), str(y))
                m, dd, tried, why = decide.refute(sp, test)
                if m is None: return Verdict(UNDECIDED, "not shown equal to, nor separated from: %s%s" % (nm, "; " + why if why else ""))
                ws.append((nm, sp.describe(m), dd))
            return Verdict(REFUTED, "follows no half-open crossing convention", {"values": ws[0][1], "found": "crossings " + ws[0][2][0], "required": "%s (%s; the other conventions differ elsewhere)" % (ws[0][2][1], ws[0][0])})
        c.ob("a position off a segment sees it crossed under one half-open convention", i, "normal form", thunk)
    each(c, f)
@rule("C24")
def c24(c):
    ringrule(c, ("answer", "calm"))
    crossing(c)

def bands(c, g, guard, u, v, others):
    """the guard lets a pair of nodes through only if both have a box, and whenever their boxes share a height"""
    d = c.pl
    eu, ev = [g.node(x, "envelope") for x in (u, v)]
    if d.isempty(eu) is not FALSE: need(assume(guard, d.isempty(eu)) is FALSE, "a node without a box is let through")
    if d.isempty(ev) is not FALSE: need(assume(guard, d.isempty(ev)) is FALSE, "a node without a box is let through")
    V = {n: Var("box" + n) for n in ("ax", "ay", "bx", "by", "cx", "cy", "dx", "dy")}
    P = lambda s: d.pos(*[{"x": V[s + "x"], "y": V[s + "y"]}[n] for n in ("x", "y")])
    bu, bv = d.box(P("a"), P("b")), d.box(P("c"), P("d"))
    gd = subst(guard, {eu: bu, ev: bv})
    need(not others & fv(gd), "the guard depends on more than the two boxes")
    # what the atoms `meets` mean (C02)
    for _ in range(6):
        ms = [x for x in walk(gd) if x.op == "meets"]
        if not ms: break
        x = ms[0]; r = d.meets(x.args[0], x.args[1])
        need(not any(y.op == "meets" for y in walk(r)), "boxes of unknown shape")
        gd = substatom(gd, x, r)
    # only comparisons of coordinates are left: every order type of the four limits on each axis
    def num(x, val):
        if x in val: return val[x]
        need(x.op in ("fmin", "fmax"), "a guard beyond comparisons of the boxes' limits")
        return (min if x.op == "fmin" else max)(*[num(y, val) for y in x.args])
    def truth(x, val):
        while x.op == "ite":
            t = x.args[0]
            need(t.op in ("flt", "feq"), "a guard beyond comparisons of the boxes' limits")
            p, q = [num(y, val) for y in t.args]
            x = x.args[1] if (p < q if t.op == "flt" else p == q) else x.args[2]
        need(x in (TRUE, FALSE), "a guard beyond comparisons of the boxes' limits")
        return x is TRUE
    orders = [o for o in itertools.product(range(4), repeat=4) if o[0] <= o[1] and o[2] <= o[3] and set(o) == set(range(len(set(o))))]
    for ox in orders:
        for oy in orders:
            if oy[0] > oy[3] or oy[2] > oy[1]: continue
            val = dict(zip([V[n] for n in ("ax", "bx", "cx", "dx", "ay", "by", "cy", "dy")], ox + oy))
            need(truth(gd, val), "a pair of nodes of common height is not let through")
def substatom(t, x, r):
    """t with the condition x replaced by r"""
    l = _lit_of(x)
    hi, lo = restrict(t, l), restrict(t, Not(l))
    return ite(r, hi, lo)
def _lit_of(x): return mk("ite", x, TRUE, FALSE)
def proof(c, g, i, a, b, v, ev, panics=None):
    d = c.pl; voc = c.voc
    coords = lambda s: [fld(s, 0, j) for j, f in enumerate(c.p.adts[voc.path(LS)]["variants"][0]["fields"]) if c.p.tys[f[1]].get("path", "").endswith("Vec")][0]
    env = lambda s: [fld(s, 0, j) for j, f in enumerate(c.p.adts[voc.path(LS)]["variants"][0]["fields"]) if c.p.tys[f[1]].get("path", "").endswith("::Envelope")][0]
    RT = c.retty(i)["path"]; K = {x["name"]: adt(RT, j) for j, x in enumerate(c.p.adts[RT]["variants"])}
    near = c.index.ix.meets(env(a), env(b))
    need(restrict(v, Not(near)) is K["Separate"], "rings with boxes apart are not shown to be separate")
    # the two indexes
    calls = [x for x in walk(v) if x.op == "call" and "flatbush" in x.args[0]]
    def items(s):
        k = fresh("k"); p = coords(s)
        return comp([k], [inat(isub(seqlen(p), Int(1)))], TRUE, voc.con(d.Sg, "Segment", start=at(p, k), end=at(p, iadd(k, Int(1)))))
    T_ = []
    for s in (a, b):
        ts = [x for x in calls if x.args[1] is items(s) and (x.args[2].op != "int" or x.args[2].args[0] >= 2)]
        need(len(ts) == 1, "an index of the ring's segments"); T_.append(Tree(c, g, ts[0]))
    need(len(calls) == 2, "two indexes")
    recs = [r for r in ev.loops if getattr(r, "sys", None)]
    need(len(recs) == 1, "one traversal")
    raw, inits, back, nexts = recs[0].sys
    inits = [assume(x, near) for x in inits]
    r1, r2 = T_[0].root(), T_[1].root()
    W = [j for j, x in enumerate(inits) if x is lit(tup(r1, r2))]
    need(len(W) == 1, "the traversal does not start from both roots"); W = W[0]
    S = raw[W]; ip = ipos(seqlen(S))
    n1 = n2 = None; why = None
    for last in (True, False):
        it = at(S, isub(seqlen(S), Int(1))) if last else at(S, Int(0))
        k = fresh("k"); rest = comp([k], [inat(isub(seqlen(S), Int(1)))], TRUE, at(S, k if last else iadd(k, Int(1))))
        try: return proof1(**locals())
        except No as e: why = why or e
    raise why
def proof1(c, g, i, a, b, v, ev, d, voc, coords, env, K, near, T_, raw, inits, back, nexts, W, S, ip, it, rest, recs, panics, **kw):
    t1, t2 = T_
    n1, n2 = [nodeof(g, fld(it, 0, j)) for j in (0, 1)]
    sub = {fld(it, 0, 0): n1, fld(it, 0, 1): n2}
    leaf = lambda n: ieq0(g.node(n, "level"))
    q = And(leaf(n1), leaf(n2))
    never = lambda x: decide.context(x) is FALSE
    nx = [subst(x, sub) for x in nexts]; bk = subst(back, sub)
    # inner nodes: one side is replaced by its children, pairs of common height are kept
    w = assume(nx[W], Not(q)); n = 0
    for p, x in leaves(w, Not(q)):
        if never(p): continue
        ok = None
        for s in (0, 1):
            if not never(And(p, leaf((n1, n2)[s]))): continue
            parts = list(x.args) if x.op == "cat" else [x]
            need(len(parts) == 2 and parts[0] is rest and parts[1].op == "comp", "the next worklist is not the rest and the children")
            vs, ds, gd, e = open_comp(parts[1])
            tr = T_[s]
            if len(vs) != 1 or ds[0] is not inat(tr.degree): continue
            u, y = (t1.child(n1, vs[0]), n2) if s == 0 else (n1, t2.child(n2, vs[0]))
            if e is not tup(u, y) and not same(c, assume(e, And(p, gd)), tup(u, y)): continue
            bands(c, g, gd, u, y, set(raw) | set(vs)); ok = True; break
        need(ok, "the next worklist is not the pairs of one side's children and the other node"); n += 1
    need(n, "no descent")
    need(all(assume(nx[j], Not(q)) is raw[j] for j in range(len(raw)) if j != W), "something is recorded at inner nodes")
    need(assume(bk, Not(q)) is ip, "the traversal stops early")
    # leaves
    need(assume(nx[W], q) is rest, "the next worklist after a pair of segments")
    seg = lambda s, n: (lambda p, k: voc.con(d.Sg, "Segment", start=at(p, k), end=at(p, iadd(k, Int(1)))))(coords(s), g.node(n, "sibling_index"))
    s1, s2 = seg(a, n1), seg(b, n2)
    ix = c.one(d.Sg, "intersect_segment", private=True); wn = c.one(d.Sg, "find_winding_number", private=True)
    op = lambda inst: inst["name"] in ("intersect_segment", "find_winding_number")
    I = c.call_opaque(ix, [s1, s2], op)
    IT = c.retty(ix)["path"]
    vi = {x["name"]: j for j, x in enumerate(c.p.adts[IT]["variants"])}
    isv = lambda nm: isvar(I, vi[nm], len(vi))
    P = fld(I, vi["Position"], 0)
    eqp = lambda x, y: TRUE if x is y else d.peq(x, y)
    ends = [voc.get(s, d.Sg, f) for s in (s1, s2) for f in ("start", "end")]
    anyend = FALSE
    for e in ends: anyend = Or(anyend, eqp(P, e))
    crosses = Or(isv("Segment"), And(isv("Position"), Not(anyend)))
    fin = TRUE
    for e in ends + [P]:
        for x in d.coords(e): fin = And(fin, feq(x, x))
    care = And(q, And(fin, ip))
    A = lambda x: assume(x, care)
    need(same(c, A(bk), A(Not(crosses))), "a pair of segments is not shown to decide a crossing exactly when they overlap or meet away from every end")
    care = And(care, Not(crosses))
    hit = isv("Position")
    safe = lambda p: tup(*[adt(NN, 0, x) for x in d.coords(p)])
    NN = [y for y in walk(nx[0] if W else nx[1]) if y.op == "adt" and y.args[0].endswith("NotNan")]
    for y in nx: NN = NN or [z for z in walk(y) if z.op == "adt" and z.args[0].endswith("NotNan")]
    need(NN, "keys of positions"); NN = NN[0].args[0]
    role = {}
    for j in range(len(raw)):
        if j == W: continue
        M = raw[j]; x = assume(nx[j], care)
        if inits[j].op == "mnew":
            for s, (me, o) in enumerate(((s1, s2), (s2, s1))):
                st = voc.get(me, d.Sg, "start"); key = safe(st)
                w = c.call_opaque(wn, [st, o], op)
                want = ite(And(hit, eqp(P, st)), M, mk("mset", M, key, Int(0), iadd(mk("mget", M, key, Int(0)), w)))
                if same(c, x, assume(want, care)): role[("wn", s)] = j
        elif inits[j] is lit():
            want = ite(hit, cat(M, lit(safe(P))), M)
            if same(c, x, assume(want, care)): role["on"] = j
    need(set(role) == {("wn", 0), ("wn", 1), "on"} and len(set(role.values())) == 3, "what a pair of segments records: %s shown" % sorted(map(str, role)))
    # the answer
    outs = recs[0].outs; m = dict(zip(raw, outs))
    oW = outs[W]
    over = And(near, Not(subst(back, m)))
    early = assume(v, And(near, ipos(seqlen(oW))))
    E1 = [x for _, x in leaves(early)]
    done = And(near, Not(ipos(seqlen(oW))))
    fresh_ = {outs[role[("wn", 0)]]: Var("map1"), outs[role[("wn", 1)]]: Var("map2"), outs[role["on"]]: Var("onset")}
    import rules8
    fin_ = rules8.unpair(subst(assume(v, done), fresh_))
    def has(mp, odd):
        k, k2 = fresh("k"), fresh("k"); ks = mk("mapkeys", mp); key = at(ks, k)
        r = ieq0(mk("irem", mk("mget", mp, key, Int(0)), Int(2)))
        return exists([k], [seqlen(ks)], And(Not(exists([k2], [seqlen(Var("onset"))], E.valeq(at(Var("onset"), k2), key))), Not(r) if odd else r))
    o1, i1, o2, i2 = has(Var("map1"), False), has(Var("map1"), True), has(Var("map2"), False), has(Var("map2"), True)
    x1, x2 = And(o1, i1), And(o2, i2)
    n1_, n2_ = And(Not(o1), Not(i1)), And(Not(o2), Not(i2))
    want = ite(Or(x1, x2), K["Crosses"], ite(And(o1, o2), K["Separate"], ite(Or(And(i1, o2), Or(And(i1, n2_), And(n1_, o2))), K["Within"],
        ite(Or(And(o1, i2), Or(And(o1, n2_), And(n1_, i2))), K["Contains"], K["Crosses"]))))
    need(same(c, fin_, want), "the answer is not shown to follow from the recorded vertices as required")
    need(all(x is K["Crosses"] for x in E1) or same(c, assume(early, over), K["Crosses"]), "stopping early is not shown to mean crossing")
    if panics is not None:
        # nodes of the worklist are nodes of their index (C25); a leaf with a box is an item
        for x in panics:
            if x.cond is FALSE: continue
            cond = And(subst(x.cond, sub), fin)
            facts = TRUE
            for t in (t1, t2): facts = And(facts, ipos(seqlen(t.levels)), ipos(seqlen(t.tree)))
            for s, (t, m, o) in enumerate(((t1, n1, a), (t2, n2, b))):
                N = lambda f: g.node(m, f)
                facts = And(facts, Not(ipos(isub(N("level"), seqlen(t.levels)))))
                facts = And(facts, Or(Not(q), ilt(N("sibling_index"), inat(isub(seqlen(coords(o)), Int(1))))))
                for k, dom in x.binders:
                    if subst(dom, sub) is inat(t.degree):
                        facts = And(facts, Or(leaf(m), ilt(iadd(iadd(at(t.levels, isub(N("level"), Int(1))), imul(N("sibling_index"), t.degree)), k), seqlen(t.tree))))
            need(never(And(facts, cond)) or restrict(cond, facts) is FALSE or decide.impossible(And(facts, cond)), "%s at %s" % (x.kind, x.sp))
        return "%d panic sites: %d at tree or item positions of queued nodes (C25), others excluded by finite coordinates" % (len(panics), sum(x.kind == "bounds" for x in panics))
    return "first state, descent, pair of segments (crossing, boundary and winding records) and answer of the traversal at %s checked" % recs[0].sp
def nopanics(c, g, i, a, b, v, ev): return proof(c, g, i, a, b, v, ev, list(ev.panics))
