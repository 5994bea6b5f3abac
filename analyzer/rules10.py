"""C37: panics reachable from validation and index queries."""
from base import *
import interp, rules5
from rules5 import Index, Meets, No, need, curve, Query, SelfJoin, Join, packing, traversal, ints, Tree
RULES = {}
def rule(pid):
    def d(f): RULES[pid] = f; return f
    return d
ENTRIES = ("validate", "is_simple", "is_closed", "is_ring", "is_empty", "boundary", "make_simple", "dimension", "geometry_type", "num_points", "num_geometries")
PRIVATE = ("intersect_segment",)
GEOM = ("::types::", "::primitives::", "::validation::", "::algorithms::")

class Calls(object):
    """records calls of the ring comparison on rings that are not known to be valid and closed"""
    def __init__(self, ix, c, ring): self.ix, self.c, self.ring = ix, c, ring; self.seen = 0
    def __call__(self, ev, inst, cal, args, st):
        if inst["path"] == self.ring and len(args) == 2:
            self.seen += 1
            ok = TRUE
            for a in args:
                a = ev.deref(st, a)
                for nm in ("validate", "is_closed"):
                    ok = And(ok, self.holds(nm, a))
            ev.panic("unchecked ring", Not(ok), st, inst["sp"], cal["path"], [ev.deep(st, a) for a in args])
            return None
        return self.ix(ev, inst, cal, args, st) if self.ix else None
    def holds(self, nm, a):
        c = self.c
        i = c.one("planar::types::line_string::LineString", nm, private=True)
        if nm == "validate":
            v = c.call_opaque(i, [a], lambda g: True)
            return isvar(v, 0, 2)
        f = self.__dict__.setdefault("_" + nm, None)
        if f is None:
            x = Var("ring!"); v, _, _ = E_call(c, i, x); f = (x, v); self.__dict__["_" + nm] = f
        return subst(f[1], {f[0]: a})
def E_call(c, i, x):
    return E.Ev(c.p, contract=c.index).call_sym(i, [x])

def excluded(ev, x, pre=TRUE, hook=None):
    r = reached(ev, x, pre)
    return r, r is FALSE or decide.impossible(r, hook=hook)
def lemmas(c):
    """what a decision taken before tells: a valid polygon has passed its own validation; the box of a polygon without
    exterior positions is empty (C10) and meets nothing (C02)"""
    d = c.pl; PG = "planar::types::polygon::Polygon"
    try:
        pv = c.one(PG, "validate", private=True)
        x = Var("p!"); v, _, _ = E.Ev(c.p, contract=c.index, opaque=lambda h: h["name"] == "validate" and h["path"] != c.name(pv) or h["argc"] == 2 and not h["closure"] and h["name"].startswith("find_loop")).call_sym(pv, [x])
        body = isvar(v, 0, 2)
        pf = c.p.adts[c.voc.path(PG)]["variants"][0]["fields"]
        lf = c.p.adts[c.voc.path("planar::types::line_string::LineString")]["variants"][0]["fields"]
    except (Skip, Layout, E.Unsupported): return None
    ty = lambda f: c.p.tys[f[1]].get("path", "")
    ext = [j for j, f in enumerate(pf) if ty(f).endswith("::LineString")]; en = [j for j, f in enumerate(pf) if ty(f).endswith("::Envelope")]
    co = [j for j, f in enumerate(lf) if ty(f).endswith("Vec")]
    path = c.name(pv)
    alone = [q for q, t in c.p.adts.items() if len(t["variants"]) == 1 and len(en) == 1 and len(t["variants"][0]["fields"]) > en[0] and c.p.tys[t["variants"][0]["fields"][en[0]][1]].get("path", "").endswith("::Envelope")]
    if alone != [c.voc.path(PG)]: en = []
    def hook(a, val):
        if a.op == "is" and val and a.args[0].op == "call" and a.args[0].args[0] == path and a.args[1] == 0: return subst(body, {x: a.args[0].args[1]})
        if a.op == "meets" and val and len(ext) == len(en) == len(co) == 1:
            f = None
            for b in a.args:
                if b.op == "fld" and b.args[1:] == (0, en[0]): f = And(f or TRUE, ipos(seqlen(fld(fld(b.args[0], 0, ext[0]), 0, co[0]))))
            return f
        return None
    return hook

def spoil(c, ringname):
    """geometries for interpretation: often close to valid, with some unusable coordinate or a ring left open"""
    import rules3
    rules3.ringhook(c)
    if ringname:
        try: rules3.relcontract(c)
        except (Skip, Layout): pass
    def bad(f):
        def h(m, ty, rng, depth):
            v = f(m, ty, rng, depth)
            if v is None or rng.random() > (0.5 if depth == 0 else 0.15): return v
            spots = []
            def find(x, at):
                if isinstance(x, tuple) and x and x[0] == "A" and x[1].endswith("::Position"): spots.append(at)
                elif isinstance(x, tuple) and x and (x[0] == "L" or x[0] == "A" and not x[1].endswith("::Envelope")):
                    for k, y in enumerate(x): find(y, at + (k,))
            find(v, ())
            if not spots: return v
            s = rng.choice(spots); k = rng.choice((3, 4)); w = rng.choice((interp.NAN, interp.NAN, interp.INF))
            def put(x, at):
                if not at: return x[:k] + (w,) + x[k + 1:]
                y = x[:at[0]] + (put(x[at[0]], at[1:]),) + x[at[0] + 1:]
                return m.fixups[y[1]](m, y) if y[0] == "A" and y[1] in m.fixups else y
            return put(v, s)
        return h
    for k in list(c.hooks): c.hooks[k] = bad(c.hooks[k])

@rule("C37")
def c37(c):
    p = c.p; g = None
    import rules9
    state = {}
    def ring():
        if "ring" not in state:
            state["ring"] = None
            try: state["ring"] = c.name(rules9.c24fn(c))
            except Skip: pass
        return state["ring"]
    def entries():
        c.indexed = True; base = c.index
        rp = ring(); col = Calls(base, c, rp)
        todo = []
        for i in p.lib:
            f = p.insts[i]
            if f["closure"] or f["name"] not in ENTRIES + PRIVATE: continue
            if not any(s in f["path"] for s in GEOM): continue
            if f["name"] in ENTRIES and not (f["pub"] or f["trait"]): continue
            todo.append(i)
        # the parts an entry is cut at are entries themselves
        cut = {p.insts[i]["path"] for i in todo if p.insts[i]["name"] in ("validate", "is_simple", "intersect_segment")} | ({rp} if rp else set())
        n = 0; hook = lemmas(c); memo = {}
        saved = dict(c.hooks), dict(c.contracts)
        spoil(c, rp)
        def inside(ev, x):
            """the ring comparison called there panics"""
            if "f" not in memo:
                i = rules9.c24fn(c); a = c.sym(i)
                kept = c.index; c.index = Meets(base)
                try: _, _, e2 = c.call(i, a)
                finally: c.index = kept
                f = FALSE
                for y in e2.panics: f = Or(f, reached(e2, y))
                memo["f"] = (a, f)
            a, f = memo["f"]
            y = E.Panic(x.kind, And(x.cond, subst(f, dict(zip(a, x.info)))), x.sp, x.fn, x.binders)
            return reached(ev, y)
        for i in todo:
            def t(i=i):
                c.index = col
                try: v, _, ev = c.call(i, c.sym(i), opaque=lambda h: h["path"] in cut and h["path"] != c.name(i))
                finally: c.index = base
                if ev.unknown: return Verdict(UNDECIDED, "unmodelled: %s" % str(ev.unknown[0])[:160])
                bad = []
                for x in ev.panics:
                    r, ok = excluded(ev, x, hook=hook)
                    if not ok: bad.append((x, r))
                if not bad: return Verdict(PROVED, "%d panic sites in %d functions, none reachable" % (len(ev.panics), len(ev.visited)))
                sp = c.space(c.vars(i, c.sym(i)))
                bad = [(x, r) if x.kind != "unchecked ring" else (x, inside(ev, x)) for x, r in bad]
                def test(m):
                    for x, r in bad:
                        m.memo = {}
                        try:
                            if m.ev(r, {}): return ("%s at %s in %s" % (x.kind, x.sp, x.fn), "")
                        except interp.DontCare: continue
                    return None
                sp.steer(*[r for _, r in bad])
                m, dd, tried, why = decide.refute(sp, test)
                if m is not None: return Verdict(REFUTED, "reaches a panic: %s" % dd[0], {"form": dd[0], "values": sp.describe(m)})
                return Verdict(UNDECIDED, "%s not excluded; none of %d interpretations reaches it%s" % (", ".join("%s at %s" % (x.kind, x.sp) for x, _ in bad[:3]), tried, "; " + why if why else ""))
            c.ob("%s never panics" % "::".join(c.name(i).split("::")[-3:]), i, "panic reachability", t); n += 1
        c.hooks, c.contracts = saved
        if not n: c.add("entries", "entries", "src", "anchor", Verdict(UNDECIDED, "no entry point found"))
    def builders():
        c.indexed = True; base = c.index; c.index = Meets(base)
        try:
            g = Index(c)
            care = And(ieq(g.deg, mk("npow2", g.deg)), ile(Int(2), g.deg), Not(ieq0(mk("ifun", "trailing_zeros", g.deg))))
            for n in ("new_unsorted", "new"):
                def t(n=n):
                    tree, ev = g.build(n)
                    if ev.unknown: return Verdict(UNDECIDED, "unmodelled: %s" % str(ev.unknown[0])[:160])
                    try: return Verdict(PROVED, "%d panic sites excluded: %s" % (len(ev.panics), packing(c, g, tree, ev, lambda x: True, list(ev.panics), care)))
                    except No as e: why = str(e)
                    conds = [(x, reached(ev, x, care)) for x in ev.panics]
                    conds = [(x, k) for x, k in conds if k is not FALSE and not decide.impossible(k)]
                    if not conds: return Verdict(PROVED, "no panic site is reachable")
                    return hunt(g, conds, [tree], why, lambda m: None)
                c.ob("Flatbush::%s with a degree that is a power of two >= 2 never panics" % n, g.fn(n), "panic reachability", t)
            def key():
                import rules6
                # the keys of the index: of any box or none in any total box
                H = c.one("Hilbert", "new", private=True); K = c.one("Hilbert", "safe_hilbert", private=True)
                e_, p_ = Var("env"), Var("pos"); vs = {e_: c.argty(H, 0), p_: c.argty(K, 1)}
                h, _, e1 = c.call(H, [e_]); _, _, e2 = c.call(K, [h, p_])
                evs = [(H, e1), (K, e2)]
                def t():
                    bad = [(i, ev, x) for i, ev in evs for x in ev.panics if not excluded(ev, x)[1]]
                    if not bad: return Verdict(PROVED, "%d panic sites" % sum(len(ev.panics) for _, ev in evs))
                    for i, ev, x in bad:
                        r = decide.never(p, reached(ev, x), c.space(vs))
                        if r.status == REFUTED: return r
                    return Verdict(UNDECIDED, "%d panic sites not excluded" % len(bad))
                c.ob("computing curve keys never panics", evs[0][0], "panic reachability", t)
            each(c, key)
        finally: c.index = base
    def hunt(g, conds, terms_, why, prep, extra=()):
        def test(m):
            prep(m)
            for x, k in conds:
                m.memo = {}
                try:
                    if m.ev(k, {}): return ("%s at %s" % (x.kind, x.sp), "no panic")
                except interp.DontCare: continue
            return None
        vs = {g.items: g.tokens, g.deg: g.degrees}; vs.update(dict(extra))
        r = g.refute(test, vs, terms_ + [k for _, k in conds])
        if r.status == REFUTED: r.how = "reaches a panic: %s" % r.witness.get("found")
        else: r.how += " (%s)" % why
        return r
    def queries():
        c.indexed = True; base = c.index; c.index = Meets(base)
        try:
            g = Index(c); d = c.pl
            c.ixmeets = c.index.ix.meets
            from rules1 import into
            E1 = [t["s"] for t in p.tys if t["k"] == "adt" and t["path"].endswith("planar::primitives::envelope::Envelope") and t["s"].endswith("<C>")]
            def q1():
                i = g.fn("find_intersection_candidates"); q = Var("q")
                qq = mk("into", E1[0], q) if c.argty(i, 1)["k"] == "param" else q
                return i, [g.self_, q], Query(c, g, qq), {q: g.qbox}
            def q2(): return g.fn("find_self_intersection_candidates"), [g.self_], SelfJoin(c, g), {}
            def q3(): return g.fn("find_other_rtree_intersection_candidates"), [g.self_, g.other], Join(c, g), {}
            def built(g, conds, why, extra):
                it2, d2 = Var("items2"), Var("degree2")
                A = [g.build(n)[0] for n in ("new_unsorted", "new")]
                B = [subst(x, {g.items: it2, g.deg: d2}) for x in A]
                def prep(m):
                    m.vals[g.self_] = m.value(A[m.seed % 5 == 0])
                    if len(extra) == 0: m.vals[g.other] = m.value(B[m.seed % 7 == 0])
                ex = dict(extra)
                if not extra: ex.update({it2: g.tokens, d2: g.degrees})
                return hunt(g, conds, A + B, why, prep, ex)
            for mkq in (q1, q2, q3):
                try: i, args, spec, extra = mkq()
                except Skip: continue
                def t(i=i, args=args, spec=spec, extra=extra):
                    v, ev = g.query(p.insts[i]["name"], *args)
                    if ev.unknown: return Verdict(UNDECIDED, "unmodelled: %s" % str(ev.unknown[0])[:160])
                    try: return Verdict(PROVED, "%d panic sites excluded; %s" % (len(ev.panics), traversal(c, g, v, ev, spec, list(ev.panics))))
                    except No as e: why = str(e)
                    conds = [(x, reached(ev, x)) for x in ev.panics]
                    conds = [(x, k) for x, k in conds if k is not FALSE and not decide.impossible(k)]
                    if not conds: return Verdict(PROVED, "no panic site is reachable")
                    return built(g, conds, why, extra)
                c.ob("Flatbush::%s never panics" % p.insts[i]["name"], i, "panic reachability", t)
            def acc():
                t_ = Tree(c, g, g.self_)
                facts = And(ipos(seqlen(t_.levels)), ipos(seqlen(t_.tree)))
                for nm, pick, args in (("root_node", None, 1), ("envelope", "HasEnvelope", 1), ("find_candidates_within", None, 3)):
                    i = c.one(rules5.FB, nm, pick) if pick else g.fn(nm)
                    def t(i=i):
                        op = lambda h: h["name"] == "find_intersection_candidates" and h["path"] != c.name(i)
                        v, _, ev = c.call(i, [g.self_] + c.sym(i)[1:], opaque=op)
                        bad = [x for x in ev.panics if not excluded(ev, x, facts)[1]]
                        if not bad: return Verdict(PROVED, "%d panic sites excluded: a built index has a level and a node" % len(ev.panics))
                        return built(g, [(x, reached(ev, x)) for x in bad], "sites not excluded", {v_: t_ for v_, t_ in c.vars(i, c.sym(i)).items() if v_.args[0] != "self"})
                    c.ob("Flatbush::%s never panics" % nm, i, "panic reachability", t)
            each(c, acc)
        finally: c.index = base
    def rings():
        base, ind = c.index, c.indexed
        if base is not None: c.index = Meets(base)
        c.indexed = True
        try: rules9.ringrule(c, ("calm",))
        finally: c.index, c.indexed = base, ind
    each(c, entries, builders, queries, rings)
