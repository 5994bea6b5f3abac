"""C29, C38: the curve key and the degree of the index."""
from base import *
from fractions import Fraction
import math, interp
import rules5
from rules5 import Index, Meets, indexrule, curve, leaves, fields, FB
RULES = {}
def rule(pid):
    def d(f):
        def g(c):
            if c.index is not None: c.index = Meets(c.index)
            c.indexed = True
            return f(c)
        RULES[pid] = g; return g
    return d
MAX = 2 ** 32 - 1

def nopanic(c, label, i, evs, vars, pre=TRUE, kinds=None, rule="reachability"):
    """no reachable panic of these evaluations"""
    for e in evs:
        for x in e.panics:
            if kinds and not any(x.kind.startswith(k) for k in kinds): continue
            def t(x=x):
                cond = And(pre, x.cond)
                b = x.binders
                if b: cond = exists([k for k, _ in b], [d for _, d in b], cond)
                return decide.never(c.p, cond, c.space(vars))
            c.ob("%s: %s at %s is never reached" % (label, x.kind, x.fn.split("::")[-1]), i, rule, t)

def assume_false(x, c):
    """x where the atom c fails"""
    return restrict(x, Not(c))

@rule("C29")
def c29(c):
    d = c.pl; g = Index(c)
    H = c.one("Hilbert", "new", private=True); K = c.one("Hilbert", "safe_hilbert", private=True)
    N = c.one("Hilbert", "hilbert_normalized", private=True)
    within = c.one(d.Ev, "contains")
    op = lambda inst: inst["name"] == "hilbert_normalized" or inst["name"] == "contains" and c.name(within) == inst["path"]
    env, pos = Var("env"), Var("pos")
    def key(e, p):
        """the key of a box with centre p in the total box e"""
        lo, hi, P = d.coords(d.lo(e)), d.coords(d.hi(e)), fld(p, 1, 0)
        xs = []
        for l, h, q in zip(lo, hi, d.coords(P)):
            dd = rsub(h, l)
            xs.append(E.lift_nc(lambda v: mk("toint", "u32", v), rfloor(rmul(ite(flt(Num(0), dd), rdiv(Num(65535), dd), Num(0)), rsub(q, l)))))
        n = c.call_opaque(N, [fld(x, 1, 0) for x in xs], op)
        some = And(*[isvar(x, 1, 2) for x in xs])
        inside = c.call_opaque(within, [e, P], op)
        return ite(And(isvar(p, 1, 2), Not(d.isempty(e)), inside), ite(some, n, Int(MAX)), Int(MAX))
    def total():
        def t():
            h, _, e1 = c.call(H, [env], opaque=op)
            v, _, e2 = c.call(K, [h, pos], opaque=op)
            # a box of one position has no extent on any axis
            flat = And(*[feq(a, b) for a, b in zip(d.coords(d.hi(env)), d.coords(d.lo(env)))])
            zero = {rsub(b, a): Num(0) for a, b in zip(d.coords(d.lo(env)), d.coords(d.hi(env)))}
            w = key(env, pos)
            # no position lies in the empty box (C02)
            v = ite(d.isempty(env), assume_false(v, c.call_opaque(within, [env, fld(pos, 1, 0)], op)), v)
            for want in (w, ite(And(Not(d.isempty(env)), flat), subst(w, zero), w)):
                r = decide.compare(c.p, v, want, c.retty(K), c.space({env: c.argty(H, 0), pos: c.argty(K, 1)}, trials=1 if want is w else None) if want is w else c.space({env: c.argty(H, 0), pos: c.argty(K, 1)}))
                if r.status == PROVED: break
                x, y = decide.poly(v, quot=True), decide.poly(want, quot=True)
                if x is y: return Verdict(PROVED, "identical polynomial normal forms")
            return r
        c.ob("the curve key scales a usable centre per axis to the 16-bit grid and is the maximum otherwise", K, "value", t)
    def safe():
        h, _, e1 = c.call(H, [env]); v, _, e2 = c.call(K, [h, pos])
        vs = {env: c.argty(H, 0), pos: c.argty(K, 1)}
        n = len(c.obs)
        nopanic(c, "the curve key", K, (e1, e2), vs)
        if len(c.obs) == n: c.ob("the curve key has no panicking path", K, "reachability", lambda: Verdict(PROVED, "no panic site is reachable in %d functions" % len(e1.visited | e2.visited)))
    def order():
        i = g.fn("new")
        def t():
            v, _, ev = c.call(i, [g.items, g.deg], opaque=curve)
            k = fresh("k")
            box = lambda x: mk("envof", x)
            tot = d.mergeall(comp([k], [seqlen(g.items)], TRUE, box(at(g.items, k))))
            h = c.call_opaque(H, [tot], curve)
            cen, _, _ = c.call(c.one(d.Ev, "center"), [box(at(g.items, k))])
            want = comp([k], [seqlen(g.items)], TRUE, c.call_opaque(K, [h, cen], curve))
            ss = [x for x in walk(v) if x.op in ("sorted", "usorted")]
            w = restrict(want, Not(d.isempty(tot)))
            ok = [x for x in ss if len(x.args) > 1 and isinstance(x.args[1], T) and (x.args[1] is want or restrict(x.args[1], Not(d.isempty(tot))) is w)]
            # sorted in every case, not only under some condition
            P = {x: mk("placed", x) for x in ss}
            some = lambda x: x is not None and isinstance(x, T) and any(y.op == "placed" for y in walk(x))
            vv = subst(restrict(v, Not(d.isempty(tot))), {**P, **{restrict(x, Not(d.isempty(tot))): mk("placed", x) for x in ss}})
            cond = [x for x in walk(vv) if x.op == "ite" and some(x.args[1]) != some(x.args[2]) and not (ieq0(seqlen(g.items)) is mk("ite", x.args[0], TRUE, FALSE) or ipos(seqlen(g.items)) is mk("ite", x.args[0], TRUE, FALSE))]
            if ss and len(ok) == len(ss) and some(vv) and not cond: return Verdict(PROVED, "%d sort of the leaves, by the key of each item's centre in the total box, ascending" % len(ss))
            full, _, _ = c.call(i, [g.items, g.deg], opaque=op)
            n = mk("call", c.name(N), Var("kx"), Var("ky"))
            fs = fields(c)
            def test(m):
                t = m.value(full)
                if not (isinstance(t, tuple) and t[0] == "A"): return None
                bs = g.boxes(m, m.vals[g.items]); tot = None
                for b in bs:
                    if b[2] == 0: continue
                    tot = b if tot is None else b[:3] + (b[3][:3] + tuple(map(min, tot[3][3:], b[3][3:])), b[4][:3] + tuple(map(max, tot[4][3:], b[4][3:])))
                if tot is None: return None
                ks = []
                for node in t[3 + fs["tree"]][1:1 + len(bs)]:
                    b = bs[node[1]] if node[1] < len(bs) else None
                    if b is None or b[2] == 0: ks.append(MAX); continue
                    xy = []
                    for l, h, p, q in zip(tot[3][3:], tot[4][3:], b[3][3:], b[4][3:]):
                        s = Fraction(65535) / (h - l) if h > l else Fraction(0)
                        xy.append(math.floor(s * ((p + q) / 2 - l)))
                    ks.append(m.by_hash(m.p.ret_by_path(c.name(N)), "call", c.name(N), *xy))
                return None if ks == sorted(ks) else ("leaf keys %s" % ks, "ascending")
            sp = g.space({g.items: g.tokens, g.deg: g.degrees})
            sp.contracts = {a: b for a, b in sp.contracts.items() if "::" not in a}
            sp.contracts[c.name(N)] = lambda m, *vs: m.by_hash(m.p.ret_by_path(c.name(N)), "call", c.name(N), *vs)
            sp.ends = True
            m, dd, tried, why = decide.refute(sp, test)
            if m is not None: return Verdict(REFUTED, "the leaves are not ordered by the curve key of their centres", {"values": sp.describe(m), "found": str(dd[0])[:300], "required": str(dd[1])})
            return Verdict(UNDECIDED, "sorting not recognised; none of %d interpretations differs%s" % (tried, "; " + why if why else ""))
        c.ob("Flatbush::new orders the leaves by the curve key of their centres", i, "sort key", t)
        def only():
            v, _, ev = c.call(i, [g.items, g.deg], opaque=curve)
            bad = []
            key = lambda x: x.op in ("call", "bcall") and "hilbert" in x.args[0]
            pl = rules5.plain(v)
            left = [x for x in walk(pl) if key(x)]
            if not left: return Verdict(PROVED, "no use of a key outside the order of the leaves")
            return Verdict(UNDECIDED, "a key is used outside a sort")
        c.ob("the curve key is used for the order of the leaves only", i, "dataflow", only)
    each(c, total, safe, order)

@rule("C38")
def c38(c):
    g = Index(c)
    def one(n):
        i = g.fn(n)
        ev = c.ev(curve)
        v, st, _ = ev.call_sym(i, [g.items, g.deg])
        c.visited |= ev.visited; c.callsites += ev.callsites; c.loops += len(ev.loops)
        pow2 = ieq(g.deg, mk("npow2", g.deg))
        good = And(pow2, Not(ieq0(g.deg)), Not(ieq0(mk("ifun", "trailing_zeros", g.deg))))
        def degs(m):
            r = m.rng
            return r.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 17, 18, 20, 24, 28, 31, 32, 33, 36, 40, 48, 63, 64, 65, 96, 100, 127, 128, 129, 192, 255, 256, 257, 384, 512, 768, 1000, 1024, 3 << 20, 1 << 40, (1 << 40) + 1, 3 << 61, 5 << 60))
        def refused():
            pc = FALSE if st is None else st.pc
            return decide.never(c.p, And(Not(pow2), pc), g.space({g.items: g.tokens, g.deg: degs}))
        c.ob("Flatbush::%s returns only for a degree that is a power of two" % n, i, "reachability", refused)
        def kept():
            fs = fields(c)
            out = []
            for pc, x in leaves(restrict(v, ipos(seqlen(g.items))), ipos(seqlen(g.items))):
                if x.op != "adt": return Verdict(UNDECIDED, "not a constructed index")
                e = x.args[2 + fs["degree"]]
                if restrict(e, pc) is not g.deg: out.append(e)
            if not out: return Verdict(PROVED, "the degree given is the degree recorded")
            return decide.compare(c.p, out[0], g.deg, c.argty(i, 1), g.space({g.items: g.tokens, g.deg: degs}, ) )
        c.ob("Flatbush::%s records the degree unchanged" % n, i, "value", kept)
        def accepted():
            bad = None; k = 0
            for x in ev.panics:
                if x.kind in ("bounds", "slice", "underflow"): continue            # C37
                k += 1
                q = And(good, x.cond)
                if q is FALSE: continue
                r = decide.never(c.p, exists([b for b, _ in x.binders], [e for _, e in x.binders], q) if x.binders else q, g.space({g.items: g.tokens, g.deg: degs}))
                if r.status == REFUTED:
                    r.how = "%s at %s reached with a supported degree" % (x.kind, x.sp); return r
                bad = bad or "%s at %s" % (x.kind, x.sp)
            return Verdict(UNDECIDED, bad) if bad else Verdict(PROVED, "the conditions of %d panic sites exclude powers of two from 2 on" % k)
        c.ob("Flatbush::%s accepts every power of two from 2 on" % n, i, "reachability", accepted)
    each(c, lambda: one("new_unsorted"), lambda: one("new"))
