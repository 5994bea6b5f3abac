"""Running obligations and collecting their outcome."""
import os, sys, time, signal, json, traceback
from terms import *
import eval as E, decide
from decide import Verdict, Space, PROVED, REFUTED, UNDECIDED
from spec import *
from contracts import IndexContract

class TO(BaseException): pass
def _al(*a): raise TO()

class Ob(object):
    __slots__ = ("label", "fn", "loc", "rule", "v", "t")
    def __init__(self, label, fn, loc, rule, v, t): self.label, self.fn, self.loc, self.rule, self.v, self.t = label, fn, loc, rule, v, t
    def key(self):
        """what identifies a finding: the obligation, the function, and what the function does instead"""
        import hashlib
        w = self.v.witness or {}
        return hashlib.sha1(("%s|%s|%s" % (self.label, self.fn.split("::")[-1], w.get("form", ""))).encode()).hexdigest()[:12]

class Ctx(object):
    def __init__(self, p, prop, tier, seed=1):
        self.seed = (seed - 1) * 100003
        self.p = p; self.prop = prop; self.tier = tier
        self.obs = []; self.visited = set(); self.callsites = 0; self.loops = 0; self.notes = []
        self.voc = Voc(p)
        try:
            self.pl = Dim(self.voc, "planar"); self.li = Dim(self.voc, "linear")
        except Layout: pass
        self.contracts = {}; self.hooks = {}; self.indexed = False; self.opaque_default = None
        self.trials = 4000 if tier == "quick" else 60000
        self.t0 = time.time(); self.total = 500 if tier == "quick" else 800
        self.fixups = make_fixups(p, self)
        try: self.index = IndexContract(p)
        except Layout: self.index = None
    # time for a search and for an obligation: generous at first, less when many obligations stay open
    @property
    def left(self): return self.total - (time.time() - self.t0)
    @property
    def refute_limit(self): return max(1.0, min(20 if self.tier == "quick" else 60, self.left / 10))
    @property
    def limit(self): return max(5.0, min(75 if self.tier == "quick" else 240, self.left / 4))
    # -------------------------------------------------- functions
    def loc(self, i):
        f = self.p.insts[i]
        return f["sp"]
    def name(self, i): return self.p.insts[i]["path"]
    def find(self, typ, name, trait=None, pick=None):
        """the one method called name of typ; None records a violation"""
        c = self.p.find(typ, name, trait)
        if pick: c = [i for i in c if pick(self.p.insts[i])]
        return c
    def one(self, typ, name, trait=None, pick=None, private=False):
        c = self.find(typ, name, trait, pick)
        if len(c) == 1: return c[0]
        lab = "%s::%s" % (typ, name)
        if not c and not private:
            self.add("item " + lab, lab, "src", "anchor", Verdict(REFUTED, "the public item does not exist any more", {"missing": lab}))
        else:
            self.add("item " + lab, lab, "src", "anchor", Verdict(UNDECIDED, "%d candidates" % len(c)))
        raise Skip()
    def argty(self, i, n): return self.p.tys[self.p.insts[i]["locals"][n + 1]]
    def retty(self, i): return self.p.tys[self.p.insts[i]["locals"][0]]
    def sym(self, i, names=None):
        """positional symbols for the arguments of a function"""
        f = self.p.insts[i]
        nm = {l: n for l, n in f["names"]}
        out = []
        for k in range(f["argc"]):
            n = (names[k] if names else None) or ("self" if nm.get(k + 1) == "self" else "a%d" % k)
            out.append(Var(n))
        return out
    def vars(self, i, args):
        return {a: self.argty(i, k) for k, a in enumerate(args) if a.op == "var"}
    # -------------------------------------------------- evaluation
    def ev(self, opaque=None): 
        return E.Ev(self.p, opaque=opaque, contract=self.index if self.indexed else None)
    def call(self, i, args, opaque=None, ev=None):
        """(value, contents of &mut arguments afterwards, evaluator)"""
        ev = ev or self.ev(opaque or self.opaque_default)
        v, st, cells = ev.call_sym(i, args)
        self.visited |= ev.visited; self.callsites += ev.callsites; self.loops += len(ev.loops)
        self.notes += [n for n in ev.unknown if n not in self.notes]
        return v, [st.mem.get(c) if st is not None else BOT for c in cells], ev
    def call_opaque(self, i, args, op):
        """the opaque call of function i, as a caller sees it"""
        ev = self.ev(op or self.opaque_default)
        st = E.St(TRUE, {})
        return ev.opaque_call(self.p.insts[i], None, list(args), st, None)[0]
    def space(self, vars, pre=TRUE, **kw):
        c = dict(self.contracts); c.update(kw.pop("contracts", {}))
        kw.setdefault("trials", self.trials); kw.setdefault("lo", self.seed)
        s = Space(self.p, vars, pre, contracts=c, hooks=self.hooks, fixups=self.fixups, **kw)
        s.limit = self.refute_limit
        s.body = self.body; s.envbody = self.envbody
        return s
    def body(self, path):
        """what a local function computes, for interpreting an opaque call of it: (arguments, value)"""
        m = self.__dict__.setdefault("_bodies", {})
        if path not in m:
            m[path] = None
            c = [i for i, f in enumerate(self.p.insts) if f["path"] == path and i in self.p.lib]
            if len(c) == 1 and not any(self.argty(c[0], k)["k"] == "ref" and self.argty(c[0], k)["mut"] for k in range(self.p.insts[c[0]]["argc"])):
                args = [fresh("arg") for _ in range(self.p.insts[c[0]]["argc"])]
                try:
                    ev = E.Ev(self.p, opaque=self.opaque_default, contract=self.index)
                    v, _, _ = ev.call_sym(c[0], args)
                    m[path] = (args, v)
                except E.Unsupported: pass
        return m[path]
    def envbody(self, path):
        """the envelope of a type of the crate, by its own implementation"""
        if not path.startswith("magog::"): return None
        i = self.p.find(path.replace("magog::", "", 1), "envelope", "HasEnvelope")
        return self.body(self.name(i[0])) if len(i) == 1 else None
    # -------------------------------------------------- obligations
    def add(self, label, fn, loc, rule, v, t=0.0): self.obs.append(Ob(label, fn, loc, rule, v, t))
    def ob(self, label, i, rule, f):
        """run one obligation; anything outside the analysis' reach leaves it undecided"""
        t0 = time.time()
        fn, loc = (self.name(i), self.loc(i)) if isinstance(i, int) else (str(i), "src")
        try:
            signal.signal(signal.SIGALRM, _al); signal.alarm(int(self.limit))
            try: v = f()
            finally: signal.alarm(0)
        except Skip: return
        except TO: v = Verdict(UNDECIDED, "time limit")
        except Layout as e: v = Verdict(UNDECIDED, "layout: %s" % e)
        except (E.Unsupported, RecursionError, NotImplementedError) as e: v = Verdict(UNDECIDED, "not modelled: %s" % str(e)[:200])
        except Exception as e:
            if os.environ.get("MAGOG_TB"): traceback.print_exc()
            v = Verdict(UNDECIDED, "analysis error %s: %s" % (type(e).__name__, str(e)[:160]))
        if v is not None: self.add(label, fn, loc, rule, v, time.time() - t0)
    def eq(self, label, i, want, got=None, pre=TRUE, opaque=None, rule="value", vars=None, ty=None, exact=False, mutarg=None, noabort=True, contracts=None, **kw):
        """the value of function i on symbolic arguments equals want(*args)"""
        def f():
            args = self.sym(i)
            v, cells, ev = self.call(i, args, opaque)
            if mutarg is not None: g = cells[mutarg]
            else: g = v
            if got: g = got(g, *args)
            w = want(*args)
            t = ty or (self.retty(i) if mutarg is None else self.argty(i, 0))
            vs = dict(self.vars(i, args)); vs.update(vars or {})
            sp = self.space(vs, pre(*args) if callable(pre) else pre, contracts=contracts or {}, **kw)
            return decide.compare(self.p, g, w, t, sp, exact=exact)
        self.ob(label, i, rule, f)

class Skip(Exception): pass

def reached(ev, x, pre=TRUE):
    """the condition under which panic site x is reached in some round of the loops around it"""
    cond = x.cond; bs = list(x.binders)
    def close(cond, k):
        b = bs[k:]
        return exists([v for v, _ in b], [d for _, d in b], cond) if b else cond
    done = set()
    for _ in range(20):
        fvs = set(fv(cond))
        for _, d in bs: fvs |= fv(d)
        rs = []
        for r in ev.loops:
            s = getattr(r, "sys", None)
            if s and id(r) not in done and fvs & set(s[0]): rs.append(r)
        if not rs: break
        # innermost: no other one depends on its state
        def dep(a, b): return bool(set(a.sys[0]) & set().union(*[fv(t) for t in b.sys[1]]))
        inner = [r for r in rs if not any(q is not r and dep(r, q) for q in rs)]
        r = max(inner or rs, key=lambda q: len(q.ctx))
        done.add(id(r))
        cond = close(cond, len(r.ctx)); bs = bs[:len(r.ctx)]
        raw, inits, back, nexts = r.sys
        cond = whex(list(raw), tuple(inits), back, tuple(nexts), cond)
    return And(pre, close(cond, 0))

class Skip(Exception): pass

def each(ctx, *fs):
    for f in fs:
        try: f()
        except Skip: pass
        except Layout as e: ctx.add(f.__name__, f.__name__, "src", "anchor", Verdict(UNDECIDED, "layout: %s" % e))

# ---------------------------------------------------------------- consistent values for interpretation
def make_fixups(p, ctx):
    """values of the geometry types carry the box of their parts (property C10)"""
    import interp
    fx = {}
    def P(suf):
        c = [k for k in p.adts if k.startswith("magog::") and k.endswith("::" + suf)]
        return c[0] if len(c) == 1 else None
    def idx(path, v, pred):
        return [j for j, f in enumerate(p.adts[path]["variants"][v]["fields"]) if pred(p.tys[f[1]], f[0])]
    def merge(a, b):
        if a[2] == 0: return b
        if b[2] == 0: return a
        f = lambda g, x, y: x[:3] + tuple(g(s, t) for s, t in zip(x[3:], y[3:]))
        return a[:3] + (f(interp.r_min, a[3], b[3]), f(interp.r_max, a[4], b[4]))
    def setup(dim):
        ep = P(dim + "::primitives::envelope::Envelope")
        if not ep: return
        vs = p.adts[ep]["variants"]
        if [v["name"] for v in vs] != ["Empty", "Bounds"] or [f[0] for f in vs[1]["fields"]] != ["min", "max"]: return
        def boxof(v, ep=ep):
            """box of a value of the model"""
            if v[0] == "L":
                r = ("A", ep, 0)
                for x in v[1:]: r = merge(r, boxof(x))
                return r
            if v[0] != "A": return ("A", ep, 0)
            h = v[1].split("::")[-1]
            if v[1] == ep: return v
            if h == "Position": return ("A", ep, 1, v, v)
            if h == "Segment": return merge(boxof(v[3]), boxof(v[4]))
            if h == "Polygon": return boxof(v[3])
            if v[1] == OPTION: return boxof(v[3]) if v[2] == 1 else ("A", ep, 0)
            if h in ("Point", "LineString", "MultiPoint", "MultiLineString", "MultiPolygon", "Line", "MultiLine"): return boxof(v[3])
            return ("A", ep, 0)
        def fix(m, v, ep=ep, boxof=boxof):
            path = v[1]
            es = idx(path, v[2], lambda t, n: t.get("path") == ep)
            if len(es) == 1:
                j = es[0]
                v = v[:3 + j] + (boxof(v),) + v[4 + j:]
            return v
        for t in ("types::line_string::LineString", "types::polygon::Polygon", "types::multi_point::MultiPoint", "types::multi_line_string::MultiLineString",
                  "types::multi_polygon::MultiPolygon", "types::multipoint::MultiPoint", "types::multiline::MultiLine"):
            q = P(dim + "::" + t)
            if q: fx[q] = fix
        def envfix(m, v):
            if v[2] == 1 and (ctx.prop != "C05" or m.rng.random() < 0.8):
                a, b = v[3], v[4]
                if a[0] == "A" and len(a) == len(b):
                    v = v[:3] + (a[:3] + tuple(interp.r_min(x, y) for x, y in zip(a[3:], b[3:])), a[:3] + tuple(interp.r_max(x, y) for x, y in zip(a[3:], b[3:])))
            return v
        fx[ep] = envfix
    setup("planar"); setup("linear")
    return fx
