"""Vocabulary for stating requirements as value graphs, independent of how /repo writes them."""
from terms import *
import eval as E
from models import isnan_, usorted

class Layout(Exception): pass

class Voc(object):
    """constructors and selectors of the crate's types, by name"""
    def __init__(self, p): self.p = p
    def path(self, suf):
        c = [k for k in self.p.adts if k.startswith("magog::") and (k.endswith("::" + suf) or k == suf)]
        if len(c) != 1: raise Layout("type " + suf + " not found")
        return c[0]
    def variant(self, path, name):
        for i, v in enumerate(self.p.adts[path]["variants"]):
            if v["name"] == name: return i, v
        raise Layout("variant %s of %s" % (name, path))
    def nvar(self, path): return len(self.p.adts[path]["variants"])
    def con(self, suf, variant=None, *fs, **kw):
        path = self.path(suf)
        i, v = self.variant(path, variant or suf.split("::")[-1])
        names = [f[0] for f in v["fields"]]
        if fs: vals = list(fs)
        else:
            vals = []
            for n in names:
                if n not in kw: raise Layout("field %s of %s" % (n, path))
                vals.append(kw[n])
        if len(vals) != len(names) or set(kw) - set(names): raise Layout("fields of " + path)
        return lift(("con", path, i), lambda *x: adt(path, i, *x), *vals) if False else adt(path, i, *vals)
    def get(self, v, suf, field, variant=None):
        path = self.path(suf)
        i, d = self.variant(path, variant or suf.split("::")[-1])
        for j, f in enumerate(d["fields"]):
            if f[0] == field: return E.lift_nc(lambda x: fld(x, i, j), v)
        # a renamed private field: the only one that is not a cached box
        c = [j for j, f in enumerate(d["fields"]) if not self.p.tys[f[1]].get("path", "").endswith("::Envelope")]
        if len(c) == 1 and not d["fields"][c[0]][2]: return E.lift_nc(lambda x: fld(x, i, c[0]), v)
        raise Layout("field %s of %s" % (field, path))
    def isv(self, v, suf, variant):
        path = self.path(suf)
        i, _ = self.variant(path, variant)
        n = self.nvar(path)
        return boolv(v, lambda x: isvar(x, i, n))

def boolv(v, f):
    """apply a predicate under the choices of v"""
    return E.lift_nc(f, v)

class Dim(object):
    """positions and boxes of the planar or the linear half"""
    def __init__(self, voc, name):
        self.v = voc; self.n = name
        self.P = name + "::primitives::position::Position"; self.Ev = name + "::primitives::envelope::Envelope"
        self.Sg = name + "::primitives::segment::Segment"
        self.axes = ["x", "y"] if name == "planar" else ["x"]
    def pos(self, *cs): return self.v.con(self.P, "Position", **dict(zip(self.axes, cs)))
    def coords(self, p): return [self.v.get(p, self.P, a) for a in self.axes]
    def start(self, s): return self.v.get(s, self.Sg, "start")
    def end(self, s): return self.v.get(s, self.Sg, "end")
    def seg(self, a, b): return self.v.con(self.Sg, "Segment", start=a, end=b)
    def pmin(self, a, b): return self.pos(*[fmin(x, y) for x, y in zip(self.coords(a), self.coords(b))])
    def pmax(self, a, b): return self.pos(*[fmax(x, y) for x, y in zip(self.coords(a), self.coords(b))])
    def peq(self, a, b): return And(*[feq(x, y) for x, y in zip(self.coords(a), self.coords(b))])
    def pfin(self, a): return And(*[isfinite(x) for x in self.coords(a)])
    def pnan(self, a): return Or(*[isnan_(x) for x in self.coords(a)])
    def box(self, lo, hi): return self.v.con(self.Ev, "Bounds", min=lo, max=hi)
    @property
    def nobox(self): return self.v.con(self.Ev, "Empty")
    def boxof(self, a, b): return self.box(self.pmin(a, b), self.pmax(a, b))
    def isempty(self, e): return self.v.isv(e, self.Ev, "Empty")
    def lo(self, e): return self.v.get(e, self.Ev, "min", "Bounds")
    def hi(self, e): return self.v.get(e, self.Ev, "max", "Bounds")
    def merge(self, a, b):
        return ite(self.isempty(a), b, ite(self.isempty(b), a,
            self.box(self.pmin(self.lo(a), self.lo(b)), self.pmax(self.hi(a), self.hi(b)))))
    def contains(self, a, b):
        c = And(Not(self.isempty(a)), Not(self.isempty(b)))
        for la, lb in zip(self.coords(self.lo(a)), self.coords(self.lo(b))): c = And(c, fle(la, lb))
        for ha, hb in zip(self.coords(self.hi(a)), self.coords(self.hi(b))): c = And(c, fle(hb, ha))
        return c
    def meets(self, a, b):
        c = And(Not(self.isempty(a)), Not(self.isempty(b)))
        for l, h in list(zip(self.coords(self.lo(a)), self.coords(self.hi(b)))) + list(zip(self.coords(self.lo(b)), self.coords(self.hi(a)))):
            c = And(c, fle(l, h))
        return c
    def mergeall(self, seq, of=lambda x: x, init=None):
        """merge of the boxes of all elements of seq"""
        a, e = fresh("acc"), fresh("el")
        return fold(a, e, seq, self.nobox if init is None else init, self.merge(a, of(e)))
def okerr(c): return ite(c, Ok(UNIT), Err(Str("error")))
def opt(c, v): return ite(c, Some(v), NONE)
def mapseq(seq, f):
    k = fresh("k")
    return comp([k], [seqlen(seq)], TRUE, f(at(seq, k)))
def nth(seq, i): return opt(ilt(i, seqlen(seq)), at(seq, i))
def forall(k, n, c): return Not(exists([k], [n], Not(c)))
