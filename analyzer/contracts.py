"""What the spatial index promises its callers (properties C25-C28), used when a caller of the index is analysed.

An index is the term rtree(boxes, degree); the self-join is the sequence of the pairs i < j of items whose boxes
meet, the join of two indexes the sequence of the pairs (i, j) whose boxes meet."""
from terms import *
import eval as E
from spec import Voc, Dim, mapseq, fresh

FB = "flatbush::Flatbush"
HE = "HasEnvelope"
class IndexContract(object):
    def __init__(self, p):
        self.p = p
        self.d = Dim(Voc(p), "planar")
    def meets(self, a, b):
        """the closed-box predicate of C02, kept as one atom"""
        return meets(a, b)
    def boxes(self, ev, st, seq, elty):
        """the boxes of the items, by their own HasEnvelope implementation"""
        p = self.p
        if elty["k"] == "ref": elty = p.tys[elty["t"]]
        if elty["k"] != "adt": return None
        c = p.find(elty["path"].replace("magog::", "", 1), "envelope", HE)
        if len(c) != 1: return None
        x = Var("item")
        v, _, _ = E.Ev(p).call_sym(c[0], [x])
        k = fresh("k")
        return comp([k], [seqlen(seq)], TRUE, E.lift_nc(lambda y: y, subst(v, {x: at(seq, k)})))
    def itemty(self, inst):
        t = self.p.tys[inst["locals"][1]]
        while t["k"] in ("ref", "slice", "array"): t = self.p.tys[t["t"]]
        if t["k"] == "adt" and t["path"] in ("alloc::vec::Vec",): t = self.p.tys[t["args"][0]]
        return t
    def __call__(self, ev, inst, cal, args, st):
        if inst["selfty"] and "planar::primitives::envelope::Envelope" in inst["selfty"] and inst["name"] == "intersects" and len(args) == 2:
            a, b = [ev.deref(st, x) for x in args]
            t = self.p.tys[inst["locals"][2]]
            while t["k"] == "ref": t = self.p.tys[t["t"]]
            return self.meets(a, b) if t["k"] == "adt" and t["path"].endswith("::Envelope") else None
        if not (inst["selfty"] and FB in inst["selfty"]): return None
        n = inst["name"]; d = self.d
        if n in ("new", "new_unsorted") and len(args) == 2:
            seq = ev.deref(st, args[0])
            b = self.boxes(ev, st, seq, self.itemty(inst))
            if b is None: return None
            return mk("rtree", b, ev.deref(st, args[1]))
        if n == "new_empty": return mk("rtree", lit(), Int(8))
        if n.startswith("find_") or n == "envelope":
            a = [ev.deref(st, x) for x in args]
            def one(t):
                if t.op != "rtree": return None
                b = t.args[0]
                if n == "envelope": return d.mergeall(b)
                if n == "find_self_intersection_candidates":
                    i, j = fresh("k"), fresh("k")
                    m = seqlen(b)
                    return comp([j, i], [m, j], self.meets(at(b, i), at(b, j)), tup(i, j))
                return None
            if n == "find_other_rtree_intersection_candidates":
                if a[0].op != "rtree" or a[1].op != "rtree": return None
                x, y = a[0].args[0], a[1].args[0]
                i, j = fresh("k"), fresh("k")
                return comp([i, j], [seqlen(x), seqlen(y)], self.meets(at(x, i), at(y, j)), tup(i, j))
            return one(a[0]) if a else None
        return None
