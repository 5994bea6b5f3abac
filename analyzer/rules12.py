"""C91: the curve key is a Hilbert curve."""
from base import *
import random
from bits import Bits, TooBig, NoBits
RULES = {}
def rule(pid):
    def d(f): RULES[pid] = f; return f
    return d
N = 16

def curves(B, x, y):
    """the keys of the Hilbert curve on the 2^16 grid in its eight positions: a transducer reading the two coordinates
    from the highest bit on, whose states are the turns of the remaining square; digit by digit the numbering of the quarters
    0 (0,0) 1 (0,1) 2 (1,1) 3 (1,0), first and last quarter turned"""
    for o in range(8):
        X, Y = (y, x) if o & 1 else (x, y)
        fx, fy = o >> 1 & 1, o >> 2 & 1
        sw, inv = 0, 0; key = [0] * 32
        for k in range(N - 1, -1, -1):
            p, q = B.XOR(X[k], fx), B.XOR(Y[k], fy)
            rx, ry = B.XOR(B.ite(sw, q, p), inv), B.XOR(B.ite(sw, p, q), inv)
            key[2 * k + 1] = rx; key[2 * k] = B.XOR(rx, ry)
            turn = B.NOT(ry)
            inv = B.XOR(inv, B.AND(turn, rx)); sw = B.XOR(sw, turn)
        yield o, key

@rule("C91")
def c91(c):
    i = c.one("Hilbert", "hilbert_normalized", private=True)
    x, y = Var("x"), Var("y")
    def t():
        v, _, evs = c.call(i, [x, y])
        B = Bits()
        # the highest bits first, the two coordinates side by side
        bx = [B.var(2 * (N - 1 - k)) for k in range(N)] + [0] * 16; by = [B.var(2 * (N - 1 - k) + 1) for k in range(N)] + [0] * 16
        try: key = B.vec(v, {x: bx, y: by}, {})
        except NoBits as e: return Verdict(UNDECIDED, "not a function of bits: %s" % e)
        except TooBig: return Verdict(UNDECIDED, "the bits of the key depend on the coordinates in too complicated a way")
        value = lambda a, b: sum(B.at(f, lambda l: (b if l & 1 else a) >> (N - 1 - l // 2) & 1) << n for n, f in enumerate(key))
        diffs = []
        wants = list(curves(B, bx, by))
        for o, want in wants:
            if all(f == w for f, w in zip(key, want)): return Verdict(PROVED, "the 32 bit functions are those of the Hilbert curve (position %d of 8, %d diagram nodes): each state numbers its quarters along a path, and its turned quarters begin and end next to each other" % (o, len(B.node)))
            try: diffs += [d for d in [B.XOR(f, w) for f, w in zip(key, want)] if d]
            except TooBig: pass
        # not a Hilbert curve: a cell without successor or predecessor next to it
        rng = random.Random(c.seed + 91); top = 1 << N
        def bad(a, b):
            k = value(a, b); near = [(a + p, b + q) for p, q in ((1, 0), (-1, 0), (0, 1), (0, -1)) if 0 <= a + p < top and 0 <= b + q < top]
            ks = [value(*m) for m in near]
            if k in ks: return ("cells (%d, %d) and %s" % (a, b, near[ks.index(k)]), "both have the key %d" % k)
            if k != 2 ** 32 - 1 and k + 1 not in ks: return ("cell (%d, %d)" % (a, b), "its key is %d, no cell next to it has the key %d; they have %s" % (k, k + 1, ks))
            if k != 0 and k - 1 not in ks: return ("cell (%d, %d)" % (a, b), "its key is %d, no cell next to it has the key %d; they have %s" % (k, k - 1, ks))
            return None
        n = 0
        def cells():
            for _ in range(200): yield rng.randrange(top), rng.randrange(top)
            for d in diffs:
                for asg in B.paths(d, 12, rng):
                    a = b = 0
                    for l in range(2 * N):
                        bit = asg.get(l, rng.randrange(2))
                        if l & 1: b = b * 2 + bit
                        else: a = a * 2 + bit
                    for p, q in ((0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)):
                        if 0 <= a + p < top and 0 <= b + q < top: yield a + p, b + q
        for a, b in cells():
            n += 1; w = bad(a, b)
            if w: return Verdict(REFUTED, "the key is not a numbering of the grid along neighbouring cells", {"values": w[0], "found": w[1], "required": "consecutive keys on neighbouring cells", "form": ""})
        return Verdict(UNDECIDED, "not the Hilbert curve in any position; %d cells have their successor and predecessor next to them" % n)
    c.ob("the curve key numbers the cells of the grid along a Hilbert curve", i, "bit functions", t)
