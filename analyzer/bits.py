"""Bit functions of integer terms, as canonical decision diagrams (reduced and ordered).

A term over fixed-width integers is turned into one diagram per output bit; equal functions get the same node, so
comparing two terms is comparing node numbers.  Nothing is searched or solved."""

class TooBig(Exception): pass
class NoBits(Exception): pass

class Bits(object):
    WIDTH = 32
    def __init__(self, limit=400000):
        self.node = [(1 << 30, 0, 0), (1 << 30, 1, 1)]      # (level, low, high); 0 = false, 1 = true
        self.table = {}; self.cache = {}; self.limit = limit
    def mk(self, l, a, b):
        if a == b: return a
        k = (l, a, b); n = self.table.get(k)
        if n is None:
            n = len(self.node)
            if n > self.limit: raise TooBig()
            self.node.append(k); self.table[k] = n
        return n
    def ite(self, f, g, h):
        if f == 1: return g
        if f == 0: return h
        if g == h: return g
        if g == 1 and h == 0: return f
        k = (f, g, h); r = self.cache.get(k)
        if r is not None: return r
        l = min(self.node[f][0], self.node[g][0], self.node[h][0])
        c = lambda n, i: self.node[n][i] if self.node[n][0] == l else n
        r = self.mk(l, self.ite(c(f, 1), c(g, 1), c(h, 1)), self.ite(c(f, 2), c(g, 2), c(h, 2)))
        self.cache[k] = r
        return r
    def NOT(self, f): return self.ite(f, 0, 1)
    def AND(self, f, g): return self.ite(f, g, 0)
    def OR(self, f, g): return self.ite(f, 1, g)
    def XOR(self, f, g): return self.ite(f, self.NOT(g), g)
    def var(self, l): return self.mk(l, 0, 1)
    def at(self, f, asg):
        while f > 1:
            l, a, b = self.node[f]
            f = b if asg(l) else a
        return f
    def paths(self, f, n, rng):
        """some assignments (level -> bit) that make f true"""
        if f == 0: return
        for _ in range(n):
            x, a = f, {}
            while x > 1:
                l, lo, hi = self.node[x]
                b = rng.random() < .5
                if (hi if b else lo) == 0: b = not b
                a[l] = b; x = hi if b else lo
            yield a
    # ------------------------------------------------ vectors, least bit first
    def const(self, n): return [(n >> i) & 1 for i in range(self.WIDTH)]
    def add(self, a, b, c=0):
        r = []
        for x, y in zip(a, b):
            t = self.XOR(x, y)
            r.append(self.XOR(t, c)); c = self.OR(self.AND(x, y), self.AND(t, c))
        return r
    def neg(self, a): return self.add([self.NOT(x) for x in a], self.const(0), 1)
    def mul(self, a, b):
        r = self.const(0)
        for i in range(self.WIDTH):
            if b[i] == 0: continue
            r = self.add(r, [self.AND(b[i], x) for x in ([0] * i + a)[:self.WIDTH]])
        return r
    def shift(self, a, b, left):
        if any(x > 1 for x in b):
            r = a
            for j in range(5):
                s = self.shift(r, self.const(1 << j), left)
                r = [self.ite(b[j], x, y) for x, y in zip(s, r)]
            return r
        n = sum(x << i for i, x in enumerate(b))
        if n >= self.WIDTH: raise NoBits("shift by %d" % n)
        return ([0] * n + a)[:self.WIDTH] if left else a[n:] + [0] * n
    def vec(self, t, env, memo):
        """the bits of an integer term"""
        r = memo.get(t)
        if r is None: r = memo[t] = self._vec(t, env, memo)
        return r
    def _vec(self, t, env, memo):
        o, a = t.op, t.args
        v = lambda x: self.vec(x, env, memo)
        if t in env: return env[t]
        if o == "int": return self.const(a[0] & ((1 << self.WIDTH) - 1))
        if o == "ixor": return [self.XOR(x, y) for x, y in zip(v(a[0]), v(a[1]))]
        if o == "iand": return [self.AND(x, y) for x, y in zip(v(a[0]), v(a[1]))]
        if o == "ior": return [self.OR(x, y) for x, y in zip(v(a[0]), v(a[1]))]
        if o == "ishl": return self.shift(v(a[0]), v(a[1]), True)
        if o == "ishr": return self.shift(v(a[0]), v(a[1]), False)
        if o == "imul": return self.mul(v(a[0]), v(a[1]))
        if o in ("idiv", "irem"):
            b = v(a[1])
            if any(x > 1 for x in b): raise NoBits(o)
            n = sum(x << i for i, x in enumerate(b))
            if n == 0 or n & (n - 1): raise NoBits(o)
            k = n.bit_length() - 1; x = v(a[0])
            return x[k:] + [0] * k if o == "idiv" else x[:k] + [0] * (self.WIDTH - k)
        if o == "lin":
            r = self.const(a[0] & ((1 << self.WIDTH) - 1))
            for k, x in a[1]:
                r = self.add(r, self.mul(v(x), self.const(k & ((1 << self.WIDTH) - 1))))
            return r
        if o == "ite":
            c = self.cond(a[0], env, memo)
            return [self.ite(c, x, y) for x, y in zip(v(a[1]), v(a[2]))]
        raise NoBits(o)
    def cond(self, t, env, memo):
        o, a = t.op, t.args
        if o == "true": return 1
        if o == "false": return 0
        if o == "ite": return self.ite(self.cond(a[0], env, memo), self.cond(a[1], env, memo), self.cond(a[2], env, memo))
        if o == "ieq0":
            r = 1
            for x in self.signed(a[0], env, memo): r = self.AND(r, self.NOT(x))
            return r
        if o == "ipos":
            w = self.signed(a[0], env, memo); nz = 0
            for x in w: nz = self.OR(nz, x)
            return self.AND(nz, self.NOT(w[-1]))
        raise NoBits(o)
    def signed(self, t, env, memo):
        """a difference, as a number of more bits (two's complement)"""
        w = self.WIDTH
        c, ps = (t.args[0], t.args[1]) if t.op == "lin" else (0, ((1, t),))
        vs = [(k, self.vec(x, env, memo)) for k, x in ps]
        B = Bits.__new__(Bits); B.__dict__ = self.__dict__.copy(); B.WIDTH = 2 * w
        r = B.const(c & ((1 << 2 * w) - 1))
        for k, x in vs: r = B.add(r, B.mul(x + [0] * w, B.const(k & ((1 << 2 * w) - 1))))
        return r
