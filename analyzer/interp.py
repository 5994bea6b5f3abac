"""Random interpretation of value-graph terms (after Gulwani & Necula, POPL 2004).

Used for one purpose only: when the normal forms of two value graphs differ, an
alarm is raised only if some interpretation of their free symbols separates
them, so that a mere difference of form never becomes an alarm.  The subject is
the value graph produced by the analysis; the analysed program is not run.
"""
import math, random, hashlib, functools, struct
from fractions import Fraction
from terms import *
import eval as E

def single(v):
    """the nearest number of single precision"""
    if not fin(v): return v
    try: return Fraction(struct.unpack("f", struct.pack("f", float(v)))[0])
    except OverflowError: return INF if v > 0 else -INF
def intrange(name):
    n = {"8": 8, "16": 16, "32": 32, "64": 64, "size": 64, "128": 128}.get(name[1:], 64)
    return (0, (1 << n) - 1) if name[0] == "u" else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
class NoInterp(Exception): pass
class DontCare(Exception): pass
class Diverges(Exception):
    """a loop that comes back to a state it was in: it never ends"""

NAN = float("nan"); INF = float("inf")
SEQP = ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque")

def isreal(v): return isinstance(v, (Fraction, float))
def num(v): return v
def r_add(a, b):
    return a + b if isinstance(a, Fraction) and isinstance(b, Fraction) else float(a) + float(b)
def r_sub(a, b):
    return a - b if isinstance(a, Fraction) and isinstance(b, Fraction) else float(a) - float(b)
def r_mul(a, b):
    return a * b if isinstance(a, Fraction) and isinstance(b, Fraction) else float(a) * float(b)
def r_div(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction) and b != 0: return a / b
    a, b = float(a), float(b)
    if b == 0:
        if a == 0 or a != a: return NAN
        return INF if a > 0 else -INF
    try: return a / b
    except OverflowError: return INF
def r_min(a, b):
    if a != a: return b
    if b != b: return a
    return a if a <= b else b
def r_max(a, b):
    if a != a: return b
    if b != b: return a
    return a if a >= b else b
def r_sqrt(a):
    if a != a or a < 0: return NAN
    if a == INF: return INF
    if isinstance(a, Fraction):
        n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
        if n * n == a.numerator and d * d == a.denominator: return Fraction(n, d)
    return math.sqrt(a)
def fin(a): return a == a and abs(a) != INF

def veq(a, b):
    """equality of values, NaN equal to NaN, inexact reals compared with tolerance"""
    if isreal(a) and isreal(b):
        if a != a or b != b: return a != a and b != b
        if isinstance(a, Fraction) and isinstance(b, Fraction): return a == b
        return a == b or (fin(a) and fin(b) and math.isclose(float(a), float(b), rel_tol=1e-9, abs_tol=1e-9))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b or (isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and a == b)
def eqv(a, b):
    """PartialEq-like structural equality (NaN differs from NaN)"""
    if isreal(a) and isreal(b): return a == b
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(eqv(x, y) for x, y in zip(a, b))
    return a == b
def okey(v):
    if isinstance(v, tuple): return tuple(okey(x) for x in v if not isinstance(x, str))
    return v
def stable(v):
    if isinstance(v, float):
        if v != v: return "nan"
        if fin(v): return "%.9g" % v
        return str(v)
    if isinstance(v, Fraction): return "%.9g" % float(v)
    if isinstance(v, tuple): return "(" + ",".join(stable(x) for x in v) + ")"
    return str(v)
def seed_of(*xs):
    return int(hashlib.sha1("|".join(stable(x) for x in xs).encode()).hexdigest()[:12], 16)

POISON = object()
_fb = {}
def freeb(t):
    """indices of the bound variables free in t"""
    r = _fb.get(t.id)
    if r is None:
        if t.op == "bvar": r = frozenset((t.args[0],))
        else:
            r = frozenset()
            for c in children(t):
                if bh(c): r |= freeb(c)
            if r and (t.op in BINDERS or t.op == "cmpby"): r -= frozenset(range(t.args[1] + 1, t.args[1] + 1 + t.args[0]))
        _fb[t.id] = r
    return r

KONST = {"epsilon": Fraction(1, 10 ** 12), "max_value": Fraction(10 ** 15), "min_value": Fraction(-10 ** 15), "min_positive_value": Fraction(1, 10 ** 15)}
def constants(terms, cap=12):
    """the numeric constants of terms that the ordinary pool of values does not reach"""
    out = set(); seen = set(); st = list(terms)
    while st:
        t = st.pop()
        if not isinstance(t, T) or t.id in seen: continue
        seen.add(t.id)
        cs = ()
        if t.op in ("num", "int", "lin"): cs = t.args[:1]
        elif t.op == "poly": cs = [c for c, m in t.args[0] if not m]
        for c in cs:
            if not isinstance(c, (int, Fraction)) or isinstance(c, bool): continue
            c = abs(Fraction(c))
            if c > 5 or 0 < c < Fraction(1, 4): out.add(c)
        if t.op == "konst" and t.args[0] in KONST: out.add(abs(KONST[t.args[0]]))
        st.extend(children(t))
    return sorted(out)[:cap]

# numbers that rounding, truncation or a narrower type would change
FINE = [Fraction(x) for x in (0.1, 1 / 3, 1 + 2 ** -40, 2 ** 24 + 1, -(2 ** 40) - 0.5, 1e-17, 123456.7890625, -0.7, 2 ** 53 - 1, 1e17)]
class Model(object):
    """an interpretation: values for the free symbols, drawn by type"""
    def __init__(self, prog, seed, hooks=None, special=0.08, contracts=None, fixups=None):
        self.p = prog; self.rng = random.Random(seed); self.seed = self.hseed = seed
        self.hooks = hooks or {}
        self.special = special if self.rng.random() < 0.5 else 0.0
        self.pool = [Fraction(x) for x in (self.rng.choice(([0, 1], [0, 1, 2], [0, 1, 2, 3], [-1, 0, 1, 2, 5], [0, 1, Fraction(1, 2), 2, 3, -2])))]
        self.maxlen = self.rng.choice((0, 1, 2, 3, 4, 5))
        if seed % 7 == 5: self.pool += random.Random(seed + 1).sample(FINE, 3)
        self.contracts = contracts or {}
        self.fixups = fixups or {}
        self.vals = {}; self.body = None; self.envbody = None; self.memo = {}; self.fns = {}
        self.budget = 400000
    @property
    def tiny(self):
        """on some seeds: (base, unit), and every coordinate c is drawn as base + c * unit"""
        if self.seed % 7 != 6: return None
        if "_tiny" not in self.__dict__:
            r = random.Random(self.seed + 1); b = r.choice((0, 1, 1, 3))
            self._tiny = (Fraction(b), Fraction(1, 1 << (r.choice((28, 34, 42, 48)) if b else r.choice((28, 34, 42, 48, 60)))), r)
        return self._tiny
    def scaled(self, v, apart):
        base, unit, r = self.tiny
        sh = Fraction(0)
        if apart and r.random() < 0.3: sh = Fraction(r.choice((1, -1)), r.choice((8, 1 << 20, 1 << 40)))
        def f(v):
            if isinstance(v, Fraction): return base + (v + sh) * unit
            if isinstance(v, tuple): return tuple(f(x) for x in v)
            return v
        return f(v)
    def steer(self, consts):
        """constants of the compared terms: values around them join the pool on some seeds, sizes too"""
        if not consts or self.seed % 3 != 2: return
        self.extra = self.rng.sample(consts, min(2, len(consts)))
        for c in self.extra:
            self.pool += [c, c / 2, -c] if c.denominator > 1 else [c, c + 1, c - 1, -c - 1]
        ns = [int(c) for c in self.extra if c.denominator == 1 and 5 < c <= 2500]
        if ns and self.seed % 2 and (ns[0] <= 40 or self.seed % 4 == 1): 
            self.longdepth = self.rng.randrange(5); self.long = ns[0]
            self.pool += [Fraction(k) for k in range(3, self.long if self.rng.random() < 0.3 else 4 * self.long)]
            if self.rng.random() < 0.7: self.special = 0.0
    extra = (); longdepth = None
    def real(self, rng):
        if self.special and rng.random() < self.special: return rng.choice((NAN, INF, -INF))
        return rng.choice(self.pool)
    def gen(self, ty, rng=None, depth=0):
        rng = rng or self.rng
        k = ty["k"]
        if k in ("ref", "ptr"): return self.gen(self.p.tys[ty["t"]], rng, depth)
        if k == "float": return self.real(rng)
        if k == "bool": return rng.random() < 0.5
        if k in ("int", "uint") or ty["s"] in ("usize", "u32", "u64", "i32", "i64", "u8", "u16", "isize"): return rng.choice((0, 1, 2, 3, 4, 5, 8) + tuple(int(c) + d for c in self.extra if c.denominator == 1 and c > 5 for d in (0, 1)))
        if k == "char": return ord("a")
        if k == "str": return ("S", "x%d" % rng.randrange(3))
        if k == "param":
            if ty["name"] in ("C", "F", "Self"): return self.real(rng)
            return ("Tok", rng.randrange(6))
        if k == "tuple": return ("T",) + tuple(self.gen(self.p.tys[x], rng, depth) for x in ty["ts"])
        if k == "array": return ("L",) + tuple(self.gen(self.p.tys[ty["t"]], rng, depth) for _ in range(max(0, ty.get("n", 0))))
        if k == "slice": return self.genseq(self.p.tys[ty["t"]], rng, depth)
        if k == "adt":
            p = ty["path"]
            if p in self.hooks:
                v = self.hooks[p](self, ty, rng, depth)
                if v is not None: return v
            if p in SEQP: return self.genseq(self.p.tys[ty["args"][0]], rng, depth)
            if p == E.NOTNAN:
                return ("A", p, 0, rng.choice(self.pool))
            if p.endswith(("::HashSet", "::BTreeSet")):
                xs = self.genseq(self.p.tys[ty["args"][0]], rng, depth)[1:]
                return ("Set",) + tuple(sorted((x for k, x in enumerate(xs) if not any(eqv(x, y) for y in xs[:k])), key=okey))
            if p.endswith(("::HashMap", "::BTreeMap")):
                xs = self.genseq(self.p.tys[ty["args"][0]], rng, depth)[1:]
                return ("M",) + tuple((x, self.gen(self.p.tys[ty["args"][1]], rng, depth + 1)) for k, x in enumerate(xs) if not any(eqv(x, y) for y in xs[:k]))
            if p in ("alloc::string::String",): return ("S", "x%d" % rng.randrange(3))
            if p == "core::marker::PhantomData": return ("A", p, 0)
            if p in ("alloc::boxed::Box",): return self.gen(self.p.tys[ty["args"][0]], rng, depth)
            vs = ty["variants"]
            if not vs: 
                a = self.p.adts.get(p)
                vs = a["variants"] if a else None
                if not vs: raise NoInterp("value of type " + ty["s"])
            i = rng.randrange(len(vs))
            v = ("A", p, i) + tuple(self.gen(self.p.tys[f[1]], rng, depth + 1) for f in vs[i]["fields"])
            if p in self.fixups: v = self.fixups[p](self, v)
            return v
        raise NoInterp("value of type " + ty["s"])
    def genseq(self, et, rng, depth):
        if depth == self.longdepth: n = self.long + rng.randrange(-2, 3)
        else: n = min(rng.randrange(self.maxlen + 1), 5 if depth < 2 else 4)
        xs = []
        # a long sequence repeats itself early, only at its end, or not at all
        late = depth == self.longdepth and rng.random() < 0.7
        for k in range(n):
            if xs and rng.random() < (0.25 if not late else 0.0 if k < n - 1 else 0.6): xs.append(rng.choice(xs))
            else: xs.append(self.gen(et, rng, depth + 1))
        return ("L",) + tuple(xs)
    def by_hash(self, ty, *key):
        """an unknown function: one value per argument list"""
        s = seed_of(self.seed, *key)
        if s not in self.fns:
            saved, self.rng = self.rng, random.Random(s)
            try: self.fns[s] = self.gen(ty, self.rng, 1)
            finally: self.rng = saved
        return self.fns[s]

    # ---------------------------------------------------------------- terms
    def setvar(self, t, v): self.vals[t] = v
    def value(self, t, env=None):
        self.memo = {}
        return self.ev(t, env or {})
    def e_meets(self, t, a, env):
        x, y = self.ev(a[0], env), self.ev(a[1], env)
        if x[2] == 0 or y[2] == 0: return False
        return all(p <= q for p, q in zip(x[3][3:], y[4][3:])) and all(p <= q for p, q in zip(y[3][3:], x[4][3:]))
    def e_rtree(self, t, a, env): return ("R", self.ev(a[0], env))
    def ev(self, t, env):
        self.budget -= 1
        if self.budget < 0: raise NoInterp("interpretation budget")
        o = t.op
        if o == "var":
            v = self.vals.get(t)
            if v is None:
                n = t.args[0]
                if n == "NaN": return NAN
                if n == "inf": return INF
                if n == "-inf": return -INF
                raise NoInterp("free symbol " + n)
            return v
        if o == "bvar":
            v = env[t.args[0]]
            if v is POISON: raise DontCare()
            return v
        closed = bh(t) == 0 or not freeb(t)
        if closed:
            r = self.memo.get(t.id, self)
            if r is not self:
                return r
        f = getattr(self, "e_" + o, None)
        if f is None: raise NoInterp("operation " + o)
        r = f(t, t.args, env)
        if closed: self.memo[t.id] = r
        return r
    def e_true(self, t, a, env): return True
    def e_false(self, t, a, env): return False
    def e_bot(self, t, a, env): raise DontCare()
    def e_int(self, t, a, env): return a[0]
    def e_num(self, t, a, env): return a[0]
    def e_str(self, t, a, env): return ("S", a[0])
    def e_tuple(self, t, a, env): return ("T",) + tuple(self.ev(x, env) for x in a)
    def e_adt(self, t, a, env): return ("A", a[0], a[1]) + tuple(self.ev(x, env) for x in a[2:])
    def e_lit(self, t, a, env): return ("L",) + tuple(self.ev(x, env) for x in a)
    e_array = e_lit
    def e_ite(self, t, a, env):
        while True:
            try: c = self.ev(t.args[0], env)
            except DontCare:
                # a test that is meaningless here (the field of another variant, read early by the diagram order) may not matter
                if t.args[1] is BOT or t.args[2] is BOT: raise
                x, y = self.ev(t.args[1], env), self.ev(t.args[2], env)
                if not veq(x, y): raise
                return x
            t = t.args[1] if c else t.args[2]
            if t.op != "ite": return self.ev(t, env)
    def e_is(self, t, a, env):
        v = self.ev(a[0], env)
        if isinstance(v, tuple) and v[0] == "A": return v[2] == a[1]
        raise NoInterp("variant test of " + stable(v)[:40])
    def e_fld(self, t, a, env):
        v = self.ev(a[0], env)
        if not isinstance(v, tuple): raise NoInterp("field of a scalar")
        if v[0] == "A":
            if v[2] != a[1]: raise DontCare()
            return v[3 + a[2]]
        if v[0] in ("T", "L"): return v[1 + a[2]]
        raise NoInterp("field of " + str(v[0]))
    def e_lin(self, t, a, env):
        r = a[0]
        for c, x in a[1]: r += c * self.ev(x, env)
        return r
    def e_nat(self, t, a, env): return max(0, self.ev(a[0], env))
    def e_imul(self, t, a, env): return self.ev(a[0], env) * self.ev(a[1], env)
    def e_ipos(self, t, a, env): return self.ev(a[0], env) > 0
    def e_ieq0(self, t, a, env): return self.ev(a[0], env) == 0
    def e_umin(self, t, a, env): return min(self.ev(a[0], env), self.ev(a[1], env))
    def e_umax(self, t, a, env): return max(self.ev(a[0], env), self.ev(a[1], env))
    def _i2(self, a, env):
        x, y = self.ev(a[0], env), self.ev(a[1], env)
        return x, y
    def e_idiv(self, t, a, env):
        x, y = self._i2(a, env)
        if y == 0: raise DontCare()
        q = abs(x) // abs(y)
        return q if (x < 0) == (y < 0) else -q
    def e_irem(self, t, a, env):
        x, y = self._i2(a, env)
        if y == 0: raise DontCare()
        r = abs(x) % abs(y)
        return -r if x < 0 else r
    def e_ixor(self, t, a, env): x, y = self._i2(a, env); return x ^ y
    def e_iand(self, t, a, env): x, y = self._i2(a, env); return x & y
    def e_ior(self, t, a, env): x, y = self._i2(a, env); return x | y
    def e_ishl(self, t, a, env): x, y = self._i2(a, env); return (x << y) & 0xffffffffffffffff
    def e_ishr(self, t, a, env): x, y = self._i2(a, env); return x >> y
    def e_divceil(self, t, a, env):
        x, y = self._i2(a, env)
        if y == 0: raise DontCare()
        return -(-x // y)
    def e_npow2(self, t, a, env):
        x = self.ev(a[0], env)
        return 1 if x <= 1 else 1 << (x - 1).bit_length()
    def e_ifun(self, t, a, env):
        x = [self.ev(y, env) for y in a[1:]]
        n = a[0]
        if n == "count_ones": return bin(x[0]).count("1")
        if n == "trailing_zeros": return (x[0] & -x[0]).bit_length() - 1 if x[0] else 64
        if n == "leading_zeros" and x[0] >= 0: return 64 - x[0].bit_length()
        if n == "rem_euclid" and x[1]: return x[0] % abs(x[1])
        if n == "div_euclid" and x[1]: return (x[0] - x[0] % abs(x[1])) // x[1]
        if n == "signum": return (x[0] > 0) - (x[0] < 0)
        if n == "pow": return x[0] ** x[1]
        if n in ("abs",): return abs(x[0])
        if n == "abs_diff": return abs(x[0] - x[1])
        if n == "ilog2":
            if x[0] <= 0: raise DontCare()
            return x[0].bit_length() - 1
        if n == "next_multiple_of":
            if x[1] == 0: raise DontCare()
            return -(-x[0] // x[1]) * x[1]
        raise NoInterp("integer function " + n)
    def e_cast(self, t, a, env):
        v = self.ev(a[1], env)
        bits = {"u8": 8, "u16": 16, "u32": 32}.get(a[0])
        if bits: return v & ((1 << bits) - 1)
        bits = {"i8": 8, "i16": 16, "i32": 32}.get(a[0])
        if bits:
            v &= (1 << bits) - 1
            return v - (1 << bits) if v >> (bits - 1) else v
        raise NoInterp("cast " + a[0])
    def e_itof(self, t, a, env):
        v = self.ev(a[0], env)
        return v if isreal(v) else Fraction(v)
    def e_ftof(self, t, a, env):
        v = self.rv(a[1], env)
        return single(v) if a[0] == "f32" else v
    def e_rconv(self, t, a, env):
        v = self.ev(a[1], env)
        v = v if isreal(v) else Fraction(v)
        return ("A", OPTION, 1, single(v) if a[0] == "to_f32" else v)
    def e_toint(self, t, a, env):
        v = self.ev(a[1], env)
        if isinstance(v, int): return ("A", OPTION, 1, v)
        if not fin(v): return ("A", OPTION, 0)
        x = math.trunc(v)
        lo, hi = intrange(a[0])
        return ("A", OPTION, 1, x) if lo <= x <= hi else ("A", OPTION, 0)
    def e_ftoi(self, t, a, env):
        v = self.ev(a[1], env)
        if v != v: return 0
        lo, hi = intrange(a[0])
        if not fin(v): return hi if v > 0 else lo
        return min(hi, max(lo, math.trunc(v)))
    def e_radd(self, t, a, env): return r_add(self.rv(a[0], env), self.rv(a[1], env))
    def e_rsub(self, t, a, env): return r_sub(self.rv(a[0], env), self.rv(a[1], env))
    def e_rmul(self, t, a, env): return r_mul(self.rv(a[0], env), self.rv(a[1], env))
    def e_rdiv(self, t, a, env): return r_div(self.rv(a[0], env), self.rv(a[1], env))
    def e_fmin(self, t, a, env): return r_min(self.rv(a[0], env), self.rv(a[1], env))
    def e_fmax(self, t, a, env): return r_max(self.rv(a[0], env), self.rv(a[1], env))
    def e_rneg(self, t, a, env): return -self.rv(a[0], env)
    def e_rabs(self, t, a, env): return abs(self.rv(a[0], env))
    def e_rsqrt(self, t, a, env): return r_sqrt(self.rv(a[0], env))
    def e_rfloor(self, t, a, env):
        v = self.rv(a[0], env)
        return Fraction(math.floor(v)) if fin(v) else v
    def e_rrem(self, t, a, env):
        x, y = self.rv(a[0], env), self.rv(a[1], env)
        if not fin(x) or y != y or y == 0: return NAN
        if not fin(y): return x
        return x - y * Fraction(math.trunc(x / y))
    def e_rfun(self, t, a, env):
        xs = [self.ev(x, env) for x in a[1:]]
        n = a[0]
        if n == "signum":
            v = xs[0]
            return v if v != v else (Fraction(1) if v >= 0 else Fraction(-1))
        if n in ("round", "fract"):
            v = xs[0]
            if not fin(v): return v if n == "round" else NAN
            return v - math.trunc(v) if n == "fract" else Fraction(math.floor(abs(v) + Fraction(1, 2)) * (1 if v >= 0 else -1))
        if n == "trunc": return Fraction(math.trunc(xs[0])) if fin(xs[0]) else xs[0]
        if n == "ceil": return Fraction(math.ceil(xs[0])) if fin(xs[0]) else xs[0]
        if n == "clamp": return r_min(r_max(xs[0], xs[1]), xs[2])
        if n == "is_sign_negative": return xs[0] < 0
        if n == "is_sign_positive": return not xs[0] < 0
        raise NoInterp("real function " + n)
    def rv(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, bool): raise NoInterp("bool as number")
        if isinstance(v, int): return Fraction(v)
        if isreal(v): return v
        raise NoInterp("not a number")
    def e_flt(self, t, a, env): return self.rv(a[0], env) < self.rv(a[1], env)
    def e_feq(self, t, a, env): return self.rv(a[0], env) == self.rv(a[1], env)
    def e_isfinite(self, t, a, env): return fin(self.rv(a[0], env))
    def e_isnan(self, t, a, env): v = self.rv(a[0], env); return v != v
    def e_konst(self, t, a, env):
        if a[0] in KONST: return KONST[a[0]]
        return ("K", str(a[0]))
    def e_fmtresult(self, t, a, env): return ("A", RESULT, 0, ("T",))
    # sequences
    def seq(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, tuple) and v and v[0] in ("L", "Set"): return v[1:]
        if isinstance(v, tuple) and v[0] == "A" and v[1] == OPTION: return v[3:]
        raise NoInterp("not a sequence: " + stable(v)[:60])
    def e_cat(self, t, a, env):
        r = ()
        for x in a: r += self.seq(x, env)
        return ("L",) + r
    def loop(self, n, h, doms, env):
        """environments of a binder"""
        def go(i, env):
            if i == n: yield env; return
            m = self.ev(doms[i], env)
            for j in range(m):
                self.budget -= 1
                if self.budget < 0: raise NoInterp("interpretation budget")
                e = dict(env); e[h + 1 + i] = j
                for z in go(i + 1, e): yield z
        return go(0, env)
    def e_comp(self, t, a, env):
        n, h, doms, g, e = a
        return ("L",) + tuple(self.ev(e, x) for x in self.loop(n, h, doms, env) if g is TRUE or self.ev(g, x))
    def e_ex(self, t, a, env):
        n, h, doms, c = a
        return any(self.ev(c, x) for x in self.loop(n, h, doms, env))
    def e_first(self, t, a, env):
        n, h, m, c = a
        for j in range(self.ev(m, env)):
            e = dict(env); e[h + 1] = j
            if self.ev(c, e): return j
        raise DontCare()
    def e_last(self, t, a, env):
        n, h, m, init, g, v = a
        for j in range(self.ev(m, env) - 1, -1, -1):
            e = dict(env); e[h + 1] = j
            if self.ev(g, e): return self.ev(v, e)
        return self.ev(init, env)
    def e_fold(self, t, a, env):
        n, h, s, init, step = a
        acc = self.ev(init, env)
        for x in self.seq(s, env):
            e = dict(env); e[h + 1] = acc; e[h + 2] = x
            acc = self.ev(step, e)
        return acc
    # recurrences of loops without a closed form
    def careful(self, t, env):
        try: return self.ev(t, env)
        except DontCare: return POISON
    def round(self, h, nexts, e, first):
        r = dict(e)
        for i, x in enumerate(nexts): r[h + first + i] = self.careful(x, e)
        return r
    def e_sys(self, t, a, env):
        n, h, idx, count, inits, nexts = a
        e = dict(env)
        for i, x in enumerate(inits): e[h + 2 + i] = self.careful(x, env)
        for k in range(self.ev(count, env)):
            e[h + 1] = k
            e = self.round(h, nexts, e, 2)
        v = e[h + 2 + idx.args[0]]
        if v is POISON: raise DontCare()
        return v
    e_bsys = e_sys
    def wh(self, h, inits, back, nexts, env):
        e = dict(env)
        for i, x in enumerate(inits): e[h + 1 + i] = self.careful(x, env)
        mark = None; sl = None
        large = getattr(self, "large", False)
        for n in range(20000 if large else 4000):
            yield e
            if not self.ev(back, e): return
            e = self.round(h, nexts, e, 1)
            if n >= 31:
                # what decides whether the loop goes on
                if sl is None: sl = self.deciding(h, back, nexts)
                now = [e[i] for i in sl]
                if mark is not None and now == mark and not any(v is POISON for v in now): raise Diverges("a loop comes back to the same state")
                if n & (n + 1) == 0: mark = now
        if large: raise NoInterp("interpretation budget")
        raise Diverges("4000 rounds of a loop over a handful of parts")
    def deciding(self, h, back, nexts):
        """the state variables the continuation depends on, directly or through the steps"""
        own = range(h + 1, h + 1 + len(nexts))
        need = set(); todo = [back]
        while todo:
            for v in fv(todo.pop()):
                if v.op == "bvar" and v.args[0] in own and v.args[0] not in need:
                    need.add(v.args[0]); todo.append(nexts[v.args[0] - h - 1])
        return sorted(need)
    def e_wh(self, t, a, env):
        n, h, idx, inits, back, nexts = a
        key = ("wh", n, h, tuple(x.id for x in inits), back.id, tuple(x.id for x in nexts))
        closed = not any(x.op == "bvar" for x in fv(t))
        e = self.memo.get(key) if closed else None
        if e is None:
            for e in self.wh(h, inits, back, nexts, env): pass
            if closed: self.memo[key] = e
        v = e[h + 1 + idx.args[0]]
        if v is POISON: raise DontCare()
        return v
    e_bwh = e_wh
    def e_whex(self, t, a, env):
        n, h, inits, back, nexts, cond = a
        key = ("whex", n, h, tuple(x.id for x in inits), back.id, tuple(x.id for x in nexts))
        closed = not any(x.op == "bvar" for x in fv(t))
        es = self.memo.get(key) if closed else None
        if es is None:
            es = []; err = None
            try:
                for e in self.wh(h, inits, back, nexts, env): es.append(e)
            except DontCare as x: err = x
            es = (es, err)
            if closed: self.memo[key] = es
        es, err = es
        for e in es:
            v = self.careful(cond, e)
            if v is not POISON and v: return True
        if err is not None: raise err
        return False
    def e_bmu(self, t, a, env): return self.ev(a[0], env)
    def e_sum(self, t, a, env):
        r = Fraction(0)
        for x in self.seq(a[0], env): r = r_add(r, x)
        return r
    def e_isum(self, t, a, env): return sum(self.seq(a[0], env))
    def e_flat(self, t, a, env):
        r = ()
        for x in self.seq(a[0], env):
            if x[0] == "L": r += x[1:]
            elif x[0] == "A" and x[1] == OPTION: r += x[3:]
            else: raise NoInterp("flatten")
        return ("L",) + r
    def e_rev(self, t, a, env): return ("L",) + tuple(reversed(self.seq(a[0], env)))
    def e_len(self, t, a, env): return len(self.seq(a[0], env))
    def e_cap(self, t, a, env):
        n = len(self.seq(a[0], env))
        return n + (self.seed % 3) * (n > 0)
    def e_at(self, t, a, env):
        s = self.seq(a[0], env); i = self.ev(a[1], env)
        if not 0 <= i < len(s): raise DontCare()
        return s[i]
    def e_store(self, t, a, env):
        s = list(self.seq(a[0], env)); i = self.ev(a[1], env)
        if not 0 <= i < len(s): raise DontCare()
        s[i] = self.ev(a[2], env)
        return ("L",) + tuple(s)
    def e_iter(self, t, a, env): return ("L",) + self.seq(a[0], env)[self.ev(a[1], env):]
    def e_sorted(self, t, a, env):
        s = self.seq(a[0], env)
        if a[1].op == "nat_order": return ("L",) + tuple(sorted(s, key=okey))
        if a[1].op == "cmpby":
            n, h, o = a[1].args
            def cmp(i, j):
                e = dict(env); e[h + 1] = i; e[h + 2] = j
                v = self.ev(o, e)
                return v[2] - 1
            return ("L",) + tuple(s[i] for i in sorted(range(len(s)), key=functools.cmp_to_key(cmp)))
        ks = self.seq(a[1], env)
        return ("L",) + tuple(s[i] for i in sorted(range(len(s)), key=lambda i: okey(ks[i])))
    def e_dedup(self, t, a, env):
        r = []
        for x in self.seq(a[0], env):
            if not r or not eqv(r[-1], x): r.append(x)
        return ("L",) + tuple(r)
    def e_dedupk(self, t, a, env):
        r = []; last = None
        for x, k in zip(self.seq(a[0], env), self.seq(a[1], env)):
            if not r or not eqv(last, k): r.append(x); last = k
        return ("L",) + tuple(r)
    # sets
    def e_set(self, t, a, env):
        r = []
        for x in self.seq(a[1], env):
            if not any(eqv(x, y) for y in r): r.append(x)
        return ("Set",) + tuple(sorted(r, key=lambda v: (okey(v))))
    def e_tog(self, t, a, env):
        r = []
        for x in self.seq(a[1], env):
            k = [y for y in r if not eqv(x, y)]
            if len(k) == len(r): r.append(x)
            else: r = k
        return ("Set",) + tuple(sorted(r, key=okey))
    def setv(self, t, env):
        v = self.ev(t, env)
        if v[0] != "Set": raise NoInterp("not a set")
        return v
    def e_setins(self, t, a, env):
        s = self.setv(a[0], env); x = self.ev(a[1], env)
        return s if any(eqv(x, y) for y in s[1:]) else ("Set",) + tuple(sorted(s[1:] + (x,), key=okey))
    def e_setrem(self, t, a, env):
        s = self.setv(a[0], env); x = self.ev(a[1], env)
        return ("Set",) + tuple(y for y in s[1:] if not eqv(x, y))
    def e_inset(self, t, a, env):
        s = self.setv(a[0], env); x = self.ev(a[1], env)
        return any(eqv(x, y) for y in s[1:])
    def e_setlen(self, t, a, env): return len(self.setv(a[0], env)) - 1
    def e_usorted(self, t, a, env): return ("L",) + tuple(sorted(self.setv(a[0], env)[1:], key=okey))
    def e_hashorder(self, t, a, env):
        s = list(self.setv(a[0], env)[1:])
        random.Random(seed_of(self.hseed, tuple(s))).shuffle(s)
        return ("L",) + tuple(s)
    def e_veq(self, t, a, env): return eqv(self.ev(a[0], env), self.ev(a[1], env))
    # maps: tuple of pairs
    def e_mnew(self, t, a, env): return ("M",)
    def e_mset(self, t, a, env):
        m = self.ev(a[0], env); k = self.ev(a[1], env); v = self.ev(a[3], env)
        return ("M",) + tuple(x for x in m[1:] if not eqv(x[0], k)) + ((k, v),)
    def e_mget(self, t, a, env):
        m = self.ev(a[0], env); k = self.ev(a[1], env)
        for x in m[1:]:
            if eqv(x[0], k): return x[1]
        return self.ev(a[2], env)
    def e_inmap(self, t, a, env):
        m = self.ev(a[0], env); k = self.ev(a[1], env)
        return any(eqv(x[0], k) for x in m[1:])
    def e_mapkeys(self, t, a, env):
        m = self.ev(a[0], env)
        ks = [x[0] for x in m[1:]]
        ks.sort(key=okey)
        random.Random(seed_of(self.hseed, tuple(ks))).shuffle(ks)
        return ("L",) + tuple(ks)
    # opaque functions
    def ty_by_name(self, s):
        if not hasattr(self.p, "_byname"): self.p._byname = {t["s"]: t for t in self.p.tys}
        t = self.p._byname.get(s)
        if t is None: raise NoInterp("type " + s)
        return t
    def e_into(self, t, a, env):
        v = self.ev(a[1], env)
        if "into" in self.contracts: return self.contracts["into"](self, v)
        return self.by_hash(self.ty_by_name(a[0]), "into", v)
    def e_envof(self, t, a, env):
        v = self.ev(a[0], env)
        if isinstance(v, tuple) and v[0] == "A" and self.envbody is not None and not v[1].endswith("::Envelope"):
            b = self.envbody(v[1])
            if b is not None: return self.inbody(b, [v])
        if "envof" in self.contracts: return self.contracts["envof"](self, v)
        et = [x for x in self.p.tys if x["k"] == "adt" and x["path"].endswith("planar::primitives::envelope::Envelope")]
        if isinstance(v, tuple) and v[0] == "A" and v[1].endswith("::Envelope"): return v
        return self.by_hash(et[0], "envof", v)
    def e_apply(self, t, a, env): raise NoInterp("unknown function value")
    def callv(self, t, a, env):
        vals = [self.ev(x, env) for x in a[1:]]
        for suf, f in self.contracts.items():
            if a[0].endswith(suf): return f(self, *vals)
        rt = self.p.ret_by_path(a[0])
        if rt is None: raise NoInterp("call of " + a[0])
        if self.body is not None and any(f["path"] == a[0] and f["local"] for f in self.p.insts):
            b = self.body(a[0])
            if b is None: raise NoInterp("no value known for " + a[0])
            return self.inbody(b, vals)
        return self.by_hash(rt, "call", a[0], *vals)
    def inbody(self, b, vals):
        """value of a function body for given arguments"""
        sv, sm = self.vals, self.memo
        if len(b[0]) != len(vals): raise NoInterp("arity")
        self.vals = dict(zip(b[0], vals)); self.memo = {}
        try: return self.ev(b[1], {})
        finally: self.vals, self.memo = sv, sm
    def e_call(self, t, a, env): return self.callv(t, a, env)
    def e_bcall(self, t, a, env): return self.callv(t, a, env)
