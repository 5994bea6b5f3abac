"""Hash-consed value graph: terms, decision diagrams, sequences.

A term is T(op, args).  Boolean conditions and values that depend on them are
ordered decision diagrams: T('ite', atom, hi, lo).  Aggregates, numbers,
sequences (comprehensions) and quantified atoms are other ops.  Constructors
normalise, so that equal terms mean equal values and most refactorings of a
computation produce the very same term.
"""
import sys
from fractions import Fraction
sys.setrecursionlimit(200000)

class T(object):
    __slots__ = ("op", "args", "id", "_fv", "_bh")
    def __repr__(self):
        return show(self)

_tab = {}
_all = []
def mk(op, *args):
    key = (op,) + tuple((a.id, 't') if isinstance(a, T) else (a if not isinstance(a, tuple) else _kt(a)) for a in args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op; t.args = args; t.id = len(_all); t._fv = None; t._bh = None
        _all.append(t); _tab[key] = t
    return t
def _kt(a):
    return tuple((x.id, 't') if isinstance(x, T) else (_kt(x) if isinstance(x, tuple) else x) for x in a)

TRUE = mk("true"); FALSE = mk("false"); UNIT = mk("tuple")
BOT = mk("bot")   # value on impossible (or panicking) paths: a don't-care
def Bool(b): return TRUE if b else FALSE
def Int(n): return mk("int", n)
def Num(q): return mk("num", Fraction(q))
def Str(s): return mk("str", s)
_fresh = [0]
def fresh(prefix="v"):
    _fresh[0] += 1
    return mk("var", "%s#%d" % (prefix, _fresh[0]))
def Var(n): return mk("var", n)

# ---------------------------------------------------------------- show
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple): return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    o, a = t.op, t.args
    if d > 40: return "…"
    if o == "var": return str(a[0])
    if o == "bvar": return "b%d" % a[0]
    if o in ("int", "num", "str"): return repr(a[0]) if o == "str" else str(a[0])
    if o in ("true", "false"): return o
    if o == "fld": return "%s.%s%s" % (show(a[0], d+1), ("%d:" % a[1]) if a[1] else "", a[2])
    if o == "ite": return "(%s ? %s : %s)" % (show(a[0], d+1), show(a[1], d+1), show(a[2], d+1))
    if o == "adt": return "%s#%d{%s}" % (a[0].split("::")[-1], a[1], ", ".join(show(x, d+1) for x in a[2:]))
    if o == "tuple": return "(%s)" % ", ".join(show(x, d+1) for x in a)
    if o == "lin":
        return "(" + " + ".join([str(a[0])] * (a[0] != 0) + ["%s*%s" % (c, show(x, d+1)) if c != 1 else show(x, d+1) for c, x in a[1]]) + ")"
    return "%s(%s)" % (o, ", ".join(show(x, d+1) for x in a))

# ---------------------------------------------------------------- generic
def children(t):
    for a in t.args:
        if isinstance(a, T): yield a
        elif isinstance(a, tuple):
            for x in _flat(a): yield x
def _flat(a):
    for x in a:
        if isinstance(x, T): yield x
        elif isinstance(x, tuple):
            for y in _flat(x): yield y

def fv(t):
    """free 'var' symbols (names) of a term"""
    if t._fv is None:
        if t.op in ("var", "bvar"): t._fv = frozenset((t,))
        else:
            s = frozenset()
            for c in children(t):
                f = fv(c)
                if f: s = s | f if s else f
            t._fv = s
    return t._fv
def bh(t):
    """height of bound-variable indices used in t"""
    if t._bh is None:
        m = 0
        if t.op == "bvar": m = t.args[0]
        for c in children(t):
            h = bh(c)
            if h > m: m = h
        t._bh = m
    return t._bh

def walk(t, seen=None):
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        yield x
        st.extend(children(x))

def contains_term(t, pred):
    return any(pred(x) for x in walk(t))

CONS = {}
BINDERS = {}   # op -> function(term, go): substitute under the binder
def rebuild(op, args):
    f = CONS.get(op)
    return f(*args) if f else mk(op, *args)

def subst(t, m):
    """capture-free substitution of 'var' (or any) terms; m: {T: T}"""
    if not m: return t
    keys = set(k for k in m)
    varonly = all(k.op in ("var", "bvar") for k in keys)
    memo = {}
    def go(x):
        if x in m: return m[x]
        if varonly and not (fv(x) & keys): return x
        r = memo.get(x.id)
        if r is not None: return r
        if x.op in BINDERS:
            r = BINDERS[x.op](x, go)
            memo[x.id] = r
            return r
        args = tuple(ga(a) for a in x.args)
        if all(p is q for p, q in zip(args, x.args)): r = x
        else: r = rebuild(x.op, args)
        memo[x.id] = r
        return r
    def ga(a):
        if isinstance(a, T): return go(a)
        if isinstance(a, tuple): 
            n = tuple(ga(y) for y in a)
            return a if all(p is q for p, q in zip(n, a)) else n
        return a
    return go(t)

# ---------------------------------------------------------------- decision diagrams
def top(t): return t.args[0].id if t.op == "ite" else None

AGG = ("adt", "tuple", "array", "closure")
def same_shape(a, b):
    if a.op != b.op or a.op not in AGG: return False
    if a.op == "adt": return a.args[:2] == b.args[:2] and len(a.args) == len(b.args)
    if a.op == "closure": return a.args[0] == b.args[0] and len(a.args) == len(b.args)
    return len(a.args) == len(b.args)

def _node(atom, hi, lo):
    if hi is lo: return hi
    if hi is BOT: return lo
    if lo is BOT: return hi
    if same_shape(hi, lo):
        k = {"adt": 2, "closure": 1}.get(hi.op, 0)
        return rebuild(hi.op, hi.args[:k] + tuple(ite(atom if atom.op == "ite" else _lit(atom), x, y) for x, y in zip(hi.args[k:], lo.args[k:])))
    if hi.op == "seqv" or lo.op == "seqv": pass
    return mk("ite", atom, hi, lo)
def _lit(atom): return mk("ite", atom, TRUE, FALSE)

_ite = {}
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if c is BOT: return BOT
    if a is b: return a
    if a is TRUE and b is FALSE: return c
    k = (c.id, a.id, b.id)
    r = _ite.get(k)
    if r is not None: return r
    assert c.op == "ite", "condition is not a diagram: %s" % show(c)
    v = c.args[0]
    for x in (a, b):
        if x.op == "ite" and x.args[0].id < v.id: v = x.args[0]
    def cof(x, s):
        if x.op == "ite" and x.args[0] is v: return x.args[1 if s else 2]
        return x
    hi = ite(cof(c, 1), cof(a, 1), cof(b, 1))
    lo = ite(cof(c, 0), cof(a, 0), cof(b, 0))
    if v.op == "is":
        hi = _excl(hi, v)
    elif v.op == "ex" and v.args[0] == 1 and hi.op == "ite":
        f = _exfacts(v)
        if f: hi = assume_map(hi, f.get)
    elif v.op in ("ipos", "ieq0"):
        hi = _intimp(hi, v, True); lo = _intimp(lo, v, False)
    elif v.op in ("flt", "feq", "isfinite"):
        hi = _ordimp(hi, v, True); lo = _ordimp(lo, v, False)
    r = _node(v, hi, lo)
    _ite[k] = r
    return r
_exf = {}
def _exfacts(v):
    """the least index with a property has it"""
    r = _exf.get(v.id)
    if r is None:
        (k,), _, ((n,), cond) = openb(v)
        c = subst(cond, {k: first(k, n, cond)})
        r = {}
        while c.op == "ite":
            if c.args[2] is FALSE: r[c.args[0]] = True; c = c.args[1]
            elif c.args[1] is FALSE: r[c.args[0]] = False; c = c.args[2]
            else: break
        _exf[v.id] = r
    return r
def _excl(t, v):
    """under is(x,k): every is(x,j) is decided"""
    return assume_map(t, lambda a: (a.args[1] == v.args[1]) if (a.op == "is" and a.args[0] is v.args[0]) else None)

def _lp(d):
    """(constant, linear part key)"""
    if d.op == "lin": return d.args[0], d.args[1]
    return 0, ((1, d),)
def intbounds(v, val):
    """what v = val says about its linear part: (linear part, lower, upper, excluded)"""
    c, L = _lp(v.args[0])
    if len(L) == 1 and L[0][0] < 0: return None
    if v.op == "ipos": return (L, 1 - c, None, None) if val else (L, None, -c, None)
    return (L, -c, -c, None) if val else (L, None, None, -c)
def intdecide(a, bd):
    """truth of the integer atom a under such bounds"""
    L, lo, hi, ne = bd
    d, M = _lp(a.args[0])
    if M != L: return None
    if a.op == "ipos":      # x > -d
        if lo is not None and lo > -d: return True
        if hi is not None and hi <= -d: return False
    else:                   # x == -d
        if lo is not None and lo == hi: return lo == -d
        if lo is not None and -d < lo: return False
        if hi is not None and -d > hi: return False
        if ne is not None and -d == ne: return False
    return None
def _intimp(t, v, val):
    """decide the integer atoms of t that v = val decides (same linear part)"""
    if t.op != "ite": return t
    bd = intbounds(v, val)
    if bd is None: return t
    return assume_map(t, lambda a: intdecide(a, bd) if a.op in ("ipos", "ieq0") else None)
def _ordimp(t, v, val):
    if t.op != "ite": return t
    if v.op == "flt" and val:
        a, b = v.args
        def f(x):
            if x.op == "flt" and x.args[0] is b and x.args[1] is a: return False
            if x.op == "feq":
                p, q = x.args
                if (p is a and q is b) or (p is b and q is a): return False
                if p is q and (p is a or p is b): return True
            return None
        return assume_map(t, f)
    if v.op == "feq":
        a, b = v.args
        if val:
            def f(x):
                if x.op == "flt" and ((x.args[0] is a and x.args[1] is b) or (x.args[0] is b and x.args[1] is a)): return False
                if x.op == "feq" and x.args[0] is x.args[1] and (x.args[0] is a or x.args[0] is b): return True
                return None
            return assume_map(t, f)
        if a is b:
            def f(x):
                if x.op in ("flt", "feq", "isfinite") and any(y is a for y in x.args): return False
                return None
            return assume_map(t, f)
        return t
    if v.op == "isfinite" and val:
        a = v.args[0]
        return assume_map(t, lambda x: True if (x.op == "feq" and x.args[0] is a and x.args[1] is a) else None)
    return t

def assume_map(t, f, memo=None):
    if t.op != "ite": return t
    if memo is None: memo = {}
    r = memo.get(t.id)
    if r is not None: return r
    d = f(t.args[0])
    if d is True: r = assume_map(t.args[1], f, memo)
    elif d is False: r = assume_map(t.args[2], f, memo)
    else:
        h = assume_map(t.args[1], f, memo); l = assume_map(t.args[2], f, memo)
        if h is t.args[1] and l is t.args[2]: r = t
        else: r = ite(_lit(t.args[0]), h, l)
    memo[t.id] = r
    return r

def Not(c): return ite(c, FALSE, TRUE)
def And(*cs):
    r = TRUE
    for c in cs: r = ite(r, c, FALSE) if c is not TRUE else r
    return r
def Or(*cs):
    r = FALSE
    for c in cs: r = ite(r, TRUE, c)
    return r
def Iff(a, b): return ite(a, b, Not(b))
def Implies(a, b): return ite(a, b, TRUE)

def cofactor(t, atom, val):
    return assume_map(t, lambda a: val if a is atom else None)

_restr = {}
def restrict(f, care):
    """simplify f given that care holds (generalised cofactor)"""
    if care is TRUE or care is FALSE: return f
    if f.op in AGG:
        k = {"adt": 2, "closure": 1}.get(f.op, 0)
        n = tuple(restrict(x, care) for x in f.args[k:])
        if all(p is q for p, q in zip(n, f.args[k:])): return f
        return rebuild(f.op, f.args[:k] + n)
    if f.op != "ite": return f
    k = (f.id, care.id)
    r = _restr.get(k)
    if r is not None: return r
    v = care.args[0]; fvv = f.args[0]
    if fvv.id < v.id:
        r = ite(_lit(fvv), restrict(f.args[1], care), restrict(f.args[2], care))
    else:
        c1, c0 = care.args[1], care.args[2]
        f1, f0 = (f.args[1], f.args[2]) if fvv is v else (f, f)
        if c1 is FALSE: r = restrict(f0, c0)
        elif c0 is FALSE: r = restrict(f1, c1)
        elif f1 is f0: # v not in f
            r = restrict(f, Or(c1, c0))
        else: r = ite(_lit(v), restrict(f1, c1), restrict(f0, c0))
    _restr[k] = r
    return r

def atoms(t, acc=None, seen=None):
    """atoms of the top diagram of t (not inside atoms)"""
    if acc is None: acc = []
    if seen is None: seen = set()
    def go(x):
        if x.op != "ite" or x.id in seen: return
        seen.add(x.id)
        if x.args[0] not in acc: acc.append(x.args[0])
        go(x.args[1]); go(x.args[2])
    go(t)
    return acc

def leaves(t, cond=TRUE):
    """(condition, leaf) pairs of a diagram, grouped by leaf"""
    out = {}
    order = []
    def go(x, path):
        if x.op == "ite":
            go(x.args[1], path + [(x.args[0], True)]); go(x.args[2], path + [(x.args[0], False)])
        else:
            if x not in out: out[x] = []; order.append(x)
            out[x].append(path)
    go(t, [])
    return [(x, out[x]) for x in order]

def lift(name, f, *args):
    """apply f to args, distributing over the diagrams in args"""
    v = None
    for a in args:
        if a is BOT: return BOT
        if isinstance(a, T) and a.op == "ite" and (v is None or a.args[0].id < v.id): v = a.args[0]
    if v is None: return f(*args)
    k = ("lift", name) + tuple(a.id if isinstance(a, T) else ("p", a) for a in args)
    r = _ite.get(k)
    if r is not None: return r
    def cof(a, s):
        if isinstance(a, T) and a.op == "ite" and a.args[0] is v: return a.args[1 if s else 2]
        return a
    hi = lift(name, f, *[cof(a, 1) for a in args])
    lo = lift(name, f, *[cof(a, 0) for a in args])
    r = ite(_lit(v), hi, lo)
    _ite[k] = r
    return r
def lifted(f):
    n = f.__name__
    def g(*args): return lift(n, f, *args)
    g.__name__ = n
    CONS[n] = g
    return g
def atom(op, *args): return _lit(mk(op, *args))
def _reatom(op):
    CONS[op] = lambda *args: mk(op, *args)

# 'ite' is rebuilt from an atom: the atom may have become a diagram
CONS["ite"] = lambda a, h, l: ite(a if a.op in ("ite", "true", "false") else _lit(a), h, l)

# ---------------------------------------------------------------- aggregates
def adt(path, variant, *fs): return mk("adt", path, variant, *fs)
def tup(*fs): return mk("tuple", *fs)

NVAR = {}   # path -> number of variants is attached to terms through types instead
@lifted
def fld(x, variant, i):
    if x.op == "adt":
        if x.args[1] == variant and len(x.args) > 2 + i: return x.args[2 + i]
        return BOT
    if x.op in ("tuple", "array"):
        return x.args[i]
    if x.op == "closure": return x.args[1 + i]
    return mk("fld", x, variant, i)

def isvar(x, k, n):
    """boolean: is x the k-th of n variants"""
    def f(x, k, n):
        if x.op == "adt": return Bool(x.args[1] == k)
        if n == 1: return TRUE
        if n == 2 and k == 1: return Not(atom("is", x, 0, n))
        if k == n - 1:
            return Not(Or(*[atom("is", x, j, n) for j in range(n - 1)]))
        return atom("is", x, k, n)
    return lift("isvar", f, x, k, n)
CONS["is"] = lambda x, k, n: isvar(x, k, n)

OPTION = "core::option::Option"; RESULT = "core::result::Result"; ORDERING = "core::cmp::Ordering"
def Some(x): return adt(OPTION, 1, x)
NONE = adt(OPTION, 0)
def Ok(x): return adt(RESULT, 0, x)
def Err(x): return adt(RESULT, 1, x)
LESS, EQUAL, GREATER = (adt(ORDERING, i) for i in range(3))

# ---------------------------------------------------------------- integers
def _lin(t):
    if t.op == "int": return t.args[0], {}
    if t.op == "lin": return t.args[0], {x: c for c, x in t.args[1]}
    return 0, {t: 1}
def _mklin(c, m):
    m = {x: k for x, k in m.items() if k != 0}
    if not m: return Int(c)
    if c == 0 and len(m) == 1:
        (x, k), = m.items()
        if k == 1: return x
    return mk("lin", c, tuple(sorted(((k, x) for x, k in m.items()), key=lambda p: p[1].id)))
@lifted
def iadd(a, b):
    c, m = _lin(a); d, n = _lin(b)
    m = dict(m)
    for x, k in n.items(): m[x] = m.get(x, 0) + k
    return _mklin(c + d, m)
@lifted
def imulc(a, k):
    c, m = _lin(a)
    return _mklin(c * k, {x: v * k for x, v in m.items()})
def isub(a, b): return iadd(a, imulc(b, -1))
def inat(d):
    """max(0, d)"""
    def f(d):
        if d.op == "int": return Int(max(0, d.args[0]))
        c, m = _lin(d)
        if nonneg(d): return d
        return mk("nat", d)
    return lift("inat", f, d)
CONS["nat"] = inat
def _factors(t): return _factors(t.args[0]) + _factors(t.args[1]) if t.op == "imul" else [t]
@lifted
def imul(a, b):
    if a.op == "int": return imulc(b, a.args[0])
    if b.op == "int": return imulc(a, b.args[0])
    if a.op == "lin" or b.op == "lin":
        c, m = _lin(a); d, n = _lin(b)
        r = _mklin(c * d, {})
        for x, k in m.items(): r = iadd(r, imulc(x, k * d))
        for y, k in n.items(): r = iadd(r, imulc(y, k * c))
        for x, j in m.items():
            for y, k in n.items(): r = iadd(r, imulc(imul(x, y), j * k))
        return r
    fs = sorted(_factors(a) + _factors(b), key=lambda x: x.id)
    r = fs[-1]
    for x in reversed(fs[:-1]): r = mk("imul", x, r)
    return r
def _quot(a, b):
    """a / b where every term of a has the factor b"""
    if b.op in ("lin", "int") or a.op == "int": return None
    c, m = _lin(a)
    if c: return None
    r = Int(0)
    for x, k in m.items():
        fs = _factors(x)
        if not any(y is b for y in fs): return None
        j = next(i for i, y in enumerate(fs) if y is b)
        q = Int(1)
        for i, y in enumerate(fs):
            if i != j: q = imul(q, y)
        r = iadd(r, imulc(q, k))
    return r
def nonneg(t):
    c, m = _lin(t)
    return c >= 0 and all(k > 0 and unsigned(x) for x, k in m.items())
@lifted
def divceil(a, b):
    if a.op == "int" and b.op == "int" and b.args[0] > 0: return Int(-(-a.args[0] // b.args[0]))
    if b.op == "int" and b.args[0] == 1: return a
    q = _quot(a, b)
    return mk("divceil", a, b) if q is None else q
CONS["divceil"] = divceil
def _cons_lin(c, ps):
    r = Int(c)
    for k, x in ps: r = iadd(r, imulc(x, k))
    return r
CONS["lin"] = _cons_lin
NONNEG = ("len", "at_usize", "bvar", "setlen")
@lifted
def ipos(d):
    """d > 0"""
    if d.op == "int": return Bool(d.args[0] > 0)
    c, m = _lin(d)
    if d.op == "len" and structured(d.args[0]): return nonempty(d.args[0])
    if d.op == "nat": return ipos(d.args[0])
    for x, k in m.items():
        if x.op == "nat" and k == 1 and len(m) > 1:      # nat(e) >= e
            r = isub(isub(d, x), imulc(x.args[0], -1))
            if r.op == "int" and r.args[0] > 0: return TRUE
    lead = min(m, key=lambda x: x.id)
    if m[lead] < 0:
        return Not(ipos(isub(Int(1), d)))
    if c > 0 and nonneg(d): return TRUE
    return atom("ipos", d)
def unsigned(t): return t.op in ("len", "umin", "umax", "nat", "idiv", "first") or (t.op == "var" and t.args[0].startswith("k#")) or t.op in ("bvar", "divceil") or (t.op == "imul" and unsigned(t.args[0]) and unsigned(t.args[1]))
def nonempty(S):
    r = FALSE
    for vs, ds, g, e in generators(S): r = Or(r, exists(vs, ds, g))
    return r
def ilt(a, b): return ipos(isub(b, a))
def ile(a, b): return ipos(iadd(isub(b, a), Int(1)))
@lifted
def ieq0(d):
    if d.op == "int": return Bool(d.args[0] == 0)
    c, m = _lin(d)
    lead = min(m, key=lambda x: x.id)
    if m[lead] < 0: d = imulc(d, -1); c, m = _lin(d)
    if c == 0 and len(m) == 1 and unsigned(lead): return Not(ipos(lead))
    return atom("ieq0", d)
def ieq(a, b): return ieq0(isub(a, b))
@lifted
def umin(a, b):
    if a is b: return a
    d = isub(a, b)
    if d.op == "int": return a if d.args[0] <= 0 else b
    if nonneg(d): return b
    if nonneg(imulc(d, -1)): return a
    for x, y in ((a, b), (b, a)):
        if x.op == "nat":
            d = isub(y, x.args[0])      # nat(e) <= y when y - e >= 0 and y >= 0
            if d.op == "int" and d.args[0] >= 0 and unsigned(y): return x
    if a.id > b.id: a, b = b, a
    return mk("umin", a, b)
@lifted
def umax(a, b):
    if a is b: return a
    d = isub(a, b)
    if d.op == "int": return a if d.args[0] >= 0 else b
    if nonneg(d): return a
    if nonneg(imulc(d, -1)): return b
    if a.id > b.id: a, b = b, a
    return mk("umax", a, b)
def iop(name):
    @lifted
    def f(a, b): return mk(name, a, b)
    CONS[name] = lambda a, b: lift(name, lambda x, y: _iconst(name, x, y), a, b)
    return CONS[name]
def _iconst(name, a, b):
    if a.op == "int" and b.op == "int":
        x, y = a.args[0], b.args[0]
        try:
            if name == "idiv" and y: return Int(int(x / y) if x * y < 0 else x // y)
            if name == "irem" and y:
                r = abs(x) % abs(y); return Int(-r if x < 0 else r)
            if name == "ixor": return Int(x ^ y)
            if name == "iand": return Int(x & y)
            if name == "ior": return Int(x | y)
            if name == "ishl": return Int(x << y)
            if name == "ishr": return Int(x >> y)
        except Exception: pass
    if name == "idiv" and b.op == "int" and b.args[0] == 1: return a
    if name in ("idiv", "irem"):
        q = _quot(a, b)
        if q is not None: return q if name == "idiv" else Int(0)
    if name in ("ixor", "iand", "ior") and a.id > b.id: a, b = b, a
    return mk(name, a, b)
idiv, irem, ixor, iand, ior, ishl, ishr = (iop(n) for n in ("idiv", "irem", "ixor", "iand", "ior", "ishl", "ishr"))

# ---------------------------------------------------------------- reals (type parameter C, f64)
def _n2(name, comm, fold):
    @lifted
    def f(a, b):
        if a.op == "num" and b.op == "num":
            r = fold(a.args[0], b.args[0])
            if r is not None: return Num(r)
        if name == "radd" and a.op == "num" and a.args[0] == 0: return b
        if name in ("radd", "rsub") and b.op == "num" and b.args[0] == 0: return a
        if name == "rmul" and a.op == "num" and a.args[0] == 1: return b
        if name in ("rmul", "rdiv") and b.op == "num" and b.args[0] == 1: return a
        if name in ("fmin", "fmax"):
            if a is b or b is VNAN: return a
            if a is VNAN: return b
            for x, c in ((a, b), (b, a)):
                if c.op == "num" and x.op in ("fmin", "fmax") and x.op != name:
                    for y in x.args:
                        # min(max(x, k), c) with k >= c, and the mirror image
                        if y.op == "num" and (y.args[0] >= c.args[0] if name == "fmin" else y.args[0] <= c.args[0]): return c
        if comm and a.id > b.id: a, b = b, a
        return mk(name, a, b)
    g = lambda a, b: lift(name, lambda x, y: f(x, y), a, b)
    CONS[name] = g
    return g
radd = _n2("radd", True, lambda x, y: x + y)
rsub = _n2("rsub", False, lambda x, y: x - y)
rmul = _n2("rmul", True, lambda x, y: x * y)
rdiv = _n2("rdiv", False, lambda x, y: x / y if y != 0 else None)
fmin = _n2("fmin", True, lambda x, y: min(x, y))
fmax = _n2("fmax", True, lambda x, y: max(x, y))
def _n1(name, fold=None):
    def f(a):
        if fold and a.op == "num":
            r = fold(a.args[0])
            if r is not None: return Num(r)
        return mk(name, a)
    g = lambda a: lift(name, f, a)
    CONS[name] = g
    return g
rneg = _n1("rneg", lambda x: -x)
rsqrt = _n1("rsqrt"); rfloor = _n1("rfloor")
def rabs(a): return lift("rabs", lambda x: Num(abs(x.args[0])) if x.op == "num" else ite(flt(x, Num(0)), rneg(x), x), a)
CONS["rabs"] = rabs
VNAN, VINF, VNINF = Var("NaN"), Var("inf"), Var("-inf")
def _c2(name, sym, fold, refl=None):
    def f(a, b):
        if a.op == "num" and b.op == "num": return Bool(fold(a.args[0], b.args[0]))
        if a is VNAN or b is VNAN: return FALSE
        for x, c in ((a, b), (b, a)):
            # clamped against a constant
            if name == "flt" and c.op == "num" and x.op in ("fmin", "fmax"):
                ks = [y.args[0] for y in x.args if y.op == "num"]
                if ks and x is b and x.op == "fmin" and ks[0] <= c.args[0]: return FALSE
                if ks and x is a and x.op == "fmax" and ks[0] >= c.args[0]: return FALSE
        if sym and a.id > b.id: a, b = b, a
        return atom(name, a, b)
    g = lambda a, b: lift(name, f, a, b)
    CONS[name] = g
    return g
flt = _c2("flt", False, lambda x, y: x < y)
feq = _c2("feq", True, lambda x, y: x == y)
def fle(a, b): return Or(flt(a, b), feq(a, b))
def _b1(name):
    def f(a):
        if a.op == "num": return Bool(name == "isfinite")
        if a is VNAN or a is VINF or a is VNINF: return Bool(name == "isnan" and a is VNAN)
        return atom(name, a)
    g = lambda a: lift(name, f, a)
    CONS[name] = g
    return g
isfinite = _b1("isfinite"); isnan = _b1("isnan")
def partial_cmp(a, b):
    return ite(flt(a, b), Some(LESS), ite(feq(a, b), Some(EQUAL), ite(flt(b, a), Some(GREATER), NONE)))

def meets(a, b): return atom("meets", *sorted((a, b), key=lambda t: t.id))
CONS["meets"] = meets
def boolatom(op):
    CONS[op] = lambda *args: lift(op, lambda *a: atom(op, *a), *args)
    return CONS[op]
bopaque = boolatom("bopaque")

# ---------------------------------------------------------------- binders
# A binder term is mk(op, n, h, outer..., inner...): its n bound variables are
# bvar(h+1..h+n); BIND[op] = (indices of outer args, indices of inner args).
BIND = {}
def bindmk(op, vs, outer, inner):
    """inner parts may use vs; outer parts may not.  Parts are terms or tuples of terms."""
    parts = list(inner)
    h = 0
    for p in parts: h = max(h, _bhp(p))
    m = {v: mk("bvar", h + 1 + i) for i, v in enumerate(vs)}
    return mk(op, len(vs), h, *(list(outer) + [_substp(p, m) for p in parts]))
def _bhp(p):
    return bh(p) if isinstance(p, T) else max([_bhp(x) for x in p] + [0])
def _substp(p, m):
    return subst(p, m) if isinstance(p, T) else tuple(_substp(x, m) for x in p)
def defbinder(op, nouter, cons):
    """cons(vs, *outer, *inner) rebuilds"""
    def b(t, go):
        n, h = t.args[0], t.args[1]
        vs = [fresh("k") for _ in range(n)]
        m = {mk("bvar", h + 1 + i): v for i, v in enumerate(vs)}
        def gp(p): return go(p) if isinstance(p, T) else tuple(gp(x) for x in p)
        outer = [gp(p) for p in t.args[2:2 + nouter]]
        inner = [gp(_substp(p, m)) for p in t.args[2 + nouter:]]
        return cons(vs, *(outer + inner))
    BINDERS[op] = b
def openb(t, nouter=0):
    n, h = t.args[0], t.args[1]
    vs = [fresh("k") for _ in range(n)]
    m = {mk("bvar", h + 1 + i): v for i, v in enumerate(vs)}
    return vs, list(t.args[2:2 + nouter]), [_substp(p, m) for p in t.args[2 + nouter:]]

def only_at(S, k, *ts):
    """k occurs in ts only inside at(S, k)"""
    return all(k not in fv(_abstract(t, at_raw(S, k))) for t in ts)
_hole = mk("var", "#hole")
def _abstract(t, x): return subst(t, {x: _hole})
def at_raw(S, k): return mk("at", S, k)

# ---------------------------------------------------------------- sequences
# seq terms: any opaque term S (unknown sequence), or
#   lit(e...)  cat(s...)  comp(n, h, doms, guard, elem)   flat(seq of seqs)
def lit(*es): return mk("lit", *es)
EMPTYSEQ = lit()
def cat(*ss):
    out = []
    for s in ss:
        if s is BOT: return BOT
        if s.op == "cat": out.extend(s.args)
        elif s is EMPTYSEQ: pass
        else: out.append(s)
    res = []
    for s in out:
        if s.op == "array": s = lit(*s.args)
        if res and s.op == "lit" and res[-1].op == "lit": res[-1] = lit(*(res[-1].args + s.args))
        else: res.append(s)
    if not res: return EMPTYSEQ
    if len(res) == 1: return res[0]
    return mk("cat", *res)
CONS["cat"] = cat

def structured(S):
    """S has a generator form better than its own index"""
    return S.op in ("lit", "cat", "flat", "array", "ite", "sorted") or (S.op == "comp")

def comp(vs, doms, guard, elem):
    """[elem | vs[i] < doms[i], guard]; doms[i] may use vs[:i]"""
    vs = list(vs); doms = list(doms)
    if guard is FALSE: return EMPTYSEQ
    if guard is BOT or elem is BOT: return BOT if guard is BOT else mk("comp", *_compargs(vs, doms, guard, elem))
    for i, d in enumerate(doms):
        if d.op == "int" and d.args[0] <= 0: return EMPTYSEQ
    if not vs:
        if guard is TRUE: return lit(elem)
        return ite(guard, lit(elem), EMPTYSEQ)
    # constant domain of one: substitute
    for i, d in enumerate(doms):
        if d.op == "int" and d.args[0] == 1:
            m = {vs[i]: Int(0)}
            return comp(vs[:i] + vs[i+1:], [subst(x, m) for j, x in enumerate(doms) if j != i], subst(guard, m), subst(elem, m))
    # eta: [at(S,k) | k < len S] = S
    if len(vs) == 1 and guard is TRUE and elem.op == "at" and elem.args[1] is vs[0] and vs[0] not in fv(elem.args[0]) \
            and doms[0] is seqlen(elem.args[0]):
        return elem.args[0]
    # fusion with a structured source (last binder or any): k < len(S), k only used in at(S,k)
    for i, d in enumerate(doms):
        S = _len_source2(d, vs[i], guard, elem, *doms[i+1:])
        if S is not None and structured(S) and not (fv(S) & set(vs[i:])) and only_at(S, vs[i], guard, elem, *doms[i+1:]):
            x = at_raw(S, vs[i])
            if S.op in ("cat", "lit", "array") and len(vs) > 1 and i > 0: continue   # order would change
            out = []
            for (ws, ds, g, e) in generators(S):
                m = {x: e}
                out.append(comp(vs[:i] + ws + vs[i+1:], doms[:i] + ds + [subst(q, m) for q in doms[i+1:]], And(g, subst(guard, m)), subst(elem, m)))
            if S.op == "ite":
                c = _lit(S.args[0])
                return ite(c, comp(vs, [subst(q, {S: S.args[1]}) for q in doms], subst(guard, {S: S.args[1]}), subst(elem, {S: S.args[1]})),
                              comp(vs, [subst(q, {S: S.args[2]}) for q in doms], subst(guard, {S: S.args[2]}), subst(elem, {S: S.args[2]})))
            if S.op in ("sorted", "store"): continue
            return cat(*out)
    return mk("comp", *_compargs(vs, doms, guard, elem))
def _compargs(vs, doms, guard, elem):
    t = bindmk("comp", vs, [], [tuple(doms), guard, elem])
    return t.args
def _len_source(d):
    if d.op == "len": return d.args[0]
    return None
def _len_source2(d, v, *ts):
    """the sequence whose length the domain d of v is and that v indexes"""
    S = _len_source(d)
    if S is not None: return S
    if d.op not in ("lin", "imul"): return None
    for t in ts:
        for x in walk(t):
            if x.op == "at" and x.args[1] is v and x.args[0].op in ("cat", "comp") and v not in fv(x.args[0]) and seqlen(x.args[0]) is d: return x.args[0]
    return None
def open_comp(c):
    vs, _, (doms, guard, elem) = openb(c)
    return vs, list(doms), guard, elem
defbinder("comp", 0, lambda vs, doms, guard, elem: comp(vs, doms, guard, elem))

def generators(s):
    """decompose a sequence into parts (vs, doms, guard, elem); order of parts is the order of elements
    except that a sorted sequence is given in its unsorted order"""
    if s.op in ("lit", "array"): return [([], [], TRUE, e) for e in s.args]
    if s.op == "cat": return [g for p in s.args for g in generators(p)]
    if s.op == "comp": return [open_comp(s)]
    if s.op in ("sorted",): return generators(s.args[0])
    if s.op == "ite":
        c = _lit(s.args[0])
        return [(v, d, And(c, g), e) for v, d, g, e in generators(s.args[1])] + \
               [(v, d, And(Not(c), g), e) for v, d, g, e in generators(s.args[2])]
    if s.op == "flat":
        out = []
        for vs, ds, g, e in generators(s.args[0]):
            for ws, dd, h, x in generators(e):
                out.append((list(vs) + list(ws), list(ds) + list(dd), And(g, h), x))
        return out
    if s.op == "bot": return []
    k = fresh("k")
    return [([k], [seqlen(s)], TRUE, at_raw(s, k))]

@lifted
def flat(s):
    """concatenation of a sequence of sequences"""
    if s.op in ("lit", "array"): return cat(*s.args)
    if s.op == "cat": return cat(*[flat(p) for p in s.args])
    if s.op == "comp":
        vs, doms, guard, elem = open_comp(s)
        if elem.op == "comp" or elem.op not in ("lit", "cat", "flat", "array", "ite", "sorted", "bot"):
            g = generators(elem)
            if len(g) == 1:
                ws, ds, h, e = g[0]
                return comp(vs + list(ws), doms + list(ds), And(guard, h), e)
        if elem.op == "lit" and len(elem.args) == 1: return comp(vs, doms, guard, elem.args[0])
        if elem.op == "ite":
            # Option-like: one branch empty
            parts = [x for x, _ in leaves(elem) if x is not EMPTYSEQ and x is not BOT]
            if len(parts) == 1 and parts[0].op not in ("cat", "flat"):
                p = parts[0]
                c = assume_leaf(elem, p)
                if len(generators(p)) == 1:
                    return flat(comp(vs, doms, And(guard, c), p))
    return mk("flat", s)
def assume_leaf(d, leaf):
    """condition under which diagram d has the given leaf"""
    if d.op != "ite": return Bool(d is leaf) if d is not BOT else BOT
    return ite(_lit(d.args[0]), assume_leaf(d.args[1], leaf), assume_leaf(d.args[2], leaf))

def rev(s):
    def f(s):
        if s.op in ("lit", "array"): return lit(*reversed(s.args))
        if s.op == "cat": return cat(*[rev(p) for p in reversed(s.args)])
        if s.op == "comp" and s.args[0] == 1:
            vs, doms, g, e = open_comp(s)
            k = fresh("k")
            m = {vs[0]: isub(isub(doms[0], Int(1)), k)}
            return comp([k], doms, subst(g, m), subst(e, m))
        if s.op == "comp" or s.op == "flat": return mk("rev", s)
        if s.op == "rev": return s.args[0]
        k = fresh("k"); n = seqlen(s)
        return comp([k], [n], TRUE, at(s, isub(isub(n, Int(1)), k)))
    return lift("rev", f, s)
CONS["rev"] = rev

def slice_(s, a, b):
    """s[a..b]"""
    n = isub(b, a)
    if a.op == "int" and a.args[0] == 0 and b is seqlen(s): return s
    if s.op in ("lit", "array") and a.op == "int" and b.op == "int": return lit(*s.args[a.args[0]:b.args[0]])
    if s.op == "cat" and a.op == "int":
        # drop leading literal elements
        i = a.args[0]; ps = list(s.args)
        off = Int(0)
        while ps and i > 0 and ps[0].op == "lit" and len(ps[0].args) <= i:
            i -= len(ps[0].args); off = iadd(off, Int(len(ps[0].args))); ps.pop(0)
        if off is not Int(0): return slice_(cat(*ps), Int(i), isub(b, off))
        if ps and ps[0].op == "lit" and 0 < i < len(ps[0].args):
            ps[0] = lit(*ps[0].args[i:])
            return slice_(cat(*ps), Int(0), isub(b, Int(i)))
        if i == 0 and b.op != "int" and s.args[-1].op == "lit":
            d = isub(seqlen(s), b)
            if d.op == "int" and 0 < d.args[0] <= len(s.args[-1].args):
                return cat(*(list(s.args[:-1]) + [lit(*s.args[-1].args[:-d.args[0]])]))
    k = fresh("k")
    return comp([k], [inat(n)], TRUE, at(s, iadd(a, k)))

@lifted
def seqlen(s):
    if s.op in ("lit", "array"): return Int(len(s.args))
    if s.op == "cat":
        r = Int(0)
        for p in s.args: r = iadd(r, seqlen(p))
        return r
    if s.op == "comp" and s.args[3] is TRUE:
        vs, doms, g, e = open_comp(s)
        if all(not (fv(d) & set(vs)) for d in doms):
            r = Int(1)
            for d in doms: r = imul(r, d)
            return r
    if s.op in ("rev", "sorted", "store"): return seqlen(s.args[0])
    return mk("len", s)
CONS["len"] = lambda s: seqlen(s)
@lifted
def at(s, i):
    if s.op in ("lit", "array") and i.op == "int" and 0 <= i.args[0] < len(s.args): return s.args[i.args[0]]
    if s.op in ("lit", "array") and i.op == "int": return BOT
    if s.op == "comp" and s.args[0] == 1 and s.args[3] is TRUE:
        n, h, doms, guard, elem = s.args
        return subst(elem, {mk("bvar", h + 1): i})
    if s.op == "comp" and i.op == "int" and i.args[0] == 0 and s.args[0] == 1:
        vs, doms, g, e = open_comp(s)
        return subst(e, {vs[0]: first(vs[0], doms[0], g)})
    if s.op == "cat" and i.op == "int":
        j = i.args[0]
        for p in s.args:
            n = seqlen(p)
            if n.op != "int":
                return mk("at", s, i)
            if j < n.args[0]: return at(p, Int(j))
            j -= n.args[0]
    if s.op == "cat" and s.args[-1].op == "lit":
        # last elements
        off = isub(i, isub(seqlen(s), Int(len(s.args[-1].args))))
        if off.op == "int" and 0 <= off.args[0] < len(s.args[-1].args): return s.args[-1].args[off.args[0]]
    if s.op == "cat" and s.args[0].op == "lit" and i.op != "int":
        pass
    if s.op == "store":
        return ite(ieq(s.args[1], i), s.args[2], at(s.args[0], i))
    return mk("at", s, i)
def store(s, i, v):
    def f(s, i, v):
        if s.op in ("lit", "array") and i.op == "int" and 0 <= i.args[0] < len(s.args):
            l = list(s.args); l[i.args[0]] = v
            return mk(s.op, *l)
        return mk("store", s, i, v)
    return lift("store", f, s, i, v)
CONS["store"] = store

def first(v, n, cond):
    """least v < n with cond (only meaningful where one exists)"""
    if cond is TRUE: return Int(0)
    if cond.op == "ite":
        free, cond = _split_free(cond, {v})      # holds wherever there is such a v
        if cond is TRUE: return Int(0)
        exists([v], [n], cond)               # decided before anything about the index
    return bindmk("first", [v], [], [n, cond])
defbinder("first", 0, lambda vs, n, cond: first(vs[0], n, cond))

# quantified atom: exists vs < doms . cond
def _nonempty_doms(doms, *ts):
    """simplify conditions that hold only where every domain is inhabited"""
    for d in doms:
        if d.op in ("int", "var"): continue
        p = ipos(d)
        if p.op != "ite" or p.args[0].op != "ipos" or p.args[1] not in (TRUE, FALSE) or p.args[2] not in (TRUE, FALSE): continue
        a = p.args[0]; v = p.args[1] is TRUE
        ts = [cofactor(_intimp(t, a, v), a, v) for t in ts]
    return ts
def _indom(v, d, t):
    """simplify t where v < d"""
    if d.op == "nat": d = d.args[0]
    elif d.op in ("int", "var", "ite"): return t
    p = ipos(isub(d, v))
    if p.op == "ite" and p.args[0].op == "ipos":
        if p.args[1] is TRUE and p.args[2] is FALSE: t = cofactor(_intimp(t, p.args[0], True), p.args[0], True)
        elif p.args[1] is FALSE and p.args[2] is TRUE: t = cofactor(_intimp(t, p.args[0], False), p.args[0], False)
    return t
def exists(vs, doms, cond):
    vs = list(vs); doms = list(doms)
    if cond is FALSE or cond is BOT: return FALSE
    if not vs: return cond
    if cond.op == "ite":
        cond, = _nonempty_doms(doms, cond)
        for v, d in zip(vs, doms): cond = _indom(v, d, cond)
        if cond is FALSE: return FALSE
    if cond.op != "ite" and cond is not TRUE: raise Exception("exists over non-boolean " + show(cond))
    for i, d in enumerate(doms):
        if d.op == "int" and d.args[0] <= 0: return FALSE
        if d.op == "int" and d.args[0] <= 4:
            r = FALSE
            for j in range(d.args[0]):
                m = {vs[i]: Int(j)}
                r = Or(r, exists(vs[:i] + vs[i+1:], [subst(x, m) for q, x in enumerate(doms) if q != i], subst(cond, m)))
            return r
    # unused binder
    for i, v in enumerate(vs):
        if v not in fv(cond) and not any(v in fv(d) for d in doms[i+1:]):
            rest = exists(vs[:i] + vs[i+1:], doms[:i] + doms[i+1:], And(cond, ipos(doms[i]))) if (fv(doms[i]) & set(vs)) else \
                And(ipos(doms[i]), exists(vs[:i] + vs[i+1:], doms[:i] + doms[i+1:], cond))
            return rest
    # fusion with structured sources
    for i, d in enumerate(doms):
        S = _len_source2(d, vs[i], cond, *doms[i+1:])
        if S is None or not structured(S) or (fv(S) & set(vs[i:])): continue
        if not only_at(S, vs[i], cond, *doms[i+1:]): continue
        if S.op == "store": continue
        x = at_raw(S, vs[i])
        r = FALSE
        for (ws, ds, g, e) in generators(S):
            m = {x: e}
            r = Or(r, exists(vs[:i] + list(ws) + vs[i+1:], doms[:i] + list(ds) + [subst(q, m) for q in doms[i+1:]], And(g, subst(cond, m))))
        return r
    # comp sources whose len is already reduced: nothing to do (at() already substituted)
    # split off common factor: conjuncts that do not use the binders
    fr, cond2 = _split_free(cond, set(vs))
    if fr is not TRUE and not any(fv(d) & set(vs) for d in doms):
        return And(fr, exists(vs, doms, cond2))
    # order binders canonically is not attempted (dependent domains)
    t = bindmk("ex", vs, [], [tuple(doms), cond])
    return _lit(t)
def _split_free(cond, vs):
    """cond == free AND rest, where free does not mention vs (top-level conjuncts only)"""
    free = TRUE
    changed = True
    while changed:
        changed = False
        for a in atoms(cond):
            if fv(a) & vs: continue
            if cofactor(cond, a, False) is FALSE:
                free = And(free, _lit(a)); cond = cofactor(cond, a, True); changed = True; break
            if cofactor(cond, a, True) is FALSE:
                free = And(free, Not(_lit(a))); cond = cofactor(cond, a, False); changed = True; break
    return free, cond
def open_ex(a):
    vs, _, (doms, cond) = openb(a)
    return vs, list(doms), cond
defbinder("ex", 0, lambda vs, doms, cond: exists(vs, doms, cond))

# reductions
def fold(v_acc, v_el, seq, init, step):
    """left fold of step(acc, el) over seq; the generator of seq is pushed into the step"""
    if seq is EMPTYSEQ: return init
    if seq is BOT: return BOT
    if v_acc not in fv(step) and seq.op in ("var", "fld"): pass
    if seq.op == "lit":
        r = init
        for e in seq.args: r = subst(step, {v_acc: r, v_el: e})
        return r
    if seq.op == "cat":
        r = init
        for p in seq.args: r = fold(v_acc, v_el, p, r, step)
        return r
    if seq.op == "ite":
        return ite(_lit(seq.args[0]), fold(v_acc, v_el, seq.args[1], init, step), fold(v_acc, v_el, seq.args[2], init, step))
    if seq.op == "comp" and seq.args[0] == 1:
        vs, ds, g, e = open_comp(seq)
        k, d = vs[0], ds[0]
        if e is k and g is TRUE:
            # index range: read one sequence only?
            t = subst(step, {v_el: k})
            for x in walk(t):
                if x.op == "at" and x.args[1] is k and k not in fv(x.args[0]) and not structured(x.args[0]):
                    h = fresh("el")
                    s2 = subst(t, {x: h})
                    if k not in fv(s2): return fold(v_acc, h, comp([k], [d], TRUE, x), init, s2)
                if x.op == "at" and x.args[1] is k and k not in fv(x.args[0]) and structured(x.args[0]) and seqlen(x.args[0]) is d:
                    h = fresh("el")
                    s2 = subst(t, {x: h})
                    if k not in fv(s2): return fold(v_acc, h, x.args[0], init, s2)
            return _mkfold(v_acc, v_el, seq, init, step)
        if g is TRUE and e.op == "at" and e.args[1] is k and k not in fv(e.args[0]) and not structured(e.args[0]):
            return _mkfold(v_acc, v_el, seq, init, step)
        a2 = fresh("acc")
        s2 = ite(g, subst(step, {v_acc: a2, v_el: e}), a2)
        return fold(a2, k, comp([k], [d], TRUE, k), init, s2)
    return _mkfold(v_acc, v_el, seq, init, step)
def joinadt(t):
    """a choice between values of one constructor as that constructor over choices"""
    if t.op != "ite": return t
    ls = [l for l, _ in leaves(t) if l is not BOT]
    if not ls or any(l.op != ls[0].op or l.op not in ("adt", "tuple") or l.args[:2] != ls[0].args[:2] and l.op == "adt" or len(l.args) != len(ls[0].args) for l in ls): return t
    k = 2 if ls[0].op == "adt" else 0
    memo = {}
    def go(x, i):
        if x is BOT: return BOT
        if x.op == "ite":
            r = memo.get((x.id, i))
            if r is None: r = memo[(x.id, i)] = ite(_lit(x.args[0]), go(x.args[1], i), go(x.args[2], i))
            return r
        return x.args[i]
    return mk(ls[0].op, *(ls[0].args[:k] + tuple(joinadt(go(t, i)) for i in range(k, len(ls[0].args)))))
def _mkfold(v_acc, v_el, seq, init, step):
    step = joinadt(step)
    return bindmk("fold", [v_acc, v_el], [seq, init], [step])
defbinder("fold", 2, lambda vs, seq, init, step: fold(vs[0], vs[1], seq, init, step))
@lifted
def rsum(seq):
    if seq.op == "lit":
        r = Num(0)
        for e in seq.args: r = radd(r, e)
        return r
    return mk("sum", seq)
CONS["sum"] = rsum
def last_of(k, n, guard, val, init):
    """val at the greatest k < n with guard, init if none"""
    if guard is TRUE:
        return ite(ipos(n), subst(val, {k: isub(n, Int(1))}), init)
    return bindmk("last", [k], [n, init], [guard, val])
defbinder("last", 2, lambda vs, n, init, guard, val: last_of(vs[0], n, guard, val, init))

# simultaneous recurrences: the i-th variable after `count` rounds, and after the last round of a conditional loop
def needed(vs, start, nexts):
    """the state variables on which those of start depend"""
    todo = set(start); done = set()
    pos = {x: i for i, x in enumerate(vs)}
    while todo:
        i = todo.pop(); done.add(i)
        for x in fv(nexts[i]):
            if x in pos and pos[x] not in done: todo.add(pos[x])
    return sorted(done)
def slice_sys(vs, idx, inits, nexts, also=()):
    """drop the state variables that do not matter: (vs, idx, inits, nexts)"""
    ks = needed(vs, [idx.args[0]] + [i for i, x in enumerate(vs) if any(x in fv(t) for t in also)], nexts)
    if len(ks) == len(vs): return vs, idx, inits, nexts
    return [vs[i] for i in ks], Int(ks.index(idx.args[0])), tuple(inits[i] for i in ks), tuple(nexts[i] for i in ks)
def sysval(vs, idx, count, inits, nexts):
    """vs = [k, x1..xm]; x_i(0) = inits_i, x_i(k+1) = nexts_i(k, x(k))"""
    if count.op == "int" and count.args[0] == 0: return inits[idx.args[0]]
    xs, idx, inits, nexts = slice_sys(vs[1:], idx, inits, nexts); vs = vs[:1] + xs
    return bindmk("sys", vs, [idx, count, inits], [nexts])
def sysbool(vs, idx, count, inits, nexts):
    if count.op == "int" and count.args[0] == 0: return inits[idx.args[0]]
    xs, idx, inits, nexts = slice_sys(vs[1:], idx, inits, nexts); vs = vs[:1] + xs
    return _lit(bindmk("bsys", vs, [idx, count, inits], [nexts]))
def whval(vs, idx, inits, back, nexts):
    vs, idx, inits, nexts = slice_sys(vs, idx, inits, nexts, (back,))
    return bindmk("wh", vs, [idx, inits], [back, nexts])
def whbool(vs, idx, inits, back, nexts):
    vs, idx, inits, nexts = slice_sys(vs, idx, inits, nexts, (back,))
    return _lit(bindmk("bwh", vs, [idx, inits], [back, nexts]))
def whex(vs, inits, back, nexts, cond):
    """some round reached has cond"""
    if cond is FALSE: return FALSE
    return _lit(bindmk("whex", vs, [inits], [back, nexts, cond]))
defbinder("sys", 3, sysval); defbinder("bsys", 3, sysbool)
defbinder("wh", 2, whval); defbinder("bwh", 2, whbool); defbinder("whex", 1, whex)

# sets: set(kind, seq): the elements of seq; tog(kind, seq): toggled in turn
def mkset(kind, seq): return mk("set", kind, seq)
