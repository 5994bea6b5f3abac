"""Semantics of the library calls the crate makes (std collections, iterators,
num_traits, ordered_float), as constructors of the value graph.

model(ev, callee, args, st, frame, span, rawargs, result type) returns
(value, state), or None when the callee is not a modelled library function.
"""
from terms import *
import eval as E
from eval import Unsupported, leafconds, lift_nc, valeq, mget, mset, NOTNAN, St

RANGE = "core::ops::range::Range"; RANGEI = "core::ops::range::RangeInclusive"
RANGEFROM = "core::ops::range::RangeFrom"; RANGETO = "core::ops::range::RangeTo"
FLOATISNAN = "ordered_float::FloatIsNan"
INTS = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize")
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "u128": 128, "i128": 128}

def peel(p, t):
    while t is not None and t.get("k") in ("ref", "ptr"): t = p.tys[t["t"]]
    return t
def selfty(ev, cal):
    return ev.p.tys[cal["self"]] if cal.get("self") is not None and cal["self"] >= 0 else None
def klass(ev, fr, t):
    """real / int / bool / other"""
    if t is None: return "other"
    if t["k"] == "float": return "real"
    if t["k"] == "bool": return "bool"
    if t["k"] in ("int", "uint", "char") or t["s"] in INTS: return "int"
    if t["k"] == "param":
        if fr is not None and ev.p.is_real_param(fr.f, t["name"]): return "real"
        if fr is not None and "PrimInt" in ev.p.real[fr.f["env"]]: return "int"
    return "other"

def D(ev, st, v): return ev.deref(st, v)

# ------------------------------------------------------------ equality by type
def eqval(ev, st, fr, t, a, b, sp, depth=0):
    """PartialEq::eq at type t; returns a condition"""
    a, b = D(ev, st, a), D(ev, st, b)
    t = peel(ev.p, t)
    if t is None: return valeq(a, b)
    k = klass(ev, fr, t)
    if k == "real": return feq(a, b)
    if k == "int": return ieq(a, b)
    if k == "bool": return Iff(a, b)
    if t["k"] == "tuple":
        r = TRUE
        for i, x in enumerate(t["ts"]): r = And(r, eqval(ev, st, fr, ev.p.tys[x], fld(a, 0, i), fld(b, 0, i), sp, depth))
        return r
    if t["k"] == "adt":
        if t["path"] == NOTNAN: return feq(fld(a, 0, 0), fld(b, 0, 0))
        i = ev.p.method(t["path"], "core::cmp::PartialEq", "eq")
        if i is not None:
            v, s2 = ev.call_inst(i, [a, b], St(st.pc, dict(st.mem)), fr)
            return v
        if t["path"] in (OPTION, RESULT):
            n = len(t["variants"]); r = FALSE
            for j, vv in enumerate(t["variants"]):
                c = And(isvar(a, j, n), isvar(b, j, n))
                for q, x in enumerate(vv["fields"]): c = And(c, eqval(ev, st, fr, ev.p.tys[x[1]], fld(a, j, q), fld(b, j, q), sp, depth))
                r = Or(r, c)
            return r
        if t["path"] == "core::marker::PhantomData": return TRUE
        if is_seq_ty(t): return seq_eq(ev, st, fr, elem_ty(ev, t), a, b, sp)
    if t["k"] in ("slice", "array"): return seq_eq(ev, st, fr, elem_ty(ev, t), a, b, sp)
    return valeq(a, b)
def seq_eq(ev, st, fr, et, a, b, sp):
    k = fresh("k")
    n = seqlen(a)
    c = eqval(ev, st, fr, et, at(a, k), at(b, k), sp)
    return And(ieq(n, seqlen(b)), Not(exists([k], [n], Not(c))))
SEQS = ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque")
def is_seq_ty(t):
    return t is not None and (t["k"] in ("slice", "array") or (t["k"] == "adt" and t["path"] in SEQS))
def elem_ty(ev, t):
    t = peel(ev.p, t)
    if t is None: return None
    if t["k"] in ("slice", "array"): return ev.p.tys[t["t"]]
    if t["k"] == "adt" and t["args"]: return ev.p.tys[t["args"][0]]
    return None
def kind_of(t):
    """category of a container type"""
    if t is None: return None
    s = t.get("path", "") if t["k"] == "adt" else t["k"]
    for n in ("BTreeSet", "HashSet", "BTreeMap", "HashMap", "VecDeque", "BinaryHeap"):
        if s.endswith("::" + n): return n
    if s == "alloc::vec::Vec" or s in ("slice", "array"): return "Vec"
    return None

# ------------------------------------------------------------ iterators
def rest(ev, st, it):
    """sequence of the elements an iterator still yields"""
    it = D(ev, st, it)
    def f(it):
        if it.op == "iter":
            if it.args[1].op == "int" and it.args[1].args[0] == 0: return it.args[0]
            return slice_(it.args[0], it.args[1], seqlen(it.args[0]))
        return toseq(ev, st, it)
    return lift_nc(f, it)
def toseq(ev, st, v):
    """elements of an iterable value"""
    v = D(ev, st, v)
    def f(v):
        if v.op == "iter": return rest(ev, st, v)
        if v.op == "adt":
            p = v.args[0]
            if p == RANGE:
                k = fresh("k"); a, b = v.args[2], v.args[3]
                return comp([k], [inat(isub(b, a))], TRUE, iadd(a, k))
            if p == RANGEI:
                k = fresh("k"); a, b = v.args[2], v.args[3]
                return comp([k], [inat(iadd(isub(b, a), Int(1)))], TRUE, iadd(a, k))
            if p == OPTION: return lit(*v.args[2:]) if v.args[1] == 1 else EMPTYSEQ
        if v.op == "set": return usorted(v) if v.args[0] == "B" else mk("hashorder", v)
        if v.op in ("tog",): return usorted(v) if v.args[0] == "B" else mk("hashorder", v)
        if v.op in ("mset", "mnew"): return mk("mapitems", v)
        return v
    return lift_nc(f, v)
def usorted(s): return mk("usorted", s)
def optseq(o):
    """Option -> sequence of 0 or 1 elements"""
    return ite(isvar(o, 1, 2), lit(fld(o, 1, 0)), EMPTYSEQ)
def mkiter(seq):
    return lift_nc(lambda s: mk("iter", s, Int(0)), seq)

class Sub(object):
    """context for evaluating a closure at a symbolic element"""
    pass
def app1(ev, f, x, st, fr, sp, k=None, n=None, guard=TRUE):
    """value of f(x...) with the state unchanged; notes effectful closures"""
    s2 = St(guard, dict(st.mem))
    if k is not None: ev.ctx.append((k, n))
    base = ev.base
    ev.base = And(ev.base, st.pc)
    try:
        v, s3 = ev.apply(f, x if isinstance(x, list) else [x], s2, fr, sp)
    finally:
        ev.base = base
        if k is not None: ev.ctx.pop()
    if s3 is None: return BOT
    for c, old in st.mem.items():
        if s3.mem.get(c, BOT) is not old and c in st.mem and s3.mem.get(c) is not None:
            ev.note("closure with side effects in an iterator adapter", sp)
            break
    return ev.deep(s3, v)
def domain(S):
    """(binder, length, element) to index a sequence"""
    k = fresh("k"); n = seqlen(S)
    return k, n, at(S, k)
def per_elem(ev, st, S, fn):
    """[fn(e) | e in S] where fn returns (guard, elem)"""
    def one(S):
        if S is BOT: return BOT
        if S.op == "cat": return cat(*[one(p) for p in S.args])
        if S.op in ("lit", "array"):
            out = []
            for e in S.args:
                g, v = fn(e, None, None)
                out.append(ite(g, lit(v), EMPTYSEQ))
            return cat(*out)
        if S.op == "comp":
            vs, ds, g, e = open_comp(S)
            if len(vs) == 1:
                gg, v = fn(e, vs[0], ds[0])
                return comp(vs, ds, And(g, gg), v)
        k, n, e = domain(S)
        g, v = fn(e, k, n)
        return comp([k], [n], g, v)
    return lift_nc(one, S)

ADAPT = {}
def adapter(*names):
    def d(f):
        for n in names: ADAPT[n] = f
        return f
    return d
class C(object):
    """one call"""
    def __init__(self, **kw): self.__dict__.update(kw)

@adapter("map")
def _map(c):
    return per_elem(c.ev, c.st, c.S, lambda e, k, n: (TRUE, app1(c.ev, c.args[1], e, c.st, c.fr, c.sp, k, n)))
@adapter("filter")
def _filter(c):
    def fn(e, k, n):
        g = app1(c.ev, c.args[1], e, c.st, c.fr, c.sp, k, n)
        return g, e
    return per_elem(c.ev, c.st, c.S, fn)
@adapter("filter_map")
def _filter_map(c):
    def fn(e, k, n):
        o = app1(c.ev, c.args[1], e, c.st, c.fr, c.sp, k, n)
        return isvar(o, 1, 2), fld(o, 1, 0)
    return per_elem(c.ev, c.st, c.S, fn)
@adapter("flat_map")
def _flat_map(c):
    return flat(per_elem(c.ev, c.st, c.S, lambda e, k, n: (TRUE, toseq2(c.ev, c.st, app1(c.ev, c.args[1], e, c.st, c.fr, c.sp, k, n)))))
@adapter("flatten")
def _flatten(c):
    return flat(per_elem(c.ev, c.st, c.S, lambda e, k, n: (TRUE, toseq2(c.ev, c.st, e))))
def toseq2(ev, st, v):
    v = D(ev, st, v)
    def f(v):
        if v.op == "adt" and v.args[0] == OPTION: return lit(*v.args[2:]) if v.args[1] == 1 else EMPTYSEQ
        return toseq(ev, st, v)
    return lift_nc(f, v)
@adapter("enumerate")
def _enumerate(c):
    def f(S):
        if S.op in ("lit", "array"): return lit(*[tup(Int(i), e) for i, e in enumerate(S.args)])
        k, n, e = domain(S)
        return comp([k], [n], TRUE, tup(k, e))
    return lift_nc(f, c.S)
@adapter("zip")
def _zip(c):
    o = toseq(c.ev, c.st, c.args[1])
    def f(a, b):
        if b.op == "adt" and b.args[0] == RANGEFROM:
            k, n, e = domain(a)
            return comp([k], [n], TRUE, tup(e, iadd(b.args[2], k)))
        if a.op == "adt" and a.args[0] == RANGEFROM:
            k, n, e = domain(b)
            return comp([k], [n], TRUE, tup(iadd(a.args[2], k), e))
        k = fresh("k"); n = umin(seqlen(a), seqlen(b))
        return comp([k], [n], TRUE, tup(at(a, k), at(b, k)))
    return lift("zip%d" % fresh().id, f, c.S, o)
@adapter("skip")
def _skip(c):
    n = seqlen(c.S)
    return lift_nc(lambda S: slice_(S, c.args[1], seqlen(S)), c.S)
@adapter("take")
def _take(c):
    return lift_nc(lambda S: slice_(S, Int(0), umin(c.args[1], seqlen(S))), c.S)
@adapter("chain")
def _chain(c): return lift("chain", cat, c.S, toseq2(c.ev, c.st, c.args[1]))
@adapter("rev")
def _rev(c): return rev(c.S)
@adapter("copied", "cloned", "by_ref", "fuse", "peekable", "into_iter", "iter", "iter_mut", "inspect")
def _same(c): return c.S
@adapter("step_by")
def _step(c):
    def f(S):
        k = fresh("k"); n = seqlen(S)
        return comp([k], [idiv(iadd(n, isub(c.args[1], Int(1))), c.args[1])], TRUE, at(S, imul(k, c.args[1])))
    return lift_nc(f, c.S)
@adapter("cartesian_product")
def _cart(c):
    o = toseq(c.ev, c.st, c.args[1])
    def f(a, b):
        i, n, x = domain(a); j, m, y = domain(b)
        return comp([i, j], [n, m], TRUE, tup(x, y))
    return lift("cart", f, c.S, o)
@adapter("take_while", "skip_while", "map_while")
def _tw(c):
    S = c.S
    if S.op == "ite":
        r = BOT
        for lf, cc in leafconds(S):
            if lf is BOT: continue
            c.S = lf; r = ite(cc, _tw(c), r) if r is not BOT else _tw(c)
        c.S = S
        return r
    k, n, e = domain(S)
    o = app1(c.ev, c.args[1], e, c.st, c.fr, c.sp, k, n)
    bad = Not(o) if c.name != "map_while" else Not(isvar(o, 1, 2))
    x = exists([k], [n], bad)
    m = ite(x, first(k, n, bad), n)
    if c.name == "skip_while": return lift_nc(lambda m: slice_(S, m, n), m)
    r = lift_nc(lambda m: slice_(S, Int(0), m), m)
    if c.name == "map_while":
        r = per_elem(c.ev, c.st, r, lambda e, k, n: (TRUE, fld(app1(c.ev, c.args[1], e, c.st, c.fr, c.sp, k, n), 1, 0)))
    return r
def windows(S, w):
    def f(S):
        k = fresh("k"); n = seqlen(S)
        if w.op == "int": return comp([k], [inat(iadd(isub(n, w), Int(1)))], TRUE, lit(*[at(S, iadd(k, Int(i))) for i in range(w.args[0])]))
        return comp([k], [inat(iadd(isub(n, w), Int(1)))], TRUE, slice_(S, k, iadd(k, w)))
    return lift_nc(f, S)
def chunks(S, w):
    def f(S):
        j = fresh("k"); n = seqlen(S)
        return comp([j], [divceil(n, w)], TRUE, slice_(S, imul(j, w), umin(n, imul(iadd(j, Int(1)), w))))
    return lift_nc(f, S)

# ------------------------------------------------------------ terminal iterator operations
def nextop(ev, st, m):
    """Iterator::next through a mutable reference"""
    res = BOT
    for lf, c in leafconds(m):
        if lf is BOT: continue
        it = D(ev, st, lf)
        def val(it):
            if it.op == "iter":
                S, i = it.args
                return ite(ilt(i, seqlen(S)), Some(at(S, i)), NONE)
            if it.op == "adt" and it.args[0] == RANGE:
                return ite(ilt(it.args[2], it.args[3]), Some(it.args[2]), NONE)
            S = toseq(ev, st, it)
            return ite(ilt(Int(0), seqlen(S)), Some(at(S, Int(0))), NONE)
        def nx(it):
            if it.op == "iter":
                S, i = it.args
                return mkit(S, ite(ilt(i, seqlen(S)), iadd(i, Int(1)), i))
            if it.op == "adt" and it.args[0] == RANGE:
                a, b = it.args[2], it.args[3]
                return adt(RANGE, 0, ite(ilt(a, b), iadd(a, Int(1)), a), b)
            S = toseq(ev, st, it)
            return mkit(S, ite(ilt(Int(0), seqlen(S)), Int(1), Int(0)))
        def mkit(S, i): return lift_nc(lambda j: mk("iter", S, j), i)
        v = lift_nc(val, it)
        if lf.op == "mref":
            ev.store_at(st, lf.args[0], lf.args[1], lift_nc(nx, it), c)
        res = v if c is TRUE else ite(c, v, res)
    return res

def loop_over(ev, st, fr, sp, S, body, init, what):
    """run the loop summariser over the elements of S.
    body(st, elem, cells) -> list of (tag, St): tag None continues.
    returns dict tag -> St; 'done' for normal completion"""
    import loops
    cells = [ev.newcell(None, None, "acc") for _ in init]
    itc = ev.newcell(None, None, "it")
    st = St(st.pc, dict(st.mem))
    for c, v in zip(cells, init): st.mem[c] = v
    st.mem[itc] = mkiter(S)
    def step(s):
        m = mk("mref", itc, ())
        o = nextop(ev, s, m)
        some = isvar(o, 1, 2)
        backs, exits = [], []
        p0 = And(s.pc, Not(some))
        if p0 is not FALSE: exits.append(("done", St(p0, dict(s.mem))))
        p1 = And(s.pc, some)
        if p1 is not FALSE:
            s1 = St(p1, dict(s.mem))
            for tag, s2 in body(s1, fld(o, 1, 0), cells):
                if s2 is None or s2.pc is FALSE: continue
                if tag is None: backs.append(s2)
                else: exits.append((tag, s2))
        return backs, exits
    live = set(cells) | {itc}
    out = loops.summarise(ev, st, step, lambda c: True, sp, fr.f["path"] if fr else "?", what)
    res = {}
    for tag, s in out: res.setdefault(tag, []).append(s)
    res = {t: ev.join(ss) for t, ss in res.items()}
    for s in res.values():
        if s is not None: s.mem.pop(itc, None)
    return res, cells
def finish(ev, res, valfn):
    """join the outcomes of a loop with values"""
    cell = ev.newcell()
    outs = []
    for tag, s in res.items():
        if s is None: continue
        s = St(s.pc, dict(s.mem)); s.mem[cell] = valfn(tag, s); outs.append(s)
    j = ev.join(outs)
    if j is None: return BOT, None
    return j.mem.pop(cell), j

def split(ev, s, c):
    a, b = And(s.pc, c), And(s.pc, Not(c))
    return (St(a, dict(s.mem)) if a is not FALSE else None), (St(b, dict(s.mem)) if b is not FALSE else None)

TERMINAL = {}
def terminal(*names):
    def d(f):
        for n in names: TERMINAL[n] = f
        return f
    return d
@terminal("any", "all", "find", "position", "find_map")
def _search(c):
    ev, st, fr, sp = c.ev, c.st, c.fr, c.sp
    S = c.S
    valcell = ev.newcell(None, None, "val")
    if S.op == "ite":
        outs = []; cell = ev.newcell()
        for lf, cc in leafconds(S):
            pc = And(st.pc, cc)
            if pc is FALSE or lf is BOT: continue
            c.S = lf; c.st = St(pc, dict(st.mem))
            v, s1 = _search(c)
            if s1 is not None: s1 = St(s1.pc, dict(s1.mem)); s1.mem[cell] = v; outs.append(s1)
        c.S = S; c.st = st
        j = ev.join(outs)
        if j is None: return BOT, None
        return j.mem.pop(cell), j
    def body(s, e, cells):
        r, s2 = ev.apply(c.args[1], [e], s, fr, sp)
        if s2 is None: return []
        hit = r if c.name != "all" else Not(r)
        if c.name == "find_map": hit = isvar(r, 1, 2); s2.mem[valcell] = r
        elif c.name == "find": s2.mem[valcell] = Some(e)
        elif c.name == "position": s2.mem[valcell] = Some(s2.mem[cells[0]])
        else: s2.mem[valcell] = TRUE
        h, m = split(ev, s2, hit)
        if m is not None:
            m.mem.pop(valcell, None)
            if c.name == "position": m.mem[cells[0]] = iadd(m.mem[cells[0]], Int(1))
        return [("hit", h), (None, m)]
    res, cells = loop_over(ev, st, fr, sp, S, body, [Int(0)] if c.name == "position" else [], c.name)
    def val(tag, s):
        if c.name == "any": return Bool(tag == "hit")
        if c.name == "all": return Bool(tag != "hit")
        return s.mem[valcell] if tag == "hit" else NONE
    return finish(ev, res, val)
@terminal("for_each", "fold")
def _fold(c):
    ev, st, fr, sp = c.ev, c.st, c.fr, c.sp
    isf = c.name == "fold"
    def body(s, e, cells):
        r, s2 = ev.apply(c.args[-1], [s.mem[cells[0]], e] if isf else [e], s, fr, sp)
        if s2 is None: return []
        if isf: s2.mem[cells[0]] = r
        return [(None, s2)]
    S = c.S
    if S.op == "ite":
        outs = {}
        for lf, cc in leafconds(S):
            s1 = St(And(st.pc, cc), dict(st.mem))
            res, cells = loop_over(ev, s1, fr, sp, lf, body, [c.args[1]] if isf else [], c.name)
            d = res.get("done")
            if d is not None: outs[lf.id] = d; d.mem[-1] = d.mem[cells[0]] if isf else UNIT
        j = ev.join(list(outs.values()))
        if j is None: return BOT, None
        return j.mem.pop(-1), j
    res, cells = loop_over(ev, st, fr, sp, S, body, [c.args[1]] if isf else [], c.name)
    return finish(ev, res, lambda tag, s: s.mem[cells[0]] if isf else UNIT)
def by_alternatives(f):
    """a terminal applied to each alternative of its sequence"""
    def g(c):
        S, st = c.S, c.st
        if S.op != "ite": return f(c)
        outs = []; cell = c.ev.newcell()
        for lf, cc in leafconds(S):
            pc = And(st.pc, cc)
            if pc is FALSE or lf is BOT: continue
            c.S = lf; c.st = St(pc, dict(st.mem))
            v, s1 = f(c)
            if s1 is not None: s1 = St(s1.pc, dict(s1.mem)); s1.mem[cell] = v; outs.append(s1)
        c.S = S; c.st = st
        j = c.ev.join(outs)
        if j is None: return BOT, None
        return j.mem.pop(cell), j
    return g
@terminal("try_for_each", "try_fold")
@by_alternatives
def _tryfold(c):
    ev, st, fr, sp = c.ev, c.st, c.fr, c.sp
    path = c.retty["path"] if c.retty is not None and c.retty["k"] == "adt" else None
    if path not in (RESULT, OPTION): raise Unsupported("%s into %s" % (c.name, path))
    good = 0 if path == RESULT else 1
    isf = c.name == "try_fold"
    valcell = ev.newcell(None, None, "val")
    def body(s, e, cells):
        r, s2 = ev.apply(c.args[-1], [s.mem[cells[0]], e] if isf else [e], s, fr, sp)
        if s2 is None: return []
        m, h = split(ev, s2, isvar(r, good, 2))
        if h is not None: h.mem[valcell] = r if path == RESULT else NONE
        if m is not None and isf: m.mem[cells[0]] = fld(r, good, 0)
        return [("hit", h), (None, m)]
    res, cells = loop_over(ev, st, fr, sp, c.S, body, [c.args[1]] if isf else [], c.name)
    def val(tag, s):
        if tag == "hit": return adt(RESULT, 1, fld(s.mem[valcell], 1, 0)) if path == RESULT else NONE
        return adt(path, good, s.mem[cells[0]] if isf else UNIT)
    return finish(ev, res, val)
@terminal("reduce")
@by_alternatives
def _reduce(c):
    ev, st, fr, sp = c.ev, c.st, c.fr, c.sp
    n = seqlen(c.S); some = ilt(Int(0), n)
    outs = []; cell = ev.newcell()
    s0 = St(And(st.pc, Not(some)), dict(st.mem))
    if s0.pc is not FALSE: s0.mem[cell] = NONE; outs.append(s0)
    s1 = St(And(st.pc, some), dict(st.mem))
    if s1.pc is not FALSE:
        def body(s, e, cells):
            r, s2 = ev.apply(c.args[1], [s.mem[cells[0]], e], s, fr, sp)
            if s2 is None: return []
            s2.mem[cells[0]] = r
            return [(None, s2)]
        rest = lift_nc(lambda S: slice_(S, Int(1), seqlen(S)), c.S)
        res, cells = loop_over(ev, s1, fr, sp, rest, body, [at(c.S, Int(0))], c.name)
        v, s2 = finish(ev, res, lambda tag, s: Some(s.mem[cells[0]]))
        if s2 is not None: s2.mem[cell] = v; outs.append(s2)
    j = ev.join(outs)
    if j is None: return BOT, None
    return j.mem.pop(cell), j
@terminal("partition")
def _partition(c):
    ev, st, fr, sp = c.ev, c.st, c.fr, c.sp
    def side(neg):
        def fn(e, k, n):
            g = app1(ev, c.args[1], e, st, fr, sp, k, n)
            return (Not(g) if neg else g), e
        return per_elem(ev, st, c.S, fn)
    t = c.retty; t = ev.p.tys[t["ts"][0]] if t is not None and t["k"] == "tuple" else None
    if kind_of(t) not in ("Vec", "VecDeque", "BTreeSet", "HashSet"): raise Unsupported("partition")
    return tup(*[collect(ev, st, fr, side(neg), t, sp) for neg in (False, True)]), st
@terminal("peek")
def _peek(c):
    s = St(c.st.pc, dict(c.st.mem))
    return nextop(c.ev, s, c.args[0]), c.st
@terminal("count", "len")
def _count(c): return seqlen(c.S), c.st
@terminal("sum")
def _sum(c):
    t = c.retty
    return (rsum(c.S) if klass(c.ev, c.fr, t) == "real" else isum(c.S)), c.st
def isum(S):
    return lift_nc(lambda S: mk("isum", S), S)
@terminal("last")
def _last(c):
    n = seqlen(c.S)
    return ite(ilt(Int(0), n), Some(at(c.S, isub(n, Int(1)))), NONE), c.st
@terminal("nth")
def _nth(c):
    n = seqlen(c.S); i = c.args[1]
    v = ite(ilt(i, n), Some(at(c.S, i)), NONE)
    m = c.args[0]
    def adv(it):
        def f(it):
            if it.op == "iter":
                return lift_nc(lambda j: mk("iter", it.args[0], j), umin(seqlen(it.args[0]), iadd(it.args[1], iadd(i, Int(1)))))
            return it
        return lift_nc(f, it)
    c.ev.mwrite(c.st, m, adv)
    return v, c.st
@terminal("next")
def _next(c): return nextop(c.ev, c.st, c.args[0]), c.st
@terminal("size_hint")
def _sh(c): return tup(seqlen(c.S), Some(seqlen(c.S))), c.st
@terminal("collect")
def _collect(c): return collect(c.ev, c.st, c.fr, c.S, c.retty, c.sp), c.st
@terminal("unzip")
def _unzip(c):
    return tup(per_elem(c.ev, c.st, c.S, lambda e, k, n: (TRUE, fld(e, 0, 0))), per_elem(c.ev, c.st, c.S, lambda e, k, n: (TRUE, fld(e, 0, 1)))), c.st
def collect(ev, st, fr, S, t, sp):
    kd = kind_of(t)
    if kd in ("Vec", "VecDeque"): return S
    if kd == "BTreeSet": return mkset("B", S)
    if kd == "HashSet": return mkset("H", S)
    if t is not None and t["k"] == "adt" and t["path"] in (RESULT, OPTION):
        bad = (1, 2) if t["path"] == RESULT else (0, 2)
        good = 1 - bad[0]
        if S.op == "ite":
            r = BOT
            for lf, cc in leafconds(S): r = ite(cc, collect(ev, st, fr, lf, t, sp), r) if r is not BOT else collect(ev, st, fr, lf, t, sp)
            return r
        k, n, e = domain(S)
        isbad = isvar(e, *bad)
        x = exists([k], [n], isbad)
        inner = per_elem(ev, st, S, lambda e, k, n: (TRUE, fld(e, good, 0)))
        inner = collect(ev, st, fr, inner, ev.p.tys[t["args"][0]], sp)
        w = at(S, first(k, n, isbad)) if x is not FALSE else BOT
        fail = adt(RESULT, 1, fld(w, 1, 0)) if bad[0] == 1 else NONE
        return ite(x, fail, adt(t["path"], good, inner))
    if kd in ("HashMap", "BTreeMap"): return mk("mapof", kd, S)
    ev.note("collect into %s" % (t["s"] if t else "?"), sp)
    return mk("collect", t["s"] if t else "?", S)
@terminal("min", "max", "min_by", "max_by", "min_by_key", "max_by_key", "product", "eq", "partial_cmp", "cmp", "is_sorted")
def _unsup(c):
    c.ev.note("iterator operation " + c.name, c.sp)
    return mk("iterop", c.name, c.S, *[c.ev.deep(c.st, a) for a in c.args[1:]]), c.st

# ------------------------------------------------------------ model
def model(ev, cal, args, st, fr, sp, rawargs, retty):
    path, name, trait = cal["path"], cal["name"], cal["trait"]
    rp = cal["rpath"] or path
    t0 = selfty(ev, cal)
    t = peel(ev.p, t0)
    p = ev.p
    d = lambda i: D(ev, st, args[i])
    # crate functions: evaluated from their bodies
    if cal["inst"] is not None and p.insts[cal["inst"]]["local"]: return None
    if cal["local"] and cal["inst"] is None:
        if trait and trait.endswith("HasEnvelope") and name == "envelope":
            return mk("envof", ev.deep(st, args[0])), st
        return None
    k = klass(ev, fr, t)
    # ---- panics
    if name in ("begin_panic", "panic_fmt", "panic", "unwrap_failed", "expect_failed", "panic_display", "unreachable_display", "panic_explicit", "unwrap_failed_inner", "panic_nounwind", "assert_failed", "assert_failed_inner", "panic_str_2015") and cal["inst"] is None or name in ("begin_panic", "unwrap_failed", "expect_failed"):
        msg = args[0].args[0] if args and isinstance(args[0], T) and args[0].op == "str" else None
        ev.panic("panic", TRUE, st, sp, fr.f["path"] if fr else "?", msg)
        return BOT, None
    # ---- Option / Result unwrap
    if path.startswith("core::option::") or path.startswith("core::result::"):
        if name in ("unwrap", "expect", "unwrap_err", "expect_err"):
            isopt = path.startswith("core::option::")
            x = d(0)
            good = 1 if isopt else (1 if name.endswith("_err") else 0)
            c = isvar(x, good, 2)
            ev.panic("unwrap", Not(c), st, sp, fr.f["path"] if fr else "?", x)
            s2 = St(And(st.pc, c), st.mem)
            if s2.pc is FALSE: return BOT, None
            return fld(x, good, 0), s2
        if cal["inst"] is None:
            if name in ("iter", "into_iter"): return mkiter(optseq(d(0))), st
            if name in ("cloned", "copied", "as_ref", "as_deref"): return d(0), st
            if name == "as_mut": return optmut(ev, st, args[0]), st
            if name == "take" and args[0].op in ("mref", "ite"):
                v = d(0); ev.mwrite(st, args[0], lambda old: NONE); return v, st
            if name == "replace":
                v = d(0); ev.mwrite(st, args[0], lambda old: Some(args[1])); return v, st
    # ---- trivial identities
    if name == "clone" and trait == "core::clone::Clone": return d(0), st
    if name in ("to_owned", "borrow", "as_ref", "deref", "as_slice", "as_mut_slice", "to_vec", "into_boxed_slice", "into_vec", "as_deref") and cal["inst"] is None: return d(0) if name != "as_mut_slice" else args[0], st
    if name in ("deref_mut", "borrow_mut", "as_mut") and cal["inst"] is None and trait: return args[0], st
    if path == "core::intrinsics::discriminant_value" or name == "discriminant_value":
        v = d(0); return ev.discr(v, t or peel(p, p.tys[cal["args"][0]])), st
    if path.startswith("core::intrinsics::integer_"): return Var(name), st
    if path.startswith("core::mem::"):
        if name == "swap":
            a, b = d(0), d(1)
            ev.mwrite(st, args[0], lambda old: b); ev.mwrite(st, args[1], lambda old: a)
            return UNIT, st
        if name == "replace":
            v = d(0); ev.mwrite(st, args[0], lambda old: args[1]); return v, st
        if name in ("drop", "forget"): return UNIT, st
        if name == "discriminant": return ev.discr(d(0), peel(p, p.tys[cal["args"][0]])), st
    if path == "core::mem::drop" or name == "drop" and trait is None: return UNIT, st
    if path.startswith("core::fmt") or (trait or "").startswith("core::fmt"):
        if name in ("must_use",): return args[0], st
        return mk("fmtresult"), st
    if path.startswith("alloc::fmt") or "::fmt::" in path: return Str("<formatted>"), st
    if name == "new_uninit": 
        c = ev.newcell(None, None, "box"); st.mem[c] = BOT
        return mk("mref", c, ()), st
    if name == "box_assume_init_into_vec_unsafe":
        return D(ev, st, args[0]), st
    if rp.startswith("alloc::boxed") and name == "new": return args[0], st
    # ---- NotNan
    if rp.startswith("ordered_float"):
        if name == "new": return ite(isnan_(d(0)), Err(adt(FLOATISNAN, 0)), Ok(adt(NOTNAN, 0, d(0)))), st
        if name in ("into_inner", "deref", "as_ref"): return fld(d(0), 0, 0), st
        if name in ("eq", "ne"):
            r = feq(fld(d(0), 0, 0), fld(d(1), 0, 0)); return (r if name == "eq" else Not(r)), st
        if name in ("add", "sub", "mul", "div", "neg") and trait and trait.startswith("core::ops::arith"):
            # the result of an operation that gives NaN is refused by a panic
            raw = [E.lift_nc(lambda x: fld(x, 0, 0) if p.tys[u]["k"] == "adt" and p.tys[u].get("path") == NOTNAN or x.op == "adt" else x, d(q)) for q, u in enumerate((cal["args"] * 2)[:len(args)])]
            v = {"add": radd, "sub": rsub, "mul": rmul, "div": rdiv}[name](*raw) if name != "neg" else rneg(raw[0])
            bad = isnan_(v)
            if bad is not FALSE: ev.panic("NaN", bad, st, sp, fr.f["path"] if fr else "?")
            return adt(NOTNAN, 0, v), st
        if name in ("unchecked_new", "new_unchecked"): return adt(NOTNAN, 0, d(0)), st
    # ---- conversions
    if name == "into" and trait == "core::convert::Into" and cal["inst"] is None:
        tgt = p.tys[cal["args"][1]] if len(cal["args"]) > 1 else retty
        src = p.tys[cal["args"][0]]
        if tgt is not None and src["s"] == tgt["s"]: return args[0], st
        return mk("into", tgt["s"] if tgt else "?", d(0)), st
    if name == "from" and trait == "core::convert::From" and cal["inst"] is None:
        if retty is not None and klass(ev, fr, retty) in ("real", "int"): return d(0), st
        if t is not None and t["k"] == "adt" and t["path"] in SEQS: return toseq(ev, st, args[0]), st
    if name in ("try_from", "try_into") and cal["inst"] is None: return mk("tryconv", retty["s"] if retty else "?", d(0)), st
    if trait == "num_traits::cast::NumCast" and name == "from":
        v = d(0)
        if k == "real": return Some(lift_nc(lambda v: Num(v.args[0]) if v.op == "int" else (v if v.op == "num" else mk("itof", v)), v)), st
        return mk("numcast", t["s"] if t else "?", v), st
    if trait == "num_traits::cast::ToPrimitive" or (name.startswith("to_") and name[3:] in INTS + ("f64", "f32")):
        if name in ("to_f64", "to_f32"): return lift_nc(lambda v: mk("rconv", name, v), d(0)), st
        return lift_nc(lambda v: mk("toint", name[3:], v), d(0)), st
    # ---- numbers
    r = number(ev, cal, args, st, fr, k, name, trait, t, d, sp)
    if r is not None: return r
    # ---- PartialEq / PartialOrd on other types
    if trait == "core::cmp::PartialEq" and name in ("eq", "ne"):
        if cal["inst"] is None or (t is not None and t["k"] in ("tuple",)):
            if name == "ne":
                for w, i in cal["aux"]:
                    if w == "eq":
                        v, s2 = ev.call_inst(i, args, st, fr)
                        return Not(v), s2
            return (lambda x: x if name == "eq" else Not(x))(eqval(ev, st, fr, t, args[0], args[1], sp)), st
        if name == "ne":
            for w, i in cal["aux"]:
                if w == "eq":
                    v, s2 = ev.call_inst(i, args, st, fr)
                    return Not(v), s2
        return None
    if trait == "core::cmp::PartialOrd" and name in ("lt", "le", "gt", "ge"):
        for w, i in cal["aux"]:
            if w == "partial_cmp":
                v, s2 = ev.call_inst(i, args, st, fr)
                def f(o):
                    some = isvar(o, 1, 2); x = fld(o, 1, 0)
                    want = {"lt": [0], "le": [0, 1], "gt": [2], "ge": [1, 2]}[name]
                    rr = FALSE
                    for w in want: rr = Or(rr, isvar(x, w, 3))
                    return And(some, rr)
                return f(v), s2
        return None
    # ---- sequences, sets, maps, iterators
    return container(ev, cal, args, st, fr, sp, retty, path, name, trait, rp, t, d)

def isnan_(a): return Not(feq(a, a))
def optmut(ev, st, m):
    m0 = m
    if m.op == "mref":
        o = D(ev, st, m)
        sh = ("adt", OPTION, 1, 1)
        return ite(isvar(o, 1, 2), Some(mk("mref", m.args[0], m.args[1] + (("f", 1, 0, sh),))), NONE)
    raise Unsupported("as_mut")

def number(ev, cal, args, st, fr, k, name, trait, t, d, sp):
    path = cal["path"]
    tr = trait or ""
    if k == "real":
        if tr.startswith("core::ops::arith::"):
            if name in ("add", "sub", "mul", "div"):
                return {"add": radd, "sub": rsub, "mul": rmul, "div": rdiv}[name](d(0), d(1)), st
            if name == "neg": return rneg(d(0)), st
            if name == "rem": return lift("rrem", lambda a, b: mk("rrem", a, b), d(0), d(1)), st
            if name in ("add_assign", "sub_assign", "mul_assign", "div_assign"):
                f = {"a": radd, "s": rsub, "m": rmul, "d": rdiv}[name[0]]
                y = d(1)
                ev.mwrite(st, args[0], lambda old: f(old, y)); return UNIT, st
        if name == "eq": return feq(d(0), d(1)), st
        if name == "ne": return Not(feq(d(0), d(1))), st
        if name == "lt": return flt(d(0), d(1)), st
        if name == "le": return fle(d(0), d(1)), st
        if name == "gt": return flt(d(1), d(0)), st
        if name == "ge": return fle(d(1), d(0)), st
        if name == "partial_cmp": return partial_cmp(d(0), d(1)), st
        if name == "min": return fmin(d(0), d(1)), st
        if name == "max": return fmax(d(0), d(1)), st
        if name == "zero": return Num(0), st
        if name == "one": return Num(1), st
        if name == "is_zero": return feq(d(0), Num(0)), st
        if name == "is_finite": return isfinite(d(0)), st
        if name == "is_nan": return isnan_(d(0)), st
        if name == "is_infinite": return And(Not(isfinite(d(0))), feq(d(0), d(0))), st
        if name in ("nan",): return Var("NaN"), st
        if name == "infinity": return Var("inf"), st
        if name == "neg_infinity": return Var("-inf"), st
        if name == "sqrt": return rsqrt(d(0)), st
        if name == "abs": return rabs(d(0)), st
        if name == "floor": return rfloor(d(0)), st
        if name == "recip": return rdiv(Num(1), d(0)), st
        if name == "powi":
            n = d(1)
            if n.op == "int" and 0 <= n.args[0] <= 8:
                r = Num(1)
                for _ in range(n.args[0]): r = rmul(r, d(0))
                return r, st
        if name in ("max_value", "min_value", "epsilon", "min_positive_value"): return mk("konst", name, "real"), st
        if name == "clone": return d(0), st
        if name in ("mul_add",): return radd(rmul(d(0), d(1)), d(2)), st
        if name in ("hypot",): return rsqrt(radd(rmul(d(0), d(0)), rmul(d(1), d(1)))), st
        if cal["inst"] is None and (tr.startswith("num_traits") or path.startswith("core::f64") or path.startswith("std::f64") or path.startswith("core::num")):
            return mk("rfun", name, *[d(i) for i in range(len(args))]), st
    if k == "int":
        bits = BITS.get(t["s"], 64)
        if tr.startswith("core::ops::"):
            ops = {"add": iadd, "sub": isub, "mul": imul, "div": idiv, "rem": irem, "bitxor": ixor, "bitand": iand, "bitor": ior, "shl": ishl, "shr": ishr}
            if name in ops:
                a, b = d(0), d(1)
                if name in ("div", "rem"): ev.panic("divzero", ieq(b, Int(0)), st, sp, fr.f["path"] if fr else "?")
                return ops[name](a, b), st
            if name.endswith("_assign") and name[:-7] in ops:
                f = ops[name[:-7]]; y = d(1)
                ev.mwrite(st, args[0], lambda old: f(old, y)); return UNIT, st
            if name == "neg": return imulc(d(0), -1), st
            if name == "not": return ixor(d(0), Int((1 << bits) - 1)), st
        if name == "eq": return ieq(d(0), d(1)), st
        if name == "ne": return Not(ieq(d(0), d(1))), st
        if name == "lt": return ilt(d(0), d(1)), st
        if name == "le": return ile(d(0), d(1)), st
        if name == "gt": return ilt(d(1), d(0)), st
        if name == "ge": return ile(d(1), d(0)), st
        if name == "cmp": return ite(ilt(d(0), d(1)), LESS, ite(ieq(d(0), d(1)), EQUAL, GREATER)), st
        if name == "partial_cmp": return Some(ite(ilt(d(0), d(1)), LESS, ite(ieq(d(0), d(1)), EQUAL, GREATER))), st
        if name == "min": return umin(d(0), d(1)), st
        if name == "max": return umax(d(0), d(1)), st
        if name == "zero": return Int(0), st
        if name == "one": return Int(1), st
        if name == "is_zero": return ieq(d(0), Int(0)), st
        if name in ("max_value",): return Int((1 << bits) - 1 if t["s"][0] == "u" else (1 << (bits - 1)) - 1), st
        if name in ("min_value",): return Int(0 if t["s"][0] == "u" else -(1 << (bits - 1))), st
        if name == "saturating_sub" and t["s"][0] == "u": return inat(isub(d(0), d(1))), st
        if name == "saturating_add": return umin(iadd(d(0), d(1)), Int((1 << bits) - 1)), st
        if name in ("wrapping_add",): return iadd(d(0), d(1)), st
        if name in ("wrapping_sub",):
            x = isub(d(0), d(1))
            return (x if nonneg(x) or t["s"][0] != "u" else ite(ilt(x, Int(0)), iadd(x, Int(1 << bits)), x)), st
        if name in ("wrapping_mul",): return imul(d(0), d(1)), st
        if name == "checked_sub" and t["s"][0] == "u": return ite(ile(d(1), d(0)), Some(isub(d(0), d(1))), NONE), st
        if name == "checked_add": return Some(iadd(d(0), d(1))), st
        if name == "checked_mul": return Some(imul(d(0), d(1))), st
        if name in ("is_power_of_two",): return ispow2(d(0)), st
        if name == "next_power_of_two": return npow2(d(0)), st
        if name in ("trailing_zeros", "leading_zeros", "count_ones", "pow", "abs", "rem_euclid", "div_euclid", "ilog2", "checked_div", "abs_diff", "is_multiple_of", "div_ceil", "next_multiple_of", "swap_bytes", "rotate_left", "rotate_right", "reverse_bits", "signum"):
            a = [d(i) for i in range(len(args))]
            if name in ("trailing_zeros", "leading_zeros") and bits != 64:
                # counted in the width of the type
                if name[0] == "t": return ite(ieq0(a[0]), Int(bits), ifun(name, a[0])), st
                return isub(ifun(name, a[0]), Int(64 - bits)), st
            if name in ("rem_euclid", "div_euclid") and t["s"][0] == "u": return (irem if name[0] == "r" else idiv)(a[0], a[1]), st
            if name == "is_multiple_of": return ieq(irem(a[0], a[1]), Int(0)), st
            if name == "div_ceil": return divceil(*a), st
            return lift(("ifun", name), lambda *x: ifun(name, *x), *a), st
        if name == "clone": return d(0), st
    return None
def ifun(name, *x):
    if all(y.op == "int" for y in x):
        v = [y.args[0] for y in x]
        if name == "pow": return Int(v[0] ** v[1])
        if name == "count_ones": return Int(bin(v[0]).count("1"))
        if name == "trailing_zeros": return Int((v[0] & -v[0]).bit_length() - 1) if v[0] else Int(64)
        if name == "abs": return Int(abs(v[0]))
    return mk("ifun", name, *x)
def ispow2(a):
    # n == next_power_of_two(n)
    return lift_nc(lambda a: ieq(a, mk("npow2", a)) if a.op != "int" else Bool(a.args[0] > 0 and a.args[0] & (a.args[0] - 1) == 0), a)

def setelems(s):
    """sequence whose elements are those of a plain set"""
    return s.args[1]
def setcontains(ev, st, fr, s, x):
    def f(s):
        if s.op == "set":
            S = s.args[1]
            k, n, e = domain(S)
            return exists([k], [n], valeq(e, x))
        return atom("inset", s, x)
    return lift_nc(f, s)
def setempty(s):
    def f(s):
        if s.op == "set": return Not(ilt(Int(0), seqlen(s.args[1])))
        return ieq(setlen(s), Int(0))
    return lift_nc(f, s)
def setlen(s):
    return lift_nc(lambda s: mk("setlen", s), s)

def container(ev, cal, args, st, fr, sp, retty, path, name, trait, rp, t, d):
    p = ev.p
    kd = kind_of(t)
    fn = fr.f["path"] if fr else "?"
    # constructors
    if name in ("new", "with_capacity", "default") and (kd or rp.startswith("alloc::vec") or rp.startswith("alloc::collections") or rp.startswith("std::collections")) and (not args or name == "with_capacity"):
        kd = kd or kind_of(retty)
        if kd in ("Vec", "VecDeque", None): return EMPTYSEQ, st
        if kd == "BTreeSet": return mkset("B", EMPTYSEQ), st
        if kd == "HashSet": return mkset("H", EMPTYSEQ), st
        if kd in ("HashMap", "BTreeMap"): return mk("mnew", kd[0]), st
    if kd in ("HashMap", "BTreeMap") or (t is not None and t["k"] == "adt" and "::Entry" in t["path"]) or "hash::map" in rp:
        r = mapop(ev, cal, args, st, fr, sp, name, t, d, kd)
        if r is not None: return r
    if kd in ("BTreeSet", "HashSet"):
        r = setop(ev, cal, args, st, fr, sp, name, d, kd, trait)
        if r is not None: return r
    iterlike = trait == "core::iter::traits::iterator::Iterator" or trait == "core::iter::traits::double_ended::DoubleEndedIterator" or trait == "core::iter::traits::exact_size::ExactSizeIterator" or (trait or "").startswith("itertools")
    if trait == "core::iter::traits::collect::IntoIterator" or name in ("into_iter",):
        v = d(0)
        if t is not None and t["k"] == "adt" and t["path"] == RANGE: return v, st
        return lift_nc(lambda v: v if v.op == "iter" else mkiter(toseq2(ev, st, v)), v), st
    if iterlike:
        if name in ADAPT or name in TERMINAL:
            c = C(ev=ev, st=st, fr=fr, sp=sp, args=args, name=name, retty=retty, S=None)
            if name in ("next", "by_ref"):
                if name == "by_ref": return args[0], st
                return _next(c)
            c.S = rest(ev, st, args[0])
            if name in TERMINAL: return TERMINAL[name](c)
            return mkiter(ADAPT[name](c)), st
        if name == "next_back":
            it = d(0)
            ev.note("next_back", sp)
            return mk("call", "next_back", it), st
        ev.note("iterator operation " + name, sp)
        return mk("iterop", name, *[ev.deep(st, a) for a in args]), st
    if trait == "core::iter::traits::collect::Extend" and name == "extend" or name in ("extend_from_slice", "append"):
        S = toseq2(ev, st, args[1])
        if kd in ("BTreeSet", "HashSet"):
            ev.mwrite(st, args[0], lambda old: lift("sx", lambda o, S: mkset(o.args[0], cat(o.args[1], S)), old, S)); return UNIT, st
        ev.mwrite(st, args[0], lambda old: lift("cat", cat, old, S))
        if name == "append": ev.mwrite(st, args[1], lambda old: EMPTYSEQ)
        return UNIT, st
    if trait == "core::iter::traits::collect::FromIterator" and name == "from_iter":
        return collect(ev, st, fr, toseq2(ev, st, args[0]), retty or t, sp), st
    seqish = kd in ("Vec", "VecDeque") or rp.startswith("alloc::vec") or rp.startswith("core::slice") or rp.startswith("alloc::slice") or "vec_deque" in rp or (trait in ("core::ops::index::Index", "core::ops::index::IndexMut"))
    if seqish:
        r = seqop(ev, cal, args, st, fr, sp, name, t, d, retty, trait, fn)
        if r is not None: return r
    if path.startswith("core::panicking"): 
        ev.panic("panic", TRUE, st, sp, fn, args[0].args[0] if args and args[0].op == "str" else None)
        return BOT, None
    if path.startswith("core::ptr") and name in ("drop_in_place",): return UNIT, st
    if path.startswith("core::hint"): return (args[0] if args else UNIT), st
    if name in ("contains",) and t is not None and t.get("path") in (RANGE, RANGEI):
        x = d(1); r0 = d(0); lo, hi = fld(r0, 0, 0), fld(r0, 0, 1)
        if klass(ev, fr, peel(p, p.tys[t["args"][0]])) == "real":
            return And(fle(lo, x), (flt if t["path"] == RANGE else fle)(x, hi)), st
        return And(ile(lo, x), (ilt if t["path"] == RANGE else ile)(x, hi)), st
    return None

def seqop(ev, cal, args, st, fr, sp, name, t, d, retty, trait, fn):
    p = ev.p
    et = elem_ty(ev, t)
    if name == "len": return seqlen(d(0)), st
    if name == "is_empty": return Not(ilt(Int(0), seqlen(d(0)))), st
    if name in ("iter", "into_iter"): return mkiter(d(0)), st
    if name == "iter_mut":
        raise Unsupported("iter_mut")
    if name in ("capacity",): return mk("cap", d(0)), st
    if name in ("shrink_to_fit", "reserve", "reserve_exact"): return UNIT, st
    if name in ("push", "push_back"):
        x = args[1]
        ev.mwrite(st, args[0], lambda old: lift("push", lambda o, x: cat(o, lit(x)), old, x) if x.op == "zz" else lift_nc(lambda o: cat(o, lit(x)), old))
        return UNIT, st
    if name == "push_front":
        x = args[1]
        ev.mwrite(st, args[0], lambda old: lift_nc(lambda o: cat(lit(x), o), old)); return UNIT, st
    if name in ("pop", "pop_back"):
        S = d(0); n = seqlen(S)
        v = lift_nc(lambda S: ite(ilt(Int(0), seqlen(S)), Some(at(S, isub(seqlen(S), Int(1)))), NONE), S)
        ev.mwrite(st, args[0], lambda old: lift_nc(lambda S: droplast(S), old))
        return v, st
    if name == "pop_front":
        S = d(0)
        v = lift_nc(lambda S: ite(ilt(Int(0), seqlen(S)), Some(at(S, Int(0))), NONE), S)
        ev.mwrite(st, args[0], lambda old: lift_nc(lambda S: ite(ilt(Int(0), seqlen(S)), slice_(S, Int(1), seqlen(S)), S), old))
        return v, st
    if name in ("first", "front"):
        return lift_nc(lambda S: ite(ilt(Int(0), seqlen(S)), Some(at(S, Int(0))), NONE), d(0)), st
    if name in ("last", "back"):
        return lift_nc(lambda S: ite(ilt(Int(0), seqlen(S)), Some(at(S, isub(seqlen(S), Int(1)))), NONE), d(0)), st
    if name in ("get", "index", "get_unchecked") or (name == "index_mut") or name == "get_mut":
        S = d(0); i = D(ev, st, args[1])
        if i.op == "adt" and (i.args[0].startswith("core::ops::range") or i.args[0].startswith("core::range")):
            lo, hi = Int(0), seqlen(S)
            pth = i.args[0]
            if pth.endswith("::Range"): lo, hi = i.args[2], i.args[3]
            elif pth.endswith("RangeInclusive"): lo, hi = i.args[2], iadd(i.args[3], Int(1))
            elif pth.endswith("RangeFrom"): lo = i.args[2]
            elif pth.endswith("RangeTo"): hi = i.args[2]
            elif pth.endswith("RangeToInclusive"): hi = iadd(i.args[2], Int(1))
            ok = And(ile(lo, hi), ile(hi, seqlen(S)))
            v = lift("slice%d" % fresh().id, lambda S, a, b: slice_(S, a, b), S, lo, hi)
            if name == "get": return ite(ok, Some(v), NONE), st
            ev.panic("slice", Not(ok), st, sp, fn, (seqlen(S), hi))
            if name == "index": return v, st
            raise Unsupported("mutable slice")
        ok = ilt(i, seqlen(S))
        if name == "get": return ite(ok, Some(at(S, i)), NONE), st
        if name == "get_mut":
            ms = refs(args[0], ("i", i))
            return ite(ok, Some(ms), NONE), st
        if name != "get_unchecked": ev.panic("bounds", Not(ok), st, sp, fn, (seqlen(S), i))
        if name == "index_mut": return refs(args[0], ("i", i)), st
        return at(S, i), st
    if name == "contains":
        S = d(0); x = d(1)
        def f(S):
            k, n, e = domain(S)
            return exists([k], [n], eqval(ev, st, fr, et, e, x, sp))
        return lift_nc(f, S), st
    if name == "windows": return mkiter(windows(d(0), d(1))), st
    if name in ("chunks", "chunks_exact"): 
        ev.panic("divzero", ieq(d(1), Int(0)), st, sp, fn)
        return mkiter(chunks(d(0), d(1))), st
    if name in ("concat",): return flat(d(0)), st
    if name == "clear": ev.mwrite(st, args[0], lambda old: EMPTYSEQ); return UNIT, st
    if name == "truncate":
        n = d(1)
        ev.mwrite(st, args[0], lambda old: lift_nc(lambda S: slice_(S, Int(0), umin(n, seqlen(S))), old)); return UNIT, st
    if name in ("remove", "swap_remove") and kind_of(t) == "Vec":
        i = d(1); S = d(0)
        ev.panic("bounds", Not(ilt(i, seqlen(S))), st, sp, fn, (seqlen(S), i))
        v = at(S, i)
        if name == "remove":
            ev.mwrite(st, args[0], lambda old: lift_nc(lambda S: cat(slice_(S, Int(0), i), slice_(S, iadd(i, Int(1)), seqlen(S))), old))
        else:
            ev.mwrite(st, args[0], lambda old: lift_nc(lambda S: slice_(store(S, i, at(S, isub(seqlen(S), Int(1)))), Int(0), isub(seqlen(S), Int(1))), old))
        return v, st
    if name == "insert":
        i = d(1); x = args[2]
        ev.mwrite(st, args[0], lambda old: lift_nc(lambda S: cat(slice_(S, Int(0), i), lit(x), slice_(S, i, seqlen(S))), old)); return UNIT, st
    if name == "reverse":
        ev.mwrite(st, args[0], rev); return UNIT, st
    if name in ("split_off",):
        i = d(1); S = d(0)
        v = slice_(S, i, seqlen(S))
        ev.mwrite(st, args[0], lambda old: slice_(old, Int(0), i)); return v, st
    if name == "drain":
        r = d(1); S = d(0)
        if r.op == "adt" and r.args[0].endswith("RangeFull"):
            ev.mwrite(st, args[0], lambda old: EMPTYSEQ); return mkiter(S), st
        if r.op == "adt" and r.args[0].endswith("RangeFrom"):
            ev.mwrite(st, args[0], lambda old: slice_(old, Int(0), r.args[2])); return mkiter(slice_(S, r.args[2], seqlen(S))), st
        if r.op == "adt" and r.args[0] == RANGE:
            ev.mwrite(st, args[0], lambda old: cat(slice_(old, Int(0), r.args[2]), slice_(old, r.args[3], seqlen(old)))); return mkiter(slice_(S, r.args[2], r.args[3])), st
    if name in ("sort", "sort_unstable"):
        ev.mwrite(st, args[0], lambda S: lift_nc(lambda S: mk("sorted", S, mk("nat_order")), S)); return UNIT, st
    if name in ("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"):
        f = args[1]
        def sk(S):
            k, n, e = domain(S)
            key = app1(ev, f, e, st, fr, sp, k, n)
            return mk("sorted", S, comp([k], [n], TRUE, key))
        ev.mwrite(st, args[0], lambda S: lift_nc(sk, S)); return UNIT, st
    if name in ("sort_by", "sort_unstable_by"):
        f = args[1]
        def sk(S):
            i, n, e = domain(S)
            j = fresh("k")
            o = app1(ev, f, [e, at(S, j)], st, fr, sp, i, n)
            return mk("sorted", S, bindmk("cmpby", [i, j], [], [o]))
        ev.mwrite(st, args[0], lambda S: lift_nc(sk, S)); return UNIT, st
    if name in ("dedup",):
        # ascending without repetition: an ordered set's elements
        dd = lambda S: usorted(mk("set", "B", S.args[0])) if S.op == "sorted" and S.args[1].op == "nat_order" else mk("dedup", S)
        ev.mwrite(st, args[0], lambda S: lift_nc(dd, S)); return UNIT, st
    if name == "dedup_by_key":
        f = args[1]
        def dk(S):
            k, n, e = domain(S)
            return mk("dedupk", S, comp([k], [n], TRUE, app1(ev, f, e, st, fr, sp, k, n)))
        ev.mwrite(st, args[0], lambda S: lift_nc(dk, S)); return UNIT, st
    if name == "retain":
        f = args[1]
        def rk(S):
            return per_elem(ev, st, S, lambda e, k, n: (app1(ev, f, e, st, fr, sp, k, n), e))
        ev.mwrite(st, args[0], rk); return UNIT, st
    if name == "split_first":
        S = d(0)
        return lift_nc(lambda S: ite(ilt(Int(0), seqlen(S)), Some(tup(at(S, Int(0)), slice_(S, Int(1), seqlen(S)))), NONE), S), st
    if name == "split_last":
        S = d(0)
        return lift_nc(lambda S: ite(ilt(Int(0), seqlen(S)), Some(tup(at(S, isub(seqlen(S), Int(1))), slice_(S, Int(0), isub(seqlen(S), Int(1))))), NONE), S), st
    if name == "split_at":
        S = d(0); i = d(1)
        return tup(slice_(S, Int(0), i), slice_(S, i, seqlen(S))), st
    if name == "swap":
        i, j = d(1), d(2)
        ev.mwrite(st, args[0], lambda S: lift_nc(lambda S: store(store(S, i, at(S, j)), j, at(S, i)), S)); return UNIT, st
    if name == "from_elem":
        k = fresh("k"); n = args[1]
        return (lit(*[args[0]] * n.args[0]) if n.op == "int" and n.args[0] < 9 else comp([k], [n], TRUE, args[0])), st
    if name in ("fill",):
        x = args[1]
        def fl(S):
            k, n, e = domain(S); return comp([k], [n], TRUE, x)
        ev.mwrite(st, args[0], fl); return UNIT, st
    if name in ("starts_with", "ends_with", "binary_search", "binary_search_by", "binary_search_by_key", "partition_point"):
        ev.note("sequence operation " + name, sp)
        return mk("seqop", name, *[ev.deep(st, a) for a in args]), st
    return None
def refs(m, el):
    return lift_nc(lambda m: mk("mref", m.args[0], m.args[1] + (el,)) if m.op == "mref" else BOT, m)
def droplast(S):
    n = seqlen(S)
    return ite(ilt(Int(0), n), slice_(S, Int(0), isub(n, Int(1))), S)

def setop(ev, cal, args, st, fr, sp, name, d, kd, trait):
    K = kd[0]
    if name == "insert":
        s = d(0); x = args[1]
        c = setcontains(ev, st, fr, s, x)
        def ins(s):
            def f(s):
                if s.op == "set": return mkset(s.args[0], cat(s.args[1], lit(x)))
                return mk("setins", s, x)
            return lift_nc(f, s)
        ev.mwrite(st, args[0], ins)
        return Not(c), st
    if name == "contains": return setcontains(ev, st, fr, d(0), d(1)), st
    if name == "is_empty": return setempty(d(0)), st
    if name == "len": return setlen(d(0)), st
    if name == "remove" or name == "take":
        s = d(0); x = d(1)
        c = setcontains(ev, st, fr, s, x)
        ev.mwrite(st, args[0], lambda s: lift_nc(lambda s: mk("setrem", s, x), s))
        return c, st
    if name in ("iter", "into_iter"): return mkiter(toseq(ev, st, d(0))), st
    if name == "clear":
        ev.mwrite(st, args[0], lambda s: mkset(K, EMPTYSEQ)); return UNIT, st
    if name == "extend":
        S = toseq2(ev, st, args[1])
        ev.mwrite(st, args[0], lambda old: lift("sx", lambda o, S: mkset(o.args[0], cat(o.args[1], S)), old, S)); return UNIT, st
    if name == "reserve": return UNIT, st
    if name == "from_iter": return mkset(K, toseq2(ev, st, args[0])), st
    return None

def mapop(ev, cal, args, st, fr, sp, name, t, d, kd):
    if name == "entry":
        return mk("entry", args[0], args[1]), st
    if name in ("or_insert", "or_default", "or_insert_with"):
        e = args[0]
        if e.op != "entry": raise Unsupported("map entry")
        dv = args[1] if name == "or_insert" else (Int(0) if name == "or_default" else None)
        if dv is None: dv, st = ev.apply(args[1], [], st, fr, sp)
        m, key = e.args
        r = refs(m, ("e", key, dv))
        # insert the default
        ev.mwrite(st, r, lambda old: old)
        return r, st
    if name == "keys": return mkiter(mapkeys(d(0))), st
    if name in ("values", "into_values"): return mkiter(lift_nc(lambda m: mk("mapvals", m), d(0))), st
    if name in ("iter", "into_iter"): return mkiter(mapitems(d(0))), st
    if name == "get":
        m, key = d(0), d(1)
        c = inmap(m, key)
        return ite(c, Some(mget(m, key, Int(0))), NONE), st
    if name == "contains_key": return inmap(d(0), d(1)), st
    if name == "index":
        m, key = d(0), d(1)
        ev.panic("mapindex", Not(inmap(m, key)), st, sp, fr.f["path"] if fr else "?", (m, key))
        return mget(m, key, Int(0)), st
    if name == "insert":
        m, key = d(0), args[1]; v = args[2]
        old = ite(inmap(m, key), Some(mget(m, key, Int(0))), NONE)
        ev.mwrite(st, args[0], lambda m: lift_nc(lambda m: mset(m, key, Int(0), v), m)); return old, st
    if name == "is_empty": return lift_nc(lambda m: atom("mapempty", m), d(0)), st
    if name == "len": return lift_nc(lambda m: mk("maplen", m), d(0)), st
    return None
def mapkeys(m): return lift_nc(lambda m: mk("mapkeys", m), m)
def mapitems(m):
    def f(m):
        K = mk("mapkeys", m)
        k, n, e = domain(K)
        return comp([k], [n], TRUE, tup(e, mget(m, e, Int(0))))
    return lift_nc(f, m)
def inmap(m, key):
    def f(m, key):
        if m.op == "mnew": return FALSE
        if m.op == "mset": return Or(valeq(m.args[1], key), inmap(m.args[0], key))
        if key.op == "at" and key.args[0].op == "mapkeys" and key.args[0].args[0] is m: return TRUE
        return atom("inmap", m, key)
    return lift("inmap", f, m, key)
CONS["inmap"] = inmap
def npow2(a): return lift_nc(lambda a: Int(1 if a.args[0] <= 1 else 1 << (a.args[0] - 1).bit_length()) if a.op == "int" else mk("npow2", a), a)
CONS["npow2"] = npow2
CONS["ifun"] = lambda name, *x: lift(("ifun", name), lambda *x: ifun(name, *x), *x)
CONS["usorted"] = lambda s: usorted(s)
