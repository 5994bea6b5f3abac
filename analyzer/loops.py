"""Loop summaries.

A loop is summarised without being run: the cells it changes are found by a
fixpoint, each is given a closed form in the iteration number (induction
variable, comprehension, set, toggled set, quantifier, last write, sum, fold),
the trip count is read off the linear guard, early exits become a quantifier
plus the first witness.  Loops outside these patterns are kept as records of
their next-state functions (ev.loops) and their results are opaque.
"""
from terms import *
import eval as E
from eval import St, leafconds, lift_nc, Unsupported, valeq, mset, mget

class Mu(object):
    __slots__ = ("var", "init", "isbool", "cell", "next", "closed")

def run(ev, fr, h, st, rets):
    cfg = fr.cfg; body = cfg.loops[h]
    # forget locals that are dead at the loop head
    refd = refd_cells(st)
    live = cfg.live[h]
    st = St(st.pc, dict(st.mem))
    for l, c in fr.cells.items():
        if l not in live and c in st.mem and c not in refd and l != 0: del st.mem[c]
    def step(s):
        myrets = []
        backs, exits = ev.blocks(fr, h, s, body, h, myrets)
        return backs, [(("bb", t), x) for t, x in exits] + [(("ret",), x) for x in myrets]
    def keep(tag, s):
        """drop dead locals of an exit state"""
        r = refd_cells(s)
        lv = cfg.live[tag[1]] if tag[0] == "bb" else {0}
        for l, c in fr.cells.items():
            if l not in lv and c in s.mem and c not in r: del s.mem[c]
    out = summarise(ev, st, step, keep, fr.f["blocks"][h]["sp"], fr.f["path"], "loop")
    res = []
    for tag, s in out:
        if tag[0] == "ret": rets.append(s)
        else: res.append((tag[1], s))
    return res

def refd_cells(st):
    out = set(); seen = set()
    for v in st.mem.values():
        for x in walk(v, seen):
            if x.op == "mref": out.add(x.args[0])
    return out

def isboolish(v):
    if v is TRUE or v is FALSE: return True
    if v.op == "ite":
        x = v
        while x.op == "ite": x = x.args[1] if x.args[1] is not BOT else x.args[2]
        return x is TRUE or x is FALSE
    return False

class Gen(object):
    def __init__(self): self.mus = []
    def new(self, init, v):
        m = Mu()
        m.isbool = isboolish(init) or (init is BOT and isboolish(v))
        x = fresh("mu")
        m.var = atom("bmu", x) if m.isbool else x
        m.init = self.inits(init)
        self.mus.append(m)
        return m.var
    def inits(self, t):
        return subst(t, self.imap()) if t is not BOT else t
    def imap(self):
        r = {}
        for m in self.mus:
            if m.isbool: r[m.var.args[0]] = m.init
            else: r[m.var] = m.init
        return r
    def ismu(self, p):
        return any(p is m.var for m in self.mus)
    def gen(self, p, v):
        if p is v or v is BOT: return p
        if p.op == "ite" and v.op != "ite" and False: pass
        if self.ismu(p): return p
        # values that differ only in leaves
        if same_shape(p, v):
            k = {"adt": 2, "closure": 1}.get(p.op, 0)
            return rebuild(p.op, p.args[:k] + tuple(self.gen(a, b) for a, b in zip(p.args[k:], v.args[k:])))
        if p.op == "iter" and v.op == "iter" and p.args[0] is v.args[0]:
            return mk("iter", p.args[0], self.gen(p.args[1], v.args[1]))
        if p.op == "iter" and v.op == "ite":
            ls = [l for l, _ in leafconds(v) if l is not BOT]
            if all(l.op == "iter" and l.args[0] is p.args[0] for l in ls):
                i = lift_nc(lambda l: l.args[1], v)
                return mk("iter", p.args[0], self.gen(p.args[1], i))
        if p.op == "set":
            ls = [l for l, _ in leafconds(v) if l is not BOT]
            if all(l.op == "set" and l.args[0] == p.args[0] for l in ls):
                i = lift_nc(lambda l: l.args[1], v)
                return mk("set", p.args[0], self.gen(p.args[1], i))
        if p.op in AGG and v.op == "ite":
            ls = [l for l, _ in leafconds(v) if l is not BOT]
            if all(same_shape(p, l) for l in ls):
                k = {"adt": 2, "closure": 1}.get(p.op, 0)
                return rebuild(p.op, p.args[:k] + tuple(self.gen(a, lift_nc(lambda l, i=i: l.args[k + i], v)) for i, a in enumerate(p.args[k:])))
        if p.op == "ite" and v.op == "ite" and p.args[0] is v.args[0] and not isboolish(p):
            return ite(mk("ite", p.args[0], TRUE, FALSE), self.gen(p.args[1], v.args[1]), self.gen(p.args[2], v.args[2]))
        return self.new(p, v)

def leafvalue(pattern, v, mu):
    """the part of value v at the place of mu in the pattern; None when not there"""
    if pattern is mu: return v
    if v is BOT: return None
    mt = mu if mu.op != "ite" else mu.args[0]
    if same_shape(pattern, v):
        k = {"adt": 2, "closure": 1}.get(pattern.op, 0)
        for a, b in zip(pattern.args[k:], v.args[k:]):
            r = leafvalue(a, b, mu)
            if r is not None: return r
        return None
    if pattern.op in ("iter", "set"):
        i = 1
        if not inside(pattern, mu): return None
        return leafvalue(pattern.args[i], lift_nc(lambda l: l.args[i], v), mu)
    if pattern.op in AGG and v.op == "ite":
        k = {"adt": 2, "closure": 1}.get(pattern.op, 0)
        for i, a in enumerate(pattern.args[k:]):
            if inside(a, mu):
                return leafvalue(a, lift_nc(lambda l: l.args[k + i] if same_shape(l, pattern) else fld(l, pattern.args[1] if pattern.op == "adt" else 0, i), v), mu)
        return None
    if pattern.op == "ite" and v.op == "ite" and pattern.args[0] is v.args[0]:
        return leafvalue(pattern.args[1], v.args[1], mu) if inside(pattern.args[1], mu) else leafvalue(pattern.args[2], v.args[2], mu)
    if pattern.op == "ite":
        if inside(pattern.args[1], mu): return leafvalue(pattern.args[1], v, mu)
        if inside(pattern.args[2], mu): return leafvalue(pattern.args[2], v, mu)
    return None
def inside(p, mu):
    key = mu.args[0] if mu.op == "ite" else mu
    v = key.args[0] if key.op == "bmu" else key
    return v in fv(p)

def summarise(ev, st0, step, keep, sp, fn, what):
    # alternatives for an iterator: one summary each
    for c, v in st0.mem.items():
        if v.op == "ite" and any(l.op == "iter" for l, _ in leafconds(v)):
            cell = ev.cellinfo.get(c)
            out = []
            for l, cc in leafconds(v):
                if l is BOT: continue
                pc = And(st0.pc, cc)
                if pc is FALSE: continue
                s = St(pc, dict(st0.mem)); s.mem[c] = l
                out.extend(summarise(ev, s, step, keep, sp, fn, what))
            return out
    save = (len(ev.panics), len(ev.loops), len(ev.unknown))
    def restore():
        del ev.panics[save[0]:]; del ev.loops[save[1]:]; del ev.unknown[save[2]:]
    def runstep(mem, pc=TRUE):
        b0 = ev.base
        ev.base = And(ev.base, st0.pc)
        try: return step(St(pc, dict(mem)))
        finally: ev.base = b0
    # ---- short constant loops are unrolled
    un = unroll(ev, st0, runstep, keep)
    if un is not None: return un
    restore()
    # ---- which cells does an iteration change
    g = Gen()
    pat = dict(st0.mem)
    for _ in range(30):
        restore()
        backs, exits = runstep(pat)
        back = ev.join(backs)
        if back is None: break
        changed = False
        for c in list(pat):
            v = back.mem.get(c, BOT)
            n = g.gen(pat[c], v)
            if n is not pat[c]: pat[c] = n; changed = True
        if not changed: break
    else:
        raise Unsupported("loop does not stabilise in " + fn)
    if back is None:
        # never repeats
        out = []
        for tag, s in exits:
            s.pc = And(st0.pc, s.pc)
            if s.pc is not FALSE: keep_(keep, tag, s); out.append((tag, s))
        return out
    mus = [m for m in g.mus if any(inside(pat[c], m.var) for c in pat)]
    for m in mus:
        for c in pat:
            if inside(pat[c], m.var):
                v = leafvalue(pat[c], back.mem.get(c, BOT), m.var)
                m.cell = c; m.next = restrict(v, back.pc) if v is not None else None
                break
    # ---- closed forms
    k = fresh("k")
    sub = {}
    def key(m): return m.var.args[0] if m.isbool else m.var
    todo = []
    for m in mus:
        m.closed = None
        if m.next is None: todo.append(m); continue
        if not m.isbool and m.next.op in ("lin", "int") or (m.next.op == "var"):
            dlt = isub(m.next, m.var)
            if not (fv(dlt) & muvars(mus)):
                m.closed = iadd(m.init, imul(dlt, k)); sub[key(m)] = m.closed
                continue
        todo.append(m)
    # lengths of sequences that grow by a fixed amount
    lensub = dict(sub)
    for m in todo:
        if m.next is None or m.isbool: continue
        d = growth(m.var, m.next)
        if d is not None: lensub[mk("len", m.var)] = iadd(seqlen(m.init), imul(d, k))
    n = trip(subst(back.pc, lensub), k, muvars([m for m in mus if m.closed is None]), [mk("len", m.var) for m in todo])
    if n is None:
        return generic(ev, st0, pat, mus, g, back, exits, sp, fn, keep, runstep, restore, what)
    progress = True
    while todo and progress:
        progress = False
        for m in list(todo):
            if m.next is None: continue
            N = subst(m.next, sub)
            others = muvars([x for x in mus if x is not m and x.closed is None])
            if fv(N) & others: continue
            cf = closed_form(ev, m, N, k, n)
            if cf is None: continue
            m.closed = cf; sub[key(m)] = cf; todo.remove(m); progress = True
    lid = None
    if todo:
        rec = record(ev, st0, pat, mus, back, exits, sp, fn, what)
        rec.k, rec.n, rec.sub = k, n, dict(sub)
        raw = [m.var.args[0].args[0] if m.isbool else m.var for m in todo]
        inits = tuple(m.init for m in todo)
        nexts = tuple(BOT if m.next is None else subst(m.next, sub) for m in todo)
        for i, m in enumerate(todo):
            ws = [fresh("k")] + [fresh("mu") for _ in raw]
            ren = dict(zip([k] + raw, ws))
            m.closed = (sysbool if m.isbool else sysval)(ws, Int(i), k, inits, tuple(subst(x, ren) for x in nexts))
        for m in todo: sub[key(m)] = m.closed
        rec.unresolved = list(todo)
    recs = ev.loops[save[1]:] if todo else []
    # ---- iteration k: early exits
    restore()
    if todo: ev.loops.append(rec)
    at_k = lambda kk: {c: (subst(subst(v, sub), {k: kk}) if kk is not k else subst(v, sub)) for c, v in pat.items()}
    ev.ctx.append((k, n))
    backs, exits = runstep(at_k(k))
    ev.ctx.pop()
    dom = ipos(isub(n, k))
    early = []
    for tag, s in exits:
        c = And(s.pc, dom)
        if c is FALSE: continue
        c = restrict(c, dom) if dom.op == "ite" else c
        early.append((tag, s, c))
    Eany = FALSE
    for _, _, c in early: Eany = Or(Eany, c)
    x = exists([k], [n], Eany) if Eany is not FALSE else FALSE
    out = []
    if x is not FALSE and early:
        kstar = first(k, n, Eany)
        m = {k: kstar}
        remaining = x
        groups = {}
        for i, (tag, s, c) in enumerate(early):
            cc = subst(c, m)
            last = i == len(early) - 1
            pc = remaining if last else And(remaining, cc)
            if not last: remaining = And(remaining, Not(cc))
            if pc is FALSE: continue
            ns = St(And(st0.pc, pc), {q: v for q, v in s.mem.items()})
            if ns.pc is FALSE: continue
            keep_(keep, tag, ns)
            for q, v in ns.mem.items():
                if k in fv(v): ns.mem[q] = subst(v, m)
            out.append((tag, ns))
    # ---- after the last iteration
    mark = (len(ev.panics), len(ev.loops), len(ev.unknown))
    backs, exits = runstep(at_k(n))
    del ev.panics[mark[0]:]; del ev.loops[mark[1]:]; del ev.unknown[mark[2]:]
    for tag, s in exits:
        pc = And(st0.pc, Not(x), s.pc)
        if pc is FALSE: continue
        s.pc = pc
        keep_(keep, tag, s)
        out.append((tag, s))
    return out

def keep_(keep, tag, s):
    if keep is not None:
        try: keep(tag, s)
        except TypeError: keep(tag)

def muvars(mus):
    r = set()
    for m in mus:
        v = m.var.args[0] if m.isbool else m.var
        r.add(v.args[0] if v.op == "bmu" else v)
    return r

def unroll(ev, st0, runstep, keep):
    """unroll when the iterations are decided by constants (at most 6)"""
    mem = dict(st0.mem); pc = TRUE; out = []
    p0, l0, u0 = len(ev.panics), len(ev.loops), len(ev.unknown)
    first_ = True
    for i in range(8):
        backs, exits = runstep(mem, pc)
        b = ev.join(backs)
        # only continue when the trip is certain: the back condition must not test a symbolic bound
        for tag, s in exits: out.append((tag, s))
        if b is None:
            if i < 1: return None
            res = []
            for tag, s in out:
                s.pc = And(st0.pc, s.pc)
                if s.pc is not FALSE:
                    keep_(keep, tag, s); res.append((tag, s))
            return res
        if not certain(mem, b): return None
        mem, pc = b.mem, b.pc
    return None
def certain(mem, b):
    """the loop is driven by a literal sequence or a constant counter"""
    for c, v in mem.items():
        w = b.mem.get(c, BOT)
        if w is v or w is BOT: continue
        ls = [l for l, _ in leafconds(w) if l is not BOT]
        if v.op == "iter" and all(l.op == "iter" and l.args[1].op == "int" for l in ls) and seqlen(v.args[0]).op == "int" and seqlen(v.args[0]).args[0] <= 6: return True
        if v.op == "adt" and v.args[0].endswith("::Range") and v.args[3].op == "int" and v.args[2].op == "int" and v.args[3].args[0] - v.args[2].args[0] <= 6: return True
    return False

def growth(mu, nxt):
    """nxt = mu followed/preceded by a fixed number of elements"""
    r = None
    for l, _ in leafconds(nxt):
        if l is BOT: continue
        d = Int(0) if l is mu else None
        if l.op == "cat" and l.args[0] is mu: d = isub(seqlen(l), mk("len", mu))
        elif l.op == "cat" and l.args[-1] is mu: d = isub(seqlen(l), mk("len", mu))
        if d is None or d.op != "int": return None
        if r is None: r = d
        elif r is not d: return None
    return r if r is not None and r.args[0] != 0 else None

def trip(pc, k, mv, lens):
    """number of iterations allowed by a linear guard of the form k < e"""
    bad = set(mv)
    best = None
    for a in atoms(pc):
        if a.op not in ("ipos", "ieq0"): continue
        for val in (True, False):
            if cofactor(pc, a, not val) is not FALSE: continue
            d = a.args[0]
            if a.op == "ipos":
                if not val: d = isub(Int(1), d)
            else:
                if val: continue
                c, m = tlin(d)
                if m.get(k, 0) not in (1, -1): continue
                if m[k] == 1: d = imulc(d, -1)
            c, m = tlin(d)
            ck = m.get(k, 0)
            if ck >= 0: continue
            e = iadd(d, imulc(k, -ck))
            if k in fv(e) or (fv(e) & bad): continue
            n = inat(e) if ck == -1 else divceil(inat(e), Int(-ck))
            if best is None or len(show(n)) < len(show(best)): best = n
    return best
def tlin(t):
    from terms import _lin
    return _lin(t)

def nonself(t, m):
    v = m.var.args[0].args[0] if m.isbool else m.var
    return v not in fv(t)

def closed_form(ev, m, N, k, n):
    j = fresh("k")
    J = {k: j}
    if m.isbool:
        a = m.var.args[0]
        f1, f0 = cofactor(N, a, True), cofactor(N, a, False)
        if not (nonself(f1, m) and nonself(f0, m)): return None
        if f1 is TRUE: return Or(m.init, exists([j], [k], subst(f0, J)))
        if f0 is FALSE: return And(m.init, Not(exists([j], [k], Not(subst(f1, J)))))
        if f1 is f0:
            return ite(ipos(k), subst(f0, {k: isub(k, Int(1))}), m.init)
        if f1 is FALSE and f0 is TRUE:
            return None
        # general: last iteration in which the value is forced
        return None
    mu = m.var
    ls = leafconds(N)
    ls = [(l, c) for l, c in ls if l is not BOT]
    condfree = all(nonself(c, m) for _, c in ls)
    # a. append / prepend
    if condfree and all(l is mu or (l.op == "cat" and l.args[0] is mu and all(nonself(x, m) for x in l.args[1:])) for l, _ in ls) and any(l is not mu for l, _ in ls):
        delta = lift_nc(lambda l: EMPTYSEQ if l is mu else cat(*l.args[1:]), N)
        return cat(m.init, seqover(j, k, subst(delta, J)))
    if condfree and all(l is mu or (l.op == "cat" and l.args[-1] is mu and all(nonself(x, m) for x in l.args[:-1])) for l, _ in ls) and any(l is not mu for l, _ in ls):
        delta = lift_nc(lambda l: EMPTYSEQ if l is mu else cat(*l.args[:-1]), N)
        return cat(rev(seqover(j, k, subst(delta, J))), m.init)
    # sets as opaque values: toggling
    t = toggle(m, N, k, j)
    if t is not None: return t
    # b. sums
    if condfree and all(l is mu or (l.op == "radd" and mu in l.args and sum(1 for x in l.args if x is mu) == 1 and all(x is mu or nonself(x, m) for x in l.args)) for l, _ in ls) and any(l is not mu for l, _ in ls):
        delta = lift_nc(lambda l: EMPTYSEQ if l is mu else lit([x for x in l.args if x is not mu][0]), N)
        return radd(m.init, rsum(seqover(j, k, subst(delta, J))))
    if condfree and any(l is not mu for l, _ in ls):
        ds = [(isub(l, mu), c) for l, c in ls] if all(l.op in ("lin", "var", "int") or l is mu for l, _ in ls) else None
        if ds and all(nonself(d, m) for d, _ in ds) and any(l.op == "lin" for l, _ in ls):
            if all(d.op == "int" and d.args[0] in (0, 1) for d, _ in ds):
                gq = FALSE
                for d, c in ds:
                    if d.args[0] == 1: gq = Or(gq, c)
                return iadd(m.init, seqlen(comp([j], [k], subst(gq, J), j)))
            delta = lift_nc(lambda l: lit(isub(l, mu)), N)
            return iadd(m.init, mk("isum", seqover(j, k, subst(delta, J))))
    # c. last write
    if condfree and all(l is mu or nonself(l, m) for l, _ in ls):
        gq = FALSE
        for l, c in ls:
            if l is not mu: gq = Or(gq, c)
        val = lift_nc(lambda l: BOT if l is mu else l, N)
        return last_of(j, k, subst(gq, J), subst(val, J), m.init)
    # d. anything that only depends on itself and the iteration: a fold
    return foldk(m, N, k, j)

def seqover(j, k, delta):
    """concatenation of delta(j) for j < k"""
    if delta.op == "lit" and len(delta.args) == 1: return comp([j], [k], TRUE, delta.args[0])
    if delta.op == "ite":
        parts = [l for l, _ in leafconds(delta) if l is not BOT]
        ne = [l for l in parts if l is not EMPTYSEQ]
        if all(l.op == "lit" and len(l.args) == 1 for l in ne) and len(parts) - len(ne) <= 1:
            gq = FALSE
            for l, c in leafconds(delta):
                if l.op == "lit" and l is not EMPTYSEQ: gq = Or(gq, c)
            val = lift_nc(lambda l: l.args[0] if l.op == "lit" and l.args else BOT, delta)
            return comp([j], [k], gq, val)
    return flat(comp([j], [k], TRUE, delta))

def toggle(m, N, k, j):
    mu = m.var
    kind = m.init.args[0] if m.init.op in ("set", "tog") else None
    if kind is None: return None
    xs = set()
    for l, c in leafconds(N):
        if l.op in ("setins", "setrem") and l.args[0] is mu: xs.add(l.args[1])
        elif l is mu or l is BOT: pass
        else: return None
    if len(xs) != 1: return None
    x = xs.pop()
    if not nonself(x, m): return None
    a = mk("inset", mu, x)
    hi, lo = cofactor(N, a, True), cofactor(N, a, False)
    def shape(t, op):
        g = TRUE
        r = FALSE
        for l, c in leafconds(t):
            if l.op == op: r = Or(r, c)
            elif l is mu or l is BOT: pass
            else: return None
        return r
    g1, g0 = shape(hi, "setrem"), shape(lo, "setins")
    if m.init.op == "set" and m.init.args[1] is EMPTYSEQ: base = EMPTYSEQ
    elif m.init.op == "tog": base = m.init.args[1]
    else: return None
    J = {k: j}
    if g1 is not None and g0 is not None and g1 is g0 and nonself(g1, m):
        return mk("tog", kind, cat(base, comp([j], [k], subst(g1, J), subst(x, J))))
    # plain insertion
    if g1 is FALSE and g0 is not None and nonself(g0, m) and m.init.op == "set":
        return mkset(kind, cat(base, comp([j], [k], subst(g0, J), subst(x, J))))
    return None

def foldk(m, N, k, j):
    acc = fresh("acc")
    return fold(acc, k, comp([j], [k], TRUE, j), m.init, subst(N, {m.var: acc})) if False else fold(acc, j, comp([j], [k], TRUE, j), m.init, subst(N, {m.var: acc, k: j}))

# ------------------------------------------------------------ generic loops
class Rec(object): pass
def record(ev, st0, pat, mus, back, exits, sp, fn, what):
    r = Rec()
    r.name = "%s@%d" % (fn, sum(1 for l in ev.loops if l.fn == fn))
    r.fn = fn; r.sp = sp; r.st0 = st0; r.pat = pat; r.mus = mus; r.back = back; r.exits = exits; r.what = what
    r.ctx = list(ev.ctx)
    r.n = None; r.k = None; r.unresolved = mus
    return r
def generic(ev, st0, pat, mus, g, back, exits, sp, fn, keep, runstep, restore, what):
    rec = record(ev, st0, pat, mus, back, exits, sp, fn, what)
    ev.loops.append(rec)
    rec.panics = ev.panics
    out = []
    sub = {}
    rec.outs = []
    raw = [m.var.args[0].args[0] if m.isbool else m.var for m in mus]
    inits = tuple(m.init for m in mus)
    nexts = tuple(BOT if m.next is None else m.next for m in mus)
    for i, m in enumerate(mus):
        o = (whbool if m.isbool else whval)(raw, Int(i), inits, back.pc, nexts)
        sub[m.var.args[0] if m.isbool else m.var] = o
        rec.outs.append(o)
    rec.sys = (raw, inits, back.pc, nexts)
    tags = [(t, s) for t, s in exits if s.pc is not FALSE]
    remaining = TRUE
    for i, (tag, s) in enumerate(tags):
        if i == len(tags) - 1: c = remaining
        else:
            a = subst(s.pc, sub)
            c = And(remaining, a); remaining = And(remaining, Not(a))
        ns = St(And(st0.pc, c), {q: subst(v, sub) for q, v in s.mem.items()})
        if ns.pc is FALSE: continue
        keep_(keep, tag, ns)
        out.append((tag, ns))
    return out
