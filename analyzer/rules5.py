"""C25-C29, C38: the spatial index."""
from base import *
from fractions import Fraction
import interp, terms
RULES = {}
def rule(pid):
    def d(f): RULES[pid] = f; return f
    return d
FB = "flatbush::Flatbush"
NODE = "flatbush::FlatbushNode"
BOOL = {"k": "bool", "s": "bool"}

class Meets(object):
    """calls of Envelope::intersects stay one atom (C02 settles what it means)"""
    def __init__(self, ix): self.ix = ix
    def __call__(self, ev, inst, cal, args, st):
        if inst["name"] == "intersects": return self.ix(ev, inst, cal, args, st)
        return None
def indexrule(pid):
    def d(f):
        def g(c):
            if c.index is not None: c.index = Meets(c.index)
            c.indexed = True
            return f(c)
        RULES[pid] = g; return g
    return d

def curve(inst): return inst["local"] and not inst["closure"] and "hilbert" in (inst["selfty"] or "").lower()
class Index(object):
    def __init__(self, c):
        self.c = c; self.d = c.pl; self.v = c.voc
        self.items, self.deg = Var("items"), Var("degree")
        self.self_ = Var("self"); self.other = Var("other"); self.big = self.mid = []
    def fn(self, n): return self.c.one(FB, n)
    def build(self, n="new_unsorted", full=False):
        """the tree built; sorted by a key of any value unless full"""
        i = self.fn(n); t, _, ev = self.c.call(i, [self.items, self.deg], opaque=None if full else curve); return t, ev
    def query(self, n, *a):
        v, _, ev = self.c.call(self.fn(n), list(a)); return v, ev
    def node(self, v, f): return self.v.get(v, NODE, f)
    # ---- interpretation
    def sizes(self, *ts):
        """integer constants of the code beyond the sizes tried anyway: sizes around them are tried too"""
        out = set()
        for t in ts:
            for x in walk(t):
                if x.op in ("int", "lin"):
                    c = abs(terms._lin(x)[0])
                    if 2 < c <= 3000: out.add(c)
        self.big = sorted(c for c in out if c > 16)
        self.mid = sorted(c for c in out if 3 < c <= 128)          # a bound on the degree, or on the height
    def tokens(self, m):
        r = m.rng
        if self.big and r.random() < 0.4:
            n = r.choice(self.big); n = n * 4 // 3 + 3 if r.random() < .3 else n + r.choice((-1, 0, 1, 2, 5, 11))
            m.large = True
            return ("L",) + tuple(("Tok", r.randrange(1000)) for _ in range(n))
        if self.mid and r.random() < 0.2:
            n = r.choice(self.mid)
            n = (1 << n) + 1 + r.randrange(2) if n < 11 and r.random() < .5 else 2 * n + r.randrange(3)
            m.large = n > 40
            return ("L",) + tuple(("Tok", r.randrange(1000)) for _ in range(n))
        n = r.choice((0, 1, 2, 3, 4, 5, 6, 8, 9, 12, 16, 17, 20)) if m.seed % 4 else r.choice((2, 3, 5))
        return ("L",) + tuple(("Tok", r.randrange(1000)) for _ in range(n))
    def degrees(self, m):
        if self.big and m.rng.random() < 0.4:
            n = m.rng.choice(self.big)
            if n <= 256: return 1 << (n - m.rng.randrange(2)).bit_length()
        if self.mid and m.rng.random() < 0.15: return 1 << (m.rng.choice(self.mid) - m.rng.randrange(2)).bit_length()
        return m.rng.choice((2, 2, 2, 4, 4, 8, 16))
    def boxof(self, m, tok, raw=False):
        k = m.__dict__.setdefault("boxes", {})
        if tok not in k: k[tok] = self.newbox(m, tok)
        return m.scaled(k[tok], False) if m.tiny and not raw else k[tok]
    def newbox(self, m, tok):
        r = interp.random.Random(interp.seed_of(m.seed, "box", tok))
        E_ = self.v.path(self.d.Ev); P = self.v.path(self.d.P)
        u = r.random()
        if u < 0.06: return ("A", E_, 0)
        g = m.seed % 3
        k = (4, 12, 30)[g]; w = (1, 4, 3)[g]
        x, y = r.randrange(k), r.randrange(k); a, b = r.randrange(w + 1), r.randrange(w + 1)
        if m.seed % 7 == 0: y = 0; b = 0
        f = Fraction
        p = lambda s, t: ("A", P, 0, f(s), f(t))
        return ("A", E_, 1, p(x, y), p(x + a, y + b))
    def hits(self, a, b):
        if a[2] == 0 or b[2] == 0: return False
        return all(s <= t for s, t in zip(a[3][3:], b[4][3:])) and all(s <= t for s, t in zip(b[3][3:], a[4][3:]))
    def space(self, vars):
        c = self.c
        cs = {"envof": lambda m, v: v if v[0] == "A" and v[1].endswith("::Envelope") else self.boxof(m, v)}
        cs["into"] = lambda m, v: v
        for f in c.p.insts:
            # the curve: some function of its arguments (C25 holds for any key)
            if curve(f): cs[f["path"]] = lambda m, *vs, p=f["path"]: m.by_hash(m.p.ret_by_path(p), "call", p, *vs)
        return c.space(vars, contracts=cs)
    def qbox(self, m):
        b = self.boxof(m, ("q", m.rng.randrange(10**6)), True)
        if getattr(m, "large", False) and m.rng.random() < 0.5 and b[2] == 1:
            return b[:3] + (b[3][:3] + tuple(x - 60 for x in b[3][3:]), b[4][:3] + tuple(x + 60 for x in b[4][3:]))
        if m.rng.random() < 0.3 and b[2] == 1:
            b = b[:4] + (b[4][:3] + tuple(x + m.rng.randrange(9) for x in b[4][3:]),)
        return b
    def refute(self, test, vars, terms=()):
        self.sizes(*terms)
        sp = self.space(vars)
        def t(m):
            m.budget = 100000000 if getattr(m, "large", False) else 3000000
            return test(m)
        sp.ends = True
        m, dd, tried, why = decide.refute(sp, t)
        if m is not None: return Verdict(REFUTED, "the index misreports", {"values": sp.describe(m), "found": str(dd[0])[:400], "required": str(dd[1])[:400]})
        return Verdict(UNDECIDED, "structure not recognised; none of %d interpretations differs%s" % (tried, "; " + why if why else ""))
    def boxes(self, m, v):
        return [self.boxof(m, x) for x in v[1:]]
def ints(v):
    """sequence value as python list"""
    return [tuple(x[1:]) if isinstance(x, tuple) and x[0] == "T" else x for x in v[1:]]

class No(Exception): pass
def need(c, why):
    if not c: raise No(why)

def fields(c):
    """fields of the index by their types: (degree, level offsets, nodes)"""
    path = c.voc.path(FB)
    out = {}
    for j, (n, t, _) in enumerate([f[:3] for f in c.p.adts[path]["variants"][0]["fields"]]):
        t = c.p.tys[t]
        k = "degree" if t["s"] == "usize" else None
        if t["k"] == "adt" and t["path"] == "alloc::vec::Vec":
            e = c.p.tys[t["args"][0]]
            k = "levels" if e["s"] == "usize" else "tree" if e["k"] == "tuple" else None
        if k: need(k not in out, "two fields look like the " + k); out[k] = j
    need(set(out) == {"degree", "levels", "tree"}, "fields of the index")
    return out

def leaves(x, pc=TRUE):
    """(path condition, value) of the choices at the top of x"""
    if x.op == "ite":
        t = mk("ite", x.args[0], TRUE, FALSE)
        for v, y in ((t, x.args[1]), (Not(t), x.args[2])):
            p = And(pc, v)
            if p is not FALSE: yield from leaves(restrict(y, p), p)
    elif x is not BOT: yield pc, x

def calm(c, x, inst, care, facts=()):
    """panic site x cannot be reached in the state inst describes"""
    cond = x.cond
    for k, d in x.binders: cond = And(cond, ilt(k, d))
    cond = inst(cond)
    for f in (care,) + tuple(facts): cond = And(f, cond)
    need(cond is FALSE or decide.context(cond) is FALSE or decide.impossible(cond), "%s at %s" % (x.kind, x.sp))
def inloop(x, raw):
    r = set(raw)
    return bool(fv(x.cond) & r) or any(fv(d) & r for _, d in x.binders)
def packing(c, g, t, ev, entries_ok, panics=(), care=TRUE):
    """the construction packs level by level: initial state, one round from an arbitrary state of the invariant, and exit"""
    nonempty = ipos(seqlen(g.items))
    fs = fields(c)
    how = []
    for pc, v in leaves(restrict(t, nonempty), nonempty):
        need(v.op == "adt", "not a constructed index")
        deg, lev, tr = [v.args[2 + fs[k]] for k in ("degree", "levels", "tree")]
        for p2, x in leaves(tr, pc): how.append(packing1(c, g, ev, entries_ok, p2, restrict(deg, p2), restrict(lev, p2), x, panics, care))
    for x in panics:
        if not any(inloop(x, r.sys[0]) for r in ev.loops if r.sys): calm(c, x, lambda y: y, care)
        else: need(any(inloop(x, r.sys[0]) and r.sp in how for r in ev.loops if r.sys), "%s in an unknown loop at %s" % (x.kind, x.sp))
    need(how, "no construction for a non-empty input")
    return "leaves, padding, offsets and parents checked for the first round and one arbitrary round of the loop at %s" % ", ".join(sorted(set(how)))
def packing1(c, g, ev, entries_ok, nonempty, deg, lev, tr, panics=(), care=TRUE):
    need(deg is g.deg, "the degree recorded is not the one given")
    recs = [r for r in ev.loops if r.sys and any(o is tr for o in r.outs or ())]
    need(len(recs) == 1, "the nodes are not the outcome of one loop")
    rec = recs[0]
    raw, inits, back, nexts = rec.sys
    mu = {"T": [i for i, o in enumerate(rec.outs) if o is tr], "L": [i for i, o in enumerate(rec.outs) if o is lev]}
    need(len(mu["T"]) == 1 and len(mu["L"]) == 1, "nodes and level offsets in the loop")
    T_, L_ = mu["T"][0], mu["L"][0]
    inits = [restrict(x, nonempty) for x in inits]
    # initial state
    need(entries_ok(plain(inits[T_])), "the leaves are not (index, box) of every item")
    need(inits[L_] is lit(Int(0)), "the leaf level does not start at 0")
    n = seqlen(g.items)
    lv, sz = [], []
    for i in range(len(raw)):
        if i in (T_, L_): continue
        if inits[i] is n: sz.append(i)
        elif inits[i] is Int(0): lv.append(i)
        elif inits[i].op == 'undef' or inits[i] is BOT: continue
        else: raise No("a loop variable of unknown role")
    need(len(sz) == 1 and len(lv) <= 1, "loop variables")
    need(back is ipos(isub(raw[sz[0]], Int(1))), "does not run until one node is left")
    # an arbitrary state: levels of `l` finished levels, the current one starting at B with `size` nodes
    F, G = Var("F"), Var("G")
    l, B, D, m, w, z = [fresh("k") for _ in range(6)]
    S = raw[sz[0]]
    for case in ("full", "partial"):
        M = m if case == "full" else iadd(m, Int(1))
        pads = Int(0) if case == "full" else w
        size = isub(imul(D, M), pads)
        k = fresh("k")
        T0 = comp([k], [iadd(B, size)], TRUE, at(G, k)); L0 = cat(comp([k], [l], TRUE, at(F, k)), lit(B))
        rem = Int(0) if case == "full" else isub(D, w)
        ops = {mk("idiv", S, g.deg): m, mk("irem", S, g.deg): rem, mk("divceil", S, g.deg): M}
        st = {S: size, raw[T_]: T0, raw[L_]: L0, g.deg: D}
        for i in lv: st[raw[i]] = l
        def inst(x):
            x = subst(subst(x, ops), st)
            if case == "partial": x = assume(x, Not(ieq0(isub(D, w))))
            return x
        nx = [inst(x) for x in nexts]
        for x in panics:
            if inloop(x, raw): calm(c, x, inst, inst(And(care, ile(Int(2), g.deg))))
        need(nx[L_] is cat(L0, lit(iadd(B, imul(D, M)))), "%s level: offset of the next level" % case)
        need(nx[sz[0]] is M, "%s level: number of parents" % case)
        for i in lv: need(nx[i] is iadd(l, Int(1)), "level counter")
        x = nx[T_]
        k = fresh("k")
        front = cat(T0, comp([k], [pads], TRUE, tup(iadd(size, k), g.d.nobox)))
        need(x.op == "cat" and x.args[-1].op == "comp", "nodes appended")
        par = x.args[-1]; rest = cat(*x.args[:-1])
        need(rest is front, "%s level: padding with never-matching nodes" % case)
        vs, ds, gd, e = open_comp(par)
        need(len(vs) == 1 and ds[0] is M and gd is TRUE, "%s level: one parent per group of children" % case)
        j = vs[0]; sub = {m: iadd(j, z) if case == "partial" else iadd(iadd(j, Int(1)), z)}
        q = fresh("k")
        ent = at(front, iadd(iadd(B, imul(D, j)), q))
        want = tup(j, g.d.mergeall(comp([q], [D], TRUE, fld(ent, 0, 1))))
        a, b = subst(e, sub), subst(want, sub)
        need(same(c, a, b), "%s level: a parent's box is not shown to be the merge of exactly its children" % case)
    return rec.sp
def same(c, a, b):
    if a is b: return True
    return bool(decide.equal(a, b))
def assume(x, c):
    """x wherever c holds"""
    return restrict(decide.context(ite(c, x, Str("outside"))), c)

def plain(x):
    """x without the order of its leaves: sorting only permutes"""
    for _ in range(4):
        ss = [y for y in walk(x) if y.op == "sorted"]
        if not ss: break
        x = subst(x, {ss[0]: ss[0].args[0]})
    return x

class Tree(object):
    """the parts of an index value"""
    def __init__(self, c, g, v):
        fs = fields(c); self.g = g; self.v = v
        f = lambda k: fld(v, 0, fs[k])
        self.degree, self.levels, self.tree = f("degree"), f("levels"), f("tree")
    def node(self, level, i):
        e = at(self.tree, i)
        return self.g.v.con(NODE, None, level=level, tree_index=i, sibling_index=fld(e, 0, 0), envelope=fld(e, 0, 1))
    def root(self): return self.node(isub(seqlen(self.levels), Int(1)), isub(seqlen(self.tree), Int(1)))
    def child(self, n, k):
        N = lambda f: self.g.node(n, f)
        l = isub(N("level"), Int(1))
        return self.node(l, iadd(iadd(at(self.levels, l), imul(N("sibling_index"), self.degree)), k))
    def children(self, n):
        k = fresh("k")
        return comp([k], [inat(self.degree)], TRUE, self.child(n, k))

@indexrule("C25")
def c25(c):
    g = Index(c); d = c.pl
    E_ = [y for y in c.p.tys if y["k"] == "adt" and y["path"].endswith("planar::primitives::envelope::Envelope")][0]
    def cover(bs):
        r = None
        for b in bs:
            if b[2] == 0: continue
            r = b if r is None else b[:3] + (b[3][:3] + tuple(min(x, y) for x, y in zip(r[3][3:], b[3][3:])), b[4][:3] + tuple(max(x, y) for x, y in zip(r[4][3:], b[4][3:])))
        return r or ("A", c.voc.path(d.Ev), 0)
    def shape(tree):
        """what the public accessors show of a built index"""
        rt, _ = g.query("root_node", g.self_)
        n = Var("n"); ch, _ = g.query("get_children", g.self_, n)
        names = [f[0] for f in c.p.adts[c.voc.path(NODE)]["variants"][0]["fields"]]
        def rec(v): return dict(zip(names, v[3:]))
        box = cover
        def test(m):
            m.vals[g.self_] = m.value(tree)
            boxes = g.boxes(m, m.vals[g.items]); D = m.vals[g.deg]
            seen = {}; todo = [m.value(rt)]; idx = set()
            while todo:
                x = todo.pop(); r = rec(x)
                if r["tree_index"] in idx: return "node %d reached twice" % r["tree_index"], "a tree"
                idx.add(r["tree_index"])
                if r["envelope"][2] == 0: continue          # never meets anything, never descended
                if r["level"] == 0:
                    k = r["sibling_index"]
                    if k < len(boxes):
                        if k in seen: return "item %d stored twice" % k, "once"
                        seen[k] = r["envelope"]
                        if r["envelope"] != boxes[k]: return "leaf %d has box %s" % (k, r["envelope"]), boxes[k]
                    else: return "padding %d has a box" % k, "none"
                    continue
                m.vals[n] = x
                kids = m.value(ch)[1:]
                if len(kids) != D: return "%d children" % len(kids), D
                if any(rec(q)["level"] != r["level"] - 1 for q in kids): return "children on level", r["level"] - 1
                if box([rec(q)["envelope"] for q in kids]) != r["envelope"]: return "box of node %d is %s" % (r["tree_index"], r["envelope"]), box([rec(q)["envelope"] for q in kids])
                todo += kids
            if set(seen) != {k for k, b in enumerate(boxes) if b[2]}: return "items %s" % sorted(seen), [k for k, b in enumerate(boxes) if b[2]]
            return None
        return test
    def build():
        for n in ("new_unsorted", "new"):
            def t(n=n):
                i = g.fn(n)
                tree, _, ev = c.call(i, [g.items, g.deg], opaque=curve)
                k = fresh("k")
                want = comp([k], [seqlen(g.items)], TRUE, tup(k, mk("envof", at(g.items, k))))
                try: return Verdict(PROVED, packing(c, g, tree, ev, lambda x: x is want))
                except No as e: why = str(e)
                r = g.refute(shape(tree), {g.items: g.tokens, g.deg: g.degrees}, [tree])
                r.how += " (%s)" % why
                return r
            c.ob("Flatbush::%s stores every item once under covering nodes" % n, g.fn(n), "induction over levels", t)
    def empty():
        for n in ("new_unsorted", "new"):
            def t(n=n):
                v, _, _ = c.call(g.fn(n), [g.items, g.deg], opaque=curve)
                v = restrict(v, Not(ipos(seqlen(g.items))))
                t_ = Tree(c, g, v)
                if t_.tree.op != "lit" or t_.levels.op != "lit": return Verdict(UNDECIDED, "not a literal")
                ok = t_.levels is lit(Int(0)) and len(t_.tree.args) == 1 and fld(t_.tree.args[0], 0, 1) is d.nobox
                return Verdict(PROVED, "one node without a box") if ok else Verdict(REFUTED, "the empty index is not one empty node", {"found": show(v)[:300]})
            c.ob("Flatbush::%s of no items is one empty node" % n, g.fn(n), "value", t)
    def access():
        """how the nodes are stored is the index's own affair: what counts is what the accessors show of a built index"""
        def acc(label, i, want, test=None):
            def t():
                args = c.sym(i); v, _, ev = c.call(i, args); w = want(*args)
                r = decide.compare(c.p, v, w, c.retty(i), c.space(c.vars(i, args), trials=1))
                if r.status == PROVED: return r
                tree, _ = g.build()
                r = g.refute(test(tree, v, args[0]) if test else shape(tree), {g.items: g.tokens, g.deg: g.degrees}, [tree, v])
                r.how += " (normal forms differ)"
                return r
            c.ob(label, i, "value", t)
        def whole(tree, v, self_):
            def test(m):
                m.vals[self_] = m.value(tree); bs = g.boxes(m, m.vals[g.items]); w = cover(bs); x = m.value(v)
                return None if x == w else (x, w)
            return test
        acc("Flatbush::root_node is the last node, on the top level", g.fn("root_node"), lambda s: Tree(c, g, s).root())
        acc("Flatbush::get_children gives the degree nodes from the node's offset one level below", g.fn("get_children"), lambda s, n: Tree(c, g, s).children(n))
        acc("Flatbush::envelope is the root's box", c.one(FB, "envelope", "HasEnvelope"), lambda s: g.node(Tree(c, g, s).root(), "envelope"), whole)
    each(c, build, empty, access)

def traversal(c, g, v, ev, spec, panics=None):
    """the value of a worklist traversal: every choice of the result is the output list of one loop over a worklist
    whose first state and whose step (from an arbitrary worklist) are the required ones"""
    n = 0; sp = set(); ok = set()
    for pc, x in leaves(v):
        recs = [r for r in ev.loops if r.sys and any(o is x for o in r.outs or ())]
        if not recs:
            need(x.op == "lit", "the result is not the outcome of one loop")
            need(spec.early(pc, x), "result without traversal"); n += 1; continue
        need(len(recs) == 1, "loops")
        rec = recs[0]; raw, inits, back, nexts = rec.sys
        R = next(i for i, o in enumerate(rec.outs) if o is x)
        W = [i for i in range(len(raw)) if back is ipos(seqlen(raw[i]))]
        need(len(W) == 1, "the loop does not run until a worklist is empty")
        W = W[0]
        ini = {k: restrict(inits[k], pc) for k in (W, R)}
        nx = {k: nexts[k] for k in (W, R)}
        lv = {raw[i] for i in range(len(raw))} - {raw[W], raw[R]}
        need(not any(fv(nx[k]) & lv for k in nx), "the step depends on more than the worklist and the results")
        need(raw[R] not in fv(nx[W]), "the worklist depends on the results")
        why = None
        for last in (True, False):
            k = fresh("k"); S = raw[W]; m = inat(isub(seqlen(S), Int(1)))
            item = at(S, isub(seqlen(S), Int(1))) if last else at(S, Int(0))
            rest = comp([k], [m], TRUE, at(S, k if last else iadd(k, Int(1))))
            try: how = spec.step(pc, S, raw[R], item, rest, ini[W], ini[R], nx[W], nx[R]); why = None; break
            except No as e:
                if why is None: why = e
        if why: raise why
        for y in panics or ():
            if not inloop(y, raw): continue
            # the queued nodes are nodes of their index (root and children of queued nodes)
            sub, ns, facts = how
            facts = [facts]
            for t, m in ns:
                N = lambda f: g.node(m, f)
                facts.append(ilt(N("level"), seqlen(t.levels)))
                for k, dom in y.binders:
                    if subst(dom, sub) is inat(t.degree):
                        facts.append(Or(ieq0(N("level")), ilt(iadd(iadd(at(t.levels, isub(N("level"), Int(1))), imul(N("sibling_index"), t.degree)), k), seqlen(t.tree))))
            calm(c, y, lambda z: subst(z, sub), TRUE, facts); ok.add(id(y))
        n += 1; sp.add(rec.sp)
    for y in panics or ():
        if id(y) not in ok: calm(c, y, lambda z: z, TRUE, [f for t in (spec.t, getattr(spec, "t2", spec.t)) for f in (ipos(seqlen(t.levels)), ipos(seqlen(t.tree)))])
    need(n, "no result")
    return "%d outcomes; first state and step of the worklist at %s checked" % (n, ", ".join(sorted(sp)))
def outcome(c, care, got, wants):
    """got is one of the required forms wherever care holds"""
    for w in wants:
        if got is w: return True
    for w in wants:
        a, b = assume(got, care), assume(w, care)
        if same(c, a, b): return True
    return False

class Query(object):
    """one index, one box"""
    def __init__(self, c, g, q): self.c, self.g, self.q = c, g, q; self.t = Tree(c, g, g.self_)
    def hit(self, n): return self.c.ixmeets(self.g.node(n, "envelope"), self.q)
    def leaf(self, n): return ieq0(self.g.node(n, "level"))
    def out(self, n): return self.g.node(n, "sibling_index")
    def early(self, pc, x):
        r = self.t.root()
        return same(self.c, assume(x, pc), assume(ite(And(self.hit(r), self.leaf(r)), lit(self.out(r)), lit()), pc)) and And(pc, self.hit(r), Not(self.leaf(r))) is FALSE
    def step(self, pc, S, R, n, rest, w0, r0, w1, r1):
        c, t = self.c, self.t; root = t.root()
        k = fresh("k"); ch = t.child(n, k); D = [inat(t.degree)]
        one = lambda cond, x: ite(cond, lit(x), lit())
        A = (one(And(self.hit(root), Not(self.leaf(root))), root), one(And(self.hit(root), self.leaf(root)), self.out(root)),
             cat(rest, comp([k], D, And(self.hit(ch), Not(self.leaf(ch))), ch)), cat(R, comp([k], D, And(self.hit(ch), self.leaf(ch)), self.out(ch))))
        B = (one(self.hit(root), root), lit(),
             ite(self.leaf(n), rest, cat(rest, comp([k], D, self.hit(ch), ch))), cat(R, one(self.leaf(n), self.out(n))))
        why = None
        for f in (A, B):
            ok = [same(c, assume(x, pc) if i < 2 else x, assume(y, pc) if i < 2 else y) for i, (x, y) in enumerate(zip((w0, r0, w1, r1), f))]
            if all(ok):
                m = nodeof(self.g, n)
                return {n: m}, [(t, m)], Not(self.leaf(m)) if f is A else TRUE
            why = why or "the %s is not shown to be as required" % ", ".join(nm for nm, o in zip(("first worklist", "first results", "next worklist", "next results"), ok) if not o)
        raise No(why)

@indexrule("C26")
def c26(c):
    g = Index(c); d = c.pl
    c.ixmeets = c.index.ix.meets
    from rules1 import into
    def find():
        i = g.fn("find_intersection_candidates")
        q = Var("q"); conv = into(c, d.Ev) if c.argty(i, 1)["k"] == "param" else (lambda x: x)
        def t():
            v, ev = g.query("find_intersection_candidates", g.self_, q)
            qq = mk("into", [t["s"] for t in c.p.tys if t["k"] == "adt" and t["path"].endswith("::" + d.Ev) and t["s"].endswith("<C>")][0], q) if c.argty(i, 1)["k"] == "param" else q
            try: return Verdict(PROVED, traversal(c, g, v, ev, Query(c, g, qq)))
            except No as e: why = str(e)
            tree, _ = g.build()
            def test(m):
                m.vals[g.self_] = m.value(tree)
                got = ints(m.value(v))
                want = [k for k, b in enumerate(g.boxes(m, m.vals[g.items])) if g.hits(b, m.vals[q])]
                return None if sorted(got) == want else (sorted(got), want)
            r = g.refute(test, {g.items: g.tokens, g.deg: g.degrees, q: g.qbox}, [tree, v])
            r.how += " (%s)" % why
            return r
        c.ob("Flatbush::find_intersection_candidates reports exactly the items whose boxes meet the query", i, "worklist induction", t)
    def within():
        i = g.fn("find_candidates_within"); j = g.fn("find_intersection_candidates")
        op = lambda inst: inst["name"] == "find_intersection_candidates"
        def want(s, p, r):
            lo = d.pos(*[rsub(x, r) for x in d.coords(p)]); hi = d.pos(*[radd(x, r) for x in d.coords(p)])
            return c.call_opaque(j, [s, d.boxof(lo, hi)], op)
        c.eq("Flatbush::find_candidates_within is the box query with the position's box extended by the distance", i, want, opaque=op)
    def none(): emptyindex(c, g, "find_intersection_candidates", "an index made by Flatbush::new_empty has no item to report for a box")
    each(c, find, within, none)

def emptyindex(c, g, name, label, args=lambda e: [e]):
    """queries of the index that Flatbush::new_empty makes report nothing"""
    fs = c.find("flatbush::Flatbush", "new_empty")
    if len(fs) != 1: return          # contracts.py uses it only where the crate has it
    i = g.fn(name)
    def t():
        saved, c.index = c.index, None
        try: return calls(c.call(fs[0], [])[0])
        finally: c.index = saved
    def calls(e):
        a = args(e); sy = c.sym(i)
        v, _, ev = c.call(i, a + sy[len(a):])
        r = decide.compare(c.p, seqlen(v), Int(0), None, c.space({x: y for x, y in c.vars(i, sy).items() if x not in sy[:len(a)]}))
        return r if r.status != PROVED else Verdict(PROVED, "evaluates to the empty list")
    c.ob(label, i, "value", t)

def samecomp(c, a, b, care):
    """two sequences with the same shape whose guards and elements agree wherever care (of the binders) holds"""
    if a is b: return True
    parts = lambda s: list(s.args) if s.op == "cat" else [] if s is EMPTYSEQ else [s]
    a, b = parts(a), parts(b)
    # an absent part is a part that is never there
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if x is y: continue
        if x.op != "comp" or y.op != "comp": return False
        vs, ds, g, e = open_comp(x); ws, dd, h, f = open_comp(y)
        if len(vs) != len(ws): return False
        m = dict(zip(ws, vs))
        if any(subst(q, m) is not p for p, q in zip(ds, dd)): return False
        h, f = subst(h, m), subst(f, m); k = care(vs)
        if And(k, g) is not And(k, h) and restrict(g, k) is not restrict(h, k) and not same(c, And(k, g), And(k, h)): return False
        if not same(c, assume(e, And(k, h)), assume(f, And(k, h))): return False
    return True
def bycond(c, got, want, care=lambda vs: TRUE, pc=TRUE):
    """got is want on every choice at its top"""
    for p, x in leaves(got, pc):
        for q, y in leaves(assume(want, p) if p is not TRUE else want, p):
            if decide.context(q) is FALSE: continue
            x2 = assume(x, q) if q is not TRUE else x
            if not samecomp(c, x2, y, care): return False
    return True

class SelfJoin(Query):
    """pairs of nodes of one index"""
    def __init__(self, c, g): self.c, self.g = c, g; self.t = self.t2 = Tree(c, g, g.self_)
    def meet(self, a, b): return self.c.ixmeets(self.g.node(a, "envelope"), self.g.node(b, "envelope"))
    def keep(self, a, b): return And(ile(self.g.node(a, "tree_index"), self.g.node(b, "tree_index")), self.meet(a, b))
    def differ(self, a, b): return Not(ieq(self.g.node(a, "sibling_index"), self.g.node(b, "sibling_index")))
    def out(self, a, b):
        a, b = self.g.node(a, "sibling_index"), self.g.node(b, "sibling_index")
        return tup(umin(a, b), umax(a, b))
    def early(self, pc, x): return False
    def step(self, pc, S, R, it, rest, w0, r0, w1, r1):
        c, t, g = self.c, self.t, self.g; root = t.root()
        n1, n2 = fld(it, 0, 0), fld(it, 0, 1)
        lev = {g.node(n2, "level"): g.node(n1, "level")}          # invariant: both nodes of a pair are on one level
        w1, r1 = subst(w1, lev), subst(r1, lev)
        i, j = fresh("k"), fresh("k"); D = inat(t.degree)
        kids = lambda vs: (t.child(n1, vs[0]), subst(t.child(n2, vs[1]), lev))
        def care(vs):
            # a child's box lies in its parent's (C25), and a queued pair of nodes meets
            if len(vs) != 2: return TRUE
            a, b = kids(vs); m = self.meet
            return And(m(n1, n2), Implies(m(a, b), And(m(a, n2), m(n2, a), m(b, n1), m(n1, b))), Iff(m(a, b), m(b, a)))
        one = lambda cond, x: ite(cond, lit(x), lit())
        a, b = kids((i, j))
        def every(cond, x): return comp([i, j], [D, D], cond, x)
        leaf = lambda n: self.leaf(n)
        rr = tup(root, root)
        A = (one(And(self.meet(root, root), Not(leaf(root))), rr), lit(), cat(rest, every(And(self.keep(a, b), Not(leaf(a))), tup(a, b))), cat(R, every(And(self.keep(a, b), leaf(a), self.differ(a, b)), self.out(a, b))))
        B = (one(self.meet(root, root), rr), lit(), ite(leaf(n1), rest, cat(rest, every(self.keep(a, b), tup(a, b)))), cat(R, one(And(leaf(n1), self.differ(n1, n2)), self.out(n1, n2))))
        why = None
        inv = ite(ieq(g.node(n1, "tree_index"), g.node(n2, "tree_index")), TRUE, TRUE)
        for f in (A, B):
            ok = [bycond(c, assume(x, pc), y) for x, y in zip((w0, r0), f[:2])] + [bycond(c, x, y, care) for x, y in zip((w1, r1), f[2:])]
            if all(ok):
                m1, m2 = nodeof(g, n1), nodeof(g, n2)
                m2 = subst(m2, {g.node(m2, "level"): g.node(m1, "level")})
                return {n1: m1, n2: m2}, [(t, m1), (t, m2)], Not(leaf(m1)) if f is A else TRUE
            why = why or "the %s is not shown to be as required" % ", ".join(nm for nm, o in zip(("first worklist", "first results", "next worklist", "next results"), ok) if not o)
        raise No(why)

@indexrule("C27")
def c27(c):
    g = Index(c); c.ixmeets = c.index.ix.meets
    i = g.fn("find_self_intersection_candidates")
    def t():
        v, ev = g.query("find_self_intersection_candidates", g.self_)
        try: return Verdict(PROVED, traversal(c, g, v, ev, SelfJoin(c, g)))
        except No as e: why = str(e)
        trees = [g.build(n)[0] for n in ("new_unsorted", "new")]
        def test(m):
            m.vals[g.self_] = m.value(trees[m.seed % 5 == 0])
            got = ints(m.value(v)); bs = g.boxes(m, m.vals[g.items])
            want = [(a, b) for a in range(len(bs)) for b in range(a + 1, len(bs)) if g.hits(bs[a], bs[b])]
            return None if sorted(got) == want else (sorted(got), want)
        r = g.refute(test, {g.items: g.tokens, g.deg: g.degrees}, trees + [v])
        r.how += " (%s)" % why
        return r
    c.ob("Flatbush::find_self_intersection_candidates reports every intersecting pair once, smaller index first", i, "worklist induction", t)
    emptyindex(c, g, "find_self_intersection_candidates", "an index made by Flatbush::new_empty has no pair to report")

def nodeof(g, x):
    """an arbitrary node, its level a natural number"""
    f = {n: g.node(x, n) for n in ("tree_index", "sibling_index", "envelope")}
    return g.v.con(NODE, None, level=fresh("k"), **f)
class Join(SelfJoin):
    """pairs of nodes of two indexes: any non-leaf side may be replaced by its children"""
    def __init__(self, c, g): self.c, self.g = c, g; self.t, self.t2 = Tree(c, g, g.self_), Tree(c, g, g.other)
    def step(self, pc, S, R, it, rest, w0, r0, w1, r1):
        c, g = self.c, self.g; a, b = self.t.root(), self.t2.root()
        n1, n2 = [nodeof(g, fld(it, 0, j)) for j in (0, 1)]
        sub = {fld(it, 0, 0): n1, fld(it, 0, 1): n2}
        w1, r1 = subst(w1, sub), subst(r1, sub)
        never = lambda q: decide.context(q) is FALSE
        one = lambda cond, x: ite(cond, lit(x), lit())
        both = lambda x, y: And(self.leaf(x), self.leaf(y))
        pair = lambda x, y: tup(g.node(x, "sibling_index"), g.node(y, "sibling_index"))
        def kids(side):
            k = fresh("k")
            x, y = (self.t.child(n1, k), n2) if side == 0 else (n1, self.t2.child(n2, k))
            return k, inat((self.t, self.t2)[side].degree), x, y
        def late():
            """pairs are reported when taken from the worklist"""
            need(bycond(c, assume(w0, pc), one(self.meet(a, b), tup(a, b))) and assume(r0, pc) is lit(), "the start is not shown to be as required")
            for p, x in leaves(w1):
                q = And(p, Not(both(n1, n2)))
                if not never(And(p, both(n1, n2))): need(bycond(c, assume(x, And(p, both(n1, n2))), rest), "leaf pairs")
                if never(q): continue
                for s in (0, 1):
                    if not never(And(q, self.leaf((n1, n2)[s]))): continue
                    k, D, u, v = kids(s)
                    if bycond(c, assume(x, q), cat(rest, comp([k], [D], self.meet(u, v), tup(u, v)))): break
                else: raise No("the next worklist is not the pairs of one side's children that meet the other node")
            need(bycond(c, r1, cat(R, one(both(n1, n2), pair(n1, n2)))), "the next results are not shown to be as required")
        def soon():
            """pairs are reported when found"""
            need(bycond(c, assume(w0, pc), one(And(self.meet(a, b), Not(both(a, b))), tup(a, b))) and bycond(c, assume(r0, pc), one(And(self.meet(a, b), both(a, b)), pair(a, b))), "the start is not shown to be as required")
            nb = Not(both(n1, n2))
            for p, x in leaves(assume(w1, nb), nb):
                for p2, z in leaves(assume(r1, p), p):
                    if never(p2): continue
                    for s in (0, 1):
                        if not never(And(p2, self.leaf((n1, n2)[s]))): continue
                        k, D, u, v = kids(s)
                        m = self.meet(u, v)
                        if bycond(c, assume(x, p2), cat(rest, comp([k], [D], And(m, Not(both(u, v))), tup(u, v)))) and bycond(c, z, cat(R, comp([k], [D], And(m, both(u, v)), pair(u, v)))): break
                    else: raise No("the step")
        how = TRUE
        try: late()
        except No as e:
            try: soon()
            except No: raise e
            how = Not(both(n1, n2))
        return sub, [(self.t, n1), (self.t2, n2)], how

@indexrule("C28")
def c28(c):
    g = Index(c); c.ixmeets = c.index.ix.meets
    i = g.fn("find_other_rtree_intersection_candidates")
    def t():
        v, ev = g.query("find_other_rtree_intersection_candidates", g.self_, g.other)
        try: return Verdict(PROVED, traversal(c, g, v, ev, Join(c, g)))
        except No as e: why = str(e)
        it2, d2 = Var("items2"), Var("degree2")
        A = [g.build(n)[0] for n in ("new_unsorted", "new")]
        B = [subst(x, {g.items: it2, g.deg: d2}) for x in A]
        def test(m):
            m.vals[g.self_] = m.value(A[m.seed % 5 == 0]); m.vals[g.other] = m.value(B[m.seed % 7 == 0])
            got = ints(m.value(v)); b1, b2 = g.boxes(m, m.vals[g.items]), g.boxes(m, m.vals[it2])
            want = [(a, b) for a in range(len(b1)) for b in range(len(b2)) if g.hits(b1[a], b2[b])]
            return None if sorted(got) == want else (sorted(got), want)
        r = g.refute(test, {g.items: g.tokens, g.deg: g.degrees, it2: g.tokens, d2: g.degrees}, A + B + [v])
        r.how += " (%s)" % why
        return r
    c.ob("Flatbush::find_other_rtree_intersection_candidates reports every intersecting pair once, first index first", i, "worklist induction", t)
    emptyindex(c, g, "find_other_rtree_intersection_candidates", "joining indexes made by Flatbush::new_empty reports nothing", lambda e: [e, e])
