"""MIR -> value graph.

Evaluates the (type-checked, polymorphic) MIR of a function abstractly: every
local holds a term of the value graph, joins become decision diagrams, calls
into the crate are inlined (or kept as opaque call terms), and loops are
replaced by closed summaries (comprehensions, quantifiers, folds, first
witnesses, work lists).  Nothing is executed and no path is enumerated.
"""
import json, re, struct, sys
from terms import *

class Unsupported(Exception): pass

class Prog(object):
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.tys = d["tys"]; self.insts = d["insts"]; self.roots = d["roots"]
        self.items = d["items"]; self.adts = {}
        self.adt_decl = {a["path"]: a for a in d["adts"]}
        for t in self.tys:
            if t.get("k") == "adt" and t["variants"]:
                if t["path"] not in self.adts or len(str(t["variants"])) > len(str(self.adts[t["path"]]["variants"])):
                    self.adts[t["path"]] = t
        self._an = {}
        self.real = []
        for e in d["envs"]:
            self.real.append(e)
        self.lib = set(self.roots)
    def is_real_param(self, inst, name):
        e = self.real[inst["env"]]
        if re.search(r"PrimInt", e) and re.search(r"\b%s as [^>]*PrimInt" % re.escape(name), e): return False
        if re.search(r"<%s as [^>]*(Coordinate|Float)\b" % re.escape(name), e): return True
        return bool(re.search(r"(Coordinate|Float)", e)) and name in ("C", "Self", "T", "F")
    def variants(self, path):
        a = self.adts.get(path)
        return a["variants"] if a else None
    def nvariants(self, ty):
        if ty.get("k") == "adt" and ty["enum"]: return len(ty["variants"])
        return 1
    def method(self, path, trait, name):
        """the instance of a trait method implemented for a crate type"""
        if not hasattr(self, "_meth"):
            self._meth = {}
            for i, f in enumerate(self.insts):
                if not f["local"] or not f["trait"] or f["selfty"] is None: continue
                if f["kind"] != "item": continue
                self._meth.setdefault((f["selfty"], f["trait"], f["name"]), i)
        for (s, t, n), i in self._meth.items():
            if t.split("<")[0].split("::")[-1] == trait.split("::")[-1] and n == name and s.split("<")[0].split("::")[-1] == path.split("::")[-1] and _samehead(s, path): return i
        return None
    def clone_is_identity(self, i):
        """is the Clone implementation i the identity (decided by evaluating it once)"""
        if not hasattr(self, "_cl"): self._cl = {}
        if i not in self._cl:
            self._cl[i] = False
            import decide
            try:
                x = Var("self"); ev = Ev(self)
                v, st, _ = ev.call_sym(i, [x])
                t = self.tys[self.insts[i]["locals"][0]]
                self._cl[i] = not ev.panics and not ev.unknown and decide.eta(self, v, t) is decide.eta(self, x, t)
            except Unsupported: pass
        return self._cl[i]
    def ret_by_path(self, path):
        for f in self.insts:
            if f["path"] == path: return self.tys[f["locals"][0]]
        return None
    def find(self, typ, name, trait=None, nargs=None):
        """instances of the methods called name of the crate type (last path segments typ); typ None for free functions"""
        out = []
        for i in self.roots:
            f = self.insts[i]
            if f["name"] != name: continue
            if typ is None:
                if f["selfty"] is None: out.append(i)
                continue
            if f["selfty"] is None or not _samehead(f["selfty"], typ) and not _tail(f["selfty"], typ): continue
            if trait is not None and (f["trait"] is None or not trait_is(f["trait"], trait)): continue
            if trait is None and f["trait"] is not None and not f["trait"].endswith(">") and f["trait"].split("::")[0] == "std": continue
            out.append(i)
        return out
    def analysis(self, i):
        r = self._an.get(i)
        if r is None:
            r = self._an[i] = Cfg(self.insts[i])
        return r

def _samehead(s, path):
    """does the printed type s name the type at path"""
    h = s.split("<")[0].split("::")
    p = path.split("::")
    return p[-len(h):] == h

def _tail(s, typ):
    h = s.split("<")[0].split("::"); t = typ.split("::")
    return h[-len(t):] == t
def trait_is(printed, want):
    return printed.split("<")[0].split("::")[-1] == want.split("<")[0].split("::")[-1] and ("<" not in want or printed.split("<", 1)[1] == want.split("<", 1)[1])
UNSIGNED = ("usize", "u64", "u32", "u16", "u8")
IGNORED_ASSERT = ("Misaligned", "NullPointer", "InvalidEnum")

class Cfg(object):
    def __init__(self, f):
        self.f = f
        n = len(f["blocks"])
        self.succ = [self._succ(b) for b in f["blocks"]]
        # reverse postorder
        order = []; seen = set()
        st = [(0, iter(self.succ[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else:
                order.append(b); st.pop()
        order.reverse()
        self.order = order
        self.rpo = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]: pred[s].append(b)
        self.pred = pred
        # dominators
        dom = {b: set(order) for b in order}; dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == 0: continue
                d = set.intersection(*[dom[p] for p in pred[b]]) | {b}
                if d != dom[b]: dom[b] = d; ch = True
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in body: continue
                        body.add(x); w.extend(pred[x])
                elif self.rpo[s] <= self.rpo[b]:
                    raise Unsupported("irreducible control flow in " + f["path"])
        self._live()
    def _succ(self, b):
        t = b["t"]; k = t[0]
        if k == "goto": return [t[1]]
        if k == "switch": return list(dict.fromkeys([x[1] for x in t[2]] + [t[3]]))
        if k == "call": return [t[4]] if t[4] >= 0 else []
        if k == "assert": return [t[4]]
        return []
    def _live(self):
        use = {}; de = {}
        def pl(p, u, d, isdef=False):
            if isdef and not p[1]: d.add(p[0])
            elif p[0] not in d: u.add(p[0])
            for e in p[1]:
                if e[0] == "index" and e[1] not in d: u.add(e[1])
        def op(o, u, d):
            if o[0] in ("copy", "move"): pl(o[1], u, d)
        def rv(r, u, d):
            k = r[0]
            if k == "use": op(r[1], u, d)
            elif k == "repeat": op(r[1], u, d)
            elif k in ("ref",): pl(r[2], u, d)
            elif k == "rawptr": pl(r[2] if len(r) > 2 else r[1], u, d)
            elif k == "cast": op(r[2], u, d)
            elif k == "bin": op(r[2], u, d); op(r[3], u, d)
            elif k == "un": op(r[2], u, d)
            elif k == "discr": pl(r[1], u, d)
            elif k == "agg":
                for o in r[2]: op(o, u, d)
        for b in self.order:
            u, d = set(), set()
            blk = self.f["blocks"][b]
            for s in blk["s"]:
                if s[0] == "=":
                    rv(s[2], u, d); pl(s[1], u, d, True)
                else: pl(s[1], u, d)
            t = blk["t"]
            if t[0] == "switch": op(t[1], u, d)
            elif t[0] == "call":
                for o in t[2]: op(o, u, d)
                if t[5]: op(t[5], u, d)
                pl(t[3], u, d, True)
            elif t[0] == "assert":
                op(t[1], u, d)
                if t[3][0] == "bounds": op(t[3][1], u, d); op(t[3][2], u, d)
            elif t[0] == "return": u.add(0)
            use[b], de[b] = u, d
        self.live = {b: set() for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                o = set()
                for s in self.succ[b]: o |= self.live[s]
                n = use[b] | (o - de[b])
                if n != self.live[b]: self.live[b] = n; ch = True

class St(object):
    __slots__ = ("pc", "mem")
    def __init__(self, pc, mem): self.pc = pc; self.mem = mem
    def copy(self): return St(self.pc, dict(self.mem))

class Panic(object):
    """a way to panic: reached when cond holds for some values of the binders"""
    def __init__(self, kind, cond, sp, fn, binders, info=None):
        self.kind, self.cond, self.sp, self.fn, self.binders, self.info = kind, cond, sp, fn, list(binders), info
    def __repr__(self): return "Panic(%s %s %s %s | %s)" % (self.kind, self.fn, self.sp, show(self.cond), self.info)

class Loop(object):
    """a loop kept as a record: rules look at its next-state functions"""
    pass

class Frame(object):
    def __init__(self, ev, inst_id, parent):
        self.ev = ev; self.id = inst_id; self.f = ev.p.insts[inst_id]; self.cfg = ev.p.analysis(inst_id)
        self.cells = {}; self.parent = parent
        self.depth = 0 if parent is None else parent.depth + 1
    def cell(self, l):
        c = self.cells.get(l)
        if c is None:
            c = self.cells[l] = self.ev.newcell(self, l)
        return c

class Ev(object):
    def __init__(self, prog, opaque=None, maxdepth=40, contract=None):
        self.p = prog
        self.opaque = opaque or (lambda inst: False)
        self.contract = contract
        self.ncell = 0; self.cellinfo = {}
        self.panics = []
        self.loops = []
        self.unknown = []       # constructs the analysis could not model
        self.visited = set()    # functions analysed
        self.callsites = 0
        self.ctx = []           # binders of enclosing loops (k, n)
        self.base = TRUE        # condition under which the enclosing loop is reached
        self.maxdepth = maxdepth
        self.writes = None
        import models
        self.models = models

    # ------------------------------------------------------------ cells
    def newcell(self, frame=None, local=None, name=None):
        self.ncell += 1
        self.cellinfo[self.ncell] = (frame, local, name)
        return self.ncell
    def tmpcell(self, st, v):
        c = self.newcell(None, None, "tmp")
        st.mem[c] = v
        return c

    # ------------------------------------------------------------ entry
    def run(self, inst_id, args, pc=TRUE):
        """returns (result term, pc under which it returns, final St)"""
        st = St(pc, {})
        argv = []
        f = self.p.insts[inst_id]
        for i, a in enumerate(args): argv.append(a)
        self.root_args = argv
        v, st2 = self.call_inst(inst_id, argv, st, None)
        return v, st2
    def sym_args(self, inst_id, names=None):
        """symbolic arguments; &mut arguments get a cell"""
        f = self.p.insts[inst_id]
        st = St(TRUE, {})
        out = []
        nm = {l: n for l, n in f["names"]}
        for i in range(1, f["argc"] + 1):
            t = self.p.tys[f["locals"][i]]
            n = (names[i - 1] if names else None) or nm.get(i, "a%d" % i)
            out.append(Var(n))
        return out
    def call_sym(self, inst_id, args):
        """like run, but arguments of &mut type are wrapped in cells; returns (ret, st, cells)"""
        f = self.p.insts[inst_id]
        st = St(TRUE, {})
        argv, cells = [], []
        for i, a in enumerate(args):
            t = self.p.tys[f["locals"][i + 1]]
            if t["k"] == "ref" and t["mut"]:
                c = self.tmpcell(st, a)
                cells.append(c); argv.append(mk("mref", c, ()))
            else: argv.append(a)
        v, st2 = self.call_inst(inst_id, argv, st, None)
        return v, st2, cells

    def note(self, what, where=""):
        self.unknown.append((what, where))

    def panic(self, kind, cond, st, sp, fn, info=None):
        c = And(self.base, st.pc, cond)
        if c is FALSE or c is BOT: return
        self.panics.append(Panic(kind, c, sp, fn, self.ctx, info))

    # ------------------------------------------------------------ calls
    def call_inst(self, inst_id, args, st, parent):
        f = self.p.insts[inst_id]
        if f["name"] == "clone" and f["trait"] and f["trait"].split("::")[-1] == "Clone" and self.p.clone_is_identity(inst_id):
            return self.deref(st, args[0]), st
        fr = Frame(self, inst_id, parent)
        if fr.depth > self.maxdepth:
            raise Unsupported("call depth")
        x = parent
        while x is not None:
            if x.id == inst_id: raise Unsupported("recursion in " + f["path"])
            x = x.parent
        if f["local"]: self.visited.add(f["path"])
        if f.get("spread", -1) >= 0 and len(args) != f["argc"]:
            pass
        for i, a in enumerate(args): st.mem[fr.cell(i + 1)] = a
        rets = []
        backs, exits = self.blocks(fr, 0, st, None, None, rets)
        out = self.join(rets)
        if out is None:
            return BOT, None
        v = out.mem.get(fr.cell(0), UNIT)
        for l, c in fr.cells.items(): out.mem.pop(c, None)
        return v, out

    def join(self, sts):
        sts = [s for s in sts if s is not None and s.pc is not FALSE]
        if not sts: return None
        if len(sts) == 1: return sts[0]
        pc = FALSE
        for s in sts: pc = Or(pc, s.pc)
        mem = {}
        conds = [restrict(s.pc, pc) for s in sts]
        keys = set()
        for s in sts: keys |= set(s.mem)
        base = sts[0].mem
        for k in keys:
            vs = [s.mem.get(k, BOT) for s in sts]
            v0 = vs[0]
            if all(v is v0 for v in vs): mem[k] = v0; continue
            r = BOT
            for s, v in zip(reversed(conds), reversed(vs)):
                if v is BOT: continue
                r = v if r is BOT else ite(s, v, r)
            mem[k] = r
        return St(pc, mem)

    # ------------------------------------------------------------ blocks
    def blocks(self, fr, entry, st, allowed, header, rets):
        """evaluate an acyclic region; returns (back states, [(target, state)])"""
        cfg = fr.cfg
        pend = {entry: [st]}
        backs, exits = [], []
        first_entry = True
        def flow(target, s):
            if s is None or s.pc is FALSE: return
            if header is not None and target == header: backs.append(s)
            elif allowed is not None and target not in allowed: exits.append((target, s))
            else: pend.setdefault(target, []).append(s)
        while pend:
            b = min(pend, key=lambda x: cfg.rpo[x])
            s = self.join(pend.pop(b))
            if s is None: continue
            if b in cfg.loops and not (b == header):
                for tgt, s2 in self.loop(fr, b, s, rets): flow(tgt, s2)
                continue
            self.block(fr, b, s, flow, rets)
        return backs, exits

    def block(self, fr, b, st, flow, rets):
        blk = fr.f["blocks"][b]
        for s in blk["s"]:
            if s[0] == "=":
                v = self.rvalue(fr, st, s[2], s[1], s[3] if len(s) > 3 else None)
                self.assign(fr, st, s[1], v)
            elif s[0] == "setdiscr":
                self.note("set discriminant", fr.f["path"])
        t = blk["t"]; k = t[0]; sp = blk["sp"]
        if k == "goto": flow(t[1], st)
        elif k == "return":
            rets.append(st)
        elif k == "switch":
            x = self.operand(fr, st, t[1])
            rest = TRUE
            ty = self.p.tys[t[4]]
            for val, tgt in t[2]:
                c = self.switch_cond(x, int(val), ty)
                pc = And(st.pc, rest, c)
                if pc is not FALSE and pc is not BOT: 
                    n = St(pc, dict(st.mem)); flow(tgt, n)
                rest = And(rest, Not(c))
            if fr.f["blocks"][t[3]]["t"][0] != "unreachable" or fr.f["blocks"][t[3]]["s"]:
                pc = And(st.pc, rest)
                if pc is not FALSE and pc is not BOT: flow(t[3], St(pc, dict(st.mem)))
        elif k == "assert":
            c = self.operand(fr, st, t[1])
            if not t[2]: c = Not(c)
            info = t[3]
            if info[0] == "bounds":
                ln = self.operand(fr, st, info[1]); ix = self.operand(fr, st, info[2])
                self.panic("bounds", Not(c), st, sp, fr.f["path"], (ln, ix))
            elif not any(info[0].startswith(x) for x in IGNORED_ASSERT):
                self.panic("assert:" + info[0].split("(")[0].strip(), Not(c), st, sp, fr.f["path"])
            flow(t[4], st)
        elif k == "call":
            args = [self.operand(fr, st, a) for a in t[2]]
            v, s2 = self.call(fr, st, t[1], args, t[5], sp, t[2], t[4] < 0, self.p.tys[fr.f["locals"][t[3][0]]] if not t[3][1] else None)
            if s2 is None or t[4] < 0: return
            self.assign(fr, s2, t[3], v)
            flow(t[4], s2)
        elif k in ("unreachable", "resume"): pass
        else:
            raise Unsupported("terminator %s in %s" % (k, fr.f["path"]))

    def switch_cond(self, x, val, ty):
        if ty["k"] == "bool": return x if val else Not(x)
        def f(x):
            if x.op == "discrv":
                ds = x.args[1]
                if str(val) in ds: 
                    return isvar(x.args[0], ds.index(str(val)), len(ds))
                return FALSE
            if x.op in ("num",): return Bool(x.args[0] == val)
            if ty["k"] == "int" and val >= 1 << 31:
                bits = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}.get(ty["s"], 64)
                v = val - (1 << bits) if val >= 1 << (bits - 1) else val
                return ieq(x, Int(v))
            return ieq(x, Int(val))
        return lift(("sw", val, ty["s"]), f, x)

    # ------------------------------------------------------------ places
    def place_ty(self, fr, p):
        t = fr.f["locals"][p[0]]; T_ = self.p.tys
        for e in p[1]:
            k = e[0]
            if k == "deref":
                x = T_[t]
                if x["k"] in ("ref", "ptr"): t = x["t"]
                elif x["k"] == "adt" and x["args"]: t = x["args"][0]
                else: return None
            elif k == "field": t = e[2]
            elif k in ("index", "cindex"):
                x = T_[t]
                if "t" not in x: return None
                t = x["t"]
            elif k in ("downcast", "subslice"): pass
            else: return None
        return T_[t]
    def read(self, fr, st, p):
        v = st.mem.get(fr.cell(p[0]))
        if v is None:
            t = self.p.tys[fr.f["locals"][p[0]]]
            v = UNIT if (t["k"] == "tuple" and not t["ts"]) else BOT
        variant = 0
        for e in p[1]:
            k = e[0]
            if k == "deref": v = self.deref(st, v)
            elif k == "downcast": variant = e[1]
            elif k == "field":
                v = self.field(v, variant, e[1]); variant = 0
            elif k == "index": v = self.through(st, v, lambda x, i=st.mem[fr.cell(e[1])]: at(x, i), ("i", st.mem[fr.cell(e[1])]))
            elif k == "cindex":
                if e[2]:  v = at(v, isub(seqlen(v), Int(e[1])))
                else: v = at(v, Int(e[1]))
            elif k == "subslice":
                hi = isub(seqlen(v), Int(e[2])) if e[3] else Int(e[2])
                v = slice_(v, Int(e[1]), hi)
            else: raise Unsupported("projection %s" % k)
        return v
    def field(self, v, variant, i):
        if v.op == "mref": return v        # raw box/MaybeUninit plumbing
        return fld(v, variant, i)
    def through(self, st, v, f, el):
        return f(v)
    def deref(self, st, v):
        def f(v):
            if v.op == "mref": return self.load(st, v.args[0], v.args[1])
            return v
        return lift_nc(f, v)
    def load(self, st, cell, path):
        v = st.mem.get(cell, BOT)
        for e in path: v = self.step(v, e)
        return v
    def step(self, v, e):
        k = e[0]
        if k == "f": return fld(v, e[1], e[2])
        if k == "i": return at(v, e[1])
        if k == "e": return mget(v, e[1], e[2])
        if k == "all": return v
        raise Unsupported("path element")
    def resolve(self, fr, st, p):
        """[(cond, cell, path)] for a place used as an lvalue / mutable borrow"""
        alts = [(TRUE, fr.cell(p[0]), ())]
        variant = 0
        t = fr.f["locals"][p[0]]; T_ = self.p.tys
        for e in p[1]:
            k = e[0]
            if k == "deref":
                new = []
                for c, cell, path in alts:
                    v = self.load(st, cell, path)
                    for lf, cond in leafconds(v):
                        if lf.op == "mref": new.append((And(c, cond), lf.args[0], lf.args[1]))
                        elif lf is BOT: pass
                        else: new.append((And(c, cond), cell, path))
                alts = new
                x = T_[t]
                t = x["t"] if x["k"] in ("ref", "ptr") else (x["args"][0] if x.get("args") else t)
            elif k == "downcast": variant = e[1]
            elif k == "field":
                shape = self.shape(T_[t], variant)
                t = e[2]
                v0 = [self.load(st, cell, path) for _, cell, path in alts]
                alts = [(c, cell, path) if v.op == "mref" or self.cellinfo[cell][2] == "box" else (c, cell, path + (("f", variant, e[1], shape),))
                        for (c, cell, path), v in zip(alts, v0)]
                variant = 0
            elif k == "index":
                i = st.mem[fr.cell(e[1])]
                alts = [(c, cell, path + (("i", i),)) for c, cell, path in alts]
                t = T_[t].get("t", t)
            elif k == "cindex":
                alts = [(c, cell, path + (("i", Int(e[1]) if not e[2] else isub(seqlen(self.load(st, cell, path)), Int(e[1]))),)) for c, cell, path in alts]
                t = T_[t].get("t", t)
            else: raise Unsupported("lvalue projection %s" % k)
        return alts
    def shape(self, ty, variant):
        if ty["k"] == "adt":
            vs = ty["variants"] or []
            n = len(vs[variant]["fields"]) if variant < len(vs) else 0
            return ("adt", ty["path"], variant, n)
        if ty["k"] == "tuple": return ("tuple", "", 0, len(ty["ts"]))
        if ty["k"] == "closure": return ("closure", ty["inst"], 0, len(ty["upvars"]))
        return ("tuple", "", 0, 0)
    def update(self, old, path, val):
        if not path: return val
        e = path[0]
        def f(old):
            if e[0] == "f":
                sh = e[3]
                inner = self.update(fld(old, e[1], e[2]) if old.op != "bot" else BOT, path[1:], val)
                n = sh[3]
                if old.op in AGG and (old.op != "adt" or old.args[1] == e[1]):
                    k = {"adt": 2, "closure": 1}.get(old.op, 0)
                    a = list(old.args)
                    if k + e[2] < len(a):
                        a[k + e[2]] = inner
                        return rebuild(old.op, a)
                if n == 0: raise Unsupported("field update of unknown shape")
                fs = [inner if i == e[2] else (fld(old, e[1], i) if old is not BOT else BOT) for i in range(n)]
                if sh[0] == "adt": return adt(sh[1], sh[2], *fs)
                if sh[0] == "closure": return mk("closure", sh[1], *fs)
                return tup(*fs)
            if e[0] == "i": return store(old, e[1], self.update(at(old, e[1]), path[1:], val))
            if e[0] == "e": return mset(old, e[1], e[2], self.update(mget(old, e[1], e[2]), path[1:], val))
            raise Unsupported("update path")
        if old is BOT: return f(old)
        return lift_nc(f, old)
    def assign(self, fr, st, p, v):
        if not p[1]:
            st.mem[fr.cell(p[0])] = v
            return
        for c, cell, path in self.resolve(fr, st, p):
            self.store_at(st, cell, path, v, c)
    def store_at(self, st, cell, path, v, c=TRUE):
        old = st.mem.get(cell, BOT)
        new = self.update(old, path, v)
        st.mem[cell] = new if c is TRUE else ite(c, new, old)
    def mwrite(self, st, m, fn):
        """apply fn to the value behind the mutable reference m"""
        for lf, c in leafconds(m):
            if lf.op == "mref":
                old = self.load(st, lf.args[0], lf.args[1])
                self.store_at(st, lf.args[0], lf.args[1], fn(old), c)
            elif lf is BOT: pass
            else: raise Unsupported("write through a shared value")

    # ------------------------------------------------------------ operands
    def operand(self, fr, st, o):
        k = o[0]
        if k in ("copy", "move"): return self.read(fr, st, o[1])
        if k == "const": return self.const(fr, st, o[1])
        if k == "rtcheck": return FALSE
        raise Unsupported("operand " + k)
    def op_ty(self, fr, o):
        if o[0] in ("copy", "move"): return self.place_ty(fr, o[1])
        if o[0] == "const" and o[1].get("t") is not None: return self.p.tys[o[1]["t"]]
        return None
    def const(self, fr, st, c):
        k = c["c"]
        t = self.p.tys[c["t"]] if c.get("t") is not None else None
        if k == "scalar":
            v = int(c["v"])
            if t["k"] == "bool": return Bool(v != 0)
            if t["k"] == "float":
                x = struct.unpack("<d", struct.pack("<Q", v))[0] if t["s"] == "f64" else struct.unpack("<f", struct.pack("<I", v & 0xffffffff))[0]
                if x != x: return Var("NaN")
                if x in (float("inf"), float("-inf")): return Var("inf" if x > 0 else "-inf")
                return Num(Fraction(x))
            if t["k"] == "adt" and t["enum"]:
                if str(v) in t["discr"]: return adt(t["path"], t["discr"].index(str(v)))
                for i, d in enumerate(t["discr"]):
                    if int(d) & 0xff == v & 0xff: return adt(t["path"], i)
                raise Unsupported("enum constant")
            if t["k"] == "adt": return adt(t["path"], 0, Int(v))
            return Int(v)
        if k == "str": return Str(c["v"])
        if k == "zst":
            if t["k"] == "closure": return mk("closure", t["inst"])
            if t["k"] == "adt":
                return adt(t["path"], 0)
            return UNIT
        if k == "fn": return mk("fnv", c["t"])
        if k == "promoted":
            v, s2 = self.call_inst(c["inst"], [], St(TRUE, {}), None)
            return v
        return mk("konst", c.get("name") or c.get("v"), c.get("t"))

    # ------------------------------------------------------------ rvalues
    def is_float(self, fr, t):
        if t is None: return False
        if t["k"] == "float": return True
        if t["k"] == "param": return self.p.is_real_param(fr.f, t["name"])
        return False
    def rvalue(self, fr, st, r, dst, sp):
        k = r[0]
        if k == "use": return self.operand(fr, st, r[1])
        if k in ("ref", "rawptr"):
            p = r[2] if len(r) > 2 else r[1]
            mutable = (r[1] is True) if k == "ref" else True
            if not mutable: return self.read(fr, st, p)
            alts = self.resolve(fr, st, p)
            v = BOT
            for c, cell, path in reversed(alts):
                m = mk("mref", cell, path)
                v = m if v is BOT else ite(c, m, v)
            return v
        if k == "cast": return self.cast(fr, st, r)
        if k == "bin":
            a, b = self.operand(fr, st, r[2]), self.operand(fr, st, r[3])
            t = self.op_ty(fr, r[2]) or self.op_ty(fr, r[3])
            if r[1] in ("Sub", "SubUnchecked") and t is not None and t["s"] in UNSIGNED and fr.f["local"] and a.op != "konst" and b.op != "konst":
                self.panic("underflow", ilt(a, b), st, sp, fr.f["path"], (a, b))
            return self.binop(fr, r[1], a, b, t)
        if k == "un":
            a = self.operand(fr, st, r[2]); t = self.op_ty(fr, r[2])
            if r[1] == "Not":
                if t["k"] == "bool": return Not(a)
                if t["s"][0] == "i": return iadd(imulc(a, -1), Int(-1))
                return ixor(a, Int((1 << {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}.get(t["s"], 64)) - 1))
            if r[1] == "Neg": return rneg(a) if self.is_float(fr, t) else imulc(a, -1)
            if r[1] == "PtrMetadata": return seqlen(self.deref(st, a))
            raise Unsupported("unop " + r[1])
        if k == "discr":
            v = self.read(fr, st, r[1]); t = self.place_ty(fr, r[1])
            return self.discr(v, t)
        if k == "agg":
            ops = [self.operand(fr, st, o) for o in r[2]]
            a = r[1]
            if a[0] == "array": return lit(*ops)
            if a[0] == "tuple": return tup(*ops)
            if a[0] == "adt": return adt(a[1], a[2], *ops)
            if a[0] == "closure": return mk("closure", self.p.tys[a[1]]["inst"], *ops)
            raise Unsupported("aggregate")
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            n = r[2] if len(r) > 2 else None
            if isinstance(n, int): return lit(*[v] * n) if n <= 16 else comp([fresh("k")], [Int(n)], TRUE, v)
            t = self.place_ty(fr, dst)
            if t and t.get("n", -1) >= 0: return lit(*[v] * t["n"])
            raise Unsupported("repeat")
        raise Unsupported("rvalue %s in %s" % (r, fr.f["path"]))
    def discr(self, v, t):
        if t is None or t["k"] != "adt": return Int(0)
        ds = tuple(t["discr"])
        def f(v):
            if v.op == "adt": return Int(int(ds[v.args[1]])) if False else mk("discrv", v, ds)
            return mk("discrv", v, ds)
        return lift_nc(f, v)
    def cast(self, fr, st, r):
        v = self.operand(fr, st, r[2]); kind = r[1]; t = self.p.tys[r[3]]; s = self.op_ty(fr, r[2])
        if kind.startswith("IntToInt"):
            if s is not None and s["k"] == "bool": return ite(v, Int(1), Int(0))
            W = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "char": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128}
            if s is not None and s["k"] == "adt":
                def f(v):
                    if v.op == "adt": return Int(int(s["discr"][v.args[1]]))
                    return mk("cast", "discr", v)
                return lift_nc(f, v)
            ws, wt = W.get(s["s"] if s else None, 64), W.get(t["s"], 64)
            if wt >= ws:
                # a negative number wraps; an unsigned one is taken to be small enough for the signed type of its width
                if s is not None and s["s"] and s["s"][0] == "i" and t["s"][0] == "u" and not nonneg(v):
                    return lift("wrapcast%d" % wt, lambda v: v if nonneg(v) else ite(ilt(v, Int(0)), iadd(v, Int(1 << wt)), v), v)
                return v
            def f(v):
                if v.op == "int":
                    x = v.args[0] & ((1 << wt) - 1)
                    if t["s"][0] == "i" and x >= 1 << (wt - 1): x -= 1 << wt
                    return Int(x)
                return mk("cast", t["s"], v)
            return lift(("cast", t["s"]), f, v)
        if kind.startswith("IntToFloat"):
            return lift("itof", lambda v: Num(v.args[0]) if v.op == "int" else mk("itof", v), v)
        if kind.startswith("FloatToInt"):
            return lift(("ftoi", t["s"]), lambda v: mk("ftoi", t["s"], v), v)
        if kind.startswith("FloatToFloat"): return v if s and s["s"] == t["s"] else mk("ftof", t["s"], v)
        return v
    def binop(self, fr, op, a, b, t):
        if t is not None and t["k"] == "bool":
            if op == "Eq": return Iff(a, b)
            if op == "Ne": return Not(Iff(a, b))
            if op == "BitAnd": return And(a, b)
            if op == "BitOr": return Or(a, b)
            if op == "BitXor": return Not(Iff(a, b))
            if op == "Lt": return And(Not(a), b)
            raise Unsupported("bool op " + op)
        if self.is_float(fr, t): return self.float_op(op, a, b)
        if op in ("Eq", "Ne") and (_isdiscr(a) or _isdiscr(b)):
            r = self.discr_eq(a, b)
            return r if op == "Eq" else Not(r)
        if t is not None and t["k"] == "tuple" and not t["ts"]:
            return TRUE if op == "Eq" else FALSE
        if op == "Eq": return ieq(a, b)
        if op == "Ne": return Not(ieq(a, b))
        if op == "Lt": return ilt(a, b)
        if op == "Le": return ile(a, b)
        if op == "Gt": return ilt(b, a)
        if op == "Ge": return ile(b, a)
        if op in ("Add", "AddUnchecked"): return iadd(a, b)
        if op in ("Sub", "SubUnchecked"): return isub(a, b)
        if op in ("Mul", "MulUnchecked"): return imul(a, b)
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            return tup({"A": iadd, "S": isub, "M": imul}[op[0]](a, b), FALSE)
        if op == "Div": return idiv(a, b)
        if op == "Rem": return irem(a, b)
        if op == "BitXor": return ixor(a, b)
        if op == "BitAnd": return iand(a, b)
        if op == "BitOr": return ior(a, b)
        if op in ("Shl", "ShlUnchecked"): return ishl(a, b)
        if op in ("Shr", "ShrUnchecked"): return ishr(a, b)
        if op == "Cmp": return ite(ilt(a, b), LESS, ite(ieq(a, b), EQUAL, GREATER))
        raise Unsupported("binop " + op)
    def discr_eq(self, a, b):
        def f(a, b):
            if a.op == "discrv" and b.op == "discrv":
                n = len(a.args[1])
                r = FALSE
                for k in range(n): r = Or(r, And(isvar(a.args[0], k, n), isvar(b.args[0], k, n)))
                return r
            if b.op == "discrv": a, b = b, a
            if b.op == "int":
                ds = a.args[1]
                if str(b.args[0]) in ds: return isvar(a.args[0], ds.index(str(b.args[0])), len(ds))
                return FALSE
            raise Unsupported("discriminant arithmetic")
        return lift("discr_eq", f, a, b)
    def float_op(self, op, a, b):
        o = {"Add": radd, "Sub": rsub, "Mul": rmul, "Div": rdiv, "Lt": flt, "Le": fle, "Eq": feq}.get(op)
        if o: return o(a, b)
        if op == "Gt": return flt(b, a)
        if op == "Ge": return fle(b, a)
        if op == "Ne": return Not(feq(a, b))
        raise Unsupported("float op " + op)

    # ------------------------------------------------------------ call dispatch
    def call(self, fr, st, cal, args, fo, sp, rawargs, diverges, retty):
        self.callsites += 1
        if cal is None:
            f = self.operand(fr, st, fo)
            return self.apply(f, args, st, fr, sp)
        return self.call_callee(cal, args, st, fr, sp, rawargs, diverges, retty)
    def call_callee(self, cal, args, st, fr, sp, rawargs=None, diverges=False, retty=None):
        if cal["name"] in ("call", "call_mut", "call_once") and (cal["trait"] or "").startswith("core::ops::function::Fn") and len(args) == 2 and not diverges:
            ts = self.p.tys[cal["args"][1]].get("ts", [])
            return self.apply(args[0], [fld(self.deref(st, args[1]), 0, k) for k in range(len(ts))], st, fr, sp)
        r = self.models.model(self, cal, args, st, fr, sp, rawargs, retty)
        if r is not None: return r
        if diverges:
            self.panic("panic:" + cal["name"], TRUE, st, sp, fr.f["path"] if fr else "?", args[0].args[0] if args and args[0].op == "str" else None)
            return BOT, None
        if cal["inst"] is not None:
            inst = self.p.insts[cal["inst"]]
            if self.contract is not None and inst["local"]:
                r = self.contract(self, inst, cal, args, st)
                if r is not None: return r, st
            if self.opaque(inst): return self.opaque_call(inst, cal, args, st, retty)
            try:
                return self.call_inst(cal["inst"], args, st, fr)
            except Unsupported as e:
                if "recursion" in str(e) or "depth" in str(e):
                    self.note(str(e), sp)
                    return self.opaque_call(inst, cal, args, st, retty)
                raise
        self.note("unmodelled call %s" % cal["path"], sp)
        return self.opaque_call(None, cal, args, st, retty)
    def opaque_call(self, inst, cal, args, st, retty):
        path = inst["path"] if inst else (cal["rpath"] or cal["path"])
        vals = [self.deep(st, a) for a in args]
        # mutable arguments are havocked
        for a in args:
            for lf, c in leafconds(a):
                if lf.op == "mref":
                    h = mk("havoc", path, self.ncell, *vals)
                    self.ncell += 1
                    self.store_at(st, lf.args[0], lf.args[1], h, c)
        if retty is None and inst is not None: retty = self.p.tys[inst["locals"][0]]
        if retty is not None and retty["k"] == "bool": return lift(("call", path), lambda *v: atom("bcall", path, *v), *vals), st
        if retty is not None and retty["k"] == "tuple" and not retty["ts"]: return UNIT, st
        return lift(("call", path), lambda *v: mk("call", path, *v), *vals), st
    def deep(self, st, v):
        """value with mutable references replaced by what they refer to"""
        if not contains_term(v, lambda x: x.op == "mref"): return v
        def f(x):
            if x.op == "mref": return self.deep(st, self.load(st, x.args[0], x.args[1]))
            if x.op in AGG:
                k = {"adt": 2, "closure": 1}.get(x.op, 0)
                return rebuild(x.op, x.args[:k] + tuple(self.deep(st, y) for y in x.args[k:]))
            if x.op == "iter": return mk("iter", x.args[0], x.args[1])
            return x
        return lift_nc(f, v)

    def apply(self, f, args, st, fr, sp):
        """call a function value (closure, fn item, constructor)"""
        f = self.deref(st, f) if f.op == "mref" and self.load(st, f.args[0], f.args[1]).op in ("fnv",) else f
        g = self.deref(st, f)
        if g.op == "closure":
            inst = self.p.insts[g.args[0]]
            envt = self.p.tys[inst["locals"][1]]
            env = f
            if envt["k"] == "ref" and envt["mut"] and f.op != "mref":
                c = self.tmpcell(st, f); env = mk("mref", c, ())
            elif f.op == "mref" and not (envt["k"] == "ref" and envt["mut"]): env = g
            argv = [env] + list(args)
            if inst["argc"] == 2 and len(args) != 1: argv = [env, tup(*args)]
            return self.call_inst(g.args[0], argv, st, fr)
        if g.op == "fnv":
            t = self.p.tys[g.args[0]]
            cal = t["callee"]
            if cal["kind"].startswith("Ctor"):
                return self.ctor(cal, args), st
            return self.call_callee(cal, list(args), st, fr, sp)
        if g.op == "ite":
            # function value chosen by a condition: apply each
            outs = []
            for lf, c in leafconds(g):
                s2 = St(And(st.pc, c), dict(st.mem))
                v, s3 = self.apply(lf, args, s2, fr, sp)
                if s3 is not None:
                    outs.append((v, s3))
            cell = self.newcell()
            for v, s3 in outs: s3.mem[cell] = v
            j = self.join([s for _, s in outs])
            if j is None: return BOT, None
            return j.mem.pop(cell), j
        self.note("call of unknown function value %s" % show(g)[:60], sp)
        return mk("apply", g, *args), st
    def ctor(self, cal, args):
        path = cal["path"]
        parent, name = path.rsplit("::", 1)
        if name.startswith("{"):   # {constructor#0}
            path = parent
            parent, name = path.rsplit("::", 1)
        if path in self.p.adts: return adt(path, 0, *args)
        vs = self.p.variants(parent)
        if vs:
            for i, v in enumerate(vs):
                if v["name"] == name: return adt(parent, i, *args)
        for pth, a in self.p.adts.items():
            if pth.endswith("::" + parent.split("::")[-1]):
                for i, v in enumerate(a["variants"]):
                    if v["name"] == name: return adt(pth, i, *args)
        raise Unsupported("constructor " + path)

    # ------------------------------------------------------------ loops
    def loop(self, fr, h, st, rets):
        import loops
        return loops.run(self, fr, h, st, rets)

def _isdiscr(a):
    if a.op == "discrv": return True
    if a.op == "ite": return any(l.op == "discrv" for l, _ in leafconds(a))
    return False
def leafconds(v):
    """[(leaf, condition)] of a diagram"""
    if v.op != "ite": return [(v, TRUE)]
    ls = []
    seen = set()
    def go(x):
        if x.id in seen: return
        seen.add(x.id)
        if x.op == "ite": go(x.args[1]); go(x.args[2])
        else: ls.append(x)
    go(v)
    out = []
    for l in ls:
        memo = {}
        def cond(x):
            if x.op != "ite": return Bool(x is l)
            r = memo.get(x.id)
            if r is None:
                r = memo[x.id] = ite(mk("ite", x.args[0], TRUE, FALSE), cond(x.args[1]), cond(x.args[2]))
            return r
        out.append((l, cond(v)))
    return out
def lift_nc(f, v):
    """lift a unary function over a diagram, uncached (f may depend on state)"""
    if v is BOT: return BOT
    if v.op != "ite": return f(v)
    memo = {}
    def go(x):
        if x is BOT: return BOT
        if x.op != "ite": return f(x)
        r = memo.get(x.id)
        if r is None:
            r = memo[x.id] = ite(mk("ite", x.args[0], TRUE, FALSE), go(x.args[1]), go(x.args[2]))
        return r
    return go(v)

# maps: mnew(kind) | mset(map, key, default, val); mget
def mget(m, key, default):
    def f(m, key):
        if m.op == "mset":
            e = keyeq(m.args[1], key)
            return ite(e, m.args[3], mget(m.args[0], key, default))
        if m.op == "mnew": return default
        return mk("mget", m, key, default)
    return lift("mget%d" % default.id, f, m, key)
def mset(m, key, default, val):
    if m.op == "mset" and m.args[1] is key: m = m.args[0]
    return mk("mset", m, key, default, val)
def keyeq(a, b):
    if a is b: return TRUE
    return valeq(a, b)
def valeq(a, b):
    """structural equality of two (non-float or NaN-free) values"""
    if a is b: return TRUE
    def f(a, b):
        if a is b: return TRUE
        if a.op == "int" or b.op == "int" or a.op == "lin" or b.op == "lin": return ieq(a, b)
        if (a.op == "adt" and a.args[0] == NOTNAN or b.op == "adt" and b.args[0] == NOTNAN) and not (a.op == b.op and a.args[0] != b.args[0]):
            return feq(fld(a, 0, 0), fld(b, 0, 0))
        if same_shape(a, b):
            k = {"adt": 2, "closure": 1}.get(a.op, 0)
            r = TRUE
            for x, y in zip(a.args[k:], b.args[k:]): r = And(r, valeq(x, y))
            return r
        if a.op == "adt" and b.op == "adt" and a.args[:2] != b.args[:2]: return FALSE
        if a.op == "str" and b.op == "str": return Bool(a is b)
        if a.id > b.id: a, b = b, a
        return atom("veq", a, b)
    return lift("valeq", f, a, b)
NOTNAN = "ordered_float::NotNan"
CONS["veq"] = valeq
CONS["mget"] = lambda m, k, d: mget(m, k, d)
