"""noproof.py DUMP [Cxx...]: a test of the refutation side. Runs the rules with every early `return PROVED` cut out, so
that each obligation has to be decided by its fallback (random interpretations, exploration). On the unchanged tree none
of them may refute: a refutation here is a fault of an oracle that a benign edit could bring to the surface."""
import sys, os, ast, importlib.abc, importlib.util
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/analyzer"
sys.path.insert(0, ROOT); sys.setrecursionlimit(100000)
cut = 0
def proved(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "Verdict" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == "PROVED"
class Cut(ast.NodeTransformer):
    def visit_If(self, n):
        global cut
        self.generic_visit(n)
        b = n.body[-1] if n.body else None
        if isinstance(b, ast.Return) and b.value is not None:
            own = proved(b.value)
            through = isinstance(b.value, ast.Name) and any(isinstance(x, ast.Name) and x.id == "PROVED" for x in ast.walk(n.test)) and any(isinstance(x, ast.Attribute) and x.attr == "status" for x in ast.walk(n.test)) and not any(isinstance(x, ast.NotEq) for x in ast.walk(n.test))
            if own or through:
                cut += 1
                n.test = ast.copy_location(ast.BoolOp(ast.And(), [ast.Constant(False), n.test]), n.test)
                ast.fix_missing_locations(n)
        return n
MODS = {f[:-3] for f in os.listdir(ROOT) if f.startswith("rules") and f.endswith(".py")} | {"decide"}
class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name in MODS: return importlib.util.spec_from_loader(name, self, origin=ROOT + "/" + name + ".py")
    def create_module(self, spec): return None
    def exec_module(self, m):
        f = ROOT + "/" + m.__name__ + ".py"; m.__file__ = f
        t = Cut().visit(ast.parse(open(f).read(), f))
        exec(compile(t, f, "exec"), m.__dict__)
sys.meta_path.insert(0, Finder())
sys.argv = ["run.py"] + sys.argv[1:]
src = open(ROOT + "/run.py").read()
exec(compile(src, ROOT + "/run.py", "exec"), {"__name__": "__main__"})
print(cut, "proof exits cut")
