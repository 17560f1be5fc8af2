"""Effects, dependencies and error discipline: rules on the resolved syntax tree."""
import ast
import os
import sys
from . import FLOOR, EXPLAIN
from .base import *
from sa import effects, program

HERE = os.path.dirname(os.path.abspath(__file__))
EXAMPLE = os.path.join(HERE, "positive", "effects_example.py")


def example():
    p = program.Program.__new__(program.Program)
    p.root, p.package, p.modules, p.errors = HERE, "positive", {}, []
    p.add_file(EXAMPLE, "positive")
    return p


def rel(env, m):
    return os.path.relpath(m.path, env.prog.root)


def simple(name, where, found, n, rule):
    """obligation from an already computed list of findings"""
    def run(env):
        if found:
            f = found[0]
            return refuted(f[1], site=f[0], all=["%s: %s" % x for x in found[:10]])
        return proved(slots=n, rule=rule)
    o = Ob(name, where, run)
    o.report = found[0][0] if found else where
    return o


def must_fire(rule, hits, want):
    missing = [w for w in want if not any(w in h for h in hits)]
    if missing:
        raise Broken("the %s rule does not fire on its positive example: %s" % (rule, ", ".join(missing)))


def site(env, m, line, qual):
    return "%s:%d %s" % (rel(env, m) if m.path.startswith(env.prog.root) else os.path.basename(m.path), line, qual.split(".")[-1])


# ------------------------------------------------------------------ C01
EXPLAIN["C01"] = "May-alias roots of every value, function summaries to a fixpoint: no write (item or attribute store, in-place operator or method, out=/overwrite_ argument) reaches a root that a public function received from its caller."
FLOOR["C01"] = 60


def written(E):
    out = {}
    for f in E.funcs.values():
        for r, (m, line, what, q) in f.summary.writes.items():
            if r[0] == "p" and r[1] < len(f.names):
                if f.cls and r[1] == 0:
                    continue
                out.setdefault(f.qual, []).append((f, f.names[r[1]], m, line, what))
    return out


@prop("C01")
def c01(env):
    must_fire("argument mutation", written(effects.Effects(example(), "positive")),
              ["mut_item", "mut_aug", "mut_out", "mut_method", "mut_attr", "mut_helper"])
    E = effects.Effects(env.prog)
    w = written(E)
    out = []
    for f in E.funcs.values():
        if not f.public or "<locals>" in f.qual:
            continue
        found = [(site(env, m, line, f.qual), "argument %s of %s is modified: %s" % (p, f.qual, what)) for f_, p, m, line, what in w.get(f.qual, ())]
        out.append(simple("%s leaves its arguments unmodified" % f.qual, f.qual, found, len(f.names), "no write reaches a parameter root"))
    return out


# ------------------------------------------------------------------ C02
EXPLAIN["C02"] = "No store into an object that outlives the call (module-level or default objects, function/class/module attributes, caches of mutable results), no module-level mutable object handed out, no call of a random, clock, file, environment or process-state source, no change of a process-wide setting, no uninitialised array in a result."
FLOOR["C02"] = 60

SOURCES = ("random.", "secrets.", "uuid.", "time.", "datetime.", "tempfile.", "platform.", "socket.", "pickle.load", "builtins.open", "builtins.input",
           "builtins.id", "builtins.hash", "io.open", "os.getenv", "os.environ", "os.urandom", "os.getpid", "os.getcwd", "os.listdir", "os.path.exists", "os.path.isfile", "os.path.getmtime",
           "os.cpu_count", "os.times", "os.stat", "pathlib.", "threading.get_ident", "threading.current_thread", "sys.argv", "sys.flags", "sys.getrefcount", "gc.", "resource.",
           "numpy.random.", "numpy.load", "numpy.loadtxt", "numpy.fromfile", "numpy.genfromtxt", "numpy.save", "numpy.savetxt", "scipy.io.", "inspect.stack", "sys._getframe", "multiprocessing.", "subprocess.")
SOURCE_OK = ("time.sleep", "time.struct_time", "datetime.timedelta", "pathlib.PurePath")
SETTINGS = ("numpy.seterr", "numpy.seterrcall", "numpy.seterrobj", "numpy.setbufsize", "numpy.set_printoptions", "numpy.random.seed", "random.seed", "warnings.filterwarnings",
            "warnings.simplefilter", "warnings.resetwarnings", "sys.setrecursionlimit", "sys.setswitchinterval", "sys.settrace", "sys.setprofile", "os.chdir", "os.putenv", "os.umask",
            "locale.setlocale", "decimal.setcontext", "scipy.fft.set_global_backend", "scipy.fft.register_backend", "scipy.special.seterr", "signal.signal", "logging.disable",
            "logging.basicConfig", "gc.disable", "gc.set_threshold", "matplotlib.use", "numpy.set_string_function", "socket.setdefaulttimeout", "builtins.setattr_module")


class Names:
    """dotted names of expressions, through imports (module level and local)"""

    def __init__(self, prog, m):
        self.prog, self.m = prog, m

    def dotted(self, e, limports, shadow):
        parts = []
        x = e
        while isinstance(x, ast.Attribute):
            parts.append(x.attr)
            x = x.value
        if not isinstance(x, ast.Name):
            return None
        parts.reverse()
        if x.id in limports:
            return ".".join([limports[x.id]] + parts)
        if x.id in shadow:
            return None
        r = self.prog.lookup(self.m.name, x.id)
        while r is not None and r[0] == "mod" and parts:
            r = self.prog.lookup(r[1].name, parts.pop(0))
        if r is None:
            import builtins
            return "builtins." + x.id if not parts and hasattr(builtins, x.id) else None
        if r[0] == "ext":
            return ".".join([r[1]] + parts)
        return None


def scopes(m):
    """(qualified name, node, body nodes not inside a nested function)"""
    out = [(m.name, m.tree, list(own_nodes(m.tree)))]
    for x in ast.walk(m.tree):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            out.append((m.name + "." + getattr(x, "name", "<lambda>"), x, list(own_nodes(x))))
    return out


def own_nodes(fn):
    st = list(ast.iter_child_nodes(fn))
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            for d in getattr(x, "decorator_list", []):
                st.append(d)
            st.extend(x.args.defaults + [d for d in x.args.kw_defaults if d is not None])
            continue
        st.extend(ast.iter_child_nodes(x))


def parents(tree):
    p = {}
    for x in ast.walk(tree):
        for c in ast.iter_child_nodes(x):
            p[c] = x
    return p


def const_seed(e):
    return bool(e.args or e.keywords) and all(isinstance(a, ast.Constant) and a.value is not None for a in list(e.args) + [k.value for k in e.keywords])


def ambient(env, prog, m):
    """random / clock / environment sources and process-wide settings"""
    out = []
    par = parents(m.tree)
    N = Names(prog, m)
    ncalls = 0
    for qual, node, body in scopes(m):
        isf = not isinstance(node, ast.Module)
        shadow = effects.assigned_names(node) if isf else set()
        lim = enclosing_imports(m, node, par)
        for x in body:
            if isinstance(x, ast.Call):
                ncalls += 1
            if not isinstance(x, (ast.Call, ast.Attribute, ast.Name)):
                continue
            e = x.func if isinstance(x, ast.Call) else x
            d = N.dotted(e, lim, shadow)
            if d is None:
                continue
            line = getattr(x, "lineno", 1)
            if isinstance(x, ast.Call):
                if d in SETTINGS or any(d.startswith(s + ".") for s in ("logging.root",)):
                    if d.startswith("warnings.") and in_catch_warnings(x, par, N, lim, shadow):
                        continue
                    out.append((site(env, m, line, qual), "%s changes a process-wide setting (%s)" % (qual, d)))
                    continue
                if any(d == s or s.endswith(".") and d.startswith(s) or d.startswith(s + ".") for s in SOURCES) and not d.startswith(SOURCE_OK):
                    last = d.split(".")[-1]
                    if last in ("default_rng", "RandomState", "Generator", "SeedSequence", "PCG64", "MT19937", "Random", "Philox", "SFC64") and (const_seed(x) or last == "Generator"):
                        continue
                    if d.startswith("builtins.") and not isf:
                        continue
                    if d in ("builtins.id",) or isf or d.split(".")[0] not in ("time", "pathlib", "platform"):
                        out.append((site(env, m, line, qual), "%s reads a source that is not among its arguments (%s)" % (qual, d)))
            elif isinstance(x, ast.Attribute) and (d in ("os.environ", "sys.argv", "sys.flags") and isf):
                out.append((site(env, m, line, qual), "%s reads a source that is not among its arguments (%s)" % (qual, d)))
    return out, ncalls


def enclosing_imports(m, node, par):
    out = {}
    x = node
    while x is not None and not isinstance(x, ast.Module):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for k, v in effects.local_imports(m, x).items():
                out.setdefault(k, v)
        x = par.get(x)
    return out


def in_catch_warnings(x, par, N, lim, shadow):
    while x is not None:
        x = par.get(x)
        if isinstance(x, ast.With):
            for i in x.items:
                c = i.context_expr
                if isinstance(c, ast.Call) and N.dotted(c.func, lim, shadow) == "warnings.catch_warnings":
                    return True
    return False


def scalar_result(fn):
    """every returned expression is a number, string or boolean by annotation or by form"""
    a = fn.returns
    if a is not None:
        return effects.ann_kind(a) == "scalar"
    return False


def caches(env, prog, m, users):
    """memoisation decorators on functions with mutable results"""
    out = []
    N = Names(prog, m)
    for x in ast.walk(m.tree):
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        for d in x.decorator_list:
            e = d.func if isinstance(d, ast.Call) else d
            n = N.dotted(e, {}, ()) or ""
            if n.split(".")[-1] in ("lru_cache", "cache", "cached", "memoize") and not scalar_result(x):
                out.append((site(env, m, x.lineno, m.name + "." + x.name), "%s remembers its results between calls (%s)" % (x.name, n)))
            elif isinstance(e, ast.Name):
                r = prog.lookup(m.name, e.id)
                if r is not None and r[0] == "func" and closure_state(r[2]):
                    out.append((site(env, m, x.lineno, m.name + "." + x.name), "%s keeps state between calls of %s" % (e.id, x.name)))
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call):
            n = N.dotted(s.value.func, {}, ()) or (N.dotted(s.value.func.func, {}, ()) if isinstance(s.value.func, ast.Call) else "") or ""
            if n in ("functools.lru_cache", "functools.cache"):
                out.append((site(env, m, s.lineno, m.name), "results remembered between calls (%s)" % n))
    return out


def closure_state(fn):
    """a nested function that writes to a variable of fn's own scope"""
    own = {n.id for x in own_nodes(fn) for n in [x] if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    for x in ast.walk(fn):
        if x is fn or not isinstance(x, (ast.FunctionDef, ast.Lambda)):
            continue
        loc = effects.assigned_names(x) - {n for g in ast.walk(x) if isinstance(g, ast.Nonlocal) for n in g.names}
        for y in ast.walk(x):
            t = None
            if isinstance(y, ast.Nonlocal):
                return True
            if isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Store) and isinstance(y.value, ast.Name):
                t = y.value.id
            if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in effects.WRITE_METHODS and isinstance(y.func.value, ast.Name):
                t = y.func.value.id
            if t in own and t not in loc:
                return True
    return False


def state(env, E):
    """stores into objects that outlive the call"""
    out = {}
    gens = {k for k, e in E.globals.items() if isinstance(e, ast.Call) and (e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")) in ("default_rng", "RandomState", "Random", "Generator")}
    for f in E.funcs.values():
        for r, (m, line, what, q) in f.summary.writes.items():
            if r[0] == "g":
                out.setdefault(f.qual, []).append((site(env, m, line, f.qual), "module-level object %s.%s is modified: %s" % (r[1], r[2], what)))
            elif r[0] == "d":
                out.setdefault(f.qual, []).append((site(env, m, line, f.qual), "default object of parameter %s is modified: %s" % (f.names[r[1]], what)))
            elif r[0] == "dx":
                out.setdefault(f.qual, []).append((site(env, m, line, f.qual), "default object of %s is modified: %s" % (r[1], what)))
        if f.public:
            for r in f.summary.ret:
                if r[0] == "g":
                    out.setdefault(f.qual, []).append((site(env, f.module, f.node.lineno, f.qual), "%s hands out the module-level object %s.%s, which the caller can modify" % (f.qual, r[1], r[2])))
                elif r[0] == "d":
                    out.setdefault(f.qual, []).append((site(env, f.module, f.node.lineno, f.qual), "%s hands out its default object for %s" % (f.qual, f.names[r[1]])))
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                rr = E.prog.lookup(f.module.name, x.id)
                if rr is not None and rr[0] == "assign" and any(rr[1].name == g[0] and rr[2] is E.globals[g] for g in gens):
                    out.setdefault(f.qual, []).append((site(env, f.module, x.lineno, f.qual), "draws from the module-level generator %s" % x.id))
    for kind, f, node, what in E.events:
        out.setdefault(f.qual, []).append((site(env, f.module, node.lineno, f.qual), "%s %s" % (f.qual, what)))
    return out


@prop("C02")
def c02(env):
    ex = example()
    EX = effects.Effects(ex, "positive")
    hits = [q for q in state(env, EX)] + [f[0] for f in ambient(env, ex, ex.modules["positive"])[0]] + [f[0] for f in caches(env, ex, ex.modules["positive"], None)]
    must_fire("state", hits, ["st_global", "st_cache", "st_return", "st_default", "st_lru", "st_attr", "nd_random", "nd_np", "nd_rng", "nd_env", "nd_seterr", "nd_warn"])
    E = effects.Effects(env.prog)
    st = state(env, E)
    out = []
    for f in E.funcs.values():
        if "<locals>" in f.qual:
            continue
        found = st.get(f.qual, []) + [x for q, l in st.items() if q.startswith(f.qual + ".<locals>") for x in l]
        out.append(simple("%s stores nothing that outlives the call" % f.qual, f.qual, found, 1, "no write reaches a module-level or default object"))
    for m in env.prog.modules.values():
        if not m.name.startswith("spafe"):
            continue
        found, n = ambient(env, env.prog, m)
        found = found + caches(env, env.prog, m, None)
        out.append(simple("%s reads no ambient source and changes no setting" % m.name, m.name, found, n, "no call of a listed source or setting"))
    return out


# ------------------------------------------------------------------ C27
EXPLAIN["C27"] = "Every import executed when a module is imported, and every import inside a function that is not reachable only from the plotting functions, resolves to the package itself, the standard library, numpy, scipy or typing_extensions; imported package names exist."
FLOOR["C27"] = 25
DECLARED = {"numpy", "scipy", "typing_extensions", "spafe"}
PLOT = ("spafe.utils.vis.show_fbanks", "spafe.utils.vis.show_spectrogram", "spafe.utils.vis.show_features")


def imports_of(m):
    """(module or dotted name, names, node, enclosing function node or None, optional)"""
    par = parents(m.tree)
    for x in ast.walk(m.tree):
        tops = []
        if isinstance(x, ast.Import):
            tops = [(a.name, None) for a in x.names]
        elif isinstance(x, ast.ImportFrom):
            tops = [(m.resolve_rel(x.module, x.level), [a.name for a in x.names])]
        elif isinstance(x, ast.Call):
            n = ast.unparse(x.func)
            if n in ("__import__", "importlib.import_module", "import_module") and x.args and isinstance(x.args[0], ast.Constant) and isinstance(x.args[0].value, str) and not x.args[0].value.startswith("."):
                tops = [(x.args[0].value, None)]
        for t, names in tops:
            fn, optional, y = None, False, x
            while y is not None:
                up = par.get(y)
                if isinstance(up, ast.Try) and y in up.body and any(h.type is None or "ImportError" in ast.unparse(h.type) or "ModuleNotFoundError" in ast.unparse(h.type) or ast.unparse(h.type) == "Exception" for h in up.handlers):
                    if not any(isinstance(s, ast.Raise) for h in up.handlers for s in ast.walk(h)):
                        optional = True
                if isinstance(up, ast.If) and "TYPE_CHECKING" in ast.unparse(up.test) and y in up.body:
                    optional = True
                if isinstance(up, (ast.FunctionDef, ast.AsyncFunctionDef)) and fn is None and y in up.body:
                    fn = up
                elif isinstance(up, (ast.FunctionDef, ast.AsyncFunctionDef)) and y in up.body:
                    fn = up
                y = up
            yield t, names, x, fn, optional


def non_plot_reach(E, prog):
    """nodes of functions reachable from a public function that is not a plotting function"""
    edges = {}
    for f in E.funcs.values():
        W = effects.Walk(E, f)
        W.env = {n: effects.V() for n in f.names}
        s = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in W.env:
                r = prog.lookup(f.module.name, x.id) if x.id not in W.limports else None
                if x.id in W.limports:
                    mod, _, nm = W.limports[x.id].rpartition(".")
                    r = prog.lookup(mod, nm) if mod in prog.modules else None
                if r is not None and r[0] == "func":
                    s.add(id(r[2]))
            elif isinstance(x, ast.Attribute):
                t = W.target(x)
                if t is not None and t[0] == "func":
                    s.add(id(t[1].node))
        edges[id(f.node)] = s
    work = [id(f.node) for f in E.funcs.values() if f.public and "<locals>" not in f.qual and f.qual not in PLOT]
    # helpers that only the plotting functions use are not entry points of their own unless public
    seen = set(work)
    while work:
        x = work.pop()
        for y in edges.get(x, ()):
            if y not in seen:
                seen.add(y)
                work.append(y)
    return seen


def bad_imports(env, prog, m, seen, declared, pkg):
    out, n = [], 0
    for t, names, node, fn, optional in imports_of(m):
        n += 1
        top = (t or "").split(".")[0]
        where = site(env, m, node.lineno, m.name if fn is None else m.name + "." + fn.name)
        if top in prog_tops(prog):
            base = t
            if base not in prog.modules:
                if not optional:
                    out.append((where, "imports %s, which is not part of the package" % t))
                continue
            for nm in names or ():
                if nm != "*" and prog.lookup(base, nm) is None and not defines(prog.modules[base], nm):
                    out.append((where, "imports %s from %s, which does not define it" % (nm, base)))
            continue
        if top in declared or top in sys.stdlib_module_names or top == "__future__" or optional:
            continue
        if fn is not None and id(fn) not in seen:
            continue
        out.append((where, "%s needs %s, which is not a declared dependency" % ("importing %s" % m.name if fn is None else fn.name, top)))
    return out, n


def prog_tops(prog):
    return {k.split(".")[0] for k in prog.modules if not k.startswith("vref")}


def defines(m, nm):
    return any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == nm for x in ast.walk(m.tree)) or "__getattr__" in m.bind


@prop("C27")
def c27(env):
    ex = example()
    EX = effects.Effects(ex, "positive")
    must_fire("dependency", [x[1] for x in bad_imports(env, ex, ex.modules["positive"], non_plot_reach(EX, ex), DECLARED, "positive")[0]], ["pandas"])
    E = effects.Effects(env.prog)
    seen = non_plot_reach(E, env.prog)
    out = []
    for m in env.prog.modules.values():
        if m.name.split(".")[0] != "spafe":
            continue
        found, n = bad_imports(env, env.prog, m, seen, DECLARED, "spafe")
        out.append(simple("imports of %s" % m.name, m.name, found, n, "declared dependencies only, plotting library inside plotting functions"))
    return out


# ------------------------------------------------------------------ C28
EXPLAIN["C28"] = "Every exception handler, suppress() block, finally clause and __exit__ in the package: none catches a broad exception class (or ParameterError or an ancestor) without re-raising it, none swallows a programming error (TypeError, IndexError, ...) raised inside a call of another library function, none returns out of finally; ParameterError derives from the root exception, and every raise with a library message raises ParameterError."
FLOOR["C28"] = 25
BROAD = {"BaseException", "Exception", "KeyboardInterrupt", "SystemExit", "MemoryError", "GeneratorExit", "NameError", "StandardError"}


PROGRAMMING = {"TypeError", "AttributeError", "IndexError", "LookupError", "KeyError", "RuntimeError", "AssertionError", "ValueError", "ArithmeticError"}


def library_call(prog, m, body):
    """a call of a function of the library itself among the guarded statements"""
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                r = prog.lookup(m.name, x.func.id)
                if r is not None and r[0] == "func":
                    return x.func.id
    return None


def reraises(body, name):
    """every path through the handler body ends in re-raising the caught exception"""
    for s in body:
        if isinstance(s, ast.Raise):
            if s.exc is None or isinstance(s.exc, ast.Name) and s.exc.id == name:
                return True
            return False
        if isinstance(s, ast.If):
            if reraises(s.body, name) and reraises(s.orelse, name):
                return True
        if isinstance(s, ast.With) and reraises(s.body, name):
            return True
        if isinstance(s, ast.Try) and (reraises(s.finalbody, name)):
            return True
        if isinstance(s, (ast.Return, ast.Continue, ast.Break)):
            return False
    return False


def exc_names(N, prog, m, e, lim, shadow):
    """names of the caught classes with their ancestors, as resolved"""
    items = e.elts if isinstance(e, ast.Tuple) else [e]
    out = []
    for x in items:
        d = N.dotted(x, lim, shadow)
        if d is not None:
            out.append(d.split(".")[-1] if d.startswith("builtins.") else d)
            continue
        r = None
        if isinstance(x, ast.Name):
            r = prog.lookup(m.name, x.id)
        elif isinstance(x, ast.Attribute):
            out.append("lib:" + x.attr)
            continue
        if r is not None and r[0] == "class":
            out.append("lib:" + r[2].name)
        elif r is not None and r[0] == "assign" and r[2] is not e:
            out += exc_names(Names(prog, r[1]), prog, r[1], r[2], {}, ())
        else:
            out.append(ast.unparse(x))
    return out


def library_errors(prog, top):
    """ParameterError and its library ancestors"""
    for m in prog.modules.values():
        if m.name.split(".")[0] == top and "ParameterError" in m.bind and m.bind["ParameterError"][0] == "class":
            chain, c, mm = [], m.bind["ParameterError"][1], m
            seen = 0
            todo = [(m, c)]
            bases = set()
            while todo and seen < 20:
                seen += 1
                mm, c = todo.pop()
                chain.append(c.name)
                for b in c.bases:
                    if isinstance(b, ast.Name):
                        r = prog.lookup(mm.name, b.id)
                        if r is not None and r[0] == "class":
                            todo.append((r[1], r[2]))
                        else:
                            bases.add(b.id)
            return m, chain, bases
    return None, [], set()


def swallowed(env, prog, m, chain, bases):
    out, n = [], 0
    par = parents(m.tree)
    N = Names(prog, m)
    lib = set(chain)
    for qual, node, body in scopes(m):
        shadow = effects.assigned_names(node) if not isinstance(node, ast.Module) else set()
        lim = enclosing_imports(m, node, par)
        for x in body:
            if isinstance(x, ast.Try) or type(x).__name__ == "TryStar":
                for h in x.handlers:
                    n += 1
                    if h.type is None:
                        names = ["BaseException"]
                    else:
                        names = exc_names(N, prog, m, h.type, lim, shadow)
                    broad = [k for k in names if k in BROAD or k in bases or k.startswith("lib:") and k[4:] in lib]
                    if broad and not reraises(h.body, h.name):
                        how = "converts" if any(isinstance(s, ast.Raise) for s in h.body) else "swallows"
                        out.append((site(env, m, h.lineno, qual), "%s %s %s" % (qual, how, ", ".join(k.replace("lib:", "") for k in broad))))
                    prog_errs = [k for k in names if k in PROGRAMMING]
                    if prog_errs and not broad and not any(isinstance(y, ast.Raise) for s in h.body for y in ast.walk(s)):
                        f = library_call(prog, m, x.body)
                        if f:
                            out.append((site(env, m, h.lineno, qual), "%s swallows any %s raised inside %s" % (qual, ", ".join(prog_errs), f)))
                if x.finalbody and leaves(x.finalbody):
                    out.append((site(env, m, x.finalbody[0].lineno, qual), "%s leaves a finally clause by return/break/continue, dropping any exception" % qual))
                n += bool(x.finalbody)
            elif isinstance(x, ast.With):
                for i in x.items:
                    c = i.context_expr
                    if isinstance(c, ast.Call) and N.dotted(c.func, lim, shadow) == "contextlib.suppress":
                        n += 1
                        names = [k for a in c.args for k in exc_names(N, prog, m, a, lim, shadow)]
                        broad = [k for k in names if k in BROAD or k in bases or k.startswith("lib:") and k[4:] in lib]
                        if broad:
                            out.append((site(env, m, x.lineno, qual), "%s suppresses %s" % (qual, ", ".join(broad))))
            elif isinstance(x, ast.Raise):
                n += 1
                e = x.exc
                if e is not None and mentions(e, "ErrorMsgs"):
                    cls = e.func if isinstance(e, ast.Call) else e
                    names = exc_names(N, prog, m, cls, lim, shadow)
                    if isinstance(cls, (ast.Name, ast.Attribute)) and names and all(k in BROAD or k in ("ValueError", "TypeError", "RuntimeError", "AssertionError", "KeyError", "IndexError", "Warning", "UserWarning", "ArithmeticError") for k in names):
                        out.append((site(env, m, x.lineno, qual), "%s raises %s for a rejected configuration" % (qual, names[0])))
        if isinstance(node, (ast.FunctionDef,)) and node.name == "__exit__":
            for x in body:
                if isinstance(x, ast.Return) and isinstance(x.value, ast.Constant) and x.value.value is True:
                    out.append((site(env, m, x.lineno, qual), "__exit__ drops every exception"))
    return out, n


def leaves(body):
    for s in body:
        for x in [s] + list(own_nodes(s)) if not isinstance(s, (ast.FunctionDef,)) else []:
            if isinstance(x, ast.Return):
                return True
            if isinstance(x, (ast.Break, ast.Continue)) and not isinstance(s, (ast.For, ast.While)):
                return True
    return False


def mentions(e, n):
    return any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(e))


@prop("C28")
def c28(env):
    ex = example()
    xm, xc, xb = library_errors(ex, "positive")
    must_fire("error discipline", [x[0] for x in swallowed(env, ex, ex.modules["positive"], xc, xb)[0]],
              ["sw_broad", "sw_bare", "sw_suppress", "sw_finally", "sw_param", "sw_disguise", "sw_index"])
    m0, chain, bases = library_errors(env.prog, "spafe")
    if m0 is None:
        raise Broken("ParameterError not found")
    out = []
    found = []
    if "SpafeError" not in chain:
        found = [(site(env, m0, m0.bind["ParameterError"][1].lineno, "ParameterError"), "ParameterError does not derive from the library's root exception SpafeError")]
    elif not bases & {"Exception"} and not bases:
        found = []
    out.append(simple("ParameterError is a SpafeError", m0.name, found, 1, "class hierarchy"))
    for m in env.prog.modules.values():
        if m.name.split(".")[0] != "spafe":
            continue
        found, n = swallowed(env, env.prog, m, chain, bases)
        out.append(simple("handlers and raises of %s" % m.name, m.name, found, n, "broad handlers re-raise"))
    return out
