"""Loads the package under analysis (syntax trees only; nothing is imported)."""
import ast
import os


class Module:
    def __init__(self, name, path, tree, is_pkg, src):
        self.name, self.path, self.tree, self.is_pkg, self.src = name, path, tree, is_pkg, src
        self.bind = {}       # name -> ('func'|'class'|'import'|'from'|'assign', payload)
        self.collect(tree.body)

    def collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.bind[s.name] = ("func", s)
            elif isinstance(s, ast.ClassDef):
                self.bind[s.name] = ("class", s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.bind[a.asname] = ("import", a.name)
                    else:
                        self.bind[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = self.resolve_rel(s.module, s.level)
                for a in s.names:
                    if a.name == "*":
                        self.bind.setdefault("*", ("star", []))[1].append(base)
                    else:
                        self.bind[a.asname or a.name] = ("from", (base, a.name))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    self.bind_target(t, s.value)
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                self.bind_target(s.target, s.value)
            elif isinstance(s, (ast.If, ast.Try)):
                self.collect(s.body)
                self.collect(s.orelse)
                if isinstance(s, ast.Try):
                    for h in s.handlers:
                        for x in h.body:
                            pass
            elif isinstance(s, ast.With):
                self.collect(s.body)

    def bind_target(self, t, value):
        if isinstance(t, ast.Name):
            self.bind[t.id] = ("assign", value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for k, e in enumerate(t.elts):
                if isinstance(e, ast.Name):
                    self.bind[e.id] = ("assign", ast.copy_location(
                        ast.Subscript(value=value, slice=ast.copy_location(ast.Constant(k), value), ctx=ast.Load()), value))

    def resolve_rel(self, mod, level):
        if level == 0:
            return mod
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (level - 1)]
        return ".".join(parts + ([mod] if mod else []))


class Program:
    def __init__(self, root, package="spafe"):
        self.root, self.package = root, package
        self.modules = {}
        self.errors = []
        self.add_package(os.path.join(root, package), package)

    def add_package(self, top, package):
        for d, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, os.path.dirname(top))[:-3].split(os.sep)
                    pkg = rel[-1] == "__init__"
                    if pkg:
                        rel = rel[:-1]
                    self.add_file(p, ".".join(rel), pkg)

    def add_file(self, path, name, pkg=False):
        import warnings
        try:
            src = open(path, encoding="utf-8").read()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = ast.parse(src, path)
        except SyntaxError as e:
            self.errors.append("%s: %s" % (path, e))
            return
        self.modules[name] = Module(name, path, tree, pkg, src)

    def overlay(self, name, base, over):
        """module `name`: the definitions of `base`, those of `over` taking precedence"""
        b, o = self.modules[base], self.modules[over]
        taken = {x.name for x in o.tree.body if isinstance(x, ast.FunctionDef)}
        body = [x for x in b.tree.body if not (isinstance(x, ast.FunctionDef) and x.name in taken)]
        tree = ast.Module(body=body + list(o.tree.body), type_ignores=[])
        self.modules[name] = Module(name, b.path, tree, False, b.src)

    def lookup(self, modname, name, seen=()):
        """resolve a module-level name to ('func', module, node) / ('class', ..) /
        ('assign', module, expr) / ('ext', dotted) / ('mod', Module) / None."""
        m = self.modules.get(modname)
        if m is None:
            return ("ext", modname + "." + name)
        if (modname, name) in seen:
            return None
        seen = seen + ((modname, name),)
        b = m.bind.get(name)
        if b is None:
            sub = modname + "." + name
            if sub in self.modules:
                return ("mod", self.modules[sub])
            for base in m.bind.get("*", ("star", []))[1]:
                if base in self.modules:
                    r = self.lookup(base, name, seen)
                    if r is not None:
                        return r
            return None
        kind, pay = b
        if kind in ("func", "class", "assign"):
            return (kind, m, pay)
        if kind == "import":
            if pay in self.modules:
                return ("mod", self.modules[pay])
            return ("ext", pay)
        if kind == "from":
            base, nm = pay
            if base in self.modules:
                return self.lookup(base, nm, seen)
            return ("ext", base + "." + nm)
        return None

    def public_functions(self):
        out = []
        for m in self.modules.values():
            if not m.name.startswith(self.package):
                continue
            for n, (k, pay) in m.bind.items():
                if k == "func" and not n.startswith("_"):
                    out.append((m, n, pay))
        return out
