#!/usr/bin/env python3
"""mkrefactor.py defs.py OUTDIR : applies behaviour-preserving edits to a copy of /repo.

defs.py calls body(file, func, source) to replace a function's statements after
its docstring, and add(file, source) to append module-level code after imports."""
import ast, os, shutil, sys, textwrap

OUT = sys.argv[2]
shutil.rmtree(OUT, ignore_errors=True)
shutil.copytree("/repo", OUT, ignore=shutil.ignore_patterns("__pycache__", "docs", "media", ".pytest_cache"), symlinks=True)


def read(f):
    return open(os.path.join(OUT, f)).read()


def write(f, s):
    open(os.path.join(OUT, f), "w").write(s)
    ast.parse(s)


def body(f, func, src):
    s = read(f)
    lines = s.split("\n")
    for n in ast.walk(ast.parse(s)):
        if isinstance(n, ast.FunctionDef) and n.name == func:
            st = n.body
            doc = isinstance(st[0], ast.Expr) and isinstance(st[0].value, ast.Constant) and isinstance(st[0].value.value, str)
            a = (st[1] if doc else st[0]).lineno
            if getattr(st[1 if doc else 0], "decorator_list", None):
                a = min(d.lineno for d in st[1 if doc else 0].decorator_list)
            b = n.end_lineno
            lines[a - 1:b] = textwrap.indent(textwrap.dedent(src).strip("\n"), " " * (n.col_offset + 4)).split("\n")
            return write(f, "\n".join(lines))
    raise SystemExit("no function %s in %s" % (func, f))


def add(f, src):
    s = read(f)
    last = max(n.end_lineno for n in ast.parse(s).body if isinstance(n, (ast.Import, ast.ImportFrom)))
    lines = s.split("\n")
    lines[last:last] = ["", ""] + textwrap.dedent(src).strip("\n").split("\n") + [""]
    write(f, "\n".join(lines))


def sub(f, old, new, n=1):
    s = read(f)
    if s.count(old) < 1:
        raise SystemExit("not found in %s: %s" % (f, old))
    write(f, s.replace(old, new) if n == 0 else s.replace(old, new, n))


exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
