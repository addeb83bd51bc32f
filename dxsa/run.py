"""Set-up of an analysis: source table, interpreter, entry calls."""
from __future__ import annotations

import ast
import os
import sys

from . import interp as X
from . import term as T
from .interp import AlwaysRaises, Interp, State
from .term import ONE, Atom, P, const

sys.setrecursionlimit(20000)
REPO = os.environ.get("DXSA_REPO", "/repo")


def package_sources(repo=None):
    repo = repo or REPO
    out = {}
    root = os.path.join(repo, "src")
    for d, _, fs in os.walk(os.path.join(root, "dxss")):
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                mod = rel[:-3].replace(os.sep, ".")
                if mod.endswith(".__init__"):
                    mod = mod[:-9]
                try:
                    src = open(p, encoding="utf-8").read()
                    out[mod] = (os.path.relpath(p, repo), ast.parse(src, p))
                except (SyntaxError, UnicodeDecodeError) as e:
                    raise SystemExit(f"cannot parse {p}: {e}")
    return out


class Analysis:
    def __init__(self, sources, lib):
        self.lib = lib
        self.I = Interp(sources, lib)
        self.st = State()
        self.I.state0 = self.st
        self.node = ast.parse("_entry()").body[0].value
        self.node.lineno = 0

    def load(self, mod):
        I = self.I
        if mod not in I.modules:
            I.load_module_in(mod, self.st)
        return self

    def get(self, mod, name, st=None):
        self.load(mod)
        return self.I.get(st or self.st, ("L", ("M", mod), name))

    def call(self, f, *args, st=None, **kw):
        st = st or self.st
        return self.I.call(f, [a if isinstance(a, P) else const(a) for a in args], {k: (v if isinstance(v, P) else const(v)) for k, v in kw.items()}, st, self.node)

    def attr(self, o, name, st=None):
        return self.I.getattr(o, name, st or self.st, self.node)

    def meth(self, o, name, *args, st=None, **kw):
        st = st or self.st
        return self.call(self.attr(o, name, st), *args, st=st, **kw)
