"""Whole-program abstract interpreter over the Python AST.

A forward dataflow analysis in the value-numbering domain of `term`: states are
joined at every control-flow merge (no path is ever enumerated on its own),
loops with symbolic trip counts are summarised by solving their recurrences
(induction variables, reductions, disjoint indexed updates, carried values),
calls to functions whose source is in the analysed tree are analysed in the
caller's context.  Nothing of the analysed program is executed.
"""
from __future__ import annotations

import ast
import builtins
import itertools
import re
from fractions import Fraction as Fr

from . import term as T
from .term import (ONE, ZERO, Atom, P, Unsupported, cases, close_sum, const, eq0,
                   fresh_idx, ite, lift, neg, subst, sym, unbind, bind, as_int)

NONE = Atom("none").P()
UNDEF = Atom("undef").P()
T.SORT.update(none="obj", undef="obj", str="obj", tuple="obj", ref="obj", func="obj", cls="obj", mod="obj",
              bound="obj", attr="num", osym="num", seq="obj", dict="obj", fam="obj", slice="obj", kw="obj")
T.BINDERS |= {"rep", "upd", "iter", "lam"}


def S(s):
    return Atom("str", s).P()


def tup(*xs):
    return Atom("tuple", *[lift(x) for x in xs]).P()


def strval(p):
    a = p.atom()
    return a.args[0] if a is not None and a.kind == "str" else None


# ------------------------------------------------------------------ sequences
def mkseq(segs):
    out = []
    for s in segs:
        if s.kind == "when":
            g, inner = s.args
            c = g.const()
            if c is not None:
                if c:
                    out.extend(inner)
                continue
            if not inner:
                continue
        if s.kind == "rep":
            r = norm_rep(s)
            out.extend(r)
            continue
        out.append(s)
    return Atom("seq", tuple(out)).P()


def norm_rep(s):
    xs, (hi, inner) = unbind(s)
    T.BINDER_HI[xs[0].key] = hi
    n = as_int(hi)
    inner = T.subst_any(inner, {})
    if n is not None and n <= 24:
        out = []
        for v in range(n):
            out.extend(T.subst_any(inner, {xs[0]: const(v)}))
        return mkseq(out).atom().args[0]
    if len(inner) == 1 and inner[0].kind == "rep":
        # flatten rep(n<A){rep(l<B){f}} when f depends on n*B+l only
        ys, (h2, in2) = unbind(inner[0])
        T.BINDER_HI[ys[0].key] = h2
        if xs[0].key not in h2.free and len(in2) == 1 and in2[0].kind == "it":
            p = fresh_idx(hi * h2, "p")
            f = T.subst_any(in2, {ys[0]: p.P() - xs[0].P() * h2})
            if xs[0].key not in T.free_any(f):
                return [bind("rep", [p], (hi * h2, f))]
    return [s]


def rep(idx, hi, segs):
    return bind("rep", [idx], (hi, tuple(segs)))


def it(v):
    return Atom("it", lift(v))


def seq_segs(p):
    a = p.atom()
    if a is None or a.kind != "seq":
        raise Unsupported(f"not a sequence: {T.show(p)[:120]}")
    return a.args[0]


T.CONSTRUCT["seq"] = lambda segs: mkseq(segs)


def segs_len(segs):
    n = ZERO
    for s in segs:
        if s.kind == "it":
            n = n + ONE
        elif s.kind == "rep":
            xs, (hi, inner) = unbind(s)
            T.BINDER_HI[xs[0].key] = hi
            n = n + close_sum([(xs[0], hi)], segs_len(inner))
        elif s.kind == "when":
            n = n + s.args[0] * segs_len(s.args[1])
        elif s.kind == "base":
            n = n + Atom("len", s.args[0]).P()
    return n


T.CONSTRUCT["len"] = lambda p: seqlen(p)
T.CONSTRUCT["seqlast"] = lambda p: seq_index(p, const(-1)) if p.atom() is not None and p.atom().kind == "seq" else Atom("seqlast", p).P()


def seqlen(p):
    r = ZERO
    for g, v in cases(p):
        a = v.atom()
        if a is not None and a.kind == "seq":
            r = r + g * segs_len(a.args[0])
        elif a is not None and a.kind == "tuple":
            r = r + g * const(len(a.args))
        elif a is not None and a.kind == "str":
            r = r + g * const(len(a.args[0]))
        else:
            r = r + g * Atom("len", v).P()
    return r


def seq_index(p, i):
    """Element i of a sequence value."""
    r = ZERO
    for g, v in cases(p):
        a = v.atom()
        if a is not None and a.kind == "tuple":
            r = r + g * _index_items([x for x in a.args], i)
        elif a is not None and a.kind == "seq":
            r = r + g * _index_segs(a.args[0], i)
        else:
            r = r + g * Atom("item", v, i).P()
    return r


T.CONSTRUCT["item"] = lambda p, i: seq_index(p, i) if p.atom() is not None and p.atom().kind in ("seq", "tuple") else Atom("item", p, i).P()


def _index_items(xs, i):
    c = as_int(i)
    if c is not None:
        if -len(xs) <= c < len(xs):
            return xs[c]
        return Atom("fault", "IndexError").P()
    r = ZERO
    for k, x in enumerate(xs):
        r = r + eq0(i - const(k)) * x
    return r


def div_const(i, n):
    """i == n*Q + r with 0 <= r < n constant, or None."""
    q, r = ZERO, None
    for m, c in i.t.items():
        if m == ():
            if c.denominator != 1:
                return None
            r = int(c)
        elif c.denominator == 1 and c % n == 0 and all(e > 0 and (a.kind in T.INT or a.key in T.INT_SYMS) for a, e in m):
            q = q + P({m: c / n})
        else:
            return None
    d, r = divmod(r or 0, n)
    return q + const(d), r


def _index_segs(segs, i):
    c = as_int(i)
    if all(s.kind == "it" for s in segs):
        return _index_items([s.args[0] for s in segs], i)
    if c is not None and c >= 0:
        for k, s in enumerate(segs):
            if s.kind == "it":
                if k == c:
                    return s.args[0]
            elif s.kind == "rep":
                xs, (hi, inner) = unbind(s)
                T.BINDER_HI[xs[0].key] = hi
                if len(inner) == 1 and inner[0].kind == "it":
                    return subst(inner[0].args[0], {xs[0]: const(c - k)})
                n = segs_len(inner)
                if as_int(n) is not None and as_int(n) > 0:
                    q, r = divmod(c - k, as_int(n))
                    return _index_segs(T.subst_any(inner, {xs[0]: const(q)}), const(r))
                break
            else:
                break
    elif c is not None and c < 0:
        k = c
        for s in reversed(segs):
            if s.kind == "it":
                k += 1
                if k == 0:
                    return s.args[0]
            elif s.kind == "rep":
                xs, (hi, inner) = unbind(s)
                T.BINDER_HI[xs[0].key] = hi
                n = as_int(segs_len(inner))
                if n is not None and n > 0:
                    q, r = divmod(k, n)     # q negative
                    return _index_segs(T.subst_any(inner, {xs[0]: hi + const(q)}), const(r))
                if len(inner) == 1 and inner[0].kind == "rep":
                    return _index_segs(T.subst_any(inner, {xs[0]: hi - ONE}), const(k))
                break
            elif s.kind == "base" and k == -1:
                return Atom("seqlast", s.args[0]).P()
            else:
                break
    elif len(segs) == 1 and segs[0].kind == "rep":
        xs, (hi, inner) = unbind(segs[0])
        T.BINDER_HI[xs[0].key] = hi
        if len(inner) == 1 and inner[0].kind == "it":
            # i - hi style negative offsets are already absolute here
            return subst(inner[0].args[0], {xs[0]: i})
        n = as_int(segs_len(inner))
        if n is not None and n > 0:
            qr = div_const(i, n)
            if qr is not None:
                g = neg(i)
                r = ZERO
                if g != ONE:
                    r = r + (ONE - g) * _index_segs(T.subst_any(inner, {xs[0]: qr[0]}), const(qr[1]))
                if g != ZERO:
                    r = r + g * _index_segs(T.subst_any(inner, {xs[0]: qr[0] + hi}), const(qr[1]))
                return r
    elif segs and all(s.kind in ("it", "rep") for s in segs):
        # mixed: piecewise by position
        pos = ZERO
        r = ZERO
        found = ZERO
        for s in segs:
            n = segs_len([s])
            v = None
            if s.kind == "it":
                g = eq0(i - pos)
                v = s.args[0]
            else:
                g = (ONE - neg(i - pos)) * neg(i - pos - n)
                v = _index_segs((s,), i - pos)
            r = r + g * v
            pos = pos + n
        return r
    return Atom("item", Atom("seq", tuple(segs)).P(), i).P()


# ------------------------------------------------------------------ indexed stores
def mkfam(base, upds):
    return Atom("fam", lift(base), tuple(upds)).P()


def upd(binders, guard, params, value, mode="set"):
    """binders: [(idx, hi)]"""
    return bind("upd", [b for b, _ in binders], (tuple(h for _, h in binders), guard, tuple(params), value, mode))


def fam_read(f, params):
    """Value stored at index tuple `params`."""
    r = ZERO
    for g, v in cases(f):
        a = v.atom()
        if a is None or a.kind != "fam":
            r = r + g * Atom("famread", v, tuple(params)).P()
            continue
        base, upds = a.args
        val = _fam_read(base, list(upds), tuple(params))
        r = r + g * val
    return r


T.CONSTRUCT["famread"] = lambda f, params: fam_read(f, params) if f.atom() is None or f.atom().kind == "fam" else Atom("famread", f, params).P()


def _fam_read(base, upds, params):
    if not upds:
        b = base.atom()
        if b is not None and b.kind in ("phi", "fam"):
            return Atom("famread", base, params).P() if b.kind == "phi" else fam_read(base, params)
        if b is not None and b.kind == "default":
            # uninterpreted initial content
            return Atom("famread", base, params).P()
        if b is not None and b.kind == "unset":
            return Atom("famread", base, params).P()
        return base
    u = upds[-1]
    xs, (his, guard, ps, value, mode) = unbind(u)
    for x, h in zip(xs, his):
        T.BINDER_HI[x.key] = h
    his = tuple(T.subst_any(h, {}) for h in his)
    if len(ps) != len(params):
        raise Unsupported("index arity mismatch")
    m = guard
    for p, q in zip(ps, params):
        m = m * match0(p, q)
        if not m.t:
            break
    rest = lambda: _fam_read(base, upds[:-1], params)
    if not m.t:
        return rest()
    bs = list(zip(xs, his))
    v = close_sum(bs, m * value)
    if mode == "add":
        return v + rest()
    found = close_sum(bs, m)
    if found == ONE:
        return v
    return v + (ONE - found) * rest()


def match0(p, q):
    a, b = p.atom(), q.atom()
    if a is not None and b is not None and a.sort == "obj" and b.sort == "obj":
        return ONE if a is b else (ZERO if T.is_literal(p) and T.is_literal(q) else Atom("same", *sorted((p, q), key=lambda x: x.key)).P())
    return eq0(p - q)


# ------------------------------------------------------------------ state
class Ev:
    """An event: kind, data (tuple of P), guard, where."""

    __slots__ = ("kind", "data", "guard", "where", "body")

    def __init__(self, kind, data, guard, where, body=None):
        self.kind, self.data, self.guard, self.where, self.body = kind, data, guard, where, body

    def map(self, f):
        return Ev(self.kind, tuple(f(x) for x in self.data), f(self.guard), self.where,
                  None if self.body is None else [e.map(f) for e in self.body])

    def __repr__(self):
        if self.kind == "loop":
            return f"loop {self.data} x{self.body}"
        return f"{self.kind}{self.data} if {self.guard} @{self.where}"


class State:
    __slots__ = ("store", "ev", "pc", "pcs")

    def __init__(self, store=None, ev=(), pc=ONE, pcs=()):
        self.store = dict(store or {})
        self.ev = list(ev)
        self.pc = pc
        self.pcs = pcs

    def copy(self):
        return State(self.store, self.ev, self.pc, self.pcs)


class FuncInfo:
    def __init__(self, node, module, closure, qual, defaults, kwdefaults, owner=None):
        self.node, self.module, self.closure, self.qual = node, module, closure, qual
        self.defaults, self.kwdefaults, self.owner = defaults, kwdefaults, owner
        body = node.body if isinstance(node.body, list) else [node.body]
        self.captures = any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for b in body for x in ast.walk(b))
        self.isgen = not isinstance(node, ast.Lambda) and _has_yield(node)
        self.globals = {n for b in body for x in ast.walk(b) if isinstance(x, (ast.Global,)) for n in x.names}
        self.nonlocals = {n for b in body for x in ast.walk(b) if isinstance(x, (ast.Nonlocal,)) for n in x.names}


def _has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    def __init__(self, name, module, bases, ns, fields, node, is_dc):
        self.name, self.module, self.bases, self.ns = name, module, bases, ns
        self.fields, self.node, self.is_dc = fields, node, is_dc   # fields: [(name, default P|None, factory P|None)]


BUILTINS = {"range", "len", "sum", "max", "min", "abs", "int", "float", "str", "bool", "zip", "enumerate", "print",
            "list", "tuple", "dict", "set", "reversed", "sorted", "getattr", "setattr", "hasattr", "isinstance",
            "any", "all", "map", "filter", "round", "pow", "divmod", "iter", "next", "type", "super", "repr", "id",
            "property", "staticmethod", "classmethod", "object", "open", "frozenset", "slice", "callable", "vars",
            "ValueError", "TypeError", "RuntimeError", "KeyError", "ImportError", "ModuleNotFoundError", "Exception",
            "AttributeError", "IndexError", "NotImplementedError", "StopIteration", "ArithmeticError", "AssertionError",
            "ZeroDivisionError", "OSError", "FileNotFoundError", "BaseException", "UserWarning", "DeprecationWarning",
            "RuntimeWarning", "Warning", "NotImplemented", "Ellipsis", "bytes", "complex", "hash", "format", "ord",
            "chr", "issubclass", "globals", "locals", "input", "exit", "quit", "memoryview", "bytearray", "delattr",
            "__import__", "OverflowError", "LookupError", "NameError", "FloatingPointError", "SystemExit", "KeyboardInterrupt", "FutureWarning"}


class Interp:
    def __init__(self, sources, lib, entry_hooks=None):
        """sources: {module name: (path, ast)}"""
        self.sources = sources
        self.lib = lib
        lib.I = self
        self.modules = {}          # name -> frame id
        self.funcs = {}
        self.classes = {}
        self.ctx = []
        self.pend = []          # exceptional exits of calls, until a try/with/loop/call collects them
        self.binders = []
        self.fr = itertools.count(1)
        self.cnt = itertools.count(1)
        self.depth = 0
        self.touched = set()       # analysed functions (qualnames)
        self.visited = set()
        self.stack = []
        self.steps = 0
        self.loopstats = 0
        self.callsites = 0

    # -------------------------------------------------------------- utilities
    def where(self, node):
        f = self.stack[-1] if self.stack else "?"
        return f"{f}:{getattr(node, 'lineno', 0)}"

    def unsup(self, msg, node):
        raise Unsupported(f"{self.where(node)}: {msg}", node)

    def event(self, st, kind, data, node):
        st.ev.append(Ev(kind, tuple(data), st.pc, self.where(node)))

    def fault(self, st, what, node, detail=""):
        st.ev.append(Ev("fault", (S(what), S(detail)), st.pc, self.where(node)))
        return Atom("faulty", what, detail).P()

    def under(self, st, v):
        """Apply the path assumptions to a value."""
        for a, w in st.pcs:
            if a.kind in ("idx",):
                v = subst(v, {a: w})
            else:
                v = _sub_bool(v, a, w)
        return v

    def simp(self, st, g):
        g = self.under(st, g)
        if st.pc == ONE or g.const() is not None:
            return g
        q = g * st.pc
        if not q.t:
            return ZERO
        if q == st.pc:
            return ONE
        return g

    def get(self, st, key):
        v = st.store.get(key)
        if v is None:
            return None
        return self.under(st, v) if st.pcs else v

    # -------------------------------------------------------------- branching
    def assume(self, st, g):
        """State under assumption g (a boolean P)."""
        s = st.copy()
        s.pc = s.pc * g
        s.pcs = s.pcs + tuple(literals(g))
        return s

    def merge2(self, g, a, b, base):
        m = State.__new__(State)
        m.store = {}
        m.pc = a.pc + b.pc
        m.pcs = base.pcs
        sa, sb = a.store, b.store
        st = m.store
        for k, v in sa.items():
            w = sb.get(k)
            if v is w:
                st[k] = v
            elif w is None:
                if k[0] == "H" and k not in base.store:
                    st[k] = v
                else:
                    st[k] = ite(g, v, UNDEF)
            elif v == w:
                st[k] = v
            else:
                st[k] = self.merge_val(g, v, w)
        for k, w in sb.items():
            if k not in sa:
                st[k] = w if k[0] == "H" and k not in base.store else ite(g, UNDEF, w)
        n = len(base.ev)
        m.ev = a.ev[:] + b.ev[n:]
        return m

    def merge_val(self, g, v, w):
        a, b = v.atom(), w.atom()
        if a is not None and b is not None and a.kind == b.kind:
            if a.kind == "seq":
                return merge_seq(g, a.args[0], b.args[0])
            if a.kind == "fam":
                return merge_fam(g, a, b)
            if a.kind == "dict":
                return merge_dict(g, a, b, self)
        return ite(g, v, w)

    def merge_many(self, items, base):
        """items: [(guard, State)] exhaustive under base; pairwise merging."""
        if len(items) == 1:
            s = items[0][1]
            m = s.copy()
            return m
        g0, s0 = items[0]
        rest = self.merge_many(items[1:], base)
        return self.merge2(g0, s0, rest, base)

    def branch(self, st, g, fa, fb):
        """Run fa under g and fb under not g; each returns (normal, exits)."""
        g = self.simp(st, g)
        c = g.const()
        if c is not None:
            return (fa if c else fb)(st)
        sa = self.assume(st, g)
        sb = self.assume(st, ONE - g)
        na, xa = fa(sa)
        nb, xb = fb(sb)
        if na is None and nb is None:
            return None, xa + xb
        if na is None:
            return nb, xa + xb
        if nb is None:
            return na, xa + xb
        return self.merge2(g, na, nb, st), xa + xb

    def lifted(self, v, st, fn, node):
        """Apply fn(st, case value)->(value) to every gated case of v, joining states in place."""
        v = self.under(st, v)
        cs = [(self.simp(st, g), x) for g, x in cases(v)]
        cs = [(g, x) for g, x in cs if g.t]
        live = [(g, x) for g, x in cs if x.atom() is None or x.atom().kind != "undef"]
        if len(live) != len(cs):
            for g, x in cs:
                if x.atom() is not None and x.atom().kind == "undef":
                    s2 = st.pc * g
                    st.ev.append(Ev("fault", (S("unbound"), S("")), s2, self.where(node)))
        cs = live or cs
        if len(cs) == 1:
            return fn(st, cs[0][1])
        res = []
        base = st.copy()
        gone, narrow = None, False
        for g, x in cs:
            s = self.assume(base, g)
            pc = s.pc
            try:
                r = fn(s, x)
            except AlwaysRaises as e:
                self.pend += e.raises
                gone, narrow = e, True
                continue
            narrow = narrow or s.pc is not pc
            res.append((g, s, r))
        if not res:
            raise gone
        # join
        out = res[-1][2]
        cur = res[-1][1]
        for g, s, r in reversed(res[:-1]):
            cur = self.merge2(g, s, cur, base)
            out = self.merge_val(g, r, out)
        st.store, st.ev, st.pc = cur.store, cur.ev, cur.pc if narrow else base.pc
        return out

    # -------------------------------------------------------------- modules
    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        path, tree = self.sources[name]
        fid = ("M", name)
        self.modules[name] = fid
        st = self.state0
        self.stack.append(path)
        old = st.pc, st.pcs
        pst = st.copy()
        pst.ev = []
        pst.pc, pst.pcs = ONE, ()
        pst.store[("L", fid, "__name__")] = S(name)
        pst.store[("L", fid, "__file__")] = S(path)
        mark = len(self.pend)
        n, x = self.block(tree.body, pst, Frame(fid, (), name, path))
        x = x + self.collect(mark)
        self.stack.pop()
        if n is None:
            raise Unsupported(f"module {name} always raises on import")
        if not hasattr(self, "module_exits"):
            self.module_exits = {}
        self.module_exits[name] = (n, x)
        st.store = n.store
        self.module_events = getattr(self, "module_events", {})
        self.module_events[name] = n.ev
        return fid

    # -------------------------------------------------------------- statements
    def block(self, stmts, st, fr):
        exits = []
        for s in stmts:
            if st is None:
                break
            st, x = self.stmt(s, st, fr)
            exits += x
        return st, exits

    def stmt(self, s, st, fr):
        self.steps += 1
        self.visited.add((fr.path, s.lineno))
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            self.unsup(f"statement {type(s).__name__}", s)
        try:
            return m(s, st, fr)
        except AlwaysRaises as e:
            return None, list(e.raises)

    def collect(self, mark):
        """The exceptional exits of calls made since `mark`."""
        out = self.pend[mark:]
        del self.pend[mark:]
        return out

    def st_Pass(self, s, st, fr):
        return st, []

    def st_Global(self, s, st, fr):
        return st, []

    st_Nonlocal = st_Global

    def st_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st, []
        self.eval(s.value, st, fr)
        return st, []

    def st_Import(self, s, st, fr):
        for a in s.names:
            root = a.name.split(".")[0]
            if a.name in self.sources:
                self.imp(a.name, st)
                v = Atom("mod", a.name if a.asname else root).P()
            else:
                good, bad = self.optional(a.name, st, s)
                if good is not st:
                    if good is not None:
                        good.store[("L", fr.fid, a.asname or root)] = Atom("mod", a.name if a.asname else root).P()
                    return good, bad
                v = Atom("mod", a.name if a.asname else root).P()
            self.setvar(st, fr, a.asname or root, v)
        return st, []

    def optional(self, name, st, node):
        """Import of a module that may be missing: (state where it is there, raises)."""
        c = self.lib.optional_module(name, st, self, node)
        if c is not None:
            c = self.simp(st, c)
            e = tup(Atom("mod", "builtins.ModuleNotFoundError").P())
            if c.const() == 0:
                return None, [("raise", st, e)]
            if c.const() != 1:
                return self.assume(st, c), [("raise", self.assume(st, ONE - c), e)]
        return st, []

    def imp(self, name, st):
        if name in self.modules:
            return
        self.load_module_in(name, st)

    def load_module_in(self, name, st):
        """Import inside a running analysis: module body runs on st's store."""
        path, tree = self.sources[name]
        fid = ("M", name)
        self.modules[name] = fid
        self.stack.append(path)
        st.store[("L", fid, "__name__")] = S(name)
        n, x = self.block(tree.body, st, Frame(fid, (), name, path))
        self.stack.pop()
        if n is None:
            raise Unsupported(f"module {name} always raises on import")
        if n is not st:
            st.store, st.ev, st.pc, st.pcs = n.store, n.ev, n.pc, n.pcs

    def st_ImportFrom(self, s, st, fr):
        mod = s.module or ""
        if s.level:
            base = fr.module.rsplit(".", s.level)[0] if fr.module.count(".") >= s.level else fr.module.split(".")[0]
            mod = base + ("." + mod if mod else "")
        if mod == "__future__":
            return st, []
        for a in s.names:
            full = f"{mod}.{a.name}"
            if mod in self.sources:
                self.imp(mod, st)
                if full in self.sources:
                    self.imp(full, st)
                    v = Atom("mod", full).P()
                else:
                    v = self.get(st, ("L", ("M", mod), a.name))
                    if v is None:
                        v = self.fault(st, "import", s, f"{mod} has no name {a.name}")
            else:
                good, bad = self.optional(mod, st, s)
                if good is not st:
                    if good is not None:
                        for z in s.names:
                            good.store[("L", fr.fid, z.asname or z.name)] = self.lib.modattr(mod, z.name)
                    return good, bad
                v = self.lib.modattr(mod, a.name)
            self.setvar(st, fr, a.asname or a.name, v)
        return st, []

    def st_FunctionDef(self, s, st, fr):
        v = self.mkfunc(s, st, fr, s.name)
        for d in reversed(s.decorator_list):
            v = self.decorate(self.eval(d, st, fr), v, st, d)
        self.setvar(st, fr, s.name, v)
        return st, []

    def decorate(self, d, v, st, node):
        a = d.atom()
        name = a.args[0] if a is not None and a.kind == "mod" else None
        if name in ("builtins.property", "functools.cached_property"):
            return Atom("prop", v).P()
        if name == "builtins.staticmethod":
            return Atom("static", v).P()
        if name == "builtins.classmethod":
            return Atom("clsm", v).P()
        if name in ("functools.lru_cache", "functools.cache", "contextlib.contextmanager") or (a is not None and a.kind == "libcall" and a.args[0] in ("functools.lru_cache", "functools.wraps")):
            return v if name != "contextlib.contextmanager" else Atom("cmfun", v).P()
        return self.call(d, [v], {}, st, node)

    def mkfunc(self, node, st, fr, name):
        a = node.args
        dfl = [self.eval(d, st, fr) for d in a.defaults]
        kwd = {k.arg: self.eval(d, st, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        fid = f"{fr.qual + '.' if fr.qual else fr.module + ':'}{name}#{getattr(node, 'lineno', 0)}.{getattr(node, 'col_offset', 0)}"
        key = (fid, fr.fid, tuple(x.key for x in dfl))
        h = T.hashlib.blake2b(repr(key).encode(), digest_size=6).hexdigest()
        uid = f"{fid}@{h}"
        if uid not in self.funcs:
            self.funcs[uid] = FuncInfo(node, fr.module, (fr.fid,) + fr.closure if fr.fid[0] != "M" else (), f"{fr.qual + '.' if fr.qual else ''}{name}", dfl, kwd)
            self.funcs[uid].path = fr.path
        return Atom("func", uid).P()

    def st_ClassDef(self, s, st, fr):
        bases = [self.eval(b, st, fr) for b in s.bases]
        cf = Frame(("C", next(self.fr)), fr.closure if fr.fid[0] == "M" else (fr.fid,) + fr.closure, fr.module, fr.path, (fr.qual + "." if fr.qual else "") + s.name)
        cf.isclass = True
        n, x = self.block(s.body, st, cf)
        if n is None or x:
            self.unsup("class body exits", s)
        st = n
        ns = {}
        for k in list(st.store):
            if k[0] == "L" and k[1] == cf.fid:
                ns[k[2]] = st.store.pop(k)
        isdc = False
        for d in s.decorator_list:
            dv = d.func if isinstance(d, ast.Call) else d
            a = self.eval(dv, st, fr).atom()
            if a is not None and a.kind == "mod" and a.args[0] == "dataclasses.dataclass":
                isdc = True
            elif a is not None and a.kind == "mod" and a.args[0].startswith(("functools.", "typing.")):
                pass
            else:
                self.unsup("class decorator", s)
        fields = []
        for b in bases:
            ba = b.atom()
            if ba is not None and ba.kind == "cls":
                fields += self.classes[ba.args[0]].fields
            elif ba is not None and ba.kind == "mod" and ba.args[0] in ("typing.NamedTuple",):
                isdc = True
        if isdc:
            for b in s.body:
                if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                    ann = ast.unparse(b.annotation)
                    if "ClassVar" in ann:
                        continue
                    dv = ns.get(b.target.id)
                    fac = None
                    if dv is not None and dv.atom() is not None and dv.atom().kind == "dcfielddef":
                        dfl, fac = dv.atom().args
                        dv = None if dfl.atom() is UNDEF.atom() else dfl
                        fac = None if fac.atom() is UNDEF.atom() else fac
                    fields = [f for f in fields if f[0] != b.target.id] + [(b.target.id, dv, fac)]
        cid = f"{fr.module}.{s.name}"
        if cid in self.classes and self.classes[cid].node is not s:
            cid += f"#{s.lineno}"
        self.classes[cid] = ClassInfo(s.name, fr.module, bases, ns, fields, s, isdc)
        for k, v in ns.items():
            for f in _funcs_in(v):
                self.funcs[f].owner = cid
        self.setvar(st, fr, s.name, Atom("cls", cid).P())
        return st, []

    def st_Return(self, s, st, fr):
        v = NONE if s.value is None else self.eval(s.value, st, fr)
        return None, [("return", st, v)]

    def st_Raise(self, s, st, fr):
        v = self.eval(s.exc, st, fr) if s.exc is not None else NONE
        st.ev.append(Ev("raise", (v,), st.pc, self.where(s)))
        return None, [("raise", st, v)]

    def st_Break(self, s, st, fr):
        return None, [("break", st, NONE)]

    def st_Continue(self, s, st, fr):
        return None, [("continue", st, NONE)]

    def st_Assert(self, s, st, fr):
        g = self.truth(self.eval(s.test, st, fr), st, s)
        g = self.simp(st, g)
        if g.const() == 1:
            return st, []
        if g.const() == 0:
            return None, [("raise", st, S("AssertionError"))]
        bad = self.assume(st, ONE - g)
        return self.assume(st, g), [("raise", bad, S("AssertionError"))]

    def st_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.store.pop(("L", fr.fid, t.id), None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, fr)
                k = self.eval_index(t.slice, st, fr)
                a = o.atom()
                if a is not None and a.kind == "ref" and a.args[0] == "dict":
                    self.dict_del(a, k, st, s)
                else:
                    self.unsup("del item", s)
            else:
                self.unsup("del", s)
        return st, []

    def st_Assign(self, s, st, fr):
        v = self.eval(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return st, []

    def st_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, fr), st, fr)
        return st, []

    def st_AugAssign(self, s, st, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, st, fr, t)
            v = self.eval(s.value, st, fr)
            new = self.inplace(s.op, old, v, st, s)
            self.setvar(st, fr, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            old = self.getattr(o, t.attr, st, t)
            v = self.eval(s.value, st, fr)
            new = self.inplace(s.op, old, v, st, s)
            if new is not old:
                self.setattr(o, t.attr, new, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            k = self.eval_index(t.slice, st, fr)
            v = self.eval(s.value, st, fr)
            self.augitem(o, k, s.op, v, st, s)
        else:
            self.unsup("augmented target", s)
        return st, []

    def inplace(self, op, old, v, st, node):
        a = old.atom()
        if a is not None and a.kind == "ref" and a.args[0] == "list" and isinstance(op, ast.Add):
            self.list_extend(a, v, st, node)
            return old
        if a is not None and a.kind == "view":
            self.lib.view_aug(a, None, op, v, st, node)
            return old
        if a is not None and a.kind == "ref" and a.args[0] == "ndarray":
            cur = self.lib.deref(old, st)
            self.lib.set_ndarray(a, self.binop(op, cur, self.lib.deref(v, st), st, node), st)
            return old
        return self.binop(op, old, v, st, node)

    def st_If(self, s, st, fr):
        g = self.truth(self.eval(s.test, st, fr), st, s)
        return self.branch(st, g, lambda x: self.block(s.body, x, fr), lambda x: self.block(s.orelse, x, fr))

    def st_Match(self, s, st, fr):
        subj = self.eval(s.subject, st, fr)

        def pat(p, x):
            if isinstance(p, ast.MatchValue):
                return self.equal(subj, self.eval(p.value, x, fr), x)
            if isinstance(p, ast.MatchSingleton):
                v = self.eval(ast.copy_location(ast.Constant(p.value), s), x, fr)
                return self.identical(subj, v, x)
            if isinstance(p, ast.MatchOr):
                g = ZERO
                for q in p.patterns:
                    h = pat(q, x)
                    g = g + h - g * h
                return g
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                if p.name:
                    self.setvar(x, fr, p.name, subj)
                return ONE
            self.unsup("match pattern", s)

        def go(i, x):
            if i == len(s.cases):
                return x, []
            c = s.cases[i]
            g = pat(c.pattern, x)
            if c.guard is not None:
                g = g * self.truth(self.eval(c.guard, x, fr), x, s)
            return self.branch(x, g, lambda y: self.block(c.body, y, fr), lambda y: go(i + 1, y))

        return go(0, st)

    def suppresses(self, e, st, fr):
        if not (isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)) and "suppress" in ast.unparse(e.func)):
            return False
        a = self.eval(e.func, st, fr).atom()
        return a is not None and a.kind == "mod" and a.args[0] == "contextlib.suppress"

    def st_With(self, s, st, fr):
        if any(self.suppresses(i.context_expr, st, fr) for i in s.items):
            if len(s.items) > 1:
                inner = ast.copy_location(ast.With(items=s.items[1:], body=s.body, type_comment=None), s)
                return self.st_With(ast.copy_location(ast.With(items=s.items[:1], body=[inner], type_comment=None), s), st, fr)
            e = s.items[0].context_expr
            h = ast.ExceptHandler(type=ast.Tuple(elts=list(e.args), ctx=ast.Load()), name=None, body=[ast.Pass()])
            t = ast.Try(body=s.body, handlers=[h], orelse=[], finalbody=[])
            return self.st_Try(ast.fix_missing_locations(ast.copy_location(t, s)), st, fr)
        mgrs = []
        for item in s.items:
            m = self.eval(item.context_expr, st, fr)
            v = self.lib.enter(m, st, item.context_expr)
            if v is None:
                v = self.cm_enter(m, st, item.context_expr)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, st, fr)
            mgrs.append((m, item))
        mark = len(self.pend)
        n, x = self.block(s.body, st, fr)
        x = x + self.collect(mark)
        for stx in ([n] if n is not None else []) + [e[1] for e in x]:
            for m, item in reversed(mgrs):
                if not self.lib.leave(m, stx, item.context_expr):
                    self.cm_exit(m, stx, item.context_expr)
        return n, x

    def cm_enter(self, m, st, node):
        a = m.atom()
        if a is not None and a.kind == "ref" and self.find_method(a, "__enter__") is not None:
            return self.call(self.getattr(m, "__enter__", st, node), [], {}, st, node)
        if a is not None and a.kind == "cmobj":
            # @contextmanager function: run up to the yield (body inlined in two halves)
            return self.cm_run(a, st, node, 0)
        return m

    def cm_exit(self, m, st, node):
        a = m.atom()
        if a is not None and a.kind == "ref" and self.find_method(a, "__exit__") is not None:
            self.call(self.getattr(m, "__exit__", st, node), [NONE, NONE, NONE], {}, st, node)
        elif a is not None and a.kind == "cmobj":
            self.cm_run(a, st, node, 1)

    def cm_run(self, a, st, node, half):
        fv, args = a.args
        f = self.funcs[fv.atom().args[0]]
        fid = ("F", "cm:" + a.key)
        fr = Frame(fid, f.closure, f.module, f.path, f.qual)
        body = f.node.body
        if half == 0:
            self.bindargs(f, [x for x in args.atom().args], {}, st, fr, node)
        pre, yv, post = _split_yield(body)
        if pre is None:
            self.unsup("context manager shape", node)
        self.stack.append(f.path)
        n, x = self.block(pre if half == 0 else post, st, fr)
        self.stack.pop()
        if x or n is None:
            self.unsup("exit inside context manager function", node)
        if n is not st:
            st.store, st.ev, st.pc, st.pcs = n.store, n.ev, n.pc, n.pcs
        if half == 0:
            return NONE if yv is None else self.eval(yv, st, fr)
        return NONE

    def st_Try(self, s, st, fr):
        entry = st.copy()
        mark = len(self.pend)
        n, x = self.block(s.body, st, fr)
        x = x + self.collect(mark)
        raised = [e for e in x if e[0] == "raise"]
        other = [e for e in x if e[0] != "raise"]
        exits = list(other)
        if n is not None and s.orelse:
            n, x2 = self.block(s.orelse, n, fr)
            exits += x2 + self.collect(mark)
        for kind, rs, rv in raised:
            handled = False
            for h in s.handlers:
                if self.handler_matches(h, rv, rs, fr):
                    if h.name:
                        self.setvar(rs, fr, h.name, rv)
                    caught = lambda e: e.kind == "raise" and e.data and e.data[0] is rv
                    rs.ev = [e for e in rs.ev if not caught(e)]
                    if n is not None:
                        n.ev = [e for e in n.ev if not caught(e)]
                    hn, hx = self.block(h.body, rs, fr)
                    exits += hx + self.collect(mark)
                    if hn is not None:
                        if n is None:
                            n = hn
                        else:
                            # relative guard of the handler path
                            g = rel_guard(hn.pc, n.pc, entry.pc)
                            n = self.merge2(g, hn, n, _Base(entry, hn, n))
                    handled = True
                    break
            if not handled:
                exits.append((kind, rs, rv))
        if s.finalbody:
            if n is not None:
                n, fx = self.block(s.finalbody, n, fr)
                exits2 = list(fx)
            else:
                exits2 = []
            for kind, xs, xv in exits:
                xn, fx = self.block(s.finalbody, xs, fr)
                exits2 += fx
                if xn is not None:
                    exits2.append((kind, xn, xv))
            exits = exits2
        return n, exits

    def handler_matches(self, h, rv, st, fr):
        if h.type is None:
            return True
        t = self.eval(h.type, st, fr)
        names = []
        for x in (t.atom().args if t.atom() is not None and t.atom().kind == "tuple" else [t]):
            a = x.atom()
            if a is not None and a.kind == "mod":
                names.append(a.args[0].split(".")[-1])
        if "Exception" in names or "BaseException" in names:
            return True
        r = T.show(rv)
        up = set()
        for w in re.findall(r"\w+", r):
            c = getattr(builtins, w, None)
            if isinstance(c, type) and issubclass(c, BaseException):
                up |= {b.__name__ for b in c.__mro__}
        return any(nm in r or nm in up for nm in names)

    # -------------------------------------------------------------- loops
    def st_For(self, s, st, fr):
        seq = self.iterate(self.eval(s.iter, st, fr), st, s.iter)

        def body(x, v):
            self.assign(s.target, v, x, fr)
            return self.block(s.body, x, fr)

        n, exits = self.run_seq(seq, st, body, s)
        brk = [e for e in exits if e[0] == "break"]
        exits = [e for e in exits if e[0] != "break"]
        if s.orelse and n is not None:
            n, x = self.block(s.orelse, n, fr)
            exits += x
        if brk:
            base = st
            n = self.join_exits(([n] if n is not None else []) + [e[1] for e in brk], st)
        return n, exits

    def join_exits(self, states, base):
        """Join states that partition base's pc (by their own pcs)."""
        cur = states[-1]
        for s in reversed(states[:-1]):
            g = rel_guard(s.pc, cur.pc, base.pc)
            cur = self.merge2(g, s, cur, _Base(base, s, cur))
        return cur

    def run_seq(self, seqp, st, body, node):
        """Iterate body over a sequence value (possibly gated)."""
        cs = [(self.simp(st, g), v) for g, v in cases(self.under(st, seqp))]
        cs = [(g, v) for g, v in cs if g.t]
        if len(cs) == 1:
            return self.run_segs(seq_segs(cs[0][1]), st, body, node)
        g, v = cs[0]
        rest = ZERO
        for h, w in cs[1:]:
            rest = rest + h * w
        return self.branch(st, g, lambda x: self.run_segs(seq_segs(v), x, body, node),
                           lambda x: self.run_seq(rest, x, body, node))

    def run_segs(self, segs, st, body, node, pos=0):
        exits = []
        brks = []
        for k, s in enumerate(segs):
            if st is None:
                break
            self.ctx.append(f"{node.lineno}.{node.col_offset}i{pos + k}")
            try:
                if s.kind == "it":
                    n, x = body(st, s.args[0])
                    cont = [e for e in x if e[0] == "continue"]
                    x = [e for e in x if e[0] != "continue"]
                    if cont:
                        n = self.join_exits(([n] if n is not None else []) + [e[1] for e in cont], st)
                elif s.kind == "rep":
                    n, x = self.sym_loop(s, st, body, node)
                elif s.kind == "when":
                    n, x = self.branch(st, s.args[0], lambda y: self.run_segs(s.args[1], y, body, node),
                                       lambda y: (y, []))
                else:
                    self.unsup("iteration over a partially known sequence", node)
            finally:
                self.ctx.pop()
            exits += x
            st = n
        return st, exits

    def sym_loop(self, s, st, body, node):
        xs, (hi, inner) = unbind(s)
        b = xs[0]
        hi = self.under(st, hi)
        T.BINDER_HI[b.key] = hi
        n = as_int(hi)
        if n is not None and n <= 24:
            return self.run_segs(norm_rep(s), st, body, node)
        return self.summarise(b, hi, lambda x: self.run_segs(inner, x, body, node), st, node)

    def stays_out(self, end, s0, start, b):
        """Leaving the loop here equals skipping this iteration: nothing was done in it
        yet, and once the condition holds it holds for every later iteration."""
        if end.ev != s0.ev[:len(end.ev)] or any(e.kind != "print" for e in end.ev):
            return False
        for k, v in end.store.items():
            if k[0] in ("H", "HF", "X") and start.get(k) != v and not (k[0] == "H" and self.is_local_ref(k[1], b)):
                return False
        a = end.pc.atom()
        up = True
        if a is None:
            a, up = (ONE - end.pc).atom(), False
        if a is None or a.kind != "neg":
            return False
        e = a.args[0]
        nxt = subst(e, {b: b.P() + ONE})
        if any(x.kind == "phi" for x in T.atoms_of(e)):
            return False
        return (T.neg(e - nxt) if up else T.neg(nxt - e)) == ZERO

    def summarise(self, b, hi, run, st, node):
        """Loop summary: run(State)->(State, exits) executes one iteration with
        iteration number b (0 <= b < hi)."""
        self.loopstats += 1
        pre = st
        self.binders.append(b)
        self.ctx.append(f"L{node.lineno}.{node.col_offset}")
        try:
            M = set()
            tag = f"p{next(self.cnt)}"
            guess, refuted = {}, set()
            m0 = fresh_idx(b.P(), "m")
            for attempt in range(12):
                s0 = State(pre.store, [], ONE, pre.pcs)
                phis = {}
                for k, (gv, gd) in guess.items():
                    s0.store[k] = gv
                for k in M:
                    ph, v = self.mkphi(tag, k, pre.store.get(k))
                    phis[k] = ph
                    s0.store[k] = v
                start = dict(s0.store)
                mark = len(self.pend)
                end, exits = run(s0)
                exits = exits + self.collect(mark)
                exits = [("continue",) + tuple(e[1:]) if e[0] == "break" and self.stays_out(e[1], s0, start, b) else e for e in exits]
                rets = [e for e in exits if e[0] in ("return", "break")]
                raises = [e for e in exits if e[0] == "raise"]
                cont = [e for e in exits if e[0] == "continue"]
                if rets:
                    self.unsup("loop with a symbolic trip count left early", node)
                if cont:
                    end = self.join_exits(([end] if end is not None else []) + [e[1] for e in cont], s0)
                if end is None:
                    return None, [("raise", st, raises[0][2] if raises else NONE)]
                new = set()
                # counters: value guessed as start + accumulated step, then verified
                for k in list(guess):
                    gv, gd = guess[k]
                    if end.store.get(k) != gv + gd:
                        del guess[k]
                        refuted.add(k)
                        new.add(k)
                for k, v in end.store.items():
                    if k in M or k in guess:
                        continue
                    w = start.get(k)
                    if w is None:
                        if k[0] in ("L",):
                            new.add(k)
                        elif k[0] in ("HF", "X"):
                            new.add(k)
                        elif k[0] == "H" and not self.is_local_ref(k[1], b):
                            new.add(k)
                    elif w is not v and w != v:
                        new.add(k)
                if attempt == 0:
                    for k in list(new):
                        x0 = pre.store.get(k)
                        if x0 is None or k in refuted or not (T.sort_of(x0) == "num" or not x0.t) or T.sort_of(end.store[k]) != "num":
                            continue
                        gd = end.store[k] - x0
                        if gd.t and not any(a.kind in ("phi", "undef", "eq0", "neg") for a in T.atoms_of(gd)) and T.int_valued(gd):
                            guess[k] = (x0 + T.mksum(m0, ZERO, b.P(), subst(gd, {b: m0.P()})), gd)
                            new.discard(k)
                    if guess and not new:
                        continue
                if not new:
                    break
                M |= new
            else:
                self.unsup("loop summary does not stabilise", node)
        finally:
            self.binders.pop()
            self.ctx.pop()
        for k, (gv, gd) in guess.items():
            end.store[k] = gv + gd
        return self.solve(b, hi, pre, end, M, phis, raises, node, {k: (gv, pre.store[k] + T.mksum(b, ZERO, hi, gd)) for k, (gv, gd) in guess.items()})

    def is_local_ref(self, ref, b):
        return True

    def mkphi(self, tag, k, pre):
        name = ".".join(str(x.key if isinstance(x, (Atom, P)) else x) for x in k[1:])
        sort = "num"
        if pre is not None:
            if T.int_valued(pre) and pre.t or (pre.const() is not None and pre.const().denominator == 1):
                sort = "num"
            so = T.sort_of(pre)
            if so in ("obj", "cvec", "mat", "field", "vfield", "meas"):
                sort = so
            if k[0] == "H" and k[2] == "val":
                sort = "cvec"
            a = pre.atom()
            if a is not None and a.kind == "seq":
                ph = Atom("phi", tag, name, "obj")
                return ph, Atom("seq", (Atom("base", ph.P()),)).P()
            if a is not None and a.kind == "fam":
                ph = Atom("phi", tag, name, "obj")
                return ph, mkfam(ph.P(), ())
        elif k[0] == "HF":
            ph = Atom("phi", tag, name, "obj")
            return ph, mkfam(ph.P(), ())
        ph = Atom("phi", tag, name, sort)
        return ph, ph.P()

    def solve(self, b, hi, pre, end, M, phis, raises, node, counters=None):
        keyof = {ph: k for k, ph in phis.items()}
        X0 = {k: pre.store.get(k) for k in M}
        for k in M:
            if X0[k] is None:
                X0[k] = UNDEF if k[0] != "HF" else mkfam(Atom("unset").P(), ())
        X1 = {k: end.store.get(k, UNDEF) for k in M}
        at = {}      # phi atom -> value at start of iteration b
        fin = {}     # loc -> final value
        unsolved = set(M)
        phikeys = {ph.key for ph in phis.values()}
        bP = b.P()
        m = fresh_idx(None, "m")

        def open_phis(v):
            return {a for a in T.atoms_of(v) if a.kind == "phi" and a.key in phikeys and keyof[a] in unsolved} if v.free & phikeys else set()

        lastphis = {}
        progress = True
        while unsolved and progress:
            progress = False
            for k in sorted(unsolved, key=str):
                ph = phis[k]
                x1 = T.subst(X1[k], at) if at and (X1[k].free & phikeys) else X1[k]
                X1[k] = x1
                r = self.solve_one(k, ph, X0[k], x1, b, hi, m, open_phis, node)
                if r is None:
                    continue
                atv, fv = r
                at[ph] = atv
                fin[k] = fv
                unsolved.discard(k)
                progress = True
            if unsolved and not progress:
                # one group of mutually dependent unknowns, then retry the ones that depend on it
                for k, (atv, fv) in self.solve_iter(unsolved, phis, X0, X1, b, hi, at).items():
                    at[phis[k]] = atv
                    fin[k] = fv
                    unsolved.discard(k)
                progress = True
        out = State(pre.store, pre.ev, pre.pc, pre.pcs)
        done = at
        need = lambda v: bool(v.free & phikeys)

        def resolve(v):
            n = 0
            while need(v) and n < 6:
                v = T.subst(v, done)
                n += 1
            return v

        last = {b: hi - ONE}
        counters = counters or {}
        for k, (_, fv) in counters.items():
            out.store[k] = fv
        for k, v in end.store.items():
            if k in M or k in counters:
                continue
            if k in pre.store and pre.store[k] is v:
                continue
            if k not in pre.store:
                if k[0] == "H":
                    out.store[k] = resolve(v)   # objects created in the body; keyed by b
                continue
        for k in M:
            out.store[k] = self.tidy(resolve(fin[k]))
        # families: parameterised objects created in the body live in HF locations
        evs = [e.map(resolve) for e in end.ev]
        if evs:
            out.ev.append(Ev("loop", (bP, hi), pre.pc, self.where(node), evs))
        xr = []
        for kind, rs, rv in raises:
            g = Atom("bopq", "raised-in-loop", rs.pc).P()
            sx = State(out.store, out.ev, out.pc * g, out.pcs)
            xr.append((kind, sx, rv))
        out.pc = pre.pc
        if xr:
            tot = ZERO
            for _, rs, _ in raises:
                tot = tot + rs.pc
            out.pc = pre.pc * (ONE - Atom("bopq", "raised-in-loop", tot).P())
        return out, xr

    def tidy(self, v):
        return self.lib.tidy(v)

    def solve_one(self, k, ph, x0, x1, b, hi, m, open_phis, node):
        opens = open_phis(x1)
        a1 = x1.atom()
        bP = b.P()
        m = fresh_idx(bP, "m")
        if a1 is not None and a1.kind == "seq":
            segs = a1.args[0]
            if segs and segs[0].kind == "base" and segs[0].args[0].atom() is ph:
                extra = segs[1:]
                if any(open_phis_any(e, open_phis) for e in extra):
                    lst = [e for e in extra]
                    # list grown by one item that depends on its own last item
                    r = self.solve_last(ph, x0, lst, b, hi, m, open_phis)
                    return r
                if not extra:
                    return x0, x0
                base0 = self.seq_of(x0)
                atv = mkseq(base0 + (rep(m, bP, T.subst_any(extra, {b: m.P()})),))
                fv = mkseq(base0 + (rep(b, hi, extra),))
                return atv, fv
        if a1 is not None and a1.kind == "fam":
            base, upds = a1.args
            if base.atom() is ph:
                if any(open_phis_any(u, open_phis) for u in upds if not self._fam_self(u, ph)):
                    return None
                x0f = x0.atom()
                if x0f is None or x0f.kind != "fam":
                    return None
                # self-reads at the very index being written see the pre-loop value
                upds2 = tuple(self._fam_selfread(u, ph, x0, b) for u in upds)
                if any(open_phis_any(u, open_phis) for u in upds2):
                    return None
                if not upds2:
                    return x0, x0
                fu = tuple(rebind_upd(u, b, hi) for u in upds2)
                au = tuple(rebind_upd(T.subst_any(u, {b: m.P()}), m, bP) for u in upds2)
                # interleaving of several updates per iteration is kept only when disjoint
                atv = mkfam(x0f.args[0], x0f.args[1] + au)
                fv = self.lib.tidy(mkfam(x0f.args[0], x0f.args[1] + fu))
                return atv, fv
        d = x1 - ph.P()
        dop = open_phis(d)
        if not dop and T.sort_of(x1) != "obj" and not (a1 is not None and a1.kind == "undef"):
            if x0.atom() is not None and x0.atom().kind == "undef":
                pass
            elif ph.key not in d.free and any(a is ph for a in T.atoms_of(x1)):
                # accumulator (a plain overwrite does not mention phi)
                return x0 + T.mksum(m, ZERO, bP, subst(d, {b: m.P()})), x0 + T.mksum(b, ZERO, hi, d)
        if not opens:
            prev = subst(x1, {b: bP - ONE})
            g = eq0(bP)
            atv = g * x0 + (ONE - g) * prev
            fv = subst(x1, {b: hi - ONE})
            if not self.at_least_one(hi):
                z = self.zero_trip(hi)
                fv = z * x0 + (ONE - z) * fv
            return atv, fv
        if opens == {ph} or dop == {ph}:
            # vector updated on disjoint blocks
            r = self.lib.disjoint_update(ph, x0, x1, b, hi, m)
            if r is not None:
                return r
            r = self.latch(ph, x0, x1, b, hi)
            if r is not None:
                return r
        return None

    def _fam_self(self, u, ph):
        return True

    def _fam_selfread(self, u, ph, x0, b):
        """Replace famread(phi, same params) inside the update value by the pre value."""
        xs, (his, guard, ps, value, mode) = unbind(u)
        mp = {}
        for a in T.atoms_of(value) + T.atoms_of(guard):
            if a.kind == "famread" and a.args[0].atom() is ph:
                if tuple(a.args[1]) == tuple(ps):
                    mp[a] = fam_read(x0, ps)
        if not mp:
            return u
        return bind("upd", xs, (his, T.subst(guard, mp), ps, T.subst(value, mp), mode))

    def latch(self, ph, x0, x1, b, hi):
        """x' = g(b)*v + (1-g(b))*x with v, g free of x."""
        c = T.cases(x1)
        keepg = ZERO
        other = ZERO
        for g, v in c:
            if ph.key in g.free:
                return None
            if v == ph.P():
                keepg = keepg + g
            elif ph.key in v.free:
                return None
            else:
                other = other + g * v
        if not keepg.t:
            return None
        upd = ONE - keepg
        # set in a single known iteration: upd == [b == e]
        a = upd.atom()
        if a is not None and a.kind == "eq0":
            s = T.solve_linear(a.args[0], {b.key})
            if s is not None and s[0] is b:
                e = s[1]
                v = subst(other, {b: e}) if other.t else other
                v = T.cofactors(other, a)[0]
                v = subst(v, {b: e})
                g_at = neg(e - b.P())       # e < b
                rngf = T.in_range(e, hi)
                return ite(g_at, v, x0), ite(rngf, v, x0)
        # set in every iteration but the first: x_b = x0 for b<=1 else v(b-1)
        na = (ONE - upd).atom()
        if na is not None and na.kind == "eq0":
            s = T.solve_linear(na.args[0], {b.key})
            if s is not None and s[0] is b and s[1].const() == 0:
                v = T.cofactors(other, na)[1]
                bP = b.P()
                g = eq0(bP) + eq0(bP - ONE)
                atv = ite(g, x0, subst(v, {b: bP - ONE}))
                h1 = eq0(hi - ONE)
                return atv, ite(h1, x0, subst(v, {b: hi - ONE}))
        return None

    def solve_last(self, ph, x0, extra, b, hi, m, open_phis):
        if len(extra) != 1 or extra[0].kind != "it":
            return None
        v = extra[0].args[0]
        lastatom = Atom("seqlast", ph.P())
        z = Atom("phi", "last", ph.key, "obj")
        v2 = subst_nofree(v, {lastatom: z.P()})
        if open_phis(v2) or any(a is ph for a in T.atoms_of(v2)):
            return None
        first = seq_index(x0, const(-1))
        itv = lambda i: mkiter((z,), (v2,), (first,), 0, b, i)
        base0 = self.seq_of(x0)
        bP = b.P()
        atv = mkseq(base0 + (rep(m, bP, (it(itv(m.P() + ONE)),)),))
        fv = mkseq(base0 + (rep(b, hi, (it(itv(bP + ONE)),)),))
        self.iter_last = getattr(self, "iter_last", {})
        return atv, fv

    def solve_iter(self, unsolved, phis, X0, X1, b, hi, at):
        ks = sorted(unsolved, key=lambda k: (X1[k].key, str(k)))
        # keep only mutually dependent groups: a group per connected component
        comps = components(ks, lambda k: [j for j in ks if phis[j].key in X1[k].free and any(a is phis[j] for a in T.atoms_of(X1[k]))])
        res = {}
        for comp in comps[:1]:
            zs = tuple(phis[k] for k in comp)
            steps = tuple(self.unwrap(X1[k]) for k in comp)
            inits = tuple(X0[k] for k in comp)
            mp = dict(at)
            steps = tuple(T.subst(x, mp) if x.free else x for x in steps)
            for i, k in enumerate(comp):
                res[k] = (mkiter(zs, steps, inits, i, b, b.P()), mkiter(zs, steps, inits, i, b, hi))
        return res

    def unwrap(self, v):
        return v

    def seq_of(self, x):
        a = x.atom()
        if a is not None and a.kind == "seq":
            return a.args[0]
        if a is not None and a.kind == "undef":
            return ()
        raise Unsupported("sequence expected")

    def at_least_one(self, hi):
        return T.nonneg(hi - ONE)

    def zero_trip(self, hi):
        return eq0(hi)

    def st_While(self, s, st, fr):
        """while with a constant-step induction variable in its condition."""
        # concrete unrolling first
        cur = st
        exits = []
        brks = []
        for n in range(25):
            probe = cur.copy()
            g = self.simp(probe, self.truth(self.eval(s.test, probe, fr), probe, s))
            c = g.const()
            if c is None:
                break
            cur = probe
            if c == 0:
                if brks:
                    cur = self.join_exits([cur] + brks, st)
                return cur, exits
            self.ctx.append(f"{s.lineno}w{n}")
            nx, x = self.block(s.body, cur, fr)
            self.ctx.pop()
            cont = [e for e in x if e[0] == "continue"]
            brks += [e[1] for e in x if e[0] == "break"]
            exits += [e for e in x if e[0] not in ("continue", "break")]
            if cont:
                nx = self.join_exits(([nx] if nx is not None else []) + [e[1] for e in cont], cur)
            if nx is None:
                return (self.join_exits(brks, st) if brks else None), exits
            cur = nx
        if n > 0 and n < 24 and False:
            pass
        cur = st.copy() if n == 0 else cur
        if n >= 24:
            self.unsup("unbounded constant loop", s)
        # symbolic: find the trip count from the induction variable
        b = fresh_idx(None, "w")
        hi = self.while_count(s, cur, fr, b)
        T.BINDER_HI[b.key] = hi

        def run(x):
            self.eval(s.test, x, fr)
            return self.block(s.body, x, fr)

        return self.summarise(b, hi, run, cur, s)

    def while_count(self, s, st, fr, b):
        probe = State(st.store, [], ONE, st.pcs)
        names = {n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)}
        tag = f"w{next(self.cnt)}"
        ph = {}
        for nm in names:
            k = ("L", fr.fid, nm)
            if k in probe.store and nm in assigned_names(s.body):
                a = Atom("phi", tag, nm, "num")
                ph[k] = a
                probe.store[k] = a.P()
        g = self.truth(self.eval(s.test, probe, fr), probe, s)
        self.binders.append(b)
        try:
            end, x = self.block(s.body, probe.copy(), fr)
        finally:
            self.binders.pop()
        if end is None or any(e[0] != "continue" for e in x) or len(ph) != 1:
            self.unsup("while loop without recognisable trip count", s)
        (k, a), = ph.items()
        step = (end.store[k] - a.P()).const()
        if step is None or step not in (1, -1):
            self.unsup("while loop step", s)
        x0 = st.store[k]
        # g == [a - U < 0] (step 1)
        for cand in T.atoms_of(g):
            if cand.kind in ("neg", "eq0"):
                p = cand.args[0]
                co = P({((a, 1),): Fr(1)})
                cf = p.t.get(((a, 1),))
                if cf is None or cf not in (1, -1):
                    continue
                rest = p - co * const(cf)
                if a.key in rest.free:
                    continue
                if cand.kind == "neg" and g == cand.P():
                    # cf*a + rest < 0
                    if cf == 1 and step == 1:
                        return -rest - x0
                    if cf == -1 and step == -1:
                        return x0 - rest
                if cand.kind == "neg" and g == ONE - cand.P():
                    # not(p<0): p>=0
                    if cf == -1 and step == 1:      # rest - a >= 0
                        return rest - x0 + ONE
                    if cf == 1 and step == -1:      # a + rest >= 0
                        return x0 + rest + ONE
                if cand.kind == "eq0" and g == ONE - cand.P():
                    u = rest * const(-1 / cf)
                    return (u - x0) * const(step)
        self.unsup("while condition", s)

    # -------------------------------------------------------------- iteration
    def iterate(self, v, st, node):
        def one(s, x):
            a = x.atom()
            if a is None:
                return self.opaque_iter(x)
            if a.kind == "seq":
                return x
            if a.kind == "tuple":
                return mkseq([it(y) for y in a.args])
            if a.kind == "str":
                return mkseq([it(S(c)) for c in a.args[0]])
            if a.kind == "ref":
                cls = a.args[0]
                if cls == "list":
                    return self.items(a, s)
                if cls == "dict":
                    return mkseq([it(k) for k, _ in self.dict_items(a, s)])
                m = self.find_method(a, "__iter__")
                if m is not None:
                    r = self.call(self.getattr(x, "__iter__", s, node), [], {}, s, node)
                    return self.iterate(r, s, node)
                r = self.lib.iterate(a, s, node)
                if r is not None:
                    return r
            r = self.lib.iter_value(a, s, node)
            if r is not None:
                return r
            return self.opaque_iter(x)

        return self.lifted(v, st, one, node)

    def opaque_iter(self, x):
        n = seqlen(x)
        i = fresh_idx(n, "o")
        return mkseq([rep(i, n, (it(Atom("item", x, i.P()).P()),))])

    def items(self, a, st):
        v = self.hget(st, a, "items")
        if v is None:
            raise Unsupported("list without content")
        return v

    # heap access (parameterised refs live in families)
    def hget(self, st, ref, field):
        cls, site, params = ref.args
        if not params:
            return self.get(st, ("H", ref, field))
        f = self.get(st, ("HF", cls, site, field))
        if f is None:
            return None
        return self.under(st, fam_read(f, params))

    def hset(self, st, ref, field, v):
        cls, site, params = ref.args
        if not params:
            st.store[("H", ref, field)] = v
            return
        k = ("HF", cls, site, field)
        f = st.store.get(k)
        if f is None:
            f = mkfam(Atom("unset").P(), ())
        a = f.atom()
        if a is None or a.kind != "fam":
            # gated family: push a common update
            r = ZERO
            for g, x in cases(f):
                r = r + g * self._famset(x.atom(), params, v)
            st.store[k] = r
            return
        st.store[k] = self._famset(a, params, v)

    def _famset(self, a, params, v):
        base, upds = a.args
        # drop an earlier unconditional write to exactly the same element
        keep = []
        for u in upds:
            if u.args[0] == 0:
                _, (his, guard, ps, val, mode) = unbind(u)
                if guard == ONE and ps == params:
                    continue
            keep.append(u)
        return mkfam(base, tuple(keep) + (upd([], ONE, params, v),))

    def hfields(self, st, ref):
        """Known field names of an instance."""
        cls, site, params = ref.args
        out = []
        for k in st.store:
            if k[0] == "H" and k[1] is ref:
                out.append(k[2])
            elif params and k[0] == "HF" and k[1] == cls and k[2] == site:
                out.append(k[3])
        return out

    def alloc(self, st, cls, node):
        site = T.hashlib.blake2b(("/".join(self.ctx) + f"@{self.stack[-1] if self.stack else ''}:{getattr(node, 'lineno', 0)}.{getattr(node, 'col_offset', 0)}").encode(), digest_size=8).hexdigest()
        params = tuple(self.under(st, b.P()) for b in self.binders)
        params = tuple(p for p in params)
        return Atom("ref", cls, site, params)

    def new_list(self, st, seqp, node):
        r = self.alloc(st, "list", node)
        self.hset(st, r, "items", seqp)
        return r.P()

    def list_extend(self, a, v, st, node):
        sv = self.iterate(v, st, node)
        cur = self.items(a, st)

        def f(g, x):
            return mkseq(tuple(seq_segs(x)) + tuple(seq_segs(sv)))

        r = ZERO
        for g, x in cases(cur):
            for g2, y in cases(sv):
                gg = g * g2
                if gg.t:
                    val = mkseq(tuple(seq_segs(x)) + tuple(seq_segs(y)))
                    r = r + gg * val
        self.hset(st, a, "items", r)

    def dict_items(self, a, st):
        v = self.hget(st, a, "items")
        d = v.atom() if v is not None else None
        if d is None or d.kind != "dict":
            raise Unsupported("gated dictionary")
        return d.args[0]

    def dict_del(self, a, k, st, node):
        items = tuple((x, y) for x, y in self.dict_items(a, st) if x != k)
        self.hset(st, a, "items", Atom("dict", items).P())

    # -------------------------------------------------------------- variables
    def setvar(self, st, fr, name, v):
        f = fr.func
        if f is not None and name in f.globals:
            st.store[("L", ("M", fr.module), name)] = v
            return
        if f is not None and name in f.nonlocals:
            for c in fr.closure:
                if ("L", c, name) in st.store:
                    st.store[("L", c, name)] = v
                    return
        st.store[("L", fr.fid, name)] = v

    def lookup(self, name, st, fr, node):
        v = self.get(st, ("L", fr.fid, name))
        if v is None:
            for c in fr.closure:
                v = self.get(st, ("L", c, name))
                if v is not None:
                    break
        if v is None:
            v = self.get(st, ("L", ("M", fr.module), name))
        if v is None:
            if name in BUILTINS:
                return Atom("mod", "builtins." + name).P()
            return self.fault(st, "NameError", node, name)
        a = v.atom()
        if a is not None and a.kind == "undef":
            return self.fault(st, "UnboundLocalError", node, name)
        b = T.top_bool(v)
        if b is not None:
            und = [(self.simp(st, g), x) for g, x in cases(v)]
            bad = [g for g, x in und if x.atom() is not None and x.atom().kind == "undef" and g.t]
            if any(x.atom() is not None and x.atom().kind == "undef" for _, x in und):
                good = [(g, x) for g, x in und if g.t and not (x.atom() is not None and x.atom().kind == "undef")]
                for g in bad:
                    st.ev.append(Ev("fault", (S("UnboundLocalError"), S(name)), st.pc * g, self.where(node)))
                if len(good) == 1:
                    return good[0][1]
                r = ZERO
                for g, x in good:
                    r = r + g * x
                return r
        return v

    # -------------------------------------------------------------- assignment
    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.setvar(st, fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            self.setattr(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            k = self.eval_index(t.slice, st, fr)
            self.setitem(o, k, v, st, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        else:
            self.unsup("assignment target", t)

    def unpack(self, t, v, st, fr):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        sv = self.iterate(v, st, t)
        parts = None
        cs = cases(sv)
        opaque = False
        if star:
            i = star[0]
            segs = seq_segs(sv)
            if not all(s.kind == "it" for s in segs):
                self.unsup("starred unpacking", t)
            vals = [s.args[0] for s in segs]
            k = len(vals) - (n - 1)
            lst = self.new_list(st, mkseq([it(x) for x in vals[i:i + k]]), t)
            vals = vals[:i] + [lst] + vals[i + k:]
        else:
            for g, x in cs:
                segs = seq_segs(x)
                ln = segs_len(segs)
                c = as_int(ln)
                if c is not None and c != n:
                    self.fault(st, "ValueError", t, f"unpacking {c} values into {n} targets")
            vals = [seq_index(sv, const(i)) for i in range(n)]
        for e, x in zip(t.elts, vals):
            self.assign(e, x, st, fr)

    def setattr(self, o, name, v, st, node):
        def one(s, x):
            a = x.atom()
            if a is not None and a.kind == "ref" and a.args[0] in self.classes:
                m = self.class_attr(a.args[0], name)
                if m is not None and m.atom() is not None and m.atom().kind == "setprop":
                    self.call(m.atom().args[0], [x, v], {}, s, node)
                    return NONE
                self.hset(s, a, name, v)
            elif a is not None and a.kind == "mod" and a.args[0] in self.modules:
                s.store[("L", ("M", a.args[0]), name)] = v
            elif a is not None and a.kind == "cls":
                self.classes[a.args[0]].ns[name] = v
            elif a is not None and a.kind == "func":
                s.store[("L", ("FN", a.args[0]), name)] = v
            else:
                if not self.lib.setattr(a, x, name, v, s, node):
                    self.event(s, "setattr", (x, S(name), v), node)
            return NONE

        self.lifted(o, st, one, node)

    def setitem(self, o, k, v, st, node):
        def one(s, x):
            a = x.atom()
            if a is None:
                self.unsup("item assignment on a computed value", node)
            if a.kind == "ref" and a.args[0] == "dict":
                self.dict_set(a, k, v, s, node)
                return NONE
            if a.kind == "ref" and a.args[0] == "list":
                i = as_int(k)
                segs = seq_segs(self.items(a, s))
                if i is not None and all(z.kind == "it" for z in segs) and -len(segs) <= i < len(segs):
                    segs = list(segs)
                    segs[i] = it(v)
                    self.hset(s, a, "items", mkseq(segs))
                    return NONE
                if all(z.kind == "it" for z in segs):
                    segs = [it(ite(eq0(k - const(j)), v, z.args[0])) for j, z in enumerate(segs)]
                    self.hset(s, a, "items", mkseq(segs))
                    return NONE
                i2 = fresh_idx(segs_len(segs), "u")
                cur = _index_segs(segs, i2.P())
                self.hset(s, a, "items", mkseq([rep(i2, segs_len(segs), (it(ite(eq0(i2.P() - k), v, cur)),))]))
                return NONE
            if a.kind == "ref" and self.find_method(a, "__setitem__") is not None:
                self.call(self.getattr(x, "__setitem__", s, node), [k, v], {}, s, node)
                return NONE
            self.lib.setitem(a, k, v, s, node)
            return NONE

        self.lifted(o, st, one, node)

    def dict_set(self, a, k, v, st, node):
        cur = self.hget(st, a, "items")
        r = ZERO
        for g, d in cases(cur):
            items = list(d.atom().args[0])
            for i, (x, y) in enumerate(items):
                if x == k:
                    items[i] = (x, v)
                    break
            else:
                if not T.is_literal(k) and not (k.atom() is not None and k.atom().kind in ("tuple", "osym", "mod", "ref")):
                    items.append((k, v))
                else:
                    items.append((k, v))
            r = r + g * Atom("dict", tuple(items)).P()
        self.hset(st, a, "items", r)

    def augitem(self, o, k, op, v, st, node):
        def one(s, x):
            a = x.atom()
            if a is not None and (a.kind == "view" or (a.kind == "ref" and a.args[0] == "ndarray")):
                self.lib.view_aug(a, k, op, v, s, node)
                return NONE
            old = self.getitem(x, k, s, node)
            oa = old.atom()
            if oa is not None and oa.kind == "view":
                self.lib.view_aug(oa, None, op, v, s, node)
                return NONE
            new = self.inplace(op, old, v, s, node)
            if new is not old:
                self.setitem(x, k, new, s, node)
            return NONE

        self.lifted(o, st, one, node)

    # -------------------------------------------------------------- expressions
    def eval(self, e, st, fr) -> P:
        self.steps += 1
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            self.unsup(f"expression {type(e).__name__}", e)
        v = m(e, st, fr)
        return v

    def ex_Constant(self, e, st, fr):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return const(int(v))
        if isinstance(v, int):
            return const(v)
        if isinstance(v, float):
            seg = ast.get_source_segment(fr.src, e) if fr.src else None
            return const(Fr(repr(v)))
        if isinstance(v, str):
            return S(v)
        if v is Ellipsis:
            return Atom("slice", "...").P()
        return Atom("pyconst", repr(v)).P()

    def ex_Name(self, e, st, fr):
        return self.lookup(e.id, st, fr, e)

    def ex_Tuple(self, e, st, fr):
        vals = self.elts(e.elts, st, fr)
        if vals is None:
            return self._starred_seq(e, st, fr)
        return tup(*vals)

    def _starred_seq(self, e, st, fr):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs += list(seq_segs(self.iterate(self.eval(x.value, st, fr), st, x)))
            else:
                segs.append(it(self.eval(x, st, fr)))
        return mkseq(segs)

    def elts(self, es, st, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                sv = self.iterate(self.eval(x.value, st, fr), st, x)
                segs = seq_segs(sv)
                if not all(s.kind == "it" for s in segs):
                    return None
                out += [s.args[0] for s in segs]
            else:
                out.append(self.eval(x, st, fr))
        return out

    def ex_List(self, e, st, fr):
        return self.new_list(st, self._starred_seq(e, st, fr), e)

    def ex_Set(self, e, st, fr):
        return tup(*self.elts(e.elts, st, fr))

    def ex_Dict(self, e, st, fr):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, st, fr).atom()
                if src is None or src.kind != "ref" or src.args[0] != "dict":
                    self.unsup("dict unpacking", e)
                for kk, vv in self.dict_items(src, st):
                    items = [(a, b) for a, b in items if a != kk] + [(kk, vv)]
            else:
                kk, vv = self.eval(k, st, fr), self.eval(v, st, fr)
                items = [(a, b) for a, b in items if a != kk] + [(kk, vv)]
        r = self.alloc(st, "dict", e)
        self.hset(st, r, "items", Atom("dict", tuple(items)).P())
        return r.P()

    def ex_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(S(v.value))
            else:
                x = self.eval(v.value, st, fr)
                spec = self.eval(v.format_spec, st, fr) if v.format_spec is not None else S("")
                if strval(x) is not None and strval(spec) == "":
                    parts.append(x)
                elif as_int(x) is not None and strval(spec) == "" and v.conversion == -1:
                    parts.append(S(str(as_int(x))))
                else:
                    parts.append(Atom("fmt", x, spec, v.conversion).P())
        out = []
        for p in parts:
            if out and strval(out[-1]) is not None and strval(p) is not None:
                out[-1] = S(strval(out[-1]) + strval(p))
            else:
                out.append(p)
        if len(out) == 1 and strval(out[0]) is not None:
            return out[0]
        if not out:
            return S("")
        return Atom("fstr", *out).P()

    def ex_FormattedValue(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def ex_Attribute(self, e, st, fr):
        return self.getattr(self.eval(e.value, st, fr), e.attr, st, e)

    def ex_Subscript(self, e, st, fr):
        o = self.eval(e.value, st, fr)
        k = self.eval_index(e.slice, st, fr)
        return self.getitem(o, k, st, e)

    def eval_index(self, s, st, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: NONE if x is None else self.eval(x, st, fr)
            return Atom("slice", f(s.lower), f(s.upper), f(s.step)).P()
        if isinstance(s, ast.Tuple):
            return tup(*[self.eval_index(x, st, fr) for x in s.elts])
        return self.eval(s, st, fr)

    def ex_IfExp(self, e, st, fr):
        g = self.simp(st, self.truth(self.eval(e.test, st, fr), st, e))
        return self.cond_val(g, lambda s: self.eval(e.body, s, fr), lambda s: self.eval(e.orelse, s, fr), st)

    def cond_val(self, g, fa, fb, st):
        c = g.const()
        if c is not None:
            return (fa if c else fb)(st)
        sa, sb = self.assume(st, g), self.assume(st, ONE - g)
        va, vb = fa(sa), fb(sb)
        m = self.merge2(g, sa, sb, st)
        st.store, st.ev = m.store, m.ev
        return self.merge_val(g, va, vb)

    def ex_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)

        def go(i, s):
            v = self.eval(e.values[i], s, fr)
            if i == len(e.values) - 1:
                return v
            g = self.simp(s, self.truth(v, s, e))
            if isand:
                return self.cond_val(g, lambda x: go(i + 1, x), lambda x: ZERO if T.is_bool(v) else v, s)
            return self.cond_val(g, lambda x: ONE if T.is_bool(v) and v.t else v, lambda x: go(i + 1, x), s)

        return go(0, st)

    def ex_UnaryOp(self, e, st, fr):
        v = self.eval(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return ONE - self.truth(v, st, e)
        if isinstance(e.op, ast.USub):
            return -self.lib.deref(v, st)
        if isinstance(e.op, ast.UAdd):
            return v
        return self.lib.invert(v, st, e)

    def ex_BinOp(self, e, st, fr):
        a = self.eval(e.left, st, fr)
        b = self.eval(e.right, st, fr)
        return self.binop(e.op, a, b, st, e)

    def ex_NamedExpr(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def ex_Starred(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def ex_Lambda(self, e, st, fr):
        return self.mkfunc(e, st, fr, "<lambda>")

    def ex_Compare(self, e, st, fr):
        left = self.eval(e.left, st, fr)
        r = None
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, st, fr)
            g = self.compare(op, left, right, st, e)
            r = g if r is None else r * g
            left = right
        return r

    def ex_GeneratorExp(self, e, st, fr):
        return self.comp(e, st, fr)

    def ex_ListComp(self, e, st, fr):
        return self.new_list(st, self.comp(e, st, fr), e)

    def ex_SetComp(self, e, st, fr):
        return self.comp(e, st, fr)

    def ex_DictComp(self, e, st, fr):
        pair = ast.copy_location(ast.Tuple([e.key, e.value], ast.Load()), e)
        fake = ast.copy_location(ast.GeneratorExp(pair, e.generators), e)
        sv = self.comp(fake, st, fr)
        segs = seq_segs(sv)
        r = self.alloc(st, "dict", e)
        if all(s.kind == "it" for s in segs):
            items = []
            for s in segs:
                k, v = s.args[0].atom().args
                items = [(a, b) for a, b in items if a != k] + [(k, v)]
            self.hset(st, r, "items", Atom("dict", tuple(items)).P())
            return r.P()
        self.unsup("symbolic dict comprehension", e)

    def comp(self, e, st, fr):
        """Comprehension -> seq value."""
        acc = ("X", "comp", self.comp_id(e))
        cf = Frame(("F", "c" + str(next(self.fr))), (fr.fid,) + fr.closure if fr.fid[0] != "M" and not getattr(fr, "isclass", False) else fr.closure, fr.module, fr.path, fr.qual)
        cf.src = fr.src
        cf.func = None
        outer = st.store.get(acc)
        st.store[acc] = mkseq(())

        def gen(i, s):
            if i == len(e.generators):
                v = self.eval(e.elt, s, cf)
                self.x_append(s, acc, it(v))
                return s, []
            g = e.generators[i]
            itv = self.iterate(self.eval(g.iter, s, fr if i == 0 else cf), s, g.iter)

            def body(x, v):
                self.assign(g.target, v, x, cf)

                def conds(j, y):
                    if j == len(g.ifs):
                        return gen(i + 1, y)
                    c = self.truth(self.eval(g.ifs[j], y, cf), y, e)
                    return self.branch(y, c, lambda z: conds(j + 1, z), lambda z: (z, []))

                return conds(0, x)

            return self.run_seq(itv, s, body, e)

        n, x = gen(0, st)
        if any(k != "raise" for k, _, _ in x):
            self.unsup("comprehension exits", e)
        if n is None:
            raise AlwaysRaises(st, x)
        self.pend += x
        if n is not st:
            st.store, st.ev, st.pc, st.pcs = n.store, n.ev, n.pc, n.pcs
        r = st.store.pop(acc)
        if outer is not None:
            st.store[acc] = outer
        for k in [k for k in st.store if k[0] == "L" and k[1] == cf.fid]:
            del st.store[k]
        return r

    def comp_id(self, e):
        return f"{e.lineno}.{e.col_offset}.{len(self.stack)}.{len(self.ctx)}"

    def x_append(self, st, key, seg):
        cur = st.store[key]
        r = ZERO
        for g, x in cases(cur):
            r = r + g * mkseq(tuple(seq_segs(x)) + (seg,))
        st.store[key] = r

    def ex_Yield(self, e, st, fr):
        v = NONE if e.value is None else self.eval(e.value, st, fr)
        self.x_append(st, ("X", "yield", fr.fid), it(v))
        return NONE

    def ex_YieldFrom(self, e, st, fr):
        sv = self.iterate(self.eval(e.value, st, fr), st, e)
        for s in seq_segs(sv):
            self.x_append(st, ("X", "yield", fr.fid), s)
        return NONE

    def ex_Call(self, e, st, fr):
        f = self.eval(e.func, st, fr)
        fa = f.atom()
        if fa is not None and fa.kind == "mod" and fa.args[0] == "builtins.super":
            return self.do_super(st, fr, e)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                sv = self.iterate(self.eval(x.value, st, fr), st, x)
                segs = seq_segs(sv)
                if not all(s.kind == "it" for s in segs):
                    self.unsup("symbolic argument unpacking", e)
                args += [s.args[0] for s in segs]
            else:
                args.append(self.eval(x, st, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, st, fr).atom()
                if d is None or d.kind != "ref" or d.args[0] != "dict":
                    self.unsup("** of unknown mapping", e)
                for kk, vv in self.dict_items(d, st):
                    kw[strval(kk)] = vv
            else:
                kw[k.arg] = self.eval(k.value, st, fr)
        self.callsites += 1
        if fa is not None and fa.kind == "mod" and fa.args[0] in ("builtins.locals", "builtins.globals"):
            self.unsup("locals()/globals()", e)
        return self.call(f, args, kw, st, e)

    def do_super(self, st, fr, e):
        me = None
        fn = fr.func
        owner = fn.owner
        first = (fn.node.args.posonlyargs + fn.node.args.args)[0].arg
        return Atom("super", self.get(st, ("L", fr.fid, first)), owner).P()

    # -------------------------------------------------------------- operators
    def binop(self, op, a, b, st, node):
        def one(s, x):
            def two(s2, y):
                return self.lib.binop(op, x, y, s2, node)
            return self.lifted_pure(b, s, two, node)
        return self.lifted_pure(a, st, one, node)

    def lifted_pure(self, v, st, fn, node):
        # arithmetic distributes over gates by itself; only objects need cases
        if T.top_bool(v) is None or T.sort_of(v) != "obj":
            return fn(st, v)
        return self.lifted(v, st, fn, node)

    def compare(self, op, a, b, st, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            g = self.identical(a, b, st)
            return g if isinstance(op, ast.Is) else ONE - g
        if isinstance(op, (ast.In, ast.NotIn)):
            g = self.contains(a, b, st, node)
            return g if isinstance(op, ast.In) else ONE - g
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.lib.compare(op, a, b, st, node)
            if r is not None:
                return r
            g = self.equal(a, b, st)
            return g if isinstance(op, ast.Eq) else ONE - g
        r = self.lib.compare(op, a, b, st, node)
        if r is not None:
            return r
        a, b = self.lib.num(a, st), self.lib.num(b, st)
        # significance test |X| > tiny
        sg = significance(op, a, b)
        if sg is not None:
            return sg
        if isinstance(op, ast.Lt):
            return neg(a - b)
        if isinstance(op, ast.Gt):
            return neg(b - a)
        if isinstance(op, ast.LtE):
            return ONE - neg(b - a)
        return ONE - neg(a - b)

    def identical(self, a, b, st):
        r = ZERO
        for g, x in cases(a):
            for h, y in cases(b):
                gg = g * h
                if gg.t:
                    r = r + gg * self._ident(x, y)
        return r

    def _ident(self, x, y):
        if x == y:
            return ONE
        ax, ay = x.atom(), y.atom()
        if ay is NONE.atom() or ax is NONE.atom():
            o = x if ay is NONE.atom() else y
            oa = o.atom()
            if oa is None or o.const() is not None:
                return ZERO
            if oa.kind in ("osym",):
                return ZERO if oa.key in T.SUPPLIED else Atom("isnone", o).P()
            if oa.kind == "famread" or oa.kind == "phi" or oa.kind == "iter" or oa.kind == "seqlast":
                return Atom("isnone", o).P()
            return ZERO
        if x.const() is not None and y.const() is not None:
            return ZERO
        return self._eq(x, y)

    def equal(self, a, b, st):
        r = ZERO
        for g, x in cases(self.lib.deref_soft(a, st)):
            for h, y in cases(self.lib.deref_soft(b, st)):
                gg = g * h
                if gg.t:
                    r = r + gg * self._eq(x, y)
        return r

    def _eq(self, x, y):
        if x == y:
            return ONE
        ax, ay = x.atom(), y.atom()
        objs = [z for z in (ax, ay) if z is not None and z.sort == "obj"]
        if objs:
            if ax is not None and ay is not None and ax.kind == ay.kind == "tuple":
                if len(ax.args) != len(ay.args):
                    return ZERO
                r = ONE
                for p, q in zip(ax.args, ay.args):
                    r = r * self._eq(p, q)
                return r
            if T.is_literal(x) and T.is_literal(y):
                return ZERO
            if ax is not None and ay is not None and ax.kind == "ref" and ay.kind == "ref":
                if ax.args[:2] != ay.args[:2]:
                    return ZERO
            if any(z.kind in ("fspace",) for z in objs) and len(objs) == 2:
                return ZERO
            if len(objs) == 2 and {z.kind for z in objs} <= {"ref", "none", "str", "cls", "mod", "func", "tuple"} and len({z.kind for z in objs}) == 2:
                return ZERO
            if any(z.kind == "none" for z in objs):
                return self._ident(x, y)
            return Atom("same", *sorted((x, y), key=lambda p: p.key)).P()
        if ax is not None and ay is not None and ax.kind == ay.kind == "mesh":
            return ZERO
        return eq0(x - y)

    def contains(self, a, b, st, node):
        sv = b
        ba = b.atom()
        if ba is not None and ba.kind == "ref" and ba.args[0] == "dict":
            r = ZERO
            for k, _ in self.dict_items(ba, st):
                e = self.equal(a, k, st)
                r = r + e - r * e
            return r
        if ba is not None and ba.kind == "petscopts":
            return self.lib.method(b, "hasName", [a], {}, st, node)
        if ba is not None and ba.kind == "str" and strval(a) is not None:
            return ONE if strval(a) in ba.args[0] else ZERO
        sv = self.iterate(b, st, node)
        segs = seq_segs(sv)
        if all(s.kind == "it" for s in segs):
            r = ZERO
            for s in segs:
                e = self.equal(a, s.args[0], st)
                r = r + e - r * e
            return r
        if len(segs) == 1 and segs[0].kind == "rep":
            xs, (hi, inner) = unbind(segs[0])
            if len(inner) == 1 and inner[0].kind == "it" and inner[0].args[0] == xs[0].P():
                return T.in_range(a, hi)
        return Atom("bopq", "in", a, sv).P()

    def truth(self, v, st, node):
        r = ZERO
        for g, x in cases(v):
            r = r + g * self._truth(x, st, node)
        return r

    def _truth(self, x, st, node):
        c = x.const()
        if c is not None:
            return ONE if c else ZERO
        a = x.atom()
        if a is None:
            return ONE - eq0(x)
        if a.isbool:
            return x
        if a.kind in ("none",):
            return ZERO
        if a.kind == "str":
            return ONE if a.args[0] else ZERO
        if a.kind == "tuple":
            return ONE if a.args else ZERO
        if a.kind == "seq":
            return ONE - eq0(seqlen(x))
        if a.kind == "ref":
            if a.args[0] == "list":
                return ONE - eq0(seqlen(self.items(a, st)))
            if a.args[0] == "dict":
                return ONE if self.dict_items(a, st) else ZERO
            for nm in ("__bool__", "__len__"):
                if self.find_method(a, nm) is not None:
                    return self.truth(self.call(self.getattr(x, nm, st, node), [], {}, st, node), st, node)
            return ONE
        if a.kind in ("func", "cls", "mod", "bound", "form", "fspace", "faulty", "meas", "slice", "cmobj"):
            return ONE
        if a.kind in ("osym", "phi", "famread", "iter", "mesh"):
            return Atom("truthy", x).P()
        if a.kind in ("isym", "sym", "idx"):
            return ONE - eq0(x)
        return self.lib.truth(a, x, st)

    # -------------------------------------------------------------- attributes
    def class_attr(self, cid, name):
        c = self.classes.get(cid)
        if c is None:
            return None
        if name in c.ns:
            return c.ns[name]
        for b in c.bases:
            a = b.atom()
            if a is not None and a.kind == "cls":
                r = self.class_attr(a.args[0], name)
                if r is not None:
                    return r
        return None

    def find_method(self, ref, name):
        return self.class_attr(ref.args[0], name)

    def getattr(self, o, name, st, node):
        return self.lifted(o, st, lambda s, x: self._getattr(x, name, s, node), node)

    def _getattr(self, x, name, st, node):
        a = x.atom()
        if a is None:
            return self.lib.attr_value(x, name, st, node)
        k = a.kind
        if k == "ref" and a.args[0] in self.classes:
            v = self.hget(st, a, name)
            cm = self.class_attr(a.args[0], name)
            if cm is not None and cm.atom() is not None and cm.atom().kind in ("prop", "setprop"):
                return self.call(cm.atom().args[-1], [x], {}, st, node)
            if v is not None and not _unset(v):
                return v
            if cm is not None:
                return self.bindm(cm, x, a.args[0])
            if name == "__class__":
                return Atom("cls", a.args[0]).P()
            if name == "__dict__":
                d = self.alloc(st, "dict", node)
                self.hset(st, d, "items", Atom("dict", tuple((S(f), self.hget(st, a, f)) for f in self.hfields(st, a))).P())
                return d.P()
            return self.fault(st, "AttributeError", node, f"{self.classes[a.args[0]].name}.{name}")
        if k == "ref" and a.args[0] in ("list", "dict"):
            return Atom("attr", x, name).P()
        if k == "cls":
            v = self.class_attr(a.args[0], name)
            if v is None:
                if name == "__name__":
                    return S(self.classes[a.args[0]].name)
                if name in ("__dataclass_fields__", "__new__", "__init__"):
                    return Atom("attr", x, name).P()
                return self.fault(st, "AttributeError", node, f"{a.args[0]}.{name}")
            va = v.atom()
            if va is not None and va.kind in ("static",):
                return va.args[0]
            if va is not None and va.kind == "clsm":
                return Atom("bound", x, va.args[0]).P()
            return v
        if k == "super":
            me, owner = a.args
            for b in self.classes[owner].bases:
                ba = b.atom()
                if ba is not None and ba.kind == "cls":
                    r = self.class_attr(ba.args[0], name)
                    if r is not None:
                        return Atom("bound", me, r).P()
            return Atom("mod", "builtins.object." + name).P()
        if k == "mod":
            m = a.args[0]
            if m in self.modules or m in self.sources:
                if m not in self.modules:
                    self.imp(m, st)
                v = self.get(st, ("L", ("M", m), name))
                if v is not None:
                    return v
                if f"{m}.{name}" in self.sources:
                    self.imp(f"{m}.{name}", st)
                    return Atom("mod", f"{m}.{name}").P()
                return self.fault(st, "AttributeError", node, f"module {m} has no attribute {name}")
            if any(s.startswith(m + ".") for s in self.sources):
                return Atom("mod", f"{m}.{name}").P()
            return self.lib.modattr(m, name)
        if k == "none":
            return self.fault(st, "NoneAttribute", node, name)
        if k == "func" and name in ("__name__", "__doc__", "__qualname__"):
            return S(self.funcs[a.args[0]].qual)
        if k == "func" and not name.startswith(("__", "cache_")):
            v = st.store.get(("L", ("FN", a.args[0]), name), UNDEF)
            return self.lifted(self.under(st, v), st, lambda s, y: self.fault(s, "AttributeError", node, f"function {self.funcs[a.args[0]].qual} has no attribute {name}") if y == UNDEF else y, node)
        if k == "prop" and name == "setter":
            return Atom("propsetter", x).P()
        if k == "tuple" or k == "seq" or k == "str":
            return Atom("attr", x, name).P()
        if k == "faulty":
            return x
        return self.lib.attr(a, x, name, st, node)

    def bindm(self, cm, x, cid):
        a = cm.atom()
        if a is None:
            return cm
        if a.kind == "func":
            return Atom("bound", x, cm).P()
        if a.kind == "static":
            return a.args[0]
        if a.kind == "clsm":
            return Atom("bound", Atom("cls", cid).P(), a.args[0]).P()
        if a.kind == "cmfun":
            return Atom("bound", x, cm).P()
        return cm

    # -------------------------------------------------------------- subscripts
    def getitem(self, o, k, st, node):
        def one(s, x):
            a = x.atom()
            if a is None:
                return self.lib.getitem_value(x, k, s, node)
            if a.kind in ("tuple", "seq"):
                return self.seq_getitem(x, k, s, node)
            if a.kind == "str":
                i = as_int(k)
                return S(a.args[0][i]) if i is not None else Atom("item", x, k).P()
            if a.kind == "ref" and a.args[0] == "list":
                ka = k.atom()
                if ka is not None and ka.kind == "slice":
                    return self.new_list(s, self.seq_slice(self.items(a, s), ka, s, node), node)
                return self.seq_getitem(self.items(a, s), k, s, node)
            if a.kind == "ref" and a.args[0] == "dict":
                return self.dict_get(a, k, s, node)
            if a.kind == "ref" and self.find_method(a, "__getitem__") is not None:
                return self.call(self.getattr(x, "__getitem__", s, node), [k], {}, s, node)
            if a.kind == "none":
                return self.fault(s, "NoneSubscript", node)
            if a.kind == "faulty":
                return x
            return self.lib.getitem(a, x, k, s, node)

        return self.lifted(o, st, one, node)

    def seq_getitem(self, x, k, st, node):
        ka = k.atom()
        if ka is not None and ka.kind == "slice":
            return self.seq_slice(x, ka, st, node)
        r = self.norm_index(x, k)
        v = seq_index(x, r)
        for y in [v]:
            if any(z.kind == "fault" for z in T.atoms_of(y, deep=False)):
                self.fault(st, "IndexError", node)
        return v

    def norm_index(self, x, k):
        """negative symbolic indices like -1-j: count from the end"""
        if k.const() is None and T.nonneg(-k - ONE):
            return seqlen(x) + k
        return k

    def seq_slice(self, x, ka, st, node):
        lo, up, step = ka.args
        if x.atom() is not None and x.atom().kind == "tuple":
            segs = tuple(it(y) for y in x.atom().args)
            ist = True
        else:
            segs = seq_segs(x)
            ist = False
        if all(s.kind == "it" for s in segs):
            g = lambda z: None if z.atom() is NONE.atom() else as_int(z)
            vals = [g(lo), g(up), g(step)]
            if all(v is not None or z.atom() is NONE.atom() for v, z in zip(vals, (lo, up, step))):
                out = segs[slice(*vals)]
                return tup(*[s.args[0] for s in out]) if ist else mkseq(out)
        if lo.atom() is NONE.atom() and up.atom() is NONE.atom() and step.atom() is NONE.atom():
            return x
        # symbolic slice [lo:up] of a sequence
        if step.atom() is NONE.atom():
            n = seqlen(x)
            l = ZERO if lo.atom() is NONE.atom() else lo
            u = n if up.atom() is NONE.atom() else up
            if T.nonneg(-u - ONE):
                u = n + u
            if T.nonneg(-l - ONE):
                l = n + l
            i = fresh_idx(u - l, "s")
            return mkseq([rep(i, u - l, (it(seq_index(x, i.P() + l)),))])
        if as_int(step) == -1 and lo.atom() is NONE.atom() and up.atom() is NONE.atom():
            n = seqlen(x)
            i = fresh_idx(n, "s")
            return mkseq([rep(i, n, (it(seq_index(x, n - ONE - i.P())),))])
        self.unsup("slice", node)

    def dict_get(self, a, k, st, node, default=None):
        cur = self.hget(st, a, "items")
        r = ZERO
        for g, d in cases(self.under(st, cur)):
            for h, kk in cases(k):
                gh = g * h
                if gh.t:
                    r = r + gh * self._dict_get(d.atom(), kk, st, node, default)
        return r

    def _dict_get(self, d, k, st, node, default):
        items = d.args[0]
        for x, y in reversed(items):
            if x == k:
                return y
        if T.is_literal(k) or (k.atom() is not None and k.atom().kind in ("mod",)):
            if all(T.is_literal(x) for x, _ in items):
                if default is not None:
                    return default
                return self.fault(st, "KeyError", node, T.show(k))
        r = self.lib.table_lookup(d, k, st, node)
        if r is not None:
            return r
        # symbolic key: gated selection
        r = ZERO
        seen = ZERO
        for x, y in items:
            e = self._eq(k, x)
            r = r + e * y
            seen = seen + e
        if default is not None:
            return r + (ONE - seen) * default
        return r if items else Atom("dictget", Atom("dict", items).P(), k).P()

    # -------------------------------------------------------------- calls
    def call(self, f, args, kw, st, node):
        def one(s, x):
            a = x.atom()
            if a is None:
                return self.lib.call_value(x, args, kw, s, node)
            k = a.kind
            if k == "func":
                return self.call_func(a, args, kw, s, node)
            if k == "bound":
                return self.call(a.args[1], [a.args[0]] + args, kw, s, node)
            if k == "cmfun":
                if kw:
                    self.unsup("keyword arguments of a context manager function", node)
                return Atom("cmobj", a.args[0], tup(*args)).P()
            if k == "cls":
                return self.instantiate(a, args, kw, s, node)
            if k == "mod":
                nm = a.args[0]
                if nm in self.classes:
                    return self.instantiate(Atom("cls", nm), args, kw, s, node)
                return self.lib.call(nm, args, kw, s, node)
            if k == "attr":
                return self.lib.method(a.args[0], a.args[1], args, kw, s, node)
            if k == "partial":
                f2, pa, pk = a.args
                kk = dict((strval(p.atom().args[0]), p.atom().args[1]) for p in pk.atom().args)
                kk.update(kw)
                return self.call(f2, list(pa.atom().args) + args, kk, s, node)
            if k == "ref":
                if self.find_method(a, "__call__") is not None:
                    return self.call(self.getattr(x, "__call__", s, node), args, kw, s, node)
                return self.lib.call_ref(a, x, args, kw, s, node)
            if k == "none":
                return self.fault(s, "NoneCall", node)
            if k == "faulty":
                return x
            if k == "propsetter":
                g = a.args[0].atom().args[-1]
                return Atom("setprop", args[0], g).P()
            if k == "static":
                return self.call(a.args[0], args, kw, s, node)
            return self.lib.call_value(x, args, kw, s, node)

        return self.lifted(f, st, one, node)

    def bindargs(self, f, args, kw, st, fr, node):
        a = f.node.args
        pos = a.posonlyargs + a.args
        names = [p.arg for p in pos]
        vals = {}
        kw = dict(kw)
        if len(args) > len(names):
            if a.vararg is None:
                self.fault(st, "TypeError", node, f"{f.qual} takes {len(names)} positional arguments but {len(args)} were given")
                args = args[:len(names)]
            else:
                vals[a.vararg.arg] = tup(*args[len(names):])
                args = args[:len(names)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = tup()
        for n, v in zip(names, args):
            vals[n] = v
        for n in names[len(args):]:
            if n in kw:
                vals[n] = kw.pop(n)
        for k in a.kwonlyargs:
            if k.arg in kw:
                vals[k.arg] = kw.pop(k.arg)
            elif k.arg in f.kwdefaults:
                vals[k.arg] = f.kwdefaults[k.arg]
            else:
                self.fault(st, "TypeError", node, f"{f.qual} missing keyword argument {k.arg}")
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j >= 0:
                    vals[n] = f.defaults[j]
                else:
                    vals[n] = self.fault(st, "TypeError", node, f"{f.qual} missing argument {n}")
        if kw:
            if a.kwarg is not None:
                d = self.alloc(st, "dict", node)
                self.hset(st, d, "items", Atom("dict", tuple((S(k), v) for k, v in kw.items())).P())
                vals[a.kwarg.arg] = d.P()
            else:
                self.fault(st, "TypeError", node, f"{f.qual} got unexpected keyword argument {sorted(kw)}")
        elif a.kwarg is not None:
            d = self.alloc(st, "dict", node)
            self.hset(st, d, "items", Atom("dict", ()).P())
            vals[a.kwarg.arg] = d.P()
        for n, v in vals.items():
            st.store[("L", fr.fid, n)] = v

    def call_func(self, fa, args, kw, st, node):
        f = self.funcs[fa.args[0]]
        if self.depth > 40:
            self.unsup(f"call depth (recursion?) at {f.qual}", node)
        r = self.lib.intercept(f, args, kw, st, node)
        if r is not None:
            return r
        fid = ("F", next(self.fr))
        fr = Frame(fid, f.closure, f.module, f.path, f.qual)
        fr.func = f
        fr.src = None
        self.touched.add(f"{f.module}:{f.qual}")
        if args and args[0].atom() is not None and args[0].atom().kind == "ref" and getattr(f, "owner", None):
            pass
        outer_ev, outer_pc = st.ev, st.pc
        st.ev, st.pc = [], ONE
        self.bindargs(f, args, kw, st, fr, node)
        self.depth += 1
        self.ctx.append(f"{node.lineno}.{node.col_offset}c")
        self.stack.append(f.path + "::" + f.qual)
        pcs0 = st.pcs
        mark = len(self.pend)
        try:
            if isinstance(f.node, ast.Lambda):
                raises = []
                try:
                    v = self.eval(f.node.body, st, fr)
                    rets = [("return", st, v)]
                except AlwaysRaises as e:
                    rets, raises = [], list(e.raises)
            else:
                if f.isgen:
                    st.store[("X", "yield", fid)] = mkseq(())
                s0 = State(st.store, st.ev, st.pc, st.pcs)
                n, x = self.block(f.node.body, s0, fr)
                rets = [e for e in x if e[0] == "return"]
                raises = [e for e in x if e[0] == "raise"]
                if n is not None:
                    rets.append(("return", n, NONE))
        finally:
            self.depth -= 1
            self.ctx.pop()
            self.stack.pop()
        raises = raises + self.collect(mark)
        scaled = {}

        def out(e):
            if id(e) not in scaled:
                scaled[id(e)] = e, scale(e, outer_pc)
            return scaled[id(e)][1]

        outer = [(k, State(s.store, outer_ev + [out(e) for e in s.ev], outer_pc * s.pc, s.pcs), v) for k, s, v in raises]
        if not rets:
            # always raises
            st.ev = outer_ev + [out(e) for e in _union_ev([e[1] for e in raises])]
            st.pc = outer_pc
            raise AlwaysRaises(st, outer)
        self.pend += outer
        states = [e[1] for e in rets]
        vals = [e[2] for e in rets]
        cur, val = states[-1], vals[-1]
        for s, v in zip(reversed(states[:-1]), reversed(vals[:-1])):
            g = rel_guard(s.pc, cur.pc, ONE)
            cur = self.merge2(g, s, cur, _Base(None, s, cur))
            val = self.merge_val(g, v, val)
        if f.isgen:
            val = cur.store.pop(("X", "yield", fid))
            for g, x in cases(val):
                pass
        ev = cur.ev
        for e in raises:
            ev = ev + [z for z in e[1].ev if z not in ev]
        st.store = cur.store
        st.ev = outer_ev + [out(e) for e in ev]
        st.pcs = cur.pcs if raises else pcs0
        st.pc = outer_pc * cur.pc if raises else outer_pc
        if not f.captures:
            for k in [k for k in st.store if k[0] == "L" and k[1] == fid]:
                del st.store[k]
        return val

    def instantiate(self, a, args, kw, st, node):
        c = self.classes[a.args[0]]
        r = self.lib.instantiate_hook(a.args[0], args, kw, st, node)
        if r is not None:
            return r
        ref = self.alloc(st, a.args[0], node)
        init = self.class_attr(a.args[0], "__init__")
        if init is not None and not (c.is_dc and "__init__" not in c.ns):
            self.call(init, [ref.P()] + args, kw, st, node)
            return ref.P()
        if c.fields:
            kw = dict(kw)
            vals = {}
            if len(args) > len(c.fields):
                self.fault(st, "TypeError", node, f"{c.name} takes {len(c.fields)} arguments")
            for (n, d, fac), v in zip(c.fields, args):
                vals[n] = v
            for n, d, fac in c.fields[len(args):]:
                if n in kw:
                    vals[n] = kw.pop(n)
                elif d is not None:
                    vals[n] = d
                elif fac is not None:
                    vals[n] = self.call(fac, [], {}, st, node)
                else:
                    self.fault(st, "TypeError", node, f"{c.name} missing argument {n}")
            if kw:
                self.fault(st, "TypeError", node, f"{c.name} got unexpected keyword {sorted(kw)}")
            for n, v in vals.items():
                self.hset(st, ref, n, v)
            post = self.class_attr(a.args[0], "__post_init__")
            if post is not None:
                self.call(post, [ref.P()], {}, st, node)
            return ref.P()
        if args or kw:
            base_exc = any(b.atom() is not None and b.atom().kind == "mod" for b in c.bases)
            if not base_exc:
                self.fault(st, "TypeError", node, f"{c.name} takes no arguments")
        return ref.P()


class AlwaysRaises(Exception):
    def __init__(self, st, raises):
        super().__init__("always raises")
        self.st, self.raises = st, raises


class _Base:
    """Minimal base for merge2 when only the common event prefix matters."""

    def __init__(self, base, a, b):
        n = 0
        for x, y in zip(a.ev, b.ev):
            if x is not y:
                break
            n += 1
        self.ev = a.ev[:n]
        self.store = base.store if base is not None else {}
        pc = []
        for x, y in zip(a.pcs, b.pcs):
            if x != y:
                break
            pc.append(x)
        self.pcs = tuple(pc)
        self.pc = ONE


class Frame:
    def __init__(self, fid, closure, module, path, qual=""):
        self.fid, self.closure, self.module, self.path, self.qual = fid, closure, module, path, qual
        self.func = None
        self.src = None


def _union_ev(states):
    out = []
    for s in states:
        out += [e for e in s.ev if e not in out]
    return out


def scale(e, g):
    if g == ONE:
        return e
    return Ev(e.kind, e.data, e.guard * g, e.where, e.body)


def rel_guard(ga, gb, base):
    """Guard selecting a among two states with absolute guards ga, gb."""
    tot = ga + gb
    if tot == ONE:
        return ga
    # common factor: try the boolean literals of ga not implied by the total
    for m in (ga, ONE - gb):
        if (m * tot) == ga:
            pass
    lits = [x for x in literals(ga)]
    for a, w in lits:
        g = a.P() if w == ONE else (ONE - a.P()) if w == ZERO else a.P()
        if a.kind == "idx":
            continue
        if (g * tot) == ga and not (g * gb).t:
            return g
    # several literals
    g = ONE
    for a, w in lits:
        if a.kind == "idx":
            continue
        q = a.P() if w == ONE else ONE - a.P()
        if (q * gb) == gb:
            continue
        g = g * q
    if (g * tot) == ga:
        return g
    return ga


def literals(g):
    """[(Atom, P)] substitutions implied by g being true."""
    out = []
    if len(g.t) == 1:
        (m, c), = g.t.items()
        if c == 1:
            for a, _ in m:
                out += lit(a, True)
        return out
    n = ONE - g
    if len(n.t) == 1:
        (m, c), = n.t.items()
        if c == 1 and len(m) == 1:
            out += lit(m[0][0], False)
        return out
    # conjunction with negative literals: factors every monomial shares, and
    # atoms whose positive cofactor vanishes
    b = None
    for m in g.t:
        s = {a for a, _ in m}
        b = s if b is None else b & s
    for a in b or ():
        out += lit(a, True)
    done = {a for a, _ in out}
    for a in sorted({a for m in g.t for a, _ in m} - (b or set())):
        if not (g * a.P()).t:
            out += lit(a, False)
    return out


def lit(a, val):
    out = [(a, ONE if val else ZERO)]
    if a.kind == "eq0" and val:
        s = T.solve_linear(a.args[0])
        if s is not None:
            out.append(s)
    return out


def _sub_bool(v, a, w):
    """Replace a boolean atom by a constant, at any depth."""
    return subst_memo(v, a, w)


_SB: dict = {}


def subst_memo(v, a, w):
    k = (v.key, a.key, w.key)
    r = _SB.get(k)
    if r is None:
        r = subst(v, {a: w})
        _SB[k] = r
    return r


def subst_nofree(v, mp):
    return subst(v, mp)


def open_phis_any(x, f):
    if isinstance(x, Atom):
        x = x.P() if x.kind != "it" else x.args[0]
    if isinstance(x, tuple):
        return any(open_phis_any(y, f) for y in x)
    return bool(f(x))


def _unset(v):
    a = v.atom()
    return a is not None and a.kind == "famread" and a.args[0].atom() is not None and a.args[0].atom().kind == "unset"


def rebind_upd(u, b, hi):
    xs, (his, guard, ps, value, mode) = unbind(u)
    return bind("upd", [b] + xs, ((hi,) + tuple(his), guard, ps, value, mode))


def merge_seq(g, sa, sb):
    n = 0
    for x, y in zip(sa, sb):
        if x is not y:
            break
        n += 1
    pre, ra, rb = sa[:n], sa[n:], sb[n:]
    if len(ra) == len(rb) and all(x.kind == "it" for x in ra + rb):
        return mkseq(pre + tuple(it(ite(g, x.args[0], y.args[0])) for x, y in zip(ra, rb)))
    out = list(pre)
    if ra:
        out.append(Atom("when", g, tuple(ra)))
    if rb:
        out.append(Atom("when", ONE - g, tuple(rb)))
    return mkseq(out)


def merge_fam(g, a, b):
    if a.args[0] != b.args[0]:
        return ite(g, a.P(), b.P())
    ua, ub = a.args[1], b.args[1]
    n = 0
    for x, y in zip(ua, ub):
        if x is not y:
            break
        n += 1

    def gate(u, h):
        xs, (his, guard, ps, value, mode) = unbind(u)
        return bind("upd", xs, (his, guard * h, ps, value, mode))

    ra, rb = ua[n:], ub[n:]
    if len(ra) == len(rb) == 1 and ra[0].args[0] == rb[0].args[0] == 0:
        _, (h1, g1, p1, v1, m1) = unbind(ra[0])
        _, (h2, g2, p2, v2, m2) = unbind(rb[0])
        if g1 == g2 and p1 == p2 and m1 == m2:
            return mkfam(a.args[0], ua[:n] + (upd([], g1, p1, ite(g, v1, v2), m1),))
    return mkfam(a.args[0], ua[:n] + tuple(gate(u, g) for u in ra) + tuple(gate(u, ONE - g) for u in rb))


def merge_dict(g, a, b, I):
    ka = [k for k, _ in a.args[0]]
    kb = [k for k, _ in b.args[0]]
    da, db = dict(a.args[0]), dict(b.args[0])
    keys = ka + [k for k in kb if k not in da]
    out = []
    for k in keys:
        if k in da and k in db:
            out.append((k, da[k] if da[k] == db[k] else I.merge_val(g, da[k], db[k])))
        else:
            out.append((k, ite(g, da.get(k, UNDEF), db.get(k, UNDEF))))
    return Atom("dict", tuple(out)).P()


def mkiter(zs, steps, inits, which, b, i):
    """Value number of a solved-by-iteration recurrence: component `which` of the
    vector obtained from `inits` by i steps (step number b)."""
    c = as_int(i)
    if c == 0:
        return inits[which]
    holes = {z: Atom("hole", j, z.sort).P() for j, z in enumerate(zs)}
    st = tuple(subst(s, holes) for s in steps)
    a = bind("iter", [b], (tuple(st), tuple(inits), which))
    return Atom("itat", a, i).P()


def _itat(a, i):
    if isinstance(a, P):
        a = a.atom()
    if as_int(i) == 0:
        xs, (steps, inits, which) = unbind(a)
        return inits[which]
    return Atom("itat", a, i).P()


T.CONSTRUCT["itat"] = _itat
T.SORT["phi"] = lambda a: a.args[2]
T.SORT["hole"] = lambda a: a.args[1]


def _itat_sort(a):
    xs, (steps, inits, which) = unbind(a.args[0])
    for v in (inits[which], steps[which]):
        s = T.sort_of(v)
        if v.t and s != "num":
            return s
    return "num"


T.SORT["itat"] = _itat_sort


def itat_unfold(a):
    """itat(iter, i) -> value after one more unfolding (i >= 1)."""
    it_, i = a.args
    xs, (steps, inits, which) = unbind(it_)
    j = i - ONE
    holes = {}
    for k in range(len(steps)):
        b = bind("iter", xs, (steps, inits, k))
        holes[k] = inits[k] if as_int(j) == 0 else Atom("itat", b, j).P()
    mp = {x: j for x in xs}
    v = subst(steps[which], mp)
    hm = {h: holes[h.args[0]] for h in T.atoms_of(v) if h.kind == "hole"}
    return subst(v, hm)


def components(ks, deps):
    """Strongly connected components in dependency order."""
    idx, low, onst, stack, out = {}, {}, set(), [], []
    cnt = itertools.count()

    def visit(v):
        idx[v] = low[v] = next(cnt)
        stack.append(v)
        onst.add(v)
        for w in deps(v):
            if w not in idx:
                visit(w)
                low[v] = min(low[v], low[w])
            elif w in onst:
                low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            comp = []
            while True:
                w = stack.pop()
                onst.discard(w)
                comp.append(w)
                if w == v:
                    break
            out.append(list(reversed(comp)))

    for k in ks:
        if k not in idx:
            visit(k)
    return out


def significance(op, a, b):
    """|X| > tiny and its negations."""
    if isinstance(op, (ast.Gt, ast.GtE)):
        x, c = a, b.const()
        pos = True
    elif isinstance(op, (ast.Lt, ast.LtE)):
        if a.const() is not None:
            x, c, pos = b, a.const(), True
        else:
            x, c, pos = a, b.const(), False
    else:
        return None
    if c is None or not (0 <= c <= Fr(1, 10**8)):
        return None
    at = x.atom()
    if at is None or at.kind != "abs":
        return None
    g = Atom("sig", at.args[0]).P()
    return g if pos else ONE - g


def assigned_names(body):
    out = set()
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


def _funcs_in(v):
    a = v.atom()
    if a is None:
        return []
    if a.kind == "func":
        return [a.args[0]]
    if a.kind in ("prop", "static", "clsm", "setprop", "cmfun"):
        return [f for x in a.args for f in _funcs_in(x)]
    return []


def _split_yield(body):
    for i, s in enumerate(body):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Yield):
            return body[:i], s.value.value, body[i + 1:]
        if isinstance(s, ast.Try) and not s.handlers:
            pre, y, post = _split_yield(s.body)
            if pre is not None:
                return body[:i] + pre, y, post + s.finalbody + body[i + 1:]
    return None, None, None
