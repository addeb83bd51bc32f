"""Gated value-numbering domain: multivariate polynomials over hash-consed atoms.

Every abstract value is a `P`: a polynomial with rational coefficients over
atoms.  An atom is an uninterpreted (or canonically rewritten) symbol or
application, numbered by a structural digest, so two computations that are equal
modulo commutative-ring algebra, alpha-renaming of summation indices and the
rewrite rules registered in RULES get the same number.  Conditional values are
`g*a + (1-g)*b` with `g` an idempotent boolean atom (gated SSA's gamma).
"""
from __future__ import annotations

import math
import hashlib
import itertools
from fractions import Fraction as Fr


class Unsupported(Exception):
    """The analysis met a construct it has no transfer function for."""

    def __init__(self, msg, node=None):
        super().__init__(msg)
        self.node = node


_INTERN: dict = {}
BOOL = set()      # kinds of idempotent atoms
INT = set()       # kinds of integer atoms
CONSTRUCT = {}    # kind -> smart constructor used when rebuilding after substitution
BINDERS = {"sum"}  # kinds that bind bv atoms of their own level
SORT = {}         # kind -> fn(atom) -> sort


def digest(x) -> str:
    if isinstance(x, (P, Atom)):
        return x.key
    if isinstance(x, tuple):
        return "(" + ",".join(digest(y) for y in x) + ")"
    return type(x).__name__ + ":" + str(x)


ITEM_HOOK = None  # a library's knowledge about elements of its values: item atom -> value or None


class Atom:
    __slots__ = ("kind", "args", "key", "free", "level", "isbool", "_sort", "conts")

    def __new__(cls, kind, *args):
        raw = kind + "|" + "|".join(digest(a) for a in args)
        key = hashlib.blake2b(raw.encode(), digest_size=12).hexdigest()
        a = _INTERN.get(key)
        if a is not None:
            return a
        a = object.__new__(cls)
        a.kind, a.args, a.key = kind, args, key
        a._sort = None
        free = set()
        level = 0
        stack = list(args)
        while stack:
            x = stack.pop()
            if isinstance(x, tuple):
                stack.extend(x)
            elif isinstance(x, P):
                free |= x.free
                level = max(level, x.level)
            elif isinstance(x, Atom):
                free |= x.free
                level = max(level, x.level)
        if kind in ("idx", "phi"):
            free.add(key)
        if kind in BINDERS:
            level += 1
        a.free = frozenset(free)
        a.level = level
        a.isbool = kind in BOOL
        _INTERN[key] = a
        return a

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.key < o.key

    def __repr__(self):
        return show_atom(self)

    @property
    def sort(self):
        if self._sort is None:
            f = SORT.get(self.kind)
            self._sort = (f(self) if callable(f) else f) or "num"
        return self._sort

    def P(self):
        if ITEM_HOOK is not None and self.kind == "item":
            r = ITEM_HOOK(self)
            if r is not None:
                return r
        return P({((self, 1),): Fr(1)})


class P:
    """Immutable polynomial."""

    __slots__ = ("t", "_key", "_free", "_level")

    def __init__(self, t):
        self.t = t
        self._key = None
        self._free = None
        self._level = None

    @property
    def key(self):
        if self._key is None:
            items = sorted(
                (tuple((a.key, e) for a, e in m), c) for m, c in self.t.items()
            )
            raw = ";".join(
                f"{c}*" + ".".join(f"{k}^{e}" for k, e in m) for m, c in items
            )
            self._key = "P" + hashlib.blake2b(raw.encode(), digest_size=12).hexdigest()
        return self._key

    @property
    def free(self):
        if self._free is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= a.free
            self._free = frozenset(s)
        return self._free

    @property
    def level(self):
        if self._level is None:
            self._level = max((a.level for m in self.t for a, _ in m), default=0)
        return self._level

    def __eq__(self, o):
        if not isinstance(o, P):
            return NotImplemented
        return self is o or (len(self.t) == len(o.t) and self.t == o.t)

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        o = lift(o)
        if not self.t:
            return o
        if not o.t:
            return self
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            n = r.get(m, 0) + c
            if n:
                r[m] = n
            else:
                r.pop(m, None)
        return P(r)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        o = lift(o)
        if not self.t or not o.t:
            return ZERO
        if len(o.t) == 1 and () in o.t:
            c = o.t[()]
            return self if c == 1 else P({m: k * c for m, k in self.t.items()})
        if len(self.t) == 1 and () in self.t:
            return o * self
        r: dict = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                q = mono_mul(m1, m2)
                c = c1 * c2
                if isinstance(q, tuple):
                    n = r.get(q, 0) + c
                    if n:
                        r[q] = n
                    else:
                        r.pop(q, None)
                elif q is not None:
                    for m, k in q.t.items():
                        n = r.get(m, 0) + c * k
                        if n:
                            r[m] = n
                        else:
                            r.pop(m, None)
        return P(r)

    __rmul__ = __mul__

    def inv(self):
        if not self.t:
            raise Unsupported("division by zero")
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if all(a.kind != "sum" and not a.isbool and a.sort != "obj" for a, _ in m):
                r = P({(): 1 / c})
                for a, e in m:
                    r = r * P({((a, -e),): Fr(1)})
                return r
        # gated value: lift over booleans
        b = top_bool(self)
        if b is not None:
            x1, x0 = cofactors(self, b)
            bp = b.P()
            i1 = x1.inv() if x1.t else ZERO
            i0 = x0.inv() if x0.t else ZERO
            return bp * i1 + (ONE - bp) * i0
        # normalise content/sign so that 1/(2a+2b) and 1/(a+b) share an atom
        lead = min(self.t.items(), key=lambda mc: tuple((a.key, e) for a, e in mc[0]))
        c = lead[1]
        return P({((Atom("inv", self * P({(): 1 / c})), 1),): 1 / c})

    def __truediv__(self, o):
        o = lift(o)
        if len(o.t) > 1 and len(self.t) >= 1:
            # exact proportionality
            q = _proportional(self, o)
            if q is not None:
                return const(q)
        return self * o.inv()

    def __rtruediv__(self, o):
        return lift(o) * self.inv()

    def __pow__(self, n):
        n = as_int(lift(n))
        if n is None:
            raise Unsupported("symbolic exponent")
        if n < 0:
            return (self ** (-n)).inv()
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def const(self):
        """The rational value, if constant."""
        if not self.t:
            return Fr(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atom(self):
        """The atom, if this is exactly one atom."""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None

    def __bool__(self):
        raise TypeError("abstract value used as Python bool")


def _proportional(a, b):
    if set(a.t) != set(b.t):
        return None
    q = None
    for m, c in a.t.items():
        r = c / b.t[m]
        if q is None:
            q = r
        elif q != r:
            return None
    return q


ZERO = P({})
ONE = P({(): Fr(1)})


def const(c):
    c = Fr(c)
    return P({(): c}) if c else ZERO


def lift(x) -> P:
    if isinstance(x, P):
        return x
    if isinstance(x, Atom):
        return x.P()
    if isinstance(x, (int, Fr)):
        return const(x)
    raise TypeError(f"cannot lift {type(x)}")


def as_int(p):
    c = p.const()
    return int(c) if c is not None and c.denominator == 1 else None


def sym(name, kind="sym"):
    return Atom(kind, name).P()


# ---------------------------------------------------------------- monomials
def _merge(m1, m2):
    """Sorted merge of two factor tuples; returns (factors, needs_rules)."""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        if a in d:
            n = 1 if a.isbool else d[a] + e
            if n:
                d[a] = n
            else:
                del d[a]
        else:
            d[a] = e
    return tuple(sorted(d.items(), key=lambda ae: ae[0].key))


def mono_mul(m1, m2):
    """Product of monomials: a factor tuple, a P, or None for zero."""
    if not m1 or not m2:
        return m1 or m2
    nb1 = any(a.isbool for a, _ in m1)
    nb2 = any(a.isbool for a, _ in m2)
    ns = sum(e for a, e in m1 if a.kind == "sum") + sum(e for a, e in m2 if a.kind == "sum")
    m = _merge(m1, m2)
    if ns > 1:
        return _merge_sums(m)
    if any(a.kind == "sqrt" and e not in (1,) for a, e in m):
        return _simp_sqrt(m)
    if nb1 or nb2:
        return simp_bool(m)
    return m


def mono_P(m):
    return P({m: Fr(1)})


def _simp_sqrt(m):
    r = ONE
    rest = []
    for a, e in m:
        if a.kind == "sqrt" and e not in (0, 1):
            k, odd = divmod(e, 2)
            r = r * (a.args[0] ** k)
            if odd:
                rest.append((a, 1))
        else:
            rest.append((a, e))
    return r * mono_P(tuple(rest)) if len(rest) < len(m) or True else None


def _merge_sums(m):
    out = [(a, e) for a, e in m if a.kind != "sum"]
    binders, body = [], ONE
    for a, e in m:
        if a.kind == "sum":
            for _ in range(e):
                bs, b = open_sum(a)
                binders += bs
                body = body * b
    r = close_sum(binders, body)
    return r * mono_P(tuple(out)) if out else r


# ---------------------------------------------------------------- booleans
def solve_linear(p, want=None):
    """Solve p == 0 for an index/integer symbol with coefficient +-1.

    Returns (atom, value) or None.  Prefers `want` (a set of keys)."""
    cand = []
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "idx":
            a = m[0][0]
            if c in (1, -1) or (want and a.key in want):
                cand.append((a, c))
    for a, c in sorted(cand, key=lambda ac: (0 if want and ac[0].key in want else 1, ac[0].key)):
        rest = p - P({((a, 1),): c})
        if a.key not in rest.free:
            v = rest * (-1 / c)
            if all(k.denominator == 1 for k in v.t.values()):
                return a, v
    return None


def simp_bool(m):
    """Simplify a monomial containing boolean atoms."""
    bools = [a for a, _ in m if a.isbool]
    rest = [(a, e) for a, e in m if not a.isbool]
    # significance guards: [|X|>tiny]*X == X
    names = {a for a, _ in rest}
    nb = []
    for b in bools:
        if b.kind == "sig":
            x = b.args[0].atom()
            if x is not None and x in names:
                continue
        nb.append(b)
    changed = len(nb) != len(bools)
    bools = nb
    # pairwise relations
    drop = set()
    for i, a in enumerate(bools):
        for b in bools[i + 1:]:
            r = _pair(a, b)
            if r == 0:
                return None
            if r is not None:
                drop.add(r)
    if drop:
        bools = [b for b in bools if b not in drop]
        changed = True
    # equalities substitute into the other factors
    for b in bools:
        if b.kind == "eq0":
            s = solve_linear(b.args[0])
            if s is not None:
                a, v = s
                others = tuple((x, e) for x, e in m if x is not b and (not x.isbool or x in bools))
                if any(a.key in x.free for x, _ in others):
                    q = subst(mono_P(others), {a: v})
                    return q * b.P() if q.t else None
    if not changed:
        return m
    return tuple(sorted(rest + [(b, 1) for b in bools], key=lambda ae: ae[0].key))


def _pair(a, b):
    """0 if a*b==0; an atom to drop if implied by the other; None otherwise."""
    if a.kind == "eq0" and b.kind == "eq0":
        d = (a.args[0] - b.args[0]).const()
        s = (a.args[0] + b.args[0]).const()
        if (d is not None and d != 0) or (s is not None and s != 0):
            return 0
        return None
    if a.kind == "neg" and b.kind == "neg":
        d = (a.args[0] - b.args[0]).const()
        if d is not None:
            return b if d > 0 else a     # larger argument is the stronger claim
        s = (a.args[0] + b.args[0]).const()
        if s is not None and s >= 0:
            return 0
        return None
    if a.kind == "neg" and b.kind == "eq0":
        a, b = b, a
    if a.kind == "eq0" and b.kind == "neg":
        for sgn in (1, -1):
            d = (b.args[0] - a.args[0] * const(sgn)).const()
            if d is not None:
                return b if d < 0 else 0
        return None
    if a.kind == "isnone" and b.kind == "truthy" and a.args[0] == b.args[0]:
        return 0
    if b.kind == "isnone" and a.kind == "truthy" and a.args[0] == b.args[0]:
        return 0
    if a.kind == b.kind == "same" and len({a.args[0], a.args[1], b.args[0], b.args[1]}) == 3:
        # x is c1 and x is c2 for distinct literals
        xs = [x for x in (a.args[0], a.args[1]) if x in (b.args[0], b.args[1])]
        others = [x for x in (a.args[0], a.args[1], b.args[0], b.args[1]) if x not in xs]
        if len(others) == 2 and all(is_literal(x) for x in others):
            return 0
    return None


LITERAL = {"str", "none", "mod", "cls"}


def is_literal(p):
    if p.const() is not None:
        return True
    a = p.atom()
    return a is not None and a.kind in LITERAL


NONNEG_IDX = True
POSITIVE_SYMS = set()
SUPPLIED = set()                # opaque objects known not to be None      # keys of symbols known >= 1


def bound_sign(p):
    """Sign facts for polynomials in loop indices (>=0) and size symbols (>=1).

    returns (definitely >= 0, definitely > 0, definitely < 0)."""
    lo = Fr(0)
    for m, c in p.t.items():
        if not m:
            lo += c
            continue
        ok = all((a.kind == "idx" or a.kind == "nonneg" or a.key in POSITIVE_SYMS or a.kind == "len") and e > 0 for a, e in m)
        if not ok:
            return (False, False, False)
        if c > 0:
            if all(a.key in POSITIVE_SYMS for a, _ in m):
                lo += c
        else:
            return (False, False, False)
    return (lo >= 0, lo > 0, False)


BINDER_HI: dict = {}       # idx atom key -> exclusive upper bound (P)


def nonneg(p):
    if bound_sign(p)[0]:
        return True
    # use upper bounds: replace each negatively occurring idx by hi-1
    q = p
    for _ in range(4):
        hit = False
        for m, c in list(q.t.items()):
            if c < 0 and len(m) == 1 and m[0][0].kind == "idx" and m[0][1] == 1:
                a = m[0][0]
                hi = BINDER_HI.get(a.key)
                if hi is not None and a.key not in hi.free:
                    q = q + P({((a, 1),): -c}) + (hi - ONE) * const(c)
                    hit = True
        if not hit:
            return False
        if bound_sign(q)[0]:
            return True
    return False


def eq0(p) -> P:
    """[p == 0]"""
    c = p.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    if nonneg(p - ONE) or nonneg(-p - ONE):
        return ZERO
    b = top_bool(p)
    if b is not None:
        x1, x0 = cofactors(p, b)
        return b.P() * eq0(x1) + (ONE - b.P()) * eq0(x0)
    if off_lattice(p):
        return ZERO
    lead = min(p.t.items(), key=lambda mc: tuple((a.key, e) for a, e in mc[0]))
    p = p * const(1 / lead[1])
    return Atom("eq0", p).P()


def off_lattice(p):
    """Integer combination of integers plus a constant that is no multiple of the coefficients' gcd."""
    c0, den, cs = Fr(0), 1, []
    for m, c in p.t.items():
        if not m:
            c0 = c
            continue
        for a, e in m:
            if e < 0 or not (a.kind in INT or a.key in INT_SYMS):
                return False
        cs.append(c)
    if not c0 or not cs:
        return False
    for c in cs:
        den = den * c.denominator // math.gcd(den, c.denominator)
    g = 0
    for c in cs:
        g = math.gcd(g, int(c * den))
    return (c0 * den / g).denominator != 1


def int_valued(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or not (a.kind in INT or a.key in INT_SYMS):
                return False
    return True


INT_SYMS = set()


def neg(p) -> P:
    """[p < 0]"""
    c = p.const()
    if c is not None:
        return ONE if c < 0 else ZERO
    if nonneg(p):
        return ZERO
    if nonneg(-p - ONE):
        return ONE
    b = top_bool(p)
    if b is not None:
        x1, x0 = cofactors(p, b)
        return b.P() * neg(x1) + (ONE - b.P()) * neg(x0)
    if int_valued(p):
        # idx/size >= bound: [n-1 < 0] == [n == 0] for n >= 0
        if nonneg(p + ONE):
            return eq0(p + ONE)
        if nonneg(-p):
            return ONE - eq0(p)
    lead = min(p.t.items(), key=lambda mc: tuple((a.key, e) for a, e in mc[0]))
    p = p * const(1 / abs(lead[1]))
    # [p<0] with p integer and its complement [-p-1 < 0] share one atom
    if int_valued(p):
        q = -p - ONE
        if lead[1] < 0:
            return ONE - Atom("neg", q).P()
    elif lead[1] < 0:
        # real: [p<0] = 1-[-p<0]-[p==0]; keep as own atom
        return Atom("neg", p).P()
    return Atom("neg", p).P()


def is_bool(p):
    """Is p a 0/1 valued polynomial of boolean atoms?"""
    return all(all(a.isbool for a, _ in m) for m in p.t)


def top_bool(p):
    """A boolean atom gating p at top level (smallest key), if any."""
    best = None
    for m in p.t:
        for a, _ in m:
            if a.isbool and (best is None or a.key < best.key):
                best = a
    return best


def cofactors(p, b):
    """(p with b=1, p with b=0)."""
    x1, x0 = {}, {}
    for m, c in p.t.items():
        r = tuple(x for x in m if x[0] is not b)
        if len(r) != len(m):
            n = x1.get(r, 0) + c
            if n:
                x1[r] = n
            else:
                x1.pop(r, None)
        else:
            n = x1.get(m, 0) + c
            if n:
                x1[m] = n
            else:
                x1.pop(m, None)
            x0[m] = c
    return P(x1), P(x0)


def cases(p):
    """Partition p into [(guard, ungated value)] over its top-level booleans."""
    b = top_bool(p)
    if b is None:
        return [(ONE, p)]
    x1, x0 = cofactors(p, b)
    bp = b.P()
    out = []
    for g, v in cases(x1):
        gg = bp * g
        if gg.t:
            out.append((gg, subst_facts(v, b, True)))
    for g, v in cases(x0):
        gg = (ONE - bp) * g
        if gg.t:
            out.append((gg, v))
    # merge equal values
    acc: dict = {}
    order = []
    for g, v in out:
        if v in acc:
            acc[v] = acc[v] + g
        else:
            acc[v] = g
            order.append(v)
    return [(acc[v], v) for v in order]


def subst_facts(v, b, val):
    if b.kind == "eq0" and val:
        s = solve_linear(b.args[0])
        if s:
            return subst(v, {s[0]: s[1]})
    return v


def ite(g, a, b):
    if a is b or a == b:
        return a
    c = g.const()
    if c is not None:
        return a if c else b
    return g * a + (ONE - g) * b


# ---------------------------------------------------------------- substitution
def subst(x, mp, memo=None):
    """Simultaneous substitution {Atom: P} with re-normalisation."""
    if memo is None:
        memo = {}
    keys = frozenset(a.key for a in mp)
    idxonly = all(a.kind in ("idx", "phi") for a in mp)
    return _subst(x, mp, memo, keys, idxonly)


def _subst(p, mp, memo, keys, idxonly):
    if not p.t:
        return p
    if idxonly and not (p.free & keys):
        return p
    k = p.key
    r = memo.get(k)
    if r is not None:
        return r
    out: dict = {}
    slow = ZERO
    for m, c in p.t.items():
        term = None
        same = True
        parts = []
        for a, e in m:
            q = _subst_atom(a, mp, memo, keys, idxonly)
            if q is None:
                parts.append((a, e, None))
            else:
                same = False
                parts.append((a, e, q))
        if same:
            out[m] = out.get(m, 0) + c
            if not out[m]:
                del out[m]
            continue
        keep = tuple((a, e) for a, e, q in parts if q is None)
        term = P({keep: c})
        for a, e, q in parts:
            if q is not None:
                term = term * (q ** e if e != 1 else q)
        slow = slow + term
    res = P(out) + slow
    memo[k] = res
    return res


def _subst_atom(a, mp, memo, keys, idxonly):
    """New value of an atom or None if unchanged."""
    if a in mp:
        return mp[a]
    if idxonly and not (a.free & keys):
        return None
    ck = ("A", a.key)
    if ck in memo:
        return memo[ck]
    changed = False

    def go(x):
        nonlocal changed
        if isinstance(x, P):
            y = _subst(x, mp, memo, keys, idxonly)
            if y is not x and y != x:
                changed = True
            return y
        if isinstance(x, Atom):
            y = _subst_atom(x, mp, memo, keys, idxonly)
            if y is None:
                return x
            changed = True
            b = y.atom()
            return b if b is not None else y
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x

    if a.kind == "sum":
        r = _subst_sum(a, mp, memo, keys, idxonly)
    elif a.kind in BINDERS:
        args = tuple(go(x) for x in a.args)
        if not changed:
            r = None
        else:
            ix, payload = unbind(a)
            payload = subst_any(payload, mp)
            r = bind(a.kind, ix, payload).P()
    else:
        args = tuple(go(x) for x in a.args)
        r = None if not changed else rebuild(a.kind, args)
    memo[ck] = r
    return r


def subst_any(x, mp, memo=None):
    """Substitution through nested tuples."""
    if memo is None:
        memo = {}
    keys = frozenset(a.key for a in mp)
    idxonly = all(a.kind in ("idx", "phi") for a in mp)

    def go(v):
        if isinstance(v, P):
            return _subst(v, mp, memo, keys, idxonly)
        if isinstance(v, Atom):
            r = _subst_atom(v, mp, memo, keys, idxonly)
            if r is None:
                return v
            b = r.atom()
            return b if b is not None else r
        if isinstance(v, tuple):
            return tuple(go(y) for y in v)
        return v

    return go(x)


def level_any(x):
    if isinstance(x, (P, Atom)):
        return x.level
    if isinstance(x, tuple):
        return max((level_any(y) for y in x), default=0)
    return 0


def free_any(x):
    if isinstance(x, (P, Atom)):
        return x.free
    if isinstance(x, tuple):
        r = frozenset()
        for y in x:
            r |= free_any(y)
        return r
    return frozenset()


def bind(kind, idxs, payload):
    """Atom of a binding kind: args (number bound, payload, level)."""
    lvl = level_any(payload) + 1
    mp = {x: Atom("bv", lvl, i).P() for i, x in enumerate(idxs)}
    return Atom(kind, len(idxs), _rename(payload, mp), lvl)


def unbind(a, his=None):
    n, payload, lvl = a.args
    xs = [fresh_idx() for _ in range(n)]
    mp = {Atom("bv", lvl, i): x.P() for i, x in enumerate(xs)}
    return xs, _rename(payload, mp)


def _rename(payload, mp):
    """Variable renaming; unlike substitution it may enter binders of lower level."""
    memo = {}
    keys = frozenset(a.key for a in mp)
    idxonly = all(a.kind == "idx" for a in mp)

    def go(v):
        if isinstance(v, P):
            return _subst(v, mp, memo, keys, idxonly)
        if isinstance(v, Atom):
            r = _subst_atom(v, mp, memo, keys, idxonly)
            return v if r is None else (r.atom() or r)
        if isinstance(v, tuple):
            return tuple(go(y) for y in v)
        return v

    return go(payload)


def rebuild(kind, args):
    f = CONSTRUCT.get(kind)
    if f is not None:
        return f(*args)
    return Atom(kind, *args).P()


CONSTRUCT["eq0"] = lambda p: eq0(p)
CONSTRUCT["neg"] = lambda p: neg(p)
CONSTRUCT["inv"] = lambda p: p.inv()
BOOL |= {"eq0", "neg", "bsym", "isnone", "truthy", "same", "sig", "isinst", "bopq", "nonempty"}
INT |= {"idx", "len", "isym", "bv", "nonneg"} | BOOL


# ---------------------------------------------------------------- sums
_fresh = itertools.count()


def fresh_idx(hi=None, tag="i"):
    a = Atom("idx", f"{tag}{next(_fresh)}")
    if hi is not None:
        BINDER_HI[a.key] = hi
    return a


def open_sum(a):
    """-> ([(idx, hi)], body P) with fresh indices."""
    his, body, lvl = a.args
    bs = []
    mp = {}
    for i, h in enumerate(his):
        x = fresh_idx()
        mp[Atom("bv", lvl, i)] = x.P()
    out = []
    for i, h in enumerate(his):
        h2 = _subst(h, mp, {}, frozenset(), False)
        x = mp[Atom("bv", lvl, i)].atom()
        BINDER_HI[x.key] = h2
        out.append((x, h2))
    b2 = _subst(body, mp, {}, frozenset(), False)
    return out, b2


def _subst_sum(a, mp, memo, keys, idxonly):
    his, body, lvl = a.args
    memo2 = memo
    nb = _subst(body, mp, memo2, keys, idxonly)
    nh = tuple(_subst(h, mp, memo2, keys, idxonly) for h in his)
    if nb == body and nh == his:
        return None
    # reopen under fresh binders to avoid capture, substitute, close again
    bs, b = open_sum(a)
    b = _subst(b, mp, {}, keys, idxonly)
    bs = [(x, _subst(h, mp, {}, keys, idxonly)) for x, h in bs]
    for x, h in bs:
        BINDER_HI[x.key] = h
    return close_sum(bs, b)


def in_range(e, hi):
    """[0 <= e < hi] as a boolean P."""
    return (ONE - neg(e)) * neg(e - hi)


def close_sum(binders, poly):
    """Sum of poly over all binders [(idx, hi)], in canonical form."""
    if not poly.t:
        return ZERO
    if not binders:
        return poly
    total: dict = {}
    slow = ZERO
    for m, c in poly.t.items():
        r = _close_mono(list(binders), m)
        for mm, k in r.t.items():
            n = total.get(mm, 0) + k * c
            if n:
                total[mm] = n
            else:
                total.pop(mm, None)
    return P(total)


def _close_mono(binders, m):
    # pull inner sums that depend on the binders into one multi-binder sum
    bkeys = {x.key for x, _ in binders}
    # 0. guards decided by the ranges of the binders
    gs = [b for b, _ in m if b.kind in ("neg", "eq0") and (b.free & bkeys)]
    if gs:
        saved = {x.key: BINDER_HI.get(x.key) for x, _ in binders}
        for x, h in binders:
            BINDER_HI[x.key] = h
        try:
            for b in gs:
                v = CONSTRUCT[b.kind](*b.args)
                if v != b.P():
                    if not v.t:
                        return ZERO
                    return close_sum(binders, mono_P(tuple(z for z in m if z[0] is not b)) * v)
        finally:
            for x, h in saved.items():
                if h is None:
                    BINDER_HI.pop(x, None)
                else:
                    BINDER_HI[x] = h
        # a bound on an index restricts its range
        for b in gs:
            if b.kind == "neg" and len([1 for x in binders if x[0].key in b.free]) == 1:
                (x, h), = [z for z in binders if z[0].key in b.free]
                cf = b.args[0].t.get(((x, 1),))
                rest = b.args[0] - P({((x, 1),): cf}) if cf else None
                if cf == 1 and x.key not in rest.free and nonneg(-rest) and nonneg(h + rest):
                    return close_sum([(y, -rest if y is x else k) for y, k in binders], mono_P(tuple(z for z in m if z[0] is not b)))
    # 1. delta collapse
    for b, _ in m:
        if b.kind == "eq0" and (b.free & bkeys):
            s = solve_linear(b.args[0], bkeys)
            if s is not None and s[0].key in bkeys:
                a, v = s
                hi = next(h for x, h in binders if x is a)
                rest = tuple((x, e) for x, e in m if x is not b)
                g = in_range(v, hi)
                nb = [(x, subst(h, {a: v})) for x, h in binders if x is not a]
                body = subst(mono_P(rest), {a: v}) * g
                return close_sum(nb, body)
    for sa, e in m:
        if sa.kind == "sum" and (sa.free & bkeys):
            bs, body = open_sum(sa)
            rest = tuple((x, k) for x, k in m if x is not sa)
            body = body * mono_P(rest)
            if e > 1:
                body = body * P({((sa, e - 1),): Fr(1)})
            return close_sum(binders + bs, body)
    # 2. split factors
    out, dep = [], []
    used = set()
    for a, e in m:
        if a.free & bkeys:
            dep.append((a, e))
            used |= a.free & bkeys
        else:
            out.append((a, e))
    # binder ranges depending on other binders keep those alive
    changed = True
    while changed:
        changed = False
        for x, h in binders:
            if x.key in used:
                ex = (h.free & bkeys) - used
                if ex:
                    used |= ex
                    changed = True
    r = mono_P(tuple(out))
    live = [(x, h) for x, h in binders if x.key in used]
    dead = [(x, h) for x, h in binders if x.key not in used]
    if not live:
        for x, h in dead:
            r = r * h
        return r
    for x, h in dead:
        if h.free & bkeys:
            return r * close_sum(live, mono_P(tuple(dep)) * h)
        r = r * h
    # constant trip counts are expanded
    for i, (x, h) in enumerate(live):
        n = as_int(h)
        if n is not None and n <= 64:
            rest = live[:i] + live[i + 1:]
            acc = ZERO
            for v in range(n):
                mp = {x: const(v)}
                acc = acc + close_sum([(y, subst(hh, mp)) for y, hh in rest], subst(mono_P(tuple(dep)), mp))
            return r * acc
    # 3. canonical shift of the range: no integer constant in the bound
    for i, (x, h) in enumerate(live):
        c = h.t.get((), Fr(0))
        if c and c.denominator == 1:
            # range [0,h) -> x = x' + c, x' in [-c, h-c)
            c = int(c)
            if abs(c) > 8:
                break
            h2 = h - const(c)
            y = fresh_idx(h2)
            body = mono_P(tuple(dep))
            rest = live[:i] + live[i + 1:]
            acc = close_sum([(z, subst(hh, {x: y.P() + const(c)})) for z, hh in rest] + [(y, h2)],
                            subst(body, {x: y.P() + const(c)}))
            if c > 0:      # x' in [-c,0) extra
                extra = range(-c, 0)
                sgn = 1
            else:          # x' in [0,-c) missing
                extra = range(0, -c)
                sgn = -1
            for v in extra:
                mp = {x: const(v + c)}
                acc = acc + const(sgn) * close_sum([(z, subst(hh, mp)) for z, hh in rest], subst(body, mp))
            return r * acc
    return r * _canon_sum(live, mono_P(tuple(dep)))


def _canon_sum(live, body):
    lvl = body.level + 1
    for _, h in live:
        lvl = max(lvl, h.level + 1)
    n = len(live)
    idx = [x for x, _ in live]

    def build(order):
        mp = {idx[o]: Atom("bv", lvl, i).P() for i, o in enumerate(order)}
        his = tuple(_subst(live[o][1], mp, {}, frozenset(a.key for a in mp), True) for o in order)
        b = _subst(body, mp, {}, frozenset(a.key for a in mp), True)
        return his, b

    if n == 1:
        orders = [(0,)]
    else:
        g = Atom("bv", "g", 0).P()
        s = Atom("bv", "s", 0).P()
        sig = []
        for i in range(n):
            mp = {idx[j]: (s if j == i else g) for j in range(n)}
            ks = frozenset(a.key for a in mp)
            b = _subst(body, mp, {}, ks, True)
            sig.append((_subst(live[i][1], mp, {}, ks, True).key, b.key))
        base = sorted(range(n), key=lambda i: sig[i])
        groups = [list(gp) for _, gp in itertools.groupby(base, key=lambda i: sig[i])]
        orders = [tuple(itertools.chain(*c)) for c in itertools.product(*[itertools.permutations(gp) for gp in groups])]
        if len(orders) > 720:
            orders = orders[:720]
    best = None
    for o in orders:
        his, b = build(o)
        k = (tuple(h.key for h in his), b.key)
        if best is None or k < best[0]:
            best = (k, his, b)
    _, his, b = best
    # body may have been renormalised into several monomials
    if len(b.t) == 1:
        (m, c), = b.t.items()
        return P({((Atom("sum", his, mono_P(m), lvl), 1),): c})
    r = ZERO
    for m, c in b.t.items():
        r = r + P({((Atom("sum", his, mono_P(m), lvl), 1),): c})
    return r


def mksum(idx, lo, hi, poly):
    """Sum_{idx=lo}^{hi-1} poly."""
    n = as_int(hi - lo)
    if n is not None:
        r = ZERO
        for v in range(max(n, 0)):
            r = r + subst(poly, {idx: lo + const(v)})
        return r
    if lo.t:
        y = fresh_idx(hi - lo)
        c = as_int(lo)
        if c is not None:
            # keep the bound's own origin: sum_0^hi minus/plus the difference
            z = fresh_idx(hi)
            r = close_sum([(z, hi)], subst(poly, {idx: z.P()}))
            rng = range(0, c) if c > 0 else range(c, 0)
            for v in rng:
                r = r + const(-1 if c > 0 else 1) * subst(poly, {idx: const(v)})
            return r
        return close_sum([(y, hi - lo)], subst(poly, {idx: y.P() + lo}))
    return close_sum([(idx, hi)], poly)


def _sum_sort(a):
    (m,) = a.args[1].t
    return mono_sort(m)


SORT["sum"] = _sum_sort


def mono_sort(m):
    best = "num"
    for a, _ in m:
        s = a.sort
        if s in ("cvec", "vfield", "obj", "mat"):
            return s
        if s in ("field", "meas"):
            best = "field" if best != "meas" else best
            if s == "meas":
                best = "meas"
    return best


def sort_of(p):
    s = {mono_sort(m) for m in p.t}
    if not s:
        return "num"
    for k in ("obj", "mat", "cvec", "vfield", "meas", "field"):
        if k in s:
            return k
    return "num"


# ---------------------------------------------------------------- traversal
def atoms_of(x, seen=None, deep=True):
    """All atoms occurring (deeply) in a value."""
    if seen is None:
        seen = {}
    stack = [x]
    while stack:
        v = stack.pop()
        if isinstance(v, P):
            for m in v.t:
                for a, _ in m:
                    if a.key not in seen:
                        seen[a.key] = a
                        if deep:
                            stack.extend(a.args)
        elif isinstance(v, Atom):
            if v.key not in seen:
                seen[v.key] = v
                if deep:
                    stack.extend(v.args)
        elif isinstance(v, tuple):
            stack.extend(v)
    return list(seen.values())


def linmap(p, pred, fn):
    """Apply a linear map to p: each monomial must hold exactly one atom with
    pred(atom) (possibly inside one sum atom); fn(atom)->P replaces it."""
    r = ZERO
    for m, c in p.t.items():
        r = r + const(c) * _linmono(m, pred, fn)
    return r


def _linmono(m, pred, fn):
    hit = None
    for a, e in m:
        if pred(a) or (a.kind == "sum" and pred_sum(a, pred)):
            if hit is not None or e != 1:
                return None_linear(m)
            hit = a
    if hit is None:
        return None_linear(m)
    rest = mono_P(tuple(x for x in m if x[0] is not hit))
    if hit.kind == "sum":
        bs, body = open_sum(hit)
        return rest * close_sum(bs, linmap(body, pred, fn))
    return rest * fn(hit)


def pred_sum(a, pred):
    (m,) = a.args[1].t
    return any(pred(x) or (x.kind == "sum" and pred_sum(x, pred)) for x, _ in m)


def None_linear(m):
    raise Unsupported("expression is not linear where linearity is needed: " + show(mono_P(m))[:160])


# ---------------------------------------------------------------- display
SHOW = {}


def show(p, limit=2000):
    if not isinstance(p, P):
        return str(p)
    if not p.t:
        return "0"
    parts = []
    for m, c in sorted(p.t.items(), key=lambda mc: tuple((a.key, e) for a, e in mc[0])):
        s = "*".join(show_atom(a) + (f"^{e}" if e != 1 else "") for a, e in m)
        if not m:
            s = str(c)
        elif c == 1:
            pass
        elif c == -1:
            s = "-" + s
        else:
            s = f"{c}*{s}"
        parts.append(s)
        if sum(map(len, parts)) > limit:
            parts.append("...")
            break
    return " + ".join(parts).replace("+ -", "- ")


def show_atom(a):
    f = SHOW.get(a.kind)
    if f is not None:
        return f(*a.args)
    return a.kind + "(" + ", ".join(_sh(x) for x in a.args) + ")"


def _sh(x):
    if isinstance(x, P):
        return show(x, 300)
    if isinstance(x, Atom):
        return show_atom(x)
    if isinstance(x, tuple):
        return "(" + ", ".join(_sh(y) for y in x) + ")"
    return str(x)


SHOW["sym"] = lambda n: n
SHOW["isym"] = lambda n: n
SHOW["bsym"] = lambda n: f"[{n}]"
SHOW["osym"] = lambda n: n
SHOW["idx"] = lambda n: n
SHOW["str"] = lambda s: repr(s)
SHOW["none"] = lambda: "None"
SHOW["eq0"] = lambda p: f"[{show(p)}==0]"
SHOW["neg"] = lambda p: f"[{show(p)}<0]"
SHOW["bv"] = lambda l, i: f"i{l}{i}"
SHOW["inv"] = lambda p: f"1/({show(p)})"
SHOW["sqrt"] = lambda p: f"sqrt({show(p)})"
SHOW["sum"] = lambda his, body, lvl: "Sum{" + ",".join(f"i{lvl}{i}<{show(h)}" for i, h in enumerate(his)) + "}(" + show(body) + ")"
