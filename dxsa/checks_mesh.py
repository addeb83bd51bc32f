"""C40-C46: mesh generators.  Every generator is abstractly interpreted with symbolic
arguments, rank and library version; library calls are kept as an ordered event trace with
path conditions and loop bodies, on which the rules below are decided."""
from __future__ import annotations

import inspect
import re
from fractions import Fraction as F

from . import fem as FE
from . import term as T
from .checks_time import numeric
from .interp import NONE, S, seq_index, seq_segs, seqlen, strval
from .run import Analysis, package_sources
from .term import ONE, ZERO, P, Unsupported, as_int, cases, const, fresh_idx

M = "dxss.meshes"
SRC = "src/dxss/meshes.py"
RANK = T.sym("mpi_rank", "isym")
VERSIONS = {"0.6.0": 6000, "0.7.0": 7000, "0.7.3": 7003}


def vnum(s):
    m = re.match(r"(\d+)(?:\.(\d+))?(?:\.(\d+))?(.*)$", s)
    if not m:
        raise Unsupported("version string " + s)
    v = int(m[1]) * 10 ** 6 + int(m[2] or 0) * 1000 + int(m[3] or 0)
    return F(v) - (F(1, 2) if re.search(r"dev|rc|a\d|b\d", m[4]) else 0)


# ------------------------------------------------------------------ running a generator
def generators():
    """Public top-level functions of the module: name -> list of (parameter, default P or None)."""
    import ast
    src = package_sources()
    if M not in src:
        return {}
    out = {}
    for n in src[M][1].body:
        if isinstance(n, ast.FunctionDef) and not n.name.startswith("_"):
            a = n.args
            ps = a.posonlyargs + a.args
            ds = [None] * (len(ps) - len(a.defaults)) + list(a.defaults)
            out[n.name] = ([(p.arg, d) for p, d in zip(ps, ds)] + [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults)], len(ps), n.lineno)
    return out


SCALAR_EXT = {".max", ".min", ".sum", "numpy.max", "numpy.min", "numpy.sum", "numpy.amax", "numpy.amin", "numpy.size", "len"}


def arraylike(p):
    """p is an array computed from the generated nodes."""
    for mo in p.t:
        for a, _ in mo:
            if a.kind == "seq" or (a.kind == "ext" and a.args[0] not in SCALAR_EXT and (a.args[0].split(".")[-1] in ("argsort", "sort", "arange", "array", "asarray", "sorted", "astype", "copy", "diff", "unique"))):
                return True
            if a.kind == "item" and isinstance(a.args[0], P) and isinstance(a.args[1], P):
                if is_tags(a.P()) or (arraylike(a.args[0]) and arraylike(a.args[1])):
                    return True
                if arraylike(a.args[0]) and a.args[1].atom() is not None and a.args[1].atom().kind == "slice":
                    return True
    return False


def entity_pair(a):
    """An entity listed by gmsh.model.getEntities(dim=d) is a pair whose first element is d."""
    if not (isinstance(a.args[1], P) and a.args[1].const() == 0 and isinstance(a.args[0], P)):
        return None
    e = a.args[0].atom()
    if e is None or e.kind != "item" or not isinstance(e.args[0], P):
        return None
    d = entities_dim(e.args[0])
    return None if d is None or d < 0 else const(d)


T.ITEM_HOOK = entity_pair


class MeshLib(FE.FemLib):
    """Comparison of node arrays is elementwise."""

    def compare(self, op, a, b, st, node):
        try:
            x, y = self.deref_soft(a, st), self.deref_soft(b, st)
        except Unsupported:
            x, y = a, b
        if isinstance(x, P) and isinstance(y, P) and (arraylike(x) or arraylike(y)) and "getNodes" in T.show(x) + T.show(y):
            n = type(op).__name__
            if n in ("Gt", "GtE"):
                n, x, y = {"Gt": "Lt", "GtE": "LtE"}[n], y, x
            if n in ("Eq", "NotEq"):
                x, y = sorted((x, y), key=lambda p: p.key)
            return T.Atom("elementwise", n, x, y).P()
        return super().compare(op, a, b, st, node)


class Run:
    def __init__(self, name, conc=None, after=None):
        """Interpret generator `name`; conc: parameter -> number (others symbolic, `default` keeps the default);
        after: an earlier run in whose state this one is made."""
        import ast
        self.name = name
        self.A = A = Analysis(package_sources(), MeshLib()) if after is None else after.A
        if after is not None:
            A.st.pc, A.st.pcs = ONE, ()
            A.I.ctx.append("second-call")
        f = A.get(M, name)
        params, npos, line = generators()[name]
        self.params = {}
        args, kw = [], {}
        conc = conc or {}
        for k, (p, d) in enumerate(params):
            v = conc.get(p, conc.get("*"))
            if v == "default":
                if d is not None:
                    if k < npos and len(args) == k:
                        continue_kw = False
                    self.params[p] = None
                    continue
                v = None
            if v is None and isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call)):
                self.params[p] = None
                continue
            if v is None:
                v = T.sym("p_" + p, "isym" if p in ("n_ref", "order", "n") else "sym")
                if p in ("n_ref",) or p.startswith(("h_init", "init_h")):
                    T.POSITIVE_SYMS.add(v.atom().key) if p != "n_ref" else None
            else:
                v = const(v)
            self.params[p] = v
            kw[p] = v
        n0 = len(A.st.ev)
        self.ret = A.call(f, **kw)
        if after is not None:
            A.I.ctx.pop()
        self.st = A.st
        self.ev = A.st.ev[n0:]
        self.where = f"{SRC}::{name}"

    def flat(self, ev=None, pre=ONE, loops=()):
        """Events with their full path condition, in order, loop bodies once: (ev, guard, loops)."""
        for e in self.ev if ev is None else ev:
            g = pre * e.guard
            yield e, g, loops
            if e.body:
                yield from self.flat(e.body, g, loops + (e,))


def path(e):
    return strval(e.data[0]) if e.kind == "call" else None


def args_of(e):
    return list(e.data[1].atom().args), {strval(k.atom().args[0]): k.atom().args[1] for k in e.data[2].atom().args}


def arg(e, k, name, default=None):
    a, kw = args_of(e)
    if k is not None and k < len(a):
        return a[k]
    return kw.get(name, default)


def norm_path(p):
    """Library aliases: gmsh snake_case spellings, dolfinx.io.gmshio vs dolfinx.io."""
    if p is None:
        return None
    if p.startswith("gmsh."):
        q = p.split(".")
        q = [re.sub(r"_([a-z])", lambda m: m[1].upper(), x) for x in q]
        return ".".join(q)
    return p


def at_rank(p, r):
    return T.subst(p, {RANK.atom(): const(r)})


def fields(p):
    """Ext atoms inside a value."""
    return [a for a in T.atoms_of(p) if a.kind == "ext"]


# ------------------------------------------------------------------ C40
def c40_one(rep, name):
    r = Run(name)
    rep.saw({f"{M}.{name}"})
    n = 0
    for rank in (0, 1):
        opened = session(rep, r, r.ev, rank, ONE, ZERO, name)
        if opened is None:
            return
        opened, k = opened
        n += k
        left = opened * at_rank(r.st.pc, rank)
        key = f"{name}:rank{min(rank, 1)}:closed"
        if left.t:
            rep.bad(key, f"{name} returns with the mesh-generation session still open on {'the root process' if rank == 0 else 'processes other than the root'}", r.where)
        else:
            rep.ok(key)
    rep.check(n > 0 or not any(norm_path(path(e) or "").startswith("gmsh.") for e, _, _ in r.flat()), f"{name}:session", f"{name} uses the mesh generator without a session", r.where)


def session(rep, r, evs, rank, pre, opened, name):
    count = 0
    for e in evs:
        g = at_rank(pre * e.guard, rank)
        if not g.t:
            continue
        if e.body:
            inner = session(rep, r, e.body, rank, g, opened, name)
            if inner is None:
                return None
            o2, k = inner
            count += k
            if k and o2 != opened:
                rep.bad(f"{name}:rank{rank}:loop", f"{name}: repeated step leaves the session state changed", r.where)
                return None
            continue
        p = norm_path(path(e))
        if p is None:
            continue
        key = f"{name}:rank{rank}:"
        if p == "gmsh.initialize":
            count += 1
            if (opened * g).t:
                rep.bad(key + "reopen", f"{name} starts a session while one is open", r.where + f":{line(e)}")
                return None
            opened = opened + g - opened * g
        elif p == "gmsh.finalize":
            count += 1
            if (g - g * opened).t:
                rep.bad(key + "double-close", f"{name} ends a session that is not open on {'the root process' if rank == 0 else 'a process other than the root'}", r.where + f":{line(e)}")
                return None
            opened = opened - opened * g
        elif p.startswith("gmsh.") and p not in ("gmsh.isInitialized",) or p.endswith(("gmshio.model_to_mesh", "io.extract_gmsh_geometry", "gmshio.extract_geometry", "gmshio.extract_topology_and_markers")):
            if (g - g * opened).t:
                rep.bad(key + "use:" + p, f"{name} uses the session ({p}) while it is not open", r.where + f":{line(e)}")
                return None
            rep.ok(key + f"use:{p}:{line(e)}")
    return opened, count


def line(e):
    w = getattr(e, "where", None)
    return getattr(w, "lineno", None) or (w if isinstance(w, int) else str(w).split(":")[-1])


def uses_gmsh(name):
    try:
        r = Run(name, {"n_ref": 1})
    except Exception:
        return True
    return any((norm_path(path(e)) or "").startswith("gmsh.") or (path(e) or "").endswith("model_to_mesh") for e, _, _ in r.flat())


def anchored(rep, names, what):
    if not names:
        rep.undecided(what, "no mesh generator found in " + SRC)
    return names


def c40(rep):
    rep.pmap([(f"{n}", c40_n, (n,)) for n in anchored(rep, list(generators()), "generators")])


def helper(name):
    """A function other functions of the module call and that does not both open and close the session: judged in its callers."""
    import ast
    src = package_sources()[M][1]
    called = any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)
                 for f in src.body if getattr(f, "name", None) != name for n in ast.walk(f))
    if not called:
        return False
    try:
        r = Run(name, {"n_ref": 1})
    except Exception:
        return False
    seen = {norm_path(path(e)) for e, _, _ in r.flat()}
    return not {"gmsh.initialize", "gmsh.finalize"} <= seen


def c40_n(rep, name):
    if not uses_gmsh(name) or helper(name):
        return
    ps = [p for p, _ in generators()[name][0]]
    if "n_ref" in ps and needs_concrete(name):
        for n in (0, 1, 2, 3):
            c40_conc(rep, name, n)
        return
    c40_one(rep, name)


def c40_conc(rep, name, n):
    r = Run(name, {"n_ref": n})
    rep.saw({f"{M}.{name}"})
    for rank in (0, 1):
        o = session(rep, r, r.ev, rank, ONE, ZERO, name)
        if o is None:
            return
        left = o[0] * at_rank(r.st.pc, rank)
        rep.check(not left.t, f"{name}:n{n}:rank{rank}:closed", f"{name} returns with the mesh-generation session still open", r.where)


def needs_concrete(name):
    """Families that run a whole generator per level are followed level by level."""
    try:
        Run(name)
        return False
    except Unsupported:
        return True


# ------------------------------------------------------------------ C41
def size_param(name):
    ps = [p for p, _ in generators()[name][0]]
    c = [p for p in ps if "h_" in p or p.endswith("_h") or "scale" in p or p == "h"]
    return c[0] if len(c) == 1 else None


def list_items(r, v):
    a = v.atom()
    if a is not None and a.kind == "ref" and a.args[0] == "list":
        v = r.A.I.items(a, r.st)
    return v


def at_version(p, ver):
    mp = {}
    for a in T.atoms_of(p):
        if a.kind != "ext":
            continue
        nm = a.args[0]
        if nm in ("packaging.version.Version", "packaging.version.parse"):
            x = a.args[1][0]
            s = strval(x)
            if s is not None:
                mp[a] = const(vnum(s))
            else:
                t = T.show(x)
                if "fenics-dolfinx" in t or "dolfinx.__version__" in t:
                    mp[a] = const(VERSIONS[ver])
    return T.subst(p, mp) if mp else p


def c41_n(rep, name):
    ps = [p for p, _ in generators()[name][0]]
    if "n_ref" in ps:
        kinds = set()
        for n in (0, 1, 2, 3):
            kinds.add(c41_levels(rep, name, n))
        if None not in kinds and not needs_concrete(name):
            c41_symbolic(rep, name)
        if None in kinds:
            return
    c41_size(rep, name, ps)


def is_refine(v):
    a = v.atom()
    if a is not None and a.kind == "ext" and a.args[0] in ("dolfinx.mesh.refine", "dolfinx.mesh.refine_plaza"):
        return a
    return None


def mesh_events(r):
    return [(e, g, l) for e, g, l in r.flat() if e.kind == "call"]


def c41_levels(rep, name, n):
    """Returned list for a concrete number of refinements."""
    r = Run(name, {"n_ref": n})
    rep.saw({f"{M}.{name}"})
    v = at_rank(list_items(r, r.ret), 0)
    if v.atom() is None or v.atom().kind != "seq":
        raise Unsupported(f"returned value of {name}")
    k = as_int(seqlen(v))
    if k is None:
        raise Unsupported(f"number of meshes returned by {name}")
    items = [seq_index(v, const(j)) for j in range(k)]
    refined = any(path(e) in ("dolfinx.mesh.refine",) for e, _, _ in mesh_events(r))
    hierarchy = "hierarchy" in name or refined or "data_all_around" in name
    want = n + 1 if hierarchy else n
    key = f"{name}:n{n}:"
    if not rep.check(k == want, key + "levels", f"{name}({n}, ...) returns {k} meshes, not {want}", r.where):
        return None
    if n == 2:
        v2 = list_items(r2 := Run(name, {"n_ref": n}, after=r), r2.ret)
        v2 = at_rank(v2, 0)
        k2 = as_int(seqlen(v2)) if v2.atom() is not None and v2.atom().kind == "seq" else None
        if k2 is None:
            raise Unsupported(f"second call of {name}")
        rep.check(k2 == want, key + "levels-again", f"a second call of {name}({n}, ...) returns {k2} meshes, not {want}", r.where)
        rep.check(r2.ret != r.ret or r.ret.atom() is None, key + "own-list", f"a second call of {name} returns the list of the first call again", r.where)
    if not hierarchy:
        return "family"
    for ver in VERSIONS:
        its = [at_version(x, ver) for x in items]
        for j in range(1, k):
            if not refinement_step(rep, r, name, key + f"{ver}:step{j}", its[j - 1], its[j], ver):
                return None
    if items:
        rep.check(is_refine(items[0]) is None, key + "coarsest", f"{name} does not start the hierarchy with the generated mesh", r.where)
    return "hierarchy"


def refinement_step(rep, r, name, key, coarse, fine, ver):
    a = is_refine(fine)
    if a is None:
        rep.bad(key, f"{name}: level is {T.show(fine)[:100]}, not a refinement of the previous level", r.where)
        return False
    pos, kw = a.args[1], dict((k if isinstance(k, str) else strval(k), v) for k, v in a.args[2])
    src = pos[0] if pos else kw.get("mesh")
    if src != coarse:
        rep.bad(key, f"{name}: level refines {T.show(src)[:80]}, not the previous level {T.show(coarse)[:80]}", r.where)
        return False
    edges = pos[1] if len(pos) > 1 else kw.get("edges")
    if edges is not None and edges.atom() is not None and edges.atom().kind != "none":
        if not full_edges(rep, r, name, key, coarse, edges, ver):
            return False
    # entities the refinement needs
    topo = T.Atom("attr", coarse, "topology").P()
    seen = set()
    for e, g, _ in mesh_events(r):
        if path(e) == ".create_entities":
            aa, kk = args_of(e)
            if at_version(at_rank(aa[0], 0), ver) == topo and g.const() is not None:
                d = aa[1] if len(aa) > 1 else kk.get("dim")
                if d is not None and as_int(d) is not None:
                    seen.add(as_int(d))
        if path(e) == "dolfinx.mesh.refine":
            aa, kk = args_of(e)
            x = aa[0] if aa else kk.get("mesh")
            if at_version(at_rank(x, 0), ver) == coarse:
                break
    rep.check(1 in seen, key + ":edges", f"{name}: the edges of the mesh are not created before it is refined", r.where)
    return True


def full_edges(rep, r, name, key, mesh, edges, ver):
    """edges must be all edges of all cells of `mesh`."""
    b = edges.atom()
    if b is None or b.kind != "ext" or b.args[0] != "dolfinx.mesh.compute_incident_entities":
        raise Unsupported("edges handed to refine: " + T.show(edges)[:80])
    pos = list(b.args[1])
    if len(pos) < 4:
        raise Unsupported("keyword arguments of compute_incident_entities")
    obj, cells, d0, d1 = pos[:4]
    if obj not in (mesh, T.Atom("attr", mesh, "topology").P()):
        rep.bad(key + ":edges-of", f"{name}: the edges handed to the refinement belong to {T.show(obj)[:80]}", r.where)
        return False
    dims = dim_is(d0, mesh, 2) and as_int(d1) == 1
    if not rep.check(dims, key + ":dims", f"{name}: incident entities from dimension {T.show(d0)[:30]} to {T.show(d1)[:30]}; the edges of the cells are needed", r.where):
        return False
    c = cells.atom()
    if c is None or c.kind != "ext" or c.args[0] != "dolfinx.mesh.locate_entities":
        raise Unsupported("cells handed to compute_incident_entities: " + T.show(cells)[:80])
    m, d, marker = list(c.args[1])[:3]
    if m != mesh or not dim_is(d, mesh, 2):
        rep.bad(key + ":cells", f"{name}: the refined cells are located in {T.show(m)[:60]} at dimension {T.show(d)[:30]}", r.where)
        return False
    return everywhere(rep, r, name, key, marker)


def dim_is(d, mesh, k):
    if as_int(d) == k:
        return True
    return T.show(d) == T.show(T.Atom("attr", T.Atom("attr", mesh, "topology").P(), "dim").P())


def everywhere(rep, r, name, key, marker):
    """The cell marker must accept every point of the generated domain."""
    box = domain_box(r)
    x = T.Atom("osym", "pt").P()
    A = r.A
    if marker.atom() is not None and marker.atom().kind in ("func", "bound", "partial", "closure"):
        v = A.call(marker, x)
    else:
        raise Unsupported("cell marker " + T.show(marker)[:60])
    bad = []
    for pt in [(a, b, c) for a in ends(box[0]) for b in ends(box[1]) for c in ends(box[2])]:
        g = at_point(v, x, pt)
        if g is None:
            raise Unsupported("cell marker value " + T.show(v)[:80])
        if g == 0:
            bad.append(pt)
    return rep.check(not bad, key + ":uniform", f"{name}: cells around {tuple(map(float, bad[0])) if bad else ''} are not refined; the refinement is not uniform", r.where)


def ends(iv):
    a, b = iv
    return [a, (2 * a + b) / 3, (a + b) / 2, b]


def at_point(v, x, pt):
    mp = {}
    for a in T.atoms_of(v):
        if a.kind == "item" and a.args[0] == x:
            k = as_int(a.args[1])
            if k is None:
                return None
            mp[a] = const(pt[k])
    w = T.subst(v, mp)
    if x.atom() in T.atoms_of(w):
        w2 = None
        a = w.atom()
        if a is not None and a.kind == "ext" and a.args[0] in ("numpy.full", "numpy.ones", "numpy.full_like", "numpy.ones_like"):
            fill = a.args[1][-1] if "full" in a.args[0] else ONE
            return as_int(fill)
        return w2
    c = w.const()
    return None if c is None else int(c)


def c41_symbolic(rep, name):
    """Any number of refinements: length n+1 and the loop's induction step."""
    r = Run(name)
    v = at_rank(list_items(r, r.ret), 0)
    n = r.params["n_ref"]
    ln = seqlen(v)
    key = f"{name}:any:"
    if ln != n + ONE:
        d = ln - n - ONE
        if d.const() is not None:
            rep.bad(key + "levels", f"{name}(n, ...) returns {T.show(ln)} meshes, not n + 1", r.where)
            return
        raise Unsupported("number of levels " + T.show(ln)[:60])
    rep.ok(key + "levels")


def c41_size(rep, name, ps):
    h = size_param(name)
    conc = {"n_ref": 4} if "n_ref" in ps else {}
    r = Run(name, conc)
    evs = list(r.flat())
    sets = [(e, g) for e, g, _ in evs if norm_path(path(e)) == "gmsh.option.setNumber" and strval(arg(e, 0, "name")) in ("Mesh.MeshSizeFactor", "Mesh.CharacteristicLengthFactor")]
    gens = [e for e, _, _ in evs if norm_path(path(e)) == "gmsh.model.mesh.generate"]
    if not gens:
        return
    key = f"{name}:size"
    if h is None:
        raise Unsupported(f"size parameter of {name}")
    hv = r.params[h]
    if not sets:
        rep.bad(key, f"{name} never passes its size scale to the mesh generator", r.where)
        return
    calls_init = [e for e, _, _ in evs if norm_path(path(e)) == "gmsh.initialize"]
    family = "n_ref" in ps and len(calls_init) > 1
    # in order: one setting per generation, before it
    vals, k, cur = [], 0, None
    for e, g, _ in evs:
        p = norm_path(path(e))
        if p == "gmsh.initialize":
            cur = None
        if any(e is s for s, _ in sets):
            cur = arg(e, 1, "value")
        if p == "gmsh.model.mesh.generate":
            vals.append(cur)
    for j, v in enumerate(vals):
        want = hv * (const(F(1, 2 ** j)) if family else ONE)
        if v is None:
            rep.bad(key + f":{j}", f"{name} meshes before the size scale is set", r.where)
        elif v != want:
            d = v - want
            if any(a.kind in ("ext", "item", "famread") for a in T.atoms_of(d)):
                raise Unsupported("size scale " + T.show(v)[:60])
            rep.bad(key + f":{j}", f"{name}: mesh {j} is generated with size scale {T.show(v)[:60]} instead of {T.show(want)}", r.where)
        else:
            rep.ok(key + f":{j}")


def c41(rep):
    rep.pmap([(n, c41_n, (n,)) for n in anchored(rep, [n for n in generators() if uses_gmsh(n)], "generators")])


# ------------------------------------------------------------------ C42
SYNC = ("barrier", "Barrier", "bcast", "allreduce", "allgather", "Allreduce", "Bcast", "Allgather", "alltoall")


def is_sync(p):
    if p is None:
        return False
    last = p.split(".")[-1]
    return last in SYNC and ("COMM_WORLD" in p or p.startswith("."))


def c42_n(rep, name):
    ps = [p for p, _ in generators()[name][0]]
    r = Run(name, {"n_ref": 2} if "n_ref" in ps and needs_concrete(name) else None)
    rep.saw({f"{M}.{name}"})
    evs = list(r.flat())
    reads = [(k, e, g) for k, (e, g, _) in enumerate(evs) if reads_file(e)]
    writes = [(k, e, g) for k, (e, g, _) in enumerate(evs) if written_file(e)]
    if not reads:
        # direct import: geometry is built by the root, no file is read back
        for k, (e, g, _) in enumerate(evs):
            pass
        return
    # only the root builds geometry and writes
    for k, (e, g, _) in enumerate(evs):
        p = norm_path(path(e)) or ""
        if p.startswith("gmsh.model.") and "occ" in p or p in ("gmsh.model.mesh.generate", "gmsh.write", "meshio.write", "meshio.read"):
            rep.check(not at_rank(g, 1).t, f"{name}:root:{p}:{line(e)}", f"{name}: {p} runs on every process, not only on the root", r.where + f":{line(e)}")
    fresh = {}
    for k, (e, g, _) in enumerate(evs):
        f = reads_file(e)
        if not f:
            continue
        key = f"{name}:read:{f}:{line(e)}"
        mine = [(j, w, h) for j, w, h in writes if written_file(w) == f and j < k]
        if not mine:
            later = [w for j, w, h in writes if written_file(w) == f]
            rep.bad(key, f"{name}: {f} is read {'before it is written' if later else 'but never written by the generator'}", r.where + f":{line(e)}")
            continue
        j, w, h = mine[-1]
        if at_rank(g, 0).t and (at_rank(g, 0) - at_rank(g, 0) * at_rank(h, 0)).t:
            rep.bad(key, f"{name}: {f} is read under conditions under which it is not written", r.where + f":{line(e)}")
            continue
        if at_rank(g, 1).t:
            g1 = at_rank(g, 1)
            ok = False
            if at_rank(h, 1).t:
                ok = True       # collectively written
            for i in range(j + 1, k):
                s, sg, _ = evs[i]
                if is_sync(path(s)) and at_rank(sg, 0) == at_rank(sg, 1) and not (g1 - g1 * at_rank(sg, 1)).t:
                    ok = True
            rep.check(ok, key, f"{name}: {f} is read by all processes without waiting for the root to have written it", r.where + f":{line(e)}")
        else:
            rep.ok(key)
    # what is read: cells from the generated mesh file, of the right kind
    for k, e, g in reads:
        f = reads_file(e)
        for j, w, h in writes:
            if written_file(w) == f and path(w) == "meshio.write":
                data = arg(w, 1, "mesh")
                kinds = {strval(c) for c in strings(data)} & {"triangle", "line", "tetra", "quad", "vertex"}
                srcs = {strval(a.args[1][0]) for a in fields(data) if a.args[0] == "meshio.read" and a.args[1]}
                meshread = [x for x, _, _ in evs if path(x) == ".read_mesh" and e.data[3] == x.data[1].atom().args[0]]
                if srcs:
                    msh = {written_file(x) for _, x, _ in writes if norm_path(path(x)) == "gmsh.write"}
                    rep.check(srcs <= msh, f"{name}:source:{f}:{line(w)}", f"{name}: {f} is made from {sorted(srcs)}, the generator writes {sorted(msh)}", r.where + f":{line(w)}")
                if meshread and kinds:
                    rep.check(kinds == {"triangle"}, f"{name}:cells:{f}:{line(w)}", f"{name}: the mesh is read from {f}, which holds {sorted(kinds)} cells", r.where + f":{line(w)}")
    if not any(path(e) == ".read_mesh" for e, _, _ in evs):
        raise Unsupported("no mesh is read")


def strings(p):
    out = []

    def go(x):
        if isinstance(x, P):
            for a in T.atoms_of(x):
                go(a)
        elif isinstance(x, T.Atom):
            if x.kind == "str":
                out.append(x.P())
            else:
                for y in x.args:
                    go2(y)

    def go2(y):
        if isinstance(y, (tuple, list)):
            for z in y:
                go2(z)
        elif isinstance(y, (P, T.Atom)):
            go(y)
    go(p)
    return out


def reads_file(e):
    p = path(e)
    if p == "meshio.read":
        return strval(arg(e, 0, "filename"))
    if p in ("dolfinx.io.XDMFFile",):
        mode = arg(e, 2, "file_mode")
        if mode is None or strval(mode) == "r":
            return strval(arg(e, 1, "filename"))
    return None


def written_file(e):
    p = norm_path(path(e))
    if p == "gmsh.write":
        return strval(arg(e, 0, "fileName"))
    if p == "meshio.write":
        return strval(arg(e, 0, "filename"))
    if p == "dolfinx.io.XDMFFile" and strval(arg(e, 2, "file_mode", S("r"))) == "w":
        return strval(arg(e, 1, "filename"))
    return None


def c42(rep):
    rep.pmap([(n, c42_n, (n,)) for n in anchored(rep, [n for n in generators() if uses_gmsh(n)], "generators")])


# ------------------------------------------------------------------ C43
def direct_import(r):
    return [(e, g) for e, g, _ in r.flat() if path(e) == "dolfinx.mesh.create_mesh"]


def c43_n(rep, name):
    ps = [p for p, _ in generators()[name][0]]
    r = Run(name, {"n_ref": 2} if "n_ref" in ps and needs_concrete(name) else None)
    cm = direct_import(r)
    if not cm:
        return
    rep.saw({f"{M}.{name}"})
    e, g = cm[0]
    key = f"{name}:"
    nodes = [x for x in fields(g) + fields(arg(e, 2, "x")) if norm_path(x.args[0]) == "gmsh.model.mesh.getNodes"]
    # (1) accepted numberings
    tests = [a for a in T.atoms_of(g) if a.kind in ("truthy", "same", "eq0", "neg", "elementwise") and "getNodes" in T.show(a.P())]
    outer = [a for a in tests if not any(a is not b and a.P().key != b.P().key and inside(a, b) for b in tests)]
    if not outer:
        rep.bad(key + "test", f"{name} accepts every node numbering", r.where)
    else:
        try:
            okay, ex = numbering_test(outer, g)
        except Cannot as exc:
            raise Unsupported(f"numbering test ({exc}) " + T.show(g)[:100])
        rep.check(okay, key + "test", f"{name} {'rejects' if ex in ACCEPT else 'accepts'} node numberings like {ex}", r.where)
        raises = [x for x, _, _ in r.flat() if x.kind == "raise"]
        rep.check(bool(raises), key + "raise", f"{name} does not raise an error for other numberings", r.where)
    # (2) coordinates sorted by tag
    x = arg(e, 2, "x")
    order = [a for a in fields(x) if a.args[0] == "numpy.argsort"]
    if not order:
        rep.bad(key + "sorted", f"{name} passes node coordinates in generation order", r.where)
    else:
        t = order[0].args[1][0]
        ok = any(is_tags(t + const(k)) for k in (-1, 0, 1))
        if not ok and t.atom() is not None and t.atom().kind == "ext" and t.atom().args[0] == "numpy.argsort" and any(is_tags(t.atom().args[1][0] + const(k)) for k in (-1, 0, 1)) and x.atom() is not None and x.atom().kind == "item":
            rep.bad(key + "sorted", f"{name} reads node coordinates in the order of the node numbers' ranks, not sorted by node number", r.where)
            return
        if not ok:
            raise Unsupported("node order " + T.show(t)[:80])
        rep.ok(key + "sorted")
    # (3) zero-based cells in the library's vertex order
    c = arg(e, 1, "cells")
    perm = [a for a in fields(c) if a.args[0] == "dolfinx.cpp.io.perm_gmsh"]
    rep.check(bool(perm), key + "permuted", f"{name} passes the cells in the mesh generator's vertex order", r.where)
    base = cells_base(c)
    if base is None:
        raise Unsupported("cells handed to create_mesh " + T.show(c)[:80])
    rep.check(base == -1, key + "zero-based", f"{name} passes cell connectivity offset by {base} from the generator's numbering (zero-based needs -1)", r.where)
    if perm:
        ct = perm[0].args[1][0]
        cn = T.show(ct).rsplit(".", 1)[-1].rstrip(")")
        doms = [strval(a.args[1][0]) for a in fields(arg(e, 3, "domain")) if norm_path(a.args[0]) == "gmsh.model.mesh.getElementType"]
        want = {"triangle": "triangle", "quadrilateral": "quadrangle", "tetrahedron": "tetrahedron"}.get(cn)
        if want and doms:
            rep.check(doms[0] == want, key + "cell-type", f"{name}: cells are permuted as {cn} but described as {doms[0]}", r.where)
    # (4) two coordinates per node: every third one dropped
    d = numeric_drop(x)
    if d is not None:
        rep.check(d == [2], key + "plane", f"{name} drops coordinate(s) {d} of the flat node coordinates, not the out-of-plane one of every node", r.where)


def inside(a, b):
    return a in T.atoms_of(T.lift(b.args[0]) if b.args and isinstance(b.args[0], P) else ZERO)


def is_tags(t):
    a = t.atom()
    return a is not None and a.kind == "item" and as_int(a.args[1]) == 0 and "getNodes" in T.show(a.args[0])[:60]


class Cannot(Exception):
    pass


class Numbers:
    """Evaluates a predicate on node tags for one numbering (Python lists stand for arrays)."""

    def __init__(self, tags):
        self.tags = tags

    def poly(self, p):
        tot = 0
        for mo, c in p.t.items():
            c = int(c) if getattr(c, "denominator", 1) == 1 else float(c)
            v = c
            for a, n in mo:
                w = self.atom(a)
                if n != 1:
                    w = self.zip(lambda x, y: x ** y, w, n)
                v = self.zip(lambda x, y: x * y, v, w)
            tot = self.zip(lambda x, y: x + y, tot, v)
        return tot

    def zip(self, f, a, b):
        if isinstance(a, list) and isinstance(b, list):
            if len(a) != len(b):
                raise Cannot("lengths")
            return [f(x, y) for x, y in zip(a, b)]
        if isinstance(a, list):
            return [f(x, b) for x in a]
        if isinstance(b, list):
            return [f(a, x) for x in b]
        return f(a, b)

    CMP = {"Eq": lambda x, y: x == y, "NotEq": lambda x, y: x != y, "Lt": lambda x, y: x < y, "LtE": lambda x, y: x <= y}

    def one(self, v):
        if isinstance(v, list):
            raise Cannot("truth of an array")
        return v

    def atom(self, a):
        k = a.kind
        if k == "item":
            if is_tags(a.P()):
                return list(self.tags)
            x, i = self.val(a.args[0]), a.args[1]
            ia = i.atom()
            if ia is not None and ia.kind == "slice":
                return x[slice(*[None if q is None or T.show(q) == "none" else self.one(self.val(q)) for q in ia.args])]
            i = self.val(i)
            try:
                return [x[j] for j in i] if isinstance(i, list) else x[i]
            except (IndexError, TypeError) as e:
                raise Cannot(str(e))
        if k == "len":
            v = self.val(a.args[0])
            if not isinstance(v, list):
                raise Cannot("len")
            return len(v)
        if k == "attr" and a.args[1] in ("size",):
            return len(self.val(a.args[0]))
        if k == "attr" and a.args[1] == "shape":
            return [len(self.val(a.args[0]))]
        if k == "seq":
            out = []
            for s in a.args[0]:
                if s.kind == "it":
                    out.append(self.val(s.args[0]))
                elif s.kind == "rep":
                    xs, (hi, inner) = T.unbind(s)
                    if len(inner) != 1 or inner[0].kind != "it":
                        raise Cannot("segment")
                    for q in range(self.one(self.val(hi))):
                        out.append(self.val(T.subst(inner[0].args[0], {xs[0]: const(q)})))
                else:
                    raise Cannot("segment " + s.kind)
            return out
        if k == "eq0":
            return self.zip(lambda x, _: int(x == 0), self.poly(a.args[0]), 0)
        if k == "neg":
            return self.zip(lambda x, _: int(x < 0), self.poly(a.args[0]), 0)
        if k == "same":
            x, y = self.val(a.args[0]), self.val(a.args[1])
            return int(x == y) if not isinstance(x, list) and not isinstance(y, list) else self.zip(lambda p, q: int(p == q), x, y)
        if k == "elementwise":
            return self.zip(lambda p, q: int(self.CMP[a.args[0]](p, q)), self.val(a.args[1]), self.val(a.args[2]))
        if k == "truthy":
            return int(bool(self.one(self.val(a.args[0]))))
        if k == "abs":
            return self.zip(lambda x, _: abs(x), self.val(a.args[0]), 0)
        if k == "ext":
            return self.ext(a.args[0], a.args[1], a.args[2])
        raise Cannot(k)

    def ext(self, nm, args, kw):
        if kw and nm.split(".")[-1] not in ("array", "asarray", "arange", "argsort", "sort", "astype"):
            raise Cannot(nm)
        n = nm.split(".")[-1]
        v = [self.val(x) for x in args] if n not in ("astype",) else [self.val(args[0])]
        if n in ("all", "any"):
            return int({"all": all, "any": any}[n](v[0] if isinstance(v[0], list) else [v[0]]))
        if n == "argsort":
            return sorted(range(len(v[0])), key=lambda i: v[0][i])
        if n in ("sort", "sorted", "unique"):
            return sorted(set(v[0])) if n == "unique" else sorted(v[0])
        if n in ("array", "asarray", "copy", "astype", "list"):
            return v[0]
        if n == "array_equal":
            return int(v[0] == v[1])
        if n == "allclose":
            return int(v[0] == v[1]) if isinstance(v[0], list) and isinstance(v[1], list) else int(all(self.zip(lambda x, y: x == y, v[0], v[1])))
        if n in ("max", "amax"):
            return max(v[0])
        if n in ("min", "amin"):
            return min(v[0])
        if n == "sum":
            return sum(v[0])
        if n == "arange":
            return list(range(*[self.one(x) for x in v]))
        if n == "diff":
            return [q - p for p, q in zip(v[0], v[0][1:])]
        if n in ("size", "len"):
            return len(v[0])
        if n == "set":
            return set(v[0])
        raise Cannot(nm)

    def val(self, p):
        if not isinstance(p, P):
            raise Cannot("argument")
        return self.poly(p)


ACCEPT = [[1, 2, 3, 4, 5], [3, 1, 2], [5, 4, 3, 2, 1], [2, 1, 4, 3], [1]]
REJECT = [[1, 2, 4, 5], [2, 3, 4], [1, 3, 5], [6, 1, 2, 3], [1, 2, 3, 7], [1, 5, 2, 3, 7], [7, 8, 9, 10]]


def numbering_test(outer, g):
    """Evaluate the gate of the import on sample numberings: (verdict, numbering) with verdict None if undecided."""
    def gate(tags):
        N = Numbers(tags)
        mp = {}
        for a in outer:
            mp[a] = const(int(bool(N.one(N.atom(a)))))
        return bool(T.subst(g, mp).t)
    for t in ACCEPT:
        if not gate(t):
            return False, t
    for t in REJECT:
        if gate(t):
            return False, t
    return True, None


def cells_base(c):
    """Constant added to the generator's node tags in the connectivity."""
    for a in [x for x in T.atoms_of(c)]:
        if a.kind == "item" and isinstance(a.args[0], P):
            p = a.args[0]
            if "getElements" in T.show(p) and any(mo == () for mo in p.t):
                return int(p.t[()])
    for a in T.atoms_of(c):
        if a.kind == "item" and isinstance(a.args[0], P) and "getElements" in T.show(a.args[0]) and a.args[0].atom() is not None and a.args[0].atom().kind == "ext" and a.args[0].atom().args[0] == ".reshape":
            return 0
    return None


def numeric_drop(x):
    """Which coordinates of three are left out of every node (None: cannot tell)."""
    for a in T.atoms_of(x):
        if a.kind == "ext" and a.args[0] == "numpy.delete" and len(a.args[1]) >= 2:
            k = as_int(a.args[1][1])
            if k is not None:
                return [k % 3]
    for a in T.atoms_of(x):
        if a.kind != "seq":
            continue
        segs = seq_segs(a.P())
        if len(segs) != 1 or segs[0].kind != "rep":
            continue
        xs, (hi, inner) = T.unbind(segs[0])
        if len(inner) != 1 or inner[0].kind != "when":
            continue
        g = inner[0].args[0]
        keep = []
        for k in range(9):
            w = T.subst(g, {xs[0]: const(k)}).const()
            if w is None:
                return None
            keep.append(bool(w))
        if keep[:3] != keep[3:6] or keep[:3] != keep[6:]:
            return [k for k in range(9) if not keep[k]]
        return [k for k in range(3) if not keep[k]]
    return None


def c43(rep):
    rep.pmap([(n, c43_n, (n,)) for n in anchored(rep, [n for n in generators() if uses_gmsh(n)], "generators")])


# ------------------------------------------------------------------ geometry (C41, C44, C46)
class Box:
    def __init__(self, lo, hi, disk=False):
        self.lo, self.hi, self.disk = lo, hi, disk


def num(p, env):
    v = T.subst(p, env) if env else p
    c = v.const()
    if c is None:
        raise Unsupported("geometry parameter " + T.show(v)[:60])
    return F(c)


def shapes(r, env=None, problems=None):
    """Geometry kernel calls of the root process interpreted on axis-parallel boxes: live shapes by (dim, tag)."""
    env = dict(env or {})
    env[RANK.atom()] = ZERO
    live = {}
    byval = {}
    hist = []
    problems = problems if problems is not None else []

    def tagof(p):
        k = as_int(T.subst(p, env))
        if k is not None:
            return k
        a = T.subst(p, env).atom()
        if a is not None and a.key in byval:
            return byval[a.key]
        raise Unsupported("shape tag " + T.show(p)[:60])

    def dimtags(p):
        out = []
        for _, v in cases(T.subst(p, env)):
            a = v.atom()
            els = a.args if a is not None and a.kind == "tuple" else None
            if a is not None and a.kind == "seq":
                segs = seq_segs(v)
                if all(s.kind == "it" for s in segs):
                    els = [s.args[0] for s in segs]
            if els is None:
                raise Unsupported("list of shapes " + T.show(v)[:60])
            for t in els:
                q = t.atom()
                if q is None or q.kind != "tuple":
                    raise Unsupported("shape " + T.show(t)[:60])
                out.append((as_int(q.args[0]), tagof(q.args[1])))
        return out

    for e, g, loops in r.flat():
        p = norm_path(path(e))
        if p is None or not p.startswith("gmsh.model.occ.") or loops:
            continue
        gv = T.subst(g, env).const()
        if gv is None:
            raise Unsupported("condition of a geometry call " + T.show(g)[:60])
        if not gv:
            continue
        op = p.rsplit(".", 1)[1]
        if op in ("addRectangle", "addBox", "addDisk"):
            a, kw = args_of(e)
            names = {"addRectangle": ("x", "y", "z", "dx", "dy", "tag"), "addBox": ("x", "y", "z", "dx", "dy", "dz", "tag"),
                     "addDisk": ("xc", "yc", "zc", "rx", "ry", "tag")}[op]
            v = dict(zip(names, a))
            v.update(kw)
            tag = v.pop("tag", const(-1))
            val = {k: num(x, env) for k, x in v.items()}
            dim = 3 if op == "addBox" else 2
            t = as_int(T.subst(tag, env))
            if t is None:
                raise Unsupported("shape tag")
            if t < 0:
                t = max([k for d, k in live if d == dim] + [0]) + 1
            elif (dim, t) in live:
                problems.append((e, f"shape tag {t} is already in use"))
            if op == "addDisk":
                if val["rx"] <= 0 or val["ry"] <= 0:
                    problems.append((e, "a disk has no extent"))
                b = Box((val["xc"] - val["rx"], val["yc"] - val["ry"], F(0)), (val["xc"] + val["rx"], val["yc"] + val["ry"], F(0)), True)
            else:
                ext = [val["dx"], val["dy"], val.get("dz")]
                if any(x is not None and x <= 0 for x in ext):
                    problems.append((e, f"{op} with extents {', '.join(str(float(x)) for x in ext if x is not None)}"))
                lo = (val["x"], val["y"], val["z"])
                hi = (val["x"] + val["dx"], val["y"] + val["dy"], val["z"] + (val.get("dz") or 0))
                b = Box(lo, hi)
            live[(dim, t)] = [(+1, b)]
            hist.append(b)
            byval[T.subst(e.data[3], env).atom().key] = t
        elif op in ("cut", "fragment", "fuse", "intersect"):
            obj, tool = dimtags(arg(e, 0, "objectDimTags")), dimtags(arg(e, 1, "toolDimTags"))
            for d, t in obj + tool:
                if (d, t) not in live and d == max((dd for dd, _ in live), default=d):
                    problems.append((e, f"{op} of shape {t}, which does not exist at that point"))
            if op == "cut":
                tag = as_int(arg(e, 2, "tag", const(-1)))
                if tag is not None and tag > 0 and obj and (obj[0][0], tag) in live:     # looked up before the operands are removed
                    problems.append((e, f"shape tag {tag} is already in use"))
                res = []
                for k in obj:
                    res += live.get(k, [])
                cutters = []
                for k in tool:
                    cutters += live.get(k, [])
                for k in obj + tool:
                    live.pop(k, None)
                t = tag if tag is not None and tag >= 0 else (obj[0][1] if obj else 1)
                if (obj and (obj[0][0], t) in live):
                    problems.append((e, f"shape tag {t} is already in use"))
                live[(obj[0][0] if obj else 2, t)] = [("cut", res, cutters)]
                byval[T.subst(e.data[3], env).atom().key] = t
            elif op == "fragment":
                pass
            else:
                raise Unsupported("geometry operation " + op)
        elif op in ("synchronize", "getCenterOfMass"):
            pass
        else:
            raise Unsupported("geometry operation " + op)
    return live, hist, problems


def covers(shape, pt, dim):
    """Whether the open cell around pt lies in the shape (None: crossed by a disk)."""
    for s in shape:
        if s[0] == "cut":
            if covers(s[1], pt, dim) and not covers(s[2], pt, dim):
                return True
        else:
            b = s[1]
            if b.disk:
                mid = [(l + h) / 2 for l, h in zip(b.lo, b.hi)]
                q = sum(((pt[k] - mid[k]) / ((b.hi[k] - b.lo[k]) / 2)) ** 2 for k in range(2))
                if q <= 1:
                    return True
            elif all(b.lo[k] <= pt[k] <= b.hi[k] for k in range(dim)):
                return True
    return False


def arrangement(live, hist):
    dim = max((d for d, _ in live), default=2)
    cs = []
    for k in range(3):
        c = sorted({b.lo[k] for b in hist} | {b.hi[k] for b in hist})
        cs.append(c)
    return dim, cs


def domain_box(r, env=None):
    env = dict(env or {})
    for p, v in r.params.items():
        if v is not None and v.atom() is not None and v.atom() not in env:
            d = default_of(r, p)
            if d is not None:
                env[v.atom()] = const(d)
    live, hist, _ = shapes(r, env)
    if not hist:
        raise Unsupported("no geometry")
    return [(min(b.lo[k] for b in hist), max(b.hi[k] for b in hist)) for k in range(3)]


def default_of(r, p):
    import ast
    params, _, _ = generators()[r.name]
    for q, d in params:
        if q == p:
            if d is not None:
                try:
                    return F(str(ast.literal_eval(d)))
                except (ValueError, TypeError):
                    return None
    if p == "eta":
        return F(3, 5)          # the module's own interface position
    if p == "n_ref":
        return F(1)
    return F(1) if "h" in p else None


def defaults(r):
    env = {}
    for p, v in r.params.items():
        if v is not None and v.atom() is not None:
            d = default_of(r, p)
            if d is not None:
                env[v.atom()] = const(d)
    return env


def c46_n(rep, name):
    ps = [p for p, _ in generators()[name][0]]
    r = Run(name, {"n_ref": 1} if "n_ref" in ps else None)
    rep.saw({f"{M}.{name}"})
    problems = []
    live, hist, _ = shapes(r, defaults(r), problems)
    if not hist:
        return
    key = f"{name}:"
    for e, msg in problems:
        rep.bad(key + "shape:" + msg[:40], f"{name}: {msg}", r.where + f":{line(e)}")
    if problems:
        return
    rep.ok(key + "shapes", f"{len(hist)} shapes")
    if all(d == 2 for d, _ in live):
        planes = {b.lo[2] for b in hist}
        rep.check(len(planes) == 1, key + "plane", f"{name}: the pieces of a planar geometry lie in different planes z = {sorted(map(float, planes))}", r.where)
    dim, cs = arrangement(live, hist)
    holes, n = [], 0
    mids = [[(a + b) / 2 for a, b in zip(c, c[1:])] or [c[0]] for c in cs[:dim]]
    import itertools
    for pt in itertools.product(*mids):
        n += 1
        if not any(covers(s, pt, dim) for s in live.values()):
            holes.append(pt)
    rep.check(not holes, key + "covered", f"{name}: the pieces leave a hole in the domain around {tuple(map(float, holes[0])) if holes else ''}", r.where, f"{n} cells of the arrangement")
    want = expected_domain(name)
    if want is not None:
        got = [(min(b.lo[k] for b in hist), max(b.hi[k] for b in hist)) for k in range(dim)]
        rep.check(all(g == want for g in got), key + "domain", f"{name}: the domain is {[(float(a), float(b)) for a, b in got]}", r.where)


def expected_domain(name):
    if "inclusion" in name:
        return (F(-3, 2), F(3, 2))
    return (F(0), F(1))


def c46(rep):
    rep.pmap([(n, c46_n, (n,)) for n in anchored(rep, [n for n in generators() if uses_gmsh(n) and not needs_concrete(n)], "generators")])


# ------------------------------------------------------------------ C44
def entities_dim(p):
    """Dimension of a gmsh.model.getEntities(...) value, None if it is something else."""
    a = p.atom()
    if a is None or a.kind != "ext" or norm_path(a.args[0]) != "gmsh.model.getEntities":
        return None
    kw = dict((k if isinstance(k, str) else strval(k), v) for k, v in a.args[2])
    d = a.args[1][0] if a.args[1] else kw.get("dim")
    return None if d is None else as_int(d)


def entity_loop(e):
    """(index, dim) if the event is a loop over all entities of one dimension."""
    hi = e.data[1] if e.kind == "loop" else None
    if hi is None:
        return None
    a = hi.atom()
    if a is None or a.kind != "len":
        return None
    d = entities_dim(a.args[0] if isinstance(a.args[0], P) else a.args[0].P())
    return None if d is None else (e.data[0], d, a.args[0])


def entity_part(e):
    """Loop over a slice of the entities that certainly leaves some out."""
    a = e.data[1].atom() if e.kind == "loop" else None
    b = a.args[0].atom() if a is not None and a.kind == "len" and isinstance(a.args[0], P) else None
    if b is None or b.kind not in ("item", "ext") or "getEntities" not in T.show(a.args[0]):
        return None
    s = b.args[1].atom() if isinstance(b.args[1], P) else None
    if b.kind != "item" or entities_dim(b.args[0]) is None or s is None or s.kind != "slice" or len(s.args) != 3:
        return None
    lo, hi, st = (None if not isinstance(z, P) or z == NONE else as_int(z) for z in s.args)
    if any(isinstance(z, P) and z != NONE and as_int(z) is None for z in s.args):
        return None
    return T.show(b.args[1]) if (lo or 0) > 0 or (hi is not None and hi < 0) or (st or 1) > 1 else None


def c44_n(rep, name):
    ps = [p for p, _ in generators()[name][0]]
    r = Run(name, {"n_ref": 1} if "n_ref" in ps else None)
    rep.saw({f"{M}.{name}"})
    evs = list(r.flat())
    gens = [k for k, (e, g, l) in enumerate(evs) if norm_path(path(e)) == "gmsh.model.mesh.generate"]
    outs = [k for k, (e, g, l) in enumerate(evs) if norm_path(path(e)) == "gmsh.write" or (path(e) or "").endswith("model_to_mesh")]
    if not gens:
        return
    key = f"{name}:"
    d = as_int(arg(evs[gens[0]][0], 0, "dim"))
    groups = [(k, e, g, l) for k, (e, g, l) in enumerate(evs) if norm_path(path(e)) == "gmsh.model.addPhysicalGroup"]
    rep.check(not outs or outs[0] > gens[0], key + "write-order", f"{name} writes the mesh before it is generated", r.where)
    sync = [k for k, (e, g, l) in enumerate(evs) if norm_path(path(e)) == "gmsh.model.occ.synchronize"]
    ops = [k for k, (e, g, l) in enumerate(evs) if (norm_path(path(e)) or "").startswith("gmsh.model.occ.") and norm_path(path(e)).rsplit(".", 1)[1] in ("addRectangle", "addBox", "addDisk", "cut", "fragment", "fuse", "intersect")]
    ents = [k for k, (e, g, l) in enumerate(evs) if norm_path(path(e)) == "gmsh.model.getEntities"]
    if ops:
        rep.check(bool(sync) and sync[-1] > ops[-1], key + "synchronize", f"{name}: geometry changed after the last synchronisation is not meshed", r.where)
        rep.check(all(any(ops[-1] < s < k for s in sync) for k in ents), key + "entities", f"{name} lists the entities before the geometry is synchronised", r.where)
    for k, e, g, l in groups:
        rep.check(k < gens[0], key + f"before:{line(e)}", f"{name} marks entities after the mesh is generated", r.where + f":{line(e)}")
    wrong = False
    for k, e, g, l in groups:
        have, src = as_int(arg(e, 0, "dim")), tag_dims(arg(e, 1, "tags"))
        if have is not None and d is not None and not 0 <= have <= d:
            wrong = True
            rep.bad(key + f"dim:{line(e)}", f"{name} asks for a physical group of dimension {have} in a mesh of dimension {d}", r.where + f":{line(e)}")
            continue
        if have is not None and src and have not in src:
            wrong = True
            rep.bad(key + f"dim:{line(e)}", f"{name} puts entities of dimension {sorted(src)} into a physical group of dimension {have}", r.where + f":{line(e)}")
    if wrong:
        return
    if d == 2:
        surfaces(rep, r, name, key, evs, groups)
        if expected_domain(name) == (0, 1) and any(as_int(arg(e, 0, "dim")) == 1 for _, e, _, _ in groups):
            boundary(rep, r, name, key, groups)


def tag_dims(tags):
    """Dimensions of the gmsh entity lists the tags of a group are drawn from (empty if unknown)."""
    out = set()
    for a in T.atoms_of(tags):
        if a.kind == "ext" and norm_path(a.args[0]) == "gmsh.model.getEntities":
            d = entities_dim(a.P())
            if d is None:
                return set()
            out.add(d)
    return out if len(out) == 1 else set()


def surfaces(rep, r, name, key, evs, groups):
    mine = [(k, e, g, l) for k, e, g, l in groups if as_int(arg(e, 0, "dim")) == 2]
    if not mine:
        rep.bad(key + "surfaces", f"{name} marks no surface; unmarked surfaces are not written", r.where)
        return
    byloop = {}
    for k, e, g, l in mine:
        byloop.setdefault(id(l[-1]) if l else None, []).append((e, l))
    if len(byloop) != 1:
        raise Unsupported("surfaces are marked in several loops")
    (lid, es), = byloop.items()
    if lid is None:
        tags = arg(es[0][0], 1, "tags")
        segs = seq_segs(tags) if tags.atom() is not None and tags.atom().kind == "seq" else None
        if len(es) == 1 and segs is not None and len(segs) == 1 and segs[0].kind == "rep":
            xs, (hi, inner) = T.unbind(segs[0])
            if "dim, 2" in T.show(hi) and len(inner) == 1 and inner[0].kind == "it":
                rep.ok(key + "surfaces")
                return
        raise Unsupported("marking of surfaces outside a loop")
    loop = es[0][1][-1]
    el = entity_loop(loop)
    if el is None:
        part = entity_part(loop)
        if part is not None:
            rep.bad(key + "surfaces", f"{name} marks only the entities {part} of its surfaces", r.where)
            return
        raise Unsupported("loop that marks surfaces " + T.show(loop.data[1])[:60])
    idx, dim, seq = el
    if not rep.check(dim == 2, key + "surfaces-of", f"{name} marks entities of dimension {dim} as surfaces", r.where):
        return
    total = ZERO
    seq = seq if isinstance(seq, P) else seq.P()
    i = idx if isinstance(idx, P) else idx.P()
    ent = T.Atom("item", T.Atom("item", seq, i).P(), const(1)).P()
    tagvals = []
    for e, l in es:
        if len(l) != len(es[0][1]):
            raise Unsupported("nested loop marks surfaces")
        tags = arg(e, 1, "tags")
        a = tags.atom()
        one = a.args[0] if a is not None and a.kind == "tuple" and len(a.args) == 1 else None
        if one is None and a is not None and a.kind == "seq":
            sg = seq_segs(tags)
            one = sg[0].args[0] if len(sg) == 1 and sg[0].kind == "it" else None
        if one is None:
            raise Unsupported("tags of a physical group " + T.show(tags)[:60])
        if not rep.check(one == ent, key + f"entity:{line(e)}", f"{name}: the physical group holds {T.show(one)[:60]}, not the surface at hand", r.where + f":{line(e)}"):
            return
        total = total + e.guard
        tagvals.append((e.guard, arg(e, 2, "tag", const(-1))))
    rep.check(total == ONE, key + "surfaces", f"{name}: surfaces for which {T.show(total)[:120]} differs from one are marked not exactly once", r.where)
    # own markers: numbered surfaces get distinct numbers
    if len(tagvals) == 1:
        t = tagvals[0][1]
        j = fresh_idx(None, "other").P()
        if as_int(t) is not None and as_int(t) >= 0:
            rep.bad(key + "distinct", f"{name}: all surfaces get the same marker {as_int(t)}, which the mesh generator refuses", r.where)
        elif as_int(t) is None:
            d = t - T.subst(t, {i.atom(): j})
            lin = d - (i - j) * const(1)
            rep.check(not lin.t or (d.t and T.subst(d, {i.atom(): j}) == ZERO), key + "distinct", f"{name}: surface markers {T.show(t)[:60]} are not distinct", r.where)
    else:
        vals = [as_int(t) for _, t in tagvals]
        if None not in vals:
            rep.check(len(set(vals)) == len(vals), key + "distinct", f"{name}: different kinds of subdomain share a marker {vals}", r.where)


def boundary(rep, r, name, key, groups):
    mine = [(e, g, l) for _, e, g, l in groups if as_int(arg(e, 0, "dim")) == 1]
    if len(mine) != 1 or mine[0][2]:
        raise Unsupported("marking of boundary curves")
    e, g, _ = mine[0]
    tags = arg(e, 1, "tags")
    segs = seq_segs(tags)
    if len(segs) != 1 or segs[0].kind != "rep":
        raise Unsupported("boundary curves " + T.show(tags)[:80])
    xs, (hi, inner) = T.unbind(segs[0])
    a = hi.atom()
    d = entities_dim(a.args[0]) if a is not None and a.kind == "len" else None
    if not rep.check(d == 1, key + "curves-of", f"{name}: boundary curves are taken from {T.show(hi)[:60]}", r.where):
        return
    if len(inner) == 1 and inner[0].kind == "it":
        rep.bad(key + "boundary", f"{name} marks every curve as boundary", r.where)
        return
    if len(inner) != 1 or inner[0].kind != "when":
        raise Unsupported("boundary curves " + T.show(tags)[:80])
    gate, got = inner[0].args[0], inner[0].args[1]
    ent = T.Atom("item", T.Atom("item", a.args[0], xs[0].P()).P(), const(1)).P()
    if len(got) == 1 and got[0].kind == "it":
        rep.check(got[0].args[0] == ent, key + "curve", f"{name}: {T.show(got[0].args[0])[:60]} is marked, not the curve at hand", r.where)
    for a in T.atoms_of(gate):
        if a.kind == "ext" and norm_path(a.args[0]) == "gmsh.model.occ.getCenterOfMass" and len(a.args[1]) == 2:
            of = a.args[1]
            if of[0].const() is not None and of[0].const() != 1:
                rep.bad(key + "boundary", f"{name}: the centre that decides about a curve is that of an entity of dimension {of[0].const()}", r.where)
                return
            if of[1] != ent:
                raise Unsupported("boundary condition on " + T.show(of[1])[:60])
    pts_in = [(F(0), y) for y in GRID] + [(F(1), y) for y in GRID] + [(x, F(0)) for x in GRID] + [(x, F(1)) for x in GRID]
    pts_out = [(x, y) for x in GRID for y in GRID]
    for pts, want in ((pts_in, 1), (pts_out, 0)):
        for pt in pts:
            v = gate_at(gate, pt)
            if v is None:
                raise Unsupported("boundary condition " + T.show(gate)[:80])
            if v != want:
                rep.bad(key + "boundary", f"{name}: a curve with centre ({float(pt[0])}, {float(pt[1])}) is {'not ' if want else ''}marked as boundary", r.where)
                return
    rep.ok(key + "boundary")


GRID = [F(k, 40) for k in range(1, 40)]


def gate_at(gate, pt):
    """Truth of a condition on the centre of a curve."""
    mp = {}
    for a in T.atoms_of(gate):
        if a.kind == "item" and isinstance(a.args[0], P) and a.args[0].atom() is not None and a.args[0].atom().kind == "ext" and norm_path(a.args[0].atom().args[0]) in ("gmsh.model.occ.getCenterOfMass",):
            k = as_int(a.args[1])
            if k is None or k > 2:
                return None
            mp[a] = const(pt[k] if k < 2 else 0)
    w = T.subst(gate, mp)
    mp = {}
    for a in T.atoms_of(w):
        if a.kind == "truthy":
            b = a.args[0].atom()
            v = any_close(b)
            if v is None:
                return None
            mp[a] = const(v)
    if mp:
        w = T.subst(w, mp)
    c = w.const()
    return None if c is None else int(c)


def any_close(b):
    """isclose, or .any()/.all() of an isclose against listed numbers."""
    v = close_to(b)
    if v is not None or b is None or b.kind != "ext" or b.args[0] not in (".any", ".all", "numpy.any", "numpy.all") or len(b.args[1]) != 1 or b.args[2]:
        return v
    c = b.args[1][0].atom()
    if c is None or c.kind != "ext" or c.args[0] != "numpy.isclose":
        return None
    out = []
    for k in (0, 1):
        e = c.args[1][k].atom()
        if e is None:
            continue
        if e.kind == "tuple":
            vals = list(e.args)
        elif e.kind == "seq":
            sg = seq_segs(c.args[1][k])
            if any(x.kind != "it" for x in sg):
                return None
            vals = [x.args[0] for x in sg]
        else:
            continue
        for x in vals:
            w = list(c.args[1])
            w[k] = x
            out.append(close_to(T.Atom("ext", c.args[0], tuple(w), c.args[2])))
        break
    if not out or None in out:
        return None
    return int(any(out)) if b.args[0].endswith("any") else int(all(out))


def close_to(b):
    if b is None or b.kind != "ext" or b.args[0] not in ("numpy.isclose", "math.isclose", "numpy.allclose"):
        return None
    kw = dict((k if isinstance(k, str) else strval(k), v) for k, v in b.args[2])
    x, y = b.args[1][0].const(), b.args[1][1].const()
    if x is None or y is None:
        return None
    if b.args[0] == "math.isclose":
        rt, at = 1e-9, 0.0
        names = ("rel_tol", "abs_tol")
    else:
        rt, at = 1e-5, 1e-8
        names = ("rtol", "atol")
    pos = b.args[1][2:]
    if len(pos) > 0:
        rt = float(pos[0].const())
    if len(pos) > 1:
        at = float(pos[1].const())
    if names[0] in kw:
        rt = float(kw[names[0]].const())
    if names[1] in kw:
        at = float(kw[names[1]].const())
    scale = max(abs(float(x)), abs(float(y))) if b.args[0] == "math.isclose" else abs(float(y))
    if b.args[0] == "math.isclose":
        return int(abs(float(x - y)) <= max(rt * scale, at))
    return int(abs(float(x - y)) <= at + rt * scale)


def c44(rep):
    rep.pmap([(n, c44_n, (n,)) for n in anchored(rep, [n for n in generators() if uses_gmsh(n) and not needs_concrete(n)], "generators")])


# ------------------------------------------------------------------ C45
def c45_n(rep, name):
    ps = [p for p, _ in generators()[name][0]]
    r = Run(name, {"n_ref": 1} if "n_ref" in ps else None)
    rep.saw({f"{M}.{name}"})
    for e, g, _ in r.flat():
        if path(e) != "dolfinx.mesh.compute_incident_entities":
            continue
        a, kw = args_of(e)
        for ver in VERSIONS:
            gv = at_version(g, ver)
            if not gv.t:
                continue
            if a:
                obj = at_version(a[0], ver)
            else:
                key = {"mesh": 6000, "topology": 7000}
                k = [x for x in kw if x in key]
                if not k:
                    raise Unsupported("arguments of compute_incident_entities")
                obj = at_version(kw[k[0]], ver)
                rep.check((k[0] == "topology") == (VERSIONS[ver] >= 7000), f"{name}:{ver}:{line(e)}:keyword", f"{name}: version {ver} has no parameter {k[0]}", r.where + f":{line(e)}")
            b = obj.atom()
            if b is None:
                raise Unsupported("argument of compute_incident_entities " + T.show(obj)[:80])
            topo = b.kind == "attr" and b.args[1] in ("topology", "_cpp_object") or T.show(obj).endswith("topology)")
            topo = b.kind == "attr" and b.args[1] == "topology"
            new = VERSIONS[ver] >= 7000
            rep.check(topo == new, f"{name}:{ver}:{line(e)}", f"{name}: with version {ver} of the library compute_incident_entities takes the {'topology' if new else 'mesh'}, it gets the {'topology' if topo else 'mesh'}", r.where + f":{line(e)}")


def c45(rep):
    rep.pmap([(n, c45_n, (n,)) for n in anchored(rep, [n for n in generators() if uses_gmsh(n)], "generators")])


CHECKS = {"C40": c40, "C41": c41, "C42": c42, "C43": c43, "C44": c44, "C45": c45, "C46": c46}
