"""Compose /verif/DESIGN.md: design/head.md, one section per property (D below + dxsa/meta.py + properties.jsonl),
design/tail.md, and the table of seeded changes (seeded/*/meta.json + design/caught.json)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
from dxsa.meta import PROPS  # noqa: E402

# property -> (what the decision consists of, reach beyond tests, notes)
D={
"C01":("The whole-system form is reduced with N symbolic (sum over slabs), the slab form separately; difference must be the coupling forms, slab by slab, for all switch combinations, both one-sided variants, first slab included.","A test with N=2 cannot see a term that is wrong only in interior slabs or only for jumps; the symbolic sum sees every slab.","with jumps in the forward problem the slab getter's matrix is by design not the diagonal block (it contains the incoming jump penalty); the property is stated for the jump-free slab form."),
"C02":("Gather, multiply, scatter-add of `apply_spacetime_matrix` over an unknown vector with unknown previous output; equality with the assembled form applied to the same vector, block by block, first/interior/last slab.","All vectors and N.","KNOWN FINDING `missing-forward-jump-terms`: with `jumps_in_fw_problem=True` the matrix-free product omits exactly the forward-jump terms which the assembled matrix has. Not repaired: a repair needs a further assembled coupling matrix and design decisions (the drivers never combine the two). Any other difference is reported under another key."),
"C03":("Trial/test exchange on the normal forms of all assembled forms.","","The preconditioner's one-sided variant is by design unsymmetric and is excluded."),
"C04":("Slab form against a specification written from the optimality system: wave operator and adjoint, data term, primal and dual stabilisations, jump and first-slab terms, with time integrals derived independently.","",""),
"C05":("RHS terms as (slab, test member, time, weight); node times, weight moments, spatial weight equal to the matrix's data term; initial-data terms exactly the matrix's initial penalty applied to the data.","Moments are exact integrals, so any rule of sufficient degree passes.",""),
"C06":("The marching loop becomes a recurrence `fix`; per slab the right-hand side handed to the solver, the number and role of solvers, the stored blocks, and the coupling against the one-sided form.","Induction over the loop, not a number of slabs.",""),
"C07":("Both loops summarised; per-slab right-hand sides equal; refusal dominates every write.","",""),
"C08":("All vectors any application writes are replaced by arbitrary contents; outputs may not depend on them.","Quantifies over every history.",""),
"C09":("Blocks of transfers against interpolation blocks (each exactly once); two-level composition `Q b + M(b - A Q b)`; the coarse form against the fine form on the coarse mesh.","","A transfer loop flattened into one index over (slab, node) is undecided, not reported."),
"C10":("Finite graph of missing-member patterns under all call sequences to a fixed point; every operation interpreted in every prepared state.","Exhaustive over call sequences.",""),
"C11":("Same graph over cache contents; forms returned compared with those of a fresh object.","",""),
"C12":("Linearity of the data terms in exactly one indicator factor; effect analysis of user objects; second solver on another mesh.","",""),
"C13":("Constructor: spaces, matrices, switches against arguments; parameter object written positionally, by keyword, reordered.","",""),
"C14":("Reported numbers as gated roots/maxima/sums of spatial integrals; integrands against derived expression per slab and time; sample coverage for 1-3 slabs.","",""),
"C15":("Part 1: each reported integral inside exactly one global sum over the mesh communicator, and decisions on reduced values only. Part 2: interprocedural rank taint; collective calls control dependent on rank, also by early return/raise.","Deadlocks need particular process counts and timing; the rule covers all.",""),
"C16":("State before and after each post-processing entry point; plotted rows and exported fields against the time basis.","",""),
"C20":("Value and derivative tables as polynomials against derived Lagrange polynomials (tolerance 1e-9).","",""),
"C21":("Nodes/weights on [a,a+h] affine in a,h; compared with rules derived from Legendre polynomials.","",""),
"C22":("All entries of all returned matrices for the 16 order pairs as rationals.","",""),
"C23":("Polynomial identity.","",""),
"C30":("Normal-exit condition as Boolean function of the convergence reason(s) read after the solve; must exclude all negative and include all positive reasons.","PETSc failure reasons that tests cannot provoke.",""),
"C31":("Configuration at the solve site per parameter (given/zero/omitted).","",""),
"C32":("Alias and provenance of operator, preconditioner, vectors at the solve site and of the returned pair.","",""),
"C33":("Monitors installed at the solve site as function of the switch; effect of the monitor.","",""),
"C40":("Session typestate of gmsh initialize/finalize per rank.","",""),
"C41":("Returned list as sequence term: element k+1 is refine(element k); entities created before.","",""),
"C42":("Writer set, barrier, reader set per rank.","",""),
"C43":("Raise gate recognised semantically as 'sorted tags are consecutive' by evaluating its normal form; provenance of coordinates (sorted by tag) and cells (zero-based, vertex permutation).","",""),
"C44":("Marking loops: groups of every surface sum to one; boundary gate evaluated on centres on sides and inside.","","The inclusion generators on [-1.5,1.5]^2 test their boundary against 0/1; the statement covers the unit-square generators only (recorded here, not claimed)."),
"C45":("Every generator interpreted under library versions 0.6.0, 0.7.0, 0.7.3.","",""),
"C46":("Interval model of boxes/disks/cut/fragment with default arguments; cell complex of all cut planes covered.","",""),
"C50":("Operator/preconditioner/rhs roles and slab solvers as 'exact solve of matrix X' for every backend; factorisation after last change.","",""),
"C51":("Exponential-trigonometric polynomials; wave operator, derivative, traces vanish identically.","",""),
"C52":("Indicators at a generic point as threshold predicates, evaluated on the whole arrangement of thresholds; thresholds aligned with the interpreted mesh.","",""),
"C53":("Import and entry with the package absent/present; reachable references.","",""),
"C60":("Scopes, may-be-bound dataflow, members, signatures; faults on feasible guards of interpreted entry points.","",""),
"C61":("Triple reaching the sparse constructor; factorise before solve; complete write of the output.","",""),
}


def rd(p):
    return open(os.path.join(HERE, "design", p)).read()


props = {json.loads(x)["id"]: json.loads(x) for x in open(ROOT + "/properties.jsonl")}
man = json.load(open(ROOT + "/MANIFEST.json"))
out = [rd("head.md"), "## 3. Properties: method, oracle, bounds\n"]
for p in sorted(PROPS):
    m, d = PROPS[p], D.get(p, ("", "", ""))
    out += [f"### {p} {props[p]['title']}\n", f"*Method:* {m['technique']}."]
    if d[0]:
        out.append(f"*Decision:* {d[0]}")
    out += [f"*Oracle / rule:* {m['rule']}", f"*Reach and bounds:* {m['note']} {d[1]}".rstrip()]
    if d[2]:
        out.append(f"*Notes:* {d[2]}")
    out.append("")
tail = rd("tail.md")
na = "\n".join(f"* **{x['property']}** {props[x['property']]['title']}: {x['reason']}" for x in man["not_applicable"])
kf = json.load(open(ROOT + "/known_findings.json"))
fixed = "\n".join("* " + x for x in kf["fixed"])
known = "\n".join(f"* **{x['property']}** `{', '.join(x['keys'])}`: {x['what']}" for x in kf["findings"])
caught = json.loads(rd("caught.json"))
rows = ["| change | property | what it breaks | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {caught.get(i, m['property'])} |")
out.append(tail.replace("@NA@", na).replace("@FIXED@", fixed).replace("@KNOWN@", known).replace("@SEEDS@", "\n".join(rows)))
open(ROOT + "/DESIGN.md", "w").write("\n".join(out))
