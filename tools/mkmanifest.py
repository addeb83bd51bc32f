"""Writes /verif/MANIFEST.json from meta.PROPS and properties.jsonl."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from dxsa import meta
props = [json.loads(l) for l in open(V / "properties.jsonl")]
NA = {
 "N01": "Convergence order is a statement about limits of solutions of the discrete systems (approximation theory plus spectra); no dataflow or type argument over the source bounds a runtime error norm.",
 "N02": "The number of GMRES iterations is determined by the spectrum of the preconditioned operator, a runtime quantity no sound static argument over this source can bound.",
 "N03": "Nonsingularity of the assembled slab matrices is a runtime spectral quantity depending on mesh, weights and coercivity constants.",
 "N04": "Dof numbering, ghost layout and update semantics live inside dolfinx (not installed, not part of the repository); the source only passes local arrays along.",
 "N05": "The outcome of OpenCASCADE boolean operations is computed by gmsh at run time; whether fragments end up where intended cannot be derived from the calls.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in meta.PROPS:
        m = meta.PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 dxsa/main.py {i}", thorough_cmd=f"python3 dxsa/main.py {i} --tier thorough",
                           technique=m["technique"], level=m["level"], level_note=m["note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="python3 -c pass", checks=checks, not_applicable=na), open(V / "MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
