"""mkseed.py ID PROPERTY FILE <<< JSON {"edits":[[old,new],...],"needs":..,"breaks":..}: writes patch.diff and meta.json."""
import json, pathlib, subprocess, sys, tempfile, shutil
sid, prop = sys.argv[1:3]
d = json.load(sys.stdin)
S = pathlib.Path("/verif/seeded") / sid
S.mkdir(parents=True, exist_ok=True)
with tempfile.TemporaryDirectory() as t:
    r = pathlib.Path(t) / "repo"
    shutil.copytree("/repo", r, symlinks=True)
    for f, old, new in d["edits"]:
        p = r / "src/dxss" / f
        s = p.read_text()
        n = 1
        if isinstance(old, list):
            old, n = old
        assert s.count(old) >= 1, (f, old)
        if s.count(old) > 1:
            assert n < 0 or n != 1 or False, (f, "ambiguous", s.count(old), old)
        if s.count(old) == 1:
            s = s.replace(old, new)
        else:                       # n = -(k): k-th occurrence
            parts = s.split(old)
            k = -n
            s = old.join(parts[:k]) + new + old.join(parts[k:])
        p.write_text(s)
    out = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
    assert out
    (S / "patch.diff").write_text(out)
(S / "meta.json").write_text(json.dumps(dict(property=prop, needs=d["needs"], what_it_breaks=d["breaks"]), indent=1) + "\n")
print(sid, len(out.splitlines()), "diff lines")
