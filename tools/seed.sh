#!/bin/bash
# tools/seed.sh ID: confirm a planted change in a scratch copy (applies, compiles, stable tests pass,
# demo passes without and fails with it) and say which checks report it. With -n: skip the checks.
N=""; [ "$1" = -n ] && { N=1; shift; }
ID=$1; S=/verif/seeded/$ID; D=$(mktemp -d /tmp/seedXXXXXX); trap 'rm -rf "$D"' EXIT
cp -a /repo "$D/repo"; cp -a "$S" "$D/seed"; rm -f "$D"/seed/*.diff "$D/seed/meta.json"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 MPLBACKEND=Agg PETSC_DIR=/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real
cd "$D/repo" || exit 1
bash "$D/seed/demo.sh" >"$D/o1" 2>&1; r=$?; [ $r = 0 ] || { echo "$ID: demo fails on the unchanged tree ($r)"; tail -5 "$D/o1"; }
git apply --check "$S/patch.diff" && git apply "$S/patch.diff" || { echo "$ID: does not apply"; exit 1; }
/opt/venv/bin/python - <<'P' || echo "$ID: does not compile"
import pathlib
for p in pathlib.Path("src").rglob("*.py"): compile(p.read_bytes(), str(p), "exec")
P
PYTHONPATH="$D/repo/src" /opt/venv/bin/python -m pytest -q --color=no -p no:cacheprovider tests/test_gmres.py tests/test_dxss.py 2>&1 | tail -1
bash "$D/seed/demo.sh" >"$D/o2" 2>&1; r=$?; echo "$ID: demo with the change: exit $r ($(tail -1 "$D/o2" | cut -c1-150))"; [ $r = 0 ] && echo "$ID: DEMO DOES NOT FAIL"
[ -n "$N" ] && exit
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /verif && DXSA_REPO="$D/repo" python3 dxsa/main.py $P 2>&1 | grep -v "^  " | tail -4 | cut -c1-250
