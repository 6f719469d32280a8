#!/bin/bash
# tools/try_seed.sh DIR [CHECK...]: validates a planted bug (patch.diff, demo.sh) in a scratch copy and runs checks against it
d=$(realpath "$1"); shift; id=$(basename "$d")
w=/tmp/seedwork_$id; rm -rf "$w"; cp -a /repo "$w"; cd "$w" || exit 9
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export PYTHONPATH="$w/src"
bash "$d/demo.sh" >/tmp/seed_$id.demo0 2>&1; echo "$id demo clean rc=$?"
git apply "$d/patch.diff" || { echo "$id PATCH FAILS"; rm -rf "$w"; exit 1; }
bash "$d/demo.sh" >/tmp/seed_$id.demo1 2>&1; echo "$id demo patched rc=$? ($(tail -1 /tmp/seed_$id.demo1 | cut -c1-150))"
if [ -z "$NOTEST" ]; then
rm -rf tests/.test_dir
PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov --timeout=300 --randomly-seed=0 --randomly-dont-reorganize 2>&1 | grep -E "^(FAILED|ERROR)|passed|failed" | sed "s/^/$id tests: /" | cut -c1-200
fi
for c in "$@"; do
  ( cd /verif; MC_SRC="$w/src" MC_REPLAYS=/tmp/seed_replays ./check $c > /tmp/seed_$id.$c 2>/tmp/seed_$id.$c.err; echo "$id check $c rc=$?: $(grep -A1 '^case' /tmp/seed_$id.$c | tail -1 | cut -c1-160)" )
done
rm -rf "$w"
