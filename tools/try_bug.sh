#!/bin/bash
# Vets one planted bug: builds and tests /repo with it, runs its demonstration with and without it,
# then runs its property's check (and any further ones named) against it. Not used by any check.
# usage: tools/try_bug.sh ID [--no-vet] [Cxx ...]
set -u
id=$1; shift
d=/verif/seeded/$id
vet=1; [ "${1:-}" = --no-vet ] && { vet=0; shift; }
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
restore() { git -C /repo checkout -q -- .; }
trap restore EXIT
log=$(mktemp -d /tmp/try_bug.XXXXXX)
if [ $vet = 1 ]; then
    bash /opt/vp/build.sh > $log/b0 2>&1 || echo "BAD clean build"
    (cd /repo && timeout 300 bash $d/demo.sh > $log/d0 2>&1); r=$?
    [ $r = 0 ] && echo "demo clean: 0" || { echo "BAD demo clean: $r"; tail -20 $log/d0; }
fi
git -C /repo apply $d/patch.diff || { echo "BAD patch"; exit 2; }
if [ $vet = 1 ]; then
    bash /opt/vp/build.sh > $log/b1 2>&1 || { echo "BAD build"; grep -m5 -A9 '^error' $log/b1; }
    bash /opt/vp/test.sh $log/o.json > $log/t1 2>&1
    python3 - $log/o.json <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=o.get('passed') or [k for k,v in o.get('tests',o).items() if v in('pass','passed',True)]
m=[t for t in b if t not in p]
print('tests:', len(b)-len(m), 'of', len(b), 'pass', 'BAD '+str(m) if m else '')
P
    (cd /repo && timeout 300 bash $d/demo.sh > $log/d1 2>&1); r=$?
    [ $r != 0 ] && echo "demo patched: $r" || { echo "BAD demo patched: 0"; tail -5 $log/d1; }
fi
for p in $props; do
    s=$(date +%s)
    (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p quick > $log/c.$p 2>&1); r=$?
    [ $p = C02 ] && (cd /verif && grep -q . $log/c.$p || true)
    echo "check $p: exit $r in $(( $(date +%s) - s )) s: $(grep -m2 -h 'VIOLATION' $log/c.$p | tr '\n' ' ') $(grep -m1 'class' $log/c.$p)"
done
echo "logs $log"
