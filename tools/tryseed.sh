#!/bin/bash
# tryseed.sh ID [check...]: tries a planted bug in a private copy of /repo and /verif (own mount namespace):
# build, stable tests, demonstration, and the checks named (default: the bug's property). Prints one line per step.
id=$1; shift
src=/verif/seeded/$id
[ -f $src/patch.diff ] || { echo "no $src"; exit 1; }
checks=${*:-$(python3 -c "import json;print(json.load(open('$src/meta.json'))['property'])")}
t=$(mktemp -d /tmp/try.XXXXXX)
cp -a /repo $t/repo
mkdir $t/verif
(cd /verif && git ls-files -co --exclude-standard | grep -v '^seeded/' | tar cf - -T - | tar xf - -C $t/verif)
cp -a $src $t/seed
export t id checks
unshare -Urm bash -c '
mount --bind $t/repo /repo; mount --bind $t/verif /verif
cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $t/seed/demo.sh >$t/demo0 2>&1; d0=$?
git apply $t/seed/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash /opt/vp/test.sh $t/out.json >$t/test.log 2>&1
python3 - <<X
import json
want=json.load(open("/opt/vp/BASELINE.json")); got=json.load(open("$t/out.json"))
w=want["stable"]
miss=[x for x in w if x not in set(got["passed"])]
print("$id: tests", len(w)-len(miss), "of", len(w), miss[:5])
X
timeout 300 bash $t/seed/demo.sh >$t/demo1 2>&1; d1=$?
echo "$id: demo unchanged=$d0 patched=$d1"
[ $d0 = 0 ] || tail -5 $t/demo0
for c in $checks; do
  s=$(date +%s)
  cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $c --tier quick >$t/check 2>&1; r=$?
  echo "$id: $c exit $r in $(( $(date +%s) - s ))s: $(grep -B1 VIOLATION $t/check | head -2 | cut -c1-250 | tr "\n" " ")"
  [ $r = 1 ] || tail -3 $t/check
done
'
python3 -c "import shutil, sys; shutil.rmtree(sys.argv[1])" "$t"
