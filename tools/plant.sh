#!/bin/bash
# tools/plant.sh ID [notests] [nocheck]: confirm a planted bug of /verif/seeded/ID in a scratch copy shown as /repo
# (private mount namespace): patch applies, build passes, stable tests pass, demo 0 without / nonzero with, own check's verdict.
set -u
ID=$1; shift
OPTS=" $* "
S=$(cd "$(dirname "$0")/.." && pwd)/seeded/$ID
W=$(mktemp -d /tmp/plant-XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cp -a "$S" "$W/demo"
PROP=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
git -C "$W/repo" apply "$S/patch.diff" || { echo "$ID: PATCH DOES NOT APPLY"; exit 1; }
( cd /repo && bash "$W/demo/demo.sh" ) >"$W/d0.log" 2>&1; D0=$?
unshare -Urm bash -c "
mount --bind $W/repo /repo
bash /opt/vp/build.sh >/dev/null 2>&1; echo build \$? > $W/res
( cd /repo && timeout 300 bash $W/demo/demo.sh ) >$W/d1.log 2>&1; echo demo \$? >> $W/res
case '$OPTS' in *' notests '*) ;; *) bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1;; esac
case '$OPTS' in *' nocheck '*) ;; *) cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python checks/$(echo $PROP | tr C c).py >$W/c.log 2>&1; echo check \$? >> $W/res;; esac
"
T=-
[ -f "$W/t.json" ] && T=$(python3 - "$W/t.json" <<'P'
import json,sys
t=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=t.get('passed',t)
p=set(p if isinstance(p,list) else [k for k,v in p.items() if v in(True,'passed','pass')])
m=[x for x in b if x not in p]
print('ok' if not m else 'FAIL '+str(m[:3]))
P
)
echo "$ID $PROP: demo-unchanged=$D0 tests=$T $(tr '\n' ' ' < "$W/res")"
[ $D0 = 0 ] || tail -5 "$W/d0.log"
tail -2 "$W/d1.log" | cut -c1-300
[ -f "$W/c.log" ] && tail -3 "$W/c.log" | cut -c1-400
