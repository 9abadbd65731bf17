#!/bin/bash
# tryseed.sh ID [check...]: confirm a planted bug in scratch copies of /repo and /verif (bind-mounted over the
# real ones in a namespace), then run the checks (default: the bug's own property) against it.
set -u
ID=$1; shift
S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
CHECKS=${*:-$P}
if [ -z "${IN_NS:-}" ]; then
  mkdir -p /tmp/seedrepo /tmp/seedverif
  rsync -a --delete --exclude target/vp-test.log /repo/ /tmp/seedrepo/ 2>/dev/null || { rm -rf /tmp/seedrepo; cp -a /repo /tmp/seedrepo; }
  rsync -a --delete --exclude '/*/target' --exclude evidence --exclude replays /verif/ /tmp/seedverif/ 2>/dev/null
  [ -d /tmp/seedverif/codec/target ] || cp -a /verif/codec/target /tmp/seedverif/codec/ 2>/dev/null
  [ -d /tmp/seedverif/server/target ] || cp -a /verif/server/target /tmp/seedverif/server/ 2>/dev/null
  IN_NS=1 exec unshare -rm bash "$0" "$ID" "$@"
fi
mount --bind /tmp/seedrepo /repo && mount --bind /tmp/seedverif /verif || exit 9
cd /repo || exit 9
say() { echo "[$ID] $*"; }
rm -rf /tmp/seeddemo; mkdir /tmp/seeddemo; cp -r "$S"/. /tmp/seeddemo/; rm -f /tmp/seeddemo/*.diff /tmp/seeddemo/meta.json
if [ -z "${ONLYCHECK:-}" ]; then
bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { say BUILD-CLEAN-FAILED; exit 1; }
timeout 300 bash /tmp/seeddemo/demo.sh >/tmp/seeddemo.clean 2>&1; r=$?
[ $r = 0 ] && say "demo clean: ok" || { say "DEMO FAILS ON CLEAN TREE ($r)"; tail -5 /tmp/seeddemo.clean; }
fi
git apply "$S/patch.diff" || { say "PATCH DOES NOT APPLY"; exit 1; }
if [ -z "${ONLYCHECK:-}" ]; then
bash /opt/vp/build.sh >/tmp/seed.log 2>&1 || { say BUILD-FAILED; tail -20 /tmp/seed.log; git checkout -q -- .; exit 1; }
bash /opt/vp/test.sh /tmp/seedtest.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seedtest.json'))
k=[x for x in b if 'pass' in x or 'stable' in x]
base=set(sum((b[x] for x in k if isinstance(b[x],list)),[])) if isinstance(b,dict) else set(b)
miss=base-set(t['passed'])
print('   tests:', 'ok' if not miss else 'BROKEN %s'%sorted(miss)[:5], len(t['passed']))
P
cd /repo; timeout 300 bash /tmp/seeddemo/demo.sh >/tmp/seeddemo.bug 2>&1; r=$?
[ $r != 0 ] && say "demo with bug: fails ($r): $(tail -1 /tmp/seeddemo.bug | cut -c1-150)" || say "DEMO PASSES WITH THE BUG"
fi
cd /verif
for c in $CHECKS; do
  VERIF_SEED=${SEED:-1} VERIF_TIER=${TIER:-quick} timeout 900 bash run.sh $c >/tmp/seedcheck.out 2>/tmp/seedcheck.err; r=$?
  case $r in 1) say "$c CAUGHT: $(grep -m1 VIOLATION /tmp/seedcheck.out) $(grep -m1 -v '^==' /tmp/seedcheck.err | cut -c1-200)" ;; 0) say "$c missed" ;; *) say "$c ERROR EXIT $r: $(tail -3 /tmp/seedcheck.err)" ;; esac
done
cd /repo; git checkout -q -- .
