#!/bin/bash
# seedtest.sh [-t] ID...: demo on the clean tree and on the patched one, stable tests with -t, then the property's check.
tests=; [ "$1" = -t ] && { tests=1; shift; }
for id in "$@"; do
  s=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  d=$(mktemp -d /tmp/seedt.XXXX); cp -a /repo/. $d/
  (cd $d && bash $s/demo.sh >/tmp/seed.clean 2>&1); a=$?
  git -C $d apply $s/patch.diff || { echo "$id: patch does not apply"; rm -rf $d; continue; }
  (cd $d && bash $s/demo.sh >/tmp/seed.bad 2>&1); b=$?
  t=-
  if [ -n "$tests" ]; then
    t=$(cd $d && export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off; mkdir $d.m; cp go.mod $d.m/gears.mod; cp go.sum $d.m/gears.sum; export GOFLAGS="-mod=mod -modfile=$d.m/gears.mod"
      go build ./... >/dev/null 2>&1 || echo NOBUILD; go test -json -vet=off -count=1 -p 1 -timeout 10m ./... > $d.m/log 2>/dev/null; python3 - $d.m/log <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); st=set(b['stable'])
ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add((e['Package'],e['Test']))
names={a+'::'+t for a,t in ok}|{a+'.'+t for a,t in ok}|{a+'/'+t for a,t in ok}|{a+' '+t for a,t in ok}
miss=[s for s in st if s not in names]
print('tests-ok' if not miss else 'MISSING %d %s'%(len(miss),miss[:3]))
P
      rm -rf $d.m)
  fi
  r=$(/verif/bin/govc check -repo $d $p 2>&1); rc=$?
  echo "$id clean=$a patched=$b $t check=$rc $(echo "$r" | grep -E '^(OK|VIOLATION|NO-VIOL|ERROR)' | head -1) :: $(echo "$r" | grep -E '^(UNPROVED|UNDECIDED|FINDER)' | head -1 | cut -c1-150)"
  rm -rf $d
done
