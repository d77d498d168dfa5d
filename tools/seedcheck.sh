#!/bin/bash
# usage: seedcheck.sh ID [CHECKS...]: try a planted bug in place: build, stable tests, demo with and
# without it, and the checks of its property (or the given ones). Always undoes it.
cd "$(dirname "$0")/.." || exit 1
d=seeded/$1; id=$1; shift
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "/repo is not clean"; exit 1; }
checks=${*:-$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $d/meta.json)}
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
if [ -z "$NODEMO" ]; then
    (cd /repo && bash "/verif/$d/demo.sh" >/tmp/seed.$id.clean 2>&1); c=$?
    echo "$id demo clean: $c"; [ $c = 0 ] || { cat /tmp/seed.$id.clean; exit 1; }
fi
git -C /repo apply "/verif/$d/patch.diff" || exit 1
if [ -z "$NODEMO" ]; then
    bash /opt/vp/build.sh >/tmp/seed.$id.build 2>&1 || { echo "$id does not build"; tail -20 /tmp/seed.$id.build; exit 1; }
    bash /opt/vp/test.sh /tmp/seed.$id.json >/dev/null 2>&1
    python3 - /tmp/seed.$id.json <<'P'
import json,sys
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
r=json.load(open(sys.argv[1]))
s=json.dumps(r)
p=set(r.get('passed',r.get('pass',[])))
print('  tests missing:', sorted(base-p) if p else s[:300])
P
    (cd /repo && bash "/verif/$d/demo.sh" >/tmp/seed.$id.bug 2>&1); c=$?
    echo "$id demo with bug: $c: $(tail -n 1 /tmp/seed.$id.bug | cut -c1-150)"
fi
for k in $checks; do
    bash check.sh $k >/tmp/seed.$id.$k 2>&1; c=$?
    echo "$id check $k: exit $c: $(grep -B1 VIOLATION /tmp/seed.$id.$k | cut -c1-220 | tr '\n' ' ')"
    f=$(sed -n 's/^VIOLATION .*replay=//p' /tmp/seed.$id.$k); [ -n "$f" ] && rm -f "$f"
done
