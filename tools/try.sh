#!/bin/bash
# try.sh ID: confirms a planted bug in a scratch copy (tests pass with it, demo 0 without / nonzero with), no check involved.
ID=$1; D=/verif/seeded/$ID
W=$(mktemp -d /tmp/try.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo"
chmod +x $D/demo.sh; rm -rf "$W/d"; cp -r $D "$W/d"
bash "$W/d/demo.sh" > "$W/o0" 2>&1; a=$?
git apply $D/patch.diff || { echo "patch does not apply"; exit 1; }
bash "$W/d/demo.sh" > "$W/o1" 2>&1; b=$?
git checkout -q -- .
# tests through the real scripts need /repo itself
git -C /repo apply $D/patch.diff && bash /opt/vp/build.sh > "$W/build" 2>&1; c=$?
bash /opt/vp/test.sh "$W/t.json" > "$W/test" 2>&1
git -C /repo checkout -q -- .
python3 - "$W/t.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def names(x):
    for k in ('passed','stable','tests'):
        if isinstance(x,dict) and k in x: return set(x[k])
    return set(x)
base=names(b); ok=set(t.get('passed',[]))
print("baseline tests failing with the patch:", sorted(base-ok)[:5])
P
echo "$ID: demo unchanged=$a patched=$b build=$c"; tail -3 "$W/o0"; echo --; tail -5 "$W/o1"
