#!/bin/bash
# mkbug.sh ID PROPERTY "needs" "what it breaks": the edit is already in /repo's working tree, demo.R on stdin.
# Confirms that it builds, passes the stable tests, and that the demonstration tells the trees apart.
set -u
ID=$1; D=/verif/seeded/$ID; mkdir -p $D
cat > $D/demo.R
cat > $D/demo.sh <<'X'
#!/bin/bash
export R_LIBS="$PWD/_build/lib" R_LIBS_USER=/nonexistent LC_ALL=C.UTF-8 TZ=UTC
exec timeout 250 Rscript --no-init-file "$(cd "$(dirname "$0")" && pwd)/demo.R"
X
chmod +x $D/demo.sh
git -C /repo diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no change"; rm -r $D; exit 1; }
python3 - "$@" <<'X'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
X
cd /repo
bash /opt/vp/test.sh /tmp/bug.json > /tmp/bug.log 2>&1
python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=set(json.load(open('/tmp/bug.json'))['passed'])
m=[t for t in b if t not in o]; print("stable tests failing with the bug:", len(m), m[:3])
X
bash $D/demo.sh > /tmp/bug.demo 2>&1; echo "demo with bug: $? (want nonzero)"; tail -3 /tmp/bug.demo
git -C /repo checkout -- .
bash /opt/vp/build.sh >/dev/null 2>&1
bash $D/demo.sh > /tmp/bug.demo 2>&1; echo "demo without: $? (want 0)"
