#!/bin/bash
# tools/plant.sh ID [tests] : try the planted change seeded/ID in a scratch copy of /repo.
# Prints: demo on the clean tree, demo with the change, (tests), what the check says.
ID=$1
R=$(cd "$(dirname "$0")/.." && pwd)
D=$R/seeded/$ID
C=/tmp/plant-$ID
rm -rf "$C"; cp -a /repo "$C" || exit 2
cd "$C" && git checkout -q -- . && git apply "$D/patch.diff" || { echo "$ID: patch does not apply"; rm -rf "$C"; exit 2; }
mkdir -p "$C/.demo"; cp -a "$D"/. "$C/.demo/"; rm -f "$C/.demo/patch.diff" "$C/.demo/meta.json"
(cd /repo && timeout 300 bash "$C/.demo/demo.sh" >/tmp/plant-$ID.demo0 2>&1; echo "$ID: demo clean rc=$?")
(cd "$C" && PYTHONPATH=$C/src timeout 300 bash "$C/.demo/demo.sh" >/tmp/plant-$ID.demo1 2>&1; echo "$ID: demo planted rc=$?"; tail -1 /tmp/plant-$ID.demo1)
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
if [ "$2" = tests ]; then
    sed -e "s#cd /repo#cd $C#" -e "s#PYTHONPATH\$##" -e "s#^unset .*#unset SPARK_HOME; export PYTHONPATH=$C/src#" /opt/vp/test.sh > "$C/.demo/test.sh"
    bash "$C/.demo/test.sh" /tmp/plant-$ID.json > /tmp/plant-$ID.log 2>&1
    python3 - "$ID" <<'P'
import json, sys
d = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/plant-%s.json' % sys.argv[1]))
m = sorted(set(d['stable']) - set(o['passed']))
print("%s: %d stable tests fail %s" % (sys.argv[1], len(m), m[:3]))
P
fi
GE_SRC=$C/src "$R/check" $P quick > /tmp/plant-$ID.check 2>&1
echo "$ID: check $P rc=$? $(grep -c "^VIOLATION property=$P" /tmp/plant-$ID.check) $(head -c 300 /tmp/plant-$ID.check | head -1)"
rm -rf "$C"
