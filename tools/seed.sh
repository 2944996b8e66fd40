#!/bin/bash
# tools/seed.sh ID : validates seeded/ID in a scratch copy of /repo: patch applies, builds, stable tests pass, demo 0 without / nonzero with it.
v=$(cd "$(dirname "$0")/.." && pwd); id=$1; d=$v/seeded/$id; s=/tmp/sr
cp $v/tools/demo_template.sh "$d/demo.sh"; chmod +x "$d/demo.sh"
if [ ! -d $s ]; then cp -a /repo $s; fi
(cd $s && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq) || exit 1
(cd $s && bash "$d/demo.sh" >/tmp/seed.$id.a 2>&1); a=$?
(cd $s && git apply "$d/patch.diff") || { echo "$id: patch does not apply"; exit 1; }
(cd $s && bash "$d/demo.sh" >/tmp/seed.$id.b 2>&1); b=$?
if [ -z "$NOTEST" ]; then
. /opt/vp/env.sh; cd $s; export CARGO_TARGET_DIR=$s/target
L=$(mktemp -d)
timeout 420 cargo test --workspace --lib --no-fail-fast --offline -- --test-threads 8 --include-ignored > $L/1.log 2>&1
timeout 420 cargo test --workspace --bins --test '*' --no-fail-fast --offline -- --test-threads 8 > $L/2.log 2>&1
python3 /opt/vp/results.py $L/o.json "cargo:$L/*.log" >/dev/null
t=$(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('$L/o.json'))['passed']);print(sorted(b-p)[:5])")
rm -rf "$L"
fi
(cd $s && git checkout -q -f .)
echo "$id: demo unchanged=$a patched=$b missing tests=$t"
