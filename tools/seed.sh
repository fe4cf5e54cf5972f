#!/bin/bash
# Development aid, not part of any check.  seed.sh ID [PROP...]: apply seeded/ID in a scratch clone of /repo's HEAD, build, run
# the stable tests, run the demo with and without it, and run the quick check of each property (default: the one in meta.json).
id=$1; shift
D=/verif/seeded/$id
W=/tmp/seedwt
[ -d $W/.git ] || git clone -q /repo $W
git -C $W fetch -q && git -C $W reset -q --hard origin/$(git -C /repo rev-parse --abbrev-ref HEAD)
b() { (CC=/usr/bin/gcc CXX=/usr/bin/g++ cmake -S $W -B $W/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DCMAKE_CXX_FLAGS=-Wno-error && ninja -C $W/_build -j8) > /tmp/seed.build.log 2>&1; }
demo() { (cd $W && timeout 300 bash $D/demo.sh > /tmp/seed.demo.log 2>&1; echo $?); }
props="$@"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
if [ -z "$SKIP_CLEAN" ]; then b || echo "CLEAN BUILD FAILED"; echo "demo clean: $(demo)"; fi
git -C $W apply $D/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
b || { echo "BUILD FAILED"; grep error /tmp/seed.build.log | head -3; }
python3 /opt/vp/run_doctest.py $W/_build > /tmp/seed.tests.log 2>/dev/null; echo "tests: $(grep -ci pass /tmp/seed.tests.log) lines pass, $(grep -ci fail /tmp/seed.tests.log) lines fail"
echo "demo patched: $(demo)"; tail -2 /tmp/seed.demo.log
[ -n "$NO_CHECK" ] || for p in $props; do
  s=$(date +%s); (cd /verif && VP_REPO=$W timeout 900 python3 tools/check.py $p quick > /tmp/seed.check.log 2>&1); rc=$?
  echo "check $p: exit $rc, $(($(date +%s) - s)) s, $(grep -c "^VIOLATION property=$p" /tmp/seed.check.log) violation line(s): $(grep '^VIOLATION' /tmp/seed.check.log | head -1 | cut -c1-200)"
  grep -m2 -B1 -A3 -i "violat" /tmp/seed.check.log | cut -c1-300 | head -6
done
git -C $W checkout -q -- .
