#!/bin/bash
# seedcheck.sh ID...: validates planted bugs in scratch copies of /repo and runs the check against them.
. /opt/vp/env.sh
one() {
  id=$1; d=/verif/seeded/$id; s=/tmp/seed_$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  rm -rf "/tmp/seed_$id"; cp -a "${SRC:-/repo}" "$s"; cd "$s" || exit 1
  (bash "$d/demo.sh" >/tmp/seed_$id.demo0 2>&1) && r0=ok || r0=BAD
  git apply "$d/patch.diff" || { echo "$id: patch does not apply"; return; }
  (go build ./... && cd samples && go build ./...) >/tmp/seed_$id.build 2>&1 && b=ok || b=BAD
  (bash "$d/demo.sh" >/tmp/seed_$id.demo1 2>&1) && r1=BAD || r1=ok
  grep -q 'FAIL\|panic' /tmp/seed_$id.demo1 || r1=BAD-$r1
  t=skipped
  if [ -z "$NOTEST" ]; then
    (go test -vet=off -count=1 ./internal/... . ./instrument/... ./runtime/... 2>&1 | grep -v 'no test files' >/tmp/seed_$id.tests); bad=$(grep '^ *--- FAIL' /tmp/seed_$id.tests | grep -v 'TestSyntheticLinkDependency\|TestBuildFromModuleSubdirectory\|TestAutoPin\|TestPin\|Test/simple\|^--- FAIL: Test ' | head -3 | tr '\n' ' '); t=${bad:-ok}
  fi
  ZZ_REPO=$s /verif/check.sh $prop quick >/tmp/seed_$id.check 2>&1; c=$?
  echo "$id ($prop): demo-before=$r0 build=$b demo-after=$r1 tests=$t check-exit=$c $(grep VIOLATION /tmp/seed_$id.check | head -2 | tr '\n' ' ')"
  rm -rf "/tmp/seed_$id"
}
for id in "$@"; do one "$id"; done
