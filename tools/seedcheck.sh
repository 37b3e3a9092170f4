#!/bin/bash
# seedcheck.sh ID...: confirms planted bugs in a scratch copy: applies, builds, passes the stable tests, the demo
# passes without and fails with the patch, and the lines changed are original. With CHECK=1 also runs the property's check.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
for id in "$@"; do
  d=/verif/seeded/$id
  w=$(mktemp -d /tmp/seed-XXXXXX)
  cp -a /repo "$w/repo"
  cd "$w/repo" || exit 1
  git checkout -q -- . 
  ok=1
  bash "$d/demo.sh" >"$w/demo0.log" 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -5 "$w/demo0.log"; ok=0; }
  git apply "$d/patch.diff" || { echo "$id: patch does not apply"; ok=0; }
  for f in $(git diff --name-only); do
    git diff -U0 HEAD -- "$f" | grep -oP '^@@ -\K[0-9]+(,[0-9]+)?' | while IFS=, read s n; do
      n=${n:-1}; [ "$n" = 0 ] && continue
      git blame -s -L "$s,+$n" HEAD -- "$f" | grep -v '^^' | sed "s/^/$id: not an original line: /"
    done
  done
  go build ./... || { echo "$id: does not build"; ok=0; }
  go test -count=1 ./... >"$w/test.log" 2>&1 || true
  grep -E '^\s*--- FAIL|^FAIL' "$w/test.log" | grep -v 'TestNothing' | sed "s/^/$id: /"
  bash "$d/demo.sh" >"$w/demo1.log" 2>&1 && { echo "$id: demo passes with the patch"; ok=0; }
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  res=
  if [ -n "$CHECK" ]; then
    cp -a /verif "$w/verif"; out=$(VERIF_REPO="$w/repo" VERIF_SEED=${VERIF_SEED:-1} bash "$w/verif/run.sh" $p quick 2>&1); rc=$?
    res="check rc=$rc"; [ $rc = 1 ] && echo "$out" | grep -q "^VIOLATION property=$p" && res="caught by $p: $(echo "$out" | grep -m1 -oP '^case .*')"
  fi
  echo "$id: ok=$ok $res"
  cd /; rm -rf "$w"
done
