#!/bin/bash
# run.sh PROPERTY [quick|thorough] [CASE]: builds the monitors against the working tree of /repo and runs them.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"; only="${3:-}"
repo="${VERIF_REPO:-/repo}"
export HOME="${HOME:-/root}"
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=readonly
work="$(mktemp -d "${TMPDIR:-/tmp}/verif-build-XXXXXX")"
trap 'rm -rf "$work"' EXIT
chmod 711 "$work" # the monitors run as nobody
race=
case "$prop" in C14|C23) race=-race; export CGO_ENABLED=1;; esac
{
  echo '{"Replace":{'
  sep=
  for f in "$here"/harness/*.go; do
    printf '%s"%s/zz_verif/%s":"%s"' "$sep" "$repo" "$(basename "$f")" "$f"; sep=,
  done
  if [ "$prop" = C24 ]; then
    for f in "$here"/harness/shim/render/*.go; do
      printf '%s"%s/render/%s":"%s"' "$sep" "$repo" "$(basename "$f")" "$f"
    done
  fi
  echo '}}'
} > "$work/overlay.json"
tags=
[ "$prop" = C24 ] && tags="-tags verifshim"
cd "$repo" || exit 3
if [ -n "$tags" ] && ! go build $race $tags -overlay "$work/overlay.json" -o "$work/mon" ./zz_verif >"$work/build.log" 2>&1; then
  tags= # without the shim
fi
if ! go build $race $tags -overlay "$work/overlay.json" -o "$work/mon" ./zz_verif >"$work/build.log" 2>&1; then
  cat "$work/build.log" >&2
  echo "build of the monitors against $repo failed" >&2
  exit 3
fi
if [ "$prop" = -list ]; then "$work/mon" -list; exit $?; fi
args=(-prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -dir "$here")
[ -n "$only" ] && args+=(-case "$only")
"$work/mon" "${args[@]}"
