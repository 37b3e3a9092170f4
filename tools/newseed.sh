#!/bin/bash
# newseed.sh ID: takes the changes of the scratch tree /tmp/plant as patch.diff of /verif/seeded/ID, adds demo.sh.
d=/verif/seeded/$1; mkdir -p "$d"
git -C /tmp/plant diff > "$d/patch.diff"
git -C /tmp/plant checkout -q -- .
cat > "$d/demo.sh" <<'X'
#!/bin/bash
# Builds main.go into the module in the current directory through an overlay and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
echo "{\"Replace\":{\"$PWD/zz_demo/main.go\":\"$here/main.go\"}}" > "$tmp/overlay.json"
go build $DEMOFLAGS -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 2
cd "$tmp" && ./demo
X
chmod +x "$d/demo.sh"
