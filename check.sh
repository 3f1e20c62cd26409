#!/bin/bash
# check.sh <property-id>: builds the analyzer and decides the property on /repo's working tree.
cd "$(dirname "$0")" || exit 1
here=$PWD
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod
mkdir -p "$here/.build" "$here/evidence"
id=$1
fail() {
  echo "$1" | tee "$here/evidence/$id.report.txt"
  printf '{"property":"%s","tier":"%s","seed":%s,"level":"other","wall_s":0,"coverage":{"explanation":"the check could not run: %s"}}\n' "$id" "${VERIF_TIER:-quick}" "${VERIF_SEED:-0}" "$2" > "$here/evidence/$id.json"
  echo "VIOLATION property=$id replay=$here/evidence/$id.report.txt"
  exit 1
}
bin="$here/.build/analyzer.$$"
trap 'rm -f "$bin"' EXIT
(cd "$here/analyzer" && go build -o "$bin" .) || fail "the analyzer does not build" "build failure"
export GOFLAGS=-mod=readonly
timeout 850 "$bin" -property "$id" -repo /repo -out "$here/evidence" -known "$here/known_findings.json"
rc=$?
if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
  fail "the analyzer stopped with status $rc (nothing decided)" "analyzer status $rc"
fi
exit $rc
