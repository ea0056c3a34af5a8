#!/bin/bash
# Demonstrations of the defects repaired in /repo (documentation, not a check).
# usage: run.sh [TREE]   (default /repo)
here=$(cd "$(dirname "$0")" && pwd); tree=${1:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
ov=$(mktemp); trap 'rm -f "$ov"' EXIT
echo "{\"Replace\":{\"$tree/zz_defects_test.go\":\"$here/defects_test.go\"}}" > "$ov"
cd "$tree" || exit 2
rc=0
for t in $(grep -o '^func TestDefect[A-Za-z]*' "$here/defects_test.go" | sed 's/func //'); do
  if out=$(go test -overlay "$ov" -vet=off -count=1 -timeout 60s -run "^$t\$" . 2>&1); then echo "ok    $t"; else
    rc=1; echo "FAIL  $t: $(echo "$out" | grep -E 'panic:|fatal error|_test.go:[0-9]+:|signal' | head -1)"; fi
done
exit $rc
