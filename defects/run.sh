#!/bin/bash
# Shows the defects recorded in DESIGN.md against the real code: go test with an overlay that adds the
# files beside this script. Not part of any check (the checks are static); for the record only.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
repo=${REPO:-/repo}
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cat > $t/o.json <<J
{"Replace": {
"$repo/avc/verif_defects_test.go": "$here/avc_defects_test.go",
"$repo/hevc/verif_defects_test.go": "$here/hevc_defects_test.go",
"$repo/utils/verif_defects_test.go": "$here/utils_defects_test.go",
"$repo/collections/verif_defects_test.go": "$here/collections_defects_test.go",
"$repo/verif_defects_test.go": "$here/avformat_defects_test.go"}}
J
cd $repo && for p in ./avc ./hevc ./utils ./collections .; do go test -vet=off -count=1 -overlay $t/o.json -run 'TestDefect' $p 2>&1; done
