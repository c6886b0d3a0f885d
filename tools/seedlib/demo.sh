#!/bin/bash
# Builds the program beside this script against the tree in the current directory and runs it.
# Exit 0: the property held in this scenario.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp "$here"/*.go "$work"/ || exit 2
cat > "$work/go.mod" <<M
module demo

go 1.21

require github.com/aboukirev/ouro v0.0.0

replace github.com/aboukirev/ouro => $repo
M
cd "$work" || exit 2
go build -o demo . || exit 2
timeout 120 ./demo > out.txt 2>&1
rc=$?
tail -5 out.txt
exit $rc
