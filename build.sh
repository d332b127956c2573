#!/bin/bash
# build.sh: builds the engine from engine/ and prints the path of the binary.
here=$(cd "$(dirname "$0")" && pwd)
out=$here/.build; mkdir -p "$out"
bin=$out/symgo
if [ ! -x "$bin" ] || [ -n "$(find "$here/engine" -name '*.go' -newer "$bin" -print -quit)" ]; then
	tmp=$(mktemp "$out/symgo.XXXXXX")
	(cd "$here/engine" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o "$tmp" .) >&2 || { rm -f "$tmp"; exit 1; }
	mv "$tmp" "$bin"
fi
echo "$bin"
