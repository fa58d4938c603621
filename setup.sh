#!/bin/bash
# Warms the build cache; every check builds what it needs by itself.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod
work=$(mktemp -d "${TMPDIR:-/tmp}/verif.setup.XXXXXX")
trap 'rm -rf "$work"' EXIT
cp -r "$here/harness" "$work/src" && cd "$work/src" && go build -o "$work/h" ./cmd/h && go build -race -o "$work/h" ./cmd/h
