#!/bin/bash
# run.sh ID: builds the harness from /repo's working tree and runs the check of property ID.
# VERIF_SEED and VERIF_TIER (quick|thorough) as given; VERIF_REPLAY=FILE re-runs the task of a violation file.
set -u
id=$1
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod
repo=${VERIF_REPO:-/repo}
work=$(mktemp -d "${TMPDIR:-/tmp}/verif.$id.XXXXXX")
trap 'rm -rf "$work"' EXIT
export VERIF_DIR=$here VERIF_WORK=$work VERIF_SITES=$work/sites.json VERIF_DICT=$work/dict.json VERIF_PROGRAM=$work/gevulot
if [ ! -w "$(dirname "$GOCACHE")" ]; then export GOCACHE=$work/cache; fi
cp -r "$here/harness" "$work/src"
cd "$work/src" || exit 2
race=() irace=()
if [ "$id" = C26 ]; then race=(-race) irace=(-race); fi
if ! (cd "$repo" && go build -o "$work/gevulot" .) >"$work/build.log" 2>&1; then
  cat "$work/build.log"; echo "ERROR: the program does not build"; exit 2
fi
if [ "$repo" != /repo ]; then sed -i "s#=> /repo#=> $repo#" go.mod; fi
# build WITH...: the harness with yield points (and a clock); without them if the rewritten code does not build
build() {
  rm -rf "$work/ov"; mkdir "$work/ov"
  go run ./cmd/instrument "$@" -repo "$repo" -out "$work/ov" >"$work/build.log" 2>&1 &&
    go build "${race[@]}" -overlay "$work/ov/overlay.json" -o "$work/h" ./cmd/h >>"$work/build.log" 2>&1
}
ok=1
if [[ $id = C29 || $id = C16 ]] && build -clock; then :
elif build "${irace[@]}"; then if [ "$id" = C29 ]; then echo "note: building without a clock"; export VERIF_CLOCKLESS=1; fi
else ok=0; fi
cp "$work/ov/dict.json" "$work/dict.json" 2>/dev/null
if [ $ok = 1 ]; then cp "$work/ov/sites.json" "$work/sites.json"; else
  export VERIF_CLOCKLESS=1
  echo "note: building without yield points"; tail -5 "$work/build.log"
  go build "${race[@]}" -o "$work/h" ./cmd/h >"$work/build.log" 2>&1 || { cat "$work/build.log"; echo "ERROR: the harness does not build"; exit 2; }
fi
cd "$work" || exit 2
"$work/h" check "$id"
