#!/bin/bash
# run.sh ID [-replay FILE]: builds the harness against /repo's working tree and
# runs the check of the property (or replays a case).
set -u
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; shift
. "$here/env.sh"
race=""
case "$id" in M06) race="-race"; export CGO_ENABLED=1;; esac
dir="$(mktemp -d)" || exit 2
trap 'rm -rf "$dir"' EXIT
if ! (cd "$here/harness" && go build $race -o "$dir/harness" .) >"$dir/build.log" 2>&1; then
  cat "$dir/build.log"
  echo "ERROR: the harness doesn't build"
  exit 2
fi
"$dir/harness" -prop "$id" -verif "$here" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" "$@"
exit $?
