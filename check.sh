#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's current source.
# Builds the analyser (offline, vendored) on demand, then runs it.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
export HOME=${HOME:-/root}
if ! "$here/build.sh"; then
  mkdir -p "$here/evidence"
  echo '{"property":"'"$id"'","detail":"the analyser does not build"}' > "$here/evidence/$id.replay.json"
  echo "VIOLATION property=$id replay=$here/evidence/$id.replay.json"
  exit 1
fi
exec "$here/.bin/checker" -repo "${VERIF_REPO:-/repo}" -verif "$here" -tier "$tier" "$id"
