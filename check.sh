#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property
# check.sh --replay FILE                 re-run a reported counterexample against the real code
# check.sh --setup                       build the symbolic executor
V="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
export HOME="${HOME:-/root}"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PATH="/opt/veriftools/go1.27.3/bin:$PATH" GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
mkdir -p "$V/.bin"
if ! (cd "$V/symgo" && go build -o "$V/.bin/symgo" .) ; then
  echo "check.sh: cannot build symgo" >&2
  exit 2
fi
case "$1" in
  --setup) exit 0 ;;
  --replay) exec "$V/.bin/symgo" -repo "$REPO" -verif "$V" -replay "$2" ;;
esac
exec "$V/.bin/symgo" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -repo "$REPO" -verif "$V"
