#!/bin/bash
# run.sh PROPERTY [quick|thorough]   decide one property on /repo's working tree
# run.sh replay FILE                 run one recorded case again
# run.sh setup                       build everything once (warms the build cache)
V="$(cd "$(dirname "$0")" && pwd)" || exit 2
export VERIF_DIR="$V"
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOFLAGS= GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=
S="$(mktemp -d /tmp/verif.XXXXXXXX)" || exit 2
trap 'rm -rf -- "$S"' EXIT
(cd "$V/driver" && go build -buildvcs=false -o "$S/driver" .) || exit 2
case "$1" in
setup) "$S/driver" -verif "$V" -scratch "$S" -setup ;;
replay) "$S/driver" -verif "$V" -scratch "$S" -replay "$(realpath "$2")" ;;
*)
  mkdir -p "$V/evidence" "$V/replays"
  "$S/driver" -verif "$V" -scratch "$S" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}" ${VERIF_LIMIT:+-limit "$VERIF_LIMIT"}
  ;;
esac
