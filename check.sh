#!/bin/bash
# check.sh PROP            run the check of one property (VERIF_TIER, VERIF_SEED)
# check.sh replay FILE     replay a reported violation against the real code
# check.sh build           build the engine only
set -u
cd "$(dirname "$0")" || exit 2
VERIF=$(pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOCACHE=$VERIF/.gocache CGO_ENABLED=0
mkdir -p "$VERIF/.gocache" "$VERIF/bin"
build() {
  (cd engine && GOFLAGS=-mod=mod go build -o "$VERIF/bin/vsym.$$" . && mv "$VERIF/bin/vsym.$$" "$VERIF/bin/vsym")
}
build || { echo "engine build failed" >&2; exit 2; }
case "${1:-}" in
  build) exit 0 ;;
  replay) exec "$VERIF/bin/vsym" replay -verif "$VERIF" -file "$2" ;;
  *) P=$1; shift; exec "$VERIF/bin/vsym" check -verif "$VERIF" -prop "$P" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" "$@" ;;
esac
