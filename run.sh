#!/bin/bash
# run.sh PROPERTY [quick|thorough]   decide one property on /repo's working tree
# run.sh replay FILE                 feed a recorded violation to the native build
# run.sh setup                       build the engine
set -u
V="$(cd "$(dirname "$0")" && pwd)"
cd "$V" || exit 2
export HOME="${HOME:-/root}"
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
export GODEBUG=randautoseed=0
BIN="$V/bin/gosym"
build() {
  if [ ! -x "$BIN" ] || [ -n "$(find "$V/engine" -newer "$BIN" -name '*.go' 2>/dev/null | head -1)" ]; then
    mkdir -p "$V/bin"
    (cd "$V/engine" && go build -o "$BIN.$$" . && mv "$BIN.$$" "$BIN") || exit 2
  fi
}
case "${1:-}" in
setup)
  build
  (cd "$V/harness" && go build ./...) || exit 2
  exit 0 ;;
replay)
  build
  exec "$BIN" -replay "$2" -dir "$V/harness" ;;
C[0-9][0-9])
  P="$1"; T="${2:-${VERIF_TIER:-quick}}"
  build
  L=150; [ "$T" = thorough ] && L=2400
  pkg=$(echo "$P" | tr 'C' 'c')
  exec "$BIN" -prop "$P" -pkg "$pkg" -dir "$V/harness" -tier "$T" -limit "${VERIF_LIMIT:-$L}" -evidence "$V/evidence/$P.json" ;;
*) echo "usage: $0 PROPERTY [quick|thorough] | replay FILE | setup" >&2; exit 2 ;;
esac
