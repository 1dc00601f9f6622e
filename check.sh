#!/bin/sh
# check.sh build | PROP quick|thorough | replay FILE | sweep PROP FROM N | run PROP SEED | spec PROP SEED
set -e
here=$(cd "$(dirname "$0")" && pwd)
for g in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
	[ -x "$g/go" ] && PATH="$g:$PATH" && break
done
export PATH GOWORK=off GOTOOLCHAIN=local GOFLAGS= GOPROXY=off GOSUMDB=off
export HOME="${HOME:-/root}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
mkdir -p "$here/.build"
(cd "$here/sim/vsim" && go build -o "$here/.build/vsim" .) || { echo "vsim does not build" >&2; exit 2; }
case "$1" in
build | replay | sweep | run | spec) exec "$here/.build/vsim" "$@" ;;
*) exec "$here/.build/vsim" check "$@" ;;
esac
