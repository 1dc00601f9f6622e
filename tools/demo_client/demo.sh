#!/bin/bash
# Runs the real client library in a scratch directory against a small gateway on loopback ports
# (scenario.go). Exit 0: the library behaved; non-zero: it did not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=$repo/go.work
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
# settings, overridden by conf.env
MAXCONNS=2; WINDOW=16; TPS=1000; TICK=1s; EXPIRE=60s; CHECK=1s; RELOAD=60m
[ -f "$here/conf.env" ] && . "$here/conf.env"
port() { while :; do p=$((20000 + RANDOM % 30000)); (exec 3<>/dev/tcp/127.0.0.1/$p) 2>/dev/null || { echo $p; return; }; done; }
P1=$(port); P2=$(port); P3=$(port)
mkdir -p "$work/config/store" "$work/logs"
op() {
  cat <<C
$1:
  client-id: "$2"
  address: "127.0.0.1:$3"
  segment: "^$4[0-9]{8}\$"
  max-conns: $MAXCONNS
  mt-window-size: $WINDOW
  throughput: $TPS
  tick-duration: $TICK
C
}
{
cat <<C
AppDebug: true
PoolSize: 100
Cache: {expire-time: $EXPIRE, expire-check-duration: $CHECK}
AuthClient: {StoreType: "yaml", ReloadTicker: $RELOAD, YamlFilePath: "config/store"}
Snowflake:
  B64: {DC: 0, Worker: 1}
  B32: {DC: 0, Worker: 1}
  BCD: "010203"
  SGIP: 3037196688
C
op cmpp 123456 $P1 138
op sgip 3037196688 $P2 130
op smgp 12345678 $P3 133
} > "$work/config/config.yaml"
client() {
  cat > "$work/config/store/$1_$2.yaml" <<C
client-id: "$2"
login-name: "$2"
shared-secret: "shared secret"
version: 48
need-report: 1
sms-display-no: "95566"
service-id: svc
default-msg-level: 3
fee-type: "05"
fee-code: free
mt-valid-duration: 2h
max-conns: 4
mt-window-size: 16
throughput: 1000
C
}
client cmpp 123456; client smgp 12345678; client sgip 3037196688
d=$repo/msc_client/zzdemo
cat > "$work/overlay.json" <<C
{"Replace": {"$d/scenario.go": "$here/scenario.go", "$d/lib.go": "$here/lib.go", "$d/wire/wire.go": "$here/wire.go"}}
C
(cd "$repo/msc_client" && go build -overlay "$work/overlay.json" -o "$work/demo" ./zzdemo) || exit 3
cd "$work" && P1=$P1 P2=$P2 P3=$P3 timeout -s KILL ${LIMIT:-100} ./demo > out.txt 2>&1
rc=$?
grep '^DEMO:' out.txt
[ $rc = 0 ] || grep -m3 -A8 -E '^(panic|fatal error|runtime error)' out.txt | head -20
exit $rc
