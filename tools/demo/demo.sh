#!/bin/bash
# Runs the real gateway in a scratch directory on loopback ports and plays a raw TCP client
# against it (scenario.go). Exit 0: the gateway behaved; non-zero: it did not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=$repo/go.work
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
# settings, overridden by conf.env
SUCCESS=1; MINMS=1; MAXMS=3; REPORTMS=5; TICK=1s; FORCE=5m; MAXSESS=32; MULTI=true; DLV=false; DLVRATE=1
CONTENTS='"0010_,_hello"'; MAXCONNS=4; WINDOW=16; TPS=1000; CMPP_ID=123456; SMGP_ID=12345678; SGIP_ID=3037196688; DEBUG=true; RELOAD=60m
[ -f "$here/conf.env" ] && . "$here/conf.env"
port() { while :; do p=$((20000 + RANDOM % 30000)); (exec 3<>/dev/tcp/127.0.0.1/$p) 2>/dev/null || { echo $p; return; }; done; }
P1=$(port); P2=$(port); P3=$(port)
mkdir -p "$work/config/store" "$work/logs"
cat > "$work/config/config.yaml" <<C
AppDebug: $DEBUG
Server:
  TickDuration: $TICK
  ForceCloseConnTime: $FORCE
  CMPP: {Port: $P1, Multicore: $MULTI, MaxSessions: $MAXSESS}
  SGIP: {Port: $P2, Multicore: $MULTI, MaxSessions: $MAXSESS}
  SMGP: {Port: $P3, Multicore: $MULTI, MaxSessions: $MAXSESS}
  Pprof: {Enable: false, Port: 1}
  Mock:
    SuccessRate: $SUCCESS
    MinSubmitRespMs: $MINMS
    MaxSubmitRespMs: $MAXMS
    FixReportRespMs: $REPORTMS
    Delivery:
      Enable: $DLV
      Rate: $DLVRATE
      Contents: [$CONTENTS]
AuthClient: {StoreType: "yaml", ReloadTicker: $RELOAD, YamlFilePath: "config/store"}
Snowflake:
  B64: {DC: 0, Worker: 1}
  B32: {DC: 0, Worker: 1}
  BCD: "010203"
  SGIP: 3037196688
Logs:
  Default: {LogName: "logs/gosms.log", Level: 0, TextFormat: "json", TimePrecision: "millisecond", MaxSize: 10, MaxBackups: 2, MaxAge: 3, Compress: false}
  Error: {LogName: "logs/error.log", Level: 1, TextFormat: "json", TimePrecision: "millisecond", MaxSize: 10, MaxBackups: 2, MaxAge: 3, Compress: false}
  CounterDB: {LogName: "logs/db.json", Level: -1, TextFormat: "json", TimePrecision: "millisecond", MaxSize: 10, MaxBackups: 2, MaxAge: 3, Compress: false}
C
client() {
  cat > "$work/config/store/$1_$2.yaml" <<C
client-id: "$2"
login-name: "$2"
shared-secret: "shared secret"
version: 48
need-report: 1
sms-display-no: "95566"
service-id: svc
default-msg-level: 3
fee-type: "05"
fee-code: free
mt-valid-duration: 2h
max-conns: $MAXCONNS
mt-window-size: $WINDOW
throughput: $TPS
C
}
for i in $CMPP_ID; do client cmpp $i; done
for i in $SMGP_ID; do client smgp $i; done
for i in $SGIP_ID; do client sgip $i; done
d=$repo/msc_server/zzdemo
cat > "$work/overlay.json" <<C
{"Replace": {"$d/scenario.go": "$here/scenario.go", "$d/lib.go": "$here/lib.go", "$d/wire/wire.go": "$here/wire.go"}}
C
(cd "$repo/msc_server" && go build -overlay "$work/overlay.json" -o "$work/demo" ./zzdemo) || exit 3
cd "$work" && P1=$P1 P2=$P2 P3=$P3 timeout -s KILL ${LIMIT:-100} ./demo > out.txt 2>&1
rc=$?
grep '^DEMO:' out.txt
[ $rc = 0 ] || grep -m3 -A8 -E '^(panic|fatal error|runtime error)' out.txt | head -20
exit $rc
