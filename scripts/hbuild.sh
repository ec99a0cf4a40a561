#!/bin/bash
# hbuild.sh OUTDIR FILES...: build the replay harness from /repo's working tree into OUTDIR/h.test
set -e
out=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$out/src"
for f in /repo/*.go; do
  case $f in *_test.go) ;; *) cp "$f" "$out/src/" ;; esac
done
cp "$V/spec/spec.go" "$out/src/zz_spec.go"
for f in "$@"; do cp "$V/harness/$f" "$out/src/zz_$f"; done
cat > "$out/src/go.mod" <<EOM
module sinksmtp
go 1.21
require github.com/siebenmann/smtpd v0.0.0
replace github.com/siebenmann/smtpd => $V/stub/smtpd
EOM
cd "$out/src"
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go test -vet=off -c -o "$out/h.test" . 
