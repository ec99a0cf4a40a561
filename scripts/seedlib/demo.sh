#!/bin/bash
# Runs demo_test.go against the code in the current directory (/repo).
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
top=$(mktemp -d)
trap 'rm -rf "$top"' EXIT
d="$top/src"
mkdir "$d" "$top/tmp"
for f in "$repo"/*.go; do
  case $f in *_test.go) ;; *) cp "$f" "$d/" ;; esac
done
cp "$here"/demo_test.go "$here"/lib_test.go "$d/"
mkdir "$d/zsmtpd" && cp "$here"/smtpd/* "$d/zsmtpd/"
cat > "$d/go.mod" <<EOM
module sinksmtp
go 1.21
require github.com/siebenmann/smtpd v0.0.0
replace github.com/siebenmann/smtpd => ./zsmtpd
EOM
cd "$d" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local TMPDIR="$top/tmp" go test -vet=off -count=1 -timeout 120s -run TestDemo .
