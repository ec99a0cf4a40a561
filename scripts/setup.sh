#!/bin/bash
# Build the verifier and warm the Go build cache for the harness.
set -e
cd "$(dirname "$0")/.."
mkdir -p bin evidence
(cd tool && go build -mod=vendor -o ../bin/gov .)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
bash scripts/hbuild.sh "$d" h_core_test.go h_model_test.go h_rules_test.go h_proc_test.go || true
