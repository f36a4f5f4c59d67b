#!/bin/bash
# Checks that the tools are there, compiles the harness once (warming the build
# cache) and parses the specification.
set -e
cd "$(dirname "$0")"
if [ -d /opt/veriftools/go1.27.3/bin ]; then export PATH=/opt/veriftools/go1.27.3/bin:$PATH; fi
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
(cd harness && go build -o "$tmp/aqlverif" . && go build -tags graph -o "$tmp/aqlverif-graph" . && go build -o "$tmp/instrument" ./instrument)
(cd harness && go build -race -o "$tmp/aqlverif-race" .) || echo "no race detector"
(cd harness && GOOS=js GOARCH=wasm go build -o "$tmp/aqlparse.wasm" github.com/flowchartsman/aql/wasm/aqlparse) || echo "no browser bridge"
command -v node > /dev/null || echo "no node"
cd spec
java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY Trace.tla > "$tmp/sany" || { cat "$tmp/sany"; exit 1; }
if grep -q "rrors" "$tmp/sany"; then cat "$tmp/sany"; exit 1; fi
echo "setup done"
