#!/bin/bash
# Warms the Go build cache and checks that the tools are there; every check builds what it needs by itself.
set -e
. /opt/vp/env.sh
cd "$(dirname "$0")/../harness"
go build -o /dev/null .
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h >/dev/null 2>&1 || true
echo ready
