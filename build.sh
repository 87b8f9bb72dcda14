#!/bin/bash
# Builds the checker (offline, from the committed sources and vendored modules).
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
export GOFLAGS=-mod=vendor
mkdir -p bin evidence
cd checker && go build -o ../bin/gosipcheck .
