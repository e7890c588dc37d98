#!/bin/bash
# Builds the symbolic engine from the committed sources (vendored, offline).
. /opt/vp/env.sh
set -e
cd "$(dirname "$0")/engine"
mkdir -p ../bin
go build -mod=vendor -o ../bin/engine .
