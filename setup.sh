#!/bin/bash
# Builds the verifier (govc) from the committed sources, offline.
set -e
. /opt/vp/env.sh
cd "$(dirname "$0")/govc"
mkdir -p ../build
go build -o ../build/govc .
