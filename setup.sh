#!/bin/bash
# builds the verifier from the committed files
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
mkdir -p bin evidence replays
(cd govc && GOFLAGS=-mod=vendor go build -o ../bin/govc .)
