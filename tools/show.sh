#!/bin/bash
# show.sh REPLAY...: replays recorded inputs natively and prints requests and responses.
. /opt/vp/env.sh; export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
(cd /verif/harness && go build -o /tmp/vnat ./cmd/native) || exit 2
for f in "$@"; do echo "== $f"; VERIF_SHOW=1 /tmp/vnat $f 2>&1 | cut -c1-500; done
