#!/bin/bash
# Builds the harness and artrd once, which warms the build cache and shows that everything compiles offline.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
bin="$(mktemp -d /tmp/verif-bin.XXXXXX)"
trap 'rm -rf "$bin"' EXIT
"$here/build.sh" "$bin/harness" && "$bin/harness" -list && . /opt/vp/env.sh && cd /repo && go build -o "$bin/artrd" ./cmd/artrd
