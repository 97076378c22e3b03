#!/bin/bash
# check.sh ID [tier]: builds the harness from /repo's working tree and decides one property.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"; seed="${VERIF_SEED:-1}"
bin="$(mktemp -d /tmp/verif-bin.XXXXXX)"
trap 'rm -rf "$bin"' EXIT
"$here/build.sh" "$bin/harness" $HARNESS_BUILD_FLAGS || { echo "ERROR: build failed"; exit 2; }
case "$id" in C0[1-3]) # these run the program itself
  (. /opt/vp/env.sh; cd /repo && go build -o "$bin/artrd" ./cmd/artrd) || { echo "ERROR: artrd build failed"; exit 2; }
  export ARTRD="$bin/artrd" TMPDIR="$bin" ;;
esac
mkdir -p "$here/evidence" "$here/replays"
cd "$bin" && ./harness -property "$id" -tier "$tier" -seed "$seed" -evidence "$here/evidence/$id.json" -replays "$here/replays" -known "$here/known-findings.json"
