#!/bin/bash
# Builds the harness against /repo's current working tree: build.sh OUT [go build flags...]
# The harness sources live in /verif/harness and are overlaid as package /repo/zz_verif (nothing is written to /repo
# except the git-ignored generated code, exactly as the project's own build does).
. /opt/vp/env.sh
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
out="$1"; shift
cd /repo || exit 2
bash /opt/vp/gen.sh >&2 || { echo "code generation failed" >&2; exit 2; }
ov="$(mktemp /tmp/verif-overlay.XXXXXX)"
trap 'rm -f "$ov"' EXIT
{
  echo '{"Replace":{'
  first=1
  for f in "$here"/harness/*.go; do
    [ $first = 1 ] || echo ','
    first=0
    printf '"/repo/zz_verif/%s": "%s"' "$(basename "$f")" "$f"
  done
  echo '}}'
} > "$ov"
go build -tags=testing -overlay "$ov" "$@" -o "$out" ./zz_verif >&2 || { echo "harness build failed" >&2; exit 2; }
