#!/bin/bash
# Exit 0 when the demonstrated behaviour holds, non-zero when it does not.
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
o=$(mktemp -d) || exit 2
trap 'rm -rf -- "${o:?}"' EXIT
sub=$(cat "$d/pkg" 2>/dev/null)
r="$PWD${sub:+/$sub}"
{ echo '{"Replace": {'
  sep=
  for f in "$d"/*_test.go; do echo "$sep\"$r/zz_$(basename "$f")\": \"$f\""; sep=,; done
  echo '}}'; } > "$o/overlay.json"
go test -vet=off -count=1 -timeout 250s -overlay "$o/overlay.json" -run '^TestDemo$' "./${sub}"
