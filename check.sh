#!/bin/bash
# check.sh <property id> [quick|thorough] [extra gosym flags]
# Encodes /repo's current source, explores it symbolically and decides the property.
set -u
cd "$(dirname "$0")" || exit 2
root=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
id=$1; tier=${2:-quick}; shift; [ $# -gt 0 ] && shift
bin=$root/.bin/gosym
if [ ! -x "$bin" ] || [ -n "$(find engine -newer "$bin" -name '*.go' -print -quit)" ]; then
  mkdir -p .bin
  (cd engine && go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || exit 2
fi
if [ "$id" = G02 ]; then
  # the static compilers are written anew by the tplgen of /repo; the committed ones are put back afterwards
  keep=$(mktemp -d) || exit 2
  cp -a harness/static/. "$keep/"
  trap 'cp -a "$keep/." "$root/harness/static/"; rm -rf "$keep"' EXIT
  mkdir -p evidence/replay
  log=evidence/replay/G02-tplgen.txt
  harness/static/gen.sh > "$log" 2>&1
  case $? in
  0) ;;
  1)
    { echo "# bash /verif/harness/static/gen.sh runs /repo's tplgen on the packages in harness/static"; git -C /repo rev-parse HEAD; } >> "$log"
    cat "$log"
    printf '{"property": "G02", "tier": "%s", "seed": %s, "level": "model_checking", "wall_s": 0, "violations": 1, "assumptions": [], "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [{"note": "tplgen wrote nothing that compiles: see replay/G02-tplgen.txt"}]}}\n' "$tier" "${VERIF_SEED:-1}" > evidence/G02.json
    echo "VIOLATION property=G02 replay=$root/$log"
    exit 1 ;;
  *) cat "$log" >&2; exit 2 ;;
  esac
  "$bin" -root "$root" -id "$id" -tier "$tier" "$@"
  exit $?
fi
exec "$bin" -root "$root" -id "$id" -tier "$tier" "$@"
