#!/bin/bash
# gen.sh: has /repo's tplgen write the static compilers of the packages beside this file.
# Prints what failed and returns 1 if tplgen fails or if what it writes does not compile; 2 if tplgen cannot be built.
cd "$(dirname "$0")" || exit 2
here=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/tplgen" github.com/qiniu/text/tpl/cmd/tplgen || exit 2
rc=0
for args in */args; do
  d=$(dirname "$args")
  mkdir "$tmp/$d"
  cp "$d/grammar.go" "$tmp/$d/"
  out=static_compiler.go
  read -r -a a < "$args"
  case " ${a[*]} " in *" -f "*) out=gen_static.go ;; esac
  if ! (cd "$tmp/$d" && "$tmp/tplgen" "${a[@]}") 2>&1; then echo "tplgen ${a[*]} fails in harness/static/$d"; rc=1; fi
  if ! [ -s "$tmp/$d/$out" ]; then echo "tplgen ${a[*]} writes no $out in harness/static/$d"; rc=1; continue; fi
  cmp -s "$tmp/$d/$out" "$d/$out" || cp "$tmp/$d/$out" "$d/$out"
done
[ $rc = 0 ] || exit 1
cd .. && go build ./static/... ./props 2>&1 || { echo "what tplgen writes does not compile"; exit 1; }
