#!/bin/bash
# regenerates props/zreg.go: the registry of entries for the native replayer
cd "$(dirname "$0")/props" || exit 1
{
  echo "// Code generated by genreg.sh; DO NOT EDIT."
  echo
  echo "package props"
  echo
  echo 'import "verif/sym"'
  echo
  echo "func init() {"
  echo "	sym.Register("
  grep -ho '^func [A-Z][0-9]\{2,3\}_[A-Za-z0-9_]*()' *.go | sed 's/^func \(.*\)()/\t\t\1,/' | sort
  echo "	)"
  echo "}"
} > zreg.go
