#!/bin/bash
# Regenerates harness/h/reg.go, the registry used for native replay.
cd "$(dirname "$0")/../harness/h" || exit 2
{
  echo "package h"; echo
  echo "// Registry maps names to harnesses (generated by tools/genreg.sh)."
  echo "var Registry = map[string]func(){"
  grep -ho '^func [A-Z][0-9][0-9]_[A-Za-z0-9_]*()' *.go | sed 's/func \(.*\)()/\1/' | sort | while read n; do echo "	\"$n\": $n,"; done
  echo "}"
} > reg.go
gofmt -w reg.go
