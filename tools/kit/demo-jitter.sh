#!/bin/bash
# Runs the test beside this file as a part of the package in the current directory, with atomic operations that now and then let
# others go first (jitter_test.go).
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
{
  printf '{"Replace":{'
  sep=
  for f in "$here"/*_test.go; do
    printf '%s"%s/zz_%s":"%s"' "$sep" "$PWD" "$(basename "$f")" "$f"
    sep=,
  done
  for f in *.go; do
    if grep -q '"sync/atomic"' "$f"; then
      case $f in
      *_test.go) printf ',"%s/%s":""' "$PWD" "$f" ;;
      *)
        sed -e 's/^import "sync\/atomic"$//' -e 's/^\t"sync\/atomic"$//' "$f" > "$tmp/$f"
        printf ',"%s/%s":"%s/%s"' "$PWD" "$f" "$tmp" "$f"
        ;;
      esac
    fi
  done
  printf '}}'
} > "$tmp/overlay.json"
go test -vet=off -overlay "$tmp/overlay.json" -run '^TestDemo$' -count=1 -timeout TIMEOUTs .
