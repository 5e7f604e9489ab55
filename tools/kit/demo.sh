#!/bin/bash
# Runs the test beside this file as a part of the package in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
{
  printf '{"Replace":{'
  sep=
  for f in "$here"/*_test.go; do
    printf '%s"%s/zz_%s":"%s"' "$sep" "$PWD" "$(basename "$f")" "$f"
    sep=,
  done
  printf '}}'
} > "$tmp/overlay.json"
go test -vet=off -overlay "$tmp/overlay.json" -run '^TestDemo$' -count=1 -timeout TIMEOUTs .
