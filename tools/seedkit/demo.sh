#!/bin/bash
# Exit 0 where the property holds.  Run in /repo.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
{
	echo '{"Replace": {'
	sep=
	for f in "$here"/*_test.go; do
		printf '%s"%s/internal/zzdemo/%s": "%s"' "$sep" "$repo" "$(basename "$f")" "$f"
		sep=','
	done
	echo '}}'
} >"$tmp/overlay.json"
go test -vet=off -overlay "$tmp/overlay.json" -c -o "$tmp/demo.test" ./internal/zzdemo || exit 3
cd "$tmp" && timeout 200 ./demo.test -test.count=1 -test.timeout 180s
