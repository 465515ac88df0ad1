#!/bin/bash
# Exit 0 where the property holds.  Run in /repo.
repo=$(pwd)
tmp=$(mktemp -d)
pid=
cleanup() { [ -n "$pid" ] && kill -9 "$pid" 2>/dev/null; rm -rf "$tmp"; }
trap cleanup EXIT
go build -o "$tmp/netauthd" ./cmd/netauthd && go build -o "$tmp/netauth" ./cmd/netauth && go build -o "$tmp/nsutil" ./cmd/nsutil || exit 3
mkdir -p "$tmp/etc/keys" "$tmp/data" "$tmp/user" "$tmp/cache"
cd "$tmp/etc" || exit 3
port=0

# up LIFETIME ARGS: starts the server
up() {
	local life=$1 i
	shift
	port=$((20000 + RANDOM % 20000))
	cat >"$tmp/etc/config.toml" <<EOF
[core]
home = "$tmp/data"
conf = "$tmp/etc"
server = "127.0.0.1"
port = $port
[server]
bind = "127.0.0.1"
port = $port
[crypto]
backend = "bcrypt"
[crypto.bcrypt]
cost = 4
[tls]
pwn_me = true
[token]
lifetime = "$life"
[token.jwt]
generate = true
EOF
	"$tmp/netauthd" --tls.PWN_ME "$@" >"$tmp/log" 2>&1 &
	pid=$!
	for i in $(seq 100); do
		na root x system ping >/dev/null 2>&1 && return 0
		kill -0 "$pid" 2>/dev/null || break
		sleep 0.1
	done
	cat "$tmp/log"
	exit 3
}

down() {
	kill "$pid"
	wait "$pid"
	pid=
}

# na ENTITY SECRET ARGS: runs the command line tool
na() {
	local e=$1 s=$2
	shift 2
	HOME="$tmp/user" TMPDIR="$tmp/cache" timeout 20 "$tmp/netauth" --config "$tmp/etc/config.toml" --entity "$e" --secret "$s" "$@"
}

fail() { echo "FAIL: $*"; exit 1; }
