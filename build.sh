#!/bin/bash
# build.sh GROUP: builds the harness binary of the group against /repo's working tree.
# Accessors of unexported functions (hooks/<package>__<item>.go.txt) are added to the packages through an overlay, /repo is not touched.
# An accessor that does not compile any more is left out, together with the cases that need it.
set -u
cd "$(dirname "$0")" || exit 2
V="$PWD"
group="$1"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p build
W="$V/build/$group.d"
mkdir -p "$W"
dir=$group; race=()
case "$group" in
chainrace) dir=chain; race=(-race) ;;
node) race=(-race) ;;
esac
case "$group" in
crypto) pkgs="crypto" ;;
codec) pkgs="binary cryptonote p2p" ;;
chain|chainrace) pkgs="cryptonote" ;;
node) pkgs="p2p binary" ;;
*) exit 2 ;;
esac
path() { case "$1" in binary) echo encoding/binary ;; *) echo "$1" ;; esac; }
hooks=()
for p in $pkgs; do
	for h in harness/hooks/"$p"__*.go.txt; do [ -f "$h" ] && hooks+=("$(basename "$h" .go.txt)"); done
done
overlay() { # overlay FILE HOOK...
	local out=$1; shift
	python3 tools/overlay.py "$out" "$W/src" "$@"
}
try() { # try HOOK...
	local tags="verif" h
	overlay "$W/overlay.json" "$@" || return 3
	for h in "$@"; do tags="$tags,hook_$h"; done
	(cd harness && go build ${race[@]+"${race[@]}"} -overlay "$W/overlay.json" -tags "$tags" -o "$V/build/$group" "./cmd/$dir") >"$W/log" 2>&1
}
daemon() { # the program of the repository itself, for the checks that run it
	[ "$group" = node ] || return 0
	local d
	d=$(cd harness && go list -m -f '{{.Dir}}' github.com/r3volut1oner/go-karbo 2>/dev/null) && [ -n "$d" ] &&
		(cd "$d" && GOFLAGS="-buildvcs=false" go build -mod=readonly -race -o "$V/build/krbd" .) >"$W/krbd.log" 2>&1 ||
		{ rm -f "$V/build/krbd"; echo "the daemon is left out:" >&2; tail -3 "$W/krbd.log" >&2; }
	return 0
}
try ${hooks[@]+"${hooks[@]}"} && { daemon; exit 0; }
good=()
for h in ${hooks[@]+"${hooks[@]}"}; do
	if overlay "$W/one.json" "$h" && (cd harness && go build -overlay "$W/one.json" "github.com/r3volut1oner/go-karbo/$(path "${h%%__*}")") >"$W/one.log" 2>&1; then
		good+=("$h")
	else
		echo "accessor $h is left out:" >&2; tail -3 "$W/one.log" 2>/dev/null >&2
	fi
done
try ${good[@]+"${good[@]}"} && { daemon; exit 0; }
cat "$W/log" >&2
exit 2
