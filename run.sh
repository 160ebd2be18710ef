#!/bin/bash
# run.sh ID quick|thorough   runs a check;   run.sh --build   only builds;   run.sh --replay FILE
# Builds the harness together with /repo's current working tree.
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
OUT="$(mktemp -d /tmp/verif-bin-XXXXXX)"
trap 'rm -rf "$OUT"' EXIT
build() { # build NAME PACKAGE [FLAGS]
	local name="$1" pkg="$2"
	shift 2
	if ! (cd "$ROOT/harness" && go build "$@" -o "$OUT/$name" "$pkg") >"$OUT/log" 2>&1; then
		echo "check error: cannot build $pkg"
		head -c 4000 "$OUT/log"
		exit 2
	fi
}
prepare() { # prepare ID: builds what the check needs, sets BIN
	BIN="$OUT/check"
	case "$1" in
	C28 | C29) build check ./cmd/inner ;;
	*) build check ./cmd/check ;;
	esac
	case "$1" in
	C19 | C37)
		# the race detector is used where it works
		(cd "$ROOT/harness" && go build -race -o "$OUT/race" ./cmd/race) >"$OUT/log" 2>&1
		if echo | "$OUT/race" 2>&1 | grep -q "invalid character\|EOF"; then :; else build race ./cmd/race; fi
		;;
	C27) build llxgen github.com/ava12/llx/cmd/llxgen ;;
	C30) build calc github.com/ava12/llx/examples/calc ;;
	C31) build grammar github.com/ava12/llx/examples/grammar ;;
	C35) build conf-edit github.com/ava12/llx/examples/conf-edit ;;
	esac
	export VERIF_BIN="$OUT"
}
case "$1" in
--build)
	for id in C19 C28; do prepare $id; done
	exit 0
	;;
--replay)
	ID="$(sed -n 's/^ *"property": *"\(.*\)".*/\1/p' "$2" | head -n 1)"
	prepare "$ID"
	"$BIN" -root "$ROOT" -replay "$2"
	exit $?
	;;
esac
prepare "$1"
"$BIN" -root "$ROOT" -p "$1" -tier "${2:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}"
exit $?
