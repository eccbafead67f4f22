#!/bin/bash
# run.sh PROPERTY [quick|thorough]   decide one property on /repo's working tree
# run.sh --replay FILE               run the one case a replay file names
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on
tmp="$(mktemp -d /tmp/geoql-check.XXXXXX)" || exit 4
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
prop="$1" tier="${2:-${VERIF_TIER:-quick}}"
if [ "$1" = --replay ]; then
	prop=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
fi
cd "$here/harness" || exit 4
if [ "$prop" = C21 ]; then
	export CGO_ENABLED=1
	go run ./instr /repo "$tmp/overlay" yield >"$tmp/log" 2>&1 &&
		go build -race -overlay "$tmp/overlay/overlay.json" -o "$tmp/mon" . >>"$tmp/log" 2>&1 ||
		{ echo "note: building without yields" >>"$tmp/log"; go build -race -o "$tmp/mon" . >>"$tmp/log" 2>&1; }
else
	go run ./instr /repo "$tmp/overlay" >"$tmp/log" 2>&1 &&
		go build -tags vcov -overlay "$tmp/overlay/overlay.json" -o "$tmp/mon" . >>"$tmp/log" 2>&1 ||
		{ echo "note: building without step counters" >>"$tmp/log"; go build -o "$tmp/mon" . >>"$tmp/log" 2>&1; }
fi
if [ ! -x "$tmp/mon" ]; then
	cat "$tmp/log"
	echo "INCONCLUSIVE: the harness does not build against /repo"
	exit 4
fi
if [ "$1" = --replay ]; then
	"$tmp/mon" -replay "$2"
	exit $?
fi
"$tmp/mon" -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -out "$here"
