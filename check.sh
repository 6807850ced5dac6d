#!/bin/bash
# check.sh ID          decide property ID for the current tree of /repo
# check.sh replay FILE rerun a recorded violation against the real code
V="$(cd "$(dirname "$0")" && pwd)"
stale=0
[ -x "$V/bin/gosym" ] || stale=1
if [ $stale = 0 ] && [ -n "$(find "$V/engine" -newer "$V/bin/gosym" \( -name '*.go' -o -name 'go.*' \) -print -quit)" ]; then stale=1; fi
if [ $stale = 1 ]; then
	if ! bash "$V/setup.sh" >"$V/bin.log" 2>&1; then
		echo "building the engine failed"; cat "$V/bin.log"; rm -f "$V/bin.log"; exit 2
	fi
	rm -f "$V/bin.log"
fi
unset GOFLAGS
if [ "$1" = replay ]; then exec "$V/bin/gosym" replay -verif "$V" "$2"; fi
exec "$V/bin/gosym" check -verif "$V" "$1"
