#!/bin/bash
# check.sh ID...: decide the given properties on /repo's current tree.
# check.sh -setup: only build the checker.
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local VERIF_DIR="$here"
bin="$here/bin/trucheck"
if [ ! -x "$bin" ] || [ -n "$(find "$here/trucheck" -newer "$bin" -print -quit)" ]; then
	mkdir -p "$here/bin"
	tmp="$here/bin/trucheck.$$"
	if ! (cd "$here/trucheck" && go build -o "$tmp" .) >&2; then
		echo "the checker does not build" >&2
		exit 2
	fi
	mv -f "$tmp" "$bin"
fi
[ "$1" = "-setup" ] && exit 0
exec "$bin" "$@"
