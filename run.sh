#!/bin/sh
# run.sh ID: decides property ID on the current tree of /repo.
cd "$(dirname "$0")" || exit 2
new=
for f in analyzer/*.go; do
	[ bin/scte35vg -nt "$f" ] || new=1
done
if [ -n "$new" ]; then
	./setup.sh || { echo "cannot build the analyser" >&2; exit 2; }
fi
exec bin/scte35vg -repo "${REPO:-/repo}" -verif "$PWD" check "$1"
