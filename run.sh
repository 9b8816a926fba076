#!/bin/bash
# run.sh PROPERTY [--tier quick|thorough] [--replay FILE]
# Builds the checker of the property against /repo's working tree, in a scratch
# directory, and runs it.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
PROP=$1; shift
TIER=${VERIF_TIER:-quick}
REPLAY=
while [ $# -gt 0 ]; do
	case $1 in
	--tier) TIER=$2; shift 2;;
	--replay) REPLAY=$2; shift 2;;
	*) echo "unknown argument $1" >&2; exit 2;;
	esac
done
. "$VERIF/lib.sh"
case $PROP in
C14|C27) kind=conc;;
C0?|C1[0-3]) kind=core;;
*) kind=full;;
esac
W=$(mktemp -d "${TMPDIR:-/tmp}/verif-$PROP-XXXXXX") || exit 2
trap 'chmod -R u+w "$W" 2>/dev/null; rm -rf "$W"' EXIT
files=$kind; [ $PROP = C14 ] && files=core
workspace "$W" "$REPO" $files || exit 2
mkdir -p "$W/scratch"
if [ $kind = conc ]; then
	. "$VERIF/conc.sh"
	exit $?
fi
if [ $PROP = C35 ]; then
	# an almanac with answers of all kinds
	n=4; [ "$TIER" = thorough ] && n=5
	go build -o "$W/answers" verif/mc/answers && "$W/answers" "$W/src/$PKG/data.go" "$W/answers.json" $n && export VERIF_ANSWERS="$W/answers.json"
fi
go build -o "$W/checker" verif/mc/$kind || { echo "$PROP: the checker does not build against $REPO" >&2; exit 2; }
if [ $kind = full ]; then
	go build -o "$W/suriya" $PKG/suriya || { [ $PROP = C22 -o $PROP = C23 ] && exit 2; }
	go build -o "$W/years" $PKG/utils || { [ $PROP = C26 ] && exit 2; }
	case $PROP in C22|C23)
		clocked "$W/clocked" $PKG/suriya && export VERIF_CLOCKED="$W/clocked";;
	esac
	case $PROP in
	C22|C23) faulty "$W/faulty" $PKG/suriya && export VERIF_FAULTY="$W/faulty";;
	C26) faulty "$W/faulty" $PKG/utils && export VERIF_FAULTY="$W/faulty";;
	esac
	case $PROP in C32|C33|C34)
		# the same questions asked of a build for another kind of machine
		case $PROP in
		C32) other="GOARCH=386";;
		C33) other="GOAMD64=v3";;
		C34) other="GOPATH=$W/windows"
			mkdir -p "$W/windows" && cp -a "$W/src" "$W/windows/src" && as_on_windows "$W/windows/src/$PKG" || exit 2;;
		esac
		env $other go build -o "$W/narrow" verif/mc/narrow/cmd 2>"$W/narrow.log" && env $other go build -o "$W/narrow-suriya" $PKG/suriya 2>>"$W/narrow.log" && : > "$W/narrow.log"
		if [ $PROP = C34 ]; then
			if [ -s "$W/narrow.log" ]; then
				# the stand-in for path/filepath may lack something
				cat "$W/narrow.log" >&2; rm -f "$W/narrow"
			fi
			: > "$W/narrow.log"
			for os in windows darwin; do
				GOOS=$os go build -o "$W/other" $PKG/suriya 2>>"$W/narrow.log" && continue
				echo "(GOOS=$os)" >> "$W/narrow.log"; break
			done
			[ -s "$W/narrow.log" ] && ! grep -q '^(GOOS' "$W/narrow.log" && : > "$W/narrow.log"
		fi
		[ -x "$W/narrow" ] && export VERIF_NARROW="$W/narrow"
		export VERIF_NARROW_LOG="$(head -c 2000 "$W/narrow.log")";;
	esac
	if [ $PROP = C26 ]; then
		# the functions behind the tool, for any years
		mkdir -p "$W/src/verif/tables"
		for f in "$W/src/$PKG"/utils/*.go; do sed 's/^func main()/func toolMain()/' "$f" > "$W/src/verif/tables/$(basename "$f")"; done
		cp "$VERIF/mc/tables.go.txt" "$W/src/verif/tables/zz_main.go"
		go build -o "$W/tables" verif/tables 2>/dev/null && export VERIF_TABLES="$W/tables"
	fi
	export VERIF_CLI="$W/suriya" VERIF_YEARS="$W/years"
fi
"$W/checker" -prop $PROP -tier "$TIER" -repo "$W/src/$PKG" -verif "$VERIF" -scratch "$W/scratch" ${REPLAY:+-replay "$REPLAY"}
