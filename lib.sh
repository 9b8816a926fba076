# Sourced by run.sh and setup.sh.
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export HOME=${HOME:-/root} GO111MODULE=off GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOENV=off GOWORK=off CGO_ENABLED=0
export GOCACHE=${VERIF_GOCACHE:-$VERIF/.cache/go}
PKG=github.com/splendidmoons/suriya-go
# Files of the root package that the repository's own build leaves out here
# (they need packages that cannot be fetched; the checks of kind "full" compile
# them against the stand-ins in stubs/).
OUTER="astro_moon.go cal_day.go calendar_event.go event.go half_moon.go major_event.go uposatha_moon.go"

# workspace DIR REPO KIND: a GOPATH with a copy of the repository, the stand-ins
# and the checkers.
workspace() {
	mkdir -p "$1/src/$PKG" "$1/src/verif" || return 1
	(cd "$2" && tar cf - --exclude=./.git .) | tar xf - -C "$1/src/$PKG" || return 1
	find "$1/src/$PKG" -name '*_test.go' -delete
	cp -a "$VERIF/mc" "$1/src/verif/mc" || return 1
	cp -a "$VERIF/stubs/github.com/." "$1/src/github.com/" || return 1
	if [ "$3" = core ]; then
		for f in $OUTER; do rm -f "$1/src/$PKG/$f"; done
		rm -rf "$1/src/$PKG/suriya" "$1/src/$PKG/utils"
	fi
	export GOPATH=$1
}

# clocked OUT PACKAGE: a build of a program in which every reading of the clock
# is what VERIF_CLOCK says (the time package of the tool chain with another Now).
clocked() {
	local t; t=$(go env GOROOT)/src/time
	grep -q '^func Now() Time {' "$t/time.go" || return 1
	mkdir -p "$GOPATH/clock" && sed 's/^func Now() Time {/func verifRealNow() Time {/' "$t/time.go" > "$GOPATH/clock/time.go" || return 1
	cp "$VERIF/clock/now.go.txt" "$GOPATH/clock/now.go" || return 1
	printf '{"Replace": {"%s/time.go": "%s/clock/time.go", "%s/zz_verif_now.go": "%s/clock/now.go"}}\n' "$t" "$GOPATH" "$t" "$GOPATH" > "$GOPATH/clock/overlay.json"
	go build -overlay "$GOPATH/clock/overlay.json" -o "$1" "$2"
}

# as_on_windows DIR: the sources with the path/filepath of Windows.
as_on_windows() {
	local f
	find "$1" -name '*.go' | while read -r f; do
		sed -i 's|"path/filepath"|"verif/mc/winpath"|; s|\bos\.PathSeparator\b|0x5c|g' "$f" || return 1
	done
}

# faulty OUT PACKAGE: a build of a program in which the operation on files that
# VERIF_FAULT says fails (the os package of the tool chain with other files).
faulty() {
	local o d=$GOPATH/fault; o=$(go env GOROOT)/src/os
	mkdir -p "$d" || return 1
	sed 's/^func (file \*file) close() error {/func (file *file) verifClose() error {/; s/^func openFileNolog(/func verifOpen(/' "$o/file_unix.go" > "$d/file_unix.go" || return 1
	sed 's/^func (f \*File) write(/func (f *File) verifRealWrite(/; s/^func (f \*File) pwrite(/func (f *File) verifRealPwrite(/; s/^func (f \*File) Sync(/func (f *File) verifSync(/' "$o/file_posix.go" > "$d/file_posix.go" || return 1
	cp "$VERIF/fault/fault.go.txt" "$d/fault.go" || return 1
	printf '{"Replace": {"%s/file_unix.go": "%s/file_unix.go", "%s/file_posix.go": "%s/file_posix.go", "%s/zz_verif_fault.go": "%s/fault.go"}}\n' "$o" "$d" "$o" "$d" "$o" "$d" > "$d/overlay.json"
	go build -overlay "$d/overlay.json" -o "$1" "$2"
}
