# Sourced by run.sh for the checks of concurrent use and histories (C14, C27).
# Three builds of the same driver:
#   instrumented  scheduling points before every statement: schedules, histories
#   plain         only the reset of package variables: where the first is impossible
#   race          as plain, under the race detector, for the free runs
tags=
[ $PROP = C27 ] && tags=full
orig="$W/src/$PKG"
cp -a "$orig" "$W/orig" || exit 2
restore() { chmod -R u+w "$orig"; rm -rf "$orig"; cp -a "$W/orig" "$orig"; }
go build -o "$W/instr" verif/mc/instr || exit 2
export VERIF_INSTRUMENTED=0
built=
if ! grep -l -E '^//go:(embed|linkname)' "$orig"/*.go >/dev/null 2>&1; then
	if "$W/instr" "$orig" 2>"$W/log" && go build -tags "$tags" -o "$W/checker" verif/mc/conc 2>>"$W/log"; then
		VERIF_INSTRUMENTED=1 built=yes
	else
		restore
	fi
fi
if [ -n "$built" ]; then restore; else cat "$W/log" >&2 2>/dev/null; fi
if ! { "$W/instr" -reset-only "$orig" 2>"$W/log" && go build $PKG 2>>"$W/log"; }; then
	restore
	printf 'package suriya\n\nfunc VerifReset() {}\n' > "$orig/zz_verif_reset.go"
fi
if [ -z "$built" ]; then
	go build -tags "$tags" -o "$W/checker" verif/mc/conc || { echo "$PROP: the checker does not build against $REPO" >&2; exit 2; }
fi
export VERIF_RACE=
if CGO_ENABLED=1 go build -race -tags "$tags" -o "$W/racer" verif/mc/conc 2>"$W/log"; then
	export VERIF_RACE="$W/racer"
else
	cat "$W/log" >&2
fi
"$W/checker" -prop $PROP -tier "$TIER" -repo "$W/orig" -verif "$VERIF" -scratch "$W/scratch" ${REPLAY:+-replay "$REPLAY"}
