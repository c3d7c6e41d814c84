# instrumented NAME PACKAGE [FLAGS]: builds $BIN/NAME with every statement of the library a scheduling point
go build -buildvcs=false -o "$BIN/instr" ./cmd/instr || exit 2
mkdir -p "$BIN/ov1" "$BIN/ov2"
"$BIN/instr" -repo /repo -out "$BIN/ov1" || echo "the library cannot be instrumented"
"$BIN/instr" -repo /repo -keep-sync -out "$BIN/ov2"
instrumented() {
	local n=$1 p=$2
	shift 2
	go build -buildvcs=false -overlay "$BIN/ov1/overlay.json" "$@" -o "$BIN/$n" "$p" 2>"$BIN/$n.err" ||
		go build -buildvcs=false -overlay "$BIN/ov2/overlay.json" "$@" -o "$BIN/$n" "$p" 2>/dev/null || head -5 "$BIN/$n.err"
	[ -x "$BIN/$n" ] ||
		echo "the library cannot be instrumented: $n is not built"
}
