. ./cmd/instr/overlay.sh
instrumented check ./cmd/c34
[ -x "$BIN/check" ] || go build -buildvcs=false -o "$BIN/check" ./cmd/c34
