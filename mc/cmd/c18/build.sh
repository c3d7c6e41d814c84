. ./cmd/instr/overlay.sh
go build -buildvcs=false -o "$BIN/check" ./cmd/c18 || return 2
go build -buildvcs=false -race -o "$BIN/free" ./cmd/c18 || return 2
instrumented sched ./cmd/c18
instrumented schedrace ./cmd/c18 -race
true
