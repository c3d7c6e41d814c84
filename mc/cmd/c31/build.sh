# the tools, with a standard library whose writes to standard output fail where VERIF_FAULT says
SRC=$(go env GOROOT)/src/syscall
sed 's/^func Write(fd int, /func verifWrite(fd int, /' "$SRC/syscall_unix.go" > "$BIN/syscall_unix.go" &&
	sed 's/^func Write(fd int, /func verifWrite(fd int, /' "$SRC/fs_wasip1.go" > "$BIN/fs_wasip1.go" &&
	cp ./cmd/c31/fault.go.txt "$BIN/fault.go" && cp ./cmd/c31/fault.mjs "$BIN/fault.mjs" &&
	printf '{"Replace": {"%s/syscall_unix.go": "%s/syscall_unix.go", "%s/fs_wasip1.go": "%s/fs_wasip1.go", "%s/zz_verif_fault.go": "%s/fault.go"}}\n' "$SRC" "$BIN" "$SRC" "$BIN" "$SRC" "$BIN" > "$BIN/overlay.json" &&
	go build -buildvcs=false -o "$BIN/check" ./cmd/c31 &&
	CGO_ENABLED=0 go build -buildvcs=false -overlay "$BIN/overlay.json" -o "$BIN/parse" github.com/sfomuseum/go-edtf/cmd/parse &&
	CGO_ENABLED=0 go build -buildvcs=false -overlay "$BIN/overlay.json" -o "$BIN/matches" github.com/sfomuseum/go-edtf/cmd/matches &&
	GOOS=wasip1 GOARCH=wasm CGO_ENABLED=0 go build -buildvcs=false -overlay "$BIN/overlay.json" -tags wasip1 -o "$BIN/wasi.wasm" github.com/sfomuseum/go-edtf/cmd/parse-wasi
