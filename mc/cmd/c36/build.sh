go build -buildvcs=false -o "$BIN/check" ./cmd/c36 &&
	GOOS=js GOARCH=wasm CGO_ENABLED=0 go build -buildvcs=false -tags wasmjs -o "$BIN/js.wasm" github.com/sfomuseum/go-edtf/cmd/parse-wasm &&
	cp "$(go env GOROOT)/lib/wasm/wasm_exec.js" "$BIN/wasm_exec.js" &&
	cp ./cmd/c36/*.mjs "$BIN/"
