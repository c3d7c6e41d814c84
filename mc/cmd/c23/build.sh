go build -buildvcs=false -o "$BIN/check" ./cmd/c23 &&
	GOOS=wasip1 GOARCH=wasm CGO_ENABLED=0 go build -buildvcs=false -tags wasip1 -o "$BIN/wasi.wasm" github.com/sfomuseum/go-edtf/cmd/parse-wasi &&
	GOOS=js GOARCH=wasm CGO_ENABLED=0 go build -buildvcs=false -tags wasmjs -o "$BIN/js.wasm" github.com/sfomuseum/go-edtf/cmd/parse-wasm &&
	cp "$(go env GOROOT)/lib/wasm/wasm_exec.js" "$BIN/wasm_exec.js" &&
	cp ./cmd/c23/*.mjs "$BIN/"
