# the server embeds a WebAssembly program that is not in the tree: build both in a copy
mkdir "$BIN/tree" && (cd /repo && tar cf - --exclude=./.git --exclude='./wasm/*.wasm' .) | tar xf - -C "$BIN/tree" &&
	go build -buildvcs=false -o "$BIN/check" ./cmd/c33 &&
	cp ./cmd/c33/page.mjs "$BIN/page.mjs" &&
	(cd "$BIN/tree" && export GOFLAGS=-mod=mod &&
		GOOS=js GOARCH=wasm CGO_ENABLED=0 go build -buildvcs=false -tags wasmjs -o wasm/parse-js.wasm ./cmd/parse-wasm &&
		CGO_ENABLED=0 go build -buildvcs=false -o "$BIN/server-wasm" ./cmd/server-wasm)
