go build -buildvcs=false -o "$BIN/check" ./cmd/c30 &&
	GOARCH=386 CGO_ENABLED=0 go build -buildvcs=false -o "$BIN/check386" ./cmd/c30
