go build -buildvcs=false -o "$BIN/check" ./cmd/c22 &&
	go build -buildvcs=false -o "$BIN/parse" github.com/sfomuseum/go-edtf/cmd/parse &&
	go build -buildvcs=false -o "$BIN/matches" github.com/sfomuseum/go-edtf/cmd/matches
