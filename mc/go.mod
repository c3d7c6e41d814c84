module verif.local/mc

go 1.23

require github.com/sfomuseum/go-edtf v0.0.0

replace github.com/sfomuseum/go-edtf => /repo
