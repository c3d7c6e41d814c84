// Package nodejs runs scripts in Node.
package nodejs

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"syscall"
	"time"
)

// Run gives in, as JSON, to a script. The Node of this machine sometimes dies of a segmentation fault when it compiles
// WebAssembly lazily, so it does not, and a run that a signal ended is run again.
func Run(args []string, in interface{}) ([]byte, error) {
	b, err := json.Marshal(in)
	if err != nil {
		return nil, err
	}
	for try := 0; ; try++ {
		out, signal, err := once(args, b)
		if !signal || try == 3 {
			return out, err
		}
	}
}

func once(args []string, in []byte) (stdout []byte, signal bool, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), 150*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "node", append([]string{"--no-warnings", "--no-wasm-lazy-compilation", "--max-old-space-size=2048"}, args...)...)
	cmd.Env = append(os.Environ(), "TZ=UTC")
	cmd.Stdin = bytes.NewReader(in)
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	err = cmd.Run()
	if err != nil {
		if x, ok := err.(*exec.ExitError); ok && ctx.Err() == nil {
			if w, ok := x.Sys().(syscall.WaitStatus); ok && w.Signaled() {
				signal = true
			}
		}
		e := errs.String()
		if len(e) > 1000 {
			e = e[:1000]
		}
		if ctx.Err() != nil {
			e = "no answer in 150 s " + e
		}
		err = fmt.Errorf("%v: %s", err, e)
	}
	return out.Bytes(), signal, err
}
