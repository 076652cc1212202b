// Command replay runs harnesses natively on recorded inputs.
package main

import (
	"bufio"
	"encoding/json"
	"os"
	"runtime/debug"
	"syscall"

	"github.com/lafriks/go-svg/zzverif/h"
	"github.com/lafriks/go-svg/zzverif/nd"
)

type request struct {
	Harness  string             `json:"harness"`
	Inputs   map[string]float64 `json:"inputs"`
	Thorough bool               `json:"thorough"`
}

func main() {
	debug.SetMaxStack(64 << 20)
	if !nd.Raced {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30})
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var r request
		if err := json.Unmarshal(line, &r); err != nil {
			os.Exit(3)
		}
		f := h.Harnesses[r.Harness]
		if f == nil {
			os.Exit(4)
		}
		rep := nd.Run(f, r.Inputs, r.Thorough)
		b, err := json.Marshal(rep)
		if err != nil {
			b = []byte(`{"status":"` + rep.Status + `","msg":"unprintable"}`)
		}
		out.Write(append(b, '\n'))
		out.Flush()
	}
}
