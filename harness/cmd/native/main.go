// Command native runs harness entries compiled by the ordinary Go compiler on concrete inputs
// (read from stdin, one JSON object per line), so that solver models are replayed against the real code.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"time"

	_ "verif/props"
	"verif/sym"
)

type in struct {
	Entry string            `json:"entry"`
	Vals  map[string]string `json:"vals"`
	Tier  int               `json:"tier"`
}

type out struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func run(i in) (o out) {
	f := sym.Entries[i.Entry]
	if f == nil {
		return out{Status: "noentry", Msg: i.Entry}
	}
	sym.Reset(i.Vals, i.Tier)
	ch := make(chan out, 1)
	go func() {
		o := out{}
		normal := false
		defer func() {
			if !normal {
				if r := recover(); r != nil {
					o.Status, o.Msg = "panic", fmt.Sprintf("%T: %v", r, r)
				}
			}
			if sym.S.Status != "" {
				o.Status, o.Msg = sym.S.Status, sym.S.Msg
			} else if o.Status == "" {
				o.Status = "done"
			}
			o.Obs = sym.S.Obs
			ch <- o
		}()
		f()
		normal = true
	}()
	select {
	case o = <-ch:
	case <-time.After(8 * time.Second):
		o = out{Status: "hang"}
	}
	return
}

func main() {
	debug.SetMaxStack(256 << 20)
	stdout := os.Stdout
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null // the code under test may print
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var i in
		if err := json.Unmarshal(sc.Bytes(), &i); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		o := run(i)
		b, _ := json.Marshal(o)
		stdout.Write(append(b, '\n'))
		if o.Status == "hang" {
			os.Exit(3)
		}
	}
}
