// Replay runs harnesses natively on assignments read as JSON lines from standard input.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"

	"verifharness/props"
	"verifharness/sym"
)

type request struct {
	sym.Input
	Tries int `json:"tries"`
}

type reply struct {
	Status  string   `json:"status"` // ok, violation, assume, unknown
	Label   string   `json:"label,omitempty"`
	Detail  string   `json:"detail,omitempty"`
	Reached []string `json:"reached,omitempty"`
	Notes   []string `json:"notes,omitempty"`
	Hits    []string `json:"hits,omitempty"`
}

func run(in sym.Input) (r reply) {
	f := props.All[in.Fn]
	if f == nil {
		return reply{Status: "unknown"}
	}
	sym.Start(in)
	defer func() {
		if p := recover(); p != nil {
			switch p := p.(type) {
			case sym.Failure:
				r = reply{Status: "violation", Label: p.Label}
			case sym.Infeasible:
				r = reply{Status: "assume"}
			default:
				r = reply{Status: "violation", Label: "panic", Detail: fmt.Sprint(p) + "\n" + string(debug.Stack())}
			}
		}
		r.Reached, r.Notes, r.Hits = sym.Reached(), sym.Notes(), sym.Hits()
	}()
	f()
	return reply{Status: "ok"}
}

func main() {
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(6 << 30)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	out := bufio.NewWriter(os.Stdout)
	for sc.Scan() {
		var rq request
		if err := json.Unmarshal(sc.Bytes(), &rq); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var r reply
		for i := 0; i <= rq.Tries; i++ {
			r = run(rq.Input)
			if r.Status != "ok" {
				break
			}
		}
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
