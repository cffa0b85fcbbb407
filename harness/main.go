// Package main holds the verification harnesses. Under symgo every C*_ function is executed
// symbolically together with the real code; built natively it replays concrete cases.
package main

import (
	"bufio"
	"encoding/json"
	"os"

	"verif.local/sym"
)

func main() {
	out, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = n
	}
	in, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	dec := json.NewDecoder(bufio.NewReader(in))
	enc := json.NewEncoder(out)
	for {
		var c sym.Case
		if dec.Decode(&c) != nil {
			break
		}
		f := registry[c.Harness]
		if f == nil {
			panic("no harness " + c.Harness)
		}
		if err := enc.Encode(sym.RunCase(&c, f)); err != nil {
			panic(err)
		}
	}
	out.Close()
}
