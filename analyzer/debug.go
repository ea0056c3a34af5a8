package main

import (
	"fmt"
	"os"
	"strings"
)

var debugLevel = os.Getenv("UVDEBUG")

// dump prints the numeric state, for debugging the analysis itself.
func (st *State) dump(title string) {
	fmt.Fprintln(os.Stderr, "---", title)
	for _, k := range sortedKeys(st.heap) {
		switch v := st.heap[k].(type) {
		case VInt:
			fmt.Fprintln(os.Stderr, "  ", k, "=", st.in.syms.show(v.L))
		default:
			fmt.Fprintln(os.Stderr, "  ", k, "=", v.key())
		}
	}
	for _, c := range st.cons {
		fmt.Fprintln(os.Stderr, "   ", st.in.syms.show(c), ">= 0")
	}
	var fs []string
	for _, k := range sortedKeys(st.facts) {
		fs = append(fs, fmt.Sprint(k, "=", st.facts[k]))
	}
	fmt.Fprintln(os.Stderr, "   ", strings.Join(fs, " "))
}
