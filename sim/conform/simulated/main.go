// Command simulated runs the rewritten conformance programs in many simulated executions.
package main

import (
	"fmt"
	"os"
	"strconv"

	prog "verif/gen/snapws"
	_ "verif/gen/sites"
	"verif/simrt"
)

func main() {
	n := 300
	if len(os.Args) > 1 {
		n, _ = strconv.Atoi(os.Args[1])
	}
	for _, t := range prog.All {
		outs := map[string]int{}
		var order []string
		for i := 0; i < n; i++ {
			s := simrt.New(uint64(i)*104729+3, simrt.ConformStrategy(i))
			out := "?"
			s.Run(func() {
				simrt.ResetGlobals()
				out = t.F()
				s.Halt("end")
			})
			if len(s.Panics) > 0 {
				out = "panic: " + s.Panics[0].Val
			} else if s.Reason != "end" {
				out = "stopped: " + s.Reason
			}
			if r := s.Races(); len(r) > 0 {
				out = "race: " + r[0].String()
			}
			if outs[out] == 0 {
				order = append(order, out)
			}
			outs[out]++
		}
		for i, o := range order {
			if i == 0 {
				fmt.Printf("%s: %s\n", t.Name, o)
			} else {
				fmt.Printf("%s: DIFFERS in %d runs: %s\n", t.Name, outs[o], o)
			}
		}
	}
}
