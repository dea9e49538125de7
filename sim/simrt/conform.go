package simrt

import (
	"fmt"
	"os"
	"strconv"
)

// ConformStrategy is the schedule policy of conformance run i.
func ConformStrategy(i int) Strategy {
	st := Strategy{SyncW: 1 + int64(i%5)*3, PickRand: float64(i%4) / 3, SelRand: i%2 == 0, Prio: i%7 == 3, Changes: i % 4}
	if i%6 != 0 {
		st.Mean = []float64{1, 2, 5, 20, 100}[i%5]
	}
	return st
}

// Conform runs fn to its end in many simulated executions (the repository's own tests in the rewritten package).
func Conform(fn func()) {
	n := 25
	if v, err := strconv.Atoi(os.Getenv("CONFORM_SEEDS")); err == nil {
		n = v
	}
	for i := 0; i < n; i++ {
		s := New(uint64(i)*7919+1, ConformStrategy(i))
		s.Run(func() {
			ResetGlobals()
			fn()
			s.Halt("end")
		})
		if len(s.Panics) > 0 {
			panic(fmt.Sprintf("seed %d: %v\n%s", i, s.Panics[0].Val, s.Panics[0].Stack))
		}
		if s.Reason != "end" {
			panic(fmt.Sprintf("seed %d: the run stopped: %s", i, s.Reason))
		}
	}
}
