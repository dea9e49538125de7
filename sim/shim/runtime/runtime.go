// Package runtime replaces the scheduler-facing part of the standard runtime package inside the simulator.
package runtime

import "verif/simrt"

func Gosched()           { simrt.Yield() }
func NumCPU() int        { return 4 }
func GOMAXPROCS(int) int { return 4 }
func GC()                {}
func NumGoroutine() int {
	n := 0
	if simrt.S != nil {
		for _, g := range simrt.S.Goroutines() {
			if !g.Done() {
				n++
			}
		}
	}
	return n
}
