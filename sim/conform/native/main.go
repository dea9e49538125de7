// Command native runs the conformance programs on the Go runtime.
package main

import (
	"fmt"

	"verif/conform/prog"
)

func main() {
	for _, t := range prog.All {
		fmt.Printf("%s: %s\n", t.Name, t.F())
	}
}
