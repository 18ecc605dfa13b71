// Command c22race runs operations, each in a goroutine. It is built with the
// race detector, which ends the process when two of their memory accesses
// conflict and nothing orders them.
//
//	c22race A B...    in a fresh process
package main

import (
	"fmt"
	"os"
	"strconv"
	"sync"

	"ogdlmc/c22"
)

func main() {
	ops, _ := c22.Ops()
	w := c22.New()
	for k := 0; k < 2; k++ {
		var wg sync.WaitGroup
		for _, s := range os.Args[1:] {
			i, _ := strconv.Atoi(s)
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { recover() }()
				ops[i].Do(w)
			}()
		}
		wg.Wait()
	}
	fmt.Println("end")
}
