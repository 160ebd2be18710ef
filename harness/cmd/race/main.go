// Command race runs a case of C19 (of C37, if told to make) given as JSON on stdin; it is built with the race detector.
package main

import (
	"fmt"
	"os"

	"github.com/ava12/llx/verifharness/props"
)

func main() {
	run := props.RunRace
	if len(os.Args) > 1 && os.Args[1] == "make" {
		run = props.RunMakeRace
	}
	if e := run(os.Stdin); e != nil {
		fmt.Println(e)
		os.Exit(1)
	}
}
