// Command check runs the checks of package props.
package main

import (
	"github.com/ava12/llx/verifharness/engine"
	_ "github.com/ava12/llx/verifharness/props"
)

func main() { engine.Main() }
