// Command inner runs the checks of package inner.
package main

import (
	"github.com/ava12/llx/verifharness/engine"
	_ "github.com/ava12/llx/verifharness/inner"
)

func main() { engine.Main() }
