module github.com/ava12/llx/verifharness

go 1.25

require (
	github.com/ava12/llx v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/ava12/llx => /repo
