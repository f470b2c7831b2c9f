// Package bubble runs a function in a synctest bubble without a testing.T: a race detected in a bubble must not end
// the run.
package bubble

import _ "unsafe"

//go:linkname run internal/synctest.Run
func run(f func())

func Run(f func()) { run(f) }
