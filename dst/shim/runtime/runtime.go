// Package runtime hides the scheduler of the real runtime.
package runtime

import "sim/rt"

func Gosched()           { rt.Yield("gosched") }
func NumCPU() int        { return 8 }
func NumGoroutine() int  { return 2 }
func GOMAXPROCS(int) int { return 8 }
func Goexit()            { rt.Goexit() }
func GC()                {}
