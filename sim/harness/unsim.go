package main

import "runtime"

// unsim runs harness code in the middle of a simulated task without touching
// the simulation's state (its random source in particular).
func unsim(f func()) {
	id := runtime.SimTask()
	runtime.SimSetTask(0)
	f()
	runtime.SimSetTask(id)
}
