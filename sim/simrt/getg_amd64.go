package simrt

// getg returns the identity of the running goroutine.
func getg() uintptr
