//go:build !amd64

package simrt

func getg() uintptr { return 0 }
