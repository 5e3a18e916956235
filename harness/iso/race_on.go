//go:build race

package main

import "runtime"

const raceBuild = true

// hidden runs f without the race monitor taking it for synchronisation.
func hidden(f func()) {
	runtime.RaceDisable()
	f()
	runtime.RaceEnable()
}

func races() int { return runtime.RaceErrors() }
