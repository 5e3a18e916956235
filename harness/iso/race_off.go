//go:build !race

package main

const raceBuild = false

func hidden(f func()) { f() }
func races() int      { return 0 }
