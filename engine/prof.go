package main

import (
	"os"
	"runtime/pprof"
)

var profOn bool

func startProfile(f string) {
	o, err := os.Create(f)
	if err != nil {
		return
	}
	profOn = pprof.StartCPUProfile(o) == nil
}

func stopProfile() {
	if profOn {
		pprof.StopCPUProfile()
	}
}
