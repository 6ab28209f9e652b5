//go:build race

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"
)

const raceDetector = true

func raceErrors() int { return runtime.RaceErrors() }

// raceSetup makes sure that the race detector reports every race, where it can be found.
func raceSetup() {
	if os.Getenv("GORACE") != "" {
		return
	}
	self, err := os.Executable()
	if err == nil {
		env := append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+filepath.Join(os.TempDir(), "mcrace"))
		err = syscall.Exec(self, os.Args, env)
	}
	fmt.Println(err)
	os.Exit(2)
}

// raceReport is the last report of the race detector.
func raceReport() string {
	b, err := os.ReadFile(filepath.Join(os.TempDir(), fmt.Sprint("mcrace.", os.Getpid())))
	if err != nil {
		return err.Error()
	}
	s := string(b)
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	if i := strings.Index(s, "\nGoroutine "); i >= 0 {
		s = s[:i]
	}
	return "\n" + s
}
