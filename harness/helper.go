package main

import (
	"fmt"
	"os"
)

// helpers are small programs that need a process of their own.
var helpers = map[string]func(args []string) int{}

func runHelper(name string, args []string) {
	f := helpers[name]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown helper", name)
		os.Exit(3)
	}
	os.Exit(f(args))
}
