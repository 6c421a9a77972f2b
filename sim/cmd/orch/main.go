// Command orch builds the simulated binary from a source tree, searches
// seeds for violations of one property, minimises what it finds and replays
// recorded failures.
package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: orch check|replay|probe ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "determinism":
		os.Exit(determinism(os.Args[2:]))
	case "kill":
		kill(os.Args[2:])
	case "probe":
		probe(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}
