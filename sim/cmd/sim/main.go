// sim runs the deterministic simulations of libsv.
//
//	sim run -prop C01 -tier quick -seed 1   (the check; see main in check.go)
//	sim worker | minimize | replay          (its subprocesses)
package main

import (
	"fmt"
	"os"

	"verif.local/sim/scen"
)

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "sim: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: sim run|worker|minimize|replay|selftest ...")
	}
	switch os.Args[1] {
	case "run":
		check(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "minimize":
		minimize(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "answers":
		setupProcess()
		scen.Answers(os.Stdin, os.Stdout)
	case "selftest":
		selftest(os.Args[2:])
	default:
		fatal("unknown command %s", os.Args[1])
	}
}
