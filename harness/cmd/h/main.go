// Command h runs a check: h check <ID> (parent) or h child <ID> (child, started by the parent).
package main

import (
	"encoding/json"
	"fmt"
	"os"

	"github.com/hired/gevulot/pkg/cli"

	"verif.local/harness/mon"
	"verif.local/harness/props"
	"verif.local/harness/sched"
)

func main() {
	if p := os.Getenv("VERIF_PLAN"); p != "" {
		// The instrumented program: what main does, under a plan.
		var plan sched.Plan
		if err := json.Unmarshal([]byte(p), &plan); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(99)
		}
		if f := os.Getenv("VERIF_USAGE"); f != "" {
			if err := props.ServeUsage(f); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(99)
			}
		}
		if f := os.Getenv("VERIF_CLOCK"); f != "" {
			if err := props.ServeClock(f); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(99)
			}
		}
		sched.Start(plan)
		code := cli.Run(os.Args[1:])
		if f := os.Getenv("VERIF_PLAN_OUT"); f != "" {
			sites, order, _, _ := sched.Stats()
			b, _ := json.Marshal(map[string]any{"sites": sites, "order": order})
			_ = os.WriteFile(f, b, 0o600)
		}
		os.Exit(code)
	}
	if len(os.Args) < 3 {
		fmt.Println("usage: h check|child ID")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "child":
		mon.ChildMain(os.Args[2])
	case "check":
		os.Exit(mon.CheckMain(os.Args[2], os.Getenv("VERIF_DIR"), os.Getenv("VERIF_WORK"), os.Getenv("VERIF_PROGRAM")))
	case "needs":
		p := mon.Registry[os.Args[2]]
		fmt.Println(p.Race, p.NeedProgram)
	}
}
