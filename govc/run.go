package main

import (
	"fmt"
	"os"
	"strings"
)

func verifDir() string {
	if d := os.Getenv("GOVC_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func runMain(cmd string, args []string) int {
	w, err := loadWorld(verifDir())
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	switch cmd {
	case "fn":
		rc := 0
		for _, a := range args {
			n := 0
			for _, c := range w.specs.contracts {
				if c.assumed || !(c.name == a || strings.HasSuffix(a, "*") && strings.HasPrefix(c.name, a[:len(a)-1])) {
					continue
				}
				n++
				u := w.verify(c)
				show(u)
				if !u.ok() {
					rc = 1
				}
			}
			if n == 0 {
				fmt.Println("no contract", a)
				rc = 1
			}
		}
		return rc
	case "prop":
		return runProp(w, args[0])
	case "unit":
		return unitMain(w, args[0])
	case "list":
		for _, c := range w.specs.contracts {
			fmt.Println(c.name, c.props, c.assumed)
		}
	}
	return 0
}

func show(u *UnitRes) {
	st := "OK"
	if !u.ok() {
		st = "FAIL"
	}
	fmt.Printf("%s %s %s: %d obligations, %.1fs (solver %.1fs)", st, u.Kind, u.Name, len(u.Obls), u.Secs, u.Solver)
	if u.Err != "" {
		fmt.Printf(" ERROR %s", u.Err)
	}
	if u.Vacuous != "" {
		fmt.Printf(" VACUOUS %s", u.Vacuous)
	}
	fmt.Println()
	for _, o := range u.Obls {
		if !o.OK {
			fmt.Printf("   FAILED %s [%s] %s (%s %s)\n      goal %.600s\n", o.Pos, o.Kind, o.What, o.Verdict, o.By, o.Goal)
		}
	}
	if os.Getenv("GOVC_V") != "" {
		for _, o := range u.Obls {
			fmt.Printf("   %v %s [%s] %s by %s %.2fs\n", o.OK, o.Pos, o.Kind, o.What, o.By, o.Secs)
		}
		fmt.Println("   used:", u.Used)
	}
}
