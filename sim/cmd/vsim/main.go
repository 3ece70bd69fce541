// Command vsim runs the checks; see /verif/check.
package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"

	"verifsim/drv"
	"verifsim/gen"
)

func usage() int {
	fmt.Fprintln(os.Stderr, "usage: check <property> [--quick|--thorough] | --replay FILE | --list | --build | --gen DIR FLAVOUR")
	return 2
}

func main() { os.Exit(run(os.Args[1:])) }

func run(args []string) int {
	if len(args) == 0 {
		return usage()
	}
	verif, repo, scratch := os.Getenv("VERIF_DIR"), os.Getenv("VERIF_REPO"), os.Getenv("VERIF_SCRATCH")
	if verif == "" || scratch == "" {
		return usage()
	}
	if repo == "" {
		repo = "/repo"
	}
	e, err := drv.NewEnv(verif, repo, scratch)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	switch args[0] {
	case "--list":
		var ids []string
		for id := range drv.Specs {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return 0
	case "--build":
		for _, f := range []string{"plain", "fine"} {
			if _, err := e.Build(f); err != nil {
				fmt.Println("ERROR", err)
				return 2
			}
			fmt.Printf("%s build: %.1fs\n", f, e.Built[f])
		}
		return 0
	case "--gen":
		if len(args) != 3 {
			return usage()
		}
		out, _ := filepath.Abs(args[1])
		os.MkdirAll(out, 0o755)
		goCmd, _ := exec.LookPath("go")
		r, err := gen.Generate(gen.Config{Repo: repo, RT: verif + "/rt", Out: out, Tags: []string{"verif"}, Env: e.GoEnv, GoCmd: goCmd,
			Taps: map[string][]string{"lib/pool": {"Pool"}, "lib/executor": {"Execution"}}, Package: "app", Fine: args[2] != "plain"})
		if err != nil {
			fmt.Println("gen:", err)
			return 2
		}
		fmt.Println(out, r.Packages, r.Lines)
		return 0
	case "--replay":
		if len(args) != 2 {
			return usage()
		}
		return e.Replay(args[1])
	}
	sp := drv.Specs[args[0]]
	if sp == nil {
		fmt.Println("ERROR no check for", args[0])
		return 2
	}
	for _, a := range args[1:] {
		switch a {
		case "--thorough":
			e.Tier = "thorough"
		case "--quick":
			e.Tier = "quick"
		default:
			return usage()
		}
	}
	return e.Check(sp)
}
