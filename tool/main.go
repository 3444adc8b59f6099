package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"
)

func main() {
	prop := flag.String("p", "all", "property ids, comma separated, or all")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	verbose := flag.Bool("v", false, "verbose")
	dump := flag.String("dump", "", "debug: walk a function and print its paths")
	flag.Parse()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	t := time.Now()
	p := Load(*repo, *verif+"/stubs")
	if *dump != "" {
		dumpFn(p, *dump)
		return
	}
	if debugSSA != "" {
		for _, f := range p.Funcs {
			if fname(f) == debugSSA {
				f.WriteTo(os.Stdout)
			}
		}
		if pk := p.Pkgs[debugSSA]; pk != nil {
			pk.Func("init").WriteTo(os.Stdout)
		}
		return
	}
	if *verbose {
		fmt.Println("loaded", len(p.Funcs), "functions in", time.Since(t))
	}
	want := map[string]bool{}
	for _, x := range strings.Split(*prop, ",") {
		want[x] = true
	}
	rc, n := 0, 0
	for _, d := range checks {
		if !want["all"] && !want[d.ID] {
			continue
		}
		n++
		if r := runCheck(d, *repo, *verif, tier, seed, p, *verbose); r > rc {
			rc = r
		}
	}
	if n == 0 {
		fmt.Println("no such property", *prop)
		rc = 2
	}
	os.Exit(rc)
}

func dumpFn(p *Prog, name string) {
	for _, f := range p.Funcs {
		if fname(f) != name {
			continue
		}
		w := p.NewWalker()
		w.OnEvent = func(st *State, ev *Event) bool {
			return ev.Kind != "load" && ev.Kind != "deref" && ev.Kind != "index"
		}
		xs := w.Run(f, nil, nil, nil)
		for i, x := range xs {
			fmt.Printf("--- path %d panic=%v at %s\n", i, x.Panic, p.pos(x.Instr.Pos()))
			for _, e := range x.St.Events() {
				fmt.Println("   ", e, p.pos(e.Instr.Pos()))
			}
			fmt.Println("   facts:", x.St.facts)
			for _, r := range x.Rets {
				fmt.Println("    ret", r)
			}
		}
		fmt.Println(w.NItems, "items", w.Undecided)
	}
}

func init() {
	if os.Getenv("SSADUMP") != "" {
		debugSSA = os.Getenv("SSADUMP")
	}
}

var debugSSA string
