package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	spec := flag.String("spec", "/verif/spec", "")
	stub := flag.String("stub", "/verif/stub/smtpd", "")
	only := flag.String("root", "", "comma separated roots")
	flag.IntVar(&verbose, "v", 0, "")
	budget := flag.Int("ms", 10000, "")
	dump := flag.String("dump", "", "directory for failed queries")
	flag.BoolVar(&debugPanics, "panic", false, "")
	list := flag.String("list", "", "write the roots as JSON to this file")
	js := flag.String("json", "", "write the result for one root as JSON to this file")
	prop := flag.String("prop", "", "obligations of this property only")
	flag.IntVar(&jobs, "j", jobs, "solver processes at a time")
	flag.IntVar(&candBudget, "cand", candBudget, "time limit for candidate invariants, ms")
	flag.Parse()
	t0 := time.Now()
	P, err := Load(*repo, *spec, *stub)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	if *list != "" {
		listJSON(P, *list)
		return
	}
	if *js != "" {
		for _, r := range P.Roots() {
			if r.name == *only {
				rootJSON(P, r, *prop, *js, *budget)
				return
			}
		}
		fmt.Fprintln(os.Stderr, "no such root")
		os.Exit(2)
	}
	for _, d := range P.dropped {
		fmt.Println("dropped:", d)
	}
	fmt.Println("loaded in", time.Since(t0))
	dir, _ := os.MkdirTemp("", "vsmt")
	defer os.RemoveAll(dir)
	S := NewSolver(dir)
	for _, r := range P.Roots() {
		if *only != "" {
			ok := false
			for _, x := range strings.Split(*only, ",") {
				if x == r.name {
					ok = true
				}
			}
			if !ok {
				continue
			}
		}
		t1 := time.Now()
		E := P.Generate(r)
		tg := time.Since(t1)
		if E.crash != "" {
			fmt.Printf("%-30s CRASH %s\n", r.name, E.crash)
			continue
		}
		E.Solve(S, func(*Oblig) bool { return true }, *budget)
		ok, bad, cands := 0, 0, 0
		for _, c := range E.cands {
			if !c.dead {
				cands++
			}
		}
		for _, o := range E.obligs {
			if o.cand != nil {
				continue
			}
			if o.result == "unsat" {
				ok++
			} else {
				bad++
				fmt.Printf("   FAIL [%s] %s: %s (%s)\n", o.result, o.kind, o.name, P.fset.Position(o.pos))
				if *dump != "" {
					os.MkdirAll(*dump, 0755)
					os.WriteFile(fmt.Sprintf("%s/%s-%d.smt2", *dump, strings.Map(func(r rune) rune {
						if strings.ContainsRune("()* /", r) {
							return '_'
						}
						return r
					}, r.name), bad), []byte(o.text), 0644)
				}
			}
		}
		vac := E.Vacuous(S)
		if os.Getenv("GOV_VAC") != "" {
			E.firstContradiction(S)
		}
		fmt.Printf("%-30s proved %d failed %d invariants %d/%d gen %v total %v vac=%s\n", r.name, ok, bad, cands, len(E.cands), tg.Round(time.Millisecond), time.Since(t1).Round(time.Millisecond), vac)
		if verbose > 0 {
			for u := range E.unsup {
				fmt.Println("   unsupported:", u)
			}
			for u := range E.assumed {
				fmt.Println("   assumed:", u)
			}
			for u := range E.inlined {
				fmt.Println("   inlined:", u)
			}
			for _, c := range E.cands {
				if !c.dead {
					fmt.Println("   inv:", c.text)
				}
			}
		}
	}
	fmt.Println("solver ms", S.timeMS, "proved by", S.count, "total", time.Since(t0))
}
