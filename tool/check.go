package main

import (
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Machine-readable output for the check driver.

type jOblig struct {
	Name, Kind, Pos, Result, Solver string
	MS                              int64
	Model                           []string `json:",omitempty"`
	Query                           string   `json:",omitempty"`
}

type jRoot struct {
	Name, File  string
	Props       []string
	Bad, Crash  string `json:",omitempty"`
	Obligs      []jOblig
	Invariants  []string
	Unsupported []string
	Assumed     []string
	Inlined     []string
	Vacuous     string
	WallMS      int64
	SolverMS    map[string]int64
	ProvedBy    map[string]int
}

type jList struct {
	Roots   []jRoot
	Trusted []string
	Dropped []string
	Helpers []string
	Strings []string
}

func (P *Program) relpos(p token.Pos) string {
	q := P.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, "/repo/"), q.Line)
}

func listJSON(P *Program, file string) {
	var l jList
	for _, r := range P.Roots() {
		j := jRoot{Name: r.name, Props: r.props()}
		for _, c := range r.cts {
			if c.bad != "" {
				j.Bad = c.bad
			}
		}
		if r.fn != nil {
			j.File = P.relpos(r.fn.Pos())
		}
		l.Roots = append(l.Roots, j)
	}
	for _, k := range P.order {
		if c := P.contracts[k]; c.trusted {
			l.Trusted = append(l.Trusted, c.key+" ["+strings.Join(c.props, " ")+"]")
		}
	}
	l.Dropped = P.dropped
	l.Strings = P.literals()
	writeJSON(file, l)
}

// literals are the string and character literals of the code under test.
func (P *Program) literals() []string {
	m := map[string]bool{}
	for _, f := range P.repoFiles {
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			if b, ok := n.(*ast.BasicLit); ok {
				switch b.Kind {
				case token.STRING:
					if s, err := strconv.Unquote(b.Value); err == nil && len(s) < 60 {
						m[s] = true
					}
				case token.CHAR:
					if s, err := strconv.Unquote(b.Value); err == nil {
						m[s] = true
					}
				}
			}
			return true
		})
	}
	return sortedKeys(m)
}

func writeJSON(file string, v interface{}) {
	b, _ := json.Marshal(v)
	if err := os.WriteFile(file, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func rootJSON(P *Program, r *Root, prop, file string, budget int) {
	dir, _ := os.MkdirTemp("", "vsmt")
	defer os.RemoveAll(dir)
	S := NewSolver(dir)
	t0 := time.Now()
	j := jRoot{Name: r.name, Props: r.props()}
	if r.fn != nil {
		j.File = P.relpos(r.fn.Pos())
	}
	for _, c := range r.cts {
		if c.bad != "" {
			j.Bad = c.bad
		}
	}
	if j.Bad != "" {
		writeJSON(file, j)
		return
	}
	E := P.Generate(r)
	if E.crash != "" {
		j.Crash = E.crash
		writeJSON(file, j)
		return
	}
	want := func(o *Oblig) bool {
		if prop == "" || len(o.props) == 0 {
			return true
		}
		for _, p := range o.props {
			if p == prop {
				return true
			}
		}
		return false
	}
	E.Solve(S, want, budget)
	for _, o := range E.obligs {
		if o.cand != nil {
			if !o.cand.dead && o.goal != True {
				j.Obligs = append(j.Obligs, jOblig{Name: o.name, Kind: "invariant", Pos: P.relpos(o.pos), Result: o.result, Solver: o.solver, MS: o.ms})
			}
			continue
		}
		if !want(o) {
			continue
		}
		x := jOblig{Name: o.name, Kind: o.kind, Pos: P.relpos(o.pos), Result: o.result, Solver: o.solver, MS: o.ms}
		if o.result != "unsat" {
			x.Query = o.text
			if len(x.Query) > 300000 {
				x.Query = x.Query[:300000]
			}
			if o.result == "sat" {
				x.Model = modelStrings(dir, o.text)
			}
		}
		j.Obligs = append(j.Obligs, x)
	}
	for _, c := range E.cands {
		if !c.dead {
			j.Invariants = append(j.Invariants, c.text)
		}
	}
	for u := range E.unsup {
		j.Unsupported = append(j.Unsupported, u)
	}
	j.Assumed = sortedKeys(E.assumed)
	j.Inlined = sortedKeys(E.inlined)
	sort.Strings(j.Unsupported)
	j.Vacuous = E.Vacuous(S)
	j.WallMS = time.Since(t0).Milliseconds()
	j.SolverMS, j.ProvedBy = S.timeMS, S.count
	writeJSON(file, j)
}

var reStr = regexp.MustCompile(`"((?:[^"]|"")*)"`)
var reUni = regexp.MustCompile(`\\u\{([0-9a-fA-F]+)\}`)

// modelStrings are the strings of a counterexample, for replay.
func modelStrings(dir, text string) []string {
	f := dir + "/model.smt2"
	os.WriteFile(f, []byte(text+"\n(get-model)\n"), 0644)
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	out := runOutput(ctx, solvers[0].args(f, 8000))
	m := map[string]bool{}
	for _, x := range reStr.FindAllStringSubmatch(out, -1) {
		s := strings.ReplaceAll(x[1], `""`, `"`)
		s = reUni.ReplaceAllStringFunc(s, func(u string) string {
			n, _ := strconv.ParseUint(u[3:len(u)-1], 16, 32)
			return string([]byte{byte(n)})
		})
		if len(s) < 200 {
			m[s] = true
		}
	}
	return sortedKeys(m)
}
