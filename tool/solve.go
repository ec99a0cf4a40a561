package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

type solverCfg struct {
	name string
	args func(file string, ms int) []string
}

var solvers = []solverCfg{
	{"cvc5", func(f string, ms int) []string {
		return []string{"cvc5", "--strings-exp", fmt.Sprintf("--tlimit=%d", ms), f}
	}},
	{"z3", func(f string, ms int) []string {
		return []string{"z3-new", fmt.Sprintf("-T:%d", (ms+999)/1000), f}
	}},
}

// Solver holds run-wide statistics.
type Solver struct {
	dir     string
	mu      sync.Mutex
	queries int
	timeMS  map[string]int64
	count   map[string]int
	cache   map[[32]byte]string
	cacheBy map[[32]byte]string
	n       int
	sem     chan bool
}

func NewSolver(dir string) *Solver {
	return &Solver{dir: dir, timeMS: map[string]int64{}, count: map[string]int{}, cache: map[[32]byte]string{}, cacheBy: map[[32]byte]string{}, sem: make(chan bool, jobs)}
}

// run decides one query text. Result: unsat, sat, unknown.
func (S *Solver) run(text string, budgetMS int, onlyFirst bool) (res, by string, ms int64) {
	h := sha256.Sum256([]byte(text))
	S.mu.Lock()
	if r, ok := S.cache[h]; ok {
		by := S.cacheBy[h]
		S.mu.Unlock()
		return r, by, 0
	}
	S.n++
	f := filepath.Join(S.dir, fmt.Sprintf("q%d.smt2", S.n))
	S.mu.Unlock()
	S.sem <- true
	defer func() { <-S.sem }()
	os.WriteFile(f, []byte(text), 0644)
	defer os.Remove(f)
	res, by = "unknown", "none"
	note := func(i int, r string, d int64) bool {
		S.mu.Lock()
		S.timeMS[solvers[i].name] += d
		S.queries++
		S.mu.Unlock()
		if r == "unsat" || r == "sat" {
			res, by = r, solvers[i].name
			return true
		}
		if strings.HasPrefix(r, "error") {
			res, by = r, solvers[i].name
		}
		return false
	}
	t0 := time.Now()
	short := 1500
	if short > budgetMS {
		short = budgetMS
	}
	r := runSolver(context.Background(), solvers[0].args(f, short), time.Duration(short+1000)*time.Millisecond)
	if !note(0, r, time.Since(t0).Milliseconds()) && budgetMS > short {
		ctx, cancel := context.WithCancel(context.Background())
		type ans struct {
			i int
			r string
		}
		ch := make(chan ans, len(solvers))
		t1 := time.Now()
		for i := range solvers {
			go func(i int) {
				ch <- ans{i, runSolver(ctx, solvers[i].args(f, budgetMS), time.Duration(budgetMS+1000)*time.Millisecond)}
			}(i)
		}
		for range solvers {
			a := <-ch
			if note(a.i, a.r, time.Since(t1).Milliseconds()) {
				break
			}
		}
		cancel()
	}
	ms = time.Since(t0).Milliseconds()
	if os.Getenv("GOV_SLOW") != "" && ms > 1000 {
		os.WriteFile(filepath.Join(os.Getenv("GOV_SLOW"), fmt.Sprintf("%s-%d-%x.smt2", res, ms, h[:4])), []byte(text), 0644)
	}
	S.mu.Lock()
	if res == "unsat" {
		S.count[by]++
	}
	S.cache[h] = res
	S.cacheBy[h] = by
	S.mu.Unlock()
	return
}

func runOutput(ctx context.Context, args []string) string {
	out, _ := exec.CommandContext(ctx, args[0], append([]string{"--produce-models"}, args[1:]...)...).CombinedOutput()
	return string(out)
}

func runSolver(parent context.Context, args []string, lim time.Duration) string {
	ctx, cancel := context.WithTimeout(parent, lim)
	defer cancel()
	c := exec.CommandContext(ctx, args[0], args[1:]...)
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	c.Run()
	s := out.String()
	for _, l := range strings.Split(s, "\n") {
		switch strings.TrimSpace(l) {
		case "unsat", "sat", "unknown", "timeout":
			return strings.TrimSpace(l)
		}
	}
	if strings.Contains(s, "error") {
		if len(s) > 300 {
			s = s[:300]
		}
		return "error " + s
	}
	return "unknown"
}

// ---- query construction

type printer struct {
	b      strings.Builder
	names  map[*Term]string
	decl   map[string]bool
	count  map[*Term]int
	nextID int
	decls  strings.Builder
}

func (p *printer) countRefs(t *Term) {
	p.count[t]++
	if p.count[t] > 1 {
		return
	}
	for _, a := range t.args {
		p.countRefs(a)
	}
}
func (p *printer) declare(t *Term) {
	if t.op != "sym" && t.op != "app" {
		return
	}
	n := quoteSym(t.name)
	if p.decl[n] {
		return
	}
	p.decl[n] = true
	var as []string
	for _, a := range t.args {
		as = append(as, string(a.sort))
	}
	fmt.Fprintf(&p.decls, "(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), t.sort)
}
func (p *printer) emit(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	p.declare(t)
	if len(t.args) == 0 {
		return t.head()
	}
	var parts []string
	for _, a := range t.args {
		parts = append(parts, p.emit(a))
	}
	s := "(" + t.head() + " " + strings.Join(parts, " ") + ")"
	if p.count[t] > 1 {
		p.nextID++
		n := fmt.Sprintf("d%d", p.nextID)
		p.names[t] = n
		fmt.Fprintf(&p.b, "(define-fun %s () %s %s)\n", n, t.sort, s)
		return n
	}
	return s
}

// axioms gives ground facts about interpreted applications occurring in the query.
func (E *Engine) axioms(t *Term) []*Term {
	var out []*Term
	switch t.op {
	case "app":
		switch t.name {
		case "lower":
			s := t.args[0]
			out = append(out, Eq(App("lower", SStr, t), t), Eq(Eq(t, Str("")), Eq(s, Str(""))))
		default:
			if strings.HasPrefix(t.name, "u:uNet") && len(t.args) == 1 && t.args[0].op == "str" && t.sort == SInt {
				// the text is a constant: ask the library
				_, _, err := net.ParseCIDR(t.args[0].sv)
				isErr := strings.HasPrefix(t.name, "u:uNetErr")
				if isErr || strings.HasPrefix(t.name, "u:uNet:") || t.name == "u:uNet" {
					z := Eq(t, Int(0))
					if isErr == (err == nil) {
						out = append(out, z)
					} else {
						out = append(out, Not(z), Lt(Int(0), t))
					}
				}
			}
		}
	case "select":
		if t.args[0].op == "sym" && (strings.HasPrefix(t.args[0].name, "H:") || strings.HasPrefix(t.args[0].name, "F:")) && t.sort == SInt {
			if ft := E.P.fieldTypeOf(t.args[0].name[2:]); ft != nil && isRefType(ft) {
				// what an object held on entry existed on entry
				if ix := t.args[1]; isOldRef(ix) || ix.isConst() {
					out = append(out, Le(t, E.alloc0), Le(Int(0), t))
				} else if t.args[0].name[0] == 'H' {
					out = append(out, Implies(Le(ix, E.alloc0), Le(t, E.alloc0)), Le(Int(0), t))
				}
			}
		}
	}
	return out
}

// query builds the SMT text asserting all assumptions and the negated goal.
func (E *Engine) query(o *Oblig, alive map[*Cand]bool, depth int, extra []*Term) string {
	return printQuery(E.queryTerms(o, alive, depth, extra))
}

func (E *Engine) queryTerms(o *Oblig, alive map[*Cand]bool, depth int, extra []*Term) []*Term {
	var as []*Term
	sub := map[*Term]*Term{}
	for _, c := range E.cands {
		sub[c.en] = Bool(alive[c])
	}
	cache := map[*Term]*Term{}
	for _, a := range E.asm[:o.nAsm] {
		x := substEn(a, sub, cache)
		if x != True {
			as = append(as, x)
		}
	}
	as = append(as, extra...)
	goal := Not(substEn(o.goal, sub, cache))
	as = append(as, goal)
	as = E.relevant(as, goal)
	as = propagate(as)
	// unfold recursive specification functions, and add axioms
	done := map[*Term]bool{}
	front := as
	for d := 0; ; d++ {
		var apps []*Term
		seen := map[*Term]bool{}
		var ax []*Term
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			for _, a := range t.args {
				walk(a)
			}
			if done[t] {
				return
			}
			if t.op == "app" && strings.HasPrefix(t.name, "s:") {
				apps = append(apps, t)
				return
			}
			if t.op == "app" || t.op == "select" {
				done[t] = true
				ax = append(ax, E.axioms(t)...)
			}
		}
		for _, t := range front {
			walk(t)
		}
		as = append(as, ax...)
		if d >= depth {
			break
		}
		if len(apps) == 0 {
			break
		}
		front = nil
		for _, a := range apps {
			if done[a] {
				continue
			}
			done[a] = true
			if eq := E.unfold(a); eq != nil {
				front = append(front, eq)
			}
		}
		front = append(front, ax...)
		as = append(as, front...)
	}
	as = append(as, lowerFacts(as)...)
	as = propagate(as)
	// past the end of a literal sequence
	seen := map[*Term]bool{}
	var ends []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		if t.op != "app" || !strings.HasPrefix(t.name, "s:") {
			return
		}
		for _, x := range t.args {
			if x.op == "seq.unit" || x.op == "as" {
				if eq := E.unfold(t); eq != nil && (eq == t || eq.op == "not" && eq.args[0] == t || eq.op == "=" && (eq.args[0].isConst() || eq.args[1].isConst())) {
					ends = append(ends, eq)
				}
				return
			}
		}
	}
	for _, t := range as {
		walk(t)
	}
	if len(ends) > 0 {
		as = propagate(append(as, ends...))
	}
	return as
}

// lowerFacts: what lower-casing does to the constants that strings are compared with.
func lowerFacts(as []*Term) []*Term {
	seen := map[*Term]bool{}
	consts := map[*Term][]*Term{}
	var lowers []*Term
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "=" && t.args[1].op == "str" {
			consts[t.args[0]] = append(consts[t.args[0]], t.args[1])
		}
		if t.op == "app" && t.name == "lower" {
			lowers = append(lowers, t)
		}
		for _, a := range t.args {
			w(a)
		}
	}
	for _, a := range as {
		w(a)
	}
	var out []*Term
	for _, l := range lowers {
		for _, k := range consts[l.args[0]] {
			out = append(out, Implies(Eq(l.args[0], k), Eq(l, Str(strings.ToLower(k.sv)))))
		}
	}
	return out
}

func printQuery(as []*Term) string {
	p := &printer{names: map[*Term]string{}, decl: map[string]bool{}, count: map[*Term]int{}}
	for _, a := range as {
		p.countRefs(a)
	}
	for _, a := range as {
		s := p.emit(a)
		fmt.Fprintf(&p.b, "(assert %s)\n", s)
	}
	return "(set-logic ALL)\n" + p.decls.String() + p.b.String() + "(check-sat)\n"
}

// substEn replaces candidate enable symbols by constants.
func substEn(t *Term, sub map[*Term]*Term, cache map[*Term]*Term) *Term {
	if r, ok := sub[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if !hasEn(t) {
		return t
	}
	if r, ok := cache[t]; ok {
		return r
	}
	var as []*Term
	for _, a := range t.args {
		as = append(as, substEn(a, sub, cache))
	}
	var r *Term
	switch t.op {
	case "and":
		r = And(as...)
	case "or":
		r = Or(as...)
	case "not":
		r = Not(as[0])
	case "ite":
		r = Ite(as[0], as[1], as[2])
	default:
		n := *t
		n.args = as
		r = intern(n)
	}
	cache[t] = r
	return r
}

var enCache = map[*Term]bool{}

func hasEn(t *Term) bool {
	if r, ok := enCache[t]; ok {
		return r
	}
	r := t.op == "sym" && strings.HasPrefix(t.name, "en:")
	for _, a := range t.args {
		if r {
			break
		}
		r = hasEn(a)
	}
	enCache[t] = r
	return r
}

var symCache = map[*Term]map[*Term]bool{}

func symsOf(t *Term) map[*Term]bool {
	if r, ok := symCache[t]; ok {
		return r
	}
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "sym" {
			out[t] = true
		} else if t.sort == SInt {
			// a fresh object counts as a symbol of its own
			if b, off := addParts(t); b != nil && off > 0 && allocRank(b) > 0 {
				out[t] = true
			}
		}
		for _, a := range t.args {
			w(a)
		}
	}
	w(t)
	symCache[t] = out
	return out
}

// relevant drops assumptions that share no symbol, transitively, with the goal.
func (E *Engine) relevant(as []*Term, goal *Term) []*Term {
	have := map[*Term]bool{}
	for s := range symsOf(goal) {
		have[s] = true
	}
	keep := make([]bool, len(as))
	for changed := true; changed; {
		changed = false
		for i, a := range as {
			if keep[i] {
				continue
			}
			ss := symsOf(a)
			rel := a == goal || len(ss) == 0
			for s := range ss {
				if have[s] && s != E.alloc0 {
					rel = true
					break
				}
			}
			if !rel && len(ss) == 1 && ss[E.alloc0] {
				rel = true
			}
			if rel {
				keep[i] = true
				changed = true
				for s := range ss {
					have[s] = true
				}
			}
		}
	}
	var out []*Term
	for i, a := range as {
		if keep[i] {
			out = append(out, a)
		}
	}
	return out
}

// Solve runs Houdini on the candidates and then decides every obligation.
func (E *Engine) Solve(S *Solver, want func(*Oblig) bool, budgetMS int) {
	alive := map[*Cand]bool{}
	for _, c := range E.cands {
		alive[c] = !c.dead
	}
	depth := 2
	if E.contract != nil {
		depth = E.contract.unfold
		if E.contract.timeout > 0 {
			budgetMS = E.contract.timeout * 1000
		}
	}
	houdini := func(userBudget int) (parked []*Cand) {
		round := 0
		for {
			round++
			type job struct {
				o    *Oblig
				text string
				res  string
			}
			var jobs []*job
			for _, o := range E.obligs {
				if o.cand == nil || !alive[o.cand] || o.goal == True {
					continue
				}
				if round == 1 && !strings.HasPrefix(o.name, "loop invariant holds on entry") {
					continue // what does not hold on entry needs no second look
				}
				j := &job{o: o}
				ts := E.queryTerms(o, alive, depth, nil)
				if o.cand.user && quickSplit(ts) {
					j.res, o.result, o.solver = "unsat", "unsat", "simplifier"
				} else {
					j.text = printQuery(ts)
				}
				jobs = append(jobs, j)
			}
			// kill cheaply in passes: a candidate that fails one obligation needs no other
			var wg sync.WaitGroup
			for _, j := range jobs {
				if j.text == "" {
					continue
				}
				wg.Add(1)
				go func(j *job) {
					defer wg.Done()
					b := candBudget
					if j.o.cand.user {
						b = userBudget
					}
					j.res, j.o.solver, j.o.ms = S.run(j.text, b, true)
					j.o.result = j.res
				}(j)
			}
			wg.Wait()
			if b := userBudget; b > candBudget {
				for _, j := range jobs {
					if j.res != "unsat" && j.res != "sat" && j.o.cand.user {
						j.o.terms = E.queryTerms(j.o, alive, depth, nil)
						E.splitSolve(S, j.o, b)
						j.res = j.o.result
					}
				}
			}
			killed := 0
			for _, j := range jobs {
				if j.res != "unsat" && alive[j.o.cand] {
					alive[j.o.cand] = false
					j.o.cand.dead = true
					killed++
					if j.res != "sat" && j.o.cand.user {
						parked = append(parked, j.o.cand)
					}
					if verbose > 1 {
						fmt.Fprintf(os.Stderr, "  kill [%s] %s (%s)\n", j.res, j.o.name, E.root)
						if d := os.Getenv("GOV_KILLS"); d != "" && j.o.cand.user {
							killN++
							os.WriteFile(fmt.Sprintf("%s/kill%d.smt2", d, killN), []byte("; "+j.o.name+"\n"+j.text), 0644)
						}
					}
				}
			}
			if killed == 0 && round > 1 {
				break
			}
		}
		return
	}
	parked := houdini(candBudget)
	decide := func(last bool) bool {
		var wg sync.WaitGroup
		for _, o := range E.obligs {
			if o.cand != nil || o.result == "unsat" || !want(o) {
				continue
			}
			o.terms = E.queryTerms(o, alive, depth, nil)
			text := printQuery(o.terms)
			o.text = text
			if quickSplit(o.terms) {
				o.result, o.solver = "unsat", "simplifier"
				continue
			}
			wg.Add(1)
			go func(o *Oblig, text string) {
				defer wg.Done()
				o.result, o.solver, o.ms = S.run(text, budgetMS, false)
			}(o, text)
		}
		wg.Wait()
		ok := true
		for _, o := range E.obligs {
			if last && o.cand == nil && o.result != "unsat" && o.result != "sat" && o.terms != nil {
				E.splitSolve(S, o, budgetMS)
			}
			if o.cand == nil && want(o) && o.result != "unsat" {
				ok = false
			}
		}
		return ok
	}
	if !decide(len(parked) == 0) && len(parked) > 0 {
		// some candidates were given up for lack of time, and they may matter
		for _, c := range E.cands {
			if c.user {
				alive[c], c.dead = true, false
			}
		}
		houdini(budgetMS)
		decide(true)
	}
	E.alive = alive
}

// splitSolve decides an obligation the solvers gave up on by case splits.
func (E *Engine) splitSolve(S *Solver, o *Oblig, budgetMS int) {
	cubes := [][]*Term{o.terms}
	for depth := 0; depth < 5 && len(cubes) > 0; depth++ {
		var next [][]*Term
		for _, c := range cubes {
			a := splitAtom(c)
			if a == nil {
				o.result = "unknown"
				return
			}
			for _, l := range []*Term{a, Not(a)} {
				n := propagate(append(append([]*Term{}, c...), l))
				if len(n) == 1 && n[0] == False {
					continue
				}
				next = append(next, n)
			}
		}
		if len(next) > 64 {
			return
		}
		res := make([]string, len(next))
		var wg sync.WaitGroup
		for i := range next {
			text := printQuery(next[i])
			wg.Add(1)
			go func(i int, text string) {
				defer wg.Done()
				r, by, ms := S.run(text, budgetMS/2, false)
				res[i] = r
				S.mu.Lock()
				o.solver = by + " (case split)"
				o.ms += ms
				S.mu.Unlock()
			}(i, text)
		}
		wg.Wait()
		cubes = nil
		for i := range next {
			if res[i] == "sat" {
				o.result = "sat"
				o.text = printQuery(next[i])
				return
			}
			if res[i] != "unsat" {
				cubes = append(cubes, next[i])
			}
		}
	}
	if len(cubes) == 0 {
		o.result = "unsat"
	}
}

// Vacuous reports whether the assumptions are contradictory (on some solver).
func (E *Engine) Vacuous(S *Solver) string {
	o := &Oblig{goal: Not(E.final), nAsm: len(E.asm)}
	if E.final == nil {
		return "unknown"
	}
	text := E.query(o, E.alive, 1, nil)
	r, _, _ := S.run(text, 3000, true)
	return r
}

var candBudget = 2000
var jobs = runtime.NumCPU()
var verbose int
var killN int

func sortStrs(s []string) []string { sort.Strings(s); return s }

// firstContradiction finds the shortest prefix of the assumptions that is contradictory (a debugging aid).
func (E *Engine) firstContradiction(S *Solver) {
	bad := func(n int) bool {
		o := &Oblig{goal: False, nAsm: n}
		r, _, _ := S.run(E.query(o, map[*Cand]bool{}, 1, nil), 5000, true)
		return r == "unsat"
	}
	if !bad(len(E.asm)) {
		fmt.Println("   no contradiction found")
		return
	}
	lo, hi := 0, len(E.asm)
	for lo+1 < hi {
		m := (lo + hi) / 2
		if bad(m) {
			hi = m
		} else {
			lo = m
		}
	}
	fmt.Printf("   contradiction at assumption %d of %d: %.3000s\n", hi, len(E.asm), E.asm[hi-1].String())
}
