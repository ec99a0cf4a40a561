package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loopCtx holds the candidate invariants of one cut loop.
type loopCtx struct {
	name  string
	cands []*loopCand
	phis  []*ssa.Phi
	steps []func(st *State, phi func(*ssa.Phi) Value)
}
type loopCand struct {
	c   *Cand
	gen func(st *State, phi func(*ssa.Phi) Value) *Term
}

// atom is something a template variable can stand for.
type atom struct {
	name string
	get  func(st *State, phi func(*ssa.Phi) Value) Value
}

func (E *Engine) cutLoop(fr *Frame, h *ssa.BasicBlock, st *State, order []*ssa.BasicBlock) {
	set := loopBlocks(h)
	if E.quiet > 0 && E.P.specFuncs[fr.fn] {
		panic("loop in specification function " + fr.fn.Name())
	}
	var phis []*ssa.Phi
	for _, ins := range h.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	initEnv := map[*ssa.Phi]Value{}
	for _, p := range phis {
		initEnv[p] = fr.env[p]
	}
	pre := st.clone()
	// dry runs to find what the loop changes
	modHeap := map[string]map[*Term]bool{} // name -> stable indices; nil map value means everything
	modGlob := map[string]bool{}
	modCell := map[int]bool{}
	havocAll := map[string]bool{}
	idBefore := termCount
	havoc := func(s *State, env map[ssa.Value]Value) {
		E.bumpAlloc(s)
		for _, p := range phis {
			v := E.freshValue(s, "phi:"+p.Comment+":"+p.Name(), p.Type())
			if sl, ok := v.(VSlice); ok {
				sl.own = Fresh("own", SBool)
				v = sl
			}
			env[p] = v
		}
		var names []string
		for n := range modHeap {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			cur := s.heap[n]
			if cur == nil {
				continue
			}
			if havocAll[n] {
				s.heap[n] = Fresh("Hl:"+n, cur.sort)
				continue
			}
			_, vs := cur.sort.arrKV()
			var idx []*Term
			for ix := range modHeap[n] {
				idx = append(idx, ix)
			}
			sort.Slice(idx, func(i, j int) bool { return idx[i].id < idx[j].id })
			for _, ix := range idx {
				cur = Store(cur, ix, Fresh("hl:"+n, vs))
			}
			s.heap[n] = cur
		}
		for _, g := range sortedKeys(modGlob) {
			if cur, ok := s.glob[g]; ok {
				s.glob[g] = Fresh("Gl:"+g, cur.sort)
			}
		}
		var cs []int
		for c := range modCell {
			cs = append(cs, c)
		}
		sort.Ints(cs)
		for _, c := range cs {
			if v, ok := s.cells[c].(VT); ok {
				s.cells[c] = VT{Fresh("cell", v.t.sort)}
			} else if a, ok := s.cells[c].(VArr); ok {
				n := VArr{}
				for _, e := range a.e {
					switch y := e.(type) {
					case VT:
						n.e = append(n.e, VT{Fresh("cell", y.t.sort)})
					default:
						n.e = append(n.e, VT{Fresh("cell", SInt)})
					}
				}
				s.cells[c] = n
			}
		}
	}
	// names must exist in the state before havoc: materialise initial symbols
	ensure := func(s *State, n string, like *Term) {
		if _, ok := s.heap[n]; !ok {
			_, v := like.sort.arrKV()
			s.heap[n] = E.heapInit(n, v)
		}
	}
	E.dry++
	for iter := 0; iter < 8; iter++ {
		s := pre.clone()
		f2 := &Frame{fn: fr.fn, env: map[ssa.Value]Value{}, loops: map[*ssa.BasicBlock]*loopCtx{}}
		for k, v := range fr.env {
			f2.env[k] = v
		}
		havoc(s, f2.env)
		dl := &dryLoop{set: set, header: h}
		start := s.clone()
		E.frames = append(E.frames, f2)
		E.runBlocks(f2, order, map[*ssa.BasicBlock][]edge{h: {{nil, s}}}, dl)
		E.frames = E.frames[:len(E.frames)-1]
		changed := false
		for _, b := range dl.back {
			for n, t := range b.st.heap {
				t0, ok := start.heap[n]
				if !ok {
					_, v := t.sort.arrKV()
					t0 = E.heapInit(n, v)
				}
				if t == t0 {
					continue
				}
				ensure(pre, n, t)
				idx := map[*Term]bool{}
				okIdx := storeIndices(t, t0, idx, map[*Term]bool{})
				if modHeap[n] == nil {
					modHeap[n] = map[*Term]bool{}
					changed = true
				}
				if !okIdx {
					if !havocAll[n] {
						havocAll[n] = true
						changed = true
					}
					continue
				}
				for ix := range idx {
					base, off := addParts(ix)
					if base != nil && allocRank(base) > 0 && base.id > idBefore && off > 0 {
						continue // object allocated inside the loop
					}
					if ix.id > idBefore || mentionsNewer(ix, idBefore) {
						if !havocAll[n] {
							havocAll[n] = true
							changed = true
						}
						continue
					}
					if !modHeap[n][ix] {
						modHeap[n][ix] = true
						changed = true
					}
				}
			}
			for g, t := range b.st.glob {
				t0, ok := start.glob[g]
				if !ok {
					t0 = Sym("G:"+g, t.sort)
				}
				if t != t0 && !modGlob[g] {
					modGlob[g] = true
					if _, ok := pre.glob[g]; !ok {
						pre.glob[g] = Sym("G:"+g, t.sort)
					}
					changed = true
				}
			}
			for c, v := range b.st.cells {
				if v0, ok := start.cells[c]; ok && fmt.Sprint(v) != fmt.Sprint(v0) && !modCell[c] {
					modCell[c] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	E.dry--
	st.heap, st.glob = pre.clone().heap, pre.clone().glob
	initSt := st.clone()
	havoc(st, fr.env)
	E.loopCtr[fr.fn.Name()]++
	lc := &loopCtx{name: fmt.Sprintf("%s#%d", fr.fn.Name(), E.loopCtr[fr.fn.Name()]), phis: phis}
	fr.loops[h] = lc
	if E.dry > 0 {
		return
	}
	E.makeCands(fr, h, set, lc, initSt, initEnv, st, modHeap, havocAll, modGlob, modCell)
	// initiation
	for _, c := range lc.cands {
		g := c.gen(initSt, func(p *ssa.Phi) Value { return initEnv[p] })
		E.candOblig(initSt, c.c, "holds on entry", g)
	}
	for _, c := range lc.cands {
		g := c.gen(st, func(p *ssa.Phi) Value { return fr.env[p] })
		E.assume(st, Implies(c.c.en, g))
	}
}

func (E *Engine) candOblig(st *State, c *Cand, what string, g *Term) {
	o := &Oblig{name: "loop invariant " + what + ": " + c.text, kind: "invariant", goal: Implies(st.guard, g), nAsm: len(E.asm), cand: c}
	if o.goal == True {
		o.result, o.solver = "unsat", "simplifier"
	}
	E.obligs = append(E.obligs, o)
}

func (E *Engine) backEdge(fr *Frame, h, pred *ssa.BasicBlock, st *State) {
	if E.dry > 0 {
		return
	}
	lc := fr.loops[h]
	if lc == nil {
		return
	}
	get := func(p *ssa.Phi) Value {
		for k, q := range h.Preds {
			if q == pred {
				return E.operand(fr, st, p.Edges[k])
			}
		}
		panic("back edge")
	}
	for _, f := range lc.steps {
		f(st, get)
	}
	for _, c := range lc.cands {
		E.candOblig(st, c.c, "is preserved", c.gen(st, get))
	}
}

// storeIndices collects the indices at which t differs from t0; false if unknown.
func storeIndices(t, t0 *Term, idx map[*Term]bool, seen map[*Term]bool) bool {
	if t == t0 || seen[t] {
		return true
	}
	// t may be a part of t0's own chain of stores (a store to the same index replaces the last one)
	for c := t0; c.op == "store"; {
		c = c.args[0]
		if c == t {
			for d := t0; d != t; d = d.args[0] {
				idx[d.args[1]] = true
			}
			return true
		}
	}
	seen[t] = true
	switch t.op {
	case "store":
		idx[t.args[1]] = true
		return storeIndices(t.args[0], t0, idx, seen)
	case "ite":
		return storeIndices(t.args[1], t0, idx, seen) && storeIndices(t.args[2], t0, idx, seen)
	}
	return false
}

func mentionsNewer(t *Term, id int) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "sym" && t.id > id {
			return true
		}
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

func (E *Engine) makeCands(fr *Frame, h *ssa.BasicBlock, set map[*ssa.BasicBlock]bool, lc *loopCtx, initSt *State, initEnv map[*ssa.Phi]Value, st *State, modHeap map[string]map[*Term]bool, havocAll map[string]bool, modGlob map[string]bool, modCell map[int]bool) {
	user := false
	add := func(text string, gen func(st *State, phi func(*ssa.Phi) Value) *Term) {
		c := &Cand{en: Sym(fmt.Sprintf("en:%s:%d", lc.name, len(E.cands)), SBool), text: lc.name + ": " + text, loop: lc.name, user: user}
		E.cands = append(E.cands, c)
		lc.cands = append(lc.cands, &loopCand{c, gen})
	}
	// ---- atoms
	vary := map[string][]atom{}  // by type key
	fixed := map[string][]atom{} // loop-invariant values in scope
	for _, p := range lc.phis {
		p := p
		k := typeKey(p.Type())
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		vary[k] = append(vary[k], atom{nm, func(st *State, phi func(*ssa.Phi) Value) Value { return phi(p) }})
		if T0, ok := p.Type().Underlying().(*types.Basic); ok && T0.Kind() == types.Int {
			vary[k] = append(vary[k], atom{nm + "+1", func(st *State, phi func(*ssa.Phi) Value) Value { return VT{Add(T(phi(p)), Int(1))} }})
		}
	}
	// heap fields changed by the loop at known objects
	for _, n := range sortedKeys2(modHeap) {
		idx := modHeap[n]
		n := n
		ft := E.P.fieldTypeOf(n)
		if ft == nil {
			continue
		}
		for _, ix := range sortedTerms(idx) {
			ix := ix
			key := n
			vary[typeKey(ft)] = append(vary[typeKey(ft)], atom{n + "@" + ix.String(), func(st *State, phi func(*ssa.Phi) Value) Value {
				return E.loadFieldQuiet(st, ix, key, ft)
			}})
		}
	}
	for _, g := range sortedKeys(modGlob) {
		g := g
		if strings.HasPrefix(g, "gh") {
			continue // clauses name the specification's own state directly
		}
		if gt := E.P.globalType(g); gt != nil {
			vary[typeKey(gt)] = append(vary[typeKey(gt)], atom{g, func(st *State, phi func(*ssa.Phi) Value) Value {
				var ts []*Term
				for _, c := range comps(gt) {
					ts = append(ts, E.gget(st, g+c.suffix, c.sort))
				}
				return fromTerms(gt, ts)
			}})
		}
	}
	seenFixed := map[string]bool{}
	addFixed := func(nm string, t types.Type, v Value) {
		k := typeKey(t)
		id := k + "|" + fmt.Sprint(v)
		if seenFixed[id] {
			return
		}
		seenFixed[id] = true
		fixed[k] = append(fixed[k], atom{nm, func(*State, func(*ssa.Phi) Value) Value { return v }})
	}
	for _, p := range fr.fn.Params {
		addFixed(p.Name(), p.Type(), fr.env[p])
	}
	for _, b := range fr.fn.Blocks {
		if !set[b] {
			continue
		}
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				v := *op
				if v == nil {
					continue
				}
				if ii, ok := v.(ssa.Instruction); ok {
					if set[ii.Block()] {
						continue
					}
					if val, ok := fr.env[v]; ok {
						switch val.(type) {
						case VT, VSlice:
							addFixed(v.Name(), v.Type(), val)
						}
					}
				}
			}
		}
	}
	// other values defined before the loop, for templates only
	extra := map[string][]atom{}
	for _, b := range fr.fn.Blocks {
		if set[b] {
			continue
		}
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Type() == nil || (b != h && !b.Dominates(h)) {
				continue
			}
			val, ok := fr.env[v]
			if !ok {
				continue
			}
			switch val.(type) {
			case VT, VSlice:
				k := typeKey(v.Type())
				id := k + "|" + fmt.Sprint(val)
				if !seenFixed[id] {
					seenFixed[id] = true
					val := val
					extra[k] = append(extra[k], atom{v.Name(), func(*State, func(*ssa.Phi) Value) Value { return val }})
				}
			}
		}
	}
	// iterators over maps: the visited set
	var visited []*VRange
	for _, b := range fr.fn.Blocks {
		if !set[b] {
			continue
		}
		for _, ins := range b.Instrs {
			if nx, ok := ins.(*ssa.Next); ok {
				if r, ok := fr.env[nx.Iter].(VRange); ok && !r.isStr {
					rr := r
					visited = append(visited, &rr)
				}
			}
		}
	}
	// ---- generic candidates
	for _, p := range lc.phis {
		p := p
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && len(comps(p.Type())) == 1 && comps(p.Type())[0].sort == SInt {
			if iv := T(initEnv[p]); iv.op == "int" {
				c0 := iv.iv
				add(fmt.Sprintf("%s >= %d", p.Comment, c0), func(st *State, phi func(*ssa.Phi) Value) *Term { return Le(Int(c0), T(phi(p))) })
				add(fmt.Sprintf("%s <= %d", p.Comment, c0), func(st *State, phi func(*ssa.Phi) Value) *Term { return Le(T(phi(p)), Int(c0)) })
			} else {
				add(fmt.Sprintf("%s >= entry", p.Comment), func(st *State, phi func(*ssa.Phi) Value) *Term { return Le(iv, T(phi(p))) })
				add(fmt.Sprintf("%s <= entry", p.Comment), func(st *State, phi func(*ssa.Phi) Value) *Term { return Le(T(phi(p)), iv) })
				add(fmt.Sprintf("%s >= 0", p.Comment), func(st *State, phi func(*ssa.Phi) Value) *Term { return Le(Int(0), T(phi(p))) })
				add(fmt.Sprintf("%s >= -1", p.Comment), func(st *State, phi func(*ssa.Phi) Value) *Term { return Le(Int(-1), T(phi(p))) })
			}
			for _, k := range sortedKeys3(fixed) {
				as := fixed[k]
				if k != "string" && !strings.HasPrefix(k, "[]") && k != "destMap" {
					continue
				}
				for _, a := range as {
					a := a
					ln := func(st *State, phi func(*ssa.Phi) Value) *Term {
						switch v := a.get(st, phi).(type) {
						case VSlice:
							return sliceLen(E, st, v)
						case VT:
							if v.t.sort == SStr {
								return StrLen(v.t)
							}
						}
						return nil
					}
					if ln(st, func(p *ssa.Phi) Value { return fr.env[p] }) == nil {
						continue
					}
					add(fmt.Sprintf("%s <= len(%s)", p.Comment, a.name), func(st *State, phi func(*ssa.Phi) Value) *Term { return Le(T(phi(p)), ln(st, phi)) })
					add(fmt.Sprintf("%s < len(%s)", p.Comment, a.name), func(st *State, phi func(*ssa.Phi) Value) *Term { return Lt(T(phi(p)), ln(st, phi)) })
				}
			}
		}
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			add(p.Comment+" does not share its backing array", func(st *State, phi func(*ssa.Phi) Value) *Term { return phi(p).(VSlice).own })
			add(p.Comment+" is nil only if empty", func(st *State, phi func(*ssa.Phi) Value) *Term {
				s := E.force(st, phi(p).(VSlice))
				return Implies(s.nl, Eq(s.seq, zeroTerm(s.seq.sort)))
			})
			add(p.Comment+" is nil exactly if empty", func(st *State, phi func(*ssa.Phi) Value) *Term {
				s := E.force(st, phi(p).(VSlice))
				return Eq(s.nl, Eq(sliceLen(E, st, s), Int(0)))
			})
		}
	}
	headSt, headEnv := st.clone(), map[*ssa.Phi]Value{}
	for _, p := range lc.phis {
		headEnv[p] = fr.env[p]
	}
	// ---- templates
	var temps []*Template
	if E.contract != nil {
		temps = append(temps, E.contract.invs...)
	}
	if ct := E.P.contracts[fnKey(fr.fn)]; ct != nil && ct != E.contract {
		temps = append(temps, ct.invs...)
	}
	for _, t := range temps {
		t := t
		var lists [][]atom
		total := 1
		for _, mv := range t.vars {
			var l []atom
			k := typeKey(mv.typ)
			if mv.visited {
				for _, r := range visited {
					r := r
					l = append(l, atom{"visited", func(st *State, phi func(*ssa.Phi) Value) Value {
						return VT{Select(T(st.cells[r.id]), T(E.ghostVal(mv.ghost)))}
					}})
				}
			} else if mv.vary {
				l = vary[k]
				if mv.head {
					l = nil
					for _, a := range vary[k] {
						a := a
						l = append(l, atom{a.name + "^", func(*State, func(*ssa.Phi) Value) Value {
							return a.get(headSt, func(p *ssa.Phi) Value { return headEnv[p] })
						}})
					}
				}
			} else {
				l = append(append(append([]atom{}, fixed[k]...), extra[k]...), E.rootAtoms(mv.typ)...)
			}
			lists = append(lists, l)
			total *= len(l)
		}
		if total == 0 {
			continue
		}
		if total > 400 {
			E.unsupported(fmt.Sprintf("too many instances of template %s", t.text))
			continue
		}
		for n := 0; n < total; n++ {
			x := n
			var pick []atom
			var names []string
			for i := range lists {
				a := lists[i][x%len(lists[i])]
				x /= len(lists[i])
				pick = append(pick, a)
				names = append(names, t.vars[i].name+"="+a.name)
			}
			if t.lemma {
				lc.steps = append(lc.steps, func(st *State, phi func(*ssa.Phi) Value) {
					args := append([]Value{}, E.rootArgs(t.ct)...)
					for _, a := range pick {
						args = append(args, a.get(st, phi))
					}
					E.useLemma(st, &Clause{fn: t.fn}, args)
				})
				continue
			}
			user = true
			add(t.text+" ["+strings.Join(names, ", ")+"]", func(st *State, phi func(*ssa.Phi) Value) *Term {
				args := append([]Value{}, E.rootArgs(t.ct)...)
				for _, a := range pick {
					args = append(args, a.get(st, phi))
				}
				return E.evalClause(st, t.fn, args)
			})
		}
	}
}

func (E *Engine) loadFieldQuiet(st *State, base *Term, key string, t types.Type) Value {
	var ts []*Term
	for _, c := range comps(t) {
		ts = append(ts, Select(E.hget(st, key+c.suffix, c.sort), base))
	}
	return fromTerms(t, ts)
}

// evalClause evaluates a generated boolean clause function in a state.
func (E *Engine) evalClause(st *State, fn *ssa.Function, args []Value) *Term {
	E.quiet++
	defer func() { E.quiet-- }()
	s := st.clone()
	v := E.callBody(fn, args, nil, s)
	return T(v.(VTuple)[0])
}

func sortedKeys2(m map[string]map[*Term]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
func sortedKeys3(m map[string][]atom) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
func sortedTerms(m map[*Term]bool) []*Term {
	var l []*Term
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}
