package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is a symbolic machine state.
type State struct {
	guard     *Term
	heap      map[string]*Term // heap map name -> array term
	glob      map[string]*Term // global component -> term
	cells     map[int]Value    // local arrays, iterators
	alloc     *Term
	defers    []deferred
	published map[*Term]bool // immutable nodes whose fields are fixed
}
type deferred struct {
	guard *Term
	call  *ssa.CallCommon
	fn    Value
	args  []Value
	instr ssa.Instruction
}

func (s *State) clone() *State {
	n := &State{guard: s.guard, alloc: s.alloc, heap: map[string]*Term{}, glob: map[string]*Term{}, cells: map[int]Value{}}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.glob {
		n.glob[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.defers = append([]deferred{}, s.defers...)
	n.published = map[*Term]bool{}
	for k := range s.published {
		n.published[k] = true
	}
	return n
}

// Oblig is one proof obligation: under the first nAsm assumptions, goal holds.
type Oblig struct {
	name   string
	kind   string
	goal   *Term
	nAsm   int
	props  []string
	cand   *Cand
	pos    token.Pos
	result string // "unsat" (proved), "sat", "unknown"
	solver string
	ms     int64
	model  string
	file   string
	text   string // SMT query
	terms  []*Term
}

// Cand is a candidate loop invariant (Houdini).
type Cand struct {
	en   *Term
	text string
	dead bool
	loop string
	user bool
}

// Engine evaluates one root function.
type Engine struct {
	initRef                          int64
	ifaceStatic                      map[*Term]types.Type // static type of interface values converted to another interface type
	P                                *Program
	root                             string
	contract                         *Contract
	asm                              []*Term
	obligs                           []*Oblig
	cands                            []*Cand
	ghosts                           []ghost
	dry                              int
	quiet                            int // evaluating specification code: no safety obligations
	depth                            int
	onReturn                         func(st *State, v Value)
	stack                            []*ssa.Function
	unsup                            map[string]bool
	assumed                          map[string]bool // external functions taken as uninterpreted / contracts used
	used                             map[string]bool // contracts used
	inlined                          map[string]bool
	folded                           map[string]bool
	alloc0                           *Term
	init                             *State
	rootSt                           *State
	rootFn                           *ssa.Function
	old                              *State // entry state for pre_ functions
	cellCtr                          int
	loopCtr                          map[string]int
	unfoldFP                         map[string]*Term // non-nil: evaluating a UF body over these heap maps
	reads                            map[string]Sort  // footprint recording
	oblProps                         []string
	frames                           []*Frame
	exits                            *Term               // guards under which the program exited (os.Exit)
	tabs                             map[int64]*constTab // map contents recorded while evaluating init
	knownType                        map[*Term]types.Type
	unfoldCache                      map[*Term]*Term
	rootParams, rootGhosts, rootLets []Value
	nPre                             int
	final                            *Term
	alive                            map[*Cand]bool
	crash                            string
}
type ghost struct {
	name string
	typ  types.Type
	val  Value
}

var debugPanics bool

func NewEngine(p *Program, root string) *Engine {
	return &Engine{P: p, root: root, unsup: map[string]bool{}, assumed: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{},
		loopCtr: map[string]int{}, knownType: map[*Term]types.Type{}, ifaceStatic: map[*Term]types.Type{}, unfoldCache: map[*Term]*Term{}}
}

func (E *Engine) unsupported(what string) {
	if E.dry == 0 {
		E.unsup[what] = true
	}
}

func (E *Engine) assume(st *State, f *Term) {
	if E.dry > 0 || E.unfoldFP != nil {
		return
	}
	f = Implies(st.guard, f)
	if f != True {
		E.asm = append(E.asm, f)
	}
}

func (E *Engine) oblige(st *State, kind, name string, goal *Term, props []string, pos token.Pos) *Oblig {
	if E.dry > 0 || E.unfoldFP != nil {
		return nil
	}
	g := Implies(st.guard, goal)
	if E.quiet > 0 && kind == "safety" {
		return nil
	}
	if goal.op == "and" && kind != "safety" {
		var o *Oblig
		for _, x := range goal.args {
			o = E.oblige(st, kind, name, x, props, pos)
		}
		return o
	}
	o := &Oblig{name: name, kind: kind, goal: g, nAsm: len(E.asm), props: props, pos: pos}
	if g == True {
		o.result, o.solver = "unsat", "simplifier"
	}
	E.obligs = append(E.obligs, o)
	if g != True {
		E.asm = append(E.asm, g)
	}
	return o
}

func (E *Engine) safety(st *State, what string, goal *Term, pos token.Pos) {
	if E.quiet > 0 {
		return
	}
	E.oblige(st, "safety", what, goal, nil, pos)
}

// ---- heap

func (E *Engine) heapInit(name string, s Sort) *Term {
	if E.unfoldFP != nil {
		if t, ok := E.unfoldFP[name]; ok {
			return t
		}
	}
	return Sym("H:"+name, ArrOf(SInt, s))
}
func (E *Engine) hget(st *State, name string, s Sort) *Term {
	if E.reads != nil {
		E.reads[name] = ArrOf(SInt, s)
	}
	if t, ok := st.heap[name]; ok {
		return t
	}
	return E.heapInit(name, s)
}
func (E *Engine) gget(st *State, name string, s Sort) *Term {
	if E.reads != nil {
		E.reads["G:"+name] = s
	}
	if t, ok := st.glob[name]; ok {
		return t
	}
	if E.unfoldFP != nil {
		if t, ok := E.unfoldFP["G:"+name]; ok {
			return t
		}
	}
	return Sym("G:"+name, s)
}

// loadKey loads a value of type t whose components live at prefix+suffix.
func (E *Engine) loadField(st *State, base *Term, key string, t types.Type) Value {
	var ts []*Term
	E.guard(st, base, key)
	for _, c := range comps(t) {
		name := key + c.suffix
		if E.P.isFrozenKey(name) && !E.isFresh(base) {
			f := Sym("F:"+name, ArrOf(SInt, c.sort))
			ts = append(ts, Select(f, base))
			continue
		}
		ts = append(ts, Select(E.hget(st, name, c.sort), base))
	}
	v := fromTerms(t, ts)
	E.wellTyped(st, t, ts)
	return v
}

// isFresh: the reference was allocated during this evaluation.
func (E *Engine) isFresh(r *Term) bool {
	b, off := addParts(r)
	return b != nil && allocRank(b) > 0 && off > 0
}

// wellTyped assumes what the Go memory model guarantees of loaded values.
func (E *Engine) wellTyped(st *State, t types.Type, ts []*Term) {
	if E.dry > 0 || E.unfoldFP != nil {
		return
	}
	i := 0
	var walk func(t types.Type)
	walk = func(t types.Type) {
		switch u := t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan, *types.Interface:
			x := ts[i]
			i++
			if x.op == "select" && st.alloc != nil {
				E.assume(st, And(Le(Int(0), x), Le(x, st.alloc)))
			}
			if pt, ok := u.(*types.Pointer); ok && x.op == "select" {
				_ = pt
			}
		case *types.Slice:
			if !ts[i].isConst() && ts[i+1] != True && ts[i+1] != False {
				z := zeroTerm(ts[i].sort)
				if ts[i+1].op == "select" || ts[i+1].op == "sym" {
					E.assume(st, Implies(ts[i+1], Eq(ts[i], z)))
				}
			}
			i += 2
		case *types.Struct:
			if isOpaque(t) {
				i++
				return
			}
			for _, f := range structFields(t) {
				walk(u.Field(f).Type())
			}
		case *types.Basic:
			x := ts[i]
			i++
			switch u.Kind() {
			case types.Uint8:
				E.assume(st, And(Le(Int(0), x), Lt(x, Int(256))))
			case types.Uint16:
				E.assume(st, And(Le(Int(0), x), Lt(x, Int(65536))))
			case types.Uint, types.Uint32, types.Uintptr:
				E.assume(st, Le(Int(0), x))
			}
		case *types.Tuple:
			for k := 0; k < u.Len(); k++ {
				walk(u.At(k).Type())
			}
		case *types.Array:
			for k := int64(0); k < u.Len(); k++ {
				walk(u.Elem())
			}
		default:
			i++
		}
	}
	walk(t)
}

func (E *Engine) storeField(st *State, base *Term, key string, t types.Type, v Value) {
	ts := E.flat(st, t, v)
	E.guard(st, base, key)
	for i, c := range comps(t) {
		name := key + c.suffix
		if E.P.isFrozenKey(name) {
			if !E.isFresh(base) || st.published[base] {
				E.oblige(st, "frame", "store to immutable rule node field "+name, False, nil, 0)
			}
		}
		st.heap[name] = Store(E.hget(st, name, c.sort), base, ts[i])
	}
}

// flat turns a value into its component terms.
func (E *Engine) flat(st *State, t types.Type, v Value) []*Term {
	switch x := v.(type) {
	case VT:
		return []*Term{x.t}
	case VSlice:
		x = E.force(st, x)
		return []*Term{x.seq, x.nl}
	case VStruct:
		var out []*Term
		u := t.Underlying().(*types.Struct)
		for _, i := range structFields(t) {
			out = append(out, E.flat(st, u.Field(i).Type(), x.f[i])...)
		}
		return out
	case VArr:
		var out []*Term
		u := t.Underlying().(*types.Array)
		for _, e := range x.e {
			out = append(out, E.flat(st, u.Elem(), e)...)
		}
		return out
	case VTuple:
		var out []*Term
		u := t.Underlying().(*types.Tuple)
		for i, e := range x {
			out = append(out, E.flat(st, u.At(i).Type(), e)...)
		}
		return out
	case VIface:
		return []*Term{E.ifaceTerm(st, x)}
	case VClosure:
		return []*Term{E.P.funcID(x.fn)}
	case VAddr:
		return []*Term{E.addrTerm(st, x)}
	case nil:
		return nil
	}
	panic(fmt.Sprintf("flat %T", v))
}

func (E *Engine) addrTerm(st *State, a VAddr) *Term {
	if a.kind == aField {
		return App("addr:"+a.key, SInt, a.base)
	}
	if a.kind == aGlobal {
		return Sym("&G:"+a.key, SInt)
	}
	return Fresh("addr", SInt)
}

func (E *Engine) force(st *State, s VSlice) VSlice {
	if s.seq != nil {
		return s
	}
	es := elemSort(s.et)
	if isByte(s.et) {
		var parts []*Term
		for _, e := range s.elems {
			parts = append(parts, FromCode(T(e)))
		}
		s.seq = Concat(parts...)
		return s
	}
	var parts []*Term
	for _, e := range s.elems {
		parts = append(parts, SeqUnit(E.elemTerm(st, s.et, e)))
	}
	s.seq = SeqCat(SeqOf(es), parts...)
	return s
}

func FromCode(t *Term) *Term {
	if t.op == "int" && t.iv >= 0 && t.iv < 256 {
		return Str(string([]byte{byte(t.iv)}))
	}
	if t.op == "str.to_code" && t.args[0].op == "str.at" {
		return t.args[0]
	}
	return mk("str.from_code", SStr, t)
}

// elemTerm is the single term that stands for a slice element.
func (E *Engine) elemTerm(st *State, et types.Type, v Value) *Term {
	ts := E.flat(st, et, v)
	if len(ts) == 1 {
		return ts[0]
	}
	b := App("box:"+typeKey(et), SInt, ts...)
	for i, c := range comps(et) {
		E.assume(st, Eq(App("unbox:"+typeKey(et)+c.suffix, c.sort, b), ts[i]))
	}
	return b
}
func (E *Engine) elemValue(st *State, et types.Type, t *Term) Value {
	cs := comps(et)
	if len(cs) == 1 {
		return fromTerms(et, []*Term{t})
	}
	var ts []*Term
	for _, c := range cs {
		ts = append(ts, App("unbox:"+typeKey(et)+c.suffix, c.sort, t))
	}
	return fromTerms(et, ts)
}

func (E *Engine) ifaceTerm(st *State, x VIface) *Term {
	ts := E.flat(st, x.typ, x.val)
	if _, ok := x.typ.Underlying().(*types.Interface); ok {
		return ts[0]
	}
	switch x.typ.Underlying().(type) {
	case *types.Pointer:
		p := ts[0]
		r := p
		if !E.isFresh(p) {
			r = Ite(Eq(p, Int(0)), Int(-1000-int64(E.P.typeID(x.typ))), p)
		}
		E.assume(st, Eq(App("typeof", SInt, r), Int(int64(E.P.typeID(x.typ)))))
		return r
	}
	b := App("ibox:"+typeKey(x.typ), SInt, ts...)
	f := []*Term{Eq(App("typeof", SInt, b), Int(int64(E.P.typeID(x.typ)))), Lt(Int(0), b)}
	for i, c := range comps(x.typ) {
		f = append(f, Eq(App("iunbox:"+typeKey(x.typ)+c.suffix, c.sort, b), ts[i]))
	}
	E.assume(st, And(f...))
	return b
}

func (E *Engine) newRef(st *State) *Term {
	if E.tabs != nil { // initial values of package variables
		E.initRef++
		return Int(E.initRef)
	}
	st.alloc = Add(st.alloc, Int(1))
	return st.alloc
}

// bumpAlloc makes the allocation counter some unknown larger value.
func (E *Engine) bumpAlloc(st *State) {
	n := Fresh("A", SInt)
	allocSyms[n] = len(allocSyms) + 1
	old := st.alloc
	st.alloc = n
	E.assume(st, Le(old, n))
}

// freshValue is an arbitrary value of type t.
func (E *Engine) freshValue(st *State, name string, t types.Type) Value {
	var ts []*Term
	for _, c := range comps(t) {
		ts = append(ts, Fresh(name+c.suffix, c.sort))
	}
	v := fromTerms(t, ts)
	E.typed(st, t, ts)
	return v
}

// typed assumes type facts for fresh symbols.
func (E *Engine) typed(st *State, t types.Type, ts []*Term) {
	if E.dry > 0 || E.unfoldFP != nil {
		return
	}
	i := 0
	var walk func(t types.Type)
	walk = func(t types.Type) {
		switch u := t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan:
			E.assume(st, And(Le(Int(0), ts[i]), Le(ts[i], st.alloc)))
			i++
		case *types.Interface:
			E.assume(st, Le(ts[i], st.alloc))
			i++
		case *types.Slice:
			E.assume(st, Implies(ts[i+1], Eq(ts[i], zeroTerm(ts[i].sort))))
			i += 2
		case *types.Struct:
			if isOpaque(t) {
				i++
				return
			}
			for _, f := range structFields(t) {
				walk(u.Field(f).Type())
			}
		case *types.Tuple:
			for k := 0; k < u.Len(); k++ {
				walk(u.At(k).Type())
			}
		case *types.Basic:
			switch u.Kind() {
			case types.Uint8:
				E.assume(st, And(Le(Int(0), ts[i]), Lt(ts[i], Int(256))))
			case types.Uint16:
				E.assume(st, And(Le(Int(0), ts[i]), Lt(ts[i], Int(65536))))
			case types.Uint, types.Uint32:
				E.assume(st, Le(Int(0), ts[i]))
			}
			i++
		case *types.Array:
			for k := int64(0); k < u.Len(); k++ {
				walk(u.Elem())
			}
		default:
			i++
		}
	}
	walk(t)
}

// ---- merging

// under is the state where c holds too.
func (s *State) under(c *Term) *State {
	n := *s
	n.guard = And(s.guard, c)
	return &n
}

func iteValue(E *Engine, st *State, t types.Type, c *Term, a, b Value) Value {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	switch x := a.(type) {
	case VT:
		switch y := b.(type) {
		case VT:
			return VT{Ite(c, x.t, y.t)}
		default:
			return VT{Ite(c, x.t, E.flat(st.under(Not(c)), t, y)[0])}
		}
	case VSlice:
		y := b.(VSlice)
		x, y = E.force(st, x), E.force(st, y)
		return VSlice{seq: Ite(c, x.seq, y.seq), nl: Ite(c, x.nl, y.nl), own: Ite(c, x.own, y.own), et: x.et}
	case VStruct:
		y := b.(VStruct)
		r := VStruct{typ: x.typ, f: make([]Value, len(x.f))}
		u := x.typ.Underlying().(*types.Struct)
		for i := range x.f {
			if x.f[i] == nil || y.f[i] == nil {
				continue
			}
			r.f[i] = iteValue(E, st, u.Field(i).Type(), c, x.f[i], y.f[i])
		}
		return r
	case VTuple:
		y := b.(VTuple)
		var r VTuple
		tt, _ := t.(*types.Tuple)
		for i := range x {
			var et types.Type
			if tt != nil {
				et = tt.At(i).Type()
			}
			r = append(r, iteValue(E, st, et, c, x[i], y[i]))
		}
		return r
	case VArr:
		y := b.(VArr)
		var r VArr
		for i := range x.e {
			r.e = append(r.e, iteValue(E, st, nil, c, x.e[i], y.e[i]))
		}
		return r
	case VIface:
		if y, ok := b.(VIface); ok && types.Identical(x.typ, y.typ) {
			if fmt.Sprint(x.val) == fmt.Sprint(y.val) {
				return a
			}
			return VIface{x.typ, iteValue(E, st, x.typ, c, x.val, y.val)}
		}
		return VT{Ite(c, E.ifaceTerm(st.under(c), x), E.flat(st.under(Not(c)), t, b)[0])}
	case VClosure, VAddr:
		if y, ok := b.(VClosure); ok {
			if xc, ok := a.(VClosure); ok && xc.fn == y.fn && len(y.bind) == 0 {
				return a
			}
		}
		return VT{Ite(c, E.flat(st, t, a)[0], E.flat(st, t, b)[0])}
	case VRange:
		return a
	case nil:
		return b
	}
	panic(fmt.Sprintf("iteValue %T %T", a, b))
}

type edge struct {
	pred *ssa.BasicBlock
	st   *State
}

// sel returns conditions choosing between the guards of the edges.
func selConds(gs []*Term) (conds []*Term, merged *Term) {
	merged = Or(gs...)
	// remove common literals
	common := map[*Term]bool{}
	for _, l := range lits(gs[0]) {
		common[l] = true
	}
	for _, g := range gs[1:] {
		m := map[*Term]bool{}
		for _, l := range lits(g) {
			if common[l] {
				m[l] = true
			}
		}
		common = m
	}
	for _, g := range gs {
		var r []*Term
		for _, l := range lits(g) {
			if !common[l] {
				r = append(r, l)
			}
		}
		conds = append(conds, And(r...))
	}
	return
}

func (E *Engine) mergeStates(sts []*State) (*State, []*Term) {
	if len(sts) == 1 {
		return sts[0].clone(), []*Term{True}
	}
	var gs []*Term
	for _, s := range sts {
		gs = append(gs, s.guard)
	}
	conds, g := selConds(gs)
	out := sts[len(sts)-1].clone()
	out.guard = g
	for i := len(sts) - 2; i >= 0; i-- {
		s := sts[i]
		c := conds[i]
		names := map[string]bool{}
		for k := range s.heap {
			names[k] = true
		}
		for k := range out.heap {
			names[k] = true
		}
		for _, k := range sortedKeys(names) {
			a, okA := s.heap[k]
			b, okB := out.heap[k]
			if !okA {
				_, v := b.sort.arrKV()
				a = E.heapInit(k, v)
			}
			if !okB {
				_, v := a.sort.arrKV()
				b = E.heapInit(k, v)
			}
			out.heap[k] = mergeArr(c, a, b)
		}
		names = map[string]bool{}
		for k := range s.glob {
			names[k] = true
		}
		for k := range out.glob {
			names[k] = true
		}
		for _, k := range sortedKeys(names) {
			a, okA := s.glob[k]
			b, okB := out.glob[k]
			if !okA {
				a = E.gget(&State{}, k, b.sort)
			}
			if !okB {
				b = E.gget(&State{}, k, a.sort)
			}
			out.glob[k] = Ite(c, a, b)
		}
		for k, v := range s.cells {
			if w, ok := out.cells[k]; ok {
				out.cells[k] = iteValue(E, out, nil, c, v, w)
			} else {
				out.cells[k] = v
			}
		}
		if s.alloc != out.alloc {
			x, i1 := addParts(s.alloc)
			y, j1 := addParts(out.alloc)
			if x == y {
				if i1 > j1 {
					out.alloc = s.alloc
				}
			} else {
				n := Fresh("A", SInt)
				allocSyms[n] = len(allocSyms) + 1
				if E.dry == 0 && E.unfoldFP == nil {
					E.asm = append(E.asm, Implies(g, And(Le(s.alloc, n), Le(out.alloc, n))))
				}
				out.alloc = n
			}
		}
		for k := range s.published {
			out.published[k] = true
		}
		if len(s.defers) > len(out.defers) {
			out.defers = s.defers
		}
	}
	return out, conds
}

// mergeArr merges two array terms; stores on top of a common base are merged per index.
func mergeArr(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	// collect store chains down to a common base
	chain := func(t *Term) []*Term {
		var out []*Term
		for t.op == "store" {
			out = append(out, t)
			t = t.args[0]
		}
		return append(out, t)
	}
	ca, cb := chain(a), chain(b)
	pos := map[*Term]int{}
	for i, t := range ca {
		pos[t] = i
	}
	for j, t := range cb {
		if i, ok := pos[t]; ok {
			if i+j <= 6 {
				base := t
				idx := []*Term{}
				seen := map[*Term]bool{}
				for k := i - 1; k >= 0; k-- {
					if !seen[ca[k].args[1]] {
						seen[ca[k].args[1]] = true
						idx = append(idx, ca[k].args[1])
					}
				}
				for k := j - 1; k >= 0; k-- {
					if !seen[cb[k].args[1]] {
						seen[cb[k].args[1]] = true
						idx = append(idx, cb[k].args[1])
					}
				}
				// only exact when indices are pairwise distinct or equal syntactically
				ok := true
				for x := range idx {
					for y := range idx {
						if x < y && !distinct(idx[x], idx[y]) {
							ok = false
						}
					}
				}
				if ok {
					r := base
					for _, ix := range idx {
						r = Store(r, ix, Ite(c, Select(a, ix), Select(b, ix)))
					}
					return r
				}
			}
			break
		}
	}
	return Ite(c, a, b)
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- functions

// Frame is one activation during evaluation.
type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Value
	rets    []retEdge
	parent  *Frame
	invFor  *Contract
	backObl func(h *ssa.BasicBlock, st *State, fr *Frame, pred *ssa.BasicBlock)
	loops   map[*ssa.BasicBlock]*loopCtx
}
type retEdge struct {
	st  *State
	val Value
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

// loopBlocks returns the natural loop of header h.
func loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	set := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !set[p] {
			set[p] = true
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !set[p] {
				set[p] = true
				work = append(work, p)
			}
		}
	}
	return set
}

func isBackEdge(p, h *ssa.BasicBlock) bool { return h.Dominates(p) }

// callBody inlines fn.
func (E *Engine) callBody(fn *ssa.Function, args []Value, bind []Value, st *State) Value {
	if len(fn.Blocks) == 0 {
		panic("no body: " + fn.String())
	}
	for _, f := range E.stack {
		if f == fn {
			E.unsupported("recursive call without contract: " + fn.Name())
			return E.freshValue(st, fn.Name(), fn.Signature.Results())
		}
	}
	if E.depth > 40 {
		E.unsupported("inline depth at " + fn.Name())
		return E.freshValue(st, fn.Name(), fn.Signature.Results())
	}
	E.stack = append(E.stack, fn)
	E.depth++
	defer func() { E.stack = E.stack[:len(E.stack)-1]; E.depth-- }()
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, loops: map[*ssa.BasicBlock]*loopCtx{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = bind[i]
	}
	saved := st.defers
	in := st.clone()
	in.defers = nil
	E.frames = append(E.frames, fr)
	E.runBlocks(fr, rpo(fn), map[*ssa.BasicBlock][]edge{fn.Blocks[0]: {{nil, in}}}, nil)
	E.frames = E.frames[:len(E.frames)-1]
	if len(fr.rets) == 0 {
		st.guard = False
		return zeroValue(fn.Signature.Results())
	}
	var sts []*State
	for _, r := range fr.rets {
		sts = append(sts, r.st)
	}
	if E.depth == 1 && E.onReturn != nil {
		for _, r := range fr.rets {
			E.onReturn(r.st, r.val)
		}
	}
	m, conds := E.mergeStates(sts)
	val := fr.rets[len(fr.rets)-1].val
	for i := len(fr.rets) - 2; i >= 0; i-- {
		val = iteValue(E, m, fn.Signature.Results(), conds[i], fr.rets[i].val, val)
	}
	*st = *m
	st.defers = saved
	return val
}

// runBlocks executes the given blocks (in reverse postorder) from the incoming edges.
// If only != nil, control leaving the set is dropped and back edges to its header are passed to onBack.
func (E *Engine) runBlocks(fr *Frame, order []*ssa.BasicBlock, incoming map[*ssa.BasicBlock][]edge, only *dryLoop) {
	for _, b := range order {
		if only != nil && !only.set[b] {
			continue
		}
		es := incoming[b]
		var live []edge
		for _, e := range es {
			if e.st.guard != False {
				live = append(live, e)
			}
		}
		if len(live) == 0 {
			continue
		}
		var sts []*State
		for _, e := range live {
			sts = append(sts, e.st)
		}
		st, conds := E.mergeStates(sts)
		// phis
		phis := map[*ssa.Phi]Value{}
		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			var v Value
			for i := len(live) - 1; i >= 0; i-- {
				var w Value
				if live[i].pred == nil {
					w = fr.env[phi] // loop header of a dry run
				} else {
					for k, p := range b.Preds {
						if p == live[i].pred {
							w = E.operand(fr, st, phi.Edges[k])
						}
					}
				}
				if i == len(live)-1 {
					v = w
				} else {
					v = iteValue(E, st, phi.Type(), conds[i], w, v)
				}
			}
			phis[phi] = v
		}
		for p, v := range phis {
			fr.env[p] = v
		}
		isHeader := false
		for _, p := range b.Preds {
			if isBackEdge(p, b) {
				isHeader = true
			}
		}
		if isHeader && !(only != nil && only.header == b) {
			E.cutLoop(fr, b, st, order)
		}
		E.runInstrs(fr, b, st, func(succ *ssa.BasicBlock, s *State) {
			if isBackEdge(b, succ) {
				if only != nil && only.header == succ {
					only.back = append(only.back, backEdge{b, s, fr})
					return
				}
				E.backEdge(fr, succ, b, s)
				return
			}
			incoming[succ] = append(incoming[succ], edge{b, s})
		})
	}
}

type dryLoop struct {
	set    map[*ssa.BasicBlock]bool
	header *ssa.BasicBlock
	back   []backEdge
}
type backEdge struct {
	pred *ssa.BasicBlock
	st   *State
	fr   *Frame
}

func (E *Engine) operand(fr *Frame, st *State, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return E.constant(x)
	case *ssa.Function:
		return VClosure{fn: x}
	case *ssa.Global:
		return VAddr{kind: aGlobal, key: globName(x), typ: x.Type().Underlying().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return nil
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(fmt.Sprintf("no value for %s = %s in %s", v.Name(), v, fr.fn))
}

func globName(g *ssa.Global) string {
	if g.Pkg != nil && g.Pkg.Pkg.Name() != "main" {
		return g.Pkg.Pkg.Name() + "." + g.Name()
	}
	return g.Name()
}

func (E *Engine) constant(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VT{Bool(constant.BoolVal(c.Value))}
		case u.Info()&types.IsString != 0:
			return VT{Str(constant.StringVal(c.Value))}
		case u.Kind() == types.Uint64:
			x, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return VT{BV(x)}
		case u.Info()&types.IsInteger != 0:
			x, ok := constant.Int64Val(constant.ToInt(c.Value))
			if !ok {
				ux, _ := constant.Uint64Val(constant.ToInt(c.Value))
				x = int64(ux)
			}
			return VT{Int(x)}
		}
		return VT{Fresh("const", SInt)}
	}
	return zeroValue(t)
}

func posOf(i ssa.Instruction) token.Pos { return i.Pos() }

func fieldName(t types.Type, i int) string {
	return t.Underlying().(*types.Struct).Field(i).Name()
}

// nonNil emits the nil-dereference obligation.
func (E *Engine) nonNil(st *State, p *Term, what string, pos token.Pos) {
	if E.isFresh(p) {
		return
	}
	E.safety(st, "nil dereference: "+what, Not(Eq(p, Int(0))), pos)
}

func (E *Engine) load(st *State, a Value, t types.Type, pos token.Pos) Value {
	switch x := a.(type) {
	case VT: // reference to object of type t
		E.nonNil(st, x.t, typeKey(t), pos)
		return E.loadField(st, x.t, typeKey(t), t)
	case VAddr:
		switch x.kind {
		case aField:
			return E.loadField(st, x.base, x.key, t)
		case aGlobal:
			if v, ok := E.P.constGlobal(x.key); ok {
				return v
			}
			var ts []*Term
			for _, c := range comps(t) {
				ts = append(ts, E.gget(st, x.key+c.suffix, c.sort))
			}
			E.globalTyped(st, x.key, t, ts)
			return fromTerms(t, ts)
		case aCell:
			v := st.cells[x.cell]
			if arr, ok := v.(VArr); ok && x.idx != nil {
				if x.idx.op == "int" {
					return arr.e[x.idx.iv]
				}
				r := arr.e[len(arr.e)-1]
				for i := len(arr.e) - 2; i >= 0; i-- {
					r = iteValue(E, st, t, Eq(x.idx, Int(int64(i))), arr.e[i], r)
				}
				return r
			}
			return v
		case aElem:
			return E.index(st, *x.sl, x.idx)
		}
	case VIface:
		return x.val
	}
	panic(fmt.Sprintf("load %T", a))
}

func (E *Engine) globalTyped(st *State, key string, t types.Type, ts []*Term) {
	if strings.Contains(key, ".") && E.P.extGlobal[key] {
		// an external package variable such as io.EOF, os.Stderr
		if len(ts) == 1 && ts[0].sort == SInt {
			E.assume(st, And(Lt(Int(0), ts[0]), Le(ts[0], E.alloc0)))
		}
		return
	}
	if st.alloc == nil {
		return
	}
	if E.dry == 0 && E.unfoldFP == nil {
		for _, x := range ts {
			if x.op != "sym" {
				return
			}
		}
		if len(ts) == 1 && ts[0].name == "G:"+key && isRefType(t) && E.alloc0 != nil {
			// still what it was at entry
			E.assume(st, And(Le(Int(0), ts[0]), Le(ts[0], E.alloc0)))
			return
		}
		E.typed(st, t, ts)
	}
}

func (E *Engine) store(st *State, a Value, t types.Type, v Value, pos token.Pos) {
	switch x := a.(type) {
	case VT:
		E.nonNil(st, x.t, typeKey(t), pos)
		E.storeField(st, x.t, typeKey(t), t, v)
		return
	case VAddr:
		switch x.kind {
		case aField:
			E.storeField(st, x.base, x.key, t, v)
			return
		case aGlobal:
			ts := E.flat(st, t, v)
			for i, c := range comps(t) {
				st.glob[x.key+c.suffix] = ts[i]
			}
			return
		case aCell:
			if x.idx == nil {
				st.cells[x.cell] = v
				return
			}
			arr := st.cells[x.cell].(VArr)
			n := VArr{e: append([]Value{}, arr.e...)}
			if x.idx.op == "int" {
				n.e[x.idx.iv] = v
			} else {
				for i := range n.e {
					n.e[i] = iteValue(E, st, t, Eq(x.idx, Int(int64(i))), v, n.e[i])
				}
			}
			st.cells[x.cell] = n
			return
		case aElem:
			E.unsupported("store to slice element")
			E.oblige(st, "subset", "store to slice element", False, nil, pos)
			return
		}
	}
	panic(fmt.Sprintf("store %T", a))
}

func sliceLen(E *Engine, st *State, s VSlice) *Term {
	if s.seq == nil {
		return Int(int64(len(s.elems)))
	}
	if s.seq.sort == SStr {
		return StrLen(s.seq)
	}
	return SeqLen(s.seq)
}

func (E *Engine) index(st *State, s VSlice, i *Term) Value {
	if s.seq == nil && i.op == "int" && i.iv >= 0 && int(i.iv) < len(s.elems) {
		return s.elems[i.iv]
	}
	s = E.force(st, s)
	if s.seq.sort == SStr {
		return VT{ToCode(StrAt(s.seq, i))}
	}
	t := SeqNth(s.seq, i)
	v := E.elemValue(st, s.et, t)
	if E.dry == 0 && E.unfoldFP == nil && E.quiet > 0 && t.op == "seq.nth" && st.alloc != nil && !isOldRef(t) {
		if _, ok := s.et.Underlying().(*types.Pointer); ok {
			E.assume(st, Le(t, st.alloc))
		}
	}
	if E.dry == 0 && E.unfoldFP == nil && E.quiet == 0 {
		switch s.et.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Interface:
			if t.op == "seq.nth" {
				E.assume(st, And(Le(Int(0), t), Le(t, st.alloc)))
			}
		case *types.Slice:
			ts := E.flat(st, s.et, v)
			E.assume(st, Implies(ts[1], Eq(ts[0], zeroTerm(ts[0].sort))))
		}
	}
	return v
}

func isRefType(t interface{ Underlying() types.Type }) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Interface:
		return true
	}
	return false
}
