package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (E *Engine) args(fr *Frame, st *State, c *ssa.CallCommon) []Value {
	var out []Value
	for _, a := range c.Args {
		out = append(out, E.operand(fr, st, a))
	}
	return out
}
func (E *Engine) calleeValue(fr *Frame, st *State, c *ssa.CallCommon) Value {
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	return E.operand(fr, st, c.Value)
}

// fnKey names a function: f, (*T).m, T.m, pkg.f, (*pkg.T).m
func fnKey(fn *ssa.Function) string {
	pkg := ""
	if fn.Pkg != nil && fn.Pkg.Pkg.Name() != "main" {
		pkg = fn.Pkg.Pkg.Name() + "."
	} else if fn.Pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil && fn.Object().Pkg().Name() != "main" {
		pkg = fn.Object().Pkg().Name() + "."
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			return "(*" + typeKey(p.Elem()) + ")." + fn.Name()
		}
		return "(" + typeKey(t) + ")." + fn.Name()
	}
	return pkg + fn.Name()
}

func (E *Engine) callWith(fr *Frame, st *State, c *ssa.CallCommon, fv Value, args []Value, instr ssa.Instruction) Value {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return E.builtin(fr, st, b, c, args, instr)
	}
	res := c.Signature().Results()
	if cf, ok := c.Value.(*ssa.Function); ok && !c.IsInvoke() {
		if mf := E.P.mutators[fnKey(cf)]; mf != nil && E.P.main != cf.Pkg {
			E.assumed["model of "+fnKey(cf)] = true
			nv := E.callStaticBody(st, mf, args, nil)
			if tu, ok := nv.(VTuple); ok {
				nv = tu[0]
			}
			E.mutated(fr, st, c.Args[0], nv, instr)
			return VTuple{}
		}
	}
	if c.IsInvoke() {
		return E.invoke(st, fv, c.Value.Type(), c.Method, args, res, instr.Pos())
	}
	return E.callValue(st, fv, c.Value.Type().Underlying().(*types.Signature), args, res, instr.Pos())
}

func (E *Engine) invoke(st *State, recv Value, it types.Type, m *types.Func, args []Value, res *types.Tuple, pos token.Pos) Value {
	if vi, ok := recv.(VIface); ok {
		if _, isI := vi.typ.Underlying().(*types.Interface); !isI {
			fn := E.P.prog.LookupMethod(vi.typ, m.Pkg(), m.Name())
			if fn != nil {
				if fn.Synthetic != "" && fn.Pkg == nil {
					// promoted or wrapper method: evaluated as is
				}
				return E.callStatic(st, fn, append([]Value{vi.val}, args...), nil, pos)
			}
		}
	}
	rt := E.flat(st, it, recv)[0]
	E.safety(st, "call on nil interface "+typeKey(it)+"."+m.Name(), Not(Eq(rt, Int(0))), pos)
	key := typeKey(it) + "." + m.Name()
	if ct := E.P.contracts[key]; ct != nil && (E.quiet == 0) {
		return E.applyContract(st, ct, append([]Value{VT{rt}}, args...), res, pos)
	}
	if mf := E.P.models[key]; mf != nil {
		E.assumed["model of "+key] = true
		return E.callStaticBody(st, mf, append([]Value{VT{rt}}, args...), nil)
	}
	E.assumed["pure external: "+key] = true
	return E.pureApp(st, "inv:"+key, append([]Value{VT{rt}}, args...), append([]types.Type{it}, sigTypes(m.Type().(*types.Signature))...), res)
}

func sigTypes(s *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < s.Params().Len(); i++ {
		out = append(out, s.Params().At(i).Type())
	}
	return out
}

// pureApp is an uninterpreted deterministic function.
func (E *Engine) pureApp(st *State, name string, args []Value, ts []types.Type, res *types.Tuple) Value {
	var flat []*Term
	for i, a := range args {
		flat = append(flat, E.flat(st, ts[i], a)...)
	}
	var out []*Term
	for _, c := range comps(res) {
		n := name
		if res.Len() == 1 {
			n += strings.TrimPrefix(c.suffix, "#0")
		} else {
			n += c.suffix
		}
		if len(flat) == 0 {
			out = append(out, Sym(n, c.sort))
		} else {
			out = append(out, App(n, c.sort, flat...))
		}
	}
	E.typedPure(st, res, out)
	return fromTerms(res, out)
}

// typedPure assumes type facts of the result of an external function (nil slices are empty, byte ranges).
func (E *Engine) typedPure(st *State, t types.Type, ts []*Term) {
	if E.dry > 0 || E.unfoldFP != nil {
		return
	}
	i := 0
	var walk func(t types.Type)
	walk = func(t types.Type) {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			E.assume(st, Implies(ts[i+1], Eq(ts[i], zeroTerm(ts[i].sort))))
			i += 2
		case *types.Pointer, *types.Map, *types.Interface, *types.Chan:
			if st.alloc != nil {
				E.assume(st, And(Le(Int(0), ts[i]), Le(ts[i], E.alloc0)))
			}
			i++
		case *types.Tuple:
			for k := 0; k < u.Len(); k++ {
				walk(u.At(k).Type())
			}
		case *types.Struct:
			if isOpaque(t) {
				i++
				return
			}
			for _, f := range structFields(t) {
				walk(u.Field(f).Type())
			}
		default:
			i++
		}
	}
	walk(t)
}

func (E *Engine) callValue(st *State, fv Value, sig *types.Signature, args []Value, res *types.Tuple, pos token.Pos) Value {
	switch f := fv.(type) {
	case VClosure:
		return E.callStatic(st, f.fn, args, f.bind, pos)
	case VT:
		if f.t.op == "int" {
			if f.t.iv == 0 {
				E.safety(st, "call of nil function", False, pos)
				return E.freshValue(st, "nilcall", res)
			}
			if fn := E.P.funcByID(f.t.iv); fn != nil {
				return E.callStatic(st, fn, args, nil, pos)
			}
		}
		// a function held in a field of an immutable node: use the field's contract
		if f.t.op == "select" && f.t.args[0].op == "sym" && strings.HasPrefix(f.t.args[0].name, "F:") {
			key := "field " + f.t.args[0].name[2:]
			if ct := E.P.contracts[key]; ct != nil {
				E.safety(st, "call of nil function", Not(Eq(f.t, Int(0))), pos)
				return E.applyContract(st, ct, append([]Value{VT{f.t.args[1]}}, args...), res, pos)
			}
		}
		if f.t.op == "ite" {
			s1, s2 := st.clone(), st.clone()
			s1.guard = And(st.guard, f.t.args[0])
			s2.guard = And(st.guard, Not(f.t.args[0]))
			if s1.guard == False {
				v := E.callValue(s2, VT{f.t.args[2]}, sig, args, res, pos)
				*st = *s2
				return v
			}
			if s2.guard == False {
				v := E.callValue(s1, VT{f.t.args[1]}, sig, args, res, pos)
				*st = *s1
				return v
			}
			v1 := E.callValue(s1, VT{f.t.args[1]}, sig, args, res, pos)
			v2 := E.callValue(s2, VT{f.t.args[2]}, sig, args, res, pos)
			m, conds := E.mergeStates([]*State{s1, s2})
			*st = *m
			return iteValue(E, st, res, conds[0], v1, v2)
		}
		// dispatch over all functions of that type whose address is taken
		cands := E.P.addrTaken(sig)
		E.safety(st, "call of nil function", Not(Eq(f.t, Int(0))), pos)
		if len(cands) == 0 || E.depth > 30 {
			E.unsupported("call of unknown function value")
			return E.freshValue(st, "dyncall", res)
		}
		var isOne []*Term
		for _, c := range cands {
			isOne = append(isOne, Eq(f.t, E.P.funcID(c)))
		}
		E.assume(st, Or(append(isOne, Eq(f.t, Int(0)))...))
		E.assumed["function values of type "+types.TypeString(sig, nil)+" are among the functions whose address is taken"] = true
		var sts []*State
		var vals []Value
		rest := st.guard
		for i, c := range cands {
			s := st.clone()
			s.guard = And(rest, isOne[i])
			rest = And(rest, Not(isOne[i]))
			if s.guard == False {
				continue
			}
			v := E.callStatic(s, c, args, nil, pos)
			if s.guard == False {
				continue
			}
			sts = append(sts, s)
			vals = append(vals, v)
		}
		if len(sts) == 0 {
			st.guard = False
			return zeroValue(res)
		}
		m, conds := E.mergeStates(sts)
		v := vals[len(vals)-1]
		for i := len(vals) - 2; i >= 0; i-- {
			v = iteValue(E, m, res, conds[i], vals[i], v)
		}
		*st = *m
		return v
	}
	panic(fmt.Sprintf("callValue %T", fv))
}

func (E *Engine) isSpec(fn *ssa.Function) bool { return E.P.specFuncs[fn] }

// atCalls obliges what the function being verified asserts at calls of key.
func (E *Engine) atCalls(st *State, key string, args []Value, pos token.Pos) {
	if E.contract == nil || E.quiet > 0 || E.unfoldFP != nil {
		return
	}
	for _, x := range E.contract.ats {
		if x.callee != key || x.cl.fn == nil || x.after {
			continue
		}
		if len(args) != len(x.params) {
			E.unsupported("call of " + key + " does not fit its assertion")
			continue
		}
		pr := x.cl.props
		if pr == nil {
			pr = E.contract.props
		}
		E.oblige(st, "at", "at "+key+": "+x.cl.text, E.evalClause(st, x.cl.fn, append(E.rootArgs(E.contract), args...)), pr, pos)
	}
}

// afterCalls uses the lemmas that the function being verified names for calls of key.
func (E *Engine) afterCalls(st *State, key string, args []Value, v Value) {
	if E.contract == nil || E.unfoldFP != nil || E.quiet > 0 {
		return
	}
	for _, x := range E.contract.ats {
		if x.callee != key || x.cl.fn == nil || !x.after {
			continue
		}
		a := append(E.rootArgs(E.contract), args...)
		if tu, ok := v.(VTuple); ok {
			a = append(a, tu...)
		}
		if len(a) != x.cl.fn.Signature.Params().Len() {
			continue
		}
		E.useLemma(st, &Clause{fn: x.cl.fn}, a)
	}
}

func (E *Engine) callStatic(st *State, fn *ssa.Function, args []Value, bind []Value, pos token.Pos) Value {
	v := E.callStatic1(st, fn, args, bind, pos)
	E.afterCalls(st, fnKey(fn), args, v)
	return v
}

func (E *Engine) callStatic1(st *State, fn *ssa.Function, args []Value, bind []Value, pos token.Pos) Value {
	key := fnKey(fn)
	E.atCalls(st, key, args, pos)
	res := fn.Signature.Results()
	if E.P.specFuncs[fn] {
		if n := fn.Name(); n == "eqStrs" || n == "eqSlices" || n == "eqRules" || n == "eqCerts" {
			a, b := E.force(st, args[0].(VSlice)), E.force(st, args[1].(VSlice))
			return VTuple{VT{Eq(a.seq, b.seq)}}
		}
		if len(fn.Blocks) == 0 {
			return E.bodiless(st, fn, args, res)
		}
		if strings.HasPrefix(fn.Name(), "pre_") {
			// evaluated in the state at entry
			if E.old == nil {
				panic("no entry state for " + fn.Name())
			}
			st = E.old.clone()
		} else if res.Len() > 0 && E.P.specWrites(fn) {
			st = st.clone() // a hypothetical state
		}
		if E.P.recSpec[fn] || E.P.foldable[fn] && E.fold()[fn.Name()] {
			return E.specApp(st, fn, args)
		}
		E.quiet++
		defer func() { E.quiet-- }()
		return E.callStaticBody(st, fn, args, bind)
	}
	if mf := E.P.models[key]; mf != nil {
		E.assumed["model of "+key] = true
		return E.callStaticBody(st, mf, args, nil)
	}
	if v, ok := E.intrinsic(st, fn, key, args, res, pos); ok {
		return v
	}
	if fn.Pkg == E.P.main || fn.Pkg == E.P.stub || fn.Pkg == nil && fn.Synthetic != "" && len(fn.Blocks) > 0 && E.P.isMainSynthetic(fn) || fn.Parent() != nil {
		if ct := E.P.contracts[key]; ct != nil && E.quiet == 0 && !ct.inline {
			return E.applyContract(st, ct, args, res, pos)
		}
		if ct := E.P.contracts[key]; ct != nil && E.quiet > 0 && ct.returns != nil && ct.returns.fn != nil {
			return VTuple{E.evalSpec(st, ct.returns.fn, append([]Value{}, args...))}
		}
		if ct, self := E.P.ifaceContractFor(fn); ct != nil && E.quiet == 0 {
			a := append([]Value{VIface{self, args[0]}}, args[1:]...)
			return E.applyContract(st, ct, a, res, pos)
		}
		if len(fn.Blocks) > 0 {
			if E.dry == 0 && E.quiet == 0 {
				E.inlined[key] = true
			}
			return E.callStaticBody(st, fn, args, bind)
		}
	}
	// external
	E.assumed["pure external: "+key] = true
	var ts []types.Type
	if r := fn.Signature.Recv(); r != nil {
		ts = append(ts, r.Type())
	}
	ts = append(ts, sigTypes(fn.Signature)...)
	return E.pureApp(st, "x:"+key, args, ts, res)
}

func (E *Engine) callStaticBody(st *State, fn *ssa.Function, args []Value, bind []Value) Value {
	if E.P.modelFuncs[fn] {
		E.quiet++
		defer func() { E.quiet-- }()
	}
	return E.callBody(fn, args, bind, st)
}

// bodiless specification functions: assume, any*, or uninterpreted.
func (E *Engine) bodiless(st *State, fn *ssa.Function, args []Value, res *types.Tuple) Value {
	switch {
	case fn.Name() == "assume":
		E.assume(st, T(args[0]))
		return VTuple{}
	case fn.Name() == "unreachable":
		st.guard = False
		return VTuple{}
	case strings.HasPrefix(fn.Name(), "any"):
		return E.freshValue(st, fn.Name(), res)
	case fn.Name() == "require":
		if len(E.stack) > 0 {
			q := E.quiet
			E.quiet = 0
			E.oblige(st, "requires", T(args[1]).sv, T(args[0]), nil, 0)
			E.quiet = q
		}
		return VTuple{}
	case strings.HasPrefix(fn.Name(), "held_"):
		// held_T_f(p): this goroutine holds the mutex f of *p
		f := strings.SplitN(strings.TrimPrefix(fn.Name(), "held_"), "_", 2)
		return VTuple{VT{Eq(Select(E.hget(st, f[0]+"."+f[1], SInt), T(args[0])), Int(1))}}
	case strings.HasPrefix(fn.Name(), "cast_"):
		// cast_X(p): the same object seen at another pointer type
		return VTuple{VT{E.flat(st, fn.Signature.Params().At(0).Type(), args[0])[0]}}
	case strings.HasPrefix(fn.Name(), "isfn_"):
		// isfn_F(g): g is the function F
		f := E.P.main.Func(strings.TrimPrefix(fn.Name(), "isfn_"))
		if f == nil {
			return VTuple{VT{False}}
		}
		return VTuple{VT{Eq(E.flat(st, fn.Signature.Params().At(0).Type(), args[0])[0], E.P.funcID(f))}}
	case strings.HasPrefix(fn.Name(), "fnreads_"):
		// fnreads_T_f(g): does the function value g read field f of T?
		f := strings.SplitN(strings.TrimPrefix(fn.Name(), "fnreads_"), "_", 2)
		key := f[0] + "." + f[1]
		vi := args[0].(VIface)
		sig := vi.typ.Underlying().(*types.Signature)
		r := False
		for _, c := range E.P.addrTaken(sig) {
			if E.P.fnReads(c, key) {
				r = Or(r, Eq(T(vi.val), E.P.funcID(c)))
			}
		}
		return VTuple{VT{r}}
	case strings.HasPrefix(fn.Name(), "sameMap") || fn.Name() == "sameIps":
		return VTuple{VT{Eq(T(args[0]), T(args[1]))}}
	case fn.Name() == "isfresh":
		return VTuple{VT{Bool(E.isFresh(T(args[0])))}}
	}
	return E.pureApp(st, "u:"+fn.Name(), args, sigTypes(fn.Signature), res)
}

// ---- recursive specification functions

type fpEnt struct {
	name string
	sort Sort
}

// ignoresNil: the value of the specification function cannot depend on whether a slice is nil or empty.
func (P *Program) ignoresNil(fn *ssa.Function) bool {
	if r, ok := P.nilBlind[fn]; ok {
		return r
	}
	r := true
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		for _, c := range comps(fn.Signature.Results().At(i).Type()) {
			if strings.HasSuffix(c.suffix, ".nil") {
				r = false
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || !r {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.BinOp:
					if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
						r = false
					}
				case *ssa.MakeInterface:
					if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
						r = false
					}
				case *ssa.Store:
					if _, ok := x.Val.Type().Underlying().(*types.Slice); ok {
						r = false
					}
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil {
						if m := P.models[fnKey(g)]; m != nil {
							g = m
						}
						if len(g.Blocks) > 0 && (g.Pkg == P.main || g.Pkg == P.stub) {
							visit(g)
							continue
						}
					}
					if _, ok := x.Call.Value.(*ssa.Builtin); ok {
						continue
					}
					for _, a := range x.Call.Args {
						if _, ok := a.Type().Underlying().(*types.Slice); ok {
							r = false
						}
					}
				}
			}
		}
	}
	visit(fn)
	P.nilBlind[fn] = r
	return r
}

func (E *Engine) specApp(st *State, fn *ssa.Function, args []Value) Value {
	var flat []*Term
	ts := sigTypes(fn.Signature)
	for i, a := range args {
		if _, ok := ts[i].Underlying().(*types.Slice); ok && E.P.ignoresNil(fn) {
			v := E.force(st, a.(VSlice))
			v.nl = False
			a = v
		}
		flat = append(flat, E.flat(st, ts[i], a)...)
	}
	for _, f := range E.P.footprint[fn] {
		if strings.HasPrefix(f.name, "G:") {
			flat = append(flat, E.gget(st, f.name[2:], f.sort))
		} else {
			_, v := f.sort.arrKV()
			flat = append(flat, E.hget(st, f.name, v))
		}
	}
	res := fn.Signature.Results()
	var out []*Term
	for i, c := range comps(res) {
		n := fmt.Sprintf("s:%s:%d", fn.Name(), i)
		E.P.specApps[n] = fn
		out = append(out, App(n, c.sort, flat...))
	}
	return fromTerms(res, out)
}

// fold: the specification functions that stay symbols.
func (E *Engine) fold() map[string]bool {
	if E.contract != nil {
		return E.contract.fold
	}
	return E.folded
}

// unfold returns the definitional equation of an application of a recursive specification function.
func (R *Engine) unfold(app *Term) *Term {
	P := R.P
	if t, ok := R.unfoldCache[app]; ok {
		return t
	}
	fn := P.specApps[app.name]
	if fn == nil || R.fold()[fn.Name()] {
		return nil
	}
	idx := 0
	fmt.Sscanf(app.name[strings.LastIndex(app.name, ":")+1:], "%d", &idx)
	E := NewEngine(P, "unfold")
	E.unfoldFP = map[string]*Term{}
	E.folded = R.fold()
	E.knownType = R.knownType
	var args []Value
	rest := app.args
	for _, t := range sigTypes(fn.Signature) {
		n := len(comps(t))
		args = append(args, fromTerms(t, rest[:n]))
		rest = rest[n:]
	}
	for i, f := range P.footprint[fn] {
		E.unfoldFP[f.name] = rest[i]
	}
	st := &State{guard: True, heap: map[string]*Term{}, glob: map[string]*Term{}, cells: map[int]Value{}, alloc: Sym("A:spec", SInt)}
	E.alloc0 = st.alloc
	E.quiet = 1
	v := E.callBody(fn, args, nil, st)
	ts := E.flat(st, fn.Signature.Results(), v)
	r := Eq(app, ts[idx])
	R.unfoldCache[app] = r
	return r
}

// fnReads: evaluating fn can read the given field.
func (P *Program) fnReads(fn *ssa.Function, key string) bool {
	id := fnKey(fn) + " " + key
	if r, ok := P.readsCache[id]; ok {
		return r
	}
	E := NewEngine(P, "reads")
	E.reads = map[string]Sort{}
	E.dry, E.quiet = 1, 1
	st := &State{guard: True, heap: map[string]*Term{}, glob: map[string]*Term{}, cells: map[int]Value{}, alloc: Sym("A:spec", SInt)}
	E.alloc0 = st.alloc
	var args []Value
	for i, p := range fn.Params {
		args = append(args, E.freshValue(st, fmt.Sprintf("fp%d", i), p.Type()))
	}
	E.callStatic(st, fn, args, nil, 0)
	r := false
	for n := range E.reads {
		if n == key || strings.HasPrefix(n, key+".") {
			r = true
		}
	}
	P.readsCache[id] = r
	return r
}

// specWrites: a specification function that assigns to fields or maps.
func (P *Program) specWrites(fn *ssa.Function) bool {
	if r, ok := P.readsCache["writes "+fn.Name()]; ok {
		return r
	}
	P.readsCache["writes "+fn.Name()] = false
	r := false
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.MapUpdate:
				r = true
			case *ssa.Store:
				if f, ok := x.Addr.(*ssa.FieldAddr); ok {
					if _, local := f.X.(*ssa.Alloc); !local {
						r = true
					}
				}
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && g.Signature.Results().Len() == 0 && P.specFuncs[g] && P.specWrites(g) {
					r = true
				}
			}
		}
	}
	P.readsCache["writes "+fn.Name()] = r
	return r
}

// computeFootprints finds which heap maps each recursive specification function reads.
func (P *Program) computeFootprints() {
	for {
		changed := false
		for _, fn := range P.recSpecList {
			E := NewEngine(P, "footprint")
			E.reads = map[string]Sort{}
			E.dry = 1
			E.quiet = 1
			st := &State{guard: True, heap: map[string]*Term{}, glob: map[string]*Term{}, cells: map[int]Value{}, alloc: Sym("A:spec", SInt)}
			E.alloc0 = st.alloc
			var args []Value
			for i, p := range fn.Params {
				args = append(args, E.freshValue(st, fmt.Sprintf("fp%d", i), p.Type()))
			}
			E.callBody(fn, args, nil, st)
			names := map[string]bool{}
			for n := range E.reads {
				names[n] = true
			}
			var fp []fpEnt
			for _, n := range sortedKeys(names) {
				if P.isFrozenKey(n) {
					continue
				}
				fp = append(fp, fpEnt{n, E.reads[n]})
			}
			if len(fp) != len(P.footprint[fn]) {
				changed = true
			}
			P.footprint[fn] = fp
		}
		if !changed {
			break
		}
	}
}

// ---- builtins

func (E *Engine) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Value, instr ssa.Instruction) Value {
	pos := instr.Pos()
	one := func(t *Term) Value { return VTuple{VT{t}} }
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case VSlice:
			return one(sliceLen(E, st, x))
		case VT:
			if x.t.sort == SStr {
				return one(StrLen(x.t))
			}
			if mt, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				E.guard(st, x.t, mapKey(mt))
				return one(E.mapLen(st, x.t, mt))
			}
		case VArr:
			return one(Int(int64(len(x.e))))
		}
	case "cap":
		if x, ok := args[0].(VSlice); ok {
			n := Fresh("cap", SInt)
			E.assume(st, Le(sliceLen(E, st, x), n))
			return one(n)
		}
	case "append":
		s := args[0].(VSlice)
		var a VSlice
		switch y := args[1].(type) {
		case VSlice:
			a = y
		case VT: // append([]byte, string...)
			a = VSlice{seq: y.t, nl: False, own: True, et: s.et}
		}
		n := sliceLen(E, st, a)
		if s.own != True && E.contract != nil && E.contract.noalias && E.quiet == 0 && !strings.HasPrefix(filepath.Base(E.P.fset.Position(pos).Filename), "zz_") {
			E.oblige(st, "frame", "append cannot write into a shared backing array", Or(s.own, Eq(n, Int(0))), nil, pos)
		}
		own := True
		if s.own != True {
			own = Or(s.own, Lt(Int(0), n))
		}
		if s.seq == nil && a.seq == nil {
			return VTuple{VSlice{elems: append(append([]Value{}, s.elems...), a.elems...), nl: And(s.nl, Eq(n, Int(0))), own: own, et: s.et}}
		}
		s, a = E.force(st, s), E.force(st, a)
		nl := And(s.nl, Eq(n, Int(0)))
		if s.seq.sort == SStr {
			return VTuple{VSlice{seq: Concat(s.seq, a.seq), nl: nl, own: own, et: s.et}}
		}
		return VTuple{VSlice{seq: SeqCat(s.seq.sort, s.seq, a.seq), nl: nl, own: own, et: s.et}}
	case "delete":
		E.guard(st, T(args[0]), mapKey(c.Args[0].Type().Underlying().(*types.Map)))
		E.mapDelete(st, args[0], c.Args[0].Type().Underlying().(*types.Map), args[1])
		return VTuple{}
	case "close", "print", "println":
		return VTuple{}
	case "ssa:wrapnilchk":
		return VTuple{args[0]}
	}
	E.unsupported("builtin " + b.Name())
	return E.freshValue(st, b.Name(), c.Signature().Results())
}

func (E *Engine) goStmt(fr *Frame, st *State, x *ssa.Go) {
	name := "?"
	if fn := x.Call.StaticCallee(); fn != nil {
		name = fnKey(fn)
	}
	E.assumed["goroutine started and not followed: "+name] = true
	if fn := x.Call.StaticCallee(); fn != nil && E.quiet == 0 {
		E.atCalls(st, name, E.args(fr, st, &x.Call), x.Pos())
		if ct := E.P.contracts[name]; ct != nil {
			// it starts in a state its contract asks for
			E.goRequires(st, ct, E.args(fr, st, &x.Call), x.Pos())
		}
	}
}

func (E *Engine) sendStmt(fr *Frame, st *State, x *ssa.Send) {
	ct := x.Chan.Type().Underlying().(*types.Chan)
	if o, k := chanField(x.Chan); o != nil {
		if mf := E.P.models["send "+k]; mf != nil {
			E.callStaticBody(st, mf, []Value{E.operand(fr, st, o), E.operand(fr, st, x.X)}, nil)
			return
		}
	}
	key := "send " + typeKey(ct.Elem())
	if mf := E.P.models[key]; mf != nil {
		ch := E.operand(fr, st, x.Chan)
		E.callStaticBody(st, mf, []Value{ch, E.operand(fr, st, x.X)}, nil)
		return
	}
	E.assumed["channel send ignored: "+typeKey(ct.Elem())] = true
}

// chanField: the channel is held in a field of the object o.
func chanField(ch ssa.Value) (ssa.Value, string) {
	if u, ok := ch.(*ssa.UnOp); ok && u.Op == token.MUL {
		if f, ok := u.X.(*ssa.FieldAddr); ok {
			bt := f.X.Type().Underlying().(*types.Pointer).Elem()
			return f.X, typeKey(bt) + "." + fieldName(bt, f.Field)
		}
	}
	return nil, ""
}

func (E *Engine) recv(fr *Frame, st *State, x *ssa.UnOp, ch Value) Value {
	ct := x.X.Type().Underlying().(*types.Chan)
	key := "recv " + typeKey(ct.Elem())
	var v Value
	if o, k := chanField(x.X); o != nil && !x.CommaOk {
		if mf := E.P.models["recv "+k]; mf != nil {
			return E.callStaticBody(st, mf, []Value{E.operand(fr, st, o)}, nil).(VTuple)[0]
		}
	}
	if mf := E.P.models[key]; mf != nil {
		v = E.callStaticBody(st, mf, []Value{ch}, nil).(VTuple)[0]
		if x.CommaOk {
			return VTuple{v, VT{Fresh("recvok", SBool)}}
		}
		return v
	}
	E.assumed["channel receive yields any value: "+typeKey(ct.Elem())] = true
	return E.freshValue(st, "recv", x.Type())
}

// ---- intrinsics

func (E *Engine) intrinsic(st *State, fn *ssa.Function, key string, args []Value, res *types.Tuple, pos token.Pos) (Value, bool) {
	one := func(t *Term) (Value, bool) { return VTuple{VT{t}}, true }
	switch key {
	case "strings.IndexByte":
		return one(IndexOf(T(args[0]), FromCode(T(args[1])), Int(0)))
	case "strings.Index":
		return one(IndexOf(T(args[0]), T(args[1]), Int(0)))
	case "strings.HasPrefix":
		return one(PrefixOf(T(args[1]), T(args[0])))
	case "strings.HasSuffix":
		return one(SuffixOf(T(args[1]), T(args[0])))
	case "strings.Contains":
		return one(mk("str.contains", SBool, T(args[0]), T(args[1])))
	case "strings.ToLower":
		if a := T(args[0]); a.op == "str" {
			return one(Str(strings.ToLower(a.sv)))
		}
		return one(App("lower", SStr, T(args[0])))
	case "fmt.Sprintf":
		return one(E.format(st, args[0], args[1]))
	case "fmt.Sprint":
		s := args[0].(VSlice)
		if s.seq == nil && len(s.elems) == 1 {
			return one(E.fmtOne(st, "v", s.elems[0]))
		}
		return one(Fresh("sprint", SStr))
	case "fmt.Errorf":
		m := E.format(st, args[0], args[1])
		return one(E.mkErr(st, m))
	case "errors.New":
		return one(E.mkErr(st, T(args[0])))
	case "fmt.Fprintf":
		s := E.format(st, args[1], args[2])
		E.fprint(st, args[0], s)
		return VTuple{VT{Fresh("n", SInt)}, VT{Fresh("err", SInt)}}, true
	case "fmt.Fprint":
		sl := args[1].(VSlice)
		var parts []*Term
		for _, e := range sl.elems {
			parts = append(parts, E.fmtOne(st, "v", e))
		}
		E.fprint(st, args[0], Concat(parts...))
		return VTuple{VT{Fresh("n", SInt)}, VT{Fresh("err", SInt)}}, true
	case "os.Exit":
		st.guard = False
		return VTuple{}, true
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock":
		a, ok := args[0].(VAddr)
		if !ok || a.kind != aField {
			return VTuple{}, true
		}
		cur := Select(E.hget(st, a.key, SInt), a.base)
		E.assume(st, Or(Eq(cur, Int(0)), Eq(cur, Int(1))))
		if strings.HasSuffix(key, "Unlock") {
			E.oblige(st, "lock", "unlock of a mutex that is held", Eq(cur, Int(1)), nil, pos)
			st.heap[a.key] = Store(E.hget(st, a.key, SInt), a.base, Int(0))
		} else {
			E.oblige(st, "lock", "lock of a mutex this goroutine does not hold", Eq(cur, Int(0)), nil, pos)
			st.heap[a.key] = Store(E.hget(st, a.key, SInt), a.base, Int(1))
			E.onLock(st, a)
		}
		return VTuple{}, true
	}
	if strings.HasPrefix(key, "(*expvar.") || strings.HasPrefix(key, "expvar.") || strings.HasPrefix(key, "(*sync.") {
		if res.Len() == 0 {
			return VTuple{}, true
		}
		return E.freshValue(st, "expvar", res), true
	}
	return nil, false
}

func (E *Engine) onLock(st *State, a VAddr) {}

// guard obliges that the mutex protecting key is held (base: the object that is accessed).
func (E *Engine) guard(st *State, base *Term, key string) {
	if E.quiet > 0 || E.dry > 0 || E.unfoldFP != nil || len(E.P.guards) == 0 {
		return
	}
	mu := ""
	for k, m := range E.P.guards {
		if key == k || strings.HasPrefix(key, k+".") {
			mu = m
		}
	}
	if mu == "" || E.isFresh(base) {
		return
	}
	owner := mu[:strings.IndexByte(mu, '.')]
	obj := base
	if !strings.HasPrefix(key, owner+".") {
		// an object reached from the owner: the receiver of the function being verified
		obj = nil
		for i, p := range E.rootParams {
			if E.rootFn != nil && i < len(E.rootFn.Params) {
				if pt, ok := E.rootFn.Params[i].Type().Underlying().(*types.Pointer); ok && typeKey(pt.Elem()) == owner {
					obj = T(p)
				}
			}
		}
	}
	g := False
	if obj != nil {
		g = Eq(Select(E.hget(st, mu, SInt), obj), Int(1))
	}
	E.oblige(st, "lock", "access to "+key+" only while "+mu+" is held", g, nil, 0)
}

func (E *Engine) fprint(st *State, w Value, s *Term) {
	mf := E.P.models["fprint"]
	if mf == nil {
		return
	}
	it := mf.Signature.Params().At(0).Type()
	wt := E.flat(st, it, w)[0]
	E.assumed["model of fmt.Fprintf"] = true
	E.callStaticBody(st, mf, []Value{keepIface(w, wt), VT{s}}, nil)
}

func keepIface(w Value, t *Term) Value {
	if v, ok := w.(VIface); ok {
		return v
	}
	return VT{t}
}

func IndexOf(s, sub, from *Term) *Term {
	if s.op == "str" && sub.op == "str" && from.op == "int" && from.iv == 0 {
		return Int(int64(strings.Index(s.sv, sub.sv)))
	}
	return mk("str.indexof", SInt, s, sub, from)
}
func PrefixOf(p, s *Term) *Term {
	if p.op == "str" && s.op == "str" {
		return Bool(strings.HasPrefix(s.sv, p.sv))
	}
	if p.op == "str" && len(p.sv) > 0 && len(p.sv) <= 6 && s.op == "str.substr" {
		// character by character
		base, from, n := s.args[0], s.args[1], s.args[2]
		cs := []*Term{Le(Int(0), from), Le(Int(int64(len(p.sv))), n)}
		for i := 0; i < len(p.sv); i++ {
			cs = append(cs, Eq(StrAt(base, Add(from, Int(int64(i)))), Str(p.sv[i:i+1])))
		}
		return And(cs...)
	}
	return mk("str.prefixof", SBool, p, s)
}
func SuffixOf(p, s *Term) *Term {
	if p.op == "str" && s.op == "str" {
		return Bool(strings.HasSuffix(s.sv, p.sv))
	}
	return mk("str.suffixof", SBool, p, s)
}

func (E *Engine) mkErr(st *State, msg *Term) *Term {
	e := App("mkerr", SInt, msg)
	E.assume(st, And(Lt(Int(0), e), Le(e, E.alloc0Safe(st)), Eq(App("inv:error.Error", SStr, e), msg), Eq(App("typeof", SInt, e), Int(-7))))
	return e
}
func (E *Engine) alloc0Safe(st *State) *Term {
	if E.alloc0 != nil {
		return E.alloc0
	}
	return st.alloc
}

// format models fmt's verbs for a constant format.
func (E *Engine) format(st *State, fv, av Value) *Term {
	f := T(fv)
	args, ok := av.(VSlice)
	if f.op != "str" || !ok || (args.seq != nil && len(args.elems) == 0 && args.seq.op != "as") {
		E.assumed["fmt with a variable format or argument list gives any string"] = true
		var ts []*Term
		if ok && args.seq != nil {
			ts = []*Term{args.seq}
		}
		return App("fmt", SStr, append([]*Term{f}, ts...)...)
	}
	s := f.sv
	var parts []*Term
	ai := 0
	i := 0
	for i < len(s) {
		j := strings.IndexByte(s[i:], '%')
		if j < 0 {
			parts = append(parts, Str(s[i:]))
			break
		}
		parts = append(parts, Str(s[i:i+j]))
		i += j + 1
		k := i
		for k < len(s) && strings.IndexByte("0123456789.+-# ", s[k]) >= 0 {
			k++
		}
		if k >= len(s) {
			parts = append(parts, Str("%!(NOVERB)"))
			break
		}
		verb := s[i : k+1]
		i = k + 1
		if verb == "%" {
			parts = append(parts, Str("%"))
			continue
		}
		if ai >= len(args.elems) {
			parts = append(parts, Str("%!"+verb+"(MISSING)"))
			continue
		}
		parts = append(parts, E.fmtOne(st, verb, args.elems[ai]))
		ai++
	}
	if ai < len(args.elems) {
		parts = append(parts, App("fmtextra", SStr, Int(int64(len(args.elems)-ai))))
	}
	return Concat(parts...)
}

func (E *Engine) fmtOne(st *State, verb string, v Value) *Term {
	vi, ok := v.(VIface)
	if x, isT := v.(VT); isT && E.ifaceStatic[x.t] != nil {
		vi, ok = VIface{E.ifaceStatic[x.t], v}, true
	}
	if !ok {
		t := E.flat(st, types.NewInterfaceType(nil, nil), v)[0]
		return App("fmt%"+verb+":iface", SStr, t)
	}
	// types with a String or Error method
	if _, isI := vi.typ.Underlying().(*types.Interface); isI {
		t := E.flat(st, vi.typ, vi.val)[0]
		ms := types.NewMethodSet(vi.typ)
		for i := 0; i < ms.Len() && (verb == "s" || verb == "v"); i++ {
			if n := ms.At(i).Obj().Name(); n == "Error" || n == "String" && ms.Lookup(ms.At(i).Obj().Pkg(), "Error") == nil {
				nl := "<nil>"
				if verb == "s" {
					nl = "%!s(<nil>)"
				}
				k := typeKey(vi.typ)
				return Ite(Eq(t, Int(0)), Str(nl), App("inv:"+k+"."+n, SStr, t))
			}
		}
		return App("fmt%"+verb+":iface", SStr, t)
	}
	hasStr := false
	ms := types.NewMethodSet(vi.typ)
	for i := 0; i < ms.Len(); i++ {
		if n := ms.At(i).Obj().Name(); n == "String" || n == "Error" {
			hasStr = true
		}
	}
	if !hasStr {
		if b, ok := vi.typ.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsString != 0 && (verb == "s" || verb == "v") {
				return T(vi.val)
			}
			if b.Info()&types.IsInteger != 0 && (verb == "d" || verb == "v") && T(vi.val).sort == SInt {
				return Itoa(T(vi.val))
			}
		}
		if sl, ok := vi.typ.Underlying().(*types.Slice); ok && isByte(sl.Elem()) {
			s := E.force(st, vi.val.(VSlice))
			if verb == "s" {
				return s.seq
			}
			if verb == "x" {
				return App("hex", SStr, s.seq)
			}
		}
	}
	ts := E.flat(st, vi.typ, vi.val)
	if len(ts) == 0 {
		return Str("{}")
	}
	return App("fmt%"+verb+":"+typeKey(vi.typ), SStr, ts...)
}

func Itoa(t *Term) *Term {
	if t.op == "int" {
		return Str(fmt.Sprint(t.iv))
	}
	return App("itoa", SStr, t)
}

// mutated: a library function has changed the elements of the slice in arg.
func (E *Engine) mutated(fr *Frame, st *State, arg ssa.Value, nv Value, instr ssa.Instruction) {
	call := instr.Block()
	seen := map[*ssa.BasicBlock]bool{}
	var inLoop bool
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		for _, s := range b.Succs {
			if s == call {
				inLoop = true
			}
			if !seen[s] {
				seen[s] = true
				walk(s)
			}
		}
	}
	walk(call)
	if inLoop {
		E.unsupported("slice changed in place inside a loop")
		return
	}
	if refs := arg.Referrers(); refs != nil {
		after := true
		for _, r := range *refs {
			if rv, ok := r.(ssa.Value); r == instr || ok && rv == arg {
				continue
			}
			if _, ok := r.(*ssa.Return); ok {
				continue // nothing uses it afterwards
			}
			switch x := r.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.MakeClosure, *ssa.Phi, *ssa.Slice, *ssa.Return, *ssa.MakeInterface, *ssa.Call:
				if r.Block() == call || !call.Dominates(r.Block()) {
					if c, ok := x.(*ssa.Call); ok {
						if _, b := c.Call.Value.(*ssa.Builtin); b {
							continue
						}
					}
					E.unsupported("slice changed in place while another name may hold it")
				}
			}
			if r.Block() != call && !call.Dominates(r.Block()) {
				after = false
			}
		}
		if after {
			fr.env[arg] = nv
		} else {
			fr.env[arg] = iteValue(E, st, arg.Type(), st.guard, nv, fr.env[arg])
		}
	}
	// a slice read from a variable or field: the variable now holds the changed elements
	if ld, ok := arg.(*ssa.UnOp); ok && ld.Op == token.MUL {
		E.store(st, E.operand(fr, st, ld.X), arg.Type(), nv, instr.Pos())
	}
}
