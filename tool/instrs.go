package main

import (
	"crypto/sha1"
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func (E *Engine) runInstrs(fr *Frame, b *ssa.BasicBlock, st *State, out func(*ssa.BasicBlock, *State)) {
	for _, ins := range b.Instrs {
		if st.guard == False {
			return
		}
		switch x := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := T(E.operand(fr, st, x.Cond))
			s1 := st.clone()
			s1.guard = And(st.guard, c)
			s2 := st
			s2.guard = And(st.guard, Not(c))
			out(b.Succs[0], s1)
			out(b.Succs[1], s2)
			return
		case *ssa.Jump:
			out(b.Succs[0], st)
			return
		case *ssa.Return:
			var v Value
			if len(x.Results) == 1 && fr.fn.Signature.Results().Len() == 1 {
				v = VTuple{E.operand(fr, st, x.Results[0])}
			} else {
				var tu VTuple
				for _, r := range x.Results {
					tu = append(tu, E.operand(fr, st, r))
				}
				v = tu
			}
			fr.rets = append(fr.rets, retEdge{st, v})
			return
		case *ssa.Panic:
			E.safety(st, "panic is unreachable", False, x.Pos())
			return
		case *ssa.Store:
			a := E.operand(fr, st, x.Addr)
			if _, local := x.Addr.(*ssa.Alloc); !local && E.P.isFrozenPtr(x.Val.Type()) {
				E.publish(st, T(E.operand(fr, st, x.Val)), x.Val.Type().Underlying().(*types.Pointer).Elem())
			}
			E.store(st, a, x.Addr.Type().Underlying().(*types.Pointer).Elem(), E.operand(fr, st, x.Val), x.Pos())
		case *ssa.MapUpdate:
			E.mapUpdate(st, E.operand(fr, st, x.Map), x.Map.Type().Underlying().(*types.Map), E.operand(fr, st, x.Key), E.operand(fr, st, x.Value), x.Pos())
		case *ssa.Defer:
			d := deferred{guard: st.guard, call: &x.Call, instr: x}
			if !x.Call.IsInvoke() {
				d.fn = E.operand(fr, st, x.Call.Value)
			} else {
				d.fn = E.operand(fr, st, x.Call.Value)
			}
			for _, a := range x.Call.Args {
				d.args = append(d.args, E.operand(fr, st, a))
			}
			st.defers = append(append([]deferred{}, st.defers...), d)
		case *ssa.RunDefers:
			ds := st.defers
			st.defers = nil
			for i := len(ds) - 1; i >= 0; i-- {
				d := ds[i]
				E.callWith(fr, st, d.call, d.fn, d.args, d.instr)
			}
		case *ssa.Go:
			E.goStmt(fr, st, x)
		case *ssa.Send:
			E.sendStmt(fr, st, x)
		case ssa.Value:
			fr.env[x] = E.evalValue(fr, st, x)
		default:
			E.unsupported(fmt.Sprintf("instruction %T", ins))
		}
	}
}

func (E *Engine) evalValue(fr *Frame, st *State, v ssa.Value) Value {
	op := func(x ssa.Value) Value { return E.operand(fr, st, x) }
	switch x := v.(type) {
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		if _, ok := et.Underlying().(*types.Array); ok {
			E.cellCtr++
			st.cells[E.cellCtr] = zeroValue(et)
			return VAddr{kind: aCell, cell: E.cellCtr, typ: et}
		}
		r := E.newRef(st)
		E.initObject(st, r, et)
		if mf := E.P.models["new "+typeKey(et)]; mf != nil {
			E.callStaticBody(st, mf, []Value{VT{r}}, nil)
		}
		return VT{r}
	case *ssa.BinOp:
		return E.binop(fr, st, x)
	case *ssa.UnOp:
		return E.unop(fr, st, x)
	case *ssa.Call:
		r := E.callWith(fr, st, &x.Call, E.calleeValue(fr, st, &x.Call), E.args(fr, st, &x.Call), x)
		if x.Call.Signature().Results().Len() == 1 {
			if tu, ok := r.(VTuple); ok {
				return tu[0]
			}
		}
		return r
	case *ssa.ChangeType:
		return op(x.X)
	case *ssa.ChangeInterface:
		v := op(x.X)
		if t, ok := v.(VT); ok && x.X.Type().Underlying().(*types.Interface).NumMethods() > 0 {
			E.ifaceStatic[t.t] = x.X.Type()
		}
		return v
	case *ssa.Convert:
		return E.convert(st, op(x.X), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		val := op(x.X)
		if E.P.isFrozenPtr(x.X.Type()) {
			E.publish(st, T(val), x.X.Type().Underlying().(*types.Pointer).Elem())
		}
		return VIface{x.X.Type(), val}
	case *ssa.TypeAssert:
		return E.typeAssert(st, op(x.X), x)
	case *ssa.Extract:
		tu := op(x.Tuple).(VTuple)
		return tu[x.Index]
	case *ssa.Field:
		s := op(x.X)
		if sv, ok := s.(VStruct); ok {
			return sv.f[x.Field]
		}
		E.unsupported("field of opaque struct " + typeKey(x.X.Type()))
		return E.freshValue(st, "opaque", x.Type())
	case *ssa.FieldAddr:
		base := op(x.X)
		bt := x.X.Type().Underlying().(*types.Pointer).Elem()
		ft := x.Type().Underlying().(*types.Pointer).Elem()
		fn := fieldName(bt, x.Field)
		switch a := base.(type) {
		case VT:
			E.nonNil(st, a.t, typeKey(bt)+"."+fn, x.Pos())
			return VAddr{kind: aField, base: a.t, key: typeKey(bt) + "." + fn, typ: ft}
		case VAddr:
			n := a
			n.key = a.key + "." + fn
			n.typ = ft
			return n
		}
		panic("fieldaddr")
	case *ssa.Index:
		s := op(x.X)
		i := T(op(x.Index))
		switch sv := s.(type) {
		case VT: // string
			E.safety(st, "string index in range", And(Le(Int(0), i), Lt(i, StrLen(sv.t))), x.Pos())
			return VT{ToCode(StrAt(sv.t, i))}
		case VArr:
			if i.op == "int" {
				return sv.e[i.iv]
			}
		}
		E.unsupported("index")
		return E.freshValue(st, "idx", x.Type())
	case *ssa.IndexAddr:
		s := op(x.X)
		i := T(op(x.Index))
		switch sv := s.(type) {
		case VSlice:
			E.safety(st, "slice index in range", And(Le(Int(0), i), Lt(i, sliceLen(E, st, sv))), x.Pos())
			return VAddr{kind: aElem, sl: &sv, idx: i, typ: x.Type().Underlying().(*types.Pointer).Elem()}
		case VAddr:
			if sv.kind == aCell {
				n := int64(len(st.cells[sv.cell].(VArr).e))
				E.safety(st, "array index in range", And(Le(Int(0), i), Lt(i, Int(n))), x.Pos())
				return VAddr{kind: aCell, cell: sv.cell, idx: i, typ: x.Type().Underlying().(*types.Pointer).Elem()}
			}
		}
		E.unsupported("indexaddr")
		return VT{Fresh("addr", SInt)}
	case *ssa.Lookup:
		return E.lookup(fr, st, x)
	case *ssa.MakeMap:
		r := E.newRef(st)
		mt := x.Type().Underlying().(*types.Map)
		E.mapInit(st, r, mt)
		return VT{r}
	case *ssa.MakeChan:
		return VT{E.newRef(st)}
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range x.Bindings {
			bs = append(bs, op(b))
		}
		return VClosure{fn: x.Fn.(*ssa.Function), bind: bs}
	case *ssa.MakeSlice:
		n := T(op(x.Len))
		cp := T(op(x.Cap))
		E.safety(st, "make size in range", And(Le(Int(0), n), Le(n, cp)), x.Pos())
		et := x.Type().Underlying().(*types.Slice).Elem()
		if n.op == "int" && n.iv == 0 {
			z := zeroValue(x.Type()).(VSlice)
			z.nl = False
			return z
		}
		s := E.freshValue(st, "make", x.Type()).(VSlice)
		s.nl, s.own = False, True
		E.assume(st, Eq(sliceLen(E, st, s), n))
		_ = et
		return s
	case *ssa.Slice:
		return E.sliceOp(fr, st, x)
	case *ssa.Range:
		if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
			E.cellCtr++
			st.cells[E.cellCtr] = VT{ConstArr(ArrOf(comps(mt.Key())[0].sort, SBool), False)}
			return VRange{m: T(op(x.X)), mt: mt, id: E.cellCtr}
		}
		E.unsupported("range over string")
		return VRange{isStr: true}
	case *ssa.Next:
		return E.next(st, op(x.Iter).(VRange), x)
	case *ssa.Select:
		E.unsupported("select")
		return E.freshValue(st, "select", x.Type())
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		E.unsupported("conversion")
		return E.freshValue(st, "conv", x.Type())
	}
	panic(fmt.Sprintf("evalValue %T %s", v, v))
}

// publish ties the fields of a freshly built immutable node to its global view.
func (E *Engine) publish(st *State, ref *Term, t types.Type) {
	if !E.isFresh(ref) || E.unfoldFP != nil {
		return
	}
	var eqs []*Term
	for _, c := range comps(t) {
		name := typeKey(t) + c.suffix
		f := Sym("F:"+name, ArrOf(SInt, c.sort))
		eqs = append(eqs, Eq(Select(f, ref), Select(E.hget(st, name, c.sort), ref)))
	}
	if st.published == nil {
		st.published = map[*Term]bool{}
	}
	st.published[ref] = true
	E.assume(st, And(eqs...))
}

func (E *Engine) initObject(st *State, r *Term, et types.Type) {
	z := E.flat(st, et, zeroValue(et))
	for i, c := range comps(et) {
		name := typeKey(et) + c.suffix
		st.heap[name] = Store(E.hget(st, name, c.sort), r, z[i])
	}
}

func (E *Engine) unop(fr *Frame, st *State, x *ssa.UnOp) Value {
	v := E.operand(fr, st, x.X)
	switch x.Op {
	case token.MUL:
		return E.load(st, v, x.Type(), x.Pos())
	case token.NOT:
		return VT{Not(T(v))}
	case token.SUB:
		return VT{Neg(T(v))}
	case token.ARROW:
		return E.recv(fr, st, x, v)
	case token.XOR:
		t := T(v)
		if t.sort == SBV {
			return VT{BVOp("bvxor", t, BV(^uint64(0)))}
		}
	}
	E.unsupported("unop " + x.Op.String())
	return E.freshValue(st, "unop", x.Type())
}

func (E *Engine) eqValue(st *State, t types.Type, a, b Value) *Term {
	switch t.Underlying().(type) {
	case *types.Slice: // only against nil
		x, y := a.(VSlice), b.(VSlice)
		if y.nl == True {
			return x.nl
		}
		return y.nl
	}
	x, y := E.flat(st, t, a), E.flat(st, t, b)
	var cs []*Term
	for i := range x {
		cs = append(cs, Eq(x[i], y[i]))
	}
	return And(cs...)
}

func (E *Engine) binop(fr *Frame, st *State, x *ssa.BinOp) Value {
	a, b := E.operand(fr, st, x.X), E.operand(fr, st, x.Y)
	switch x.Op {
	case token.EQL:
		return VT{E.eqValue(st, x.X.Type(), a, b)}
	case token.NEQ:
		return VT{Not(E.eqValue(st, x.X.Type(), a, b))}
	}
	p, q := T(a), T(b)
	if p.sort == SStr {
		switch x.Op {
		case token.ADD:
			return VT{Concat(p, q)}
		case token.LSS:
			return VT{mk("str.<", SBool, p, q)}
		case token.GTR:
			return VT{mk("str.<", SBool, q, p)}
		case token.LEQ:
			return VT{mk("str.<=", SBool, p, q)}
		case token.GEQ:
			return VT{mk("str.<=", SBool, q, p)}
		}
	}
	if p.sort == SBV {
		switch x.Op {
		case token.AND:
			return VT{BVOp("bvand", p, q)}
		case token.OR:
			return VT{BVOp("bvor", p, q)}
		case token.XOR:
			return VT{BVOp("bvxor", p, q)}
		case token.AND_NOT:
			return VT{BVOp("bvand", p, BVOp("bvxor", q, BV(^uint64(0))))}
		case token.ADD:
			return VT{BVOp("bvadd", p, q)}
		case token.SUB:
			return VT{BVOp("bvsub", p, q)}
		case token.LSS:
			return VT{BVUlt(p, q)}
		case token.GTR:
			return VT{BVUlt(q, p)}
		case token.LEQ:
			return VT{Not(BVUlt(q, p))}
		case token.GEQ:
			return VT{Not(BVUlt(p, q))}
		}
	}
	if p.sort == SInt && q.sort == SInt {
		switch x.Op {
		case token.ADD:
			return VT{Add(p, q)}
		case token.SUB:
			return VT{Sub(p, q)}
		case token.MUL:
			if p.op == "int" && q.op == "int" {
				return VT{Int(p.iv * q.iv)}
			}
			return VT{mk("*", SInt, p, q)}
		case token.QUO:
			if p.op == "int" && q.op == "int" && q.iv != 0 {
				return VT{Int(p.iv / q.iv)}
			}
			if q.op == "int" && q.iv > 0 && nonneg(p) {
				return VT{mk("div", SInt, p, q)}
			}
			if q.op != "int" {
				E.safety(st, "division by zero", Not(Eq(q, Int(0))), x.Pos())
			}
			return VT{App("goquo", SInt, p, q)}
		case token.REM:
			if p.op == "int" && q.op == "int" && q.iv != 0 {
				return VT{Int(p.iv % q.iv)}
			}
			if q.op == "int" && q.iv > 0 && nonneg(p) {
				return VT{mk("mod", SInt, p, q)}
			}
			if q.op != "int" {
				E.safety(st, "division by zero", Not(Eq(q, Int(0))), x.Pos())
			}
			return VT{App("gorem", SInt, p, q)}
		case token.LSS:
			return VT{Lt(p, q)}
		case token.LEQ:
			return VT{Le(p, q)}
		case token.GTR:
			return VT{Lt(q, p)}
		case token.GEQ:
			return VT{Le(q, p)}
		case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
			if p.op == "int" && q.op == "int" {
				switch x.Op {
				case token.AND:
					return VT{Int(p.iv & q.iv)}
				case token.OR:
					return VT{Int(p.iv | q.iv)}
				case token.XOR:
					return VT{Int(p.iv ^ q.iv)}
				case token.AND_NOT:
					return VT{Int(p.iv &^ q.iv)}
				case token.SHL:
					return VT{Int(p.iv << uint(q.iv))}
				case token.SHR:
					return VT{Int(p.iv >> uint(q.iv))}
				}
			}
			return VT{App("int"+x.Op.String(), SInt, p, q)}
		}
	}
	E.unsupported("binop " + x.Op.String())
	return E.freshValue(st, "binop", x.Type())
}

func (E *Engine) convert(st *State, v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		switch {
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return v
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			c := T(v)
			return VT{App("runestr", SStr, c)}
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			t := T(v)
			if (fb.Kind() == types.Uint64) == (tb.Kind() == types.Uint64) {
				switch tb.Kind() {
				case types.Uint8, types.Uint16, types.Uint32:
					if fb.Kind() != tb.Kind() && t.op != "int" {
						r := App("trunc:"+tb.Name(), SInt, t)
						m := map[types.BasicKind]int64{types.Uint8: 256, types.Uint16: 65536, types.Uint32: 1 << 32}[tb.Kind()]
						E.assume(st, Implies(And(Le(Int(0), t), Lt(t, Int(m))), Eq(r, t)))
						return VT{r}
					}
				}
				return v
			}
			if t.op == "int" && tb.Kind() == types.Uint64 {
				return VT{BV(uint64(t.iv))}
			}
			if t.op == "bv" {
				return VT{Int(int64(t.bv))}
			}
			if tb.Kind() == types.Uint64 {
				return VT{App("int2bv", SBV, t)}
			}
			return VT{App("bv2int", SInt, t)}
		}
		E.unsupported("conversion " + typeKey(from) + " to " + typeKey(to))
		return E.freshValue(st, "conv", to)
	}
	if sl, ok := tu.(*types.Slice); ok && fok && isByte(sl.Elem()) {
		return VSlice{seq: T(v), nl: False, own: True, et: sl.Elem()}
	}
	if _, ok := fu.(*types.Slice); ok && tok {
		s := E.force(st, v.(VSlice))
		if s.seq.sort == SStr {
			return VT{s.seq}
		}
	}
	if len(comps(from)) == len(comps(to)) {
		return v
	}
	E.unsupported("conversion " + typeKey(from) + " to " + typeKey(to))
	return E.freshValue(st, "conv", to)
}

func (E *Engine) typeAssert(st *State, v Value, x *ssa.TypeAssert) Value {
	var ok *Term
	var val Value
	iface, isI := x.AssertedType.Underlying().(*types.Interface)
	switch y := v.(type) {
	case VIface:
		if isI {
			ok = Bool(types.Implements(y.typ, iface))
			val = v
		} else if types.Identical(y.typ, x.AssertedType) {
			ok, val = True, y.val
		} else {
			ok, val = False, zeroValue(x.AssertedType)
		}
	default:
		t := T(v)
		if kt := E.knownType[t]; kt != nil && !isI {
			if types.Identical(kt, x.AssertedType) {
				ok, val = True, VT{t}
			} else {
				ok, val = False, zeroValue(x.AssertedType)
			}
			break
		}
		if isI {
			ok = And(Not(Eq(t, Int(0))), App("implements:"+typeKey(x.AssertedType), SBool, App("typeof", SInt, t)))
			val = v
		} else {
			ok = And(Not(Eq(t, Int(0))), Eq(App("typeof", SInt, t), Int(int64(E.P.typeID(x.AssertedType)))))
			switch x.AssertedType.Underlying().(type) {
			case *types.Pointer:
				val = VT{t}
			default:
				var ts []*Term
				for _, c := range comps(x.AssertedType) {
					ts = append(ts, App("iunbox:"+typeKey(x.AssertedType)+c.suffix, c.sort, t))
				}
				val = fromTerms(x.AssertedType, ts)
			}
		}
	}
	if x.CommaOk {
		val = iteValue(E, st, x.AssertedType, ok, val, zeroValue(x.AssertedType))
		return VTuple{val, VT{ok}}
	}
	E.safety(st, "type assertion", ok, x.Pos())
	return val
}

func (E *Engine) sliceOp(fr *Frame, st *State, x *ssa.Slice) Value {
	v := E.operand(fr, st, x.X)
	get := func(y ssa.Value) *Term {
		if y == nil {
			return nil
		}
		return T(E.operand(fr, st, y))
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = Int(0)
	}
	switch s := v.(type) {
	case VT: // string
		n := StrLen(s.t)
		if hi == nil {
			hi = n
		}
		E.safety(st, "string slice in range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, n)), x.Pos())
		return VT{Substr(s.t, lo, Sub(hi, lo))}
	case VAddr: // array
		if s.kind == aCell {
			arr := st.cells[s.cell].(VArr)
			et := s.typ.Underlying().(*types.Array).Elem()
			if hi == nil {
				hi = Int(int64(len(arr.e)))
			}
			if lo.op == "int" && hi.op == "int" {
				return VSlice{elems: arr.e[lo.iv:hi.iv], nl: False, own: True, et: et}
			}
		}
	case VSlice:
		n := sliceLen(E, st, s)
		full := hi == nil
		if hi == nil {
			hi = n
		}
		// we only allow re-slicing within the length
		E.safety(st, "slice bounds in range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, n)), x.Pos())
		own := False
		if full {
			own = s.own
		}
		if mx != nil {
			E.safety(st, "slice max in range", And(Le(hi, mx), Or(Le(mx, n), False)), x.Pos())
			own = Or(s.own, Eq(mx, hi))
		}
		if s.seq == nil && lo.op == "int" && hi.op == "int" {
			return VSlice{elems: s.elems[lo.iv:hi.iv], nl: s.nl, own: own, et: s.et}
		}
		s = E.force(st, s)
		if s.seq.sort == SStr {
			return VSlice{seq: Substr(s.seq, lo, Sub(hi, lo)), nl: s.nl, own: own, et: s.et}
		}
		if full {
			return VSlice{seq: SeqTail(s.seq, lo), nl: s.nl, own: own, et: s.et}
		}
		return VSlice{seq: SeqExtract(s.seq, lo, Sub(hi, lo)), nl: s.nl, own: own, et: s.et}
	}
	E.unsupported("slice expression")
	return E.freshValue(st, "slice", x.Type())
}

// ---- maps

func mapKey(mt *types.Map) string { return "M:" + typeKey(mt) }

func (E *Engine) mapInit(st *State, r *Term, mt *types.Map) {
	ks := comps(mt.Key())[0].sort
	dn := mapKey(mt) + ".dom"
	st.heap[dn] = Store(E.hget(st, dn, ArrOf(ks, SBool)), r, ConstArr(ArrOf(ks, SBool), False))
	ln := mapKey(mt) + ".len"
	st.heap[ln] = Store(E.hget(st, ln, SInt), r, Int(0))
}

// mapGet reads entry k: presence and value (zero value if absent).
func (E *Engine) mapGet(st *State, m *Term, mt *types.Map, k *Term) (*Term, Value) {
	if m.op == "ite" {
		p1, v1 := E.mapGet(st, m.args[1], mt, k)
		p2, v2 := E.mapGet(st, m.args[2], mt, k)
		return Ite(m.args[0], p1, p2), iteValue(E, st, mt.Elem(), m.args[0], v1, v2)
	}
	if m.op == "int" {
		if tab, ok := E.P.constTabs[m.iv]; ok {
			return E.tabGet(st, tab, mt, k)
		}
		if m.iv == 0 {
			return False, zeroValue(mt.Elem())
		}
	}
	ks := comps(mt.Key())[0].sort
	dom := Select(E.hget(st, mapKey(mt)+".dom", ArrOf(ks, SBool)), m)
	pres := And(Not(Eq(m, Int(0))), Select(dom, k))
	var ts []*Term
	for _, c := range comps(mt.Elem()) {
		arr := Select(E.hget(st, mapKey(mt)+".val"+c.suffix, ArrOf(ks, c.sort)), m)
		ts = append(ts, Select(arr, k))
	}
	v := fromTerms(mt.Elem(), ts)
	E.wellTyped(st, mt.Elem(), ts)
	v = iteValue(E, st, mt.Elem(), pres, v, zeroValue(mt.Elem()))
	// constant tables reachable through an unknown reference
	for ref, tab := range E.P.constTabs {
		if types.Identical(tab.typ, mt) && !E.isFresh(m) && E.P.tabEscapes(mt) {
			p2, v2 := E.tabGet(st, tab, mt, k)
			c := Eq(m, Int(ref))
			pres = Ite(c, p2, pres)
			v = iteValue(E, st, mt.Elem(), c, v2, v)
		}
	}
	return pres, v
}

func (E *Engine) tabGet(st *State, tab *constTab, mt *types.Map, k *Term) (*Term, Value) {
	pres := False
	val := zeroValue(mt.Elem())
	tab.sort()
	if tab.ok && len(tab.keys) > 20 && k.op != tab.keys[0].op && len(comps(mt.Elem())) == 1 && comps(mt.Elem())[0].sort == SInt && E.tabs == nil && !(E.contract != nil && E.contract.fullTab) {
		// a large table: a function of the key, named by the contents
		h := sha1.New()
		lo, hi := int64(0), int64(0)
		for i, key := range tab.keys {
			v := T(tab.vals[i])
			if v.op != "int" {
				h = nil
				break
			}
			fmt.Fprintf(h, "%q %d %d\n", key.sv, key.iv, v.iv)
			if i == 0 || v.iv < lo {
				lo = v.iv
			}
			if i == 0 || v.iv > hi {
				hi = v.iv
			}
		}
		if h != nil && (lo > 0 || hi < 0) {
			x := App(fmt.Sprintf("tab:%x", h.Sum(nil)[:6]), SInt, k)
			E.assume(st, Or(Eq(x, Int(0)), And(Le(Int(lo), x), Le(x, Int(hi)))))
			return Not(Eq(x, Int(0))), VT{x}
		}
	}
	for i := len(tab.keys) - 1; i >= 0; i-- {
		c := Eq(k, tab.keys[i])
		pres = Ite(c, True, pres)
		val = iteValue(E, st, mt.Elem(), c, tab.vals[i], val)
	}
	return pres, val
}

// sort brings the (constant, distinct) keys into an order of their own, so that equal tables give equal terms.
func (tab *constTab) sort() {
	if tab.sorted {
		return
	}
	tab.sorted = true
	var idx []int
	seen := map[*Term]bool{}
	for i, k := range tab.keys {
		if (k.op != "int" && k.op != "str") || seen[k] {
			return
		}
		seen[k] = true
		idx = append(idx, i)
	}
	sort.SliceStable(idx, func(a, b int) bool {
		x, y := tab.keys[idx[a]], tab.keys[idx[b]]
		if x.op == "int" {
			return x.iv < y.iv
		}
		return x.sv < y.sv
	})
	ks, vs := tab.keys, tab.vals
	tab.keys, tab.vals = nil, nil
	tab.ok = true
	for _, i := range idx {
		tab.keys = append(tab.keys, ks[i])
		tab.vals = append(tab.vals, vs[i])
	}
}

func (E *Engine) lookup(fr *Frame, st *State, x *ssa.Lookup) Value {
	mv := E.operand(fr, st, x.X)
	kv := E.operand(fr, st, x.Index)
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok { // string
		s, i := T(mv), T(kv)
		E.safety(st, "string index in range", And(Le(Int(0), i), Lt(i, StrLen(s))), x.Pos())
		return VT{ToCode(StrAt(s, i))}
	}
	kts := E.flat(st, mt.Key(), kv)
	E.guard(st, T(mv), mapKey(mt))
	pres, v := E.mapGet(st, T(mv), mt, kts[0])
	E.mapInvOnRead(st, T(mv), mt, kts[0], pres, v)
	if x.CommaOk {
		return VTuple{v, VT{pres}}
	}
	return v
}

func (E *Engine) mapUpdate(st *State, mv Value, mt *types.Map, kv, vv Value, pos token.Pos) {
	m := T(mv)
	E.guard(st, m, mapKey(mt))
	if !E.isFresh(m) {
		E.safety(st, "write to nil map", Not(Eq(m, Int(0))), pos)
	}
	if E.P.tabEscapes(mt) && !E.isFresh(m) {
		for ref, tab := range E.P.constTabs {
			if types.Identical(tab.typ, mt) {
				E.oblige(st, "frame", "write to constant table "+tab.name, Not(Eq(m, Int(ref))), nil, pos)
			}
		}
	}
	k := E.flat(st, mt.Key(), kv)[0]
	if E.tabs != nil && m.op == "int" {
		tab := E.tabs[m.iv]
		if tab == nil {
			tab = &constTab{typ: mt}
			E.tabs[m.iv] = tab
		}
		tab.sorted = false
		tab.keys = append(tab.keys, k)
		tab.vals = append(tab.vals, vv)
	}
	E.mapInvOnWrite(st, m, mt, k, vv)
	ks := k.sort
	dn := mapKey(mt) + ".dom"
	D := E.hget(st, dn, ArrOf(ks, SBool))
	old := Select(Select(D, m), k)
	ln := mapKey(mt) + ".len"
	L := E.hget(st, ln, SInt)
	if old != False && old != True {
		E.assume(st, And(Le(Int(0), Select(L, m)), Implies(old, Lt(Int(0), Select(L, m)))))
	}
	st.heap[ln] = Store(L, m, Ite(old, Select(L, m), Add(Select(L, m), Int(1))))
	st.heap[dn] = Store(D, m, Store(Select(D, m), k, True))
	ts := E.flat(st, mt.Elem(), vv)
	for i, c := range comps(mt.Elem()) {
		vn := mapKey(mt) + ".val" + c.suffix
		V := E.hget(st, vn, ArrOf(ks, c.sort))
		st.heap[vn] = Store(V, m, Store(Select(V, m), k, ts[i]))
	}
}

func (E *Engine) mapDelete(st *State, mv Value, mt *types.Map, kv Value) {
	m := T(mv)
	k := E.flat(st, mt.Key(), kv)[0]
	dn := mapKey(mt) + ".dom"
	D := E.hget(st, dn, ArrOf(k.sort, SBool))
	ln := mapKey(mt) + ".len"
	L := E.hget(st, ln, SInt)
	old := Select(Select(D, m), k)
	st.heap[ln] = Store(L, m, Ite(old, Sub(Select(L, m), Int(1)), Select(L, m)))
	st.heap[dn] = Store(D, m, Store(Select(D, m), k, False))
}

func (E *Engine) mapLen(st *State, m *Term, mt *types.Map) *Term {
	n := Select(E.hget(st, mapKey(mt)+".len", SInt), m)
	r := Ite(Eq(m, Int(0)), Int(0), n)
	E.assume(st, Le(Int(0), n))
	// len == 0 exactly when no key is present, instantiated at the ghost keys
	ks := comps(mt.Key())[0].sort
	dom := Select(E.hget(st, mapKey(mt)+".dom", ArrOf(ks, SBool)), m)
	for _, g := range E.ghosts {
		if types.Identical(g.typ, mt.Key()) {
			E.assume(st, Implies(Eq(n, Int(0)), Not(Select(dom, T(g.val)))))
		}
	}
	// a nonempty map has some key
	w := App("somekey", ks, dom)
	E.assume(st, Implies(Lt(Int(0), n), Select(dom, w)))
	E.assume(st, Implies(Eq(n, Int(0)), Not(Select(dom, w))))
	return r
}

func (E *Engine) next(st *State, r VRange, x *ssa.Next) Value {
	tt := x.Type().(*types.Tuple)
	if r.isStr {
		return E.freshValue(st, "next", tt)
	}
	kt := r.mt.Key()
	ks := comps(kt)[0].sort
	visited := T(st.cells[r.id])
	ok := Fresh("rangeok", SBool)
	k := Fresh("rangekey", ks)
	pres, v := E.mapGet(st, r.m, r.mt, k)
	E.assume(st, Implies(ok, And(pres, Not(Select(visited, k)))))
	E.mapInvOnRead(st, r.m, r.mt, k, And(ok, pres), v)
	for _, g := range E.ghosts {
		if types.Identical(g.typ, kt) {
			p, _ := E.mapGet(st, r.m, r.mt, T(g.val))
			E.assume(st, Implies(Not(ok), Implies(p, Select(visited, T(g.val)))))
		}
	}
	st.cells[r.id] = VT{Ite(ok, Store(visited, k, True), visited)}
	kv := fromTerms(kt, []*Term{k})
	var vv Value = v
	if b, isB := tt.At(2).Type().(*types.Basic); isB && b.Kind() == types.Invalid {
		vv = VT{Int(0)}
	}
	if b, isB := tt.At(1).Type().(*types.Basic); isB && b.Kind() == types.Invalid {
		kv = VT{Int(0)}
	}
	return VTuple{VT{ok}, kv, vv}
}
