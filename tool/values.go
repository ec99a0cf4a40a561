package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic Go value.
type Value interface{}

// VT is a value that is one SMT term (bool, int, string, pointer, map, chan, interface, func).
type VT struct{ t *Term }

// VSlice is a slice. Byte slices have seq of sort String, others (Seq elem).
// own is ghost: nobody else can see the spare capacity of the backing array.
type VSlice struct {
	seq, nl, own *Term
	elems        []Value // known elements (varargs), seq may be nil then
	et           types.Type
}
type VStruct struct {
	typ types.Type
	f   []Value
}
type VTuple []Value

// VIface is an interface value whose dynamic value is known.
type VIface struct {
	typ types.Type
	val Value
}
type VClosure struct {
	fn   *ssa.Function
	bind []Value
}
type VArr struct{ e []Value }

const (
	aField = iota
	aGlobal
	aCell
	aElem
)

// VAddr is an address that is not simply a reference.
type VAddr struct {
	kind int
	base *Term  // aField
	key  string // aField: heap map prefix; aGlobal: name
	typ  types.Type
	cell int // aCell
	idx  *Term
	sl   *VSlice
}

// VRange is a map or string iterator.
type VRange struct {
	m     *Term
	mt    *types.Map
	id    int
	isStr bool
}

func T(v Value) *Term {
	switch x := v.(type) {
	case VT:
		return x.t
	}
	panic(fmt.Sprintf("not a scalar: %T %v", v, v))
}

// ---- types

func typeKey(t types.Type) string {
	switch x := t.(type) {
	case *types.Alias:
		return typeKey(types.Unalias(t))
	case *types.Named:
		o := x.Obj()
		if o.Pkg() == nil || o.Pkg().Name() == "main" {
			return o.Name()
		}
		return o.Pkg().Name() + "." + o.Name()
	case *types.Pointer:
		return "*" + typeKey(x.Elem())
	case *types.Slice:
		return "[]" + typeKey(x.Elem())
	case *types.Map:
		return "map[" + typeKey(x.Key()) + "]" + typeKey(x.Elem())
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

// opaqueStructs are external struct types held as a single Int.
var opaqueStructs = map[string]bool{
	"time.Time": true, "sync.Mutex": true, "sync.RWMutex": true, "bytes.Buffer": true, "bufio.Writer": true,
	"bufio.Reader": true, "expvar.Int": true, "expvar.Map": true, "expvar.String": true, "sync.Once": true,
	"reflect.Value": true, "tls.Certificate": true, "strings.Builder": true,
}

// usedFields limits external struct types to the fields the program mentions.
var usedFields = map[string]map[int]bool{}

func structFields(t types.Type) []int {
	s := t.Underlying().(*types.Struct)
	n, ok := t.(*types.Named)
	ext := ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() != "main"
	var out []int
	for i := 0; i < s.NumFields(); i++ {
		if ext && !usedFields[typeKey(t)][i] {
			continue
		}
		out = append(out, i)
	}
	return out
}

func isOpaque(t types.Type) bool { return opaqueStructs[typeKey(t)] }

// comp is one SMT component of a Go type.
type comp struct {
	suffix string
	sort   Sort
}

func elemSort(et types.Type) Sort {
	c := comps(et)
	if len(c) == 1 {
		return c[0].sort
	}
	return SInt
}

var compCache = map[types.Type][]comp{}

func comps(t types.Type) []comp {
	if c, ok := compCache[t]; ok {
		return c
	}
	c := comps1(t)
	compCache[t] = c
	return c
}
func comps1(t types.Type) []comp {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []comp{{"", SBool}}
		case u.Info()&types.IsString != 0:
			return []comp{{"", SStr}}
		case u.Kind() == types.Uint64:
			return []comp{{"", SBV}}
		default:
			return []comp{{"", SInt}}
		}
	case *types.Slice:
		if isByte(u.Elem()) {
			return []comp{{"", SStr}, {".nil", SBool}}
		}
		return []comp{{"", SeqOf(elemSort(u.Elem()))}, {".nil", SBool}}
	case *types.Struct:
		if isOpaque(t) {
			return []comp{{"", SInt}}
		}
		var out []comp
		for _, i := range structFields(t) {
			for _, c := range comps(u.Field(i).Type()) {
				out = append(out, comp{"." + u.Field(i).Name() + c.suffix, c.sort})
			}
		}
		return out
	case *types.Array:
		var out []comp
		for i := int64(0); i < u.Len(); i++ {
			for _, c := range comps(u.Elem()) {
				out = append(out, comp{fmt.Sprintf("[%d]%s", i, c.suffix), c.sort})
			}
		}
		return out
	case *types.Tuple:
		var out []comp
		for i := 0; i < u.Len(); i++ {
			for _, c := range comps(u.At(i).Type()) {
				out = append(out, comp{fmt.Sprintf("#%d%s", i, c.suffix), c.sort})
			}
		}
		return out
	}
	return []comp{{"", SInt}}
}

// fromTerms rebuilds a value of type t from its components.
func fromTerms(t types.Type, ts []*Term) Value {
	v, rest := fromTerms1(t, ts)
	if len(rest) != 0 {
		panic("fromTerms: leftover")
	}
	return v
}
func fromTerms1(t types.Type, ts []*Term) (Value, []*Term) {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return VSlice{seq: ts[0], nl: ts[1], own: False, et: u.Elem()}, ts[2:]
	case *types.Struct:
		if isOpaque(t) {
			return VT{ts[0]}, ts[1:]
		}
		s := VStruct{typ: t, f: make([]Value, u.NumFields())}
		for _, i := range structFields(t) {
			s.f[i], ts = fromTerms1(u.Field(i).Type(), ts)
		}
		return s, ts
	case *types.Tuple:
		var tu VTuple
		for i := 0; i < u.Len(); i++ {
			var v Value
			v, ts = fromTerms1(u.At(i).Type(), ts)
			tu = append(tu, v)
		}
		return tu, ts
	case *types.Array:
		var a VArr
		for i := int64(0); i < u.Len(); i++ {
			var v Value
			v, ts = fromTerms1(u.Elem(), ts)
			a.e = append(a.e, v)
		}
		return a, ts
	}
	return VT{ts[0]}, ts[1:]
}

func zeroTerm(s Sort) *Term {
	switch {
	case s == SBool:
		return False
	case s == SInt:
		return Int(0)
	case s == SStr:
		return Str("")
	case s == SBV:
		return BV(0)
	case s.isSeq():
		return SeqEmpty(s)
	case s.isArr():
		_, v := s.arrKV()
		return ConstArr(s, zeroTerm(v))
	}
	panic("zero of " + string(s))
}

func zeroValue(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return VSlice{seq: zeroTerm(comps(t)[0].sort), nl: True, own: True, et: u.Elem()}
	case *types.Struct:
		if isOpaque(t) {
			return VT{Int(0)}
		}
		s := VStruct{typ: t, f: make([]Value, u.NumFields())}
		for _, i := range structFields(t) {
			s.f[i] = zeroValue(u.Field(i).Type())
		}
		return s
	case *types.Array:
		var a VArr
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, zeroValue(u.Elem()))
		}
		return a
	case *types.Tuple:
		var tu VTuple
		for i := 0; i < u.Len(); i++ {
			tu = append(tu, zeroValue(u.At(i).Type()))
		}
		return tu
	}
	return VT{zeroTerm(comps(t)[0].sort)}
}
