package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Sort is an SMT sort, as its SMT-LIB text.
type Sort string

const (
	SBool Sort = "Bool"
	SInt  Sort = "Int"
	SStr  Sort = "String"
	SBV   Sort = "(_ BitVec 64)"
)

func SeqOf(s Sort) Sort      { return Sort("(Seq " + string(s) + ")") }
func ArrOf(k, v Sort) Sort   { return Sort("(Array " + string(k) + " " + string(v) + ")") }
func (s Sort) isSeq() bool   { return strings.HasPrefix(string(s), "(Seq ") }
func (s Sort) isArr() bool   { return strings.HasPrefix(string(s), "(Array ") }
func (s Sort) seqElem() Sort { return s[5 : len(s)-1] }

// arrKV splits an array sort.
func (s Sort) arrKV() (Sort, Sort) {
	body := string(s[7 : len(s)-1])
	d := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(body[:i]), Sort(body[i+1:])
			}
		}
	}
	panic("bad array sort " + string(s))
}

// Term is a hash-consed SMT term.
type Term struct {
	id   int
	op   string // "sym", "int", "str", "bv", "true", "false", "app" or an SMT operator
	args []*Term
	sort Sort
	name string // sym / app name
	iv   int64
	bv   uint64
	sv   string
}

var termTab = map[string]*Term{}
var termCount int

func intern(t Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte(0)
	switch t.op {
	case "sym", "app":
		b.WriteString(t.name)
		b.WriteByte(0)
		b.WriteString(string(t.sort))
	case "int":
		b.WriteString(strconv.FormatInt(t.iv, 10))
	case "bv":
		b.WriteString(strconv.FormatUint(t.bv, 10))
	case "str":
		b.WriteString(t.sv)
	case "as", "constarr":
		b.WriteString(string(t.sort))
	}
	for _, a := range t.args {
		b.WriteByte(1)
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	termCount++
	t.id = termCount
	x := &t
	termTab[k] = x
	return x
}

var True = intern(Term{op: "true", sort: SBool})
var False = intern(Term{op: "false", sort: SBool})

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func Int(i int64) *Term          { return intern(Term{op: "int", sort: SInt, iv: i}) }
func BV(u uint64) *Term          { return intern(Term{op: "bv", sort: SBV, bv: u}) }
func Str(s string) *Term         { return intern(Term{op: "str", sort: SStr, sv: s}) }
func Sym(n string, s Sort) *Term { return intern(Term{op: "sym", name: n, sort: s}) }
func App(n string, s Sort, args ...*Term) *Term {
	if n == "x:strings.TrimSpace" && args[0].op == "app" && args[0].name == n {
		return args[0]
	}
	return intern(Term{op: "app", name: n, sort: s, args: args})
}

var symCtr = map[string]int{}

// Fresh makes a fresh symbol with a readable prefix.
func Fresh(p string, s Sort) *Term {
	symCtr[p]++
	return Sym(fmt.Sprintf("%s!%d", p, symCtr[p]), s)
}

func (t *Term) isConst() bool {
	switch t.op {
	case "int", "str", "bv", "true", "false":
		return true
	}
	return false
}

func mk(op string, s Sort, args ...*Term) *Term { return intern(Term{op: op, sort: s, args: args}) }

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == "not":
		return a.args[0]
	}
	return mk("not", SBool, a)
}

func lits(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	if t == True {
		return nil
	}
	return []*Term{t}
}

func And(ts ...*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, t := range ts {
		for _, l := range lits(t) {
			if l == False {
				return False
			}
			if l == True || seen[l] {
				continue
			}
			if seen[Not(l)] {
				return False
			}
			seen[l] = true
			out = append(out, l)
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk("and", SBool, out...)
}

func Or(ts ...*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var flat []*Term
	for _, t := range ts {
		if t.op == "or" {
			flat = append(flat, t.args...)
		} else {
			flat = append(flat, t)
		}
	}
	for _, t := range flat {
		if t == True {
			return True
		}
		if t == False || seen[t] {
			continue
		}
		if seen[Not(t)] {
			return True
		}
		seen[t] = true
		out = append(out, t)
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	// factor common literals, and resolve g&c | g&!c
	common := map[*Term]bool{}
	for _, l := range lits(out[0]) {
		common[l] = true
	}
	for _, t := range out[1:] {
		m := map[*Term]bool{}
		for _, l := range lits(t) {
			if common[l] {
				m[l] = true
			}
		}
		common = m
	}
	if len(common) > 0 {
		var rest, com []*Term
		for _, t := range out {
			var r []*Term
			for _, l := range lits(t) {
				if !common[l] {
					r = append(r, l)
				}
			}
			rest = append(rest, And(r...))
		}
		for l := range common {
			com = append(com, l)
		}
		return And(append(com, Or(rest...))...)
	}
	// absorb: a | (!a & b)  ->  a | b
	for i, t := range out {
		ls := lits(t)
		if t.op == "not" && t.args[0].op == "or" {
			ls = nil
			for _, x := range t.args[0].args {
				ls = append(ls, Not(x))
			}
		}
		if len(ls) < 2 {
			continue
		}
		var keep []*Term
		drop := false
		for _, l := range ls {
			if seen[Not(l)] {
				drop = true
				continue
			}
			keep = append(keep, l)
		}
		if drop {
			n := append([]*Term{}, out[:i]...)
			n = append(n, out[i+1:]...)
			return Or(append(n, And(keep...))...)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return mk("or", SBool, out...)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
		if c == a {
			return Or(c, b)
		}
		if c == b {
			return And(c, a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.op == "ite" {
		if nc := assuming(a.args[0], c); nc != a.args[0] {
			return Ite(c, Ite(nc, a.args[1], a.args[2]), b)
		}
	}
	if b.op == "ite" {
		if nc := assuming(b.args[0], Not(c)); nc != b.args[0] {
			return Ite(c, a, Ite(nc, b.args[1], b.args[2]))
		}
	}
	if b.op == "ite" && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if b.op == "ite" && b.args[2] == a {
		return Ite(Or(c, Not(b.args[0])), a, b.args[1])
	}
	if a.op == "ite" && a.args[1] == b {
		return Ite(And(c, Not(a.args[0])), a.args[2], b)
	}
	if a.op == "ite" && a.args[2] == b {
		return Ite(And(c, a.args[0]), a.args[1], b)
	}
	if a.sort == SStr && (a.op == "str.++" || b.op == "str.++") {
		pre, x, y := commonPrefix(catArgs(a), catArgs(b))
		suf, x, y := commonSuffix(x, y)
		if len(pre) > 0 || len(suf) > 0 {
			return Concat(append(append(pre, Ite(c, Concat(x...), Concat(y...))), suf...)...)
		}
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s: %s / %s", a.sort, b.sort, a, b))
	}
	return mk("ite", a.sort, c, a, b)
}

// distinctRefs reports that two Int terms are certainly different.
func addParts(t *Term) (*Term, int64) {
	if t.op == "int" {
		return nil, t.iv
	}
	if t.op == "+" && len(t.args) == 2 && t.args[1].op == "int" {
		return t.args[0], t.args[1].iv
	}
	return t, 0
}
func distinct(a, b *Term) bool {
	if a.isConst() && b.isConst() {
		return a != b
	}
	if a.sort == SInt {
		x, i := addParts(a)
		y, j := addParts(b)
		if x == y {
			return i != j
		}
		// fresh allocation counters are positive and above every older ref
		if ra, rb := allocRank(x), allocRank(y); ra > 0 || rb > 0 {
			if y == nil && ra > 0 && i > 0 && j <= 1000 {
				return true
			}
			if ra > 0 && i > 0 && isOldRef(b) || rb > 0 && j > 0 && isOldRef(a) {
				return true
			}
			if x == nil && rb > 0 && j > 0 && i <= 1000 {
				return true
			}
		}
	}
	return false
}

// isOldSeq: a slice of references that existed on entry.
func isOldSeq(t *Term) bool {
	for t.op == "seq.extract" {
		t = t.args[0]
	}
	return isOldRef(t)
}

// isOldRef: a reference that existed on entry (a parameter, or read from the initial heap).
func isOldRef(t *Term) bool {
	switch t.op {
	case "sym":
		return strings.HasPrefix(t.name, "p:") || strings.HasPrefix(t.name, "G:")
	case "seq.nth":
		return isOldSeq(t.args[0])
	case "select":
		if a := t.args[0]; a.op == "sym" && strings.HasPrefix(a.name, "F:") {
			// (only of list elements: of little use elsewhere, and it slows the solvers down)
			return t.args[1].op != "sym" && isOldRef(t.args[1])
		} else if a.op == "sym" && strings.HasPrefix(a.name, "H:") {
			return isOldRef(t.args[1]) || t.args[1].isConst()
		}
	}
	return false
}

var allocSyms = map[*Term]int{}

func allocRank(t *Term) int {
	if t == nil {
		return 0
	}
	return allocSyms[t]
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", a.sort, b.sort, a, b))
	}
	if distinct(a, b) {
		return False
	}
	if a.isConst() && !b.isConst() {
		a, b = b, a
	}
	if a.sort == SBool {
		if b == True {
			return a
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
	}
	// byte tests: (str.to_code (str.at s i)) = c
	if a.op == "str.to_code" && b.op == "int" {
		if b.iv < 0 || b.iv > 255 {
			return False
		}
		return Eq(a.args[0], Str(string([]byte{byte(b.iv)})))
	}
	if b.isConst() && a.op == "ite" {
		x, y := a.args[1], a.args[2]
		if x.isConst() || y.isConst() || deepConstIte(a, 80) {
			return Ite(a.args[0], Eq(x, b), Eq(y, b))
		}
	}
	if b.op == "str" && a.op == "str.++" {
		// strip constant prefix / suffix
		f := a.args[0]
		if f.op == "str" {
			if !strings.HasPrefix(b.sv, f.sv) {
				return False
			}
			return Eq(Concat(a.args[1:]...), Str(b.sv[len(f.sv):]))
		}
		l := a.args[len(a.args)-1]
		if l.op == "str" {
			if !strings.HasSuffix(b.sv, l.sv) {
				return False
			}
			return Eq(Concat(a.args[:len(a.args)-1]...), Str(b.sv[:len(b.sv)-len(l.sv)]))
		}
		if b.sv == "" {
			var cs []*Term
			for _, x := range a.args {
				cs = append(cs, Eq(x, b))
			}
			return And(cs...)
		}
	}
	if a.sort == SStr && (a.op == "str.++" || b.op == "str.++") && !b.isConst() {
		// strip common prefix and suffix terms
		pre, x, y := commonPrefix(catArgs(a), catArgs(b))
		suf, x, y := commonSuffix(x, y)
		if len(pre) > 0 || len(suf) > 0 {
			return Eq(Concat(x...), Concat(y...))
		}
		if len(x) > 0 && len(y) > 0 && (x[0].op == "str" && y[0].op == "str" || x[len(x)-1].op == "str" && y[len(y)-1].op == "str") {
			return False // different constants at the same end
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return mk("=", SBool, a, b)
}

func deepConstIte(t *Term, n int) bool {
	if n == 0 {
		return false
	}
	if t.isConst() {
		return true
	}
	if t.op == "ite" {
		return deepConstIte(t.args[1], n-1) && deepConstIte(t.args[2], n-1)
	}
	return false
}

func Add(a, b *Term) *Term {
	if a.op == "int" {
		a, b = b, a
	}
	if a.op == "int" && b.op == "int" {
		return Int(a.iv + b.iv)
	}
	if b.op == "int" {
		if b.iv == 0 {
			return a
		}
		if a.op == "+" && len(a.args) == 2 && a.args[1].op == "int" {
			return Add(a.args[0], Int(a.args[1].iv+b.iv))
		}
		return mk("+", SInt, a, b)
	}
	// pull constants outward
	if a.op == "+" && a.args[1].op == "int" {
		return Add(Add(a.args[0], b), a.args[1])
	}
	if b.op == "+" && b.args[1].op == "int" {
		return Add(Add(a, b.args[0]), b.args[1])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("+", SInt, a, b)
}
func Neg(a *Term) *Term {
	if a.op == "int" {
		return Int(-a.iv)
	}
	return mk("-", SInt, Int(0), a)
}
func Sub(a, b *Term) *Term {
	if a == b {
		return Int(0)
	}
	if b.op == "int" {
		return Add(a, Int(-b.iv))
	}
	x, i := addParts(a)
	y, j := addParts(b)
	if x == y {
		return Int(i - j)
	}
	if j != 0 && y != nil {
		return Add(Sub(a, y), Int(-j))
	}
	if i != 0 && x != nil {
		return Add(Sub(x, b), Int(i))
	}
	// (x + y) - x
	if a.op == "+" && len(a.args) == 2 {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
	}
	return mk("-", SInt, a, b)
}
func Lt(a, b *Term) *Term {
	if a == b {
		return False
	}
	x, i := addParts(a)
	y, j := addParts(b)
	if x == y {
		return Bool(i < j)
	}
	if b.op == "int" && a.op != "int" && i != 0 {
		return Lt(x, Int(b.iv-i))
	}
	if a.op == "int" && b.op != "int" && j != 0 {
		return Lt(Int(a.iv-j), y)
	}
	if a.op == "ite" && b.isConst() && deepConstIte(a, 40) {
		return Ite(a.args[0], Lt(a.args[1], b), Lt(a.args[2], b))
	}
	if b.op == "ite" && a.isConst() && deepConstIte(b, 40) {
		return Ite(b.args[0], Lt(a, b.args[1]), Lt(a, b.args[2]))
	}
	if nonneg(a) && b.op == "int" && b.iv <= 0 {
		return False
	}
	if nonneg(b) && a.op == "int" && a.iv < 0 {
		return True
	}
	return mk("<", SBool, a, b)
}
func Le(a, b *Term) *Term { return Not(Lt(b, a)) }

func nonneg(t *Term) bool {
	switch t.op {
	case "int":
		return t.iv >= 0
	case "str.len", "seq.len":
		return true
	case "+":
		return nonneg(t.args[0]) && nonneg(t.args[1])
	}
	return false
}

// ---- strings

func catArgs(t *Term) []*Term {
	if t.op == "str.++" {
		return t.args
	}
	if t.op == "str" && t.sv == "" {
		return nil
	}
	return []*Term{t}
}

// commonPrefix splits off what two concatenations begin with.
func commonPrefix(x, y []*Term) (pre, rx, ry []*Term) {
	x, y = append([]*Term{}, x...), append([]*Term{}, y...)
	for len(x) > 0 && len(y) > 0 {
		if x[0] == y[0] {
			pre, x, y = append(pre, x[0]), x[1:], y[1:]
			continue
		}
		if x[0].op == "str" && y[0].op == "str" {
			p, q := x[0].sv, y[0].sv
			n := 0
			for n < len(p) && n < len(q) && p[n] == q[n] {
				n++
			}
			if n > 0 {
				pre = append(pre, Str(p[:n]))
				if n == len(p) {
					x = x[1:]
				} else {
					x[0] = Str(p[n:])
				}
				if n == len(q) {
					y = y[1:]
				} else {
					y[0] = Str(q[n:])
				}
			}
		}
		break
	}
	return pre, x, y
}

// commonSuffix splits off what two concatenations end with.
func commonSuffix(x, y []*Term) (suf, rx, ry []*Term) {
	x, y = append([]*Term{}, x...), append([]*Term{}, y...)
	for len(x) > 0 && len(y) > 0 {
		a, b := x[len(x)-1], y[len(y)-1]
		if a == b {
			suf, x, y = append([]*Term{a}, suf...), x[:len(x)-1], y[:len(y)-1]
			continue
		}
		if a.op == "str" && b.op == "str" {
			p, q := a.sv, b.sv
			n := 0
			for n < len(p) && n < len(q) && p[len(p)-1-n] == q[len(q)-1-n] {
				n++
			}
			if n > 0 {
				suf = append([]*Term{Str(p[len(p)-n:])}, suf...)
				if n == len(p) {
					x = x[:len(x)-1]
				} else {
					x[len(x)-1] = Str(p[:len(p)-n])
				}
				if n == len(q) {
					y = y[:len(y)-1]
				} else {
					y[len(y)-1] = Str(q[:len(q)-n])
				}
			}
		}
		break
	}
	return suf, x, y
}

func Concat(ts ...*Term) *Term {
	var out []*Term
	var push func(t *Term)
	push = func(t *Term) {
		if t.op == "str.++" {
			for _, a := range t.args {
				push(a)
			}
			return
		}
		if t.op == "str" {
			if t.sv == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].op == "str" {
				out[n-1] = Str(out[n-1].sv + t.sv)
				return
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		push(t)
	}
	if len(out) == 0 {
		return Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("str.++", SStr, out...)
}
func StrLen(s *Term) *Term {
	switch s.op {
	case "str":
		return Int(int64(len(s.sv)))
	case "str.++":
		r := Int(0)
		for _, a := range s.args {
			r = Add(r, StrLen(a))
		}
		return r
	case "ite":
		if s.args[1].op == "str" && s.args[2].op == "str" {
			return Ite(s.args[0], StrLen(s.args[1]), StrLen(s.args[2]))
		}
	}
	return mk("str.len", SInt, s)
}
func StrAt(s, i *Term) *Term {
	if s.op == "str" && i.op == "int" {
		if i.iv >= 0 && i.iv < int64(len(s.sv)) {
			return Str(s.sv[i.iv : i.iv+1])
		}
		return Str("")
	}
	return mk("str.at", SStr, s, i)
}
func ToCode(s *Term) *Term {
	if s.op == "str" {
		if len(s.sv) == 1 {
			return Int(int64(s.sv[0]))
		}
		return Int(-1)
	}
	return mk("str.to_code", SInt, s)
}

// Substr is s[from:from+n] in SMT-LIB terms.
func Substr(s, from, n *Term) *Term {
	if from.op == "int" && from.iv == 0 && n == StrLen(s) {
		return s
	}
	if s.op == "str" && from.op == "int" && n.op == "int" && from.iv >= 0 && n.iv >= 0 && from.iv+n.iv <= int64(len(s.sv)) {
		return Str(s.sv[from.iv : from.iv+n.iv])
	}
	if n.op == "int" && n.iv <= 0 {
		return Str("")
	}
	return mk("str.substr", SStr, s, from, n)
}

// ---- sequences (non-byte slices)

func SeqEmpty(s Sort) *Term { return intern(Term{op: "as", sort: s}) }
func SeqUnit(t *Term) *Term { return mk("seq.unit", SeqOf(t.sort), t) }
func SeqLen(s *Term) *Term {
	switch s.op {
	case "as":
		return Int(0)
	case "seq.unit":
		return Int(1)
	case "seq.++":
		r := Int(0)
		for _, a := range s.args {
			r = Add(r, SeqLen(a))
		}
		return r
	case "ite":
		x, y := SeqLen(s.args[1]), SeqLen(s.args[2])
		if x.op == "int" && y.op == "int" {
			return Ite(s.args[0], x, y)
		}
	}
	return mk("seq.len", SInt, s)
}
func SeqCat(s Sort, ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if t.op == "as" {
			continue
		}
		if t.op == "seq.++" {
			out = append(out, t.args...)
			continue
		}
		out = append(out, t)
	}
	if len(out) == 0 {
		return SeqEmpty(s)
	}
	if len(out) == 1 {
		return out[0]
	}
	if x := out[len(out)-1]; x.op == "ite" && (x.args[1].op == "as" || x.args[2].op == "as") {
		pre := out[:len(out)-1]
		return Ite(x.args[0], SeqCat(s, append(append([]*Term{}, pre...), x.args[1])...), SeqCat(s, append(append([]*Term{}, pre...), x.args[2])...))
	}
	return mk("seq.++", s, out...)
}
func SeqNth(s, i *Term) *Term {
	if s.op == "ite" && (s.args[1].op != "sym" || s.args[2].op != "sym") {
		return Ite(s.args[0], SeqNth(s.args[1], i), SeqNth(s.args[2], i))
	}
	if i.op == "int" && i.iv >= 0 {
		parts := []*Term{s}
		if s.op == "seq.++" {
			parts = s.args
		}
		k := i.iv
		for _, p := range parts {
			if p.op != "seq.unit" {
				break
			}
			if k == 0 {
				return p.args[0]
			}
			k--
		}
	}
	// element just appended: (s ++ unit(x))[len s]
	if s.op == "seq.++" {
		n := Int(0)
		for _, p := range s.args {
			if p.op == "seq.unit" && n == i {
				return p.args[0]
			}
			n = Add(n, SeqLen(p))
		}
	}
	// elements appended one by one to a sequence
	if s.op == "seq.++" && s.args[0].op != "seq.unit" && len(s.args) <= 3 && i.op != "int" {
		units := true
		for _, p := range s.args[1:] {
			units = units && p.op == "seq.unit"
		}
		if units {
			r := s.args[len(s.args)-1].args[0]
			for k := len(s.args) - 2; k >= 1; k-- {
				r = Ite(Eq(i, Add(SeqLen(s.args[0]), Int(int64(k-1)))), s.args[k].args[0], r)
			}
			return Ite(Lt(i, SeqLen(s.args[0])), SeqNth(s.args[0], i), r)
		}
	}
	return mk("seq.nth", s.sort.seqElem(), s, i)
}
func SeqExtract(s, from, n *Term) *Term {
	if from.op == "int" && from.iv == 0 && n == SeqLen(s) {
		return s
	}
	if n.op == "int" && n.iv <= 0 {
		return SeqEmpty(s.sort)
	}
	if from.op == "int" && from.iv == 0 && s.op == "seq.++" {
		// a whole number of the parts
		for i := len(s.args) - 1; i >= 1; i-- {
			if x := SeqCat(s.sort, s.args[:i]...); n == SeqLen(x) {
				return x
			}
		}
	}
	if from.op == "int" && n.op == "int" && s.op == "seq.++" {
		all := true
		for _, p := range s.args {
			if p.op != "seq.unit" {
				all = false
			}
		}
		if all && from.iv+n.iv <= int64(len(s.args)) {
			return SeqCat(s.sort, s.args[from.iv:from.iv+n.iv]...)
		}
	}
	return mk("seq.extract", s.sort, s, from, n)
}

// SeqTail is s from an index on.
func SeqTail(s, from *Term) *Term {
	if from == SeqLen(s) {
		return SeqEmpty(s.sort)
	}
	if s.op == "seq.++" {
		for i := len(s.args) - 1; i >= 1; i-- {
			if from == SeqLen(SeqCat(s.sort, s.args[:i]...)) {
				return SeqCat(s.sort, s.args[i:]...)
			}
		}
	}
	if s.op == "ite" {
		x, y := SeqTail(s.args[1], from), SeqTail(s.args[2], from)
		if x.op != "seq.extract" && y.op != "seq.extract" {
			return Ite(s.args[0], x, y)
		}
	}
	return SeqExtract(s, from, Sub(SeqLen(s), from))
}

// ---- arrays

func Select(a, i *Term) *Term {
	for {
		switch a.op {
		case "store":
			if a.args[1] == i {
				return a.args[2]
			}
			if distinct(a.args[1], i) {
				a = a.args[0]
				continue
			}
			if i.op == "ite" {
				return Ite(i.args[0], Select(a, i.args[1]), Select(a, i.args[2]))
			}
		case "constarr":
			return a.args[0]
		case "ite":
			x := Select(a.args[1], i)
			y := Select(a.args[2], i)
			return Ite(a.args[0], x, y)
		}
		break
	}
	_, v := a.sort.arrKV()
	return mk("select", v, a, i)
}
func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", a.sort, a, i, v)
}
func ConstArr(s Sort, v *Term) *Term {
	return intern(Term{op: "constarr", sort: s, args: []*Term{v}, name: string(s)})
}

// ---- bit vectors

func BVOp(op string, a, b *Term) *Term {
	if a.op == "bv" && b.op == "bv" {
		switch op {
		case "bvand":
			return BV(a.bv & b.bv)
		case "bvor":
			return BV(a.bv | b.bv)
		case "bvxor":
			return BV(a.bv ^ b.bv)
		case "bvadd":
			return BV(a.bv + b.bv)
		case "bvsub":
			return BV(a.bv - b.bv)
		}
	}
	if op == "bvand" || op == "bvor" {
		if a.op == "bv" {
			a, b = b, a
		}
		if b.op == "bv" {
			if b.bv == 0 {
				if op == "bvand" {
					return b
				}
				return a
			}
			if a.op == op && a.args[1].op == "bv" {
				return BVOp(op, a.args[0], BVOp(op, a.args[1], b))
			}
			if a.op == "ite" && (op == "bvor" || deepConstIte(a, 60)) {
				if a.args[1].op == "bv" || a.args[2].op == "bv" || deepConstIte(a, 60) {
					return Ite(a.args[0], BVOp(op, a.args[1], b), BVOp(op, a.args[2], b))
				}
			}
		}
		if a == b {
			return a
		}
	}
	return mk(op, SBV, a, b)
}
func BVUlt(a, b *Term) *Term {
	if a.op == "bv" && b.op == "bv" {
		return Bool(a.bv < b.bv)
	}
	if a.op == "bv" && a.bv == 0 {
		return Not(Eq(b, a))
	}
	return mk("bvult", SBool, a, b)
}

// ---- printing

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c == '\\' || c < 32 || c > 126:
			fmt.Fprintf(&b, "\\u{%x}", c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func quoteSym(n string) string { return "|" + n + "|" }

func (t *Term) head() string {
	switch t.op {
	case "sym", "app":
		return quoteSym(t.name)
	case "int":
		if t.iv < 0 {
			return fmt.Sprintf("(- %s)", strconv.FormatInt(-t.iv, 10))
		}
		return strconv.FormatInt(t.iv, 10)
	case "bv":
		return fmt.Sprintf("(_ bv%d 64)", t.bv)
	case "str":
		return smtStr(t.sv)
	case "as":
		return "(as seq.empty " + string(t.sort) + ")"
	case "constarr":
		return "(as const " + string(t.sort) + ")"
	}
	return t.op
}

func (t *Term) String() string {
	s := t.str(6)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}
func (t *Term) str(d int) string {
	if len(t.args) == 0 {
		return t.head()
	}
	if d == 0 {
		return "…"
	}
	var b strings.Builder
	b.WriteString("(" + t.head())
	for _, a := range t.args {
		b.WriteString(" " + a.str(d-1))
	}
	b.WriteString(")")
	return b.String()
}

// assuming simplifies a condition under a fact.
func assuming(t, fact *Term) *Term {
	facts := []*Term{fact}
	if fact.op == "and" {
		facts = append(facts, fact.args...)
	}
	for _, f := range facts {
		nf := Not(f)
		if t == f {
			return True
		}
		if t == nf {
			return False
		}
		if t.op == "and" || t.op == "or" {
			for _, x := range t.args {
				if x == f || x == nf {
					var keep []*Term
					for _, y := range t.args {
						if t.op == "and" && y == nf {
							return False
						}
						if t.op == "or" && y == f {
							return True
						}
						if y != f && y != nf {
							keep = append(keep, y)
						}
					}
					if t.op == "and" {
						return assuming(And(keep...), fact)
					}
					return assuming(Or(keep...), fact)
				}
			}
		}
	}
	return t
}
