package main

import (
	"sort"
	"strings"
)

// rebuild makes a term with the same operator over new arguments, simplifying.
func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "not":
		return Not(as[0])
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "=":
		return Eq(as[0], as[1])
	case "<":
		return Lt(as[0], as[1])
	case "+":
		r := as[0]
		for _, a := range as[1:] {
			r = Add(r, a)
		}
		return r
	case "-":
		if len(as) == 2 {
			return Sub(as[0], as[1])
		}
	case "str.++":
		return Concat(as...)
	case "str.len":
		return StrLen(as[0])
	case "str.at":
		return StrAt(as[0], as[1])
	case "str.to_code":
		return ToCode(as[0])
	case "str.substr":
		return Substr(as[0], as[1], as[2])
	case "str.indexof":
		return IndexOf(as[0], as[1], as[2])
	case "str.prefixof":
		return PrefixOf(as[0], as[1])
	case "str.suffixof":
		return SuffixOf(as[0], as[1])
	case "seq.len":
		return SeqLen(as[0])
	case "seq.++":
		return SeqCat(t.sort, as...)
	case "seq.nth":
		return SeqNth(as[0], as[1])
	case "seq.extract":
		return SeqExtract(as[0], as[1], as[2])
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	}
	if t.op == "app" && t.name == "lower" && as[0].op == "str" {
		return Str(lowerASCII(as[0].sv))
	}
	n := *t
	n.args = as
	return intern(n)
}

func lowerASCII(s string) string { return strings.ToLower(s) }

type substitution struct {
	m     map[*Term]*Term
	cache map[*Term]*Term
}

func (s *substitution) apply(t *Term) *Term {
	if r, ok := s.m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := s.cache[t]; ok {
		return r
	}
	changed := false
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = s.apply(a)
		changed = changed || as[i] != a
	}
	r := t
	if changed {
		r = rebuild(t, as)
	}
	s.cache[t] = r
	return r
}

func flattenAnd(as []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == "and" {
			for _, x := range t.args {
				add(x)
			}
			return
		}
		if t.op == "not" && t.args[0].op == "or" {
			for _, x := range t.args[0].args {
				add(Not(x))
			}
			return
		}
		if t == True || seen[t] {
			return
		}
		seen[t] = true
		out = append(out, t)
	}
	for _, a := range as {
		add(a)
	}
	return out
}

// propagate simplifies a conjunction by its unit facts. The result is equivalent.
func propagate(as []*Term) []*Term { return propagateX(as, false) }

// propagateX: with apps, an equation for an application of a specification
// function also replaces it.
func propagateX(as []*Term, apps bool) []*Term {
	defs := map[*Term]bool{}
	ndefs := 0
	for round := 0; round < 8; round++ {
		as = flattenAnd(as)
		m := map[*Term]*Term{}
		own := make([][]*Term, len(as))
		var def *[2]*Term
		for i, a := range as {
			if a == False {
				return []*Term{False}
			}
			atom, val := a, True
			if a.op == "not" {
				atom, val = a.args[0], False
			}
			if _, dup := m[atom]; !dup {
				m[atom] = val
				own[i] = append(own[i], atom)
			}
			if val == True && atom.op == "=" && (atom.args[0].sort == SStr || atom.args[0].sort.isSeq()) && !atom.args[1].isConst() {
				// a definition of a symbol
				x, y := atom.args[0], atom.args[1]
				if y.op == "sym" && (x.op != "sym" || x.id < y.id) {
					x, y = y, x
				}
				if apps && !isSpecApp(x) && x.op != "sym" && isSpecApp(y) {
					x, y = y, x
				}
				if apps && isSpecApp(x) && !defs[x] && !contains(y, x) {
					defs[x] = true
					def = &[2]*Term{x, y}
				} else if x.op == "sym" && !defs[x] && !symsOf(y)[x] {
					defs[x] = true
					if _, dup := m[x]; !dup {
						def = &[2]*Term{x, y}
					}
				}
			}
			if def != nil {
				break
			}
			if val == True && atom.op == "=" && atom.args[1].isConst() && !atom.args[0].isConst() {
				x := atom.args[0]
				if _, dup := m[x]; !dup {
					m[x] = atom.args[1]
					own[i] = append(own[i], x)
				}
			}
		}
		if def != nil && ndefs < 60 {
			// replace the symbol everywhere and drop its definition
			sb := &substitution{map[*Term]*Term{def[0]: def[1]}, map[*Term]*Term{}}
			for i, a := range as {
				as[i] = sb.apply(a)
			}
			ndefs++
			round--
			continue
		}
		changed := false
		shared := &substitution{m, map[*Term]*Term{}}
		var out []*Term
		for i, a := range as {
			var r *Term
			if own[i] == nil {
				r = shared.apply(a)
			} else {
				saved := map[*Term]*Term{}
				for _, o := range own[i] {
					saved[o] = m[o]
					delete(m, o)
				}
				s := &substitution{m, map[*Term]*Term{}}
				r = s.apply(a)
				for o, v := range saved {
					m[o] = v
				}
			}
			if r != a {
				changed = true
			}
			out = append(out, r)
		}
		as = out
		if !changed {
			break
		}
	}
	return flattenAnd(as)
}

// splitAtom picks the condition a case split helps most.
func splitAtom(as []*Term) *Term {
	count := map[*Term]int{}
	seen := map[*Term]bool{}
	atomOf := func(t *Term) *Term {
		if t.op == "not" {
			t = t.args[0]
		}
		return t
	}
	var walk func(t *Term, w int)
	walk = func(t *Term, w int) {
		if t.op == "or" || t.op == "and" {
			for _, x := range t.args {
				a := atomOf(x)
				if a.op != "or" && a.op != "and" {
					count[a] += w
				}
				walk(a, 1)
			}
			return
		}
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "ite" {
			c := atomOf(t.args[0])
			if c.op != "or" && c.op != "and" {
				count[c] += 2
			}
		}
		for _, x := range t.args {
			walk(x, 1)
		}
	}
	for _, a := range as {
		walk(a, 2)
	}
	var l []*Term
	for t := range count {
		if t.op != "true" && t.op != "false" {
			l = append(l, t)
		}
	}
	sort.Slice(l, func(i, j int) bool {
		if count[l[i]] != count[l[j]] {
			return count[l[i]] > count[l[j]]
		}
		return l[i].id < l[j].id
	})
	if len(l) == 0 {
		return nil
	}
	return l[0]
}

func isSpecApp(t *Term) bool { return t.op == "app" && strings.HasPrefix(t.name, "s:") }

func contains(t, x *Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// strIteCond picks the condition of a string-valued ite, the most frequent one.
func strIteCond(as []*Term) *Term {
	count := map[*Term]int{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "ite" && t.sort == SStr {
			c := t.args[0]
			for c.op == "and" || c.op == "or" || c.op == "not" {
				c = c.args[0]
			}
			count[c]++
		}
		for _, x := range t.args {
			walk(x)
		}
	}
	for _, a := range as {
		// only in disequalities, which come from the goal
		if a.op == "not" && a.args[0].op == "=" && a.args[0].args[0].sort == SStr {
			walk(a)
		}
	}
	var best *Term
	for c, n := range count {
		if best == nil || n > count[best] || n == count[best] && c.id < best.id {
			best = c
		}
	}
	return best
}

// quickSplit refutes a conjunction by case splits on the conditions of string
// expressions and simplification alone.
func quickSplit(as []*Term) bool {
	left := 120
	var rec func(as []*Term, depth int) bool
	rec = func(as []*Term, depth int) bool {
		if len(as) == 1 && as[0] == False {
			return true
		}
		left--
		if depth > 14 || left <= 0 {
			return false
		}
		c := strIteCond(as)
		if c == nil {
			return false
		}
		for _, l := range []*Term{c, Not(c)} {
			if !rec(propagateX(append(append([]*Term{}, as...), l), true), depth+1) {
				return false
			}
		}
		return true
	}
	return rec(propagateX(as, true), 0)
}
