package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contract is the specification of one function, interface method, function-valued field or map.
type Contract struct {
	key, kind string // kind: func, iface, field, mapinv, lemma
	header    string
	recv      string
	params    []cparam
	results   []cparam
	props     []string
	requires  []*Clause
	ensures   []*Clause
	returns   *Clause
	pres      []*preLet
	ghosts    []cparam
	modifies  []*modEnt
	invs      []*Template
	inline    bool
	noalias   bool
	pure      bool
	trusted   bool
	ifaceT    *types.Interface
	ifaceName string
	method    string
	fn        *ssa.Function
	unfold    int
	fold      map[string]bool // specification functions not unfolded
	fullTab   bool            // large tables with their contents
	timeout   int
	sigName   string
	bad       string // why the contract does not fit the current code
	uses      []*Clause
	fins      []*Clause
	lems      []*Clause // lemmas applied at the entry of the function's own proof
	expands   []string
	localmaps []*localMap
	sets      []*ghostSet
	ats       []*atCall
}

// ghostSet is a ghost assignment at the exit of a function.
type ghostSet struct {
	glob, fname string
	text        string
	fn          *ssa.Function
}

// atCall is an assertion at every call of a function.
type atCall struct {
	callee string
	params []cparam
	cl     *Clause
	after  bool // a lemma to use after the call; the last parameters are its results
}
type cparam struct {
	name, typ string
	t         types.Type
}

// Clause is one boolean specification expression, compiled as a Go function.
type Clause struct {
	text   string
	props  []string
	name   string
	fn     *ssa.Function
	idx    int
	naming bool
}
type preLet struct {
	name, typ, text, fname string
	fn                     *ssa.Function
	witness                bool // also a value at which universal facts are instantiated
}
type localMap struct {
	typ string
	key cparam
	cl  *Clause
}
type modEnt struct {
	name, at, fname string
	fn              *ssa.Function
}

// Template is a loop invariant with free variables, tried at every loop of the function.
type Template struct {
	text  string
	ct    *Contract
	fname string
	fn    *ssa.Function
	vars  []tvar
	lemma bool // a use of a lemma at the end of each iteration
}
type tvar struct {
	name, typText string
	typ           types.Type
	vary          bool
	head          bool // the value at the start of the iteration
	visited       bool
	ghost         string
}

var clauseCtr int

func newName(p string) string { clauseCtr++; return fmt.Sprintf("zz%s_%d", p, clauseCtr) }

func exprText(fset *token.FileSet, src string, e ast.Node) string {
	return src[fset.Position(e.Pos()).Offset:fset.Position(e.End()).Offset]
}

func parseSig(txt string) (recv *cparam, name string, params, results []cparam, err error) {
	src := "package p\n" + txt
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "h.go", src, 0)
	if err != nil {
		return nil, "", nil, nil, fmt.Errorf("%s: %v", txt, err)
	}
	fd := f.Decls[0].(*ast.FuncDecl)
	get := func(fl *ast.FieldList) []cparam {
		var out []cparam
		if fl == nil {
			return nil
		}
		for _, g := range fl.List {
			t := exprText(fset, src, g.Type)
			if strings.HasPrefix(t, "...") {
				t = "[]" + t[3:]
			}
			if len(g.Names) == 0 {
				out = append(out, cparam{name: fmt.Sprintf("zzr%d", len(out)), typ: t})
			}
			for _, n := range g.Names {
				out = append(out, cparam{name: n.Name, typ: t})
			}
		}
		return out
	}
	if fd.Recv != nil {
		r := get(fd.Recv)
		recv = &r[0]
	}
	return recv, fd.Name.Name, get(fd.Type.Params), get(fd.Type.Results), nil
}

var tagRe = regexp.MustCompile(`^\[([A-Z0-9, ]+)\]\s*`)
var forallRe = regexp.MustCompile(`^(\w+)\s+(.*)$`)

func (P *Program) parseContracts(texts []string) error {
	var cur *Contract
	var lines []string
	for _, t := range texts {
		for _, l := range strings.Split(t, "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "//@ | ") {
				lines[len(lines)-1] += " " + strings.TrimPrefix(l, "//@ | ")
				continue
			}
			if s := strings.TrimPrefix(l, "//@ "); s != l {
				lines = append(lines, strings.TrimSpace(s))
			}
		}
	}
	mk := func(kind, key string) *Contract {
		c := &Contract{kind: kind, key: key, unfold: 2}
		cur = c
		return c
	}
	for _, l := range lines {
		w := l
		rest := ""
		if i := strings.IndexAny(l, " [("); i > 0 {
			w, rest = l[:i], strings.TrimSpace(l[i:])
		}
		switch w {
		case "model", "opaque", "foldable", "end":
			continue
		case "frozen":
			for _, f := range strings.Fields(rest) {
				P.frozen[f] = true
			}
		case "guarded":
			// guarded KEY... by T.mutex
			f := strings.Fields(rest)
			for _, k := range f[:len(f)-2] {
				P.guards[k] = f[len(f)-1]
			}
		case "func", "iface":
			recv, name, ps, rs, err := parseSig("func " + strings.TrimPrefix(rest, "func "))
			if err != nil {
				return err
			}
			c := mk(w, name)
			if recv != nil {
				c.params = append(c.params, *recv)
				if w == "iface" {
					c.key = recv.typ + "." + name
					c.ifaceName, c.method = recv.typ, name
				} else {
					c.key = "(" + recv.typ + ")." + name
				}
			}
			c.params = append(c.params, ps...)
			c.results = rs
			c.header = l
			if P.contracts[c.key] != nil {
				return fmt.Errorf("duplicate contract %s", c.key)
			}
			P.contracts[c.key] = c
			P.order = append(P.order, c.key)
		case "field":
			// field T.f func(params) (results)
			i := strings.IndexByte(rest, ' ')
			fld := rest[:i]
			_, _, ps, rs, err := parseSig("func x" + strings.TrimPrefix(strings.TrimSpace(rest[i:]), "func"))
			if err != nil {
				return err
			}
			c := mk("field", "field "+fld)
			c.params, c.results, c.header = ps, rs, l
			P.contracts[c.key] = c
			P.order = append(P.order, c.key)
		case "lemma":
			_, name, ps, _, err := parseSig("func " + rest)
			if err != nil {
				return err
			}
			c := mk("lemma", "lemma "+name)
			c.params, c.header = ps, l
			P.contracts[c.key] = c
			P.order = append(P.order, c.key)
		case "mapinv":
			// mapinv TYPE (k T, v T) EXPR
			i := strings.Index(rest, " (")
			j := strings.Index(rest[i:], ") ") + i
			mt := rest[:i]
			_, _, ps, _, err := parseSig("func x" + rest[i+1:j+1])
			if err != nil {
				return err
			}
			c := mk("mapinv", "mapinv "+mt)
			c.params, c.header = ps, l
			c.ensures = append(c.ensures, &Clause{text: rest[j+2:], name: newName("cl")})
			P.contracts[c.key] = c
			P.order = append(P.order, c.key)
			P.mapInvs[mt] = c
		default:
			if cur == nil {
				return fmt.Errorf("clause outside a contract: %s", l)
			}
			var tags []string
			if m := tagRe.FindStringSubmatch(rest); m != nil {
				tags = strings.FieldsFunc(m[1], func(r rune) bool { return r == ',' || r == ' ' })
				rest = rest[len(m[0]):]
			}
			switch w {
			case "props":
				cur.props = append(cur.props, strings.Fields(rest)...)
			case "requires":
				cur.requires = append(cur.requires, &Clause{text: rest, props: tags, name: newName("cl")})
			case "ensures":
				cur.ensures = append(cur.ensures, &Clause{text: rest, props: tags, name: newName("cl")})
			case "names":
				// a name for the result, which callers get to know and no obligation shows
				cur.ensures = append(cur.ensures, &Clause{text: rest, props: tags, name: newName("cl"), naming: true})
			case "returns":
				cur.returns = &Clause{text: rest, props: tags, name: newName("rt")}
				cur.ensures = append(cur.ensures, &Clause{text: "zzsame(" + cur.results[0].name + ", " + rest + ")", props: tags, name: newName("cl")})
			case "sets":
				// sets G = EXPR
				i := strings.Index(rest, " = ")
				cur.sets = append(cur.sets, &ghostSet{glob: strings.TrimSpace(rest[:i]), text: rest[i+3:], fname: newName("set")})
				cur.modifies = append(cur.modifies, &modEnt{name: "G:" + strings.TrimSpace(rest[:i])})
			case "at", "after":
				// at CALLEE (params) [tags] EXPR; the callee without a blank in it
				i := strings.Index(rest, " (")
				j := strings.Index(rest[i:], ") ") + i
				_, _, ps, _, err := parseSig("func x" + rest[i+1:j+1])
				if err != nil {
					return err
				}
				r := strings.TrimSpace(rest[j+2:])
				if m := tagRe.FindStringSubmatch(r); m != nil {
					tags = strings.FieldsFunc(m[1], func(r rune) bool { return r == ',' || r == ' ' })
					r = r[len(m[0]):]
				}
				cur.ats = append(cur.ats, &atCall{callee: rest[:i], params: ps, cl: &Clause{text: r, props: tags, name: newName("at")}, after: w == "after"})
			case "localmap":
				// localmap TYPE (k T) EXPR: every key of a map of that type made here satisfies EXPR (in the state at entry)
				i := strings.Index(rest, " (")
				j := strings.Index(rest[i:], ") ") + i
				_, _, ps, _, err := parseSig("func x" + rest[i+1:j+1])
				if err != nil {
					return err
				}
				cur.localmaps = append(cur.localmaps, &localMap{typ: rest[:i], key: ps[0], cl: &Clause{text: rest[j+2:], name: newName("lm")}})
			case "pre", "witness":
				m := regexp.MustCompile(`^(\w+)\s+(.*?)\s+=\s+(.*)$`).FindStringSubmatch(rest)
				if m == nil {
					return fmt.Errorf("bad pre: %s", l)
				}
				cur.pres = append(cur.pres, &preLet{name: m[1], typ: m[2], text: m[3], fname: newName("pre"), witness: w == "witness"})
			case "forall":
				m := forallRe.FindStringSubmatch(rest)
				cur.ghosts = append(cur.ghosts, cparam{name: m[1], typ: m[2]})
			case "modifies":
				for _, x := range strings.Split(rest, ",") {
					x = strings.TrimSpace(x)
					me := &modEnt{name: x}
					if i := strings.Index(x, "@"); i > 0 {
						me.name, me.at = strings.TrimSpace(x[:i]), strings.TrimSpace(x[i+1:])
						me.fname = newName("mod")
					}
					cur.modifies = append(cur.modifies, me)
				}
			case "inv", "step":
				if !strings.HasPrefix(rest, "(") {
					return fmt.Errorf("bad inv: %s", l)
				}
				d, j := 0, 0
				for j = 0; j < len(rest); j++ {
					if rest[j] == '(' {
						d++
					}
					if rest[j] == ')' {
						d--
						if d == 0 {
							break
						}
					}
				}
				t := &Template{text: strings.TrimSpace(rest[j+1:]), ct: cur, fname: newName("inv")}
				for _, v := range strings.Split(rest[1:j], ",") {
					v = strings.TrimSpace(v)
					if v == "" {
						continue
					}
					f := strings.SplitN(v, " ", 2)
					tv := tvar{name: f[0], typText: strings.TrimSpace(f[1])}
					if strings.HasPrefix(tv.name, "?") || strings.HasPrefix(tv.name, "^") {
						tv.vary, tv.head = true, tv.name[0] == '^'
						tv.name = tv.name[1:]
					}
					if s := strings.TrimPrefix(tv.typText, "visited "); s != tv.typText {
						tv.visited, tv.ghost, tv.typText = true, s, "bool"
					}
					t.vars = append(t.vars, tv)
				}
				t.lemma = w == "step"
				cur.invs = append(cur.invs, t)
			case "inline":
				cur.inline = true
			case "noalias":
				cur.noalias = true
			case "pure":
				cur.pure = true
			case "trusted":
				cur.trusted = true
			case "fulltab":
				cur.fullTab = true
			case "fold":
				if cur.fold == nil {
					cur.fold = map[string]bool{}
				}
				for _, n := range strings.Fields(rest) {
					cur.fold[n] = true
				}
			case "unfold":
				fmt.Sscanf(rest, "%d", &cur.unfold)
			case "timeout":
				fmt.Sscanf(rest, "%d", &cur.timeout)
			case "use":
				cur.uses = append(cur.uses, &Clause{text: rest, name: newName("use")})
			case "finally":
				cur.fins = append(cur.fins, &Clause{text: rest, name: newName("fin")})
			case "apply":
				cur.lems = append(cur.lems, &Clause{text: rest, name: newName("lem")})
			default:
				return fmt.Errorf("unknown clause: %s", l)
			}
		}
	}
	return nil
}

var pkgWords = map[string]string{"net": "net", "strings": "strings", "smtpd": stubPath, "fmt": "fmt", "time": "time", "os": "os", "io": "io", "bufio": "bufio", "tls": "crypto/tls", "bytes": "bytes", "x509": "crypto/x509"}

func plist(ps []cparam) string {
	var out []string
	for _, p := range ps {
		out = append(out, p.name+" "+p.typ)
	}
	return strings.Join(out, ", ")
}

func (c *Contract) preParams() []cparam {
	var out []cparam
	for _, p := range c.pres {
		out = append(out, cparam{name: p.name, typ: p.typ})
	}
	return out
}

// genClauses compiles every clause into a Go function.
func (P *Program) genClauses() []byte {
	var b strings.Builder
	for _, k := range P.order {
		c := P.contracts[k]
		c.sigName = newName("sig")
		fmt.Fprintf(&b, "func %s(%s)", c.sigName, plist(c.params))
		if len(c.results) > 0 {
			fmt.Fprintf(&b, " (%s)", plist(c.results))
		}
		b.WriteString("\n")
		base := append(append([]cparam{}, c.params...), c.ghosts...)
		all := append(append([]cparam{}, base...), c.preParams()...)
		full := append(append([]cparam{}, all...), c.results...)
		for i, p := range c.pres {
			ps := append(append([]cparam{}, base...), c.preParams()[:i]...)
			fmt.Fprintf(&b, "func %s(%s) %s { return %s }\n", p.fname, plist(ps), p.typ, p.text)
		}
		for _, cl := range c.requires {
			fmt.Fprintf(&b, "func %s(%s) bool { return %s }\n", cl.name, plist(all), cl.text)
		}
		for _, cl := range c.ensures {
			txt := cl.text
			if s := strings.TrimPrefix(txt, "zzsame("); s != txt {
				r := c.results[0]
				body := strings.TrimSuffix(strings.TrimPrefix(s, r.name+", "), ")")
				eq := fmt.Sprintf("%s == (%s)", r.name, body)
				if strings.HasPrefix(r.typ, "[]string") {
					eq = fmt.Sprintf("eqStrs(%s, %s)", r.name, body)
				} else if strings.HasPrefix(r.typ, "[]byte") {
					eq = fmt.Sprintf("string(%s) == string(%s)", r.name, body)
				} else if strings.HasPrefix(r.typ, "[]") {
					eq = fmt.Sprintf("eqSlices(%s, %s)", r.name, body)
				}
				cl.text = r.name + " == " + body
				txt = eq
			}
			fmt.Fprintf(&b, "func %s(%s) bool { return %s }\n", cl.name, plist(full), txt)
		}
		for _, lm := range c.localmaps {
			fmt.Fprintf(&b, "func %s(%s) bool { return %s }\n", lm.cl.name, plist(append(append([]cparam{}, all...), lm.key)), lm.cl.text)
		}
		for _, x := range c.sets {
			fmt.Fprintf(&b, "func %s(%s) bool { return %s == (%s) }\n", x.fname, plist(full), x.glob, x.text)
		}
		for _, x := range c.ats {
			if x.after {
				fmt.Fprintf(&b, "func %s(%s) { %s }\n", x.cl.name, plist(append(append([]cparam{}, all...), x.params...)), x.cl.text)
				continue
			}
			fmt.Fprintf(&b, "func %s(%s) bool { return %s }\n", x.cl.name, plist(append(append([]cparam{}, all...), x.params...)), x.cl.text)
		}
		for _, cl := range append(append([]*Clause{}, c.uses...), c.fins...) {
			fmt.Fprintf(&b, "func %s(%s) { %s }\n", cl.name, plist(full), cl.text)
		}
		for _, cl := range c.lems {
			fmt.Fprintf(&b, "func %s(%s) { %s }\n", cl.name, plist(all), cl.text)
		}
		if c.returns != nil {
			fmt.Fprintf(&b, "func %s(%s) %s { return %s }\n", c.returns.name, plist(all), c.results[0].typ, c.returns.text)
		}
		for _, m := range c.modifies {
			if m.at != "" {
				fmt.Fprintf(&b, "func %s(%s) interface{} { return %s }\n", m.fname, plist(all), m.at)
			}
		}
		for _, t := range c.invs {
			ps := append([]cparam{}, all...)
			for _, v := range t.vars {
				ps = append(ps, cparam{name: v.name, typ: v.typText})
			}
			if t.lemma {
				fmt.Fprintf(&b, "func %s(%s) { %s }\n", t.fname, plist(ps), t.text)
				continue
			}
			fmt.Fprintf(&b, "func %s(%s) bool { return %s }\n", t.fname, plist(ps), t.text)
		}
	}
	var imps []string
	for w, p := range pkgWords {
		if regexp.MustCompile(`\b` + w + `\.`).MatchString(b.String()) {
			imps = append(imps, p)
		}
	}
	sort.Strings(imps)
	h := "package main\n\nimport (\n"
	for _, p := range imps {
		h += fmt.Sprintf("\t%q\n", p)
	}
	return []byte(h + ")\n" + b.String())
}

// bindContracts connects contracts to the SSA functions of the current code.
func (P *Program) bindContracts() {
	for _, k := range P.order {
		c := P.contracts[k]
		sig := P.main.Func(c.sigName)
		if sig == nil {
			c.bad = "its signature does not type-check"
			continue
		}
		pt := sigTypes(sig.Signature)
		for i := range c.params {
			c.params[i].t = pt[i]
		}
		for i := range c.results {
			c.results[i].t = sig.Signature.Results().At(i).Type()
		}
		look := func(name string) *ssa.Function {
			f := P.main.Func(name)
			return f
		}
		for _, p := range c.pres {
			if p.fn = look(p.fname); p.fn == nil {
				c.bad = "pre-state binding does not type-check: " + p.text
			}
		}
		for _, cl := range append(append([]*Clause{}, c.requires...), c.ensures...) {
			if cl.fn = look(cl.name); cl.fn == nil {
				c.bad = "clause does not type-check: " + cl.text
			}
		}
		for _, x := range c.sets {
			if x.fn = look(x.fname); x.fn == nil {
				c.bad = "ghost assignment does not type-check: " + x.text
			}
		}
		for _, x := range c.ats {
			if x.cl.fn = look(x.cl.name); x.cl.fn == nil {
				c.bad = "clause does not type-check: " + x.cl.text
			}
		}
		for _, lm := range c.localmaps {
			if lm.cl.fn = look(lm.cl.name); lm.cl.fn == nil {
				c.bad = "clause does not type-check: " + lm.cl.text
			}
		}
		for _, cl := range append(append(append([]*Clause{}, c.uses...), c.lems...), c.fins...) {
			if cl.fn = look(cl.name); cl.fn == nil {
				c.bad = "lemma use does not type-check: " + cl.text
			}
		}
		if c.returns != nil {
			c.returns.fn = look(c.returns.name)
		}
		for _, m := range c.modifies {
			if m.at != "" {
				if m.fn = look(m.fname); m.fn == nil {
					c.bad = "frame does not type-check: " + m.at
				}
			}
		}
		var keep []*Template
		for _, t := range c.invs {
			if t.fn = look(t.fname); t.fn == nil {
				continue
			}
			ft := sigTypes(t.fn.Signature)
			for i := range t.vars {
				t.vars[i].typ = ft[len(ft)-len(t.vars)+i]
			}
			keep = append(keep, t)
		}
		c.invs = keep
		// ghosts' types
		if len(c.ghosts) > 0 {
			var any *ssa.Function
			for _, cl := range append(append([]*Clause{}, c.ensures...), c.requires...) {
				if cl.fn != nil {
					any = cl.fn
				}
			}
			if any != nil {
				ft := sigTypes(any.Signature)
				for i := range c.ghosts {
					c.ghosts[i].t = ft[len(c.params)+i]
				}
			}
		}
		switch c.kind {
		case "func":
			fn := P.byKey[c.key]
			if fn == nil {
				c.bad = "no such function in the current code"
				continue
			}
			var at []types.Type
			if r := fn.Signature.Recv(); r != nil {
				at = append(at, r.Type())
			}
			at = append(at, sigTypes(fn.Signature)...)
			ok := len(at) == len(pt) && fn.Signature.Results().Len() == len(c.results)
			if ok {
				for i := range at {
					ok = ok && types.Identical(at[i], pt[i])
				}
				for i := range c.results {
					ok = ok && types.Identical(fn.Signature.Results().At(i).Type(), c.results[i].t)
				}
			}
			if !ok {
				c.bad = "the function's signature has changed"
				continue
			}
			c.fn = fn
			if P.lemmas[fn] {
				c.pure = true
			}
		case "iface":
			if it, ok := c.params[0].t.Underlying().(*types.Interface); ok {
				c.ifaceT = it
			}
		}
	}
	for _, k := range P.order {
		c := P.contracts[k]
		if c.bad != "" && c.kind == "func" {
			P.dropped = append(P.dropped, "contract of "+c.key+": "+c.bad)
			if c.fn == nil {
				delete(P.contracts, k)
			}
		}
	}
}

// ---- applying contracts at calls

func wordIn(text, w string) bool {
	return regexp.MustCompile(`\b` + regexp.QuoteMeta(w) + `\b`).MatchString(text)
}

// ghostInsts enumerates instantiations of the contract's ghosts with the caller's.
func (E *Engine) ghostInsts(ct *Contract, st *State) [][]Value {
	insts := [][]Value{nil}
	for _, g := range ct.ghosts {
		var next [][]Value
		for _, eg := range E.ghosts {
			if g.t != nil && types.Identical(eg.typ, g.t) {
				for _, in := range insts {
					next = append(next, append(append([]Value{}, in...), eg.val))
				}
			}
		}
		if len(next) == 0 {
			// no ghost of that type in the caller: use an arbitrary value
			v := E.freshValue(st, "anyghost", g.t)
			for _, in := range insts {
				next = append(next, append(append([]Value{}, in...), v))
			}
		}
		insts = next
	}
	return insts
}

// evalPre evaluates the pre-state bindings.
func (E *Engine) evalPre(st *State, ct *Contract, args []Value, ghosts []Value) []Value {
	var lets []Value
	for _, p := range ct.pres {
		a := append(append(append([]Value{}, args...), ghosts...), lets...)
		lets = append(lets, E.evalSpec(st, p.fn, a))
		if p.witness && st == E.rootSt && p.fn.Signature.Results().Len() == 1 {
			E.ghosts = append(E.ghosts, ghost{p.name, p.fn.Signature.Results().At(0).Type(), lets[len(lets)-1]})
		}
	}
	return lets
}

func (E *Engine) evalSpec(st *State, fn *ssa.Function, args []Value) Value {
	E.quiet++
	defer func() { E.quiet-- }()
	s := st.clone()
	return E.callBody(fn, args, nil, s).(VTuple)[0]
}

func (E *Engine) modRef(st *State, m *modEnt, a []Value) *Term {
	v := E.evalSpec(st, m.fn, a)
	switch x := v.(type) {
	case VIface:
		return E.flat(st, x.typ, x.val)[0]
	case VT:
		return x.t
	}
	panic("modifies target")
}

// goRequires obliges the preconditions of a function started as a goroutine.
func (E *Engine) goRequires(st *State, ct *Contract, args []Value, pos token.Pos) {
	if ct.bad != "" || len(ct.ghosts) > 0 {
		return
	}
	if E.dry == 0 {
		E.used[ct.key] = true
	}
	pre := st.clone()
	saved := E.old
	E.old = pre
	defer func() { E.old = saved }()
	lets := E.evalPre(pre, ct, args, nil)
	for _, r := range ct.requires {
		if r.fn != nil {
			g := E.evalClause(pre, r.fn, append(append([]Value{}, args...), lets...))
			E.oblige(st, "requires", "precondition of "+ct.key+": "+r.text, g, r.props, pos)
		}
	}
}

func (E *Engine) applyContract(st *State, ct *Contract, args []Value, res *types.Tuple, pos token.Pos) Value {
	if E.dry == 0 {
		E.used[ct.key] = true
	}
	if ct.bad != "" {
		E.unsupported("contract of " + ct.key + ": " + ct.bad)
	}
	if ct == E.contract && E.P.lemmas[ct.fn] {
		same := true
		for i := range args {
			same = same && fmt.Sprint(args[i]) == fmt.Sprint(E.rootParams[i])
		}
		if same {
			E.unsupported("lemma uses itself on the same arguments")
		}
	}
	pre := st.clone()
	saved := E.old
	E.old = pre
	defer func() { E.old = saved }()
	insts := E.ghostInsts(ct, st)
	var lets [][]Value
	for _, in := range insts {
		lets = append(lets, E.evalPre(pre, ct, args, in))
	}
	for _, r := range ct.requires {
		if r.fn == nil {
			continue
		}
		usesGhost := false
		for _, g := range ct.ghosts {
			usesGhost = usesGhost || wordIn(r.text, g.name)
		}
		for i := range insts {
			a := append(append(append([]Value{}, args...), insts[i]...), lets[i]...)
			g := E.evalClause(pre, r.fn, a)
			E.oblige(st, "requires", "precondition of "+ct.key+": "+r.text, g, r.props, pos)
			if !usesGhost {
				break
			}
		}
	}
	a0 := append(append(append([]Value{}, args...), insts[0]...), lets[0]...)
	for _, m := range ct.modifies {
		E.havocMod(st, pre, m, a0)
	}
	if !ct.pure {
		E.bumpAlloc(st)
	}
	var val Value
	if ct.returns != nil && ct.returns.fn != nil {
		val = VTuple{E.evalSpec(pre, ct.returns.fn, a0)}
	} else {
		val = E.freshValue(st, "r:"+ct.key, res)
	}
	rets, _ := val.(VTuple)
	for _, en := range ct.ensures {
		if en.fn == nil || (ct.returns != nil && strings.HasPrefix(en.text, ct.results[0].name+" == "+ct.returns.text)) {
			continue
		}
		usesGhost := false
		for _, g := range ct.ghosts {
			usesGhost = usesGhost || wordIn(en.text, g.name)
		}
		for _, p := range ct.pres {
			if wordIn(en.text, p.name) {
				for _, g := range ct.ghosts {
					usesGhost = usesGhost || wordIn(p.text, g.name)
				}
			}
		}
		for i := range insts {
			a := append(append(append(append([]Value{}, args...), insts[i]...), lets[i]...), rets...)
			E.assume(st, E.evalClause(st, en.fn, a))
			if !usesGhost {
				break
			}
		}
	}
	for _, x := range ct.sets {
		if x.fn != nil {
			E.assume(st, E.evalClause(st, x.fn, append(append(append(append([]Value{}, args...), insts[0]...), lets[0]...), rets...)))
		}
	}
	for _, u := range ct.uses {
		if u.fn == nil {
			continue
		}
		for i := range insts {
			E.useLemma(st, u, append(append(append(append([]Value{}, args...), insts[i]...), lets[i]...), rets...))
		}
	}
	return val
}

// useLemma applies the contracts of the lemmas that the clause calls.
func (E *Engine) useLemma(st *State, u *Clause, args []Value) {
	for i, a := range args {
		if sl, ok := a.(VSlice); ok && sl.seq != nil && sl.seq.op == "ite" && sl.seq.sort != SStr {
			// one use for each case
			c, x, y := sl.seq.args[0], sl, sl
			x.seq, y.seq = sl.seq.args[1], sl.seq.args[2]
			E.useLemma(st.under(c), u, append(append(append([]Value{}, args[:i]...), x), args[i+1:]...))
			E.useLemma(st.under(Not(c)), u, append(append(append([]Value{}, args[:i]...), y), args[i+1:]...))
			return
		}
	}
	q := E.quiet
	E.quiet = 0
	E.callBody(u.fn, args, nil, st.clone())
	E.quiet = q
}

// modNames lists the heap maps or globals a modifies entry covers.
func (E *Engine) modNames(m *modEnt) (heap []comp, glob []comp) {
	n := m.name
	if strings.HasPrefix(n, "M:") {
		mt := E.P.mapTypeByKey(n[2:])
		if mt == nil {
			return
		}
		ks := comps(mt.Key())[0].sort
		heap = append(heap, comp{n + ".dom", ArrOf(ks, SBool)}, comp{n + ".len", SInt})
		for _, c := range comps(mt.Elem()) {
			heap = append(heap, comp{n + ".val" + c.suffix, ArrOf(ks, c.sort)})
		}
		return
	}
	if strings.HasPrefix(n, "G:") {
		gt := E.P.globalType(n[2:])
		if gt == nil {
			E.unsupported("no global " + n)
			return
		}
		for _, c := range comps(gt) {
			glob = append(glob, comp{n[2:] + c.suffix, c.sort})
		}
		return
	}
	ft := E.P.fieldTypeOf(n)
	if ft == nil {
		E.unsupported("no field " + n)
		return
	}
	for _, c := range comps(ft) {
		heap = append(heap, comp{n + c.suffix, c.sort})
	}
	return
}

func (P *Program) mapTypeByKey(k string) *types.Map {
	ex := k
	tv, err := types.Eval(P.fset, P.tpkg, token.NoPos, ex)
	if err != nil || tv.Type == nil {
		return nil
	}
	mt, _ := tv.Type.Underlying().(*types.Map)
	return mt
}

func (E *Engine) havocMod(st, pre *State, m *modEnt, a []Value) {
	if m.name == "anything" {
		panic("call of a function that may change anything")
	}
	heap, glob := E.modNames(m)
	for _, g := range glob {
		st.glob[g.suffix] = Fresh("Gc:"+g.suffix, g.sort)
	}
	for _, h := range heap {
		cur := E.hget(st, h.suffix, h.sort)
		if m.at != "" {
			r := E.modRef(pre, m, a)
			v := Fresh("hc:"+h.suffix, h.sort)
			st.heap[h.suffix] = Store(cur, r, v)
			continue
		}
		st.heap[h.suffix] = Fresh("Hc:"+h.suffix, ArrOf(SInt, h.sort))
	}
	if m.at != "" && len(heap) > 0 {
		if ft := E.P.fieldTypeOf(m.name); ft != nil {
			// type facts of the new values
			r := E.modRef(pre, m, a)
			var ts []*Term
			for _, h := range heap {
				ts = append(ts, Select(st.heap[h.suffix], r))
			}
			E.typed(st, ft, ts)
		}
	}
}

// ---- map invariants

func (E *Engine) localMapInv(m *Term, mt *types.Map, k *Term) (*Term, string) {
	if E.contract == nil || E.dry > 0 || E.unfoldFP != nil || E.quiet > 0 || !E.isFresh(m) {
		return nil, ""
	}
	for _, lm := range E.contract.localmaps {
		if lm.typ == typeKey(mt) && lm.cl.fn != nil {
			return E.evalClause(E.init, lm.cl.fn, append(E.rootArgs(E.contract), VT{k})), lm.cl.text
		}
	}
	return nil, ""
}
func (E *Engine) mapInvOnRead(st *State, m *Term, mt *types.Map, k, pres *Term, v Value) {
	if g, _ := E.localMapInv(m, mt, k); g != nil {
		E.assume(st, Implies(pres, g))
	}
	ct := E.P.mapInvs[typeKey(mt)]
	if ct == nil || ct.ensures[0].fn == nil || E.dry > 0 || E.unfoldFP != nil {
		return
	}
	g := E.evalClause(st, ct.ensures[0].fn, []Value{VT{k}, v})
	E.assume(st, Implies(pres, g))
}
func (E *Engine) mapInvOnWrite(st *State, m *Term, mt *types.Map, k *Term, v Value) {
	if g, txt := E.localMapInv(m, mt, k); g != nil {
		E.oblige(st, "mapinv", "local map invariant "+txt, g, nil, 0)
	}
	if E.P.isFrozenPtr(mt.Elem()) {
		E.publish(st, T(v), mt.Elem().Underlying().(*types.Pointer).Elem())
	}
	ct := E.P.mapInvs[typeKey(mt)]
	if ct == nil || ct.ensures[0].fn == nil || E.dry > 0 || E.unfoldFP != nil {
		return
	}
	g := E.evalClause(st, ct.ensures[0].fn, []Value{VT{k}, v})
	E.oblige(st, "mapinv", "cache invariant "+ct.ensures[0].text, g, nil, 0)
}

// ---- roots

func (E *Engine) ghostVal(name string) Value {
	for _, g := range E.ghosts {
		if g.name == name {
			return g.val
		}
	}
	panic("no ghost " + name)
}

func (E *Engine) rootAtoms(t types.Type) []atom {
	var out []atom
	for i, p := range E.contract.params {
		if p.t != nil && types.Identical(p.t, t) {
			v := E.rootParams[i]
			out = append(out, atom{p.name, func(*State, func(*ssa.Phi) Value) Value { return v }})
		}
	}
	return out
}

func (E *Engine) rootArgs(ct *Contract) []Value {
	if ct == E.contract {
		return append(append(append([]Value{}, E.rootParams...), E.rootGhosts...), E.rootLets...)
	}
	// an inlined function with its own contract: its frame's arguments
	fr := E.frames[len(E.frames)-1]
	var out []Value
	for _, p := range fr.fn.Params {
		out = append(out, fr.env[p])
	}
	for range ct.ghosts {
		out = append(out, VT{Int(0)})
	}
	return out
}

// Root is one function to verify.
type Root struct {
	name string
	fn   *ssa.Function
	cts  []*Contract
	self types.Type
}

// Roots lists everything under contract.
func (P *Program) Roots() []*Root {
	var out []*Root
	done := map[string]*Root{}
	for _, k := range P.order {
		c := P.contracts[k]
		if c == nil || c.trusted {
			continue
		}
		switch c.kind {
		case "func":
			r := &Root{name: c.key, fn: c.fn, cts: []*Contract{c}}
			done[c.key] = r
			out = append(out, r)
		case "lemma":
			out = append(out, &Root{name: c.key, cts: []*Contract{c}})
		}
	}
	for _, k := range P.order {
		c := P.contracts[k]
		if c == nil || c.kind != "iface" || c.ifaceT == nil {
			continue
		}
		for _, n := range P.tpkg.Scope().Names() {
			tn, ok := P.tpkg.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if _, isI := t.Underlying().(*types.Interface); isI || !types.Implements(t, c.ifaceT) {
					continue
				}
				fn := P.prog.LookupMethod(t, P.tpkg, c.method)
				if fn == nil || fn.Synthetic != "" {
					continue
				}
				key := fnKey(fn)
				if own := P.contracts[key]; own != nil && own.trusted {
					continue
				}
				if r := done[key]; r != nil {
					r.cts = append(r.cts, c)
					r.self = t
					continue
				}
				r := &Root{name: key, fn: fn, cts: []*Contract{c}, self: t}
				done[key] = r
				out = append(out, r)
			}
		}
	}
	return out
}

func (r *Root) props() []string {
	m := map[string]bool{}
	for i, c := range r.cts {
		if i > 0 && r.cts[0].kind == "func" {
			break // an implementation's own contract says what it matters for
		}
		for _, p := range c.props {
			m[p] = true
		}
	}
	return sortedKeys(m)
}

// Generate runs the symbolic evaluation of a root and collects its obligations.
func (P *Program) Generate(r *Root) (E *Engine) {
	E = NewEngine(P, r.name)
	defer func() {
		if x := recover(); x != nil {
			E.crash = fmt.Sprint(x)
			if debugPanics {
				panic(x)
			}
		}
	}()
	main := r.cts[0]
	E.contract = main
	E.alloc0 = Sym("A0", SInt)
	allocSyms[E.alloc0] = 1
	st := &State{guard: True, heap: map[string]*Term{}, glob: map[string]*Term{}, cells: map[int]Value{}, alloc: E.alloc0}
	E.assume(st, Le(Int(1000), E.alloc0))
	var args []Value
	var ts []types.Type
	if r.fn != nil {
		if rv := r.fn.Signature.Recv(); rv != nil {
			ts = append(ts, rv.Type())
		}
		ts = append(ts, sigTypes(r.fn.Signature)...)
	} else {
		for _, p := range main.params {
			ts = append(ts, p.t)
		}
	}
	for i, t := range ts {
		var cs []*Term
		for _, c := range comps(t) {
			cs = append(cs, Sym("p:"+main.params[i].name+c.suffix, c.sort))
		}
		v := fromTerms(t, cs)
		E.typed(st, t, cs)
		args = append(args, v)
	}
	if r.fn != nil && r.fn.Signature.Recv() != nil {
		// methods are called on non-nil receivers
		if _, ok := ts[0].Underlying().(*types.Pointer); ok {
			E.assume(st, Not(Eq(T(args[0]), Int(0))))
			E.assumed["methods are called with a non-nil receiver (checked at each call that dereferences)"] = true
		}
	}
	type actx struct {
		ct   *Contract
		args []Value
		gh   []Value
		lets []Value
	}
	var ctxs []actx
	for _, ct := range r.cts {
		if ct.bad != "" {
			E.unsupported("contract: " + ct.bad)
		}
		cargs := append([]Value{}, args...)
		if ct.kind == "iface" {
			vi := VIface{r.self, args[0]}
			cargs[0] = VT{E.ifaceTerm(st, vi)}
			if _, ok := r.self.Underlying().(*types.Pointer); ok {
				cargs[0] = VT{T(args[0])}
				E.knownType[T(args[0])] = r.self
				E.assume(st, Eq(App("typeof", SInt, T(args[0])), Int(int64(P.typeID(r.self)))))
			}
		}
		var gh []Value
		for _, g := range ct.ghosts {
			v := E.freshValue(st, "ghost:"+g.name, g.t)
			gh = append(gh, v)
			E.ghosts = append(E.ghosts, ghost{g.name, g.t, v})
		}
		ctxs = append(ctxs, actx{ct, cargs, gh, nil})
	}
	E.init = st.clone()
	E.old = E.init
	E.rootSt = st
	for i := range ctxs {
		x := &ctxs[i]
		x.lets = E.evalPre(st, x.ct, x.args, x.gh)
		for _, rq := range x.ct.requires {
			if rq.fn == nil {
				continue
			}
			E.assume(st, E.evalClause(st, rq.fn, append(append(append([]Value{}, x.args...), x.gh...), x.lets...)))
		}
		for _, u := range x.ct.lems {
			if u.fn != nil {
				E.useLemma(st, u, append(append(append([]Value{}, x.args...), x.gh...), x.lets...))
			}
		}
	}
	E.old = E.init
	E.rootFn = r.fn
	E.rootParams, E.rootGhosts, E.rootLets = ctxs[0].args, ctxs[0].gh, ctxs[0].lets
	E.nPre = len(E.asm)
	init := st.clone()
	check := func(st *State, rets VTuple) {
		for _, x := range ctxs {
			for _, gs := range x.ct.sets {
				// the ghost variable takes the value of the expression
				gt := P.globalType(gs.glob)
				if gt == nil || gs.fn == nil {
					E.unsupported("ghost assignment to " + gs.glob)
					continue
				}
				a := append(append(append(append([]Value{}, x.args...), x.gh...), x.lets...), rets...)
				for _, c := range comps(gt) {
					st.glob[gs.glob+c.suffix] = Fresh("Gs:"+gs.glob, c.sort)
				}
				E.assume(st, E.evalClause(st, gs.fn, a))
			}
		}
		for _, x := range ctxs {
			for _, u := range x.ct.fins {
				if u.fn != nil {
					E.useLemma(st, u, append(append(append(append([]Value{}, x.args...), x.gh...), x.lets...), rets...))
				}
			}
		}
		for _, x := range ctxs {
			for _, en := range x.ct.ensures {
				if en.fn == nil {
					continue
				}
				if en.naming {
					E.assumed["the result of "+x.ct.key+" has a name: "+en.text] = true
					continue
				}
				a := append(append(append(append([]Value{}, x.args...), x.gh...), x.lets...), rets...)
				g := E.evalClause(st, en.fn, a)
				pr := en.props
				if pr == nil {
					pr = x.ct.props
				}
				pos := token.NoPos
				if r.fn != nil {
					pos = r.fn.Pos()
				}
				E.oblige(st, "ensures", en.text, g, pr, pos)
			}
		}
		if r.fn != nil {
			mods := []*modEnt{}
			var margs [][]Value
			for _, x := range ctxs {
				for _, m := range x.ct.modifies {
					mods = append(mods, m)
					margs = append(margs, append(append(append([]Value{}, x.args...), x.gh...), x.lets...))
				}
			}
			E.checkFrame(st, init, mods, margs)
		}
	}
	if r.fn != nil {
		E.onReturn = func(st *State, v Value) {
			E.onReturn = nil
			rets, _ := v.(VTuple)
			check(st, rets)
		}
		hook := E.onReturn
		E.onReturn = func(st *State, v Value) {
			if st.guard == False {
				return
			}
			saved := E.onReturn
			hook(st, v)
			E.onReturn = saved
		}
		E.callBody(r.fn, args, nil, st)
	} else {
		check(st, nil)
	}
	E.final = st.guard
	if st.guard == False {
		E.unsupported("no path returns")
	}
	return E
}

// checkFrame obliges that nothing outside the modifies clauses changed for objects that existed before.
func (E *Engine) checkFrame(st, init *State, mods []*modEnt, margs [][]Value) {
	for _, m := range mods {
		if m.name == "anything" {
			return
		}
	}
	allowAll := map[string]bool{}
	allowAt := map[string][]*Term{}
	for i, m := range mods {
		heap, glob := E.modNames(m)
		for _, g := range glob {
			allowAll["G:"+g.suffix] = true
		}
		for _, h := range heap {
			if m.at == "" {
				allowAll[h.suffix] = true
			} else {
				allowAt[h.suffix] = append(allowAt[h.suffix], E.modRef(init, m, margs[i]))
			}
		}
	}
	names := map[string]bool{}
	for n := range st.heap {
		names[n] = true
	}
	for _, n := range sortedKeys(names) {
		if allowAll[n] {
			continue
		}
		t := st.heap[n]
		_, vs := t.sort.arrKV()
		t0, ok := init.heap[n]
		if !ok {
			t0 = E.heapInit(n, vs)
		}
		if t == t0 {
			continue
		}
		idx := map[*Term]bool{}
		if storeIndices(t, t0, idx, map[*Term]bool{}) {
			bad := false
			for ix := range idx {
				if E.isFresh(ix) {
					continue
				}
				at := false
				for _, r := range allowAt[n] {
					if r == ix {
						at = true
					}
				}
				if !at {
					bad = true
				}
			}
			if !bad {
				continue
			}
		}
		r := Fresh("frame", SInt)
		cond := []*Term{Lt(Int(0), r), Le(r, E.alloc0)}
		for _, x := range allowAt[n] {
			cond = append(cond, Not(Eq(r, x)))
		}
		E.oblige(st, "frame", "only the listed state changes: "+n, Implies(And(cond...), Eq(Select(t, r), Select(t0, r))), nil, 0)
	}
	gn := map[string]bool{}
	for n := range st.glob {
		gn[n] = true
	}
	for _, n := range sortedKeys(gn) {
		if allowAll["G:"+n] {
			continue
		}
		t := st.glob[n]
		t0, ok := init.glob[n]
		if !ok {
			t0 = Sym("G:"+n, t.sort)
		}
		if t != t0 {
			E.oblige(st, "frame", "only the listed state changes: global "+n, Eq(t, t0), nil, 0)
		}
	}
}
