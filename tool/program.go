package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded repository package plus specification code.
type Program struct {
	repoFiles   []*ast.File
	fset        *token.FileSet
	prog        *ssa.Program
	main        *ssa.Package
	stub        *ssa.Package
	tpkg        *types.Package
	info        *types.Info
	contracts   map[string]*Contract
	models      map[string]*ssa.Function
	modelFuncs  map[*ssa.Function]bool
	specFuncs   map[*ssa.Function]bool
	lemmas      map[*ssa.Function]bool
	readsCache  map[string]bool
	recSpec     map[*ssa.Function]bool
	recSpecList []*ssa.Function
	foldable    map[*ssa.Function]bool
	footprint   map[*ssa.Function][]fpEnt
	specApps    map[string]*ssa.Function
	constTabs   map[int64]*constTab
	constGlobs  map[string]Value
	nilBlind    map[*ssa.Function]bool
	extGlobal   map[string]bool
	frozen      map[string]bool
	guards      map[string]string        // heap key -> the mutex that protects it
	mutators    map[string]*ssa.Function // models of functions that change the elements of their first argument
	mapInvs     map[string]*Contract
	typeIDs     map[string]int
	typeByID    map[int]types.Type
	funcIDs     map[*ssa.Function]int64
	funcs       map[int64]*ssa.Function
	byKey       map[string]*ssa.Function
	addrT       []*ssa.Function
	fieldTypes  map[string]types.Type
	escTabs     map[string]bool
	dropped     []string // specification declarations that do not fit the current code
	order       []string // contract keys in file order
}

type constTab struct {
	name string
	typ  types.Type
	keys []*Term
	vals []Value

	sorted bool
	ok     bool // sorted, with distinct constant keys
}

type srcFile struct {
	name string
	text []byte
	repo bool
}

func goCmd(dir string, args ...string) ([]byte, error) {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	err := c.Run()
	if err != nil {
		return out.Bytes(), fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, errb.String())
	}
	return out.Bytes(), nil
}

// stdImporter resolves standard library packages from export data.
type stdImporter struct {
	gc   types.Importer
	stub map[string]*types.Package
}

func (s *stdImporter) Import(path string) (*types.Package, error) {
	if p, ok := s.stub[path]; ok {
		return p, nil
	}
	return s.gc.Import(path)
}

func newStdImporter(fset *token.FileSet, imports []string, dir string) (*stdImporter, error) {
	args := append([]string{"list", "-export", "-deps", "-f", "{{.ImportPath}}={{.Export}}"}, imports...)
	out, err := goCmd(dir, args...)
	if err != nil {
		return nil, err
	}
	exp := map[string]string{}
	for _, l := range strings.Split(string(out), "\n") {
		if i := strings.IndexByte(l, '='); i > 0 {
			exp[l[:i]] = l[i+1:]
		}
	}
	lookup := func(path string) (io.ReadCloser, error) {
		f := exp[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	}
	return &stdImporter{gc: importer.ForCompiler(fset, "gc", lookup), stub: map[string]*types.Package{}}, nil
}

const stubPath = "github.com/siebenmann/smtpd"

// Load reads the repository, the stub and the specification.
func Load(repo, spec, stub string) (*Program, error) {
	P := &Program{fset: token.NewFileSet(), contracts: map[string]*Contract{}, models: map[string]*ssa.Function{}, modelFuncs: map[*ssa.Function]bool{},
		specFuncs: map[*ssa.Function]bool{}, lemmas: map[*ssa.Function]bool{}, readsCache: map[string]bool{}, recSpec: map[*ssa.Function]bool{}, foldable: map[*ssa.Function]bool{}, footprint: map[*ssa.Function][]fpEnt{}, specApps: map[string]*ssa.Function{},
		constTabs: map[int64]*constTab{}, constGlobs: map[string]Value{}, nilBlind: map[*ssa.Function]bool{}, extGlobal: map[string]bool{}, frozen: map[string]bool{}, mutators: map[string]*ssa.Function{}, guards: map[string]string{}, mapInvs: map[string]*Contract{},
		typeIDs: map[string]int{}, typeByID: map[int]types.Type{}, funcIDs: map[*ssa.Function]int64{}, funcs: map[int64]*ssa.Function{}, byKey: map[string]*ssa.Function{},
		fieldTypes: map[string]types.Type{}, escTabs: map[string]bool{}}
	var files []*srcFile
	ents, err := filepath.Glob(filepath.Join(repo, "*.go"))
	if err != nil {
		return nil, err
	}
	sort.Strings(ents)
	for _, f := range ents {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		files = append(files, &srcFile{filepath.Base(f), b, true})
	}
	var ctext []string
	ents, _ = filepath.Glob(filepath.Join(spec, "*.go"))
	sort.Strings(ents)
	for _, f := range ents {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		files = append(files, &srcFile{"zz_" + filepath.Base(f), b, false})
		ctext = append(ctext, string(b))
	}
	if err := P.parseContracts(ctext); err != nil {
		return nil, err
	}
	files = append(files, &srcFile{"zz_clauses.go", P.genClauses(), false})

	// parse
	imports := map[string]bool{}
	type pf struct {
		s *srcFile
		f *ast.File
	}
	var parsed []pf
	for _, s := range files {
		f, err := parser.ParseFile(P.fset, s.name, s.text, parser.ParseComments)
		if err != nil {
			return nil, fmt.Errorf("%s: %v", s.name, err)
		}
		for _, im := range f.Imports {
			p := strings.Trim(im.Path.Value, `"`)
			if p != stubPath {
				imports[p] = true
			}
		}
		if s.repo {
			P.repoFiles = append(P.repoFiles, f)
		}
		parsed = append(parsed, pf{s, f})
	}
	stubFiles, _ := filepath.Glob(filepath.Join(stub, "*.go"))
	sort.Strings(stubFiles)
	var stubAst []*ast.File
	for _, f := range stubFiles {
		a, err := parser.ParseFile(P.fset, f, nil, 0)
		if err != nil {
			return nil, err
		}
		for _, im := range a.Imports {
			imports[strings.Trim(im.Path.Value, `"`)] = true
		}
		stubAst = append(stubAst, a)
	}
	var il []string
	for p := range imports {
		il = append(il, p)
	}
	sort.Strings(il)
	imp, err := newStdImporter(P.fset, il, stub)
	if err != nil {
		return nil, err
	}
	conf := types.Config{Importer: imp, GoVersion: "go1.17"}
	stubInfo := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	sp, err := (&types.Config{Importer: imp, GoVersion: "go1.17"}).Check(stubPath, P.fset, stubAst, stubInfo)
	if err != nil {
		return nil, fmt.Errorf("stub: %v", err)
	}
	imp.stub[stubPath] = sp

	// type-check, dropping specification declarations that do not fit the current code
	for round := 0; ; round++ {
		var asts []*ast.File
		for _, p := range parsed {
			asts = append(asts, p.f)
		}
		var errs []types.Error
		P.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
		conf.Error = func(e error) {
			if te, ok := e.(types.Error); ok {
				errs = append(errs, te)
			}
		}
		P.tpkg, _ = conf.Check("sinksmtp", P.fset, asts, P.info)
		if len(errs) == 0 {
			break
		}
		drop := map[ast.Decl]bool{}
		for _, e := range errs {
			pos := P.fset.Position(e.Pos)
			found := false
			for _, p := range parsed {
				if p.s.repo || p.s.name != pos.Filename {
					continue
				}
				for _, d := range p.f.Decls {
					if d.Pos() <= e.Pos && e.Pos <= d.End() {
						if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
							// unused import after dropping: drop the spec
							var keep []ast.Spec
							for _, s := range g.Specs {
								if !(s.Pos() <= e.Pos && e.Pos <= s.End()) {
									keep = append(keep, s)
								}
							}
							g.Specs = keep
							found = true
							if len(keep) == 0 {
								drop[d] = true
							}
							continue
						}
						drop[d] = true
						found = true
						nm := "decl"
						if fd, ok := d.(*ast.FuncDecl); ok {
							nm = fd.Name.Name
						}
						P.dropped = append(P.dropped, fmt.Sprintf("%s (%s)", nm, e.Msg))
					}
				}
			}
			if !found {
				return nil, fmt.Errorf("type error: %s: %s", pos, e.Msg)
			}
		}
		for i := range parsed {
			var keep []ast.Decl
			for _, d := range parsed[i].f.Decls {
				if !drop[d] {
					keep = append(keep, d)
				}
			}
			parsed[i].f.Decls = keep
		}
		if round > 40 {
			return nil, fmt.Errorf("specification does not fit the code: %v", P.dropped)
		}
	}
	// SSA
	P.prog = ssa.NewProgram(P.fset, ssa.BuilderMode(0))
	created := map[*types.Package]bool{}
	var create func(ps []*types.Package)
	create = func(ps []*types.Package) {
		for _, p := range ps {
			if !created[p] {
				created[p] = true
				P.prog.CreatePackage(p, nil, nil, true)
				create(p.Imports())
			}
		}
	}
	create(sp.Imports())
	created[sp] = true
	P.stub = P.prog.CreatePackage(sp, stubAst, stubInfo, true)
	create(P.tpkg.Imports())
	var asts []*ast.File
	for _, p := range parsed {
		asts = append(asts, p.f)
	}
	P.main = P.prog.CreatePackage(P.tpkg, asts, P.info, false)
	P.stub.Build()
	P.main.Build()

	// classify functions
	all := ssautil.AllFunctions(P.prog)
	var list []*ssa.Function
	for fn := range all {
		list = append(list, fn)
	}
	for _, m := range P.main.Members {
		if f, ok := m.(*ssa.Function); ok && !all[f] {
			list = append(list, f)
			all[f] = true
		}
	}
	sort.Slice(list, func(i, j int) bool {
		if list[i].String() != list[j].String() {
			return list[i].String() < list[j].String()
		}
		return list[i].Pos() < list[j].Pos()
	})
	for _, fn := range list {
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		if top.Pkg != P.main {
			continue
		}
		file := P.fset.Position(top.Pos()).Filename
		if strings.HasPrefix(file, "zz_") && top.Name() != "init" {
			if P.contracts[top.Name()] != nil && fn == top {
				// a lemma: a ghost function that is itself verified against its contract
				P.byKey[fnKey(fn)] = fn
				P.lemmas[fn] = true
				continue
			}
			P.specFuncs[fn] = true
			if d, ok := top.Syntax().(*ast.FuncDecl); ok && d.Doc != nil {
				for _, l := range d.Doc.List {
					if s := strings.TrimPrefix(l.Text, "//@ model "); s != l.Text {
						delete(P.specFuncs, fn)
						P.modelFuncs[fn] = true
						if k := strings.TrimSuffix(s, " mutates"); k != s {
							P.mutators[strings.TrimSpace(k)] = fn
						} else if fn == top {
							P.models[strings.TrimSpace(s)] = fn
						}
					}
				}
			}
		} else if fn.Synthetic == "" {
			P.byKey[fnKey(fn)] = fn
		}
	}
	P.findAddrTaken(list)
	P.findUsedFields(list)
	P.findRecSpec()
	P.buildFieldTypes()
	P.evalInit(list)
	P.bindContracts()
	P.computeFootprints()
	return P, nil
}

// WriteFiles writes the pruned specification files, for the replay harness.
func (P *Program) formatFile(f *ast.File) []byte {
	var b bytes.Buffer
	format.Node(&b, P.fset, f)
	return b.Bytes()
}

func (P *Program) findAddrTaken(list []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	for _, fn := range list {
		if fn.Pkg != P.main && (fn.Parent() == nil) {
			continue
		}
		if P.specFuncs[fn] || P.modelFuncs[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var callee ssa.Value
				if c, ok := ins.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				first := true
				for _, op := range ins.Operands(nil) {
					if *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						if *op == callee && first {
							first = false
							continue
						}
						if !seen[f] && !P.specFuncs[f] {
							seen[f] = true
							P.addrT = append(P.addrT, f)
						}
					}
				}
			}
		}
	}
	sort.Slice(P.addrT, func(i, j int) bool { return P.addrT[i].Pos() < P.addrT[j].Pos() })
}

func (P *Program) addrTaken(sig *types.Signature) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.addrT {
		if len(f.FreeVars) == 0 && f.Signature.Recv() == nil && types.Identical(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), f.Signature.Variadic()), types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) {
			out = append(out, f)
		}
	}
	return out
}

func (P *Program) findUsedFields(list []*ssa.Function) {
	note := func(t types.Type, i int) {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		t = types.Unalias(t)
		k := typeKey(t)
		if usedFields[k] == nil {
			usedFields[k] = map[int]bool{}
		}
		usedFields[k][i] = true
	}
	for _, fn := range list {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					note(x.X.Type(), x.Field)
				case *ssa.Field:
					note(x.X.Type(), x.Field)
				}
			}
		}
	}
}

func (P *Program) findRecSpec() {
	calls := map[*ssa.Function][]*ssa.Function{}
	for fn := range P.specFuncs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && P.specFuncs[g] {
						calls[fn] = append(calls[fn], g)
					}
				}
			}
		}
	}
	for fn := range P.specFuncs {
		seen := map[*ssa.Function]bool{}
		var dfs func(f *ssa.Function) bool
		dfs = func(f *ssa.Function) bool {
			for _, g := range calls[f] {
				if g == fn {
					return true
				}
				if !seen[g] {
					seen[g] = true
					if dfs(g) {
						return true
					}
				}
			}
			return false
		}
		if !dfs(fn) && P.specMark(fn, "foldable") {
			P.foldable[fn] = true
			P.recSpecList = append(P.recSpecList, fn)
		}
		if dfs(fn) || P.specMark(fn, "opaque") {
			P.recSpec[fn] = true
			P.recSpecList = append(P.recSpecList, fn)
		}
	}
	sort.Slice(P.recSpecList, func(i, j int) bool { return P.recSpecList[i].Name() < P.recSpecList[j].Name() })
}

// specMark: a specification function marked //@ opaque is kept as a symbol and unfolded on demand;
// one marked //@ foldable is kept as a symbol where a contract says fold.
func (P *Program) specMark(fn *ssa.Function, mark string) bool {
	d, ok := fn.Syntax().(*ast.FuncDecl)
	if !ok || d.Doc == nil {
		return false
	}
	for _, l := range d.Doc.List {
		if strings.HasPrefix(l.Text, "//@ "+mark) {
			return true
		}
	}
	return false
}

func (P *Program) buildFieldTypes() {
	var walk func(prefix string, t types.Type)
	walk = func(prefix string, t types.Type) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok || isOpaque(t) {
			return
		}
		for _, i := range structFields(t) {
			f := st.Field(i)
			P.fieldTypes[prefix+"."+f.Name()] = f.Type()
			walk(prefix+"."+f.Name(), f.Type())
		}
	}
	addPkg := func(pkg *types.Package) {
		for _, n := range pkg.Scope().Names() {
			if tn, ok := pkg.Scope().Lookup(n).(*types.TypeName); ok {
				t := tn.Type()
				walk(typeKey(t), t)
				if _, ok := t.Underlying().(*types.Struct); !ok {
					P.fieldTypes[typeKey(t)] = t
				}
			}
		}
	}
	addPkg(P.tpkg)
	for _, p := range P.tpkg.Imports() {
		addPkg(p)
	}
	for _, b := range []string{"string", "int", "bool"} {
		P.fieldTypes[b] = types.Universe.Lookup(b).Type()
	}
}

func (P *Program) fieldTypeOf(n string) types.Type { return P.fieldTypes[n] }

func (P *Program) globalType(g string) types.Type {
	if o := P.tpkg.Scope().Lookup(g); o != nil {
		if v, ok := o.(*types.Var); ok {
			return v.Type()
		}
	}
	return nil
}

func (P *Program) isFrozenKey(name string) bool {
	if strings.HasPrefix(name, "M:") {
		return false
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		return P.frozen[name[:i]]
	}
	return P.frozen[name]
}
func (P *Program) isFrozenPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && P.frozen[typeKey(p.Elem())]
}

func (P *Program) typeID(t types.Type) int {
	k := typeKey(t)
	if id, ok := P.typeIDs[k]; ok {
		return id
	}
	id := len(P.typeIDs) + 1
	P.typeIDs[k] = id
	P.typeByID[id] = t
	return id
}
func (P *Program) funcID(fn *ssa.Function) *Term {
	if id, ok := P.funcIDs[fn]; ok {
		return Int(id)
	}
	id := int64(500 + len(P.funcIDs))
	P.funcIDs[fn] = id
	P.funcs[id] = fn
	return Int(id)
}
func (P *Program) funcByID(id int64) *ssa.Function { return P.funcs[id] }

func (P *Program) isMainSynthetic(fn *ssa.Function) bool {
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return n.Obj().Pkg() == P.tpkg
		}
	}
	return strings.HasPrefix(fn.Synthetic, "bound method") || strings.HasPrefix(fn.Synthetic, "wrapper") || strings.HasPrefix(fn.Synthetic, "thunk")
}

func (P *Program) constGlobal(key string) (Value, bool) {
	v, ok := P.constGlobs[key]
	return v, ok
}
func (P *Program) tabEscapes(mt *types.Map) bool { return P.escTabs[typeKey(mt)] }

// ifaceContractFor finds an interface contract that method fn implements.
func (P *Program) ifaceContractFor(fn *ssa.Function) (*Contract, types.Type) {
	r := fn.Signature.Recv()
	if r == nil {
		return nil, nil
	}
	for _, ct := range P.contracts {
		if ct.kind == "iface" && ct.method == fn.Name() && ct.ifaceT != nil {
			if types.Implements(r.Type(), ct.ifaceT) {
				return ct, r.Type()
			}
		}
	}
	return nil, nil
}

// ---- initial values of package variables

func (P *Program) evalInit(list []*ssa.Function) {
	written := map[*ssa.Global]bool{}
	for _, fn := range list {
		isInit := fn == P.main.Func("init")
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || *op == nil {
						continue
					}
					if g.Pkg != P.main {
						P.extGlobal[globName(g)] = true
						continue
					}
					if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					if s, ok := ins.(*ssa.Store); ok && s.Addr == *op && isInit {
						continue
					}
					written[g] = true
				}
			}
		}
	}
	E := NewEngine(P, "init")
	E.quiet = 1
	st := &State{guard: True, heap: map[string]*Term{}, glob: map[string]*Term{}, cells: map[int]Value{}, alloc: Int(0)}
	E.alloc0 = Int(0)
	E.tabs = map[int64]*constTab{}
	init := P.main.Func("init")
	st.glob["init$guard"] = False
	func() {
		defer func() {
			if r := recover(); r != nil {
				fmt.Fprintln(os.Stderr, "warning: init evaluation:", r)
			}
		}()
		E.callBody(init, nil, nil, st)
	}()
	if os.Getenv("GOV_INIT") != "" {
		for k := range st.glob {
			fmt.Fprintln(os.Stderr, k)
		}
		for _, m := range P.main.Members {
			if g, ok := m.(*ssa.Global); ok && written[g] {
				fmt.Fprintln(os.Stderr, "written", g.Name())
			}
		}
	}
	for _, m := range P.main.Members {
		g, ok := m.(*ssa.Global)
		if !ok || written[g] || g.Name() == "init$guard" {
			continue
		}
		t := g.Type().Underlying().(*types.Pointer).Elem()
		var ts []*Term
		good := true
		for _, c := range comps(t) {
			x, ok := st.glob[g.Name()+c.suffix]
			if !ok {
				good = false
				break
			}
			ts = append(ts, x)
		}
		if !good || len(ts) == 0 {
			continue
		}
		if mt, ok := t.Underlying().(*types.Map); ok {
			if ts[0].op != "int" {
				continue
			}
			tab := E.tabs[ts[0].iv]
			if os.Getenv("GOV_INIT") != "" {
				fmt.Fprintln(os.Stderr, g.Name(), ts[0].iv, tab != nil, P.mapReadOnly(list, g))
			}
			if tab == nil || !types.Identical(tab.typ.Underlying(), mt) || !P.mapReadOnly(list, g) {
				continue
			}
			tab.name = g.Name()
			tab.typ = mt
			P.constTabs[ts[0].iv] = tab
			P.constGlobs[g.Name()] = VT{ts[0]}
			continue
		}
		isC := true
		for _, x := range ts {
			if !groundConst(x) {
				isC = false
			}
		}
		switch t.Underlying().(type) {
		case *types.Basic:
			if isC {
				P.constGlobs[g.Name()] = fromTerms(t, ts)
			}
		case *types.Pointer:
			// the result of a library function of constants
			if x := ts[0]; len(ts) == 1 && x.op == "app" && strings.HasPrefix(x.name, "u:") {
				all := true
				for _, a := range x.args {
					all = all && a.isConst()
				}
				if all {
					P.constGlobs[g.Name()] = fromTerms(t, ts)
				}
			}
		}
	}
	// nested tables
	for _, tab := range P.constTabs {
		for _, v := range tab.vals {
			if x, ok := v.(VT); ok && x.t.op == "int" {
				if sub := E.tabs[x.t.iv]; sub != nil {
					if _, ok := tab.typ.(*types.Map).Elem().Underlying().(*types.Map); ok && P.constTabs[x.t.iv] == nil {
						P.constTabs[x.t.iv] = sub
					}
				}
			}
		}
	}
}

func groundConst(t *Term) bool {
	if t.isConst() || t.op == "as" {
		return true
	}
	if t.op == "seq.++" || t.op == "seq.unit" {
		for _, a := range t.args {
			if !groundConst(a) {
				return false
			}
		}
		return true
	}
	return false
}

// mapReadOnly: the loaded map is only read; if it flows anywhere else its type is marked as escaping,
// and every map write of that type is then checked not to hit the table.
func (P *Program) mapReadOnly(list []*ssa.Function, g *ssa.Global) bool {
	mt := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Map)
	for _, fn := range list {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				u, ok := ins.(*ssa.UnOp)
				if !ok || u.X != ssa.Value(g) {
					continue
				}
				for _, ref := range *u.Referrers() {
					switch r := ref.(type) {
					case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
					case *ssa.MapUpdate:
						if r.Map == ssa.Value(u) {
							return false
						}
						P.escTabs[typeKey(mt)] = true
					case *ssa.Call:
						if bi, ok := r.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
							continue
						}
						P.escTabs[typeKey(mt)] = true
					default:
						P.escTabs[typeKey(mt)] = true
					}
				}
			}
		}
	}
	return true
}
