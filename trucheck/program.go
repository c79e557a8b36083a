package main

// Loading of the program under analysis and the facts about it that the
// engine relies on: which locations never hold nil and which are written only
// before they are published.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var repoDir = "/repo"

const modPath = "github.com/teonet-go/tru"

type Program struct {
	prepared  bool
	callers   map[*ssa.Function][]ssa.Instruction
	prog      *ssa.Program
	fset      *token.FileSet
	pkgs      map[string]*ssa.Package // by short name
	all       map[*ssa.Function]bool
	nullable  map[string]bool
	unstable  map[*types.Var]bool            // written after publication
	writers   map[*types.Var]map[string]bool // root classes that write it after publication
	readsNet  map[*ssa.Function]bool
	allowNil  bool
	phased    bool
	nfiles    int
	listTypes map[string]types.Type // dynamic types pushed into container/list lists
	ranges    map[*types.Var]iv     // values of integer fields
	grown     map[*types.Var]int
	thresh    []int64
	wild      map[*types.Var]bool // integer fields written through pointers or from outside
	phase0    []*Eng
	hinted    bool
	cells     map[*ssa.Alloc]bool
	mapWr     map[string]map[string]bool // who changes the entries of shared maps
	pairBad   map[[2]*types.Var]bool
	flags     map[*types.Var]bool // see Rule.Split

	pairPtrs   map[*types.Var][]*types.Var // boolean field -> pointer fields of its struct
	pairStruct map[*types.Var]*types.Struct
	pairInfo   map[*types.Struct]*pairInfo
	pairStores map[*ssa.Function]map[*types.Struct]bool
	cellMu     sync.Mutex
}

type stab int

const (
	stNone stab = iota
	stInit
	stListener
)

func loadProgram(goos string, patterns ...string) (*Program, error) {
	if len(patterns) == 0 {
		patterns = []string{"./..."}
	}
	env := append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK="+filepath.Join(repoDir, "go.work"))
	if goos != "" {
		arch := "amd64"
		if goos == "js" {
			arch = "wasm"
		}
		env = append(env, "GOOS="+goos, "GOARCH="+arch, "CGO_ENABLED=0")
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo |
			packages.NeedImports | packages.NeedDeps | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repoDir, Env: env, Tests: false,
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Program{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, nullable: map[string]bool{},
		unstable: map[*types.Var]bool{}, writers: map[*types.Var]map[string]bool{}, readsNet: map[*ssa.Function]bool{},
		cells: map[*ssa.Alloc]bool{}, mapWr: map[string]map[string]bool{}, pairBad: map[[2]*types.Var]bool{}, listTypes: map[string]types.Type{}, ranges: map[*types.Var]iv{}, grown: map[*types.Var]int{}, wild: map[*types.Var]bool{}}
	for _, pk := range prog.AllPackages() {
		if p.inModPath(pk.Pkg.Path()) {
			pk.Build()
			short := pk.Pkg.Path()[strings.LastIndex(pk.Pkg.Path(), "/")+1:]
			p.pkgs[short] = pk
		}
	}
	p.all = map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || p.all[f] {
			return
		}
		p.all[f] = true
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, pk := range p.pkgs {
		for _, m := range pk.Members {
			switch x := m.(type) {
			case *ssa.Function:
				visit(x)
			case *ssa.Type:
				for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							visit(f)
						}
					}
				}
			}
		}
	}
	p.nameFields()
	p.findReaders()
	p.findWild()
	return p, nil
}

func (p *Program) inModPath(s string) bool {
	if strings.Contains(s, "/examples/") {
		return false
	}
	return s == modPath || strings.HasPrefix(s, modPath+"/")
}

func (p *Program) inModule(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return p.inModPath(fn.Pkg.Pkg.Path())
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return p.inModPath(o.Pkg().Path())
	}
	return false
}

func (p *Program) inModVar(v *types.Var) bool {
	return v != nil && v.Pkg() != nil && p.inModPath(v.Pkg().Path())
}

// functions sorted by position
func (p *Program) functions() []*ssa.Function {
	var fs []*ssa.Function
	for f := range p.all {
		if f.Blocks != nil {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool {
		if fs[i].Pos() != fs[j].Pos() {
			return fs[i].Pos() < fs[j].Pos()
		}
		return fs[i].String() < fs[j].String()
	})
	return fs
}

// findReaders marks functions from which a datagram is received
func (p *Program) findReaders() {
	calls := map[*ssa.Function][]*ssa.Function{}
	for f := range p.all {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isGo := i.(*ssa.Go); isGo {
					continue
				}
				cc := c.Common()
				if cc.IsInvoke() {
					if cc.Method.Name() == "ReadFrom" && cc.Method.Pkg() != nil && cc.Method.Pkg().Path() == "net" {
						p.readsNet[f] = true
					}
					continue
				}
				if s := cc.StaticCallee(); s != nil {
					calls[f] = append(calls[f], s)
					if strings.HasPrefix(s.String(), "(*net.UDPConn).ReadFrom") {
						p.readsNet[f] = true
					}
				}
				for _, a := range cc.Args {
					if mc, ok := a.(*ssa.MakeClosure); ok {
						calls[f] = append(calls[f], mc.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for f, cs := range calls {
			for _, c := range cs {
				if p.readsNet[c] && !p.readsNet[f] {
					p.readsNet[f] = true
					ch = true
				}
			}
		}
	}
}

func (p *Program) listenerTask(t *Task) bool {
	return t.Kind == "listener" || t.Kind == "go" && p.readsNet[t.Fn]
}

// fieldNames gives fields of module structs names that do not depend on positions
var fieldNames = map[*types.Var]string{}
var fieldsByName = map[string]*types.Var{}

func (p *Program) nameFields() {
	fieldNames, fieldsByName = map[*types.Var]string{}, map[string]*types.Var{}
	var walk func(name string, t types.Type)
	walk = func(name string, t types.Type) {
		switch u := t.(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				n := name + "." + f.Name()
				if _, ok := fieldNames[f]; ok || !p.inModVar(f) {
					continue
				}
				fieldNames[f], fieldsByName[n] = n, f
				walk(n, f.Type())
			}
		case *types.Pointer:
			walk(name, u.Elem())
		case *types.Slice:
			walk(name, u.Elem())
		case *types.Array:
			walk(name, u.Elem())
		case *types.Map:
			walk(name, u.Elem())
		case *types.Chan:
			walk(name, u.Elem())
		}
	}
	for _, pk := range p.pkgs {
		for _, m := range pk.Members {
			switch x := m.(type) {
			case *ssa.Type:
				walk(pk.Pkg.Path()+"."+x.Name(), x.Type().Underlying())
			case *ssa.Global:
				walk(pk.Pkg.Path()+"."+x.Name(), x.Type())
			}
		}
	}
}

func fieldKey(f *types.Var) string {
	if n, ok := fieldNames[f]; ok {
		return "F:" + n
	}
	return fmt.Sprintf("F:%s.%s@%d", f.Pkg().Path(), f.Name(), f.Pos())
}

func (p *Program) neverNil(f *types.Var) bool {
	if p.allowNil || !p.inModVar(f) || !nilTracked(f.Type()) {
		return false
	}
	return !p.nullable[fieldKey(f)]
}

// nilTracked: pointers, maps, channels, functions and interfaces
func nilTracked(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

func (p *Program) elemNeverNil(addr *V) bool {
	if addr.typ == nil || p.allowNil {
		return false
	}
	pt, ok := addr.typ.Underlying().(*types.Pointer)
	if !ok || !nilTracked(pt.Elem()) || !p.modType(pt.Elem()) {
		return false
	}
	return !p.nullable["E:"+pt.Elem().String()]
}

// modType: a type that only the module can store into its containers
func (p *Program) modType(t types.Type) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return p.inModPath(n.Obj().Pkg().Path())
	}
	return false
}

func (p *Program) globalNeverNil(g *ssa.Global) bool {
	if p.allowNil || g.Pkg == nil {
		return false
	}
	pt := g.Type().Underlying().(*types.Pointer)
	if !nilTracked(pt.Elem()) {
		return false
	}
	if !p.inModPath(g.Pkg.Pkg.Path()) {
		// variables of the standard library such as rand.Reader or os.Stdin
		return true
	}
	return !p.nullable["G:"+g.String()]
}

func (p *Program) globalStable(g *ssa.Global) bool {
	return g.Pkg == nil || !p.inModPath(g.Pkg.Pkg.Path())
}

func (p *Program) mapElemNeverNil(m *V) bool {
	if m.typ == nil || p.allowNil {
		return false
	}
	mt, ok := m.typ.Underlying().(*types.Map)
	if !ok || !nilTracked(mt.Elem()) {
		return false
	}
	return !p.nullable["M:"+mt.String()]
}

func (p *Program) chanElemNeverNil(t types.Type) bool {
	if p.allowNil || !nilTracked(t) || !p.modType(t) {
		return false
	}
	return !p.nullable["C:"+t.String()]
}

func (p *Program) unboxNeverNil(t types.Type) bool {
	if p.allowNil {
		return false
	}
	return p.modType(t) && !p.nullable["B:"+t.String()]
}

func (p *Program) stability(f *types.Var) stab {
	if !p.inModVar(f) {
		return stNone
	}
	if !p.unstable[f] {
		return stInit
	}
	w := p.writers[f]
	if len(w) == 1 && w["listener"] {
		return stListener
	}
	return stNone
}

// ---------------------------------------------------------------- roots

// apiRoots are the exported functions and methods, the methods that other
// packages call through interfaces, and the package initialisers.
func (p *Program) apiRoots() []*ssa.Function {
	var out []*ssa.Function
	boxed := map[string]bool{}
	for f := range p.all {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if m, ok := i.(*ssa.MakeInterface); ok {
					boxed[m.X.Type().String()] = true
				}
			}
		}
	}
	promoted := map[*types.Func]bool{} // through embedding in an exported type
	for _, pk := range p.pkgs {
		for _, m := range pk.Members {
			t, ok := m.(*ssa.Type)
			if !ok || !token.IsExported(t.Name()) || types.IsInterface(t.Type()) {
				continue
			}
			ms := types.NewMethodSet(types.NewPointer(t.Type()))
			for i := 0; i < ms.Len(); i++ {
				if o, ok := ms.At(i).Obj().(*types.Func); ok {
					promoted[o] = true
				}
			}
		}
	}
	for _, f := range p.functions() {
		if f.Parent() != nil || f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		if f.Name() == "init" && f.Signature.Recv() == nil {
			continue
		}
		if !token.IsExported(f.Name()) {
			continue
		}
		if r := f.Signature.Recv(); r != nil {
			t := r.Type()
			base := t
			if pt, ok := t.(*types.Pointer); ok {
				base = pt.Elem()
			}
			n, ok := base.(*types.Named)
			if !ok {
				continue
			}
			o, _ := f.Object().(*types.Func)
			if !n.Obj().Exported() && !boxed[t.String()] && !boxed[base.String()] && !promoted[o] {
				continue
			}
		}
		out = append(out, f)
	}
	return out
}

// lookupFunc finds a function or method: "New", "(*Tru).serve"
func (p *Program) lookupFunc(pkg, name string) *ssa.Function {
	pk := p.pkgs[pkg]
	if pk == nil {
		return nil
	}
	if f := pk.Func(name); f != nil {
		return f
	}
	i := strings.LastIndex(name, ".")
	if i < 0 {
		return nil
	}
	tn := strings.Trim(name[:i], "(*)")
	t := pk.Type(tn)
	if t == nil {
		return nil
	}
	for _, tt := range []types.Type{types.NewPointer(t.Type()), t.Type()} {
		ms := p.prog.MethodSets.MethodSet(tt)
		for k := 0; k < ms.Len(); k++ {
			f := p.prog.MethodValue(ms.At(k))
			if f != nil && f.Name() == name[i+1:] && f.Synthetic == "" {
				return f
			}
		}
	}
	return nil
}

func (p *Program) structType(pkg, name string) *types.Named {
	pk := p.pkgs[pkg]
	if pk == nil {
		return nil
	}
	t := pk.Type(name)
	if t == nil {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

func fieldByName(n types.Type, name string) *types.Var {
	s := derefStruct(n)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i)
		}
	}
	return nil
}

// fieldsWhere lists the fields of a struct that satisfy a predicate
func fieldsWhere(n types.Type, ok func(*types.Var) bool) (out []*types.Var) {
	s := derefStruct(n)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if ok(s.Field(i)) {
			out = append(out, s.Field(i))
		}
	}
	return
}

// findWild marks the integer fields whose values can not be tracked and
// collects the constants used as widening thresholds
func (p *Program) findWild() {
	th := map[int64]bool{0: true, 1: true, 255: true, 65535: true, 1<<31 - 1: true}
	for f := range p.all {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				var ops [16]*ssa.Value
				for _, op := range i.Operands(ops[:0]) {
					if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && isInteger(c.Type()) {
						if n := c.Int64(); n > 0 && n < 1<<40 {
							th[n], th[n-1] = true, true
						}
					}
				}
				fa, ok := i.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				s := derefStruct(fa.X.Type())
				if s == nil {
					continue
				}
				v := s.Field(fa.Field)
				if at, ok := v.Type().Underlying().(*types.Array); ok {
					th[at.Len()-1] = true
				}
				if !isInteger(v.Type()) {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch x := r.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if x.Addr != fa {
							p.wild[v] = true
						}
					default:
						p.wild[v] = true
					}
				}
			}
		}
	}
	for n := range th {
		p.thresh = append(p.thresh, n)
	}
	sort.Slice(p.thresh, func(i, j int) bool { return p.thresh[i] < p.thresh[j] })
}

// fieldRange gives the values an integer field of the module can have
func (p *Program) fieldRange(f *types.Var) (iv, bool) {
	if !p.inModVar(f) || p.wild[f] || f.Exported() {
		return top, false
	}
	r, ok := p.ranges[f]
	if !ok {
		r = iv{0, 0}
	}
	return r, true
}

func (p *Program) widenRange(f *types.Var, r iv) bool {
	old, _ := p.fieldRange(f)
	n := old.hull(r)
	if n == old {
		return false
	}
	p.grown[f]++
	if n.hi > old.hi {
		h := maxI
		if p.grown[f] == 1 {
			h = n.hi
		} else if p.grown[f] <= 3 {
			for _, t := range p.thresh {
				if t >= n.hi {
					h = t
					break
				}
			}
		}
		n.hi = h
	}
	if n.lo < old.lo {
		n.lo = minI
		if p.grown[f] <= 3 && r.lo >= -1 {
			n.lo = -1
		}
	}
	p.ranges[f] = n
	return true
}

// ownCell: only the function that declares the variable writes it, the
// closures that capture it read it
func (p *Program) ownCell(a *ssa.Alloc) bool {
	p.cellMu.Lock()
	defer p.cellMu.Unlock()
	if r, ok := p.cells[a]; ok {
		return r
	}
	var readOnly func(v ssa.Value, owner bool) bool
	readOnly = func(v ssa.Value, owner bool) bool {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if x.Addr != v || !owner {
					return false
				}
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v && !readOnly(x.Fn.(*ssa.Function).FreeVars[i], false) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	r := readOnly(a, true)
	p.cells[a] = r
	return r
}
