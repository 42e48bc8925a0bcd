package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/batchatco/go-native-netcdf"
const throwerPath = "github.com/batchatco/go-thrower"

// Prog is the type-checked program and its SSA form.
type Prog struct {
	fnIDs map[*ssa.Function]int
	dir   string
	pkgs  []*packages.Package
	prog  *ssa.Program
	ssa   map[string]*ssa.Package // by import path relative to the module
	funcs []*ssa.Function         // every function of the module with a body, sorted
	thr   *ssa.Package
	files int

	calleesMemo map[*ssa.Function][]*ssa.Function
	addrTaken   map[string][]*ssa.Function
	concrete    []types.Type // concrete named types of the module (and pointers to them)
	callersMemo map[*ssa.Function][]callSite
	storedG     map[*ssa.Global][]*ssa.Function
	apiMemo     []*ssa.Function
	throws      map[*ssa.Function]bool
}

type callSite struct {
	fn   *ssa.Function
	site ssa.CallInstruction
}

func load(dir string, env ...string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: append(append(os.Environ(), "GOFLAGS=-mod=readonly -buildvcs=false", "CGO_ENABLED=0"), env...),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{fnIDs: map[*ssa.Function]int{}, dir: dir, pkgs: pkgs, prog: prog, ssa: map[string]*ssa.Package{}}
	for _, sp := range prog.AllPackages() {
		path := sp.Pkg.Path()
		if path == modPath || strings.HasPrefix(path, modPath+"/") {
			sp.Build()
			rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
			p.ssa[rel] = sp
		}
		if path == throwerPath {
			sp.Build()
			p.thr = sp
		}
	}
	for _, pk := range pkgs {
		p.files += len(pk.CompiledGoFiles)
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		p.funcs = append(p.funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				// generic instances, wrappers and bound methods are reached through their uses
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && p.inModule(g) {
						add(g)
					}
				}
			}
		}
	}
	for _, sp := range p.ssa {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if m.TypeParams().Len() == 0 || len(m.TypeArgs()) > 0 {
					add(m)
				}
			case *ssa.Type:
				t := m.Type()
				if types.IsInterface(t) {
					continue
				}
				if n, ok := t.(*types.Named); ok && n.TypeParams().Len() > 0 {
					continue
				}
				for _, tt := range []types.Type{t, types.NewPointer(t)} {
					p.concrete = append(p.concrete, tt)
					ms := prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool { return p.funcs[i].Pos() < p.funcs[j].Pos() })
	sort.Slice(p.concrete, func(i, j int) bool { return p.concrete[i].String() < p.concrete[j].String() })
	return p, nil
}

// pkgOf gives the package a function belongs to, looking through closures and instances.
func pkgOf(f *ssa.Function) *types.Package {
	for f != nil {
		if f.Pkg != nil {
			return f.Pkg.Pkg
		}
		if o := f.Origin(); o != nil && o != f {
			f = o
			continue
		}
		if f.Object() != nil {
			return f.Object().Pkg()
		}
		f = f.Parent()
	}
	return nil
}

func (p *Prog) inModule(f *ssa.Function) bool {
	pk := pkgOf(f)
	if pk == nil {
		return false
	}
	return pk.Path() == modPath || strings.HasPrefix(pk.Path(), modPath+"/")
}

// analysable says that the interpreter may look into the function.
func (p *Prog) analysable(f *ssa.Function) bool {
	if f == nil || f.Blocks == nil {
		return false
	}
	if p.inModule(f) {
		return true
	}
	pk := pkgOf(f)
	return pk != nil && pk.Path() == throwerPath
}

func (p *Prog) pkg(rel string) *ssa.Package { return p.ssa[rel] }

// fn finds a package-level function, or a method as "(T).m" or "(*T).m".
func (p *Prog) fn(rel, name string) *ssa.Function {
	sp := p.ssa[rel]
	if sp == nil {
		return nil
	}
	if strings.HasPrefix(name, "(") {
		end := strings.Index(name, ").")
		tn := strings.TrimPrefix(name[1:end], "*")
		m := name[end+2:]
		ty := sp.Type(tn)
		if ty == nil {
			return nil
		}
		for _, t := range []types.Type{ty.Type(), types.NewPointer(ty.Type())} {
			if sel := p.prog.MethodSets.MethodSet(t).Lookup(sp.Pkg, m); sel != nil {
				f := p.prog.MethodValue(sel)
				if f != nil && f.Synthetic == "" {
					return f
				}
			}
		}
		return nil
	}
	return sp.Func(name)
}

func (p *Prog) typ(rel, name string) types.Type {
	sp := p.ssa[rel]
	if sp == nil {
		return nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

func (p *Prog) pos(in interface{}) string {
	var ps tokenPos
	switch x := in.(type) {
	case ssa.Instruction:
		ps = instrPos(x)
	case *ssa.Function:
		ps = x.Pos()
	case tokenPos:
		ps = x
	}
	if !ps.IsValid() {
		return "?"
	}
	q := p.prog.Fset.Position(ps)
	rel, err := filepath.Rel(p.dir, q.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func instrPos(in ssa.Instruction) tokenPos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	// synthesized instructions: take the nearest position in the block
	b := in.Block()
	best := tokenPos(0)
	if b != nil {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				best = i.Pos()
			}
			if i == in && best.IsValid() {
				return best
			}
		}
	}
	if !best.IsValid() && in.Parent() != nil {
		return in.Parent().Pos()
	}
	return best
}

func shortFn(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.String()
	s = strings.ReplaceAll(s, modPath+"/netcdf/", "")
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, throwerPath, "thrower")
	return s
}

// callees resolves the possible targets of a call: static callees, methods of module types for
// interface calls, address-taken functions of the same signature for calls of function values.
func (p *Prog) callees(c *ssa.CallCommon) []*ssa.Function {
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	if c.IsInvoke() {
		return p.implementers(c.Value.Type(), c.Method)
	}
	if fs := localFuncs(c.Value); fs != nil {
		return fs
	}
	return p.funcValues(c.Value.Type())
}

// localFuncs gives the functions that a local variable holds, when it is only ever set to function literals.
func localFuncs(v ssa.Value) []*ssa.Function {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return nil
	}
	cell := cellOf(ld.X)
	if cell == nil {
		return nil
	}
	var out []*ssa.Function
	if !cellStores(cell, func(s ssa.Value) bool {
		switch x := s.(type) {
		case *ssa.MakeClosure:
			out = append(out, x.Fn.(*ssa.Function))
			return true
		case *ssa.Function:
			out = append(out, x)
			return true
		case *ssa.Const:
			return x.IsNil()
		}
		return false
	}) {
		return nil
	}
	return out
}

// cellOf finds the local variable behind an address, in whatever function it was declared.
func cellOf(v ssa.Value) *ssa.Alloc {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			f := x.Parent()
			v = nil
			for i, fv := range f.FreeVars {
				if fv == x {
					v = binding(f, i)
				}
			}
			if v == nil {
				return nil
			}
		default:
			return nil
		}
	}
	return nil
}

// cellStores visits what is stored in a variable, and fails if its address gets away.
func cellStores(cell ssa.Value, ok func(ssa.Value) bool) bool {
	refs := cell.Referrers()
	if refs == nil {
		return false
	}
	for _, ref := range *refs {
		switch s := ref.(type) {
		case *ssa.Store:
			if s.Addr != cell || !ok(s.Val) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			f := s.Fn.(*ssa.Function)
			for i, b := range s.Bindings {
				if b == cell && !cellStores(f.FreeVars[i], ok) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// binding gives what the closure captures, if it is made in one place.
func binding(f *ssa.Function, i int) ssa.Value {
	if f.Parent() == nil {
		return nil
	}
	var out ssa.Value
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				if out != nil && out != mc.Bindings[i] {
					return nil
				}
				out = mc.Bindings[i]
			}
		}
	}
	return out
}

// onlyCalled says that a function literal never gets away from where it is made: it is called, or
// kept in local variables that are only called.
func onlyCalled(mc *ssa.MakeClosure) bool {
	seen := map[ssa.Value]bool{}
	var value func(v ssa.Value) bool
	var cell func(v ssa.Value) bool
	value = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case ssa.CallInstruction:
				for _, a := range x.Common().Args {
					if a == v {
						return false
					}
				}
			case *ssa.Store:
				al := cellOf(x.Addr)
				if x.Val != v || al == nil || !cell(al) {
					return false
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	cell = func(c ssa.Value) bool {
		if seen[c] {
			return true
		}
		seen[c] = true
		for _, ref := range *c.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				if x.Addr != c {
					return false
				}
			case *ssa.UnOp:
				if !value(x) {
					return false
				}
			case *ssa.MakeClosure:
				f := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == c && !cell(f.FreeVars[i]) {
						return false
					}
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	return value(mc)
}

func (p *Prog) implementers(iface types.Type, m *types.Func) []*ssa.Function {
	it, ok := iface.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, t := range p.concrete {
		if !types.Implements(t, it) {
			continue
		}
		sel := p.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
		if sel == nil {
			continue
		}
		f := p.prog.MethodValue(sel)
		if f == nil {
			continue
		}
		// look through promotion wrappers to the declared method
		if f.Synthetic != "" {
			if o, ok := sel.Obj().(*types.Func); ok {
				if g := p.prog.FuncValue(o); g != nil {
					f = g
				}
			}
		}
		if !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	return out
}

func sigKey(t types.Type) string {
	s, ok := t.Underlying().(*types.Signature)
	if !ok {
		return ""
	}
	// parameter and result types only, not names
	var b strings.Builder
	for i := 0; i < s.Params().Len(); i++ {
		b.WriteString(s.Params().At(i).Type().String() + ",")
	}
	b.WriteString(")")
	for i := 0; i < s.Results().Len(); i++ {
		b.WriteString(s.Results().At(i).Type().String() + ",")
	}
	return b.String()
}

func (p *Prog) funcValues(t types.Type) []*ssa.Function {
	if p.addrTaken == nil {
		p.addrTaken = map[string][]*ssa.Function{}
		seen := map[*ssa.Function]bool{}
		note := func(f *ssa.Function) {
			if seen[f] {
				return
			}
			seen[f] = true
			sig := f.Signature
			if sig.Recv() != nil {
				return
			}
			k := sigKey(sig)
			p.addrTaken[k] = append(p.addrTaken[k], f)
		}
		for _, f := range p.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var skip *ssa.Value
					if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
						skip = &c.Common().Value
					}
					for _, op := range in.Operands(nil) {
						if skip != nil && op == skip {
							continue
						}
						if _, ok := in.(*ssa.MakeClosure); ok {
							continue
						}
						switch v := (*op).(type) {
						case *ssa.Function:
							note(v)
						case *ssa.MakeClosure:
							if !onlyCalled(v) {
								note(v.Fn.(*ssa.Function))
							}
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok && !onlyCalled(mc) {
						note(mc.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	return p.addrTaken[sigKey(t)]
}

// calleesOf lists the functions a function may call or create as a closure.
func (p *Prog) calleesOf(f *ssa.Function) []*ssa.Function {
	if p.calleesMemo == nil {
		p.calleesMemo = map[*ssa.Function][]*ssa.Function{}
	}
	if r, ok := p.calleesMemo[f]; ok {
		return r
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				for _, g := range p.callees(c.Common()) {
					if !seen[g] {
						seen[g] = true
						out = append(out, g)
					}
				}
			}
		}
	}
	p.calleesMemo[f] = out
	return out
}

func (p *Prog) callersOf(f *ssa.Function) []callSite {
	if p.callersMemo == nil {
		p.callersMemo = map[*ssa.Function][]callSite{}
		for _, g := range p.funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						for _, h := range p.callees(c.Common()) {
							p.callersMemo[h] = append(p.callersMemo[h], callSite{g, c})
						}
					}
				}
			}
		}
	}
	return p.callersMemo[f]
}

// reaching computes the functions from which some function satisfying base can be called.
func (p *Prog) reaching(base func(*ssa.Function) bool) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	all := p.funcs
	for _, f := range all {
		if base(f) {
			r[f] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range all {
			if r[f] {
				continue
			}
			hit := false
			for _, g := range p.calleesOf(f) {
				if r[g] || base(g) {
					hit = true
					break
				}
			}
			if !hit {
				for _, g := range f.AnonFuncs {
					if r[g] {
						hit = true
					}
				}
			}
			if hit {
				r[f] = true
				changed = true
			}
		}
	}
	return r
}

// reachableFrom computes the functions reachable from the roots.
func (p *Prog) reachableFrom(roots []*ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if r[f] {
			return
		}
		r[f] = true
		if f.Blocks == nil {
			return
		}
		for _, g := range p.calleesOf(f) {
			visit(g)
		}
		for _, g := range f.AnonFuncs {
			visit(g)
		}
	}
	for _, f := range roots {
		visit(f)
	}
	return r
}

// storedGlobals lists, for every global, the functions other than package initialisers that may write it
// (or take its address for anything but a load).
func (p *Prog) storedGlobals() map[*ssa.Global][]*ssa.Function {
	if p.storedG != nil {
		return p.storedG
	}
	p.storedG = map[*ssa.Global][]*ssa.Function{}
	for _, f := range p.funcs {
		if f.Synthetic == "package initializer" || strings.HasPrefix(f.Name(), "init#") && f.Signature.Recv() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if addressOnlyRead(in, g) && !writesThroughLoad(in) {
						continue
					}
					p.storedG[g] = append(p.storedG[g], f)
				}
			}
		}
	}
	return p.storedG
}

// addressOnlyRead says that the use of an address by an instruction can only read through it.
func addressOnlyRead(in ssa.Instruction, addr ssa.Value) bool {
	switch x := in.(type) {
	case *ssa.UnOp, *ssa.DebugRef:
		return true
	case *ssa.FieldAddr:
		return refsOnlyRead(x)
	case *ssa.IndexAddr:
		return refsOnlyRead(x)
	case *ssa.Slice:
		return false
	}
	return false
}

func refsOnlyRead(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if !addressOnlyRead(r, v) {
			return false
		}
	}
	return true
}

// writesThroughLoad says that the value loaded from a global (a map or slice) is updated in place.
func writesThroughLoad(in ssa.Instruction) bool {
	u, ok := in.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	for _, r := range *u.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			if x.Map == u {
				return true
			}
		case *ssa.IndexAddr:
			if x.X == u && !refsOnlyRead(x) {
				return true
			}
		}
	}
	return false
}
