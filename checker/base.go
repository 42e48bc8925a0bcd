package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// initBase interprets the package initialisers: what the package-level variables hold when no
// function of the module writes them afterwards.
func (p *Prog) initBase() Mem {
	var paths []string
	for k := range p.ssa {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	// imports first
	done := map[string]bool{}
	var order []*ssa.Package
	var visit func(sp *ssa.Package)
	visit = func(sp *ssa.Package) {
		if done[sp.Pkg.Path()] {
			return
		}
		done[sp.Pkg.Path()] = true
		for _, i := range sp.Pkg.Imports() {
			rel := strings.TrimPrefix(strings.TrimPrefix(i.Path(), modPath), "/")
			if q, ok := p.ssa[rel]; ok && strings.HasPrefix(i.Path(), modPath) {
				visit(q)
			}
		}
		order = append(order, sp)
	}
	for _, k := range paths {
		visit(p.ssa[k])
	}
	mem := Mem{}
	if p.thr != nil {
		for _, m := range p.thr.Members {
			if g, ok := m.(*ssa.Global); ok {
				mem[globalID(g)] = &Obj{zero: true, typ: derefType(g.Type()), cells: map[string]*Val{}}
			}
		}
	}
	for _, sp := range order {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				mem[globalID(g)] = &Obj{zero: true, typ: derefType(g.Type()), cells: map[string]*Val{}}
			}
		}
		init := sp.Func("init")
		if init == nil || init.Blocks == nil {
			continue
		}
		a := newAn(p, Mem{})
		a.OnCall = func(c *Call) ([]Out, bool) {
			if c.callee != nil && c.callee.Name() == "init" && c.callee.Pkg != nil && c.callee.Pkg.Func("init") == c.callee {
				return []Out{{res: vTuple()}}, true
			}
			return nil, false
		}
		st := newState()
		st.mem = mem
		exits := a.call(st, init, nil, nil, nil, 0, false)
		var next Mem
		for _, e := range exits {
			if e.panic != nil {
				continue
			}
			if next == nil {
				next = e.mem
			} else {
				next = a.joinMem(next, e.mem, "init", nil, nil)
			}
		}
		if next != nil {
			for id, o := range mem {
				if _, ok := next[id]; !ok {
					next[id] = o
				}
			}
			mem = next
		}
	}
	stored := p.storedGlobals()
	for g := range stored {
		pk := g.Pkg.Pkg.Path()
		if pk == throwerPath {
			continue
		}
		delete(mem, globalID(g))
	}
	return mem
}
