package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A11: what the caller passes to a writer is not changed.

func init() { rules["A11"] = ruleA11 }

func ruleA11(p *Prog, r *Report) {
	r.explain("Which registers may refer to memory of the caller is found by a flow-insensitive taint analysis of the whole module: it starts at the parameters of the methods of the writer interface and goes through calls, closures, interfaces, fields, elements, and functions from outside of the module. Then every such method, and the closing methods, are interpreted abstractly on unknown arguments (all paths, all callees including the ones behind interfaces and closures): a store, map update, copy, delete, append in place or sorting whose target was not made during the call and may be the caller's is a violation.")
	base := p.initBase()
	ents := p.writerEntries(r, "AddVar", "AddAttributes", "CreateGroup", "Close")
	t := newTaint(p)
	for _, w := range ents {
		for _, x := range w.f.Params[1:] {
			t.ref(x)
		}
	}
	t.run()
	var owned []string
	for _, n := range t.fields {
		owned = append(owned, n)
	}
	sort.Strings(owned)
	for _, n := range owned {
		r.obl("field of the caller", n)
	}
	effects := 0
	for _, w := range ents {
		a := newAn(p, base)
		a.CHA = func(c *Call) bool { return !strings.HasPrefix(c.name, "(io.") }
		sc := &effectScan{p: p, a: a}
		sc.about = func(v *Val) bool { return p.outside(a, v) }
		sc.top = func(target ssa.Value) bool { return t.refs[target] }
		sc.effect = func(fr *Frame, st *State, in ssa.Instruction, field, what string) {
			effects++
			where := field
			if where == "" {
				where = "something"
			}
			r.check(!t.refs[effectTarget(in)], "change", shortFn(fr.fn)+" changes "+where, p.pos(in), "changes what the caller passed (%s)", what)
		}
		sc.hooks()
		a.run(w.f, "", nil, nil)
		r.cover(a)
		r.obl("interpreted", shortFn(w.f))
	}
	r.minimum("effects", effects, 10)
	r.minimum("registers that may refer to memory of the caller", len(t.refs), 50)
	r.minimum("fields that hold what the caller passed", len(owned), 2)
	r.minimum("writer methods", len(ents), 9)
}

// effectTarget is what an effect is on.
func effectTarget(in ssa.Instruction) ssa.Value {
	switch x := in.(type) {
	case *ssa.Store:
		return x.Addr
	case *ssa.MapUpdate:
		return x.Map
	case ssa.CallInstruction:
		if x.Common().IsInvoke() {
			return x.Common().Value
		}
		if args := x.Common().Args; len(args) > 0 {
			return args[0]
		}
	}
	return nil
}

// inModuleType says that a type is declared in the module.
func (p *Prog) inModuleType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}
