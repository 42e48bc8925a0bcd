package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A02: no function of the library ends the process: it neither reaches a call that exits, nor
// starts a goroutine that may panic, nor panics explicitly out of a function with an error result.

func isTerminator(name string) bool {
	switch name {
	case "os.Exit", "syscall.Exit", "syscall.Kill", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Fatalln",
		"(*log.Logger).Fatal", "(*log.Logger).Fatalf", "(*log.Logger).Fatalln",
		"log.Panic", "log.Panicf", "log.Panicln", "(*log.Logger).Panic", "(*log.Logger).Panicf", "(*log.Logger).Panicln",
		"(*os.Process).Kill", "(*os.Process).Signal", "syscall.RawSyscall", "syscall.Syscall", "syscall.Exec":
		return true
	}
	return false
}

func terminatorCalls(f *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if isTerminator(calleeName(c.Common(), c.Common().StaticCallee())) {
					out = append(out, c)
				}
			}
		}
	}
	return out
}

// pathTo finds a shortest call path from one of the roots to a function.
func (p *Prog) pathTo(roots []*ssa.Function, target *ssa.Function) string {
	prev := map[*ssa.Function]*ssa.Function{}
	seen := map[*ssa.Function]bool{}
	q := append([]*ssa.Function(nil), roots...)
	for _, f := range q {
		seen[f] = true
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		if f == target {
			s := shortFn(f)
			for g := prev[f]; g != nil; g = prev[g] {
				s = shortFn(g) + " > " + s
			}
			return s
		}
		if f.Blocks == nil || !p.inModule(f) {
			continue
		}
		next := append(append([]*ssa.Function(nil), p.calleesOf(f)...), f.AnonFuncs...)
		for _, g := range next {
			if !seen[g] {
				seen[g] = true
				prev[g] = f
				q = append(q, g)
			}
		}
	}
	return ""
}

func init() { rules["A02"] = ruleA02 }

func ruleA02(p *Prog, r *Report) {
	r.explain("Over the whole-program call graph (static callees, every implementation for interface calls, every address-taken function of the signature for function values), no function reachable from the public API or from a package initialiser calls something that ends the process, and no goroutine it starts may panic.")
	r.explain("In addition every API function with an error result is interpreted abstractly on unknown arguments (all calls inlined, all paths): no explicit panic statement is reachable that would leave it.")
	r.assumes("runtime panics (index out of range, nil dereference, failed type assertions, out of memory) are not part of this rule")
	api := p.apiFuncs()
	roots := append([]*ssa.Function(nil), api...)
	for _, sp := range p.ssa {
		if strings.Contains(sp.Pkg.Path(), "/testdata/") || sp.Pkg.Name() == "main" {
			continue
		}
		if f := sp.Func("init"); f != nil {
			roots = append(roots, f)
		}
	}
	reach := p.reachableFrom(roots)
	detector := 0
	for _, f := range p.funcs {
		if strings.Contains(pkgOf(f).Path(), "/testdata/") {
			continue
		}
		ts := terminatorCalls(f)
		detector += len(ts)
		if !reach[f] {
			continue
		}
		r.obl("no-exit", shortFn(f))
		for _, c := range ts {
			r.fail("no-exit", shortFn(f), p.pos(c), "calls %s; reachable as %s", calleeName(c.Common(), c.Common().StaticCallee()), p.pathTo(roots, f))
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				for _, h := range p.callees(g.Common()) {
					r.check(!p.analysable(h) || !p.mayThrow(h), "goroutine-panics", shortFn(f)+" starts "+shortFn(h), p.pos(in), "a panic in this goroutine ends the process: nothing recovers it")
				}
			}
		}
	}
	r.minimum("no-exit detector (logger's Fatal methods)", detector, 1)
	r.minimum("functions reachable from the API", len(r.oblSeen), 250)

	base := p.initBase()
	for _, f := range api {
		if errResult(f) < 0 {
			continue
		}
		a := newAn(p, base)
		a.OnInstr = func(fr *Frame, in ssa.Instruction, st *State) {
			if x, ok := in.(*ssa.Panic); ok && p.inModule(fr.fn) {
				st.prop = "explicit panic in " + shortFn(fr.fn) + " at " + p.pos(x)
			}
		}
		exits := a.entry(f, "")
		r.cover(a)
		r.obl("explicit-panic", shortFn(f))
		for _, e := range exits {
			if e.panic != nil && e.prop != "" {
				r.fail("explicit-panic", shortFn(f), p.pos(e.at), "leaves this function as a panic: %s", e.prop)
			}
		}
	}
}
