package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// apiFuncs lists the functions and methods a user of the library can call: exported functions,
// exported methods of exported types, and exported methods of the types that implement an
// interface the library hands out.
func (p *Prog) apiFuncs() []*ssa.Function {
	if p.apiMemo != nil {
		return p.apiMemo
	}
	handed := map[*types.Named]bool{}
	userPkg := func(f *ssa.Function) bool {
		pk := pkgOf(f).Path()
		return !strings.Contains(pk, "/testdata/") && !strings.HasSuffix(pk, "/internal")
	}
	noteResults := func(sig *types.Signature) bool {
		ch := false
		for i := 0; i < sig.Results().Len(); i++ {
			n, ok := types.Unalias(sig.Results().At(i).Type()).(*types.Named)
			if ok && types.IsInterface(n) && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && !handed[n] {
				handed[n] = true
				ch = true
			}
		}
		return ch
	}
	isAPI := func(f *ssa.Function) bool {
		if f.Parent() != nil || f.Synthetic != "" || f.Object() == nil || !token.IsExported(f.Name()) {
			return false
		}
		recv := f.Signature.Recv()
		if recv == nil {
			return userPkg(f)
		}
		t := recv.Type()
		if d := derefType(t); d != nil {
			t = d
		}
		n, ok := types.Unalias(t).(*types.Named)
		if !ok {
			return false
		}
		if n.Obj().Exported() && userPkg(f) {
			return true
		}
		for in := range handed {
			it := in.Underlying().(*types.Interface)
			if !types.Implements(n, it) && !types.Implements(types.NewPointer(n), it) {
				continue
			}
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == f.Name() {
					return true
				}
			}
		}
		return false
	}
	for {
		var out []*ssa.Function
		ch := false
		for _, f := range p.funcs {
			if isAPI(f) {
				out = append(out, f)
				if noteResults(f.Signature) {
					ch = true
				}
			}
		}
		for n := range handed {
			it := n.Underlying().(*types.Interface)
			for i := 0; i < it.NumMethods(); i++ {
				if noteResults(it.Method(i).Type().(*types.Signature)) {
					ch = true
				}
			}
		}
		if !ch {
			p.apiMemo = out
			return out
		}
	}
}

func errResult(f *ssa.Function) int {
	rs := f.Signature.Results()
	if n := rs.Len(); n > 0 && isErrIface(rs.At(n-1).Type()) {
		return n - 1
	}
	return -1
}

// entry runs a function with unknown arguments.
func (a *An) entry(f *ssa.Function, prop string, args ...*Val) []*Exit {
	st := newState()
	st.prop = prop
	for i := len(args); i < len(f.Params); i++ {
		name := "arg:" + f.Params[i].Name()
		args = append(args, tok(name))
		if i == 0 && f.Signature.Recv() != nil {
			st.nn[name] = true
		}
	}
	return a.call(st, f, args, nil, nil, 0, false)
}

func exitErr(e *Exit, i int) int {
	if i >= len(e.results) {
		return 0
	}
	v := e.results[i]
	if v.k == KTok && e.nn[v.s] {
		return -1
	}
	return v.nilness()
}

func init() { rules["A01"] = ruleA01 }

func ruleA01(p *Prog, r *Report) {
	base := p.initBase()
	for _, f := range p.apiFuncs() {
		ei := errResult(f)
		if ei < 0 {
			continue
		}
		a := newAn(p, base)
		a.OnInstr = func(fr *Frame, in ssa.Instruction, st *State) {
			if _, ok := in.(*ssa.Panic); ok && shortFn(fr.fn) == "thrower.Throw" {
				st.prop = "T"
				if v := fr.val(st, fr.fn.Params[0]); a.nilness(st, v) != -1 && debugOn {
					debugf("throws %s\n", v.Key())
					for _, f := range a.stack {
						debugf("   %s\n", shortFn(f))
					}
				}
			}
		}
		if debugOn {
			a.OnExit = func(fr *Frame, st *State, res []*Val, at ssa.Instruction) {
				if st.prop == "T" && st.panic == nil && st.outer == nil {
					debugf("T normal exit from %s at %s (%d) %v %v\n", shortFn(fr.fn), p.pos(at), len(a.stack), res, at)
				}
			}
		}
		exits := a.entry(f, "")
		r.cover(a)
		debugf("%s steps=%d exits=%d\n", shortFn(f), a.steps, len(exits))
		for _, e := range exits {
			if a.isThrown(e.panic) {
				r.fail("thrown-escapes", shortFn(f), p.pos(e.at), "a failure below this function leaves it as a panic instead of as its error result")
			}
			if e.panic == nil && e.prop == "T" && exitErr(e, ei) != -1 {
				r.fail("failure-swallowed", shortFn(f), p.pos(e.at), "after a failure was thrown this function may return a nil error")
			}
		}
		r.obl("thrown-escapes", shortFn(f))
	}
}
