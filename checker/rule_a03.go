package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A03: a failed input or output operation is never dropped.
//
// Every function with such an operation (or a call of a function of the module that reports one) is
// interpreted on its own. At each operation the path splits into success and failure, and a failing
// path must end in a panic, a non-nil error result, or, when the function has no error result, must
// do so in each of its callers, where it is then interpreted inline.

func init() { rules["A03"] = ruleA03 }

// ioCall says that a call is an input or output operation outside of the module.
func (p *Prog) ioCall(c *ssa.CallCommon) bool {
	sig := c.Signature()
	n := sig.Results().Len()
	if n == 0 || !isErrIface(sig.Results().At(n-1).Type()) {
		return false
	}
	if c.IsInvoke() {
		if pk := c.Method.Pkg(); pk == nil || strings.HasPrefix(pk.Path(), modPath) {
			if pk == nil {
				return false
			}
			// an interface of the module: reading and writing keep their names
			switch c.Method.Name() {
			case "Read", "ReadAt", "Write", "Seek", "Flush":
				return true
			}
			return false
		}
		return c.Method.Name() != "Close"
	}
	f := c.StaticCallee()
	if f == nil || p.inModule(f) || f.Pkg == nil && f.Object() == nil {
		return false
	}
	name := calleeName(c, f)
	for _, x := range []string{"io.", "bufio.", "os.", "encoding/binary.", "compress/"} {
		if strings.HasPrefix(strings.TrimLeft(name, "(*"), x) {
			return !strings.HasSuffix(name, ".Close")
		}
	}
	return false
}

// ioReach gives the functions from which an operation can be reached.
func (p *Prog) ioReach() map[*ssa.Function]bool {
	direct := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && p.ioCall(c.Common()) {
					return true
				}
			}
		}
		return false
	}
	return p.reaching(func(f *ssa.Function) bool { return p.inModule(f) && direct(f) })
}

// saysEOF says that the error result of an exit is io.EOF, which callers take for the normal end of
// the data.
func saysEOF(e *Exit, ei int) bool {
	if ei >= len(e.results) {
		return false
	}
	v := e.results[ei]
	return v.k == KNonNil && strings.HasSuffix(v.s, "io.EOF")
}

func ruleA03(p *Prog, r *Report) {
	r.explain("Input and output operations (functions of io, bufio, os, encoding/binary and compress with an error result, and methods of reader and writer interfaces) are enumerated; every function that contains one, or calls a function of the module that reports such a failure in its error result, is interpreted on all paths with the operation split into success and failure. A failing path must end in a panic or a non-nil error result; a function without an error result is interpreted inline in its callers instead. For plain reads io.EOF is an end of data, not a failure. Closing is checked on the paths of the writers' Close methods, including all they call.")
	base := p.initBase()
	reach := p.ioReach()
	reports := func(f *ssa.Function) bool { return reach[f] && errResult(f) >= 0 }
	obliged := func(c *ssa.CallCommon) bool {
		if p.ioCall(c) {
			return true
		}
		sig := c.Signature()
		if n := sig.Results().Len(); n == 0 || !isErrIface(sig.Results().At(n-1).Type()) {
			return false
		}
		if c.IsInvoke() && c.Method.Name() == "Close" {
			return false
		}
		for _, g := range p.callees(c) {
			if g.Name() == "Close" {
				continue
			}
			if p.inModule(g) && reports(g) {
				return true
			}
		}
		return false
	}
	isOp := map[ssa.CallInstruction]bool{}
	var funcs []*ssa.Function
	for _, f := range p.funcs {
		has := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && obliged(c.Common()) {
					isOp[c] = true
					has = true
				}
			}
		}
		if has {
			funcs = append(funcs, f)
		}
	}
	sort.Slice(funcs, func(i, j int) bool { return funcs[i].String() < funcs[j].String() })
	api := map[*ssa.Function]bool{}
	for _, f := range p.apiFuncs() {
		api[f] = true
	}
	deferred := map[*ssa.Function]bool{} // to be judged in the callers
	ops := 0
	// interpret one function; the positions of the operations whose failure may be dropped
	judge := func(f *ssa.Function, ei int) map[string]string {
		a := newAn(p, base)
		a.Frees = true
		a.Inline = func(g *ssa.Function) bool {
			if deferred[g] || !reach[g] {
				return true
			}
			for q := g.Parent(); q != nil; q = q.Parent() {
				if q == f {
					return true
				}
			}
			return false
		}
		a.OnCall = func(c *Call) ([]Out, bool) {
			if !isOp[c.site] {
				return nil, false
			}
			if c.callee != nil && p.inModule(c.callee) && a.Inline(c.callee) && c.callee != f {
				return nil, false
			}
			ok := append([]Out(nil), c.fr.opaque(c)...)
			okState := ok[len(ok)-1].st
			if okState == nil {
				okState = c.st
			}
			good := okState.clone()
			bad := okState.clone()
			v, _ := c.site.(ssa.Value)
			mk := func(st *State, e *Val, failing bool) *Val {
				if v == nil {
					return nil
				}
				t := v.Type()
				if tup, isT := t.(*types.Tuple); isT {
					res := c.fr.fresh(st, c.site, "", tup)
					res.e = append([]*Val(nil), res.e...)
					res.e[tup.Len()-1] = e
					if failing && (strings.HasSuffix(c.name, ").Read") || strings.HasSuffix(c.name, ").ReadAt")) {
						res.e[0] = vInt(0)
					}
					return res
				}
				return e
			}
			outs := ok[:len(ok)-1]
			for i := range outs {
				if outs[i].st == nil {
					outs[i].st = c.st.clone()
				}
			}
			outs = append(outs, Out{st: good, res: mk(good, vNil, false)})
			if !(c.callee != nil && p.inModule(c.callee) && c.callee.Name() == "Close") {
				prop := bad.prop
				if prop == "" {
					prop = p.pos(c.site) + " " + c.name
				}
				tag := "ioerr"
				switch c.name {
				case "encoding/binary.Read", "io.ReadFull", "io.ReadAtLeast", "io.CopyN":
					// these needed more: io.EOF is a failure, too
					tag = "ioerr.full"
				}
				outs = append(outs, Out{st: bad, prop: prop, res: mk(bad, nonNil(tag), true)})
			}
			return outs, true
		}
		a.OnCmp = func(fr *Frame, in *ssa.BinOp, x, y *Val, st *State) *Val {
			// the failure of a reader is not io.EOF; it may be any other value it is compared with
			isF := func(v *Val) bool { return v.k == KNonNil && v.s == "ioerr" }
			isEOF := func(v *Val) bool { return v.k == KNonNil && strings.HasSuffix(v.s, "io.EOF") }
			if isF(x) && isEOF(y) || isF(y) && isEOF(x) {
				switch in.Op.String() {
				case "==":
					return vFalse
				case "!=":
					return vTrue
				}
			}
			return nil
		}
		bad := map[string]string{}
		for _, e := range a.entry(f, "") {
			if e.prop == "" || e.panic != nil || e.prop == "x" {
				continue
			}
			if ei >= 0 && exitErr(e, ei) == -1 && !saysEOF(e, ei) {
				continue
			}
			if _, ok := bad[e.prop]; !ok {
				bad[e.prop] = p.pos(e.at)
			}
		}
		r.cover(a)
		return bad
	}
	// functions without error results first, as long as more of them are found
	judged := map[*ssa.Function]bool{}
	dynamic := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == nil {
					for _, g := range p.callees(c.Common()) {
						dynamic[g] = true
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		work := map[*ssa.Function]bool{}
		for _, f := range funcs {
			work[f] = true
		}
		for d := range deferred {
			for _, cs := range p.callersOf(d) {
				work[cs.fn] = true
			}
		}
		var ws []*ssa.Function
		for f := range work {
			ws = append(ws, f)
		}
		sort.Slice(ws, func(i, j int) bool { return ws[i].String() < ws[j].String() })
		for _, f := range ws {
			if errResult(f) >= 0 || deferred[f] || f.Name() == "init" {
				continue
			}
			bad := judge(f, -1)
			if len(bad) == 0 {
				judged[f] = true
				continue
			}
			if api[f] && len(p.callersOf(f)) == 0 {
				continue // an entry point without an error result
			}
			if f.Parent() != nil {
				// a closure is interpreted inside of the function that makes it; when it is called from
				// elsewhere its failures must not be dropped
				escapes := false
				for _, cs := range p.callersOf(f) {
					if cs.fn != f.Parent() {
						escapes = true
					}
				}
				if !escapes {
					deferred[f] = true
					changed = true
					continue
				}
			}
			if dynamic[f] && !api[f] {
				for op, at := range bad {
					r.fail("dropped", shortFn(f), at, "has no error result, is called through an interface or function value, and may end normally after a failure of %s", op)
				}
				continue
			}
			deferred[f] = true
			changed = true
		}
	}
	work := map[*ssa.Function]bool{}
	for _, f := range funcs {
		work[f] = true
	}
	for d := range deferred {
		for _, cs := range p.callersOf(d) {
			work[cs.fn] = true
		}
	}
	var ws []*ssa.Function
	for f := range work {
		ws = append(ws, f)
	}
	sort.Slice(ws, func(i, j int) bool { return ws[i].String() < ws[j].String() })
	for _, f := range ws {
		ei := errResult(f)
		if ei < 0 {
			r.obl("dropped", shortFn(f)+" (in its callers, or entry without error result)")
			continue
		}
		bad := judge(f, ei)
		r.obl("dropped", shortFn(f))
		for op, at := range bad {
			r.fail("dropped", shortFn(f), at, "may return a nil error after a failure of %s", op)
		}
	}
	for _, w := range p.writerCloses(r, base) {
		r.obl("close", shortFn(w.f))
		for _, e := range w.exits {
			if setHas(e.prop, "failed") && e.panic == nil && exitErr(e, w.ei) != -1 {
				r.fail("close", shortFn(w.f), p.pos(e.at), "may return a nil error after closing the file failed")
			}
		}
	}
	for c := range isOp {
		ops++
		r.obl("operation", p.pos(c)+" "+calleeName(c.Common(), c.Common().StaticCallee()))
	}
	r.minimum("operations", ops, 40)
	r.minimum("functions with operations", len(ws), 25)
}
