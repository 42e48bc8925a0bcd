package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var runtimeErrType = types.NewNamed(types.NewTypeName(0, nil, "runtimeError", nil), types.NewStruct(nil, nil), nil)

func runtimePanic() *Val { return vIface(runtimeErrType, top) }

// thrownVal is the value the thrower package panics with.
func (a *An) thrownVal(tag string) *Val {
	if a.p.thr != nil {
		if t := a.p.thr.Type("thrown"); t != nil {
			return vIface(t.Type(), &Val{k: KStruct, t: t.Type(), e: []*Val{nonNil(tag)}})
		}
	}
	return nonNil("panic")
}

func (a *An) isThrown(v *Val) bool {
	if v == nil {
		return false
	}
	if v.k == KIface && a.p.thr != nil {
		t := a.p.thr.Type("thrown")
		return t != nil && types.Identical(t.Type(), v.t)
	}
	return false
}

// calleeName names what a call calls: "pkg.Func", "(*pkg.T).Method" or, for interface calls, "(pkg.I).Method".
func calleeName(c *ssa.CallCommon, f *ssa.Function) string {
	if f != nil {
		if o := f.Origin(); o != nil {
			f = o
		}
		if o, ok := f.Object().(*types.Func); ok {
			return shortName(o.FullName())
		}
		return shortName(f.String())
	}
	if c.IsInvoke() {
		return shortName(c.Method.FullName())
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return "value"
}

func shortName(s string) string {
	s = strings.ReplaceAll(s, modPath+"/netcdf/", "")
	s = strings.ReplaceAll(s, modPath+"/", "")
	return strings.ReplaceAll(s, throwerPath, "thrower")
}

func (fr *Frame) doCall(st *State, site ssa.CallInstruction, fnv *Val, args []*Val, deferred bool) []*State {
	a := fr.a
	c := site.Common()
	var callee *ssa.Function
	var binds []*Val
	if c.IsInvoke() {
		recv := args[0]
		if recv.k == KIface {
			if sel := a.p.prog.MethodSets.MethodSet(recv.t).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				callee = a.p.prog.MethodValue(sel)
				args = append([]*Val{recv.e[0]}, args[1:]...)
			}
		} else if recv.k == KRType {
			// reflect.Type methods
		}
	} else if fnv != nil && fnv.k == KFunc {
		callee = fnv.f
		binds = fnv.e
	} else if f := c.StaticCallee(); f != nil {
		callee = f
	}
	name := calleeName(c, callee)
	call := &Call{a: a, fr: fr, site: site, st: st, callee: callee, name: name, args: args, fnVal: fnv}
	if a.OnCall != nil {
		if outs, ok := a.OnCall(call); ok {
			return fr.finish(st, site, outs, deferred)
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		outs := fr.builtin(st, site, b, args)
		return fr.finish(st, site, outs, deferred)
	}
	if outs, ok := model(call); ok {
		return fr.finish(st, site, outs, deferred)
	}
	if callee != nil && a.p.analysable(callee) && a.mayInline(callee) {
		return fr.inline(st, site, callee, args, binds, deferred)
	}
	if callee == nil && a.CHA != nil && a.CHA(call) {
		var out []*State
		for _, f := range a.p.callees(c) {
			if !a.p.analysable(f) || !a.mayInline(f) {
				continue
			}
			s := st.clone()
			ar := append([]*Val(nil), args...)
			if c.IsInvoke() {
				// the receiver is some value of the method's type
				ar[0] = fr.fresh(s, site, "recv"+strconv.Itoa(fr.a.fnID(f)), nil)
				s.nn[ar[0].s] = true
			}
			var bs []*Val
			for i := range f.FreeVars {
				bs = append(bs, fr.fresh(s, site, "fv"+strconv.Itoa(fr.a.fnID(f))+"x"+strconv.Itoa(i), nil))
			}
			out = append(out, fr.inline(s, site, f, ar, bs, deferred)...)
		}
		if len(out) > 0 {
			return a.mergeStates(out, fr, site.Block())
		}
	}
	if a.OnOpaque != nil {
		a.OnOpaque(call)
	}
	return fr.finish(st, site, fr.opaque(call), deferred)
}

func (a *An) mayInline(f *ssa.Function) bool {
	if len(a.stack) > a.maxDepth {
		return false
	}
	depth := 0
	for _, g := range a.stack {
		if g == f {
			if depth++; depth > a.Recur {
				return false
			}
		}
	}
	if a.Inline != nil && a.p.inModule(f) {
		return a.Inline(f)
	}
	return true
}

func (fr *Frame) inline(st *State, site ssa.CallInstruction, callee *ssa.Function, args, binds []*Val, deferred bool) []*State {
	a := fr.a
	exits := a.call(st, callee, args, binds, site, fr.depth+1, deferred)
	var out []*State
	entry := map[string]bool{}
	for _, v := range args {
		v.ids(entry)
	}
	for _, o := range st.mem {
		for _, v := range o.cells {
			v.ids(entry)
		}
	}
	for _, e := range exits {
		n := a.apply(st, e, entry)
		if deferred {
			switch {
			case e.panic != nil:
				n.panic = e.panic
			default:
				n.panic = e.outer
			}
			out = append(out, n)
			continue
		}
		n.panic = e.panic
		if e.panic == nil {
			if v, ok := site.(ssa.Value); ok {
				n.env[v] = resultVal(e.results)
			}
		}
		if a.Cut != nil && a.Cut(n.prop) {
			continue
		}
		out = append(out, n)
	}
	return out
}

// through calls a function of the module in place of another call, and gives what comes of it
// (the results in res).
func (c *Call) through(f *ssa.Function, args ...*Val) []Out {
	return c.throughClosure(f, nil, args...)
}

func (c *Call) throughClosure(f *ssa.Function, binds []*Val, args ...*Val) []Out {
	exits := c.a.call(c.st, f, args, binds, c.site, c.fr.depth+1, false)
	entry := map[string]bool{}
	for _, v := range args {
		v.ids(entry)
	}
	for _, o := range c.st.mem {
		for _, v := range o.cells {
			v.ids(entry)
		}
	}
	var out []Out
	for _, e := range exits {
		n := c.a.apply(c.st, e, entry)
		out = append(out, Out{res: resultVal(e.results), st: n, prop: n.prop, panic: e.panic})
	}
	return out
}

func resultVal(rs []*Val) *Val {
	switch len(rs) {
	case 0:
		return vTuple()
	case 1:
		return rs[0]
	}
	return vTuple(rs...)
}

func (fr *Frame) finish(st *State, site ssa.CallInstruction, outs []Out, deferred bool) []*State {
	var out []*State
	for _, o := range outs {
		n := o.st
		if n == nil {
			if len(outs) == 1 {
				n = st
			} else {
				n = st.clone()
			}
		}
		if o.prop != "" {
			n.prop = o.prop
		}
		if fr.a.Cut != nil && fr.a.Cut(n.prop) {
			continue
		}
		if o.panic != nil {
			n.panic = o.panic
		} else if !deferred {
			if v, ok := site.(ssa.Value); ok {
				r := o.res
				if r == nil {
					r = fr.fresh(n, site, "", v.Type())
				}
				n.env[v] = r
			}
		}
		out = append(out, n)
	}
	return out
}

// opaque models a call of code that is not looked into.
func (fr *Frame) opaque(c *Call) []Out {
	a := fr.a
	st := c.st
	inMod := c.callee != nil && a.p.analysable(c.callee)
	if c.callee == nil {
		// an interface or function value: module code may be behind it
		for _, f := range a.p.callees(c.site.Common()) {
			if a.p.inModule(f) {
				inMod = true
			}
		}
	}
	var hv []*Val
	if !pureExternal(c.name) {
		hv = c.args
		if c.fnVal != nil {
			hv = append(hv, c.fnVal)
		}
		a.havoc(st, hv, a.site(c.site))
	}
	outs := []Out{}
	n := st
	if inMod {
		for id := range st.mem {
			if strings.HasPrefix(id, "G:") || strings.HasPrefix(id, "P<") {
				a.havoc(st, []*Val{vPtr(id, "")}, a.site(c.site))
			}
		}
		may := c.callee != nil && a.p.mayThrow(c.callee)
		if c.callee == nil {
			for _, f := range a.p.callees(c.site.Common()) {
				may = may || a.p.mayThrow(f)
			}
		}
		if may {
			m := st.clone()
			outs = append(outs, Out{st: m, panic: a.thrownVal("opaque")})
		}
	}
	outs = append(outs, Out{st: n})
	return outs
}

func (fr *Frame) builtin(st *State, site ssa.CallInstruction, b *ssa.Builtin, args []*Val) []Out {
	a := fr.a
	switch b.Name() {
	case "len", "cap":
		v := args[0]
		if s, ok := v.strVal(); ok {
			return []Out{{res: vInt(int64(len(s)))}}
		}
		switch v.k {
		case KSlice:
			if v.e[1].k != KTop {
				return []Out{{res: v.e[1]}}
			}
		case KNil:
			return []Out{{res: vInt(0)}}
		case KMap:
			if o := st.mem[v.s]; o != nil && o.complete && !o.multi && a.Lin != nil {
				if _, fuzzy := o.cells["{*}"]; !fuzzy {
					n := map[string]bool{}
					for p := range o.cells {
						// parts of a value count once
						n[p[:strings.IndexByte(p, '}')+1]] = true
					}
					return []Out{{res: vInt(int64(len(n)))}}
				}
			}
		case KTok:
			if bs, ok := stringBytes(v); ok {
				return []Out{{res: vInt(int64(len(bs)))}}
			}
			if a.Lin != nil {
				if n := a.Lin.lenOf(v.s); n != nil {
					return []Out{{res: n}}
				}
			}
			// the length of a given value is always the same
			return []Out{{res: tok("len(" + v.s + ")")}}
		case KStruct, KTop:
			if arr, ok := site.Common().Args[0].Type().Underlying().(*types.Array); ok {
				return []Out{{res: vInt(arr.Len())}}
			}
		case KPtr:
			if arr, ok := derefArr(site.Common().Args[0].Type()); ok {
				return []Out{{res: vInt(arr.Len())}}
			}
		}
		return []Out{{}}
	case "recover":
		if fr.deferDirect && st.outer != nil {
			v := st.outer
			n := st.clone()
			n.outer = nil
			return []Out{{res: v, st: n}}
		}
		return []Out{{res: vNil}}
	case "append":
		// contents are not followed, but the result is not nil when something is added
		x := args[0]
		if len(args) > 1 {
			y := args[1]
			if y.k == KNil {
				return []Out{{res: x}}
			}
			// a known list: copy it
			if r := fr.appendKnown(st, site, x, y); r != nil {
				return []Out{{res: r}}
			}
		}
		id := a.alloc(st, site, site.Common().Args[0].Type())
		o := st.mem[id].clone()
		o.zero = false
		o.ep = "app"
		if x.k == KSlice || len(args) > 1 && args[1].k == KSlice {
			// elements of both
			e := joinElems(a, st, x, args)
			if e != nil {
				o.cells["[*]"] = e
			}
		}
		st.mem[id] = o
		return []Out{{res: vSlice(id, "", vInt(0), top)}}
	case "copy":
		if d := args[0]; d.k == KSlice || d.k == KTok {
			id := d.s
			if d.k == KTok {
				id = "P<" + d.s + ">"
			}
			if o, ok := st.mem[id]; ok {
				n := o.clone()
				if cells := a.copyKnown(st, d, args[1]); cells != nil {
					for i, v := range cells {
						n.cells[d.p+"["+itoa(i)+"]"] = v
					}
					st.mem[id] = n
					return []Out{{res: copied(d, args[1])}}
				}
				for p := range n.cells {
					if strings.HasPrefix(p, d.p+"[") {
						delete(n.cells, p)
					}
				}
				n.cells[d.p+"[*]"] = top
				st.mem[id] = n
			}
		}
		return []Out{{res: copied(args[0], args[1])}}
	case "delete":
		if m := args[0]; m.k == KMap {
			if o, ok := st.mem[m.s]; ok {
				n := o.clone()
				n.complete = false
				st.mem[m.s] = n
			}
		}
		return []Out{{res: vTuple()}}
	case "min", "max":
		acc, ok := args[0].intVal()
		for _, v := range args[1:] {
			n, is := v.intVal()
			ok = ok && is
			if b.Name() == "min" {
				acc = min(acc, n)
			} else {
				acc = max(acc, n)
			}
		}
		if ok {
			return []Out{{res: vInt(acc)}}
		}
		return []Out{{}}
	case "ssa:wrapnilchk":
		return []Out{{res: args[0]}}
	}
	return []Out{{}}
}

func joinElems(a *An, st *State, x *Val, args []*Val) *Val {
	var acc *Val
	for _, v := range append([]*Val{x}, args[1:]...) {
		if v.k == KNil {
			continue
		}
		if v.k != KSlice {
			return nil
		}
		o := a.obj(st, v.s, nil)
		if t := typeAt(o.typ, v.p+"[*]"); t != nil && isStruct(t) != nil {
			return nil
		}
		e := o.get(v.s, v.p+"[*]")
		if o.zero && v.e[1].isConst() {
			// only the listed elements exist when the length is known
			e2 := (*Val)(nil)
			for p, c := range o.cells {
				if strings.HasPrefix(p, v.p+"[") {
					if e2 == nil {
						e2 = c
					} else {
						e2 = join(e2, c)
					}
				}
			}
			if e2 != nil {
				e = e2
			}
		}
		if acc == nil {
			acc = e
		} else {
			acc = join(acc, e)
		}
	}
	return acc
}

// appendKnown appends two slices of known lengths.
func (fr *Frame) appendKnown(st *State, site ssa.CallInstruction, x, y *Val) *Val {
	return fr.a.concatKnown(st, site, site.Common().Args[0].Type(), x, y)
}

// concatKnown makes a slice of slices of known lengths (nil: they are not known).
func (a *An) concatKnown(st *State, site ssa.CallInstruction, t types.Type, xs ...*Val) *Val {
	type cell struct {
		p string
		v *Val
	}
	var cells []cell
	et := t.Underlying().(*types.Slice).Elem()
	total := int64(0)
	for _, v := range xs {
		if v.k == KNil {
			continue
		}
		if v.k != KSlice {
			return nil
		}
		n, ok := v.e[1].intVal()
		off, ok2 := v.e[0].intVal()
		if !ok || !ok2 || total+n > 64 {
			return nil
		}
		o := a.obj(st, v.s, nil)
		for i := int64(0); i < n; i++ {
			src := v.p + "[" + itoa(off+i) + "]"
			dst := "[" + itoa(total+i) + "]"
			if isStruct(et) != nil {
				sv := a.loadAt(st, v.s, o, src, et)
				cells = append(cells, cell{dst, sv})
				continue
			}
			cells = append(cells, cell{dst, o.get(v.s, src)})
		}
		total += n
	}
	// in a loop the object named after this call may be the one appended to
	id := a.alloc(st, site, t)
	o := &Obj{zero: true, typ: t, cells: map[string]*Val{}}
	for _, c := range cells {
		a.storeAt(o, id, c.p, c.v, et)
	}
	st.mem[id] = o
	return vSlice(id, "", vInt(0), vInt(total))
}

// copyKnown gives the elements that are copied to a slice, when both are known (nil: they are not).
func (a *An) copyKnown(st *State, d, s *Val) map[int64]*Val {
	if d.k != KSlice || s.k != KSlice {
		return nil
	}
	dn, ok1 := d.e[1].intVal()
	do, ok2 := d.e[0].intVal()
	sn, ok3 := s.e[1].intVal()
	so, ok4 := s.e[0].intVal()
	if !ok1 || !ok2 || !ok3 || !ok4 || min(dn, sn) > 64 {
		return nil
	}
	if _, ok := st.mem[d.s].cells[d.p+"[*]"]; ok {
		return nil
	}
	o := a.obj(st, s.s, nil)
	out := map[int64]*Val{}
	for i := int64(0); i < min(dn, sn); i++ {
		v := o.get(s.s, s.p+"["+itoa(so+i)+"]")
		if v.k == KStruct || v.k == KTop {
			return nil
		}
		out[do+i] = v
	}
	return out
}

// copied gives the number of elements that copy copies, nil when it is not known.
func copied(d, s *Val) *Val {
	if d.k == KNil || s.k == KNil {
		return vInt(0)
	}
	if d.k != KSlice {
		return nil
	}
	var n *Val
	if x, ok := s.strVal(); ok {
		n = vInt(int64(len(x)))
	} else if s.k == KSlice {
		n = s.e[1]
	} else {
		return nil
	}
	x, ok1 := d.e[1].intVal()
	y, ok2 := n.intVal()
	if ok1 && ok2 {
		return vInt(min(x, y))
	}
	if d.e[1].k != KTop && d.e[1].Key() == n.Key() {
		return n
	}
	return nil
}

// pureExternal lists functions outside of the module that do not write what they are given.
func pureExternal(name string) bool {
	n := strings.TrimLeft(name, "(*")
	for _, p := range []string{"fmt.Errorf", "fmt.Sprint", "fmt.Print", "fmt.Fprint", "errors.", "strings.", "strconv.", "unicode", "math.", "math/bits.", "reflect.", "regexp.", "log.", "time.", "path", "runtime.", "bytes.Equal", "bytes.Compare", "encoding/binary.Size", "encoding/binary.Write", "internal.Info", "internal.Warn", "internal.Error", "internal.Debug", "(internal.", "os.Open", "os.Create", "os.Stat", "sort.Search", "bytes.NewReader"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}
