package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// H08: no read at an address beyond the end of the file.

func init() { rules["H08"] = ruleH08 }

type posRule struct {
	p      *Prog
	r      *Report
	base   Mem
	fields map[fieldKey]bool // positions of readers
	size   map[fieldKey]bool // the length of the file
	done   map[string]bool
	gates  int
	traced int
}

func ruleH08(p *Prog, r *Report) {
	r.explain("The places of the HDF5 package that position the file (Seek and ReadAt of what is not the module's own code) are enumerated and the position is traced backwards through registers, parameters, call sites and the fields that keep positions. A constant and the advance by what was read are harmless; every other position has to go through a gate: a function that, interpreted with the address as the set of all 64-bit values and the length of the file (the field set from a seek to the end) as a constant, only lets addresses up to that length reach the positioning.")
	q := &posRule{p: p, r: r, base: p.initBase(), fields: map[fieldKey]bool{}, size: map[fieldKey]bool{}, done: map[string]bool{}}
	q.findSize()
	if len(q.size) == 0 {
		r.fail("anchor", "length of the file", "?", "no field of the HDF5 package is set from a seek to the end of the file")
		return
	}
	sinks := 0
	for _, f := range p.funcs {
		if !inPkg(f, "netcdf/hdf5") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if v := q.position(c); v != nil {
					sinks++
					q.trace(v, f, c, 0)
				}
			}
		}
	}
	r.minimum("places that position the file", sinks, 1)
	r.minimum("gates", q.gates, 1)
	r.minimum("positions traced", q.traced, 2)
}

// position gives the position argument of a call that positions a file.
func (q *posRule) position(c ssa.CallInstruction) ssa.Value {
	cc := c.Common()
	name := calleeName(cc, cc.StaticCallee())
	if f := cc.StaticCallee(); f != nil && q.p.inModule(f) {
		return nil
	}
	args := cc.Args
	if !cc.IsInvoke() && cc.StaticCallee() != nil && cc.Signature().Recv() != nil {
		if len(args) > 0 {
			args = args[1:]
		}
	}
	if strings.HasPrefix(name, "(*bytes.") || strings.HasPrefix(name, "(*strings.") {
		return nil
	}
	switch {
	case strings.HasSuffix(name, ".Seek") && len(args) == 2:
		if k, ok := args[1].(*ssa.Const); ok && k.Int64() == 2 {
			if o, ok := args[0].(*ssa.Const); ok && o.Int64() <= 0 {
				return nil
			}
		}
		return args[0]
	case strings.HasSuffix(name, ".ReadAt") && len(args) == 2:
		return args[1]
	case name == "io.NewSectionReader" && len(args) == 3:
		return args[1]
	}
	return nil
}

// findSize finds the fields that are only set to the result of a seek to the end.
func (q *posRule) findSize() {
	var isEnd func(v ssa.Value, depth int) bool
	isEnd = func(v ssa.Value, depth int) bool {
		if depth > 10 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Convert:
			return isEnd(x.X, depth+1)
		case *ssa.ChangeType:
			return isEnd(x.X, depth+1)
		case *ssa.Extract:
			c, ok := x.Tuple.(*ssa.Call)
			if !ok {
				return false
			}
			if f := c.Call.StaticCallee(); f != nil && q.p.inModule(f) {
				return returnsAll(f, x.Index, func(v ssa.Value) bool { return isEnd(v, depth+1) })
			}
			args := c.Call.Args
			return x.Index == 0 && strings.HasSuffix(calleeName(&c.Call, c.Call.StaticCallee()), ".Seek") && len(args) >= 2 && isConst(args[len(args)-1], 2) && isConst(args[len(args)-2], 0)
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && q.p.inModule(f) {
				return returnsAll(f, 0, func(v ssa.Value) bool { return isEnd(v, depth+1) })
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !isEnd(e, depth+1) {
					return false
				}
			}
			return true
		case *ssa.UnOp:
			// a named result or local variable that escapes
			if al, ok := x.X.(*ssa.Alloc); ok {
				n := 0
				for _, ref := range *al.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
						if !isEnd(s.Val, depth+1) {
							return false
						}
						n++
					}
				}
				return n > 0
			}
		}
		return false
	}
	bad := map[fieldKey]bool{}
	for _, f := range q.p.funcs {
		if !inPkg(f, "netcdf/hdf5") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				k := fieldKey{isStruct(derefType(fa.X.Type())), fa.Field}
				if isEnd(s.Val, 0) {
					q.size[k] = true
				} else {
					bad[k] = true
				}
			}
		}
	}
	for k := range bad {
		if q.size[k] {
			q.r.fail("length of the file", k.s.Field(k.i).Name(), "?", "the field with the length of the file is also set to something else")
		}
	}
}

func isConst(v ssa.Value, n int64) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Int64() == n
}

// returnsAll says that a function returns only such values.
func returnsAll(f *ssa.Function, idx int, ok func(ssa.Value) bool) bool {
	n := 0
	for _, b := range f.Blocks {
		if b == f.Recover {
			continue
		}
		for _, in := range b.Instrs {
			if rt, is := in.(*ssa.Return); is {
				if idx >= len(rt.Results) || !ok(rt.Results[idx]) {
					return false
				}
				n++
			}
		}
	}
	return n > 0
}

// trace follows a position backwards.
func (q *posRule) trace(v ssa.Value, f *ssa.Function, at ssa.Instruction, depth int) {
	key := fmt.Sprintf("%p %p", v, f)
	if q.done[key] {
		return
	}
	q.done[key] = true
	if depth > 30 {
		q.r.fail("undecided", shortFn(f), q.p.pos(at), "the position cannot be traced")
		return
	}
	q.traced++
	switch x := v.(type) {
	case *ssa.Const:
		return
	case *ssa.Convert:
		if q.gated(v, f) {
			return
		}
		q.trace(x.X, f, at, depth+1)
		return
	case *ssa.ChangeType:
		q.trace(x.X, f, at, depth+1)
		return
	case *ssa.Phi:
		for _, e := range x.Edges {
			q.trace(e, f, at, depth+1)
		}
		return
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			q.field(fieldKey{isStruct(derefType(fa.X.Type())), fa.Field}, depth)
			return
		}
	case *ssa.BinOp:
		// the position moves by what was read
		if x.Op == token.ADD {
			for _, o := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if u, ok := o[0].(*ssa.UnOp); ok && u.Op == token.MUL && readCount(o[1]) {
					if fa, ok := u.X.(*ssa.FieldAddr); ok {
						q.field(fieldKey{isStruct(derefType(fa.X.Type())), fa.Field}, depth)
						return
					}
				}
			}
		}
	case *ssa.Parameter:
		if q.gated(v, f) {
			return
		}
		for i, prm := range f.Params {
			if prm != x {
				continue
			}
			for _, cs := range q.p.callersOf(f) {
				cc := cs.site.Common()
				j := i
				if cc.IsInvoke() {
					j--
				}
				if j < 0 || j >= len(cc.Args) {
					q.r.fail("undecided", shortFn(cs.site.Parent()), q.p.pos(cs.site), "the position cannot be traced through this call")
					continue
				}
				q.trace(cc.Args[j], cs.site.Parent(), cs.site, depth+1)
			}
		}
		return
	}
	if q.gated(v, f) {
		return
	}
	q.r.fail("gate", shortFn(f), q.p.pos(at), "the file is positioned at a value that was not checked against the length of the file")
}

func readCount(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Convert:
		return readCount(x.X)
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		if !ok || x.Index != 0 {
			return false
		}
		res := c.Call.Signature().Results()
		return res.Len() == 2 && types.Identical(res.At(0).Type(), types.Typ[types.Int]) && isErrIface(res.At(1).Type())
	}
	return false
}

func (q *posRule) field(k fieldKey, depth int) {
	if k.s == nil || q.fields[k] {
		return
	}
	q.fields[k] = true
	for _, f := range q.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && (fieldKey{isStruct(derefType(fa.X.Type())), fa.Field}) == k {
					q.trace(s.Val, f, s, depth+1)
				}
			}
		}
	}
}

// gated interprets the function with the value as any address: at every place that positions the
// file it must be at most the length of the file.
func (q *posRule) gated(v ssa.Value, f *ssa.Function) bool {
	seen := 0
	for _, size := range []int64{0, 5, 1000, 1 << 40} {
		a := newAn(q.p, q.base)
		a.Frees = true
		a.OnField = true
		a.PinVal = map[ssa.Value]*Val{v: fieldTok(0, 64)}
		if b, ok := v.Type().Underlying().(*types.Basic); ok {
			if _, signed := intSize(b); signed {
				a.PinVal[v] = tok(fieldTok(0, 64).s + "/conv " + b.Name())
			}
		}
		a.PinField = func(st *State, t *types.Struct, i int, v *Val) *Val {
			if q.size[fieldKey{t, i}] {
				return vInt(size)
			}
			return nil
		}
		pr := &pinRun{p: q.p, trackMsg: true}
		a.OnSplit = func(st *State, name string, truth bool) bool { return pr.split(st, name, truth) }
		a.OnCmp = func(fr *Frame, in *ssa.BinOp, x, y *Val, st *State) *Val { return fieldOp(in, x, y, st) }
		bad := false
		sink := func(w *Val, st *State) {
			if fr, ok := parseField(w); ok {
				s, _ := decodePin(st.prop)
				ok := false
				if ps, lin := fr.linear(s.sets[0]); lin {
					ok = true
					for _, p := range ps {
						if new(big.Int).Add(p.hi, p.off).Cmp(big.NewInt(size)) > 0 || new(big.Int).Add(p.lo, p.off).Sign() < 0 {
							ok = false
						}
					}
				}
				seen++
				bad = bad || !ok
			}
		}
		a.OnStore = func(fr *Frame, in ssa.Instruction, addr, val *Val, st *State) {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && q.fields[fieldKey{isStruct(derefType(fa.X.Type())), fa.Field}] {
					sink(val, st)
				}
			}
		}
		a.OnCall = func(c *Call) ([]Out, bool) {
			if w := q.position(c.site); w != nil {
				sink(c.fr.val(c.st, w), c.st)
			}
			return readModel(c, nil)
		}
		s := pinState{hit: true, sets: map[int]ivals{0: fullSet(64)}}
		a.entry(f, s.encode())
		q.r.cover(a)
		if a.over || bad {
			return false
		}
	}
	if seen > 0 {
		q.gates++
		q.r.obl("gate", shortFn(f))
	}
	return seen > 0
}
