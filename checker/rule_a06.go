package main

import (
	"go/token"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A06: the writers accept exactly the element types their file format has.
// A07: a rejected call leaves no trace.

func init() {
	rules["A06"] = ruleA06
	rules["A07"] = ruleA07
}

func basicT(k types.BasicKind) types.Type { return types.Typ[k] }

func namedT(name string, u types.Type) types.Type {
	pk := types.NewPackage("user", "user")
	return types.NewNamed(types.NewTypeName(token.NoPos, pk, name, nil), u, nil)
}

var storable = []types.BasicKind{types.Int8, types.Int16, types.Int32, types.Int64, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Float32, types.Float64, types.String}

// unstorable element types
func unstorableTypes() []types.Type {
	st := types.NewStruct([]*types.Var{types.NewField(token.NoPos, nil, "X", basicT(types.Int32), false)}, nil)
	return []types.Type{
		basicT(types.Bool), basicT(types.Int), basicT(types.Uint), basicT(types.Uintptr),
		basicT(types.Complex64), basicT(types.Complex128),
		types.NewChan(types.SendRecv, basicT(types.Int32)),
		types.NewMap(basicT(types.String), basicT(types.Int32)),
		types.NewSignatureType(nil, nil, nil, nil, nil, false),
		st, namedT("S", st),
		types.NewPointer(basicT(types.Int32)),
		namedT("B", basicT(types.Bool)), namedT("I", basicT(types.Int)),
	}
}

func shapes(t types.Type) []types.Type {
	return []types.Type{t, types.NewSlice(t), types.NewSlice(types.NewSlice(t)), types.NewSlice(types.NewSlice(types.NewSlice(t))), types.NewArray(t, 3), types.NewArray(types.NewSlice(t), 2)}
}

// userVal is a value of a given dynamic type about which nothing else is known.
func userVal(t types.Type) *Val { return vIface(t, tok("uval")) }

type writerEntry struct {
	f                *ssa.Function
	name, attrs, vrp int
	ei               int
	pkg              string
}

func (p *Prog) writerEntries(r *Report, methods ...string) []writerEntry {
	var out []writerEntry
	for _, m := range methods {
		for _, f := range p.ifaceMethods("netcdf/api", "Writer", m) {
			e := writerEntry{f: f, ei: errResult(f), pkg: pkgOf(f).Name()}
			e.name = paramOf(f, isString)
			e.attrs = paramOf(f, func(t types.Type) bool { return namedIs(t, "api.AttributeMap") })
			e.vrp = paramOf(f, func(t types.Type) bool { return namedIs(t, "api.Variable") })
			if e.ei < 0 {
				r.fail("entry", shortFn(f), p.pos(f), "has no error result")
				continue
			}
			out = append(out, e)
		}
	}
	return out
}

// mayAccept and mayReject say whether some path of a call ends with a nil error, or an error.
func verdicts(exits []*Exit, ei int) (accept, reject *Exit) {
	for _, e := range exits {
		if e.panic != nil || exitErr(e, ei) == -1 {
			reject = e
		}
		if e.panic == nil && exitErr(e, ei) != -1 {
			accept = e
		}
	}
	return
}

func ruleA06(p *Prog, r *Report) {
	r.explain("Every implementation of the writer interface is interpreted abstractly for values of every dynamic Go type of a table (the eleven element types the formats have, and the kinds of types they do not have; as scalars, slices nested up to three levels, arrays, and named types), with reflection on the dynamic type modelled: for a type that cannot be stored no path may return a nil error, and for a type that can be stored some path does.")
	base := p.initBase()
	n := 0
	ents := p.writerEntries(r, "AddVar", "AddAttributes")
	for _, w := range ents {
		run := func(t types.Type, attr bool, where string) []*Exit {
			a := newAn(p, base)
			a.Unroll, a.Recur = 40, 5
			v := userVal(t)
			sc := &scenario{keys: []*Val{vStr("ok"), vStr("k")}, value: nil}
			if attr {
				// the second of two attributes has the type
				sc.pins = func(c *Call) ([]Out, bool) {
					if c.name == "(api.AttributeMap).Get" {
						x := userVal(basicT(types.Int32))
						if k, _ := c.args[1].strVal(); k == "k" {
							x = v
						}
						return []Out{{res: vTuple(x, vTrue)}}, true
					}
					return nil, false
				}
			}
			a.OnCall = sc.hook
			args := map[int]*Val{}
			if w.name >= 0 {
				args[w.name] = vStr("ok")
			}
			attrs := vNil
			if attr {
				attrs = tok("attrs")
			}
			if w.attrs >= 0 {
				args[w.attrs] = attrs
			}
			if w.vrp >= 0 {
				vv := v
				if attr {
					vv = userVal(basicT(types.Int32))
				}
				args[w.vrp] = p.variableArg(vv, nil, attrs)
			}
			ex := a.run(w.f, "", func(st *State) { st.nn["attrs"] = true }, args)
			r.cover(a)
			n++
			return ex
		}
		// The values of attributes are checked when they are added, except for the global attributes of
		// CDF, which are checked when the file is closed.
		kinds := []bool{}
		if w.vrp >= 0 {
			kinds = append(kinds, false, true)
		} else {
			if w.pkg == "cdf" {
				continue
			}
			kinds = append(kinds, true)
		}
		for _, attr := range kinds {
			where := "values"
			if attr {
				where = "an attribute"
			}
			for _, t := range unstorableTypes() {
				for i, s := range shapes(t) {
					if i > 2 && attr {
						continue
					}
					what := shortFn(w.f) + " " + where + " of type " + s.String()
					r.obl("rejects", what)
					ok, _ := verdicts(run(s, attr, where), w.ei)
					if ok != nil {
						r.fail("rejects", what, p.pos(ok.at), "may return a nil error although the file format has no such type")
					}
				}
			}
			if attr && w.vrp >= 0 || !attr {
				what := shortFn(w.f) + " nil " + where
				a := newAn(p, base)
				a.Unroll, a.Recur = 40, 5
				sc := &scenario{keys: []*Val{vStr("k")}, value: userVal(basicT(types.Int32))}
				vv := vNil
				if attr {
					sc.value = vNil
					vv = userVal(basicT(types.Int32))
				}
				a.OnCall = sc.hook
				r.obl("rejects", what)
				ex := a.run(w.f, "", func(st *State) { st.nn["attrs"] = true }, map[int]*Val{w.name: vStr("ok"), w.vrp: p.variableArg(vv, nil, tok("attrs"))})
				if ok, _ := verdicts(ex, w.ei); ok != nil {
					r.fail("rejects", what, p.pos(ok.at), "may return a nil error for a value that is nil")
				}
			}
			for _, k := range storable {
				ts := shapes(basicT(k))
				if attr {
					ts = ts[:2] // attributes are scalars or lists
					if w.pkg == "cdf" && k == types.String {
						ts = ts[:1]
					}
				} else {
					ts = append(ts, namedT("N", basicT(k)), types.NewSlice(namedT("N", basicT(k))))
				}
				for _, s := range ts {
					what := shortFn(w.f) + " " + where + " of type " + s.String()
					ok, _ := verdicts(run(s, attr, where), w.ei)
					r.check(ok != nil, "accepts", what, p.pos(w.f), "always fails although the file format has this type")
				}
			}
		}
	}
	r.minimum("calls interpreted", n, 800)
}

// stateOf says whether a value refers to the state of the receiver (or to anything not made here).
func stateOf(v *Val, recv string) bool {
	if v == nil {
		return false
	}
	switch v.k {
	case KPtr, KSlice, KMap, KTok:
		if v.k != KTok && private(v.s) {
			return false
		}
		return strings.Contains(v.s, recv)
	case KIface, KStruct, KTuple:
		for _, e := range v.e {
			if stateOf(e, recv) {
				return true
			}
		}
	}
	return false
}

func ruleA07(p *Prog, r *Report) {
	r.explain("Every implementation of the writer interface's adding methods is interpreted abstractly on unknown arguments and an unknown writer (all paths, all calls inlined); a path that stores to anything reachable from the writer (fields, map entries, elements) or hands such a thing to code outside of the module that may write it is marked, and no marked path may end with an error result or a panic.")
	base := p.initBase()
	stores := 0
	ents := p.writerEntries(r, "AddVar", "AddAttributes", "CreateGroup")
	for _, w := range ents {
		a := newAn(p, base)
		recv := "arg:" + w.f.Params[0].Name()
		sc := &scenario{}
		a.OnCall = sc.hook
		mark := func(st *State, fr *Frame, in ssa.Instruction) {
			stores++
			st.prop = "changed at " + p.pos(in)
		}
		a.OnStore = func(fr *Frame, in ssa.Instruction, addr, val *Val, st *State) {
			if stateOf(addr, recv) || addr.k == KTop {
				mark(st, fr, in)
			}
		}
		a.OnInstr = func(fr *Frame, in ssa.Instruction, st *State) {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				m := fr.val(st, x.Map)
				if stateOf(m, recv) || m.k == KTop {
					mark(st, fr, in)
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && len(x.Call.Args) > 0 {
					switch b.Name() {
					case "delete", "clear", "copy":
						if v := fr.val(st, x.Call.Args[0]); stateOf(v, recv) || v.k == KTop {
							mark(st, fr, in)
						}
					}
				}
			}
		}
		a.OnOpaque = func(c *Call) {
			if pureExternal(c.name) || c.name == "value" || slices.Contains(a.stack, c.callee) {
				// the body of a recursive call is one that is being interpreted
				return
			}
			for _, v := range c.args {
				if stateOf(v, recv) && !immutableArg(c, v) {
					mark(c.st, c.fr, c.site)
				}
			}
		}
		exits := a.run(w.f, "", nil, nil)
		r.cover(a)
		r.obl("no-trace", shortFn(w.f))
		for _, e := range exits {
			if e.prop != "" && (e.panic != nil || exitErr(e, w.ei) == -1) {
				r.fail("no-trace", shortFn(w.f), p.pos(e.at), "the writer is %s and the call then fails", e.prop)
			}
		}
	}
	r.minimum("writer methods", len(ents), 9)
	r.minimum("stores to the writer seen", stores, 8)
}

// immutableArg says that what is passed is not something the callee could write through.
func immutableArg(c *Call, v *Val) bool {
	for i, x := range c.args {
		if x != v {
			continue
		}
		var t types.Type
		cc := c.site.Common()
		if cc.IsInvoke() {
			if i == 0 {
				return false
			}
			i--
		}
		if i < len(cc.Args) {
			t = cc.Args[i].Type()
		}
		if t != nil {
			switch t.Underlying().(type) {
			case *types.Basic:
				return true
			}
		}
	}
	return false
}
