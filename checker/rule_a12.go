package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A12: which reader and writer a file goes to.

func init() { rules["A12"] = ruleA12 }

// firstByte gives the first byte that is read of a file as a tracked field, the rest as unknown.
// The property state: "T0;0=<set>" before a constructor was called, then with ";1=<which>" and the outcome.
func ruleA12(p *Prog, r *Report) {
	r.explain("The exported functions of the top package that return a group or a writer are interpreted with the first byte of the file (or the kind of file) as the set of all its values, which every comparison splits. At each call of a constructor of the packages cdf and hdf5 the remaining set must be the one of that format; values of neither set must end in an error, and the constructor's success or failure must be the result.")
	base := p.initBase()
	var fs []*ssa.Function
	for _, f := range p.funcs {
		if f.Parent() == nil && f.Signature.Recv() == nil && f.Object() != nil && f.Object().Exported() && pkgOf(f) != nil && strings.HasSuffix(pkgOf(f).Path(), "/netcdf") {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	n := 0
	for _, f := range fs {
		ei := errResult(f)
		if ei < 0 || f.Signature.Results().Len() != 2 {
			continue
		}
		res := f.Signature.Results().At(0).Type()
		switch {
		case namedIs(res, "api.Group"):
			p.dispatch(r, base, f, res, nil, 8, setOf('C'), setOf(0x89), "first byte")
			n++
		case namedIs(res, "api.Writer"):
			kind := -1
			for i, prm := range f.Params {
				if b, ok := prm.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					kind = i
				}
			}
			pk := p.pkg("netcdf")
			c, h := constOf(pk, "KindCDF"), constOf(pk, "KindHDF5")
			if kind < 0 || c == nil || h == nil {
				r.fail("anchor", shortFn(f), p.pos(f), "the kind of file is not found")
				continue
			}
			cv, _ := constant.Uint64Val(constant.ToInt(c))
			hv, _ := constant.Uint64Val(constant.ToInt(h))
			r.check(cv != hv, "kinds", "distinct", p.pos(f), "the kinds of file are the same number")
			bits, signed := intSize(f.Params[kind].Type().Underlying().(*types.Basic))
			v := fieldTok(0, bits)
			if signed {
				v = tok(v.s + "/conv " + f.Params[kind].Type().Underlying().(*types.Basic).Name())
			}
			p.dispatch(r, base, f, res, map[int]*Val{kind: v}, bits, setOf(cv), setOf(hv), "kind")
			n++
		}
	}
	r.minimum("functions that choose a format", n, 3)
}

func constOf(pk *ssa.Package, name string) constant.Value {
	if pk == nil {
		return nil
	}
	if c, ok := pk.Pkg.Scope().Lookup(name).(*types.Const); ok {
		return c.Val()
	}
	return nil
}

func (p *Prog) dispatch(r *Report, base Mem, f *ssa.Function, res types.Type, args map[int]*Val, bits int, cdf, hdf ivals, what string) {
	a := newAn(p, base)
	a.OnField = true
	pr := &pinRun{p: p, trackMsg: true}
	a.OnSplit = func(st *State, name string, truth bool) bool { return pr.split(st, name, truth) }
	a.OnCmp = func(fr *Frame, in *ssa.BinOp, x, y *Val, st *State) *Val { return fieldOp(in, x, y, st) }
	want := map[string]ivals{"cdf": cdf, "hdf5": hdf}
	got := map[string]ivals{}
	set := func(st *State) ivals {
		s, ok := decodePin(st.prop)
		if x, has := s.sets[0]; ok && has {
			return x
		}
		return fullSet(bits)
	}
	ei := errResult(f)
	name := shortFn(f)
	for format := range want {
		r.obl("dispatch", name+" to "+format)
	}
	a.OnCall = func(c *Call) ([]Out, bool) {
		if c.callee != nil && p.inModule(c.callee) && c.callee.Signature.Recv() == nil {
			for format, w := range want {
				rs := c.callee.Signature.Results()
				if !inPkg(c.callee, "netcdf/"+format) || rs.Len() != 2 || !types.Identical(rs.At(0).Type(), res) {
					continue
				}
				s := set(c.st)
				got[format] = got[format].or(s)
				if x := s.minus(w); len(x) > 0 {
					r.fail("dispatch", name+" to "+format, p.pos(c.site), "goes to the %s package for %s %s, expected only for %s", format, what, s, w)
				}
				ok, bad := c.st.clone(), c.st.clone()
				e := pinState{hit: true, sets: map[int]ivals{0: s, 1: setOf(1)}}
				ok.prop = e.encode()
				e.sets[1] = setOf(2)
				bad.prop = e.encode()
				return []Out{{st: ok, res: vTuple(nonNil("opened "+format), vNil)}, {st: bad, res: vTuple(vNil, nonNil("failed"))}}, true
			}
		}
		if args == nil {
			buf := -1
			switch {
			case strings.HasSuffix(c.name, ".Read") && c.site.Common().Signature().Results().Len() == 2, c.name == "io.ReadFull", c.name == "io.ReadAtLeast":
				buf = 1
			case strings.HasSuffix(c.name, ".ReadAt"):
				buf = 1
			}
			if c.callee != nil && p.analysable(c.callee) && p.inModule(c.callee) {
				buf = -1
			}
			if buf > 0 && buf < len(c.args) && c.args[buf].k == KSlice {
				st := c.st.clone()
				b := c.args[buf]
				c.a.havoc(st, c.args, c.a.site(c.site))
				if off, ok := b.e[0].intVal(); ok {
					s, on := decodePin(st.prop)
					if _, has := s.sets[0]; !on || !has {
						s = pinState{hit: true, sets: map[int]ivals{0: fullSet(bits)}}
						st.prop = s.encode()
						a.store(st, vPtr(b.s, b.p+"["+itoa(off)+"]"), fieldTok(0, bits), types.Typ[types.Uint8])
					}
				}
				n := b.e[1]
				return []Out{{st: st, res: vTuple(n, vNil)}}, true
			}
			if strings.HasSuffix(c.name, ".Seek") {
				return []Out{{res: vTuple(top, vNil)}}, true
			}
			if c.name == "encoding/binary.Read" {
				return readModel(c, firstOf{a, bits})
			}
		}
		if c.name == "os.Open" || c.name == "os.OpenFile" || c.name == "os.Create" {
			return []Out{{res: vTuple(nonNil("file"), vNil)}}, true
		}
		return nil, false
	}
	prop := ""
	if args != nil {
		s := pinState{hit: true, sets: map[int]ivals{0: fullSet(bits)}}
		prop = s.encode()
	}
	exits := a.run(f, prop, nil, args)
	r.cover(a)
	r.obl("unknown", name)
	r.obl("result", name)
	for _, e := range exits {
		if e.panic != nil {
			r.fail("result", name, p.pos(e.at), "ends in a panic")
			continue
		}
		s, on := decodePin(e.prop)
		verdict := exitErr(e, ei)
		if !on {
			if verdict != -1 {
				r.fail("unknown", name, p.pos(e.at), "may return a nil error before the %s is known", what)
			}
			continue
		}
		which, called := s.sets[1]
		switch {
		case !called:
			if x := s.sets[0].and(cdf.or(hdf)); len(x) > 0 {
				r.fail("dispatch", name+" to a format", p.pos(e.at), "a file of %s %s does not reach its package", what, x)
			}
			if verdict != -1 {
				r.fail("unknown", name, p.pos(e.at), "may return a nil error for %s %s", what, s.sets[0])
			}
		case which.has(1) && verdict != 1:
			r.fail("result", name, p.pos(e.at), "may return an error although the format's package did not")
		case which.has(1) && a.nilness(&State{nn: e.nn}, e.results[0]) != -1:
			r.fail("result", name, p.pos(e.at), "does not return what the format's package returned")
		case which.has(2) && verdict != -1:
			r.fail("result", name, p.pos(e.at), "may return a nil error although the format's package failed")
		}
	}
	for format, w := range want {
		if x := w.minus(got[format]); len(x) > 0 {
			r.fail("dispatch", name+" to "+format, p.pos(f), "%s %s does not reach the %s package", what, x, format)
		}
	}
}

// firstOf gives the first byte of a binary read.
type firstOf struct {
	a    *An
	bits int
}

func (q firstOf) next(elem types.Type, st *State) *Val {
	b, _ := elem.Underlying().(*types.Basic)
	s, on := decodePin(st.prop)
	if _, has := s.sets[0]; b == nil || on && has {
		return nil
	}
	if n, _ := intSize(b); n != 8 {
		return nil
	}
	s = pinState{hit: true, sets: map[int]ivals{0: fullSet(q.bits)}}
	st.prop = s.encode()
	return fieldTok(0, q.bits)
}
func (q firstOf) advance(st *State, n int64) {}
