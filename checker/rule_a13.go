package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A13: the bookkeeping attributes of netCDF-4 are hidden.

func init() { rules["A13"] = ruleA13 }

// the names that are never shown, and the one that is only left out of lists
var hiddenAttrs = []string{"_Netcdf4Dimid", "_Netcdf4Coordinates", "DIMENSION_LIST", "NAME", "REFERENCE_LIST", "CLASS"}

const unlistedAttr = "_NCProperties"

// otherAttr stands for any other name: how it compares with a constant is not known.
const otherAttr = "\x01other"

// attrFields finds the kinds of attribute in a package: the structs with a string field that is compared
// with a bookkeeping name.
func (p *Prog) attrFields(rel string) map[fieldKey]bool {
	out := map[fieldKey]bool{}
	var origin func(v ssa.Value, depth int)
	origin = func(v ssa.Value, depth int) {
		if depth > 8 {
			return
		}
		switch x := v.(type) {
		case *ssa.Field:
			out[fieldKey{isStruct(x.X.Type()), x.Field}] = true
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				out[fieldKey{isStruct(derefType(fa.X.Type())), fa.Field}] = true
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				origin(e, depth+1)
			}
		case *ssa.Parameter:
			for i, prm := range x.Parent().Params {
				if prm != x {
					continue
				}
				for _, cs := range p.callersOf(x.Parent()) {
					if cc := cs.site.Common(); !cc.IsInvoke() && i < len(cc.Args) {
						origin(cc.Args[i], depth+1)
					}
				}
			}
		}
	}
	names := map[string]bool{}
	for _, n := range hiddenAttrs {
		names[n] = true
	}
	for _, f := range p.funcs {
		if !inPkg(f, rel) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.BinOp:
					for _, o := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
						if k, ok := o[1].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && names[constant.StringVal(k.Value)] {
							origin(o[0], 0)
						}
					}
				case *ssa.Lookup:
					origin(x.Index, 0)
				}
			}
		}
	}
	return out
}

func ruleA13(p *Prog, r *Report) {
	r.explain("The ways of the HDF5 package to hand out attributes (the attributes of a group, of a variable, and of a variable's getter) are interpreted with the list of attributes of the object pinned to lists with the bookkeeping names, ordinary names, and a name that compares with constants in an unknown way; then the lookups of the resulting attribute map are interpreted for each name. The list must have exactly the other names, in order, and the lookups must find exactly those (and the file's properties, which are only left out of lists).")
	base := p.initBase()
	fields := p.attrFields("netcdf/hdf5")
	// the fields of lists of attributes
	isList := func(t types.Type) (*types.Struct, int) {
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			return nil, 0
		}
		s := isStruct(derefType(sl.Elem()))
		if s == nil {
			return nil, 0
		}
		for k := range fields {
			if k.s == s && isString(s.Field(k.i).Type()) {
				return s, k.i
			}
		}
		return nil, 0
	}
	reads := p.reachingCalls(func(n string) bool { return n == "encoding/binary.Read" || n == "io.ReadFull" })
	amap := p.typ("netcdf/api", "AttributeMap")
	builds := p.reaching(func(f *ssa.Function) bool {
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if t := f.Signature.Results().At(i).Type(); types.Implements(t, amap.Underlying().(*types.Interface)) {
				return true
			}
		}
		return false
	})
	var lists [][]string
	lists = append(lists, append(append([]string{"first"}, append(append([]string{}, hiddenAttrs...), unlistedAttr)...), "last"))
	for _, h := range append(append([]string{}, hiddenAttrs...), unlistedAttr) {
		lists = append(lists, []string{"first", h, "last"}, []string{h})
	}
	for _, o := range []string{otherAttr, "_FillValue", "_Unsigned", "units", "class", "name", "Name", "_Netcdf4", "DIMENSION", "DIMENSION_LABELS", "REFERENCE", "_x", "NCProperties", "_Netcdf4DimidX"} {
		lists = append(lists, []string{"first", o, "last"})
	}
	n, shown := 0, 0
	for _, g := range p.attrEntries() {
		anyFull := false
		for li, list := range lists {
			what := shortFn(g) + " " + strings.ReplaceAll(strings.Join(list, ","), otherAttr, "(any other)")
			a := newAn(p, base)
			a.Unroll = 24
			a.Frees = true
			a.Inline = func(f *ssa.Function) bool { return f == g || !reads[f] || builds[f] }
			a.OnCmp = func(fr *Frame, in *ssa.BinOp, x, y *Val, st *State) *Val {
				s, ok1 := x.strVal()
				t, ok2 := y.strVal()
				if !ok1 || !ok2 || in.Op != token.EQL && in.Op != token.NEQ || s != otherAttr && t != otherAttr || s == t {
					return nil
				}
				if s == otherAttr {
					s = t
				}
				for _, l := range append(append([]string{"first", "last"}, hiddenAttrs...), unlistedAttr) {
					if s == l {
						return vBool(in.Op == token.NEQ)
					}
				}
				return tok("othercmp<" + s + ">")
			}
			a.PinField = func(st *State, t *types.Struct, i int, v *Val) *Val {
				s, k := isList(t.Field(i).Type())
				if s == nil || t == s {
					return nil
				}
				et := t.Field(i).Type()
				var e []*Val
				for j, name := range list {
					id := "K<attr" + itoa(int64(j)) + ">"
					st.mem[id] = &Obj{typ: et.Underlying().(*types.Slice).Elem().Underlying().(*types.Pointer).Elem(), cells: map[string]*Val{"." + itoa(int64(k)): vStr(name)}}
					e = append(e, vPtr(id, ""))
				}
				return knownSlice(st, "K<attrs>", et, e...)
			}
			ei := errResult(g)
			exits := a.run(g, "", nil, nil)
			r.cover(a)
			for _, e := range exits {
				if e.panic != nil || ei >= 0 && exitErr(e, ei) == -1 {
					continue
				}
				for _, m := range p.attrMaps(a, e, g) {
					if m.e == nil {
						r.fail("undecided", what, p.pos(e.at), "the attribute map that is handed out is not known")
						continue
					}
					if li == 0 {
						anyFull = true
					}
					n++
					if p.checkAttrMap(r, a, m, list, what) {
						shown++
					}
				}
			}
		}
		r.check(anyFull, "reached", shortFn(g), p.pos(g), "no attributes are handed out for an object with all bookkeeping attributes")
	}
	r.minimum("attribute maps", n, 60)
}

// attrEntries are the functions of the package's groups that hand out attributes.
func (p *Prog) attrEntries() []*ssa.Function {
	var out []*ssa.Function
	for _, m := range []string{"Attributes", "GetVariable", "GetVarGetter"} {
		for _, f := range p.ifaceMethods("netcdf/api", "Group", m) {
			if inPkg(f, "netcdf/hdf5") {
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

type attrMapAt struct {
	e *Exit // a state
	m *Val  // the map
}

// attrMaps gives the attribute maps in the result of an entry point.
func (p *Prog) attrMaps(a *An, e *Exit, g *ssa.Function) []attrMapAt {
	v := e.results[0]
	rt := g.Signature.Results().At(0).Type()
	if namedIs(rt, "api.AttributeMap") {
		if v.k != KIface {
			return []attrMapAt{{}}
		}
		return []attrMapAt{{e, v}}
	}
	if s := isStruct(derefType(rt)); s != nil && v.k == KPtr {
		for i := 0; i < s.NumFields(); i++ {
			if namedIs(s.Field(i).Type(), "api.AttributeMap") {
				o := e.mem[v.s]
				if o == nil {
					return []attrMapAt{{}}
				}
				w := o.get(v.s, v.p+"."+itoa(int64(i)))
				if w.k != KIface {
					return []attrMapAt{{}}
				}
				return []attrMapAt{{e, w}}
			}
		}
	}
	if f, recv := p.methodOf(v, "Attributes"); f != nil {
		var out []attrMapAt
		for _, x := range a.sequel(e, f, "", recv) {
			if x.panic != nil {
				continue
			}
			if x.results[0].k != KIface {
				return []attrMapAt{{}}
			}
			out = append(out, attrMapAt{x, x.results[0]})
		}
		return out
	}
	return []attrMapAt{{}}
}

func (p *Prog) checkAttrMap(r *Report, a *An, m attrMapAt, list []string, what string) bool {
	var want []string
	hidden := map[string]bool{}
	for _, h := range hiddenAttrs {
		hidden[h] = true
	}
	for _, x := range list {
		if !hidden[x] && x != unlistedAttr {
			want = append(want, x)
		}
	}
	ok := true
	f, recv := p.methodOf(m.m, "Keys")
	if f == nil {
		r.fail("undecided", what, "?", "the attribute map has no known method Keys")
		return false
	}
	r.obl("listed", what)
	for _, x := range a.sequel(m.e, f, "", recv) {
		if x.panic != nil {
			continue
		}
		var got []string
		v := x.results[0]
		cnt := int64(-1)
		switch v.k {
		case KNil:
			cnt = 0
		case KSlice:
			off, ok1 := v.e[0].intVal()
			ln, ok2 := v.e[1].intVal()
			o := x.mem[v.s]
			if ok1 && ok2 && o != nil {
				cnt = ln
				for i := int64(0); i < ln; i++ {
					s, ok := o.get(v.s, v.p+"["+itoa(off+i)+"]").strVal()
					if !ok {
						s = "(unknown)"
					}
					got = append(got, s)
				}
			}
		}
		if cnt < 0 {
			ok = false
			r.fail("listed", what, p.pos(x.at), "the list of names is not known: some names are shown on some paths only")
			continue
		}
		if strings.Join(got, ",") != strings.Join(want, ",") {
			ok = false
			r.fail("listed", what, p.pos(x.at), "the names shown are %q instead of %q", got, want)
		}
	}
	for _, name := range list {
		for _, method := range []string{"Get", "GetType", "GetGoType"} {
			f, recv := p.methodOf(m.m, method)
			if f == nil {
				continue
			}
			if !hidden[name] && method != "Get" || name == unlistedAttr {
				continue
			}
			rule := "found"
			if hidden[name] {
				rule = "not found"
			}
			r.obl(rule, fmt.Sprintf("%s %s(%s)", what, method, name))
			for _, x := range a.sequel(m.e, f, "", recv, vStr(name)) {
				if x.panic != nil {
					continue
				}
				if has, known := x.results[1].boolVal(); !known || has == hidden[name] {
					ok = false
					r.fail(rule, fmt.Sprintf("%s %s(%s)", what, method, name), p.pos(x.at), "the lookup of %s %s", name, map[bool]string{true: "may find it", false: "may not find it"}[hidden[name]])
				}
			}
		}
	}
	return ok
}
