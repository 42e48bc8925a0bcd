package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C01: the meaning of the type codes of CDF.

func init() {
	rules["C01"] = ruleC01
}

// cdfType is a row of the specification's table of external types.
type cdfType struct {
	code int64
	name string // in CDL
	elem types.BasicKind
	gone string // the Go type in descriptions
	size int64
}

var cdfTypes = []cdfType{
	{1, "byte", types.Int8, "int8", 1},
	{2, "char", types.String, "string", 1},
	{3, "short", types.Int16, "int16", 2},
	{4, "int", types.Int32, "int32", 4},
	{5, "float", types.Float32, "float32", 4},
	{6, "double", types.Float64, "float64", 8},
	{7, "ubyte", types.Uint8, "uint8", 1},
	{8, "ushort", types.Uint16, "uint16", 2},
	{9, "uint", types.Uint32, "uint32", 4},
	{10, "int64", types.Int64, "int64", 8},
	{11, "uint64", types.Uint64, "uint64", 8},
}

// valueType is the Go type of a value with a number of dimensions.
func (t cdfType) valueType(dims int) types.Type {
	var ty types.Type = types.Typ[t.elem]
	if t.elem == types.String && dims > 0 {
		dims-- // the last dimension is the length of the string
	}
	for ; dims > 0; dims-- {
		ty = types.NewSlice(ty)
	}
	return ty
}

type fieldKey struct {
	s *types.Struct
	i int
}

// cdfCodes is where type codes live in the CDF package.
type cdfCodes struct {
	fields map[fieldKey]bool  // fields that hold a type code
	reads  map[*ssa.Call]bool // calls whose result is a type code
	vars   map[*ssa.Call]bool // ... that ends up in such a field
	pkg    string
}

// codeSet collects what is compared with the type codes.
func (p *Prog) cdfCodes() *cdfCodes {
	c := &cdfCodes{fields: map[fieldKey]bool{}, reads: map[*ssa.Call]bool{}, vars: map[*ssa.Call]bool{}}
	fields := map[fieldKey]map[int64]bool{}
	calls := map[*ssa.Call]map[int64]bool{}
	var origin func(v ssa.Value, k int64, depth int, seen map[ssa.Value]bool)
	origin = func(v ssa.Value, k int64, depth int, seen map[ssa.Value]bool) {
		if depth > 20 || seen[v] {
			return
		}
		seen[v] = true
		field := func(s *types.Struct, i int) {
			if s == nil {
				return
			}
			fk := fieldKey{s, i}
			if fields[fk] == nil {
				fields[fk] = map[int64]bool{}
			}
			fields[fk][k] = true
		}
		switch x := v.(type) {
		case *ssa.Convert:
			origin(x.X, k, depth+1, seen)
		case *ssa.ChangeType:
			origin(x.X, k, depth+1, seen)
		case *ssa.Phi:
			for _, e := range x.Edges {
				origin(e, k, depth+1, seen)
			}
		case *ssa.Field:
			field(isStruct(x.X.Type()), x.Field)
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				field(isStruct(derefType(fa.X.Type())), fa.Field)
			}
		case *ssa.Call:
			if calls[x] == nil {
				calls[x] = map[int64]bool{}
			}
			calls[x][k] = true
		case *ssa.Parameter:
			for i, prm := range x.Parent().Params {
				if prm != x {
					continue
				}
				for _, cs := range p.callersOf(x.Parent()) {
					args := cs.site.Common().Args
					if !cs.site.Common().IsInvoke() && i < len(args) {
						origin(args[i], k, depth+1, seen)
					}
				}
			}
		}
	}
	for _, f := range p.funcs {
		if !inPkg(f, "netcdf/cdf") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.BinOp)
				if !ok {
					continue
				}
				switch x.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				default:
					continue
				}
				for _, o := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
					k, ok := o[1].(*ssa.Const)
					if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
						continue
					}
					if v, _ := constant.Int64Val(k.Value); v >= 1 && v <= 11 {
						origin(o[0], v, 0, map[ssa.Value]bool{})
					}
				}
			}
		}
	}
	for k, s := range fields {
		if len(s) >= 8 {
			c.fields[k] = true
		}
	}
	for k, s := range calls {
		if b, ok := k.Type().Underlying().(*types.Basic); ok && len(s) >= 8 && b.Info()&types.IsInteger != 0 {
			c.reads[k] = true
		}
	}
	return c
}

// reader of struct fields: the variable that is read has a given type and shape.
type cdfShape struct {
	c    *cdfCodes
	code int64
	dims []int64
	recs *int64 // the number of records
}

// cdfDims are the lengths of the dimensions in the scenarios.
var cdfDims = []int64{7, 4, 3, 2}

// pin gives the fields of the variable and the dimensions their values: in a struct with a type code,
// the list of numbers is the dimensions, other unsigned numbers (the position of the data) are zero;
// in a struct of a name and a number, the number is the length of a dimension.
func (s *cdfShape) pin(st *State, t *types.Struct, i int, v *Val) *Val {
	if s.c.fields[fieldKey{t, i}] {
		return vInt(s.code)
	}
	has := false
	for j := 0; j < t.NumFields(); j++ {
		has = has || s.c.fields[fieldKey{t, j}]
	}
	ft := t.Field(i).Type().Underlying()
	if has {
		if sl, ok := ft.(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				var e []*Val
				for j := range s.dims {
					e = append(e, vInt(int64(j)))
				}
				return knownSlice(st, "K<dimids>", ft, e...)
			}
		}
		if b, ok := ft.(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return vInt(0)
		}
		return nil
	}
	if b, ok := ft.(*types.Basic); ok && s.recs != nil && b.Info()&types.IsUnsigned != 0 && b.Kind() != types.Uint8 {
		for j := 0; j < t.NumFields(); j++ {
			if sl, ok := t.Field(j).Type().Underlying().(*types.Slice); ok {
				if d := isStruct(sl.Elem()); d != nil && isDimension(d) {
					return vInt(*s.recs)
				}
			}
		}
	}
	// the table of dimensions
	if sl, ok := ft.(*types.Slice); ok {
		if d := isStruct(sl.Elem()); d != nil && isDimension(d) {
			id := "K<dims>"
			o := &Obj{zero: true, typ: ft, cells: map[string]*Val{}}
			for j, n := range s.dims {
				for f := 0; f < d.NumFields(); f++ {
					x := tok(fmt.Sprintf("dim%d.%d", j, f))
					if !isString(d.Field(f).Type()) {
						x = vInt(n)
					}
					o.cells[fmt.Sprintf("[%d].%d", j, f)] = x
				}
			}
			st.mem[id] = o
			return vSlice(id, "", vInt(0), vInt(int64(len(s.dims))))
		}
	}
	return nil
}

func isDimension(d *types.Struct) bool {
	str, num, other := 0, 0, 0
	for i := 0; i < d.NumFields(); i++ {
		b, ok := d.Field(i).Type().Underlying().(*types.Basic)
		switch {
		case ok && b.Info()&types.IsString != 0:
			str++
		case ok && b.Info()&types.IsInteger != 0:
			num++
		default:
			other++
		}
	}
	return str == 1 && num == 1 && other == 0
}

// sequel interprets another call in the state that an earlier one left.
func (a *An) sequel(e *Exit, f *ssa.Function, prop string, args ...*Val) []*Exit {
	st := newState()
	st.mem = e.mem.clone()
	for k, v := range e.nn {
		st.nn[k] = v
	}
	st.prop = prop
	return a.call(st, f, args, nil, nil, 0, false)
}

// methodOf finds the method that an interface value of known dynamic type has.
func (p *Prog) methodOf(v *Val, name string) (*ssa.Function, *Val) {
	if v == nil || v.k != KIface {
		return nil, nil
	}
	ms := types.NewMethodSet(v.t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.prog.MethodValue(ms.At(i)), v.e[0]
		}
	}
	return nil, nil
}

// ioFacts collects what is known of the data that is read on a path, as a sorted set in the property state.
func addFact(st *State, f string) {
	fs := strings.Fields(st.prop)
	for _, x := range fs {
		if x == f {
			return
		}
	}
	fs = append(fs, f)
	sort.Strings(fs)
	st.prop = strings.Join(fs, " ")
}

// dataRead models the successful reading of data, and records the positions and sizes that are known:
// S<offset> positioned, L<n> limited to n bytes, R<n> n bytes read, E decoded with the wrong byte order.
func dataRead(c *Call) ([]Out, bool) {
	switch {
	case c.name == "encoding/binary.Read" && len(c.args) == 3:
		st := c.st.clone()
		d := c.args[2]
		if o := c.args[1]; o.k == KIface && !strings.HasSuffix(o.t.String(), "bigEndian") {
			addFact(st, "E")
		}
		if d.k == KIface && d.e[0].k == KSlice {
			if sl, ok := d.t.Underlying().(*types.Slice); ok {
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok {
					if n, ok := d.e[0].e[1].intVal(); ok {
						addFact(st, fmt.Sprint("R", n*types.SizesFor("gc", "amd64").Sizeof(b)))
					}
				}
			}
		}
		c.a.havoc(st, []*Val{c.args[0], d}, c.a.site(c.site))
		return []Out{{st: st, res: vNil, prop: st.prop}}, true
	case c.name == "io.ReadFull":
		return readModel(c, nil)
	case c.name == "io.LimitReader" && len(c.args) == 2:
		if n, ok := c.args[1].intVal(); ok {
			st := c.st.clone()
			addFact(st, fmt.Sprint("L", n))
			outs := c.fr.opaque(&Call{c.a, c.fr, c.site, st, c.callee, c.name, c.args, c.fnVal})
			for i := range outs {
				if outs[i].st == nil {
					outs[i].st = st
				}
				outs[i].prop = st.prop
			}
			return outs, true
		}
	case strings.HasSuffix(c.name, ".Seek") && len(c.args) == 3:
		n, ok := c.args[1].intVal()
		w, ok2 := c.args[2].intVal()
		if ok && ok2 && w == 0 {
			st := c.st.clone()
			addFact(st, fmt.Sprint("S", n))
			return []Out{{st: st, res: vTuple(vInt(n), vNil), prop: st.prop}}, true
		}
	}
	return nil, false
}

func ruleC01(p *Prog, r *Report) {
	r.explain("The places where the CDF package keeps a type code are found as what is compared with the codes of the specification (fields of structs, results of reads). The reading interface is interpreted abstractly for each of the eleven codes and for variables of no to four dimensions (whole values and slices, with the fast and the slow conversion): the Go type of the values, the names of the type, and the known sizes and positions of what is read have to be those of the table. The reading of attributes is interpreted for each code with none to four values: Go type and number of bytes consumed.")
	c := p.cdfCodes()
	if len(c.fields) == 0 {
		r.fail("anchor", "type code of a variable", "", "no field is compared with the type codes")
		return
	}
	base := p.initBase()
	n := 0
	for _, g := range p.ifaceMethods("netcdf/api", "Group", "GetVarGetter") {
		if !inPkg(g, "netcdf/cdf") {
			continue
		}
		for _, t := range cdfTypes {
			for nd := 0; nd <= 4; nd++ {
				n += p.cdfRead(r, base, c, g, t, cdfDims[:nd])
			}
			n += p.cdfRead(r, base, c, g, t, []int64{0})
			n += p.cdfRead(r, base, c, g, t, []int64{0, 4})
			n += p.cdfRead(r, base, c, g, t, []int64{0, 4, 3})
		}
	}
	r.minimum("values read", n, 11*8)
	attrs, vars := 0, 0
	var reads []*ssa.Call
	for call := range c.reads {
		reads = append(reads, call)
	}
	sort.Slice(reads, func(i, j int) bool { return p.pos(reads[i]) < p.pos(reads[j]) })
	for _, call := range reads {
		res := call.Parent().Signature.Results()
		isAttr, isVar := false, false
		for i := 0; i < res.Len(); i++ {
			isAttr = isAttr || types.IsInterface(res.At(i).Type()) && !isErrorType(res.At(i).Type())
			isVar = isVar || c.hasCode(isStruct(res.At(i).Type())) || c.hasCode(isStruct(derefType(res.At(i).Type())))
		}
		for _, t := range cdfTypes {
			switch {
			case isAttr:
				for k := int64(0); k <= 4; k++ {
					p.cdfAttr(r, base, call, t, k)
					attrs++
				}
			case isVar:
				for _, d := range [][]int64{{}, {7}, {7, 4}, {0}, {0, 4}, {0, 4, 3}} {
					p.cdfVar(r, base, c, call, t, d)
					vars++
				}
			}
		}
	}
	r.minimum("attribute readings", attrs, 55)
	r.minimum("variable readings", vars, 66)
	// the writer
	p.cdfWrites(r, "code")
}

func (c *cdfCodes) hasCode(s *types.Struct) bool {
	if s == nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if c.fields[fieldKey{s, i}] {
			return true
		}
	}
	return false
}

func prod(d []int64) int64 {
	n := int64(1)
	for _, x := range d {
		n *= x
	}
	return n
}

func (p *Prog) cdfRead(r *Report, base Mem, c *cdfCodes, g *ssa.Function, t cdfType, dims []int64) int {
	shape := fmt.Sprintf("%s of %d dimensions", t.name, len(dims))
	record := len(dims) > 0 && dims[0] == 0
	if record {
		shape += ", the first unlimited"
	}
	s := &cdfShape{c, t.code, dims, nil}
	newA := func() *An {
		a := newAn(p, base)
		a.PinField = s.pin
		a.Unroll, a.Recur = 12, 6
		a.OnCall = dataRead
		return a
	}
	a := newA()
	opened, n := 0, 0
	ei := errResult(g)
	for _, e := range a.run(g, "", nil, nil) {
		if e.panic != nil || exitErr(e, ei) == -1 {
			continue
		}
		opened++
		for _, m := range []struct{ method, want string }{{"GoType", t.gone}, {"Type", t.name}} {
			f, recv := p.methodOf(e.results[0], m.method)
			if f == nil {
				r.fail("undecided", shape+" "+m.method, p.pos(g), "the dynamic type of what the function returns is not known")
				continue
			}
			r.obl("type name", shape+" "+m.method)
			for _, x := range a.sequel(e, f, "", recv) {
				if x.panic != nil {
					continue
				}
				if got, ok := x.results[0].strVal(); !ok || got != m.want {
					r.fail("type name", shape+" "+m.method, p.pos(x.at), "the name of the type is %s instead of %q", x.results[0].Key(), m.want)
				}
			}
		}
		values := func(m string, at, cnt int64, args ...*Val) {
			f, recv := p.methodOf(e.results[0], m)
			if f == nil {
				return
			}
			what := shape + " " + m
			r.obl("values", what)
			ok := 0
			for _, x := range a.sequel(e, f, "", append([]*Val{recv}, args...)...) {
				if x.panic != nil || exitErr(x, errResult(f)) == -1 {
					continue
				}
				ok++
				want := t.valueType(len(dims))
				if v := x.results[0]; v.k != KIface || !types.Identical(v.t, want) {
					r.fail("values", what, p.pos(x.at), "the values are %s instead of %s", v.Key(), want)
				}
				for _, f := range strings.Fields(x.prop) {
					var want int64
					switch f[0] {
					case 'E':
						r.fail("values", what, p.pos(x.at), "the data is not decoded as big-endian")
						continue
					case 'S':
						want = at * t.size
					case 'L', 'R':
						want = cnt * t.size
					}
					if f[1:] != itoa(want) && !(record && f[0] != 'R') {
						r.fail("values", what, p.pos(x.at), "%s instead of %d", map[byte]string{'S': "the data is read at ", 'L': "the size of the data is ", 'R': "the size of the data is "}[f[0]]+f[1:], want)
					}
				}
			}
			r.check(ok > 0, "values", what, p.pos(f), "the values cannot be read")
			n++
		}
		if len(dims) == 0 {
			values("GetSlice", 0, 1, vInt(0), vInt(1))
			values("Values", 0, 1)
			continue
		}
		row := prod(dims[1:])
		values("GetSlice", 3*row, 2*row, vInt(3), vInt(5))
		if !record {
			values("Values", 0, prod(dims))
		}
		_ = row
	}
	r.cover(a)
	r.check(opened > 0, "values", shape, p.pos(g), "a variable of this type cannot be opened")
	return n
}

// numbers gives the integers that are read their values, in order; afterwards bytes are counted.
type numbers struct {
	vals []int64
}

// The state is "<i>" while numbers are given, and "B<bytes>" or "B?" afterwards.
func (q *numbers) next(elem types.Type, st *State) *Val {
	b, _ := elem.Underlying().(*types.Basic)
	if b == nil {
		return nil
	}
	size := types.SizesFor("gc", "amd64").Sizeof(b)
	if strings.HasPrefix(st.prop, "B") {
		q.advance(st, size)
		return nil
	}
	i := 0
	fmt.Sscan(st.prop, &i)
	if i >= len(q.vals) || size == 1 {
		return nil
	}
	v := q.vals[i]
	i++
	st.prop = fmt.Sprint(i)
	return vInt(v)
}

func (q *numbers) advance(st *State, n int64) {
	if !strings.HasPrefix(st.prop, "B") || st.prop == "B?" {
		return
	}
	if n < 0 {
		st.prop = "B?"
		return
	}
	k := int64(0)
	fmt.Sscan(st.prop[1:], &k)
	st.prop = fmt.Sprint("B", k+n)
}

// cdfAttr interprets the reading of an attribute with k values.
func (p *Prog) cdfAttr(r *Report, base Mem, call *ssa.Call, t cdfType, k int64) {
	f := call.Parent()
	what := fmt.Sprintf("attribute of %d values of type %s", k, t.name)
	a := newAn(p, base)
	a.Unroll, a.Recur = 12, 4
	// length of the name and the name, then the number of values, which comes after the type
	q := &numbers{vals: []int64{4, k}}
	cnt := reader(attrReader{q})
	a.OnCall = func(c *Call) ([]Out, bool) {
		if ssa.Instruction(c.site) == ssa.Instruction(call) {
			st := c.st.clone()
			c.a.havoc(st, c.args, c.a.site(c.site))
			return []Out{{st: st, res: vInt(t.code), prop: "1"}}, true
		}
		return readModel(c, cnt)
	}
	r.obl("attributes", what)
	ok := 0
	for _, e := range a.run(f, "0", nil, nil) {
		if e.panic != nil {
			continue
		}
		ok++
		want := t.valueType(0)
		if t.elem != types.String && k != 1 {
			want = t.valueType(1)
		}
		for i, v := range e.results {
			rt := f.Signature.Results().At(i).Type()
			if !types.IsInterface(rt) || isErrorType(rt) {
				continue
			}
			if v.k != KIface || !types.Identical(v.t, want) {
				r.fail("attributes", what, p.pos(e.at), "the value is %s instead of %s", v.Key(), want)
			}
		}
		if n := fmt.Sprint("B", (k*t.size+3)/4*4); e.prop != n {
			r.fail("attributes", what, p.pos(e.at), "%s bytes of values are read instead of %s", strings.TrimPrefix(e.prop, "B"), n[1:])
		}
	}
	r.cover(a)
	r.check(ok > 0, "attributes", what, p.pos(f), "this cannot be read")
}

// attrReader counts bytes once the number of values was given.
type attrReader struct{ *numbers }

func (q attrReader) next(elem types.Type, st *State) *Val {
	v := q.numbers.next(elem, st)
	if st.prop == "2" {
		st.prop = "B0"
	}
	return v
}

// cdfVar interprets the reading of a variable's header entry.
func (p *Prog) cdfVar(r *Report, base Mem, c *cdfCodes, call *ssa.Call, t cdfType, dims []int64) {
	f := call.Parent()
	what := fmt.Sprintf("header of a variable of type %s and %d dimensions", t.name, len(dims))
	record := len(dims) > 0 && dims[0] == 0
	if record {
		what += ", the first unlimited"
	}
	a := newAn(p, base)
	a.Unroll, a.Recur = 12, 4
	s := &cdfShape{c, t.code, dims, nil}
	a.PinField = func(st *State, ts *types.Struct, i int, v *Val) *Val {
		if c.hasCode(ts) {
			return nil
		}
		return s.pin(st, ts, i, v)
	}
	vals := []int64{4, int64(len(dims))}
	for i := range dims {
		vals = append(vals, int64(i))
	}
	vals = append(vals, 0, 0)
	after := fmt.Sprint(len(vals))
	size := int64(1000)
	vals = append(vals, size)
	q := &numbers{vals: vals}
	a.OnCall = func(c *Call) ([]Out, bool) {
		if ssa.Instruction(c.site) == ssa.Instruction(call) {
			st := c.st.clone()
			c.a.havoc(st, c.args, c.a.site(c.site))
			return []Out{{st: st, res: vInt(t.code), prop: after}}, true
		}
		return readModel(c, q)
	}
	r.obl("variables", what)
	ok := 0
	want := size
	if record {
		want = prod(dims[1:]) * t.size
	}
	for _, e := range a.run(f, "0", nil, nil) {
		if e.panic != nil {
			continue
		}
		for i, v := range e.results {
			ts := isStruct(f.Signature.Results().At(i).Type())
			if !c.hasCode(ts) {
				continue
			}
			ok++
			if v.k != KStruct {
				r.fail("undecided", what, p.pos(e.at), "the variable is not known")
				continue
			}
			for j := range v.e {
				switch {
				case c.fields[fieldKey{ts, j}]:
					if n, ok := v.e[j].intVal(); !ok || n != t.code {
						r.fail("variables", what, p.pos(e.at), "the type code is kept as %s instead of %d", v.e[j].Key(), t.code)
					}
				case types.Identical(ts.Field(j).Type(), types.Typ[types.Int64]):
					if n, ok := v.e[j].intVal(); !ok || n != want {
						r.fail("variables", what, p.pos(e.at), "the size of a record is kept as %s instead of %d", v.e[j].Key(), want)
					}
				}
			}
		}
	}
	r.cover(a)
	r.check(ok > 0, "variables", what, p.pos(f), "this cannot be read")
}
