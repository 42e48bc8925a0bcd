package main

import (
	"encoding/binary"
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// H05: the datatypes of HDF5 become the Go types that hold their values.

func init() { rules["H05"] = ruleH05 }

// script gives the bytes of a structure to what reads it. The state is the number of bytes read, "X"
// when more was read than there is or the number is not known.
type script struct {
	b    []byte
	tail bool // padding of unknown length may follow
}

func (q *script) next(elem types.Type, st *State) *Val {
	b, ok := elem.Underlying().(*types.Basic)
	if !ok {
		q.advance(st, -1)
		return nil
	}
	n := int(types.SizesFor("gc", "amd64").Sizeof(b))
	off := 0
	if _, err := fmt.Sscan(st.prop, &off); err != nil || off+n > len(q.b) {
		st.prop = "X"
		return nil
	}
	var x uint64
	for i := n - 1; i >= 0; i-- {
		x = x<<8 | uint64(q.b[off+i])
	}
	st.prop = fmt.Sprint(off + n)
	return convertConst(constant.MakeUint64(x), elem)
}

func (q *script) advance(st *State, n int64) {
	off := 0
	if _, err := fmt.Sscan(st.prop, &off); err == nil && n < 0 && q.tail && off == len(q.b) {
		return
	} else if err != nil || n < 0 || int64(off)+n > int64(len(q.b)) {
		st.prop = "X"
		return
	}
	st.prop = fmt.Sprint(int64(off) + n)
}

// A hdfType is a datatype as it is in the file, and what it becomes.
type hdfType struct {
	name  string
	class int64
	b     []byte
	elem  types.Type // of the values
	less  int        // dimensions that are part of the element
	more  int        // dimensions that the element adds
	inner []int64    // the lengths of these
	size  int64      // of the numbers that are read (0: not numbers)
	big   bool
	sure  bool // the type of the values has to be found
	cdl   string
	gone  string
	enum  bool
	ok    func(t types.Type) bool
}

func hdfHead(version, class int, bits uint32, size uint32, props ...byte) []byte {
	b := []byte{byte(version<<4 | class), byte(bits), byte(bits >> 8), byte(bits >> 16)}
	b = binary.LittleEndian.AppendUint32(b, size)
	return append(b, props...)
}

func hdfInt(version int, size uint32, signed, big bool) []byte {
	bits := uint32(0)
	if big {
		bits |= 1
	}
	if signed {
		bits |= 8
	}
	return hdfHead(version, 0, bits, size, 0, 0, byte(8*size), 0)
}

func hdfTypes() []hdfType {
	var out []hdfType
	ints := map[string]types.Type{"int8": types.Typ[types.Int8], "uint8": types.Typ[types.Uint8], "int16": types.Typ[types.Int16], "uint16": types.Typ[types.Uint16],
		"int32": types.Typ[types.Int32], "uint32": types.Typ[types.Uint32], "int64": types.Typ[types.Int64], "uint64": types.Typ[types.Uint64]}
	cdl := map[string]string{"int8": "byte", "uint8": "ubyte", "int16": "short", "uint16": "ushort", "int32": "int", "uint32": "uint", "int64": "int64", "uint64": "uint64"}
	var names []string
	for n := range ints {
		names = append(names, n)
	}
	sort.Strings(names)
	sizes := types.SizesFor("gc", "amd64")
	order := map[bool]string{false: "little-endian", true: "big-endian"}
	for _, n := range names {
		t := ints[n]
		size := sizes.Sizeof(t)
		for _, big := range []bool{false, true} {
			for v := 1; v <= 3; v++ {
				out = append(out, hdfType{name: fmt.Sprintf("%s %s (version %d)", order[big], n, v), b: hdfInt(v, uint32(size), n[0] == 'i', big),
					elem: t, size: size, big: big, sure: true, cdl: cdl[n], gone: n})
			}
			base := hdfInt(1, uint32(size), n[0] == 'i', big)
			out = append(out, hdfType{name: fmt.Sprintf("enumeration of %s %s", order[big], n), class: 8, b: hdfHead(3, 8, 0, uint32(size), base...), elem: t, size: size, big: big, enum: true})
			out = append(out, hdfType{name: fmt.Sprintf("array of %s %s", order[big], n), class: 10, b: hdfHead(3, 10, 0, uint32(4*size), append([]byte{1, 4, 0, 0, 0}, base...)...), elem: t, more: 1, inner: []int64{4}, size: size, big: big, sure: true})
			out = append(out, hdfType{name: fmt.Sprintf("array of arrays of %s %s", order[big], n), class: 10, b: hdfHead(3, 10, 0, uint32(24*size), append([]byte{2, 4, 0, 0, 0, 6, 0, 0, 0}, base...)...), elem: t, more: 2, inner: []int64{4, 6}, size: size, big: big, sure: true})
			out = append(out, hdfType{name: fmt.Sprintf("sequence of %s %s", order[big], n), class: 9, b: hdfHead(1, 9, 0, 16, base...), elem: t, more: 1})
		}
	}
	for _, big := range []bool{false, true} {
		bits := uint32(0x20)
		if big {
			bits |= 1
		}
		out = append(out, hdfType{name: order[big] + " float32", class: 1, b: hdfHead(1, 1, bits|31<<8, 4, 0, 0, 32, 0, 23, 8, 0, 23, 127, 0, 0, 0), elem: types.Typ[types.Float32], size: 4, big: big, sure: true, cdl: "float", gone: "float32"})
		out = append(out, hdfType{name: order[big] + " float64", class: 1, b: hdfHead(1, 1, bits|63<<8, 8, 0, 0, 64, 0, 52, 11, 0, 52, 0xff, 3, 0, 0), elem: types.Typ[types.Float64], size: 8, big: big, sure: true, cdl: "double", gone: "float64"})
	}
	str := types.Typ[types.String]
	out = append(out,
		hdfType{name: "string of length 5", class: 3, b: hdfHead(1, 3, 0, 5), elem: str, sure: true, cdl: "string", gone: "string"},
		hdfType{name: "string of length 1", class: 3, b: hdfHead(1, 3, 0, 1), elem: str, less: 1, sure: true, cdl: "string", gone: "string"},
		hdfType{name: "opaque", class: 5, b: hdfHead(1, 5, 0, 3), ok: func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && types.Identical(s.Elem(), types.Typ[types.Uint8])
		}},
		hdfType{name: "compound", class: 6, b: hdfHead(3, 6, 1, 4, append([]byte{'a', 0, 0}, hdfInt(1, 4, true, false)...)...), ok: func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && isStruct(s.Elem()) != nil
		}},
		hdfType{name: "object reference", class: 7, b: hdfHead(1, 7, 0, 8), elem: types.Typ[types.Uint64], size: 8, sure: true},
		hdfType{name: "variable-length string", class: 9, b: hdfHead(1, 9, 1, 16, hdfHead(1, 3, 0, 1)...), elem: str, sure: true, cdl: "string", gone: "string"},
	)
	return out
}

func nested(t types.Type, n int) types.Type {
	for i := 0; i < n; i++ {
		t = types.NewSlice(t)
	}
	return t
}

// hdfAttrStructs finds the structures that may describe a datatype: they have a byte order.
func (p *Prog) hdfAttrStructs() []types.Type {
	var out []types.Type
	scope := p.ssa["netcdf/hdf5"].Pkg.Scope()
	for _, n := range scope.Names() {
		t, ok := scope.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		if s := isStruct(t.Type()); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Type().String() == "encoding/binary.ByteOrder" {
					out = append(out, t.Type())
					break
				}
			}
		}
	}
	return out
}

type typeRule struct {
	p      *Prog
	r      *Report
	base   Mem
	attr   types.Type
	parser *ssa.Function
	allocs []*ssa.Function
	names  []*ssa.Function
}

// parse interprets the reading of a datatype.
func (h *typeRule) parse(f *ssa.Function, b []byte) (*An, []*Exit) {
	a := newAn(h.p, h.base)
	a.Unroll, a.Recur = 16, 6
	q := &script{b: b}
	a.OnCall = func(c *Call) ([]Out, bool) {
		return readModel(c, q)
	}
	args := map[int]*Val{}
	for i, prm := range f.Params {
		switch {
		case isStruct(derefType(prm.Type())) == isStruct(h.attr):
			args[i] = vPtr("attr!", "")
		case types.IsInterface(prm.Type()) && i > 0 && types.Identical(prm.Type(), f.Params[i-1].Type()):
			args[i] = vNil // the data
		}
	}
	exits := a.run(f, "0", func(st *State) {
		st.mem["attr!"] = &Obj{zero: true, typ: h.attr, cells: map[string]*Val{}}
	}, args)
	h.r.cover(a)
	var good []*Exit
	for _, e := range exits {
		if e.panic == nil && e.prop == fmt.Sprint(len(b)) {
			good = append(good, e)
		}
	}
	return a, good
}

func hasRead(t types.Type) bool { return types.NewMethodSet(t).Lookup(nil, "Read") != nil }

func (h *typeRule) find() {
	p := h.p
	s := isStruct(h.attr)
	isAttr := func(t types.Type) bool { return isStruct(t) == s || isStruct(derefType(t)) == s }
	probe := hdfInt(1, 4, true, false)
	for _, f := range p.funcs {
		if !inPkg(f, "netcdf/hdf5") || f.Parent() != nil || f.Signature.Recv() != nil || len(f.Blocks) == 0 {
			continue
		}
		attr, ptr, read, dims := false, false, false, false
		for _, prm := range f.Params {
			attr = attr || isAttr(prm.Type())
			ptr = ptr || isStruct(derefType(prm.Type())) == s
			read = read || types.IsInterface(prm.Type()) && hasRead(prm.Type())
			if sl, ok := prm.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.Uint64]) {
				dims = true
			}
		}
		res := f.Signature.Results()
		switch {
		case attr && read && dims && res.Len() == 1 && types.IsInterface(res.At(0).Type()) && h.dispatches(f):
			h.allocs = append(h.allocs, f)
		case attr && !read && res.Len() == 1 && isString(res.At(0).Type()) && h.dispatches(f):
			h.names = append(h.names, f)
		case ptr && read && res.Len() == 0 && h.parser == nil:
			if _, good := h.parse(f, probe); len(good) > 0 {
				h.parser = f
			}
		}
	}
}

// dispatches says that a function has a parameter for the class.
func (h *typeRule) dispatches(f *ssa.Function) bool {
	for _, prm := range f.Params {
		if b, ok := prm.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return true
		}
	}
	return false
}

// args gives the arguments of a function that works on a datatype that was read.
func (h *typeRule) args(f *ssa.Function, st *Exit, class int64, dims *Val) []*Val {
	s := isStruct(h.attr)
	var out []*Val
	for _, prm := range f.Params {
		v := tok("arg:" + prm.Name())
		b, basic := prm.Type().Underlying().(*types.Basic)
		switch {
		case isStruct(derefType(prm.Type())) == s:
			v = vPtr("attr!", "")
		case isStruct(prm.Type()) == s:
			v = top
		case basic && b.Info()&types.IsInteger != 0:
			v = vInt(class)
		case dims != nil && isSliceOf(prm.Type(), types.Typ[types.Uint64]):
			v = dims
		}
		out = append(out, v)
	}
	return out
}

func isSliceOf(t, elem types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), elem)
}

func ruleH05(p *Prog, r *Report) {
	r.explain("The reading of a datatype is interpreted abstractly with the bytes of the datatype pinned: all sizes, signs and byte orders of integers and floating-point numbers (three versions), strings, opaque types, compounds, references, enumerations, sequences, arrays. What reads values of the datatype is then interpreted on the description that results, for values of no to three dimensions, with and without elements: the Go type of the values has to be that of the specification's datatype, numbers are read with the size and the byte order of the datatype, and reflection never stores a value of one type in a place of another (which would panic). The names of the type are computed the same way. Classes that do not exist are never accepted.")
	h := &typeRule{p: p, r: r, base: p.initBase()}
	for _, t := range p.hdfAttrStructs() {
		if h.parser == nil {
			h.attr, h.allocs, h.names = t, nil, nil
			h.find()
		}
	}
	if h.parser == nil {
		r.fail("anchor", "reading of datatypes", "", "no function reads the datatype of an integer")
		return
	}
	r.minimum("functions that read values", len(h.allocs), 1)
	r.minimum("functions that name types", len(h.names), 2)
	for class := 11; class < 16; class++ {
		what := fmt.Sprintf("datatype class %d", class)
		r.obl("unknown", what)
		for v := 1; v <= 4; v++ {
			_, good := h.parse(h.parser, hdfHead(v, class, 0, 4))
			r.check(len(good) == 0, "unknown", what, p.pos(h.parser), "a class that does not exist is accepted")
		}
	}
	for _, t := range hdfRejected() {
		r.obl("unsupported", t.name)
		a, good := h.parse(h.parser, t.b)
		for _, e := range good {
			for _, f := range h.allocs {
				h.rejects(a, e, f, t)
			}
		}
	}
	n := 0
	named := map[*ssa.Function]map[string]string{}
	for _, t := range hdfTypes() {
		a, good := h.parse(h.parser, t.b)
		r.obl("read", t.name)
		if len(good) == 0 {
			r.fail("read", t.name, p.pos(h.parser), "this datatype is not read")
			continue
		}
		for _, e := range good {
			for _, f := range h.allocs {
				for _, dims := range [][]int64{{}, {3}, {3, 2}, {3, 2, 5}, {0}, {0, 2}, {2, 0}} {
					h.values(a, e, f, t, dims)
					n++
				}
			}
			if t.cdl == "" {
				continue
			}
			for _, f := range h.names {
				a.OnCall = nil
				for _, x := range a.sequel(e, f, "", h.args(f, e, t.class, nil)...) {
					if x.panic != nil {
						continue
					}
					s, ok := x.results[0].strVal()
					if !ok {
						s = "(unknown)"
					}
					if named[f] == nil {
						named[f] = map[string]string{}
					}
					if o, has := named[f][t.name]; has && o != s {
						s = o + " or " + s
					}
					named[f][t.name] = s
				}
			}
		}
	}
	goNames, cdlNames := 0, 0
	for _, f := range h.names {
		// the kind of name is the one that fits most types
		score := 0
		for _, t := range hdfTypes() {
			if t.cdl == t.gone {
				continue
			}
			if named[f][t.name] == t.gone {
				score++
			} else if named[f][t.name] == t.cdl {
				score--
			}
		}
		if score > 0 {
			goNames++
		} else {
			cdlNames++
		}
		for _, t := range hdfTypes() {
			if t.cdl == "" {
				continue
			}
			want := t.cdl
			if score > 0 {
				want = t.gone
			}
			r.check(named[f][t.name] == want, "names", t.name+" "+shortFn(f), p.pos(f), "the name of the type is %q instead of %q", named[f][t.name], want)
		}
	}
	r.minimum("functions that give Go names", goNames, 1)
	r.minimum("functions that give CDL names", cdlNames, 1)
	r.minimum("types and shapes of values", n, 300)
}

// hdfRejected lists datatypes that have no Go type.
func hdfRejected() []hdfType {
	var out []hdfType
	for _, size := range []uint32{0, 3, 16} {
		out = append(out, hdfType{name: fmt.Sprintf("integer of %d bytes", size), b: hdfInt(1, size, true, false)})
	}
	float := func(bits, size uint32) []byte {
		return hdfHead(1, 1, bits|0x20|(8*size-1)<<8, size, 0, 0, byte(8*size), 0, 52, 11, 0, 52, 0xff, 3, 0, 0)
	}
	return append(out,
		hdfType{name: "floating-point number of 2 bytes", class: 1, b: float(0, 2)},
		hdfType{name: "floating-point number in VAX order", class: 1, b: float(0x41, 8)},
		hdfType{name: "floating-point number in an undefined order", class: 1, b: float(0x40, 8)})
}

// rejects interprets the reading of values of a type that is not supported.
func (h *typeRule) rejects(a *An, e *Exit, f *ssa.Function, t hdfType) {
	a.OnCall = func(c *Call) ([]Out, bool) { return readModel(c, nil) }
	for _, x := range a.sequel(e, f, "", h.args(f, e, t.class, vNil)...) {
		if x.panic == nil {
			h.r.fail("unsupported", t.name, h.p.pos(x.at), "values of this type are read")
		}
	}
}

// values interprets the reading of values.
func (h *typeRule) values(a *An, e *Exit, f *ssa.Function, t hdfType, dims []int64) {
	r, p := h.r, h.p
	what := fmt.Sprintf("%s, dimensions %v", t.name, dims)
	r.obl("values", what)
	// the length of a slice whose elements have some depth
	lengths := append(append([]int64{}, dims...), t.inner...)
	if t.less > 0 && len(lengths) >= t.less {
		lengths = lengths[:len(lengths)-t.less]
	}
	length := func(at ssa.Instruction, st types.Type, n *Val) {
		k, et := 0, st
		for t.elem != nil && !types.Identical(et, t.elem) {
			s, ok := et.(*types.Slice)
			if !ok {
				return
			}
			et = s.Elem()
			k++
		}
		if t.elem == nil || k == 0 || k > len(lengths) || t.more > len(t.inner) {
			return
		}
		if got, ok := n.intVal(); ok && got != lengths[len(lengths)-k] {
			r.fail("values", what, p.pos(at), "a slice of %d instead of %d elements is made", got, lengths[len(lengths)-k])
		}
	}
	a.OnCall = func(c *Call) ([]Out, bool) {
		res := c.site.Common().Signature().Results()
		switch {
		case c.name == "reflect.MakeSlice" && len(c.args) == 3:
			if mt := rtype(c.args[0]); mt != nil {
				length(c.site, mt, c.args[1])
			}
		case c.site.Common().IsInvoke() && res.Len() == 1 && res.At(0).Type().String() == "reflect.Type":
			return []Out{{res: vNil}}, true // no types are registered
		case c.name == "(reflect.Value).Set" && len(c.args) == 2:
			x, y := c.args[0], c.args[1]
			if x.k == KRVal && y.k == KRVal && x.t != nil && y.t != nil && !types.AssignableTo(y.t, x.t) {
				r.fail("values", what, p.pos(c.site), "stores a value of type %s in a place of type %s", typeString(y.t), typeString(x.t))
			}
		case c.name == "encoding/binary.Read" && len(c.args) == 3:
			st := c.st.clone()
			d := c.args[2]
			if o := c.args[1]; d.k == KIface {
				et := d.t
				for {
					u := elemOf(et)
					if u == nil {
						break
					}
					et = u
				}
				if b, ok := et.Underlying().(*types.Basic); ok {
					order := "?"
					if o.k == KIface {
						order = map[bool]string{true: "big", false: "little"}[strings.HasSuffix(o.t.String(), "bigEndian")]
					}
					addFact(st, fmt.Sprintf("%d/%s", types.SizesFor("gc", "amd64").Sizeof(b), order))
				}
			}
			c.a.havoc(st, []*Val{c.args[0], d}, c.a.site(c.site))
			return []Out{{st: st, res: vNil, prop: st.prop}}, true
		}
		return readModel(c, nil)
	}
	var dv []*Val
	for _, d := range dims {
		dv = append(dv, vInt(d))
	}
	st := newState()
	slice := knownSlice(st, "dims!", types.NewSlice(types.Typ[types.Uint64]), dv...)
	e2 := *e
	e2.mem = e.mem.clone()
	e2.mem["dims!"] = st.mem["dims!"]
	want := types.Type(nil)
	if t.elem != nil {
		k := len(dims) + t.more - t.less
		if k < 0 {
			k = 0
		}
		want = nested(t.elem, k)
	}
	ok := 0
	for _, x := range a.sequel(&e2, f, "", h.args(f, e, t.class, slice)...) {
		if x.panic != nil {
			continue
		}
		ok++
		v := x.results[0]
		if t.enum && v.k == KIface && v.e[0].k == KStruct {
			for i, w := range v.e[0].e {
				if s := isStruct(v.t); s != nil && types.IsInterface(s.Field(i).Type()) {
					v = w
					break
				}
			}
		}
		switch {
		case v.k == KIface:
			good := want != nil && types.Identical(v.t, want)
			if good && v.e[0].k == KSlice && x.at != nil {
				length(x.at, v.t, v.e[0].e[1])
			}
			if t.ok != nil {
				et := v.t
				for range dims {
					s, isSl := et.(*types.Slice)
					if !isSl {
						et = nil
						break
					}
					et = s.Elem()
				}
				good = et != nil && t.ok(et)
			}
			if !good {
				r.fail("values", what, p.pos(x.at), "the values are of type %s", typeString(v.t))
			}
		case t.sure:
			r.fail("values", what, p.pos(x.at), "the type of the values is not known: %s", v.Key())
		}
		if t.size > 0 {
			for _, fact := range strings.Fields(x.prop) {
				size, order := int64(0), ""
				sz, o, _ := strings.Cut(fact, "/")
				fmt.Sscan(sz, &size)
				order = o
				if size != t.size {
					r.fail("values", what, p.pos(x.at), "numbers of %d bytes are read", size)
				}
				if size > 1 && order != map[bool]string{true: "big", false: "little"}[t.big] {
					r.fail("values", what, p.pos(x.at), "the values are decoded as %s-endian", order)
				}
			}
		}
	}
	r.check(ok > 0, "values", what, p.pos(f), "values of this type cannot be read")
}
