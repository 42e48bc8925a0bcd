package main

import (
	"fmt"
	"go/types"
)

// The files that W01 to W07 look at.

var hNumbers = []types.BasicKind{types.Int8, types.Uint8, types.Int16, types.Uint16, types.Int32, types.Uint32, types.Int64, types.Uint64, types.Float32, types.Float64}

func hv(name string, v *hNode, dims ...string) hVar {
	x := hVar{name: "s!v" + name, val: v}
	for _, d := range dims {
		if d != "" && d[0] != '=' {
			d = "s!d" + d
		} else if d != "" {
			d = "s!v" + d[1:] // the name of a variable
		}
		x.dims = append(x.dims, d)
	}
	return x
}

func (v hVar) with(as ...hAttr) hVar {
	v.attrs = append([]hAttr{}, as...)
	return v
}

func ha(name string, v *hNode) hAttr { return hAttr{key: "s!a" + name, val: v} }

func hg(name string, vars ...hVar) hGroup { return hGroup{name: "s!g" + name, vars: vars} }

func (g hGroup) with(as ...hAttr) hGroup {
	g.set = true
	g.attrs = append([]hAttr{}, as...)
	return g
}

func (g hGroup) in(gs ...hGroup) hGroup {
	g.groups = gs
	return g
}

func hdfFiles() []*hFile {
	var out []*hFile
	add := func(desc string, g hGroup) *hFile {
		f := &hFile{desc: desc, rest: int64(len(out)*3)%8 + 1, root: g}
		out = append(out, f)
		return f
	}
	root := func(vs ...hVar) hGroup { return hGroup{vars: vs} }
	add("nothing", root())
	i32 := hNum(types.Int32)

	for i, b := range hNumbers {
		n := types.Typ[b].Name()
		t := hNum(b)
		l := 1 + (i*3+2)%8
		// without a heap: all lengths modulo 8
		g := root(hv("s", t.copy()))
		for k := 0; k < 8; k++ {
			g.vars = append(g.vars, hv(fmt.Sprintf("n%d", k), t.copy()).with(ha("s", t.copy()), ha("l", hRep(t, k+1)), ha("m", hRep(hRep(t, 1+k%3), 1+k%2))))
		}
		g = g.with(ha("s", t.copy()), ha("l", hRep(t, l)), ha("e", hRep(t, 0)))
		add("values and attributes of type "+n, g)
		add("lists of type "+n, root(
			hv("l", hRep(t, l), "x"),
			hv("m", hRep(hRep(t, 3), 2), "y", "z").with(ha("l", hRep(t, 2))),
			hv("o", hRep(hRep(hRep(t, 2), 1), 3), "o", "p", "q"),
			hv("e", hRep(t, 0), "empty")))
		add("sequences of type "+n, root(
			hv("u", hRep(t, l)),
			hv("w", hList(hRep(t, 1), hRep(t, 3), hRep(t, 0)), "x"),
			hv("s", t.copy()).with(ha("w", hList(hRep(t, 2), hRep(t, 1))))).with(ha("w", hList(hRep(t, 1), hRep(t, 4), hRep(t, 2)))))
	}

	// strings
	var vs []hVar
	var as []hAttr
	for n := int64(0); n <= 8; n++ {
		as = append(as, ha(itoa(n), hStr(n)))
		vs = append(vs, hv(itoa(n), hStr(n)).with(ha("s", hStr(8-n))))
	}
	add("strings", hGroup{vars: vs}.with(as...))
	for n := int64(0); n < 3; n++ {
		add(fmt.Sprintf("lists of strings (%d)", n), root(
			hv("l", hList(hStr(n), hStr(n+3), hStr(n+5)), "x").with(ha("l", hList(hStr(n+6), hStr(2)))),
			hv("m", hRep(hRep(hStr(n+1), 2), 2), "y", "z").with(ha("m", hRep(hRep(hStr(3), 1), 2)))).with(ha("l", hList(hStr(4), hStr(n)))))
	}
	add("empty lists of strings", root(hv("e", hRep(hStr(1), 0), "x").with(ha("e", hRep(hStr(1), 0)))))

	// names
	for n := int64(0); n < 8; n++ {
		add(fmt.Sprintf("names (%d)", n), root(hv("x", i32.copy()).with(ha("a", i32.copy()))).with(ha("b", hNum(types.Float64))).in(hg("g", hv("y", hNum(types.Int8))))).rest = n + 1
	}

	for n := int64(0); n < 8; n++ {
		f := add(fmt.Sprintf("names of any length (%d)", n), root(hv("x", i32.copy()).with(ha("a", i32.copy()))).with(ha("b", hNum(types.Float64)), ha("s", hStr(-1))).in(hg("g", hv("y", hNum(types.Int8)))))
		f.rest, f.long = n+1, true
	}

	// groups
	add("groups", root(hv("x", i32.copy())).in(
		hg("a", hv("x", hNum(types.Float32))).with(ha("a", hNum(types.Int64))).in(hg("a", hv("x", hNum(types.Uint8)), hv("z", hStr(3)))),
		hg("b"),
		hg("c").in(hg("d").in(hg("e", hv("f", hNum(types.Int16)))))))
	add("dimensions in groups", root(hv("x", hRep(i32, 3), "x")).in(
		hg("a", hv("y", hRep(hRep(i32, 2), 3), "x", "y")).in(hg("b", hv("x", hRep(hNum(types.Float64), 2), "y")))))

	// dimensions
	add("shared dimensions", root(
		hv("a", hRep(hRep(i32, 2), 3), "x", "y"),
		hv("b", hRep(hRep(i32, 3), 2), "y", "x"),
		hv("c", hRep(hRep(i32, 3), 3), "x", "x"),
		hv("d", hNum(types.Float64))))
	add("coordinate variables", root(
		hv("a", hRep(hRep(i32, 2), 3), "=x", "=y").with(ha("a", i32.copy())),
		hv("x", hRep(hNum(types.Float32), 3), "=x").with(ha("u", hStr(4))),
		hv("y", hRep(hNum(types.Int64), 2), "=y")))
	reserved := func(names ...string) []hAttr {
		var as []hAttr
		for i, n := range names {
			as = append(as, hAttr{key: "=" + n, val: hStr(int64(i + 1))})
		}
		return append(as, ha("a", i32.copy()))
	}
	add("attributes with the names of the writer's own", root(
		hv("x", hRep(i32, 3), "=x").with(reserved("NAME", "CLASS")...),
		hv("a", hRep(i32, 3), "=x").with(reserved("DIMENSION_LIST")...)))
	add("a coordinate variable of strings", root(
		hv("x", hList(hStr(2), hStr(5)), "=x"),
		hv("a", hRep(i32, 2), "=x")))
	add("dimensions without names", root(
		hv("a", hRep(i32, 3), ""),
		hv("b", hRep(hRep(i32, 2), 3), "x", "")))
	add("empty dimensions", root(
		hv("a", hRep(hRep(i32, 0), 0), "x", "y"),
		hv("b", hRep(hRep(i32, 0), 2), "z", "x")))
	for n := int64(1); n <= 9; n += 4 {
		o := hOpaque(n)
		add(fmt.Sprintf("opaque values of %d bytes", n), root(
			hv("s", o.copy()).with(ha("s", o.copy()), ha("l", hRep(o, 3))),
			hv("l", hRep(o, 2), "x"),
			hv("w", hList(hRep(o, 1), hRep(o, 2)), "x")))
	}
	for _, b := range []types.BasicKind{types.Int8, types.Uint8, types.Int16, types.Uint16, types.Int32, types.Uint32, types.Int64, types.Uint64} {
		t := hNum(b)
		add("enumerations of type "+types.Typ[b].Name(), root(
			hv("s", hEnum(t.copy(), 2)).with(ha("s", hEnum(t.copy(), 3)), ha("l", hEnum(hRep(t, 3), 1))),
			hv("l", hEnum(hRep(t, 3), 2), "x"),
			hv("m", hEnum(hRep(hRep(t, 2), 2), 2), "y", "z")))
	}
	f64, i8 := hNum(types.Float64), hNum(types.Int8)
	comps := []*hNode{
		hComp(i32.copy()),
		hComp(i8.copy(), f64.copy(), hNum(types.Uint16)),
		hComp(hStr(3), i32.copy(), hStr(0)),
		hComp(hComp(i8.copy(), i32.copy()), hOpaque(3), hEnum(hNum(types.Int16), 2)),
		hComp(i8.copy(), hRep(i32, 3), hRep(f64, 1)),
	}
	for i, c := range comps {
		g := root(
			hv("s", c.copy()).with(ha("s", c.copy())),
			hv("l", hRep(c, 2), "x"),
			hv("m", hRep(hRep(c, 2), 1), "x1", "x2"))
		add(fmt.Sprintf("compounds (%d)", i), g)
		add(fmt.Sprintf("attributes of compounds (%d)", i), root(hv("x", i32.copy()).with(ha("l", hRep(c, 3)))).with(ha("s", c.copy()), ha("l", hRep(c, 2))))
	}
	add("a large compound", root(hv("s", hComp(hOpaque(250), i32.copy(), f64.copy())), hv("t", hComp(hOpaque(255))), hv("u", hComp(hOpaque(252), i32.copy()))))
	for _, n := range []int64{65531, 65532, 1<<24 - 5, 1<<24 - 4} {
		add(fmt.Sprintf("a compound of %d bytes", n+4), root(hv("s", hComp(hOpaque(n), i32.copy()))))
	}
	var many []*hNode
	for len(many) < 300 {
		many = append(many, hNum(hNumbers[len(many)%10]))
	}
	add("compounds with many members", root(hv("c", hComp(many...))))
	add("enumerations with many members", root(hv("c", hEnum(i32.copy(), 300))))
	for _, n := range []int64{4040, 4048, 4056, 4064, 9000} {
		add(fmt.Sprintf("a long string in the heap (%d)", n), root(hv("l", hList(hStr(n)), "").with(ha("a", i32.copy()))))
	}
	add("attributes of compounds with one list", root(hv("x", i32.copy()).with(ha("l", hComp(hRep(i32, 3))))).with(ha("l", hComp(i8.copy(), hRep(i32, 3)))))
	add("sequences of enumerations", root(hv("w", hComp(hRep(hEnum(hNum(types.Int16), 2), 3))).with(ha("a", hComp(hRep(hEnum(hNum(types.Uint32), 2), 3))))))
	add("sequences of compounds", root(hv("w", hList(hRep(comps[1], 2), hRep(comps[1], 1)), "x"), hv("u", hList(hRep(comps[2], 1), hRep(comps[2], 2)), "x")))
	// strings that are the same
	same := func(n int64) *hNode { return &hNode{kind: 's', n: n, same: "twin"} }
	add("strings that are the same", root(
		hv("l", hList(same(5), same(5), hStr(4)), "x").with(ha("l", hList(same(5), hStr(2)))),
		hv("s", same(5))).with(ha("l", hList(hStr(4), same(5)))))

	// what cannot be stored
	reject := func(kind, desc string, g hGroup) *hFile {
		f := add("(to be rejected) "+desc, g)
		f.reject = kind
		return f
	}
	reject("dims", "different lengths of a dimension", root(hv("a", hRep(i32, 3), "x"), hv("b", hRep(i32, 2), "x")))
	reject("dims", "different lengths of a dimension, first 1", root(hv("a", hRep(i32, 1), "x"), hv("b", hRep(i32, 2), "x")))
	reject("dims", "different lengths of a dimension, first 0", root(hv("a", hRep(i32, 0), "x"), hv("b", hRep(i32, 2), "x")))
	reject("dims", "different lengths of a dimension, then 1", root(hv("a", hRep(i32, 3), "x"), hv("b", hRep(i32, 1), "x")))
	reject("dims", "different lengths of a dimension, then 0", root(hv("a", hRep(i32, 3), "x"), hv("b", hRep(i32, 0), "x")))
	reject("dims", "a longer dimension in a group", root(hv("a", hRep(i32, 3), "x")).in(hg("g", hv("a", hRep(i32, 4), "x"))))
	reject("dims", "different lengths of a dimension of a variable", root(hv("a", hRep(hRep(i32, 2), 3), "x", "x")))
	reject("dims", "different lengths of a dimension in groups", root().in(hg("g", hv("a", hRep(i32, 3), "x")), hg("h", hv("a", hRep(i32, 2), "x"))))
	reject("dims", "more names than dimensions", root(hv("a", hRep(i32, 3), "x", "y")))
	reject("dims", "a scalar with a dimension", root(hv("a", i32.copy(), "x")))
	reject("dims", "lists of different lengths in a dimension", root(hv("a", hList(hRep(i32, 3), hRep(i32, 2)), "x", "y")))
	reject("dims", "a longer list in a dimension", root(hv("a", hList(hRep(i32, 1), hRep(i32, 2)), "x", "y")))
	reject("dims", "lists of different lengths in a dimension of a group", root().in(hg("g", hv("a", hList(hRep(i32, 3), hRep(i32, 2)), "x", "y"))))
	reject("dims", "a variable with the name of another dimension", root(hv("x", i32.copy()), hv("a", hRep(i32, 3), "=x")))
	reject("dims", "a variable with the name of its second dimension", root(hv("x", hRep(hRep(i32, 2), 3), "y", "=x")))
	reject("dims", "a variable with the name of its first dimension", root(hv("x", hRep(hRep(i32, 2), 3), "=x", "y")))
	reject("dims", "a variable with the name of the dimension of one before it", root(hv("a", hRep(i32, 3), "=x"), hv("x", hRep(i32, 3), "y")))
	reject("value", "sequences of lists", root(hv("a", hList(hRep(hRep(i32, 2), 1), hRep(hRep(i32, 2), 2)), "x")))
	reject("value", "sequences of sequences in compounds", root(hv("a", hRep(hRep(hComp(hRep(i32, 2)), 2), 2), "x")))
	reject("value", "sequences of lists in attributes", root(hv("a", i32.copy()).with(ha("w", hList(hRep(hRep(i32, 2), 1), hRep(hRep(i32, 2), 2))))))
	reject("message", "a group with the name of a variable", root(hv("x", i32.copy())).in(hGroup{name: "s!vx"}))
	reject("message", "a group with the name of a dimension", root(hv("a", hRep(i32, 3), "x")).in(hGroup{name: "s!dx"}))
	reject("message", "a group with the name of a variable in a group", root().in(hg("g", hv("x", i32.copy())).in(hGroup{name: "s!vx"})))
	reject("fit", "an attribute that is too long", root(hv("x", i32.copy()).with(ha("s", hStr(66000)))))
	reject("fit", "an attribute of a group that is too long", root().in(hg("g").with(ha("s", hStr(66000)))))
	return out
}
