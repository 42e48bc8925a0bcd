package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A09: the bounds of slices.

func init() { rules["A09"] = ruleA09 }

// an ordering gives the numbers a rank; two numbers with the same rank are equal.
type ordering map[string]int

func (o ordering) cmp(x, y string) (int, bool) {
	a, ok1 := o[x]
	b, ok2 := o[y]
	if !ok1 || !ok2 {
		return 0, false
	}
	switch {
	case a < b:
		return -1, true
	case a > b:
		return 1, true
	}
	return 0, true
}

// weakOrders lists the weak orderings of the named numbers (each a rank from 0, without gaps).
func weakOrders(names []string) []ordering {
	var out []ordering
	n := len(names)
	rank := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			used := map[int]bool{}
			max := 0
			for _, r := range rank {
				used[r] = true
				if r > max {
					max = r
				}
			}
			if len(used) != max+1 {
				return
			}
			o := ordering{}
			for j, s := range names {
				o[s] = rank[j]
			}
			out = append(out, o)
			return
		}
		for r := 0; r < n; r++ {
			rank[i] = r
			rec(i + 1)
		}
	}
	rec(0)
	return out
}

// boundOrders lists the orderings of zero, begin, end and the length. The length is not negative; when it
// is a small constant nothing lies strictly between it and zero.
func boundOrders(known int64) []ordering {
	var out []ordering
	for _, o := range weakOrders([]string{"zero", "begin", "end", "len"}) {
		if o["len"] < o["zero"] || known == 0 && o["len"] != o["zero"] || known > 0 && o["len"] == o["zero"] {
			continue
		}
		if known >= 1 && known <= 2 {
			between := map[int]bool{}
			for _, x := range []string{"begin", "end"} {
				if o[x] > o["zero"] && o[x] < o["len"] {
					between[o[x]] = true
				}
			}
			if int64(len(between)) >= known {
				continue
			}
		}
		out = append(out, o)
	}
	return out
}

func (o ordering) valid() bool {
	return o["zero"] <= o["begin"] && o["begin"] <= o["end"] && o["end"] <= o["len"]
}

func (o ordering) String() string {
	names := []string{"zero", "begin", "end", "len"}
	sort.SliceStable(names, func(i, j int) bool { return o[names[i]] < o[names[j]] })
	s := names[0]
	for i := 1; i < len(names); i++ {
		if o[names[i]] == o[names[i-1]] {
			s += "="
		} else {
			s += "<"
		}
		s += names[i]
	}
	return s
}

var validOrder = ordering{"zero": 0, "begin": 1, "end": 2, "len": 3}

// boundsCase is a request: for every dimension begin and end are tokens in a given order with zero and the length.
type boundsCase struct {
	what       string
	begin, end []*Val
	keys       map[string]map[string]int // key of a value -> dimension -> rank
	valid      bool
}

func (b *boundsCase) add(dim string, key string, rank int) {
	if b.keys[key] == nil {
		b.keys[key] = map[string]int{}
	}
	b.keys[key][dim] = rank
}

// ord orders two values that belong to the same dimension.
func (b *boundsCase) ord(x, y string) (int, bool) {
	for d, r := range b.keys[x] {
		if s, ok := b.keys[y][d]; ok {
			return ordering{"x": r, "y": s}.cmp("x", "y")
		}
	}
	return 0, false
}

// requests lists the requests for a variable with the given lengths: one dimension takes every order, the others a valid one.
func requests(lens []*Val, first *Val, md bool) []*boundsCase {
	n := len(lens)
	if !md {
		n = 1
	}
	var out []*boundsCase
	mk := func(orders []ordering, what string) *boundsCase {
		c := &boundsCase{what: what, keys: map[string]map[string]int{}, valid: true}
		for d, o := range orders {
			b, e := tok(fmt.Sprintf("begin%d", d)), tok(fmt.Sprintf("end%d", d))
			c.begin, c.end = append(c.begin, b), append(c.end, e)
			dim := itoa(int64(d))
			c.add(dim, vInt(0).Key(), o["zero"])
			c.add(dim, b.Key(), o["begin"])
			c.add(dim, e.Key(), o["end"])
			var l []*Val
			if d < len(lens) {
				l = append(l, lens[d])
			}
			if d == 0 && !md {
				l = append(l, first)
			}
			for _, x := range l {
				c.add(dim, x.Key(), o["len"])
			}
			c.valid = c.valid && o.valid()
		}
		return c
	}
	known := func(d int) int64 {
		v := first
		if md || d < len(lens) {
			v = lens[d]
		}
		if k, ok := v.intVal(); ok {
			return k
		}
		return -1
	}
	if md && n == 0 {
		return []*boundsCase{mk(nil, "no dimension")}
	}
	ok := make([]ordering, n)
	for d := range ok {
		for _, o := range boundOrders(known(d)) {
			if o.valid() && (ok[d] == nil || o["end"]-o["begin"]+o["begin"]-o["zero"] > ok[d]["end"]-ok[d]["begin"]+ok[d]["begin"]-ok[d]["zero"]) {
				ok[d] = o
			}
		}
	}
	for d := 0; d < n; d++ {
		for _, o := range boundOrders(known(d)) {
			os := append([]ordering{}, ok...)
			os[d] = o
			out = append(out, mk(os, fmt.Sprintf("dimension %d of %d: %s", d+1, n, o)))
		}
	}
	return out
}

func ruleA09(p *Prog, r *Report) {
	r.explain("Part one: the slicing methods of every implementation of the getter interface are interpreted on a getter of unknown content with zero to three dimensions, for every weak ordering of zero, begin, end and the length of each dimension in turn (and every wrong number of bounds); comparisons between these are answered by the ordering, all else is unknown. A request that is out of bounds must end in an error on every path, one within bounds must be able to succeed. Part two: the same for the getters that the readers of both formats make, interpreted together with their reading closures, for variables of fixed lengths.")
	base := p.initBase()
	n := 0
	str := types.NewSlice(types.Typ[types.Int64])
	judge := func(what, where string, c *boundsCase, exits []*Exit, a *An) {
		n++
		if a.overBudget() || len(exits) == 0 {
			r.fail("undecided", what+": "+c.what, where, "no verdict")
			return
		}
		good, bad := 0, 0
		for _, e := range exits {
			if e.panic != nil {
				continue
			}
			ei := len(e.results) - 1
			if exitErr(e, ei) == -1 {
				bad++
			} else {
				good++
			}
		}
		if c.valid {
			r.check(good > 0, "accepted", what+": "+c.what, where, "a request within the bounds is rejected on every path")
		} else {
			r.check(good == 0, "rejected", what+": "+c.what, where, "a request outside of the bounds can succeed")
		}
	}
	// part one
	for _, md := range []bool{false, true} {
		name := "GetSlice"
		if md {
			name = "GetSliceMD"
		}
		for _, f := range p.ifaceMethods("netcdf/api", "VarGetter", name) {
			for rank := 0; rank <= 3; rank++ {
				var lens []*Val
				for d := 0; d < rank; d++ {
					lens = append(lens, tok(fmt.Sprintf("length%d", d)))
				}
				pin := func(st *State, t *types.Struct, i int, v *Val) *Val {
					if sl, ok := t.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem().Underlying(), types.Typ[types.Int64]) {
						return knownSlice(st, "K<shape>", t.Field(i).Type(), lens...)
					}
					return nil
				}
				// what the length is called
				var first *Val
				for _, g := range p.ifaceMethods("netcdf/api", "VarGetter", "Len") {
					if types.Identical(g.Params[0].Type(), f.Params[0].Type()) {
						a := newAn(p, base)
						a.PinField = pin
						a.Ord = func(x, y string) (int, bool) { return 0, false }
						for _, e := range a.run(g, "", nil, map[int]*Val{0: tok("recv")}) {
							if e.panic == nil {
								first = e.results[0]
							}
						}
					}
				}
				if first == nil || first.k == KTop {
					r.fail("undecided", shortFn(f), p.pos(f), "the length of the getter is not known")
					continue
				}
				run := func(c *boundsCase) {
					a := newAn(p, base)
					a.PinField = pin
					a.Unroll = 8
					a.Ord = c.ord
					args := map[int]*Val{0: tok("recv")}
					setup := func(st *State) {
						st.nn["recv"] = true
						if md {
							args[1] = knownSlice(st, "K<begin>", str, c.begin...)
							args[2] = knownSlice(st, "K<end>", str, c.end...)
						} else {
							args[1], args[2] = c.begin[0], c.end[0]
						}
					}
					exits := a.run(f, "", setup, args)
					r.cover(a)
					judge(shortFn(f)+fmt.Sprintf(" rank %d", rank), p.pos(f), c, exits, a)
				}
				for _, c := range requests(lens, first, md) {
					run(c)
				}
				if md {
					for i := 0; i <= 4; i++ {
						for j := 0; j <= 4; j++ {
							if i == rank && j == rank {
								continue
							}
							run(wrongCount(lens, i, j))
						}
					}
				}
			}
		}
	}
	n1 := n
	// part two
	for _, g := range p.ifaceMethods("netcdf/api", "Group", "GetVarGetter") {
		p.readerBounds(r, base, g, judge)
	}
	r.minimum("requests", n1, 300)
	r.minimum("requests to the readers", n-n1, 400)
}

// wrongCount is a request with the wrong number of bounds, each of which would be in order.
func wrongCount(lens []*Val, i, j int) *boundsCase {
	m := i
	if j > m {
		m = j
	}
	c := &boundsCase{what: fmt.Sprintf("%d and %d bounds", i, j), keys: map[string]map[string]int{}}
	for d := 0; d < m; d++ {
		b, e := tok(fmt.Sprintf("begin%d", d)), tok(fmt.Sprintf("end%d", d))
		if d < i {
			c.begin = append(c.begin, b)
		}
		if d < j {
			c.end = append(c.end, e)
		}
		dim := itoa(int64(d))
		c.add(dim, vInt(0).Key(), 0)
		c.add(dim, b.Key(), 1)
		c.add(dim, e.Key(), 2)
		if d < len(lens) {
			c.add(dim, lens[d].Key(), 3)
		}
	}
	return c
}

// readerBounds interprets the getter that a reader makes for a variable.
func (p *Prog) readerBounds(r *Report, base Mem, g *ssa.Function, judge func(what, where string, c *boundsCase, exits []*Exit, a *An)) {
	i64 := types.NewSlice(types.Typ[types.Int64])
	reads := p.reachingCalls(func(n string) bool { return n == "encoding/binary.Read" || n == "io.ReadFull" })
	vg := p.typ("netcdf/api", "VarGetter").Underlying().(*types.Interface)
	builds := p.reaching(func(f *ssa.Function) bool {
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if types.Implements(f.Signature.Results().At(i).Type(), vg) {
				return true
			}
		}
		return false
	})
	isCDF := inPkg(g, "netcdf/cdf")
	codes := p.cdfCodes()
	for _, dims := range [][]int64{nil, {9}, {0}, {1}, {9, 7}, {0, 7}, {9, 7, 5}, {-8}, {-8, 7}, {-1, 7, 5}} {
		dims := append([]int64{}, dims...)
		recs := int64(0)
		inFile := append([]int64{}, dims...)
		if len(dims) > 0 && dims[0] < 0 {
			// a record dimension of CDF, which has the length zero in the table
			if !isCDF {
				continue
			}
			recs = -dims[0]
			dims[0], inFile[0] = recs, 0
		}
		for code := int64(1); code <= 11; code++ {
			if !isCDF && code > 1 || isCDF && code != 4 && len(dims) > 1 {
				continue
			}
			a := newAn(p, base)
			a.Unroll = 8
			a.Frees = true
			a.Inline = func(f *ssa.Function) bool {
				return f == g || !reads[f] || builds[f] || f.Parent() != nil && (f.Parent() == g || builds[f.Parent()])
			}
			shape := &cdfShape{c: codes, code: code, dims: inFile, recs: &recs}
			a.PinField = func(st *State, t *types.Struct, i int, v *Val) *Val {
				if isCDF {
					return shape.pin(st, t, i, v)
				}
				if sl, ok := t.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem().Underlying(), types.Typ[types.Uint64]) && v.k != KSlice {
					var e []*Val
					for _, d := range dims {
						e = append(e, vInt(d))
					}
					return knownSlice(st, "K<dims>", t.Field(i).Type(), e...)
				}
				return nil
			}
			what := fmt.Sprintf("%s %v", shortFn(g), dims)
			if isCDF {
				what += fmt.Sprintf(" type %d", code)
			}
			made := 0
			exits := a.run(g, "", nil, nil)
			r.cover(a)
			for _, e := range exits {
				if e.panic != nil || exitErr(e, 1) == -1 {
					continue
				}
				lenF, recv := p.methodOf(e.results[0], "Len")
				shapeF, _ := p.methodOf(e.results[0], "Shape")
				if lenF == nil || shapeF == nil {
					r.fail("undecided", what, p.pos(e.at), "the getter that is returned is not known")
					continue
				}
				var first *Val
				for _, x := range a.sequel(e, lenF, "", recv) {
					if x.panic == nil {
						first = x.results[0]
					}
				}
				var lens []*Val
				ok := false
				for _, x := range a.sequel(e, shapeF, "", recv) {
					if x.panic != nil || x.results[0].k != KSlice && x.results[0].k != KNil {
						continue
					}
					ok = true
					s := x.results[0]
					if s.k == KNil {
						continue
					}
					cnt, known := s.e[1].intVal()
					off, known2 := s.e[0].intVal()
					if !known || !known2 {
						ok = false
						continue
					}
					for i := int64(0); i < cnt; i++ {
						lens = append(lens, a.obj(&State{mem: x.mem}, s.s, nil).get(s.s, s.p+"["+itoa(off+i)+"]"))
					}
				}
				if !ok || first == nil {
					r.fail("undecided", what, p.pos(e.at), "the shape of the getter is not known")
					continue
				}
				for d, l := range lens {
					if k, isK := l.intVal(); !isK || k != dims[d] {
						r.fail("shape", what, p.pos(e.at), "the length of dimension %d is %s, not %d", d+1, l.Key(), dims[d])
						ok = false
					}
				}
				r.check(len(lens) == len(dims), "shape", what, p.pos(e.at), "the shape has %d dimensions, not %d", len(lens), len(dims))
				if len(lens) > 0 {
					r.check(first.Key() == lens[0].Key(), "length", what, p.pos(e.at), "the length is %s, not that of the first dimension, %s", first.Key(), lens[0].Key())
				} else if m, isM := first.intVal(); !isM || m != 1 {
					r.fail("length", what, p.pos(e.at), "the length of a scalar is %s", first.Key())
				}
				if !ok || len(lens) != len(dims) {
					continue
				}
				made++
				ask := func(f *ssa.Function, md bool, c *boundsCase) {
					a.Ord = c.ord
					a.memo = map[string][]*Exit{}
					st := newState()
					st.mem = e.mem.clone()
					for k := range e.nn {
						st.nn[k] = true
					}
					args := []*Val{recv, nil, nil}
					if md {
						args[1] = knownSlice(st, "K<begin>", i64, c.begin...)
						args[2] = knownSlice(st, "K<end>", i64, c.end...)
					} else {
						args[1], args[2] = c.begin[0], c.end[0]
					}
					xs := a.call(st, f, args, nil, nil, 0, false)
					a.Ord = nil
					name := strings.TrimPrefix(f.Name(), "netcdf.")
					judge(what+" "+name, p.pos(g), c, xs, a)
				}
				one, _ := p.methodOf(e.results[0], "GetSlice")
				many, _ := p.methodOf(e.results[0], "GetSliceMD")
				if one == nil || many == nil {
					r.fail("undecided", what, p.pos(e.at), "the getter has no slicing methods")
					continue
				}
				for _, c := range requests(lens, first, false) {
					ask(one, false, c)
				}
				for _, c := range requests(lens, first, true) {
					ask(many, true, c)
				}
				for i := 0; i <= 3; i++ {
					for j := 0; j <= 3; j++ {
						if i != len(dims) || j != len(dims) {
							ask(many, true, wrongCount(lens, i, j))
						}
					}
				}
			}
			r.check(made > 0, "reached", what, p.pos(g), "no getter is made")
		}
	}
}
