package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C03, C04, C05 and the writing half of C01: the files that the CDF writer makes.
//
// A writer is opened, given attributes and variables of known types and shapes (but with unknown
// lengths, names and data), and closed, in the abstract. What it writes is compared with the
// grammar of the format.

func init() {
	rules["C03"] = func(p *Prog, r *Report) { p.cdfWrites(r, "grammar") }
	rules["C04"] = func(p *Prog, r *Report) { p.cdfWrites(r, "version") }
	rules["C05"] = func(p *Prog, r *Report) { p.cdfWrites(r, "place", "data") }
}

type cdfAttrSpec struct {
	key string
	t   cdfType
	n   *Val // nil: a scalar
}

type cdfVarSpec struct {
	name  string
	t     cdfType
	shape []*Val   // lengths of the dimensions; of characters, the last one is the length of strings
	dims  []string // names given to dimensions
	attrs []cdfAttrSpec
}

type cdfFileSpec struct {
	desc   string
	rest   int64 // of the lengths of names modulo 4
	global []cdfAttrSpec
	set    bool // global attributes are given
	vars   []cdfVarSpec
	reject bool // the last variable has to be rejected
}

func cdfNamed(name string) cdfType {
	for _, t := range cdfTypes {
		if t.name == name {
			return t
		}
	}
	panic("no type " + name)
}

func (t cdfType) v5() bool { return t.code >= 7 }

// needs5 is the specification: types over 6 exist only in version 5.
func (f *cdfFileSpec) needs5() bool {
	as := append([]cdfAttrSpec(nil), f.global...)
	for _, v := range f.vars {
		if v.t.v5() {
			return true
		}
		as = append(as, v.attrs...)
	}
	for _, a := range as {
		if a.t.v5() {
			return true
		}
	}
	return false
}

// unknownLen is any length that leaves a rest modulo 4.
func unknownLen(rest int64, name string) *Val { return polyVal(rest, 4, "N:"+name) }

// cdfFiles lists the scenarios.
func cdfFiles() []*cdfFileSpec {
	var out []*cdfFileSpec
	n := 0
	add := func(f cdfFileSpec) {
		if f.rest == 0 {
			f.rest = int64(1 + n%4)
		}
		n++
		out = append(out, &f)
	}
	for rest := int64(1); rest <= 4; rest++ {
		add(cdfFileSpec{desc: "nothing", rest: rest})
	}
	add(cdfFileSpec{desc: "an empty attribute list", set: true})
	i8, ch := cdfNamed("byte"), cdfNamed("char")
	for _, t := range cdfTypes {
		scalar := cdfAttrSpec{"s!ka", t, nil}
		for rest := int64(1); rest <= 4; rest++ {
			l := unknownLen(rest, "al")
			as := []cdfAttrSpec{scalar}
			if t.code != ch.code {
				as = []cdfAttrSpec{{"s!ka", t, l}}
			} else {
				as[0].n = l
			}
			add(cdfFileSpec{desc: fmt.Sprintf("a global %s attribute of length 4k+%d", t.name, rest), set: true, global: as})
			d := unknownLen(rest, "vl")
			if t.code == ch.code {
				d = polyVal(rest+1, 4, "N:vl") // a single character is a scalar
			}
			add(cdfFileSpec{desc: fmt.Sprintf("a %s variable of length 4k+%d", t.name, rest), vars: []cdfVarSpec{{name: "s!va", t: t, shape: []*Val{d}, dims: []string{"s!da"}}}})
			add(cdfFileSpec{desc: fmt.Sprintf("a %s variable with 2 rows of length 4k+%d and one after it", t.name, rest), vars: []cdfVarSpec{
				{name: "s!va", t: t, shape: []*Val{vInt(2), d}},
				{name: "s!vb", t: i8, shape: []*Val{unknownLen(3, "wl")}}}})
			add(cdfFileSpec{desc: fmt.Sprintf("a variable with a %s attribute of length 4k+%d", t.name, rest), vars: []cdfVarSpec{
				{name: "s!va", t: i8, shape: []*Val{vInt(1)}, attrs: as}, {name: "s!vb", t: i8}}})
		}
		if t.code != ch.code {
			add(cdfFileSpec{desc: "a global " + t.name + " scalar and string", set: true, global: []cdfAttrSpec{scalar, {"s!kb", ch, unknownLen(2, "al")}}})
			add(cdfFileSpec{desc: "a variable with a " + t.name + " scalar and another attribute", vars: []cdfVarSpec{
				{name: "s!va", t: i8, attrs: []cdfAttrSpec{{"s!kb", cdfNamed("short"), vInt(3)}, scalar}}}})
		}
		add(cdfFileSpec{desc: "a " + t.name + " scalar between others", vars: []cdfVarSpec{
			{name: "s!va", t: i8, shape: []*Val{unknownLen(1, "vl")}},
			{name: "s!vb", t: t},
			{name: "s!vc", t: cdfNamed("double"), shape: []*Val{unknownLen(2, "wl")}}}})
		add(cdfFileSpec{desc: "a " + t.name + " variable of three dimensions", vars: []cdfVarSpec{
			{name: "s!va", t: t, shape: []*Val{vInt(2), vInt(3), vInt(5)}, dims: []string{"s!da", "s!db", "s!dc"}}, {name: "s!vb", t: i8}}})
		add(cdfFileSpec{desc: "a " + t.name + " variable that shares a dimension", vars: []cdfVarSpec{
			{name: "s!va", t: i8, shape: []*Val{vInt(2), unknownLen(3, "vl")}, dims: []string{"s!da", "s!db"}},
			{name: "s!vb", t: t, shape: []*Val{vInt(2), vInt(2)}, dims: []string{"s!da", "s!da"}}}})
		if t.code != ch.code {
			add(cdfFileSpec{desc: "a " + t.name + " variable without records before one of fixed size", vars: []cdfVarSpec{
				{name: "s!va", t: t, shape: []*Val{vInt(0)}, dims: []string{"s!da"}},
				{name: "s!vb", t: i8, shape: []*Val{unknownLen(3, "vl")}}}})
			add(cdfFileSpec{desc: "a " + t.name + " variable of fixed size before two without records", vars: []cdfVarSpec{
				{name: "s!vb", t: t, shape: []*Val{unknownLen(3, "vl")}},
				{name: "s!va", t: i8, shape: []*Val{vInt(0)}, dims: []string{"s!da"}},
				{name: "s!vc", t: t, shape: []*Val{vInt(0)}, dims: []string{"s!da"}}}})
		}
	}
	add(cdfFileSpec{desc: "a variable with one dimension twice", vars: []cdfVarSpec{
		{name: "s!va", t: i8, shape: []*Val{vInt(2), vInt(2)}, dims: []string{"s!da", "s!da"}}, {name: "s!vb", t: i8}}})
	add(cdfFileSpec{desc: "a variable with one dimension with two lengths", reject: true, vars: []cdfVarSpec{
		{name: "s!va", t: i8, shape: []*Val{vInt(2), vInt(3)}, dims: []string{"s!da", "s!da"}}}})
	add(cdfFileSpec{desc: "two variables that give one dimension two lengths", reject: true, vars: []cdfVarSpec{
		{name: "s!va", t: i8, shape: []*Val{vInt(2)}, dims: []string{"s!da"}}, {name: "s!vb", t: i8, shape: []*Val{vInt(5)}, dims: []string{"s!da"}}}})
	add(cdfFileSpec{desc: "a variable shorter than its dimension", reject: true, vars: []cdfVarSpec{
		{name: "s!va", t: i8, shape: []*Val{vInt(2)}, dims: []string{"s!da"}}, {name: "s!vb", t: i8, shape: []*Val{vInt(1)}, dims: []string{"s!da"}}}})
	add(cdfFileSpec{desc: "a string longer than a dimension has", reject: true, vars: []cdfVarSpec{
		{name: "s!va", t: i8, shape: []*Val{vInt(2)}, dims: []string{"s!da"}}, {name: "s!vb", t: ch, shape: []*Val{unknownLen(3, "vl")}, dims: []string{"s!da"}}}})
	// one of several needs version 5, wherever it is
	for k := 0; k < 2; k++ {
		for _, t := range cdfTypes {
			if !t.v5() {
				continue
			}
			vs := []cdfVarSpec{{name: "s!va", t: i8}, {name: "s!vb", t: i8}}
			vs[k].t = t
			add(cdfFileSpec{desc: fmt.Sprintf("two variables, number %d is %s", k+1, t.name), vars: vs})
			vs = []cdfVarSpec{{name: "s!va", t: i8}, {name: "s!vb", t: i8}}
			as := []cdfAttrSpec{{"s!ka", i8, nil}, {"s!kb", i8, vInt(2)}}
			as[k].t = t
			vs[k].attrs = as
			add(cdfFileSpec{desc: fmt.Sprintf("variable and attribute number %d is %s", k+1, t.name), vars: vs})
			add(cdfFileSpec{desc: fmt.Sprintf("global attribute number %d is %s", k+1, t.name), vars: []cdfVarSpec{{name: "s!va", t: i8}}, set: true, global: as})
		}
	}
	return out
}

// cdfWriteCase is one scenario on its way through the writer.
type cdfWriteCase struct {
	p     *Prog
	a     *An
	e     *Emit
	spec  *cdfFileSpec
	maps  map[string][]cdfAttrSpec // by attribute map
	data  map[string][]*emitItem   // what the data of variables is in the file
	at    *ssa.Function
	bad   []cdfProblem
	final bool // the call is to be rejected
	soft  bool // some of the problems are those of the analysis
}

func (w *cdfWriteCase) hook(c *Call) ([]Out, bool) {
	if len(c.args) > 0 && c.args[0].k == KTok {
		if as, ok := w.maps[c.args[0].s]; ok {
			switch c.name {
			case "(api.AttributeMap).Keys":
				s := c.st.clone()
				var ks []*Val
				for _, a := range as {
					ks = append(ks, tok(a.key))
				}
				return []Out{{res: knownSlice(s, "K<"+c.args[0].s+">", stringSlice, ks...), st: s, prop: s.prop}}, true
			case "(api.AttributeMap).Get":
				for i, a := range as {
					if c.args[1].k == KTok && c.args[1].s == a.key {
						s := c.st.clone()
						return []Out{{res: vTuple(w.attrValue(s, c.args[0].s+itoa(int64(i)), a), vTrue), st: s, prop: s.prop}}, true
					}
				}
			}
		}
	}
	// the check of names
	if c.callee != nil && c.a.p.inModule(c.callee) && len(c.args) == 1 && isSym(c.args[0]) {
		if rs := c.callee.Signature.Results(); rs.Len() == 1 && types.Identical(rs.At(0).Type(), types.Typ[types.Bool]) {
			return []Out{{res: vTrue}}, true
		}
	}
	return w.e.hook(c)
}

func (w *cdfWriteCase) attrValue(st *State, id string, a cdfAttrSpec) *Val {
	id = linName(id)
	et := types.Typ[a.t.elem]
	if a.t.elem == types.String {
		v := tok("s!text" + id[2:])
		w.a.Lin.lens[v.s] = w.a.Lin.pin(a.n)
		return vIface(et, v)
	}
	if a.n == nil {
		return vIface(et, tok("d!"+a.t.gone+":"+id))
	}
	t := types.NewSlice(et)
	return vIface(t, w.elems(st, id, t, a.t, a.n))
}

// elems makes a slice of data.
func (w *cdfWriteCase) elems(st *State, id string, t types.Type, ct cdfType, n *Val) *Val {
	n = w.a.Lin.pin(n)
	o := &Obj{typ: t, cells: map[string]*Val{}}
	if k, ok := n.intVal(); ok {
		for i := int64(0); i < k; i++ {
			o.cells["["+itoa(i)+"]"] = tok("d!" + ct.gone + ":" + id + "[" + itoa(i) + "]")
		}
	}
	st.mem["V<"+id+">"] = o
	return vSlice("V<"+id+">", "", vInt(0), n)
}

// value makes the value of a variable, and lists what its data is in the file.
func (w *cdfWriteCase) value(st *State, v *cdfVarSpec) (*Val, []*emitItem) {
	var want []*emitItem
	et := types.Typ[v.t.elem]
	var make1 func(id string, shape []*Val, k int64) (*Val, types.Type)
	make1 = func(id string, shape []*Val, k int64) (*Val, types.Type) {
		if v.t.elem == types.String && len(shape) <= 1 {
			s := tok("s!text" + id)
			n := vInt(1)
			full := n
			if len(shape) == 1 {
				full = shape[0]
				n = full
				if k > 0 { // the others are shorter
					n = w.a.Lin.binop(token.SUB, full, vInt(1), nil)
					if full.isConst() {
						f, _ := full.intVal()
						n = vInt(f - 1)
					}
				}
			}
			w.a.Lin.lens[s.s] = n
			want = append(want, &emitItem{kind: 's', size: 1, val: s, n: n})
			if k > 0 && n != full {
				want = append(want, &emitItem{kind: 'x', bytes: []byte{0}})
			}
			return s, et
		}
		if len(shape) == 0 {
			x := tok("d!" + v.t.gone + ":" + id)
			want = append(want, &emitItem{kind: 'e', size: v.t.size, order: 'B', typ: v.t.gone, val: x})
			return x, et
		}
		if len(shape) == 1 {
			t := types.NewSlice(et)
			if n, ok := shape[0].intVal(); !ok || n > 0 {
				want = append(want, &emitItem{kind: 'r', size: v.t.size, order: 'B', typ: v.t.gone, from: "V<" + id + ">", off: vInt(0), n: shape[0]})
			}
			return w.elems(st, id, t, v.t, shape[0]), t
		}
		n, _ := shape[0].intVal()
		var es []*Val
		var t types.Type
		for i := int64(0); i < n; i++ {
			var e *Val
			e, t = make1(id+"."+itoa(i), shape[1:], i)
			es = append(es, e)
		}
		t = types.NewSlice(t)
		return knownSlice(st, "B<"+id+">", t, es...), t
	}
	shape := append([]*Val(nil), v.shape...)
	for i := range shape {
		shape[i] = w.a.Lin.pin(shape[i])
	}
	x, t := make1(v.name[2:], shape, 0)
	return vIface(t, x), want
}

// cdfWrites interprets the scenarios and reports the problems of some kinds.
func (p *Prog) cdfWrites(r *Report, kinds ...string) {
	r.explain("Each exported function that opens a writer of the CDF package is interpreted abstractly, then AddAttributes, AddVar and Close of the writer it gives, for files of nothing, global attributes, and one to three variables: each external type as scalar, in one to three dimensions, without records, sharing dimensions, before and after others, and as attributes (scalar and list) of the file and of variables. Names, values and lengths stay unknown; of lengths only the rest modulo 4 is given (all four), and sums, products and roundings of lengths are followed exactly as polynomials. The list of what is written is then read with the grammar of the format.")
	base := p.initBase()
	n, fixed := 0, 0
	for _, open := range p.writerOpeners("netcdf/cdf") {
		for _, f := range cdfFiles() {
			construct := "file with " + f.desc
			for _, k := range kinds {
				r.obl(k, construct)
			}
			// for all lengths; when the code cannot be followed with unknown lengths, for some
			var bad []cdfProblem
			for k := int64(0); k <= 2; k++ {
				w := &cdfWriteCase{p: p, a: newAn(p, base), e: newEmit(), spec: f, maps: map[string][]cdfAttrSpec{}}
				w.a.Lin = &Lin{lens: map[string]*Val{}, rest: f.rest, k: k}
				w.a.Unroll, w.a.Recur, w.a.Fresh = 12, 6, true
				if k == 0 {
					w.a.budget = 150000
				}
				w.a.OnCall = w.hook
				w.run(open)
				if k == 0 && len(w.bad) > 0 && w.soft {
					fixed++
					continue
				}
				r.cover(w.a)
				bad = append(bad, w.bad...)
				if k == 0 || len(bad) > 0 {
					break
				}
			}
			n++
			on := map[string]bool{"": true}
			for _, k := range kinds {
				on[k] = true
			}
			for _, b := range bad {
				if on[b.kind] {
					kind := b.kind
					if kind == "" {
						kind = kinds[0]
					}
					r.fail(kind, construct, b.pos, "%s", b.text)
				}
			}
		}
	}
	if fixed > 0 {
		r.explain("%d of %d files were decided for two lengths each instead of for all lengths", fixed, n)
	}
	r.minimum("files", n, 100)
}

// writerOpeners finds the functions of a package that make a writer.
func (p *Prog) writerOpeners(rel string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.apiFuncs() {
		if !inPkg(f, rel) || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() == 2 && namedIs(rs.At(0).Type(), "api.Writer") {
			out = append(out, f)
		}
	}
	return out
}

type cdfProblem struct{ kind, pos, text string }

func (w *cdfWriteCase) problem(kind, format string, args ...interface{}) {
	for _, b := range w.bad {
		if b.kind == kind {
			return
		}
	}
	pos := ""
	if w.at != nil {
		pos = w.p.pos(w.at)
	}
	w.bad = append(w.bad, cdfProblem{kind, pos, fmt.Sprintf(format, args...)})
}

// undecided is a problem of the analysis.
func (w *cdfWriteCase) undecided(format string, args ...interface{}) {
	w.soft = true
	w.problem("", "not decided: "+format, args...)
}

func (w *cdfWriteCase) run(open *ssa.Function) {
	a := w.a
	w.at = open
	states := a.run(open, "w0", nil, nil)
	ei := 1
	// next keeps the ways in which a call can succeed
	next := func(what string) bool {
		var ok []*Exit
		for _, e := range states {
			if e.panic == nil && exitErr(e, ei) != -1 {
				ok = append(ok, e)
			}
		}
		if len(ok) == 0 && !w.final {
			w.undecided("%s does not succeed", what)
		}
		if len(ok) > 8 {
			w.undecided("%s can succeed in %d ways", what, len(ok))
			return false
		}
		states = ok
		return len(ok) > 0
	}
	if !next("opening") {
		return
	}
	writer := states[0].results[0]
	for _, e := range states {
		if e.results[0].Key() != writer.Key() {
			w.undecided("there are different writers")
			return
		}
	}
	method := func(name string, args ...*Val) bool {
		f, recv := w.p.methodOf(writer, name)
		if f == nil {
			w.undecided("the writer has no method %s", name)
			return false
		}
		if name == "Close" {
			w.at = f
		}
		var out []*Exit
		for _, e := range states {
			out = append(out, a.sequel(e, f, e.prop, append([]*Val{recv}, args...)...)...)
		}
		states = out
		ei = errResult(f)
		return next(name)
	}
	attrMap := func(name string, as []cdfAttrSpec) *Val {
		v := tok("m!" + name)
		w.maps[v.s] = as
		for _, e := range states {
			e.nn[v.s] = true
		}
		return v
	}
	if w.spec.set && !method("AddAttributes", attrMap("global", w.spec.global)) {
		return
	}
	w.data = map[string][]*emitItem{}
	var nonNils []string
	for i := range w.spec.vars {
		v := &w.spec.vars[i]
		st := newState()
		x, want := w.value(st, v)
		w.data[v.name] = want
		dims := vNil
		if len(v.dims) > 0 {
			var ds []*Val
			for _, d := range v.dims {
				ds = append(ds, tok(d))
			}
			dims = knownSlice(st, "D<"+v.name+">", stringSlice, ds...)
		}
		for _, e := range states {
			for id, o := range st.mem {
				e.mem[id] = o
			}
		}
		attrs := vNil
		if v.attrs != nil {
			attrs = attrMap(v.name[2:], v.attrs)
			nonNils = append(nonNils, attrs.s)
		}
		last := w.spec.reject && i == len(w.spec.vars)-1
		if last {
			w.final = true
		}
		if !method("AddVar", tok(v.name), w.p.variableArg(x, dims, attrs)) {
			return
		}
		if last {
			w.problem("place", "a variable is accepted whose dimensions do not have the lengths that they already have")
			return
		}
		for _, e := range states {
			for _, n := range nonNils {
				e.nn[n] = true
			}
			e.nn["m!global"] = true
		}
	}
	for _, e := range states {
		if len(w.e.items(e.prop)) > 0 {
			w.problem("version", "something is written before the file is complete, when the version is not known yet")
		}
	}
	if !method("Close") {
		return
	}
	for _, e := range states {
		q := &cdfParse{w: w, its: w.e.items(e.prop), pos: poly{}, bad: w.problem, data: w.data}
		for _, i := range q.its {
			if i.kind == '?' {
				w.soft = true
			}
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(cdfStop); !ok {
						panic(x)
					}
				}
			}()
			q.file()
		}()
	}
	if a.over || w.e.over {
		w.undecided("the budget was exceeded")
	}
}

type cdfStop struct{}

// cdfParse reads a list of items as a CDF file.
type cdfParse struct {
	w    *cdfWriteCase
	its  []*emitItem
	pos  poly
	v    int64
	bad  func(kind, format string, args ...interface{})
	data map[string][]*emitItem
	dims []cdfDimSeen
	body bool // after the header
}

type cdfDimSeen struct {
	name string
	n    *Val
}

func (q *cdfParse) stop(format string, args ...interface{}) {
	kind := "grammar"
	if q.body {
		kind = "data"
	}
	q.bad(kind, "%s", "at offset "+showPoly(q.pos)+": "+fmt.Sprintf(format, args...))
	panic(cdfStop{})
}

func showPoly(p poly) string {
	v := p.val()
	if v.isConst() {
		return v.c.ExactString()
	}
	return strings.NewReplacer("n!*", "", "|", " + ").Replace(v.s)
}

func (q *cdfParse) skip(n int64) {
	i := q.its[0]
	if i.kind == 'x' && int64(len(i.bytes)) > n {
		j := *i
		j.bytes = i.bytes[n:]
		q.its = append([]*emitItem{&j}, q.its[1:]...)
	} else {
		q.its = q.its[1:]
	}
}

func (q *cdfParse) what() string {
	if len(q.its) == 0 {
		return "the end"
	}
	return q.its[0].String()
}

// byte gives the next byte, if it is known.
func (q *cdfParse) byte() (byte, bool) {
	if len(q.its) == 0 || q.its[0].kind != 'x' {
		return 0, false
	}
	b := q.its[0].bytes[0]
	q.skip(1)
	q.pos = q.pos.add(poly{"": 1}, 1)
	return b, true
}

// num reads a number of n bytes.
func (q *cdfParse) num(n int64, what string) *Val {
	if len(q.its) > 0 && q.its[0].kind == 'e' {
		i := q.its[0]
		if i.size != n || n > 1 && i.order != 'B' {
			q.stop("%s is %s, not a big-endian number of %d bytes", what, i, n)
		}
		q.skip(n)
		q.pos = q.pos.add(poly{"": n}, 1)
		return i.val
	}
	x := int64(0)
	for i := int64(0); i < n; i++ {
		b, ok := q.byte()
		if !ok {
			q.stop("%s of %d bytes expected, found %s", what, n, q.what())
		}
		x = x<<8 | int64(b)
	}
	return vInt(x)
}

// number reads a count or size.
func (q *cdfParse) number(what string) *Val {
	if q.v == 5 {
		return q.num(8, what)
	}
	return q.num(4, what)
}

func (q *cdfParse) known(v *Val, what string) int64 {
	n, ok := v.intVal()
	if !ok {
		q.stop("%s is not known: %s", what, v.Key())
	}
	return n
}

func (q *cdfParse) pad(what string) {
	_, c, ok := q.pos.split(4)
	if !ok {
		q.stop("the rest of the offset modulo 4 is not known after %s", what)
	}
	for ; c%4 != 0; c++ {
		b, ok := q.byte()
		if !ok {
			q.stop("no padding after %s: %s", what, q.what())
		}
		if b != 0 {
			q.stop("the padding after %s is not zero", what)
		}
	}
}

// text reads a string that is given as a whole.
func (q *cdfParse) text(what string) *emitItem {
	if len(q.its) == 0 || q.its[0].kind != 's' {
		q.stop("%s expected, found %s", what, q.what())
	}
	i := q.its[0]
	q.skip(0)
	q.pos = q.pos.add(i.length(), 1)
	return i
}

// name reads a string after its length. It may be in several parts, some of them known.
func (q *cdfParse) name(what string) string {
	n := q.number("the length of the name of " + what)
	rest, ok := polyOf(n)
	name := ""
	for ok && (rest.sign() != 0 || rest[""] != 0) {
		if len(q.its) > 0 && q.its[0].kind == 'x' && rest[""] > 0 {
			b, _ := q.byte()
			name += strconv.Quote(string(rune(b)))
			rest = rest.add(poly{"": 1}, -1)
			continue
		}
		i := q.text("the name of " + what)
		name += i.val.s
		rest = rest.add(i.length(), -1)
		if rest.sign() < 0 || rest.sign() == 0 && rest[""] < 0 {
			q.bad("grammar", "the length of the name of %s is given as %s, but %s is written", what, n.Key(), i)
			break
		}
	}
	if !ok {
		name = q.text("the name of " + what).val.s
		q.bad("grammar", "the length of the name of %s is given as %s", what, n.Key())
	}
	q.pad("the name of " + what)
	return name
}

// list reads the tag and count of a list.
func (q *cdfParse) list(tag int64, what string) int64 {
	t := q.known(q.num(4, "the tag of the list of "+what), "the tag of the list of "+what)
	n := q.known(q.number("the number of "+what), "the number of "+what)
	switch {
	case t == 0 && n == 0:
	case n == 0:
		q.bad("grammar", "the empty list of %s has the tag %d", what, t)
	case t != tag:
		q.stop("the tag of the list of %s is %d, not %d", what, t, tag)
	}
	return n
}

func (q *cdfParse) attrs(specs []cdfAttrSpec, id, what string) {
	n := q.list(12, "attributes of "+what)
	if n != int64(len(specs)) {
		q.stop("%d attributes of %s, %d were given", n, what, len(specs))
	}
	seen := map[string]bool{}
	for k := int64(0); k < n; k++ {
		name := q.name("an attribute of " + what)
		var s *cdfAttrSpec
		var x int
		for i := range specs {
			if specs[i].key == name && !seen[name] {
				s, x = &specs[i], i
			}
		}
		if s == nil {
			q.stop("an attribute of %s called %s was not given", what, name)
		}
		seen[name] = true
		q.code(s.t, "an attribute of type "+s.t.gone)
		want := vInt(1)
		if s.n != nil {
			want = q.w.a.Lin.pin(s.n)
		}
		if c := q.number("the number of values of an attribute"); c.Key() != want.Key() {
			q.bad("grammar", "the number of values of an attribute of %s is given as %s, not %s", what, c.Key(), want.Key())
		}
		vid := linName(id + itoa(int64(x)))
		item := &emitItem{kind: 'r', size: s.t.size, order: 'B', typ: s.t.gone, from: "V<" + vid + ">", off: vInt(0), n: want}
		switch {
		case s.t.elem == types.String:
			item = &emitItem{kind: 's', size: 1, val: tok("s!text" + vid[2:]), n: want}
		case s.n == nil:
			item = &emitItem{kind: 'e', size: s.t.size, order: 'B', typ: s.t.gone, val: tok("d!" + s.t.gone + ":" + vid)}
		}
		q.match(item, s.t, "the values of an attribute of type "+s.t.gone)
		q.pad("the values of an attribute of type " + s.t.gone)
	}
}

func (q *cdfParse) code(t cdfType, what string) {
	c := q.known(q.num(4, "the type of "+what), "the type of "+what)
	if c != t.code {
		q.bad("code", "%s gets type code %d, the specification has %d", what, c, t.code)
	}
}

// match reads data and compares it with what it should be.
func (q *cdfParse) match(want *emitItem, t cdfType, what string) {
	if len(q.its) == 0 {
		q.stop("%s expected, found the end", what)
	}
	i := q.its[0]
	if want.kind == 'x' {
		for _, b := range want.bytes {
			if c, ok := q.byte(); !ok || c != b {
				q.stop("padding of %s expected, found %s", what, q.what())
			}
		}
		return
	}
	if i.length() == nil {
		q.stop("%s expected, found %s", what, i)
	}
	if n, ok := polyOf(want.n0()); i.kind == 'e' && want.kind != 'e' && ok && n.sign() == 0 && (want.kind == 'r' || n[""] > 1) {
		// one by one
		for k := int64(0); k < n[""]; k++ {
			x := &emitItem{kind: 'e', size: want.size, order: 'B', typ: want.typ}
			if want.kind == 's' {
				x.val = tok("d!uint8:" + want.val.s[2:] + "[" + itoa(k) + "]")
			} else {
				x.val = tok("d!" + want.typ + ":" + want.from[2:len(want.from)-1] + "[" + itoa(k) + "]")
			}
			q.match(x, t, what)
		}
		return
	}
	q.skip(0)
	q.pos = q.pos.add(i.length(), 1)
	if i.kind == 'e' && want.kind == 's' {
		// a single character
		if n, _ := want.n.intVal(); n == 1 && i.size == 1 && i.val.s == "d!uint8:"+want.val.s[2:]+"[0]" {
			return
		}
	}
	if i.kind != want.kind || i.size != want.size {
		q.bad("code", "%s are written as %s", what, i)
		q.bad("data", "%s are written as %s", what, i)
		if !q.body {
			q.bad("grammar", "%s are written as %s, where %s is expected", what, i, want)
		}
		panic(cdfStop{})
	}
	if i.size > 1 && i.order != 'B' {
		if !q.body {
			q.bad("grammar", "%s are not big-endian", what)
		}
		q.bad("data", "%s are not big-endian", what)
	}
	same := true
	switch i.kind {
	case 'r':
		same = i.from == want.from && i.n.Key() == want.n.Key() && i.off.Key() == want.off.Key()
	case 's':
		same = i.val.Key() == want.val.Key()
	case 'e':
		a, an := dataTok(i.val)
		b, bn := dataTok(want.val)
		same = an == bn && (a == b || sameBits(a, b)) || an == "bits("+bn+")" && (b == "float32" && a == "uint32" || b == "float64" && a == "uint64")
	}
	if !same {
		q.bad("data", "%s: %s is written where %s belongs", what, i, want)
	}
}

func (q *cdfParse) file() {
	for i, b := range []byte("CDF") {
		if c, ok := q.byte(); !ok || c != b {
			q.stop("byte %d of the file is not that of CDF", i)
		}
	}
	v, ok := q.byte()
	if !ok {
		q.bad("version", "the version is not known when it is written")
		q.stop("the version is not known")
	}
	want := int64(2)
	if q.w.spec.needs5() {
		want = 5
	}
	if int64(v) != want {
		q.bad("version", "the file is of version %d, it should be %d", v, want)
	}
	q.v = int64(v)
	if v != 1 && v != 2 && v != 5 {
		q.stop("there is no version %d", v)
	}
	if n := q.known(q.number("the number of records"), "the number of records"); n != 0 {
		q.bad("grammar", "%d records, there are none", n)
	}
	nd := q.list(10, "dimensions")
	names := map[string]bool{}
	for i := int64(0); i < nd; i++ {
		name := q.name("a dimension")
		if names[name] {
			q.bad("grammar", "two dimensions are called %s", name)
		}
		names[name] = true
		q.dims = append(q.dims, cdfDimSeen{name, q.number("the length of a dimension")})
	}
	q.attrs(q.w.spec.global, "m!global", "the file")
	nv := q.list(11, "variables")
	if nv != int64(len(q.w.spec.vars)) {
		q.stop("%d variables, %d were given", nv, len(q.w.spec.vars))
	}
	type seenVar struct {
		v     *cdfVarSpec
		begin *Val
	}
	var vars []seenVar
	done := map[string]bool{}
	for i := int64(0); i < nv; i++ {
		name := q.name("a variable")
		var v *cdfVarSpec
		for k := range q.w.spec.vars {
			if x := &q.w.spec.vars[k]; x.name == name && !done[name] {
				v = x
			}
		}
		if v == nil {
			q.stop("a variable called %s was not given", name)
		}
		done[name] = true
		what := "a variable of type " + v.t.gone
		shape := append([]*Val(nil), v.shape...)
		for i := range shape {
			shape[i] = q.w.a.Lin.pin(shape[i])
		}
		if n := q.known(q.number("the number of dimensions of "+what), "the number of dimensions"); n != int64(len(shape)) {
			q.stop("%s gets %d dimensions, it has %d", what, n, len(shape))
		}
		size := poly{"": v.t.size}
		for k, l := range shape {
			id := q.known(q.number("a dimension of "+what), "the number of a dimension")
			if id < 0 || id >= int64(len(q.dims)) {
				q.stop("dimension %d of %s is number %d of the %d that there are", k, what, id, len(q.dims))
			}
			d := q.dims[id]
			if d.n.Key() != l.Key() {
				q.bad("place", "dimension %d of %s gets the length %s, it is %s", k, what, d.n.Key(), l.Key())
			}
			if k < len(v.dims) && d.name != v.dims[k] {
				q.bad("place", "dimension %d of %s gets the name %s, it is %s", k, what, d.name, v.dims[k])
			}
			lp, _ := polyOf(l)
			if n, ok := l.intVal(); k == 0 && ok && n == 0 {
				continue // records
			}
			size = size.mul(lp)
		}
		q.attrs(v.attrs, "m!"+v.name[2:], "a variable")
		q.code(v.t, what)
		vs := q.number("the size of " + what)
		if rest, c, ok := size.split(4); ok {
			rest[""] = (c + 3) &^ 3
			if vs.Key() != rest.val().Key() {
				q.bad("place", "the size of %s is given as %s, it is %s", what, showVal(vs), showPoly(rest))
			}
		} else {
			q.bad("place", "the size of %s cannot be computed", what)
		}
		n := int64(8)
		if q.v == 1 {
			n = 4
		}
		vars = append(vars, seenVar{v, q.num(n, "the offset of "+what)})
	}
	// the data, in any order of the variables
	q.body = true
	isRec := func(v *cdfVarSpec) bool {
		if len(v.shape) == 0 {
			return false
		}
		n, ok := v.shape[0].intVal()
		return ok && n == 0
	}
	var order []seenVar
	for _, v := range vars {
		if !isRec(v.v) {
			order = append(order, v)
		}
	}
	first := func(i *emitItem) string {
		k := i.from + i.valKey()
		if j := strings.IndexAny(k, "["); j >= 0 {
			k = k[:j]
		}
		return strings.TrimSuffix(strings.TrimPrefix(k, "V<"), ">")
	}
	for len(order) > 0 {
		if len(q.its) == 0 {
			q.stop("the data of a variable is missing")
		}
		k := 0
		for i, v := range order {
			if d := q.data[v.v.name]; len(d) > 0 && first(d[0]) == first(q.its[0]) {
				k = i
			}
		}
		v := order[k]
		order = append(order[:k:k], order[k+1:]...)
		what := "the values of a variable of type " + v.v.t.gone
		if v.begin.Key() != q.pos.val().Key() {
			q.bad("place", "%s begin at offset %s, the header says %s", what, showPoly(q.pos), showVal(v.begin))
		}
		for _, want := range q.data[v.v.name] {
			q.match(want, v.v.t, what)
		}
		q.pad(what)
	}
	for _, v := range vars {
		if isRec(v.v) && v.begin.Key() != q.recordBegin(v.v).val().Key() {
			q.bad("place", "the records of a variable of type %s begin at offset %s, the header says %s", v.v.t.gone, showPoly(q.recordBegin(v.v)), showVal(v.begin))
		}
	}
	if len(q.its) > 0 {
		q.stop("something follows the data: %s", q.its[0])
	}
}

// recordBegin is where the records of a variable begin: after those of the ones before it, in the
// order of the header, which follow the data of fixed size.
func (q *cdfParse) recordBegin(v *cdfVarSpec) poly {
	p := q.pos
	for i := range q.w.spec.vars {
		x := &q.w.spec.vars[i]
		if x == v {
			break
		}
		if len(x.shape) > 0 {
			if n, ok := x.shape[0].intVal(); ok && n == 0 {
				s := x.t.size
				for _, l := range x.shape[1:] {
					m, _ := l.intVal()
					s *= m
				}
				p = p.add(poly{"": (s + 3) &^ 3}, 1)
			}
		}
	}
	return p
}

func (i *emitItem) n0() *Val {
	if i.n == nil {
		return top
	}
	return i.n
}

func showVal(v *Val) string {
	if p, ok := polyOf(v); ok {
		return showPoly(p)
	}
	return v.Key()
}

func (i *emitItem) valKey() string {
	if i.val == nil {
		return ""
	}
	if _, n := dataTok(i.val); n != "" && i.kind == 'e' {
		n = strings.TrimSuffix(strings.TrimPrefix(n, "bits("), ")")
		return strings.TrimSuffix(n, "[0]")
	}
	return strings.TrimPrefix(i.val.s, "s!")
}
