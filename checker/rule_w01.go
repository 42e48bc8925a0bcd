package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// W01 to W06: the files that the HDF5 writer makes.
//
// A writer is opened, given attributes, variables and groups of known types and shapes (with
// unknown data), and closed, in the abstract. What it writes is read with the HDF5 specification,
// starting at the superblock, and compared with what was given.

// hNode is a value given to the writer.
type hNode struct {
	kind  byte // 'n' number, 's' string, 'l' list, 'c' compound, 'o' opaque, 'e' enumeration
	basic types.BasicKind
	elems []*hNode
	elem  *hNode   // what an element is like, of a list
	names []string // of fields, of members of an enumeration
	fixed bool     // l: an array, not a slice
	n     int64    // length of a string (-1: not known) or of an opaque value
	id    string
	same  string // strings with the same name are the same
}

func hNum(b types.BasicKind) *hNode { return &hNode{kind: 'n', basic: b} }
func hStr(n int64) *hNode           { return &hNode{kind: 's', n: n} }
func hOpaque(n int64) *hNode        { return &hNode{kind: 'o', n: n} }
func hList(es ...*hNode) *hNode     { return &hNode{kind: 'l', elems: es, elem: es[0]} }
func hRep(e *hNode, n int) *hNode {
	l := &hNode{kind: 'l', elem: e}
	for i := 0; i < n; i++ {
		l.elems = append(l.elems, e.copy())
	}
	return l
}
func hComp(fs ...*hNode) *hNode {
	c := &hNode{kind: 'c', elems: fs}
	for i := range fs {
		c.names = append(c.names, "s!f"+string(rune('a'+i)))
	}
	return c
}
func hEnum(v *hNode, members int) *hNode {
	e := &hNode{kind: 'e', elem: v}
	for i := 0; i < members; i++ {
		e.names = append(e.names, "s!m"+string(rune('a'+i)))
	}
	return e
}

func (n *hNode) copy() *hNode {
	m := *n
	m.elems = nil
	for _, e := range n.elems {
		m.elems = append(m.elems, e.copy())
	}
	if n.elem != nil {
		m.elem = n.elem.copy()
	}
	return &m
}

// base is the type of number of an enumeration.
func (n *hNode) base() *hNode {
	for n.kind == 'l' || n.kind == 'e' {
		n = n.elem
	}
	return n
}

type hAttr struct {
	key string // "=" and a given name, or one that is unknown
	val *hNode
}

func (a *hAttr) name() *Val {
	if a.key[0] == '=' {
		return vStr(a.key[1:])
	}
	return tok(a.key)
}

type hVar struct {
	name  string
	val   *hNode
	dims  []string
	attrs []hAttr
}

type hGroup struct {
	name   string
	attrs  []hAttr
	set    bool
	vars   []hVar
	groups []hGroup
}

type hFile struct {
	desc   string
	rest   int64 // of the lengths of names modulo 8
	long   bool  // these lengths are not known
	root   hGroup
	reject string // this has to be rejected, by a property
}

type hdfWriteCase struct {
	p     *Prog
	a     *An
	e     *Emit
	spec  *hFile
	maps  map[string][]hAttr
	hash  map[string][]*emitItem // what checksums are of
	at    *ssa.Function
	bad   []cdfProblem
	final bool
	soft  bool
	named map[string]*types.Named // the types for values that Go does not have
}

// given tells if a name is that of an attribute.
func (w *hdfWriteCase) given(v *Val) bool {
	for _, as := range w.maps {
		for i := range as {
			if as[i].name().Key() == v.Key() {
				return true
			}
		}
	}
	return false
}

func (w *hdfWriteCase) hook(c *Call) ([]Out, bool) {
	if len(c.args) > 0 && c.args[0].k == KTok {
		if as, ok := w.maps[c.args[0].s]; ok {
			switch c.name {
			case "(api.AttributeMap).Keys":
				s := c.st.clone()
				var ks []*Val
				for _, a := range as {
					ks = append(ks, a.name())
				}
				return []Out{{res: knownSlice(s, "K<"+c.args[0].s+">", stringSlice, ks...), st: s, prop: s.prop}}, true
			case "(api.AttributeMap).Get":
				for _, a := range as {
					if c.args[1].Key() == a.name().Key() {
						s := c.st.clone()
						x, t := w.value(s, a.val, linName(c.args[0].s[2:]+"/"+strings.TrimPrefix(strings.TrimPrefix(a.key, "="), "s!")))
						return []Out{{res: vTuple(vIface(t, x), vTrue), st: s, prop: s.prop}}, true
					}
				}
			}
		}
	}
	if c.callee != nil && c.a.p.inModule(c.callee) {
		// the check of names
		rs, ps := c.callee.Signature.Results(), c.callee.Signature.Params()
		if len(c.args) == 1 && (isSym(c.args[0]) || w.given(c.args[0])) && rs.Len() == 1 && types.Identical(rs.At(0).Type(), types.Typ[types.Bool]) {
			return []Out{{res: vTrue}}, true
		}
		// checksums
		if ps.Len() == 1 && rs.Len() == 1 && isSliceOf(ps.At(0).Type(), types.Typ[types.Uint8]) && types.Identical(rs.At(0).Type(), types.Typ[types.Uint32]) {
			b := c.args[len(c.args)-1]
			its := unknownItem("what is hashed is not known")
			if b.k == KSlice {
				its = mergeBytes(w.e.elements(c.a, c.st, b, types.Typ[types.Uint8], 0))
			}
			k := "c!" + c.callee.Name()
			for _, i := range its {
				k += itoa(int64(w.e.intern(i))) + "."
			}
			w.hash[k] = its
			return []Out{{res: tok(k)}}, true
		}
	}
	if outs, ok := w.e.ordered(c); ok {
		return outs, true
	}
	return w.e.hook(c)
}

// hdfLong is the length up to which the bytes of opaque values are distinguished.
const hdfLong = 300

// value makes a value in memory.
func (w *hdfWriteCase) value(st *State, n *hNode, id string) (*Val, types.Type) {
	n.id = id
	if n.same != "" {
		n.id = n.same
		id = n.same
	}
	switch n.kind {
	case 'n':
		t := types.Typ[n.basic]
		return tok("d!" + t.Name() + ":" + id), t
	case 's':
		v := tok("s!text" + id)
		if n.n >= 0 {
			w.a.Lin.lens[v.s] = vInt(n.n)
		}
		return v, types.Typ[types.String]
	case 'o':
		t := w.named["opaque"]
		if n.n > hdfLong {
			st.mem["V<"+id+">"] = &Obj{typ: t, cells: map[string]*Val{}}
			return vSlice("V<"+id+">", "", vInt(0), vInt(n.n)), t
		}
		var es []*Val
		for i := int64(0); i < n.n; i++ {
			es = append(es, tok("d!uint8:"+id+"["+itoa(i)+"]"))
		}
		return knownSlice(st, "O<"+id+">", t, es...), t
	case 'e':
		t := w.named["enumerated"]
		x, xt := w.value(st, n.elem, id)
		var ns, vs []*Val
		for i, m := range n.names {
			ns = append(ns, tok(m))
			b := types.Typ[n.base().basic]
			vs = append(vs, vIface(b, tok("d!"+b.Name()+":"+id+".m"+itoa(int64(i)))))
		}
		any := types.NewInterfaceType(nil, nil)
		s := &Val{k: KStruct, t: t, e: []*Val{vIface(xt, x),
			knownSlice(st, "E<"+id+">", stringSlice, ns...),
			knownSlice(st, "F<"+id+">", types.NewSlice(any), vs...)}}
		return s, t
	case 'c':
		t := w.named["compound"]
		et := t.Underlying().(*types.Slice).Elem()
		o := &Obj{zero: true, typ: t, cells: map[string]*Val{}}
		for i, f := range n.elems {
			x, xt := w.value(st, f, id+"."+itoa(int64(i)))
			w.a.storeAt(o, "C<"+id+">", "["+itoa(int64(i))+"]", &Val{k: KStruct, t: et, e: []*Val{tok(n.names[i]), vIface(xt, x)}}, et)
		}
		st.mem["C<"+id+">"] = o
		return vSlice("C<"+id+">", "", vInt(0), vInt(int64(len(n.elems)))), t
	case 'l':
		_, et := w.value(st, n.elem, id+"[*]")
		t := types.NewSlice(et)
		o := &Obj{zero: true, typ: t, cells: map[string]*Val{}}
		for i, e := range n.elems {
			x, _ := w.value(st, e, id+"["+itoa(int64(i))+"]")
			w.a.storeAt(o, "B<"+id+">", "["+itoa(int64(i))+"]", x, et)
		}
		st.mem["B<"+id+">"] = o
		return vSlice("B<"+id+">", "", vInt(0), vInt(int64(len(n.elems)))), t
	}
	return top, nil
}

func (w *hdfWriteCase) problem(kind, format string, args ...interface{}) {
	for _, b := range w.bad {
		if b.kind == kind {
			return
		}
	}
	pos := ""
	if w.at != nil {
		pos = w.p.pos(w.at)
	}
	w.bad = append(w.bad, cdfProblem{kind, pos, fmt.Sprintf(format, args...)})
}

func (w *hdfWriteCase) undecided(format string, args ...interface{}) {
	w.soft = true
	w.problem("", "not decided: "+format, args...)
}

// split notes the conditions that a path takes.
func (w *hdfWriteCase) split(st *State, name string, truth bool) bool {
	if !strings.HasPrefix(name, "q!") {
		return true
	}
	ps := strings.SplitN(name[2:], "!", 2)
	i := &emitItem{kind: 'c', typ: ps[0], why: name}
	if !truth {
		i.typ = "not " + i.typ
	}
	for _, c := range w.e.conds(st.prop) {
		if c.why == name {
			return c.typ == i.typ
		}
	}
	st.prop = w.e.add(st.prop, i)
	return true
}

func (w *hdfWriteCase) run(open *ssa.Function) {
	a := w.a
	w.at = open
	states := a.run(open, "w0", nil, nil)
	ei := 1
	next := func(what string) bool {
		var ok []*Exit
		for _, e := range states {
			if e.panic == nil && exitErr(e, ei) != -1 {
				ok = append(ok, e)
			}
		}
		if len(ok) == 0 && !w.final {
			w.undecided("%s does not succeed", what)
		}
		if len(ok) > 16 {
			w.undecided("%s can succeed in %d ways", what, len(ok))
			return false
		}
		states = ok
		return len(ok) > 0
	}
	if !next("opening") {
		return
	}
	w.final = w.spec.reject != ""
	var nonNils []string
	attrMap := func(name string, as []hAttr) *Val {
		v := tok("m!" + name)
		w.maps[v.s] = as
		nonNils = append(nonNils, v.s)
		return v
	}
	keep := func() {
		for _, e := range states {
			for _, n := range nonNils {
				e.nn[n] = true
			}
		}
	}
	method := func(recvs []*Val, name string, args ...*Val) ([]*Val, bool) {
		keep()
		var out []*Exit
		for i, e := range states {
			f, recv := w.p.methodOf(recvs[i], name)
			if f == nil {
				w.undecided("the writer has no method %s", name)
				return nil, false
			}
			if name == "Close" {
				w.at = f
			}
			ei = errResult(f)
			out = append(out, a.sequel(e, f, e.prop, append([]*Val{recv}, args...)...)...)
		}
		if len(states) > 1 && len(out) != len(states) {
			// the receivers have to be those of the states
			for _, r := range recvs {
				if r.Key() != recvs[0].Key() {
					w.undecided("there are different writers")
					return nil, false
				}
			}
		}
		states = out
		if !next(name) {
			return nil, false
		}
		if len(states) != len(recvs) {
			recvs = append(recvs, recvs...)[:1]
			for len(recvs) < len(states) {
				recvs = append(recvs, recvs[0])
			}
		}
		return recvs, true
	}
	var recvs []*Val
	for _, e := range states {
		recvs = append(recvs, e.results[0])
	}
	var fill func(recvs []*Val, g *hGroup, path string) ([]*Val, bool)
	fill = func(recvs []*Val, g *hGroup, path string) ([]*Val, bool) {
		ok := true
		if g.set {
			if recvs, ok = method(recvs, "AddAttributes", attrMap(path, g.attrs)); !ok {
				return nil, false
			}
		}
		for i := range g.vars {
			v := &g.vars[i]
			st := newState()
			x, t := w.value(st, v.val, linName(path+v.name[2:]))
			dims := vNil
			if len(v.dims) > 0 {
				var ds []*Val
				for _, d := range v.dims {
					if d == "" {
						ds = append(ds, vStr(""))
						continue
					}
					ds = append(ds, tok(d))
				}
				dims = knownSlice(st, "D<"+linName(path+v.name)+">", stringSlice, ds...)
			}
			for _, e := range states {
				for id, o := range st.mem {
					e.mem[id] = o
				}
			}
			attrs := vNil
			if v.attrs != nil {
				attrs = attrMap(path+v.name[2:], v.attrs)
			}
			if recvs, ok = method(recvs, "AddVar", tok(v.name), w.p.variableArg(vIface(t, x), dims, attrs)); !ok {
				return nil, false
			}
		}
		for i := range g.groups {
			sub := &g.groups[i]
			if recvs, ok = method(recvs, "CreateGroup", tok(sub.name)); !ok {
				return nil, false
			}
			var subs []*Val
			for _, e := range states {
				subs = append(subs, e.results[0])
			}
			if subs, ok = fill(subs, sub, path+sub.name[2:]+"."); !ok {
				return nil, false
			}
			for len(recvs) < len(states) {
				recvs = append(recvs, recvs[0])
			}
			recvs = recvs[:len(states)]
		}
		return recvs, true
	}
	recvs, ok := fill(recvs, &w.spec.root, "")
	if !ok {
		return
	}
	if _, ok := method(recvs, "Close"); !ok {
		return
	}
	if w.final {
		w.problem(w.spec.reject, "this is accepted, though it cannot be stored")
		return
	}
	for _, e := range states {
		w.parse(e.prop)
	}
	if a.over || w.e.over {
		w.undecided("the budget was exceeded")
	}
}

// newHdfCase prepares a scenario.
func (p *Prog) newHdfCase(base Mem, f *hFile) *hdfWriteCase {
	k := int64(1)
	if f.long {
		k = 0
	}
	w := &hdfWriteCase{p: p, a: newAn(p, base), e: newEmit(), spec: f, maps: map[string][]hAttr{}, hash: map[string][]*emitItem{}}
	w.a.Lin = &Lin{lens: map[string]*Val{}, rest: f.rest, mod: 8, k: k, Conds: true}
	w.named = map[string]*types.Named{}
	for _, n := range []string{"opaque", "enumerated", "compound"} {
		w.named[n], _ = p.typ("netcdf/hdf5", n).(*types.Named)
	}
	w.a.Unroll, w.a.Recur, w.a.Fresh = 600, 6, true
	w.a.budget = 300000
	w.a.OnCall = w.hook
	w.a.OnStore, w.a.OnMake, w.a.OnLoad = w.e.store, w.e.make, w.e.load
	w.a.OnSplit = w.split
	return w
}

func init() {
	rules["W01"] = func(p *Prog, r *Report) { p.hdfWrites(r, "datatype") }
	rules["W02"] = func(p *Prog, r *Report) { p.hdfWrites(r, "message") }
	rules["W03"] = func(p *Prog, r *Report) { p.hdfWrites(r, "checksum") }
	rules["W04"] = func(p *Prog, r *Report) { p.hdfWrites(r, "fit") }
	rules["W05"] = func(p *Prog, r *Report) { p.hdfWrites(r, "place") }
	rules["W06"] = func(p *Prog, r *Report) { p.hdfWrites(r, "value") }
	rules["W"] = func(p *Prog, r *Report) { p.hdfWrites(r, "*") } // all of them, for development
	rules["W07"] = func(p *Prog, r *Report) { p.hdfWrites(r, "dims") }
}

type hdfResult struct {
	bad     []cdfProblem
	covered map[*ssa.Function]bool
	over    bool
}

// hdfWrites interprets the scenarios and reports the problems of one kind.
func (p *Prog) hdfWrites(r *Report, kind string) {
	r.explain("Each exported function that opens a writer of the HDF5 package is interpreted abstractly, then AddAttributes, AddVar, CreateGroup and Close of the writers it gives, for files of attributes, variables and groups of every storable type (numbers, strings, opaque values, enumerations, compounds, sequences, and lists of them in zero to three dimensions). Values and names stay unknown; lengths of lists are given; the lengths of names and strings are given, or any that leave a given rest modulo 8, and are then followed exactly as polynomials. The bytes that get into the file, with what is patched later, are then read with the specification of the format, beginning with the superblock, and compared with what was given. The files that can be stored are also done for a big-endian machine.")
	type job struct {
		f   *hFile
		big bool
		res []hdfResult
	}
	var jobs []*job
	// each job has its own copy of the scenarios, as their nodes are written to
	for k := range hdfFiles() {
		jobs = append(jobs, &job{f: hdfFiles()[k]})
	}
	for k := range hdfFiles() {
		if g := hdfFiles()[k]; g.reject == "" && !g.long {
			g.desc += " (big-endian machine)"
			jobs = append(jobs, &job{f: g, big: true})
		}
	}
	// several programs, each with its own worker
	const workers = 6
	todo := [2]chan *job{make(chan *job, len(jobs)), make(chan *job, len(jobs))}
	for _, j := range jobs {
		if j.big {
			todo[1] <- j
		} else {
			todo[0] <- j
		}
	}
	close(todo[0])
	close(todo[1])
	var over atomic.Int32 // when some took too long, the others are not tried
	work := func(q *Prog, c chan *job) {
		base := q.initBase()
		opens := q.writerOpeners("netcdf/hdf5")
		for j := range c {
			for _, open := range opens {
				if over.Load() > 1 {
					continue
				}
				w := q.newHdfCase(base, j.f)
				func() {
					defer func() {
						if x := recover(); x != nil {
							w.problem("", "not decided: the analysis failed: %v", x)
						}
					}()
					w.run(open)
				}()
				if w.a.over {
					over.Add(1)
				}
				j.res = append(j.res, hdfResult{w.bad, w.a.covered, w.a.over})
			}
		}
	}
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		q, c, env := p, todo[0], []string(nil)
		if k >= workers/2 {
			c, env = todo[1], []string{"GOARCH=s390x"}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			if k > 0 {
				var err error
				if q, err = load(p.dir, env...); err != nil {
					return
				}
			}
			work(q, c)
		}()
	}
	wg.Wait()
	n, big := 0, 0
	for _, j := range jobs {
		if j.big && len(j.res) == 0 {
			continue
		}
		if j.f.reject != "" && j.f.reject != kind && kind != "*" {
			continue
		}
		construct := "file with " + j.f.desc
		r.obl(kind, construct)
		n++
		if j.big {
			big++
		}
		if len(j.res) == 0 && over.Load() <= 1 {
			r.fail(kind, construct, "?", "not decided: nothing opens a writer")
		}
		for _, x := range j.res {
			for f := range x.covered {
				r.funcs[shortFn(f)] = true
			}
			for _, b := range x.bad {
				if kind == "*" {
					r.fail(b.kind, construct, b.pos, "%s", b.text)
				}
				if b.kind == kind || b.kind == "" {
					r.fail(kind, construct, b.pos, "%s", b.text)
				}
			}
		}
	}
	r.explain("%d files, %d of them for a big-endian machine", n, big)
	r.minimum("files", n-big, 60)
}
