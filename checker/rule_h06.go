package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// H06: the filters of chunks are undone in the right order by the right decoders.

func init() { rules["H06"] = ruleH06 }

type h6Filter struct {
	kind uint16
	cdv  []uint32
}

type h6Chunk struct {
	addr uint64
	size uint32
	mask uint32
}

func le(vs ...any) []byte {
	var b []byte
	for _, v := range vs {
		switch x := v.(type) {
		case int:
			b = append(b, byte(x))
		case uint16:
			b = binary.LittleEndian.AppendUint16(b, x)
		case uint32:
			b = binary.LittleEndian.AppendUint32(b, x)
		case uint64:
			b = binary.LittleEndian.AppendUint64(b, x)
		case []byte:
			b = append(b, x...)
		case string:
			b = append(b, x...)
		default:
			panic("le")
		}
	}
	return b
}

// h6Header gives the messages of a variable of n-byte chunks with filters.
func h6Header(version int, fs []h6Filter, total, chunk int) []byte {
	msg := func(ty int, b []byte) []byte { return le(ty, uint16(len(b)), 0, b) }
	b := msg(1, le(1, 1, 0, 0, 0, 0, 0, 0, uint64(total)))
	b = append(b, msg(3, hdfInt(1, 1, false, false))...)
	b = append(b, msg(8, le(3, 2, 2, uint64(0x1000), uint32(chunk), uint32(1)))...)
	if len(fs) == 0 {
		return b
	}
	f := le(version, len(fs))
	if version == 1 {
		f = le(f, uint16(0), uint32(0))
	}
	for _, x := range fs {
		f = le(f, x.kind)
		if version == 1 {
			f = le(f, uint16(0))
		}
		f = le(f, uint16(0), uint16(len(x.cdv)))
		for _, c := range x.cdv {
			f = le(f, c)
		}
		if version == 1 && len(x.cdv)%2 == 1 {
			f = le(f, uint32(0))
		}
	}
	return append(b, msg(0xb, f)...)
}

// h6Tree gives the B-tree of the chunks.
func h6Tree(cs []h6Chunk, chunk int) []byte {
	b := le("TREE", 1, 0, uint16(len(cs)), ^uint64(0), ^uint64(0))
	for i, c := range cs {
		b = le(b, c.size, c.mask, uint64(i*chunk), uint64(0), c.addr)
	}
	return le(b, uint32(0), uint32(0), uint64(len(cs)*chunk), uint64(0))
}

// read answers reads from the bytes; a path that reads more than there are is given up.
func (q *script) read(c *Call) ([]Out, bool) {
	outs, ok := readModel(c, q)
	var live []Out
	for _, o := range outs {
		if o.st == nil || o.st.prop != "X" {
			live = append(live, o)
		}
	}
	return live, ok
}

type h6 struct {
	p    *Prog
	r    *Report
	base Mem
	disp *ssa.Function
	obj  types.Type // what is described by messages
	data []*ssa.Function
	u8   []int64 // constants for the byte parameters of the dispatch
	kind map[string]int
}

// header interprets the reading of the messages.
func (h *h6) header(b []byte) (*An, []*Exit) {
	f := h.disp
	a := newAn(h.p, h.base)
	a.Unroll, a.Recur, a.Fresh = 16, 6, true
	q := &script{b: b, tail: true}
	a.OnCall = func(c *Call) ([]Out, bool) { return q.read(c) }
	args := map[int]*Val{}
	k := 0
	for i, prm := range f.Params {
		if t := derefType(prm.Type()); t != nil && types.Identical(t, h.obj) && (i > 0 || f.Signature.Recv() == nil) {
			args[i] = vPtr("obj!", "")
		}
		if bt, ok := prm.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
			if k < len(h.u8) {
				args[i] = vInt(h.u8[k])
			}
			k++
		}
	}
	exits := a.run(f, "0", func(st *State) {
		o := &Obj{zero: true, typ: h.obj, cells: map[string]*Val{}}
		s := isStruct(h.obj)
		for i := 0; i < s.NumFields(); i++ {
			if t := derefType(s.Field(i).Type()); t != nil && isStruct(t) != nil {
				id := "objattr!" + itoa(int64(i))
				st.mem[id] = &Obj{zero: true, typ: t, cells: map[string]*Val{}}
				o.cells["."+itoa(int64(i))] = vPtr(id, "")
			}
		}
		st.mem["obj!"] = o
	}, args)
	h.r.cover(a)
	var good []*Exit
	for _, e := range exits {
		if e.panic == nil && e.prop == fmt.Sprint(len(b)) {
			good = append(good, e)
		}
	}
	return a, good
}

// chains follows a reader to where its bytes come from: each chain lists the kinds of readers from
// the source outwards.
type h6Link struct {
	name string
	id   string // object
	t    types.Type
}

func (h *h6) chains(m Mem, v *Val, seen map[string]bool) [][]h6Link {
	var id, path string
	var t types.Type
	switch {
	case v == nil:
		return nil
	case v.k == KIface:
		return h.chains2(m, v.t, v.e[0], seen)
	case v.k == KPtr:
		id, path = v.s, v.p
	case v.k == KTok:
		id = "P<" + v.s + ">"
	default:
		return [][]h6Link{{{name: "?" + v.Key()}}}
	}
	o := m[id]
	if o == nil || seen[id+path] {
		return [][]h6Link{{{name: "?" + v.Key()}}}
	}
	t = o.typ
	if t != nil && path != "" {
		t = typeAt(t, path)
	}
	return h.object(m, id, path, o, t, seen)
}

func (h *h6) chains2(m Mem, t types.Type, v *Val, seen map[string]bool) [][]h6Link {
	switch {
	case v.k == KPtr && m[v.s] != nil && !seen[v.s+v.p]:
		if e := derefType(t); e != nil {
			return h.object(m, v.s, v.p, m[v.s], e, seen)
		}
	}
	return h.chains(m, v, seen)
}

func (h *h6) object(m Mem, id, path string, o *Obj, t types.Type, seen map[string]bool) [][]h6Link {
	s2 := map[string]bool{id + path: true}
	for k := range seen {
		s2[k] = true
	}
	var out [][]h6Link
	if w, ok := o.cells["in:"]; ok { // made by the standard library
		name := w.s
		n := 0
		for i := 0; ; i++ {
			v, ok := o.cells["in"+itoa(int64(i))]
			if !ok {
				break
			}
			n++
			out = append(out, h.chains(m, v, s2)...)
		}
		for i := range out {
			out[i] = append(out[i], h6Link{name: name, id: id})
		}
		return out
	}
	name := typeString(t)
	s := isStruct(t)
	if s == nil {
		return [][]h6Link{{{name: "?" + name}}}
	}
	leaf := true
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if !hasRead(ft) {
			continue
		}
		v := o.get(id, path+"."+itoa(int64(i)))
		if v.k == KNil {
			continue
		}
		if p := derefType(ft); p != nil && v.k == KPtr {
			if po := m[v.s]; po != nil && !s2[v.s+v.p] {
				out = append(out, h.object(m, v.s, v.p, po, p, s2)...)
				leaf = false
				continue
			}
		}
		out = append(out, h.chains(m, v, s2)...)
		leaf = false
	}
	if leaf {
		out = [][]h6Link{nil}
	}
	for i := range out {
		out[i] = append(out[i], h6Link{name, id + "|" + path, t})
	}
	return out
}

func chainString(c []h6Link) string {
	var s []string
	for _, l := range c {
		s = append(s, l.name)
	}
	return strings.Join(s, " > ")
}

// stdReader makes a reader of the standard library that reads from others.
func stdReader(c *Call, name string, ins ...*Val) (*State, *Val) {
	st := c.st.clone()
	t := types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, name, nil), types.NewStruct(nil, nil), nil))
	id := c.a.alloc(st, c.site, t.Elem())
	o := &Obj{zero: true, cells: map[string]*Val{"in:": nonNil(name)}}
	for i, v := range ins {
		o.cells["in"+itoa(int64(i))] = v
	}
	st.mem[id] = o
	res := c.site.Common().Signature().Results().At(0).Type()
	if _, ok := res.Underlying().(*types.Interface); ok {
		return st, vIface(t, vPtr(id, ""))
	}
	return st, vPtr(id, "")
}

// stdReaders models the readers of the standard library that are made from others.
func stdReaders(c *Call) ([]Out, bool) {
	switch c.name {
	case "bufio.NewReader", "bufio.NewReaderSize", "io.NopCloser", "io.LimitReader":
		st, v := stdReader(c, c.name, c.args[0])
		return []Out{{st: st, res: v, prop: st.prop}}, true
	case "compress/zlib.NewReader":
		st, v := stdReader(c, c.name, c.args[0])
		s2 := c.st.clone()
		return []Out{{st: st, res: vTuple(v, vNil), prop: st.prop}, {st: s2, res: vTuple(vNil, nonNil("zliberr")), prop: s2.prop}}, true
	case "io.MultiReader":
		l := c.args[0]
		if l.k != KSlice {
			break
		}
		n, ok := l.e[1].intVal()
		off, ok2 := l.e[0].intVal()
		if !ok || !ok2 || n > 64 {
			break
		}
		var ins []*Val
		o := c.a.obj(c.st, l.s, nil)
		for i := int64(0); i < n; i++ {
			ins = append(ins, o.get(l.s, l.p+"["+itoa(off+i)+"]"))
		}
		st, v := stdReader(c, c.name, ins...)
		return []Out{{st: st, res: v, prop: st.prop}}, true
	case "io.CopyN": // skips
		s2 := c.st.clone()
		return []Out{{res: vTuple(c.args[2], vNil)}, {st: s2, res: vTuple(top, nonNil("short")), prop: s2.prop}}, true
	case "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		return []Out{{}}, true // the chunks are given in order
	}
	return nil, false
}

func (h *h6) find() {
	p := h.p
	for i, prm := range h.disp.Params {
		t := derefType(prm.Type())
		s := isStruct(t)
		if s == nil || i == 0 && h.disp.Signature.Recv() != nil {
			continue
		}
		for j := 0; j < s.NumFields(); j++ {
			if sl, ok := s.Field(j).Type().Underlying().(*types.Slice); ok {
				if e := isStruct(sl.Elem()); e != nil {
					for k := 0; k < e.NumFields(); k++ {
						if isSliceOf(e.Field(k).Type(), types.Typ[types.Uint32]) {
							h.obj = t
						}
					}
				}
			}
		}
	}
	if h.obj == nil {
		return
	}
	reach := p.reachingCalls(func(n string) bool { return n == "compress/zlib.NewReader" })
	cand := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if !reach[f] || !inPkg(f, "netcdf/hdf5") || f.Signature.Results().Len() != 1 || !hasRead(f.Signature.Results().At(0).Type()) {
			continue
		}
		for _, prm := range f.Params {
			if t := derefType(prm.Type()); t != nil && types.Identical(t, h.obj) {
				cand[f] = true
			}
		}
	}
	for _, f := range p.funcs {
		if !cand[f] {
			continue
		}
		inner := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range p.callees(c.Common()) {
						inner = inner || g != f && cand[g]
					}
				}
			}
		}
		if !inner {
			h.data = append(h.data, f)
		}
	}
	for _, u := range [][]int64{{2, 0}, {0, 2}} {
		h.u8 = u
		if _, good := h.header(h6Header(1, nil, 6, 6)); len(good) > 0 {
			return
		}
	}
	h.u8 = nil
}

// segment is where a part of the data comes from.
type h6Segment struct {
	chain []h6Link // the decoders, from the file outwards
	addr  *Val     // in the file
}

// segments interprets the reading of the chunks after the messages have been read.
func (h *h6) segments(what string, hdr, tree []byte, setup func(m Mem)) ([]*Exit, [][]h6Segment) {
	a, good := h.header(hdr)
	var exits []*Exit
	var all [][]h6Segment
	for _, e := range good {
		if setup != nil {
			setup(e.mem)
		}
		for _, f := range h.data {
			q := &script{b: tree}
			a.OnCall = func(c *Call) ([]Out, bool) {
				if o, ok := stdReaders(c); ok {
					return o, ok
				}
				return q.read(c)
			}
			var args []*Val
			for _, prm := range f.Params {
				v := nonNil("arg:" + prm.Name())
				if t := derefType(prm.Type()); t != nil && types.Identical(t, h.obj) {
					v = vPtr("obj!", "")
				}
				args = append(args, v)
			}
			for _, x := range a.sequel(e, f, "0", args...) {
				if x.panic != nil || x.prop != fmt.Sprint(len(tree)) {
					continue
				}
				var segs []h6Segment
				for _, c := range h.chains(x.mem, x.results[0], nil) {
					segs = append(segs, h6Segment{chain: c, addr: h.addr(x.mem, c[0])})
				}
				exits = append(exits, x)
				all = append(all, segs)
			}
		}
	}
	if a.over {
		h.r.fail("undecided", what, h.p.pos(h.disp), "the analysis exceeded its budget")
	}
	return exits, all
}

// addr is the position of the reader of the file.
func (h *h6) addr(m Mem, l h6Link) *Val {
	s := isStruct(l.t)
	id, path, _ := strings.Cut(l.id, "|")
	if s == nil || m[id] == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int64 {
			return m[id].get(id, path+"."+itoa(int64(i)))
		}
	}
	return nil
}

// numbers are the known numbers in the fields of an object.
func (h *h6) numbers(m Mem, l h6Link) map[int64]bool {
	out := map[int64]bool{}
	s := isStruct(l.t)
	id, path, _ := strings.Cut(l.id, "|")
	if s == nil || m[id] == nil {
		return out
	}
	for i := 0; i < s.NumFields(); i++ {
		if n, ok := m[id].get(id, path+"."+itoa(int64(i))).intVal(); ok {
			out[n] = true
		}
	}
	return out
}

// decoders gives the parts of a chain that undo filters.
func (h *h6) decoders(chain []h6Link) ([]int, []h6Link) {
	var ks []int
	var ls []h6Link
	for _, l := range chain {
		if k := h.kind[l.name]; k != 0 {
			ks = append(ks, k)
			ls = append(ls, l)
		}
	}
	return ks, ls
}

// calibrate finds out what the decoders of the filters are.
func (h *h6) calibrate() bool {
	n := 6
	seen := make([]map[string]bool, 4)
	ok := true
	for k := 0; k <= 3; k++ {
		what := fmt.Sprintf("decoder of filter %d", k)
		var fs []h6Filter
		size := n
		switch k {
		case 0:
			what = "chunk without filters"
		case 1:
			fs = []h6Filter{{1, []uint32{3}}}
		case 2:
			fs = []h6Filter{{2, []uint32{2}}}
		case 3:
			fs = []h6Filter{{3, nil}}
			size += 4
		}
		h.r.obl("decoder", what)
		exits, all := h.segments(what, h6Header(1, fs, n, n), h6Tree([]h6Chunk{{0x2000, uint32(size), 0}}, n), nil)
		if len(exits) == 0 {
			h.r.fail("decoder", what, h.p.pos(h.data[0]), "the data of a chunk is not reached")
			return false
		}
		seen[k] = map[string]bool{}
		for i, segs := range all {
			if len(segs) == 0 {
				h.r.fail("decoder", what, h.p.pos(exits[i].at), "the data of the chunk is not read")
				ok = false
			}
			for _, s := range segs {
				if strings.HasPrefix(s.chain[0].name, "?") {
					h.r.fail("decoder", what, h.p.pos(exits[i].at), "where the data comes from is not known: %s", chainString(s.chain))
					ok = false
				}
				for _, l := range s.chain {
					seen[k][l.name] = true
				}
			}
		}
	}
	h.kind = map[string]int{}
	for k := 1; k <= 3; k++ {
		var names []string
		for n := range seen[k] {
			elsewhere := false
			for j := 0; j <= 3; j++ {
				elsewhere = elsewhere || j != k && seen[j][n]
			}
			if !elsewhere {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		if len(names) == 0 {
			h.r.fail("decoder", fmt.Sprintf("decoder of filter %d", k), h.p.pos(h.data[0]), "the filter has no decoder of its own")
			ok = false
			continue
		}
		if k == 1 && names[0] != "compress/zlib.NewReader" {
			h.r.fail("decoder", "decoder of filter 1", h.p.pos(h.data[0]), "deflated data is not read with compress/zlib")
			ok = false
		}
		h.kind[names[0]] = k
	}
	return ok
}

func subsets(n int) [][]int {
	var out [][]int
	var rec func(cur []int)
	rec = func(cur []int) {
		out = append(out, append([]int{}, cur...))
		for k := 1; k <= n; k++ {
			used := false
			for _, c := range cur {
				used = used || c == k
			}
			if !used {
				rec(append(cur, k))
			}
		}
	}
	rec(nil)
	return out
}

// pipeline checks the decoders of chunks for one pipeline.
func (h *h6) pipeline(what string, version int, kinds []int, masks []uint32, slice bool) {
	const chunk, elem = 6, 3
	var fs []h6Filter
	for _, k := range kinds {
		f := h6Filter{kind: uint16(k)}
		switch k {
		case 1:
			f.cdv = []uint32{9}
		case 2:
			f.cdv = []uint32{elem}
		}
		fs = append(fs, f)
	}
	type stage struct {
		kind     int
		in, out_ int64
	}
	var want [][]stage
	var chunks []h6Chunk
	for i, mask := range masks {
		// sizes after each filter when writing
		sizes := []int64{chunk}
		for j, k := range kinds {
			n := sizes[len(sizes)-1]
			if mask>>j&1 == 0 {
				switch k {
				case 1:
					n = 100 + int64(j) // whatever it is compressed to
				case 3:
					n += 4
				}
			}
			sizes = append(sizes, n)
		}
		var st []stage
		for j := len(kinds) - 1; j >= 0; j-- {
			if mask>>j&1 == 0 {
				st = append(st, stage{kinds[j], sizes[j+1], sizes[j]})
			}
		}
		want = append(want, st)
		chunks = append(chunks, h6Chunk{uint64(0x2000 + 0x1000*i), uint32(sizes[len(sizes)-1]), mask})
	}
	var setup func(m Mem)
	if slice {
		setup = func(m Mem) { h.slice(m, 2, 5) }
	}
	r := h.r
	r.obl("pipeline", what)
	exits, all := h.segments(what, h6Header(version, fs, chunk*len(masks), chunk), h6Tree(chunks, chunk), setup)
	r.check(len(exits) > 0, "pipeline", what, h.p.pos(h.data[0]), "the data of the chunks is not reached")
	for i, segs := range all {
		at := h.p.pos(exits[i].at)
		r.check(len(segs) == len(masks), "pipeline", what, at, "the number of parts read is %d, not %d", len(segs), len(masks))
		if len(segs) != len(masks) {
			continue
		}
		for c, s := range segs {
			ks, ls := h.decoders(s.chain)
			var wk []int
			for _, w := range want[c] {
				wk = append(wk, w.kind)
			}
			got := chainString(s.chain)
			r.check(fmt.Sprint(ks) == fmt.Sprint(wk), "pipeline", what, at, "chunk %d: the decoders from the file outwards are those of filters %v, not %v (%s)", c, ks, wk, got)
			if len(ks) != len(wk) {
				continue
			}
			if n, ok := int64(0), false; s.addr != nil && !(slice && len(wk) == 0) {
				n, ok = s.addr.intVal()
				r.check(ok && n == int64(chunks[c].addr), "pipeline", what, at, "chunk %d: the data is not read at the address of the chunk but at %s", c, s.addr.Key())
			}
			for j, l := range ls {
				ns := h.numbers(exits[i].mem, l)
				w := want[c][j]
				switch w.kind {
				case 2:
					r.check(ns[elem], "pipeline", what, at, "chunk %d: the shuffling is not undone with the element size of the pipeline message", c)
					r.check(ns[w.in], "pipeline", what, at, "chunk %d: the shuffling is undone with another size than that of the data (%d)", c, w.in)
				case 3:
					r.check(ns[w.in] || ns[w.out_], "pipeline", what, at, "chunk %d: the checksum is expected at another place than after %d bytes", c, w.out_)
				}
			}
		}
	}
}

// slice asks for a part of the variable.
func (h *h6) slice(m Mem, from, to int64) bool {
	for id, o := range m {
		s := isStruct(o.typ)
		if !strings.HasPrefix(id, "objattr!") && !private(id) || s == nil {
			continue
		}
		set := map[string]*Val{"isSlice": vBool(true), "firstDim": vInt(from), "lastDim": vInt(to)}
		n := 0
		for i := 0; i < s.NumFields(); i++ {
			if set[s.Field(i).Name()] != nil {
				n++
			}
		}
		if n != 3 {
			continue
		}
		o = o.clone()
		for i := 0; i < s.NumFields(); i++ {
			if v := set[s.Field(i).Name()]; v != nil {
				o.cells["."+itoa(int64(i))] = v
			}
		}
		m[id] = o
	}
	return true
}

// decode interprets the Read method of a decoder that was made for a pipeline.
func (h *h6) decode(what string, kind int, fs []h6Filter, chunk, size int, do func(a *An, x *Exit, read *ssa.Function, self *Val)) {
	r := h.r
	r.obl("decode", what)
	exits, all := h.segments(what, h6Header(1, fs, chunk, chunk), h6Tree([]h6Chunk{{0x2000, uint32(size), 0}}, chunk), nil)
	n := 0
	for i, segs := range all {
		for _, s := range segs {
			ks, ls := h.decoders(s.chain)
			for j, k := range ks {
				if k != kind {
					continue
				}
				id, path, _ := strings.Cut(ls[j].id, "|")
				v := vIface(types.NewPointer(ls[j].t), vPtr(id, path))
				f, self := h.p.methodOf(v, "Read")
				if f == nil {
					continue
				}
				a := newAn(h.p, h.base)
				a.Unroll, a.Recur, a.Fresh = 40, 4, true
				n++
				do(a, exits[i], f, self)
				r.cover(a)
				if a.over {
					r.fail("undecided", what, h.p.pos(f), "the analysis exceeded its budget")
				}
			}
		}
	}
	r.check(n > 0, "decode", what, h.p.pos(h.data[0]), "the decoder was not found")
}

// source answers the reading of n bytes from what a decoder reads from; the state is the number of
// bytes read. At most most bytes are given at once.
func h6Source(n, most int, byteAt func(i int) *Val) func(c *Call) ([]Out, bool) {
	return func(c *Call) ([]Out, bool) {
		var buf *Val
		full := false
		sig := c.site.Common().Signature()
		switch {
		case c.name == "io.ReadFull":
			buf, full = c.args[1], true
		case c.name == "io.ReadAtLeast":
			buf, full = c.args[1], true
		case strings.HasSuffix(c.name, ".Read") && c.name != "encoding/binary.Read" && sig.Params().Len() == 1 && sig.Results().Len() == 2 && len(c.args) == 2:
			buf = c.args[1]
		default:
			return nil, false
		}
		got := 0
		fmt.Sscan(c.st.prop, &got)
		st := c.st.clone()
		eof := nonNil("io.EOF")
		if buf.k != KSlice {
			st.prop = "X"
			return []Out{{st: st, res: vTuple(top, top), prop: "X"}}, true
		}
		off, ok1 := buf.e[0].intVal()
		l, ok2 := buf.e[1].intVal()
		if !ok1 || !ok2 {
			return []Out{{st: st, res: vTuple(top, top), prop: "X"}}, true
		}
		k := int(l)
		if !full && k > most {
			k = most
		}
		if got+k > n {
			k = n - got
		}
		if k == 0 && l > 0 {
			return []Out{{st: st, res: vTuple(vInt(0), eof), prop: st.prop}}, true
		}
		for i := 0; i < k; i++ {
			c.a.store(st, vPtr(buf.s, buf.p+"["+itoa(off+int64(i))+"]"), byteAt(got+i), types.Typ[types.Uint8])
		}
		st.prop = fmt.Sprint(got + k)
		return []Out{{st: st, res: vTuple(vInt(int64(k)), vNil), prop: st.prop}}, true
	}
}

// h6Result is what reading with a decoder can come to.
type h6Result struct {
	bytes []*Val
	fails bool // with an error or a panic
}

// drain reads n bytes with the Read method of a decoder.
func (h *h6) drain(a *An, x *Exit, f *ssa.Function, self *Val, n int) []h6Result {
	type item struct {
		e   *Exit
		got int64
	}
	buf := "buf!"
	x.mem[buf] = &Obj{zero: true, cells: map[string]*Val{}, typ: types.NewSlice(types.Typ[types.Uint8])}
	work := []item{{&Exit{mem: x.mem, nn: x.nn, prop: "0"}, 0}}
	var out []h6Result
	for rounds := 0; len(work) > 0 && rounds < 200; rounds++ {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		for _, e := range a.sequel(it.e, f, it.e.prop, self, vSlice(buf, "", vInt(it.got), vInt(int64(n)-it.got))) {
			if e.panic != nil {
				out = append(out, h6Result{fails: true})
				continue
			}
			k, ok := e.results[0].intVal()
			isEOF := e.results[1].k == KNonNil && strings.HasSuffix(e.results[1].s, "io.EOF")
			if !ok || exitErr(e, 1) != 1 && !isEOF {
				out = append(out, h6Result{fails: true})
				continue
			}
			got := it.got + k
			if got < int64(n) && !isEOF {
				if k > 0 {
					work = append(work, item{e, got})
				}
				continue
			}
			res := h6Result{fails: got < int64(n)}
			for i := 0; i < n; i++ {
				res.bytes = append(res.bytes, e.mem[buf].get(buf, "["+itoa(int64(i))+"]"))
			}
			out = append(out, res)
		}
	}
	return out
}

// fletcher32 is the checksum as HDF5 computes it.
func fletcher32(b []byte) uint32 {
	s1, s2 := uint32(0), uint32(0)
	add := func(w uint32) {
		s1 += w
		s1 = s1&0xffff + s1>>16
		s2 += s1
		s2 = s2&0xffff + s2>>16
	}
	for i := 0; i+1 < len(b); i += 2 {
		add(uint32(b[i])<<8 | uint32(b[i+1]))
	}
	if len(b)%2 == 1 {
		add(uint32(b[len(b)-1]) << 8)
	}
	return s2<<16 | s1
}

func (h *h6) unshuffled(elem, count, extra int) {
	n := elem*count + extra
	what := fmt.Sprintf("shuffled bytes: %d elements of size %d", count, elem)
	fs := []h6Filter{{2, []uint32{uint32(elem)}}}
	chunk := n
	if extra > 0 {
		what += fmt.Sprintf(" and %d bytes", extra)
		fs = append([]h6Filter{{3, nil}}, fs...)
		chunk -= 4
	}
	h.decode(what, 2, fs, chunk, n, func(a *An, x *Exit, f *ssa.Function, self *Val) {
		src := h6Source(n, n, func(i int) *Val { return tok("d" + itoa(int64(i)) + "!") })
		a.OnCall = func(c *Call) ([]Out, bool) {
			return src(c)
		}
		ok := false
		for _, res := range h.drain(a, x, f, self, n) {
			if res.fails {
				continue
			}
			ok = true
			for i, v := range res.bytes {
				from := i
				if i < elem*count {
					from = i%elem*count + i/elem
				}
				want := "d" + itoa(int64(from)) + "!"
				if v.k != KTok || v.s != want {
					h.r.fail("decode", what, h.p.pos(f), "byte %d of the result is not byte %d of the shuffled data", i, from)
					break
				}
			}
		}
		h.r.check(ok, "decode", what, h.p.pos(f), "the data is not given back")
	})
}

func (h *h6) summed(data []byte, most int) {
	n := len(data)
	what := fmt.Sprintf("checksum of % x (read %d at a time)", data, most)
	h.decode(what, 3, []h6Filter{{3, nil}}, n, n+4, func(a *An, x *Exit, f *ssa.Function, self *Val) {
		for flip := -1; flip < 4; flip++ {
			sum := fletcher32(data)
			if flip >= 0 {
				sum ^= 1 << uint(8*flip+flip)
			}
			b := binary.LittleEndian.AppendUint32(append([]byte{}, data...), sum)
			src := h6Source(n+4, most, func(i int) *Val { return vInt(int64(b[i])) })
			q := &script{b: b}
			a.OnCall = func(c *Call) ([]Out, bool) {
				if o, ok := src(c); ok {
					return o, ok
				}
				return readModel(c, q)
			}
			a.memo = map[string][]*Exit{}
			good, bad := 0, 0
			for _, res := range h.drain(a, &Exit{mem: x.mem.clone(), nn: x.nn}, f, self, n) {
				if res.fails {
					bad++
					continue
				}
				good++
				for i, v := range res.bytes {
					if k, ok := v.intVal(); flip < 0 && (!ok || k != int64(data[i])) {
						h.r.fail("decode", what, h.p.pos(f), "byte %d is not what was read", i)
					}
				}
			}
			if flip < 0 {
				h.r.check(good > 0 && bad == 0, "decode", what, h.p.pos(f), "data with the right checksum is not accepted")
			} else {
				h.r.check(good == 0, "decode", what, h.p.pos(f), "data with a wrong checksum is accepted (byte %d)", flip)
			}
		}
	})
}

func ruleH06(p *Prog, r *Report) {
	r.explain("For every sequence of different filters out of deflate, shuffle and fletcher32 (16 of them), every filter mask and both versions of the pipeline message, the reading of the messages and then of the B-tree of the chunks is interpreted with these bytes given; the objects that the resulting reader is made of are followed from the file outwards. The decoders must be those of the unmasked filters, in reverse order, with the sizes and parameters that belong to them, at the address of each chunk. The decoders of shuffle and fletcher32 are interpreted with the bytes as symbols. Filters that are not known must end in an error.")
	s := p.pinSetup(r)
	if s.disp == nil {
		return
	}
	h := &h6{p: p, r: r, base: s.base, disp: s.dispFn}
	h.find()
	if len(h.data) == 0 || h.u8 == nil {
		r.fail("anchor", "reading of chunks", "", "the function that reads the chunks of a variable was not found")
		return
	}
	if !h.calibrate() {
		return
	}
	name := func(ks []int) string {
		if len(ks) == 0 {
			return "no filters"
		}
		var out []string
		for _, k := range ks {
			out = append(out, []string{"", "deflate", "shuffle", "fletcher32"}[k])
		}
		return strings.Join(out, ", ")
	}
	n := 0
	for _, ks := range subsets(3) {
		for v := 1; v <= 2; v++ {
			if len(ks) == 0 && v == 2 {
				continue
			}
			for mask := uint32(0); mask < 1<<len(ks); mask++ {
				n++
				h.pipeline(fmt.Sprintf("%s (version %d, mask %d)", name(ks), v, mask), v, ks, []uint32{mask}, false)
			}
		}
		n++
		h.pipeline(name(ks)+" (two chunks)", 1, ks, []uint32{0, 1<<len(ks) - 1}, false)
		h.pipeline(name(ks)+" (part of a chunk)", 1, ks, []uint32{0}, true)
	}
	for _, k := range []uint16{0, 4, 5, 6, 258, 257, 32000, 65535} {
		what := fmt.Sprintf("filter %d", k)
		r.obl("unknown", what)
		_, good := h.header(h6Header(1, []h6Filter{{k, []uint32{1}}}, 6, 6))
		for _, e := range good {
			r.fail("unknown", what, p.pos(e.at), "this filter is accepted although there is no decoder for it")
		}
	}
	for elem := 1; elem <= 4; elem++ {
		for count := 1; count <= 4; count++ {
			h.unshuffled(elem, count, 0)
		}
	}
	h.unshuffled(3, 3, 1)
	h.unshuffled(3, 2, 2)
	h.unshuffled(8, 1, 4)
	for _, data := range [][]byte{{1}, {0xff, 0xff}, {1, 2, 3, 4, 5, 6}, {0xff, 0xff, 0xff, 0xff, 0xff}, {0x80, 0, 0x80, 0, 0xff, 0xfe}, {0, 0, 0, 1, 0xff, 0xff, 7}} {
		h.summed(data, 100)
		h.summed(data, 1)
		h.summed(data, 3)
	}
	r.minimum("pipelines", n, 100)
}
