package main

import (
	"cmp"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C07: values and slices of CDF variables are the bytes at the positions that the format gives them.

func init() {
	rules["C07"] = ruleC07
}

// A dataFile follows where the bytes come from that are read from a file: its position is a polynomial,
// kept in the property state;
// and a byte of it is "e!1@<position>", a number of several bytes in the order of the file
// "e!<size>@<position>". Readers that wrap the file are objects of their own.
type dataFile struct {
	p    *Prog
	big  bool
	made int
	// the file, if its metadata are given; what is not in the image is data
	image []byte
	size  int64
}

var (
	bufReaderT = readerType("buffered", 0)
	concatT    = readerType("one after the other", 0)
	limitedT   = readerType("limited", 0)
	memoryT    = readerType("memory", 0)
)

func (d *dataFile) isFile(v *Val) bool {
	if v.k == KIface && len(v.e) == 1 {
		v = v.e[0]
	}
	return v.k == KNonNil && v.s == "datafile"
}

// object makes a reader.
func (d *dataFile) object(st *State, t types.Type, cells map[string]*Val) *Val {
	d.made++
	id := fmt.Sprintf("A<reader%d>", d.made)
	st.mem[id] = &Obj{zero: true, typ: t, cells: cells}
	return vPtr(id, "")
}

func setCell(st *State, id, path string, v *Val) {
	o := st.mem[id].clone()
	o.cells[path] = v
	st.mem[id] = o
}

// position of the file; nil if it is not known.
func (d *dataFile) position(st *State) poly {
	if p, ok := polyKey(strings.TrimPrefix(st.prop, "at ")); ok {
		return p
	}
	return nil
}

func (d *dataFile) setPosition(st *State, v *Val) {
	st.prop = "at " + v.Key()
}

// byteOf is a byte of the file.
func (d *dataFile) byteOf(p poly) *Val {
	if k, ok := p.val().intVal(); ok && k >= 0 && k < int64(len(d.image)) {
		return vInt(int64(d.image[k]))
	}
	return byteAt(p)
}

func byteAt(p poly) *Val { return tok("e!1@" + p.val().Key()) }

// readerObj gives the kind and the object of a reader that the rule made.
func (d *dataFile) readerObj(v *Val) (types.Type, string) {
	if v.k == KIface && len(v.e) == 1 {
		v = v.e[0]
	}
	if v.k == KPtr && v.p == "" && strings.HasPrefix(v.s, "A<reader") {
		return nil, v.s
	}
	return nil, ""
}

// read gives up to n bytes of a reader; ok is false when it is not known which.
func (d *dataFile) read(c *Call, st *State, r *Val, n int64) (bs []*Val, ok bool, res *State) {
	if n <= 0 {
		return nil, true, st
	}
	if d.isFile(r) {
		pos := d.position(st)
		if pos == nil {
			return nil, false, st
		}
		if k, ok := pos.val().intVal(); ok && d.image != nil {
			n = max(min(n, d.size-k), 0)
		}
		for k := int64(0); k < n; k++ {
			bs = append(bs, d.byteOf(pos.add(poly{"": k}, 1)))
		}
		st = st.clone()
		d.setPosition(st, pos.add(poly{"": n}, 1).val())
		return bs, true, st
	}
	_, id := d.readerObj(r)
	if id != "" && st.mem[id] != nil {
		o := st.mem[id]
		switch o.typ {
		case bufReaderT:
			if d.isFile(o.cells["from"]) {
				pos, known := polyOf(o.cells["pos"])
				if !known {
					if pos = d.position(st); pos == nil {
						return nil, false, st
					}
				}
				st = st.clone()
				for k := int64(0); k < n; k++ {
					bs = append(bs, d.byteOf(pos.add(poly{"": k}, 1)))
				}
				setCell(st, id, "pos", pos.add(poly{"": n}, 1).val())
				d.setPosition(st, top) // it reads ahead
				return bs, true, st
			}
			return d.read(c, st, o.cells["from"], n)
		case limitedT:
			left, known := o.cells["left"].intVal()
			if !known {
				return nil, false, st
			}
			bs, ok, st = d.read(c, st, o.cells["from"], min(n, left))
			if ok {
				st = st.clone()
				setCell(st, id, "left", vInt(left-int64(len(bs))))
			}
			return bs, ok, st
		case memoryT:
			return d.memory(c, st, id, "", n)
		case concatT:
			k, _ := o.cells["at"].intVal()
			m, _ := o.cells["n"].intVal()
			for ; k < m && int64(len(bs)) < n; k++ {
				var more []*Val
				more, ok, st = d.read(c, st, o.cells["["+itoa(k)+"]"], n-int64(len(bs)))
				if !ok {
					return nil, false, st
				}
				bs = append(bs, more...)
				if int64(len(bs)) == n {
					break
				}
			}
			st = st.clone()
			setCell(st, id, "at", vInt(k))
			return bs, true, st
		}
	}
	if b := d.buffer(st, r); b != nil {
		return d.memory(c, st, b.s, b.p+"#", n)
	}
	if t, isL := d.limitedStruct(st, r); isL {
		left, known := st.mem[t].get(t, ".1").intVal()
		if !known {
			return nil, false, st
		}
		bs, ok, st = d.read(c, st, st.mem[t].get(t, ".0"), min(n, left))
		if ok {
			st = st.clone()
			setCell(st, t, ".1", vInt(left-int64(len(bs))))
		}
		return bs, ok, st
	}
	// a reader of the module
	f, recv := d.p.methodOf(r, "Read")
	if f == nil || !d.p.analysable(f) {
		return nil, false, st
	}
	for turn := 0; int64(len(bs)) < n && turn < 64; turn++ {
		d.made++
		id := fmt.Sprintf("A<buffer%d>", d.made)
		st = st.clone()
		var old []*Val
		for range n - int64(len(bs)) {
			old = append(old, tok("unread"))
		}
		b := knownSlice(st, id, types.NewSlice(types.Typ[types.Uint8]), old...)
		cc := *c
		cc.st = st
		var good []Out
		for _, o := range cc.through(f, recv, b) {
			if o.panic != nil {
				continue
			}
			if o.res.k == KTuple && o.res.e[1].nilness() == -1 {
				// an error, but there may be something before it
				if m, known := o.res.e[0].intVal(); known && m == 0 {
					continue
				}
			}
			good = append(good, o)
		}
		if len(good) == 0 {
			return bs, true, st // the end of it
		}
		if len(good) != 1 || good[0].res.k != KTuple {
			return nil, false, st
		}
		m, known := good[0].res.e[0].intVal()
		st = good[0].st
		if !known {
			return nil, false, st
		}
		if m == 0 {
			break
		}
		for k := int64(0); k < m; k++ {
			bs = append(bs, st.mem[id].get(id, "["+itoa(k)+"]"))
		}
		if good[0].res.e[1].nilness() == -1 {
			break
		}
	}
	return bs, true, st
}

// toBuffer writes to a bytes.Buffer.
func (d *dataFile) toBuffer(st *State, v *Val, bs []*Val) *State {
	id, pre := v.s, v.p+"#"
	s := st.clone()
	if s.mem[id].cells[pre+"n"] == nil {
		setCell(s, id, pre+"at", vInt(0))
		setCell(s, id, pre+"n", vInt(0))
	}
	had, _ := s.mem[id].cells[pre+"n"].intVal()
	for i, b := range bs {
		setCell(s, id, pre+"["+itoa(had+int64(i))+"]", b)
	}
	setCell(s, id, pre+"n", vInt(had+int64(len(bs))))
	return s
}

// buffer gives the place of a bytes.Buffer; nil if nothing was written to it or v is not one.
func (d *dataFile) buffer(st *State, v *Val) *Val {
	if v.k == KIface && len(v.e) == 1 {
		if t := derefType(v.t); t == nil || !namedIs(t, "bytes.Buffer") {
			return nil
		}
		v = v.e[0]
	}
	if v.k == KPtr && st.mem[v.s] != nil && st.mem[v.s].cells[v.p+"#n"] != nil {
		return v
	}
	return nil
}

// memory reads from what is in memory.
func (d *dataFile) memory(c *Call, st *State, id, pre string, n int64) (bs []*Val, ok bool, res *State) {
	o := st.mem[id]
	k, ok1 := o.cells[pre+"at"].intVal()
	m, ok2 := o.cells[pre+"n"].intVal()
	if !ok1 || !ok2 {
		return nil, false, st
	}
	from := o.cells[pre+"from"]
	for ; k < m && int64(len(bs)) < n; k++ {
		b := o.cells[pre+"["+itoa(k)+"]"]
		if from != nil {
			off, _ := from.e[0].intVal()
			b = c.a.obj(st, from.s, nil).get(from.s, from.p+"["+itoa(off+k)+"]")
		}
		if b == nil {
			b = top
		}
		bs = append(bs, b)
	}
	st = st.clone()
	setCell(st, id, pre+"at", vInt(k))
	return bs, true, st
}

// limitedStruct finds the struct of an io.LimitedReader that the module made.
func (d *dataFile) limitedStruct(st *State, v *Val) (string, bool) {
	if v.k != KIface {
		return "", false
	}
	if t := derefType(v.t); t != nil && namedIs(t, "io.LimitedReader") && v.e[0].k == KPtr && v.e[0].p == "" && st.mem[v.e[0].s] != nil {
		return v.e[0].s, true
	}
	return "", false
}

// number makes a number of bytes.
func (d *dataFile) number(bs []*Val, order byte) *Val {
	if len(bs) == 1 {
		return bs[0]
	}
	if v := constBytes(bs, order == 'B'); v != nil {
		return v
	}
	var first poly
	apart := false
	for k, b := range bs {
		if b.k != KTok || !strings.HasPrefix(b.s, "e!1@") {
			return top
		}
		p, ok := polyKey(b.s[4:])
		if !ok {
			return top
		}
		if k == 0 {
			first = p
		} else if x := p.add(first, -1); x.sign() != 0 || x[""] != int64(k) {
			apart = true
		}
	}
	if order != 'B' && d.big || order != 'L' && !d.big {
		return tok("a number in the wrong byte order, from " + bs[0].s)
	}
	if apart {
		return tok("ea!" + strings.TrimPrefix(stringOf(bs).s, "es!"))
	}
	return tok(fmt.Sprintf("e!%d@%s", len(bs), first.val().Key()))
}

// constBytes is the number of known bytes.
func constBytes(bs []*Val, big bool) *Val {
	n := uint64(0)
	for i := range bs {
		b := bs[i]
		if !big {
			b = bs[len(bs)-1-i]
		}
		k, ok := b.intVal()
		if !ok {
			return nil
		}
		n = n<<8 | uint64(k)&0xff
	}
	return &Val{k: KConst, c: constant.MakeUint64(n)}
}

// polyKey is the reverse of the key of a polynomial.
func polyKey(s string) (poly, bool) {
	if strings.HasPrefix(s, "?") {
		return polyOf(tok(s[1:]))
	}
	var n int64
	if _, err := fmt.Sscan(strings.TrimPrefix(s, "c"), &n); err == nil && itoa(n) == strings.TrimPrefix(s, "c") {
		return poly{"": n}, true
	}
	return nil, false
}

// fill reads into a slice, an array or a number; false: undecided.
func (d *dataFile) fill(c *Call, st *State, r, p *Val, t types.Type, order byte) (*State, bool, bool) {
	put := func(n, size int64, at func(int64) *Val, et types.Type) (*State, bool, bool) {
		bs, ok, s := d.read(c, st, r, n*size)
		if !ok {
			return st, false, false
		}
		s = s.clone()
		for k := int64(0); k < n && (k+1)*size <= int64(len(bs)); k++ {
			c.a.store(s, at(k), d.number(bs[k*size:(k+1)*size], order), et)
		}
		return s, true, int64(len(bs)) == n*size
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		size := numSize(u.Elem())
		if p.k == KNil {
			return st, true, true
		}
		if p.k != KSlice || size <= 0 {
			return st, false, false
		}
		n, ok1 := p.e[1].intVal()
		off, ok2 := p.e[0].intVal()
		if !ok1 || !ok2 || n > 512 {
			return st, false, false
		}
		return put(n, size, func(k int64) *Val { return vPtr(p.s, p.p+"["+itoa(off+k)+"]") }, u.Elem())
	case *types.Pointer:
		size := numSize(u.Elem())
		if p.k != KPtr || size <= 0 {
			return st, false, false
		}
		return put(1, size, func(int64) *Val { return p }, u.Elem())
	}
	return st, false, false
}

// cmp decides comparisons with io.EOF and of the addresses of known objects.
func (d *dataFile) cmp(fr *Frame, in *ssa.BinOp, x, y *Val, st *State) *Val {
	if in.Op != token.EQL && in.Op != token.NEQ {
		return nil
	}
	eof := func(v *Val) bool {
		return v.k == KNonNil && strings.HasSuffix(v.s, "io.EOF") || v.k == KTok && strings.HasPrefix(v.s, "u<G:io.EOF@")
	}
	if eof(x) && eof(y) {
		return vBool(in.Op == token.EQL)
	}
	if eof(x) && y.k == KIface || x.k == KIface && eof(y) {
		return vBool(in.Op == token.NEQ)
	}
	if x.k == KPtr && y.k == KPtr {
		// what a global points to from the start is not what was made since
		global := func(v *Val) bool { return strings.HasPrefix(v.s, "P<u<G:") && strings.HasSuffix(v.s, "@>>") }
		if private(x.s) && global(y) || private(y.s) && global(x) {
			return vBool(in.Op == token.NEQ)
		}
		a, b := st.mem[x.s], st.mem[y.s]
		if a != nil && b != nil && !a.multi && !b.multi {
			return vBool((x.s == y.s && x.p == y.p) == (in.Op == token.EQL))
		}
	}
	return nil
}

func (d *dataFile) hook(c *Call) ([]Out, bool) {
	a, st := c.a, c.st
	done := func(s *State, v *Val) ([]Out, bool) { return []Out{{st: s, res: v, prop: s.prop}}, true }
	bytesT := types.NewSlice(types.Typ[types.Uint8])
	switch {
	case strings.HasSuffix(c.name, ".Seek") && len(c.args) == 3 && d.isFile(c.args[0]):
		s := st.clone()
		w, ok := c.args[2].intVal()
		switch {
		case ok && w == 0:
			d.setPosition(s, c.args[1])
		case ok && w == 1:
			p, q := d.position(s), poly(nil)
			if x, ok := polyOf(c.args[1]); ok && p != nil {
				q = p.add(x, 1)
				d.setPosition(s, q.val())
			} else {
				d.setPosition(s, top)
			}
		case ok && w == 2 && d.image != nil:
			if k, ok := c.args[1].intVal(); ok {
				d.setPosition(s, vInt(d.size+k))
				return done(s, vTuple(vInt(d.size+k), vNil))
			}
			d.setPosition(s, top)
		default:
			d.setPosition(s, top)
		}
		return done(s, vTuple(c.args[1], vNil))
	case c.name == "bufio.NewReader", c.name == "bufio.NewReaderSize":
		s := st.clone()
		return done(s, d.object(s, bufReaderT, map[string]*Val{"from": c.args[0], "pos": top}))
	case c.name == "io.LimitReader":
		s := st.clone()
		return done(s, vIface(limitedT, d.object(s, limitedT, map[string]*Val{"from": c.args[0], "left": c.args[1]})))
	case c.name == "io.MultiReader":
		cells := map[string]*Val{"at": vInt(0), "n": vInt(0)}
		if l := c.args[0]; l.k == KSlice {
			n, ok1 := l.e[1].intVal()
			off, ok2 := l.e[0].intVal()
			if !ok1 || !ok2 || n > 64 {
				return nil, false
			}
			cells["n"] = vInt(n)
			for i := int64(0); i < n; i++ {
				cells["["+itoa(i)+"]"] = a.obj(st, l.s, nil).get(l.s, l.p+"["+itoa(off+i)+"]")
			}
		} else if l.k != KNil {
			return nil, false
		}
		s := st.clone()
		return done(s, vIface(concatT, d.object(s, concatT, cells)))
	case c.name == "bytes.NewReader", c.name == "bytes.NewBuffer":
		l := c.args[0]
		if l.k != KSlice {
			return nil, false
		}
		if _, ok := l.e[0].intVal(); !ok {
			return nil, false
		}
		s := st.clone()
		return done(s, d.object(s, memoryT, map[string]*Val{"from": l, "n": l.e[1], "at": vInt(0)}))
	case c.name == "(*bytes.Buffer).Write" && c.args[0].k == KPtr && c.args[1].k == KSlice:
		l := c.args[1]
		off, ok1 := l.e[0].intVal()
		n, ok2 := l.e[1].intVal()
		if !ok1 || !ok2 || n > 512 || st.mem[c.args[0].s] == nil {
			return nil, false
		}
		var bs []*Val
		for i := range n {
			bs = append(bs, a.obj(st, l.s, nil).get(l.s, l.p+"["+itoa(off+i)+"]"))
		}
		return done(d.toBuffer(st, c.args[0], bs), vTuple(l.e[1], vNil))
	case d.image != nil && (c.name == "(*bytes.Buffer).ReadFrom" || c.name == "io.Copy"):
		to := c.args[0]
		if to.k == KIface && len(to.e) == 1 {
			if t := derefType(to.t); t == nil || !namedIs(t, "bytes.Buffer") {
				return nil, false
			}
			to = to.e[0]
		}
		if to.k != KPtr || st.mem[to.s] == nil {
			return nil, false
		}
		bs, ok, s := d.read(c, st, c.args[1], 2048)
		if !ok {
			return nil, false
		}
		return done(d.toBuffer(s, to, bs), vTuple(vInt(int64(len(bs))), vNil))
	case strings.HasPrefix(c.name, "cmp.Compare") && len(c.args) == 2:
		x, ok1 := c.args[0].intVal()
		y, ok2 := c.args[1].intVal()
		if !ok1 || !ok2 {
			return nil, false
		}
		return done(st, vInt(int64(cmp.Compare(x, y))))
	case strings.HasPrefix(c.name, "reflect.TypeFor") && c.callee != nil && len(c.callee.TypeArgs()) == 1:
		return done(st, &Val{k: KRType, t: c.callee.TypeArgs()[0]})
	case strings.HasPrefix(c.name, "(encoding/binary.") && strings.Contains(c.name, "Endian).Uint") && len(c.args) == 2 && c.args[1].k == KSlice:
		size := map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8}[c.name[strings.LastIndex(c.name, ".")+1:]]
		off, ok1 := c.args[1].e[0].intVal()
		n, ok2 := c.args[1].e[1].intVal()
		if !ok1 || !ok2 || n < size {
			return nil, false
		}
		order := byte('L')
		if strings.Contains(c.name, "bigEndian") {
			order = 'B'
		}
		var bs []*Val
		for i := range size {
			bs = append(bs, a.obj(st, c.args[1].s, nil).get(c.args[1].s, c.args[1].p+"["+itoa(off+i)+"]"))
		}
		return done(st, d.number(bs, order))
	case (c.name == "math.Float32frombits" || c.name == "math.Float64frombits") && c.args[0].k == KTok && strings.HasPrefix(c.args[0].s, "e!"):
		return done(st, c.args[0])
	case c.name == "encoding/binary.Read" && len(c.args) == 3 && c.args[2].k == KIface:
		t := c.args[2].t
		s, ok, all := d.fill(c, st, c.args[0], c.args[2].e[0], t, byteOrder(c.args[1]))
		if !ok {
			return nil, false
		}
		if !all {
			return done(s, nonNil("too little data"))
		}
		return done(s, vNil)
	case c.name == "(*io.LimitedReader).Read" && c.args[0].k == KPtr && d.structAt(st, c.args[0]) != nil && d.image != nil:
		return d.readInto(c, st, vIface(d.structAt(st, c.args[0]), c.args[0]), c.args[1])
	case strings.HasSuffix(c.name, ".Read") && len(c.args) == 2 && (d.mine(c.args[0]) || d.buffer(st, c.args[0]) != nil) && d.image != nil:
		return d.readInto(c, st, c.args[0], c.args[1])
	case d.image != nil && (strings.HasPrefix(c.name, "(*sync.Mutex).") || strings.HasPrefix(c.name, "(*sync.RWMutex).")) && strings.HasSuffix(c.name, "ock"):
		return done(st, vTuple())
	case d.image != nil && sorts(c.name):
		return d.sort(c)
	case c.name == "io.CopyN" && d.image != nil:
		n, ok := c.args[2].intVal()
		if w := c.args[0]; !ok || !strings.HasPrefix(w.s, "u<G:io.Discard@") && w.k != KNonNil && w.k != KIface || n > 1<<16 {
			return nil, false
		}
		bs, ok, s := d.read(c, st, c.args[1], n)
		if !ok {
			return nil, false
		}
		if int64(len(bs)) < n {
			return done(s, vTuple(vInt(int64(len(bs))), nonNil("io.EOF")))
		}
		return done(s, vTuple(vInt(n), vNil))
	case d.image != nil && (c.name == "compress/zlib.NewReader" || c.name == "compress/zlib.NewReaderDict"):
		bs, ok, s := d.read(c, st, c.args[0], 2048)
		if !ok {
			return nil, false
		}
		cells := map[string]*Val{"at": vInt(0), "n": vInt(int64(len(bs)))}
		for i, b := range bs {
			cells["["+itoa(int64(len(bs)-1-i))+"]"] = b
		}
		s = s.clone()
		return done(s, vTuple(vIface(memoryT, d.object(s, memoryT, cells)), vNil))
	case c.name == "io.ReadAll" && d.image != nil:
		bs, ok, s := d.read(c, st, c.args[0], 2048)
		if !ok {
			return nil, false
		}
		d.made++
		s = s.clone()
		return done(s, vTuple(knownSlice(s, fmt.Sprintf("A<all%d>", d.made), bytesT, bs...), vNil))
	case c.name == "io.ReadFull" && len(c.args) == 2, strings.HasSuffix(c.name, ".Read") && len(c.args) == 2 && d.mine(c.args[0]):
		s, ok, all := d.fill(c, st, c.args[0], c.args[1], bytesT, 0)
		if !ok || c.args[1].k != KSlice {
			return nil, false
		}
		if !all {
			return done(s, vTuple(vInt(0), nonNil("too little data")))
		}
		return done(s, vTuple(c.args[1].e[1], vNil))
	}
	if o, ok := sliceModel(c, &d.made); ok {
		return o, true
	}
	return nil, false
}

func sorts(name string) bool {
	name, _, _ = strings.Cut(name, "[")
	switch name {
	case "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc", "slices.Sort", "sort.Strings":
		return true
	}
	return false
}

// sort interprets a sort, as the exchange of neighbours, with the functions that it is given.
func (d *dataFile) sort(c *Call) ([]Out, bool) {
	st := c.st
	single := func(outs []Out) *Val {
		if len(outs) != 1 || outs[0].panic != nil {
			return nil
		}
		st = outs[0].st
		return outs[0].res
	}
	var n int64
	var less func(i, j int64) *Val
	var swap func(i, j int64) bool
	if c.name == "sort.Sort" || c.name == "sort.Stable" {
		one := func(m string, args ...*Val) *Val {
			f, recv := d.p.methodOf(c.args[0], m)
			if f == nil || !d.p.analysable(f) {
				return nil
			}
			cc := *c
			cc.st = st
			return single(cc.through(f, append([]*Val{recv}, args...)...))
		}
		v := one("Len")
		if v == nil {
			return nil, false
		}
		var ok bool
		if n, ok = v.intVal(); !ok {
			return nil, false
		}
		less = func(i, j int64) *Val { return one("Less", vInt(i), vInt(j)) }
		swap = func(i, j int64) bool { return one("Swap", vInt(i), vInt(j)) != nil }
	} else {
		l, t := c.args[0], types.Type(nil)
		if l.k == KIface {
			l, t = l.e[0], elemOf(l.t)
		} else {
			t = elemOf(c.site.Common().Args[0].Type())
		}
		if t == nil && c.site.Value() != nil {
			t = elemOf(c.site.Value().Type()) // a sorted sequence
		}
		if l.k == KNil {
			return []Out{{res: vTuple()}}, true
		}
		var f *Val
		if len(c.args) > 1 {
			f = c.args[1]
		}
		if l.k != KSlice || f != nil && f.k != KFunc || t == nil {
			return nil, false
		}
		off, ok1 := l.e[0].intVal()
		k, ok2 := l.e[1].intVal()
		if !ok1 || !ok2 {
			return nil, false
		}
		n = k
		at := func(i int64) *Val { return vPtr(l.s, l.p+"["+itoa(off+i)+"]") }
		get := func(i int64) *Val { return c.a.load(st, at(i), t) }
		less = func(i, j int64) *Val {
			if f == nil {
				x, y := get(i), get(j)
				if a, ok := x.strVal(); ok {
					if b, ok := y.strVal(); ok {
						return vBool(a < b)
					}
				}
				return nil
			}
			args := []*Val{vInt(i), vInt(j)}
			three := strings.HasPrefix(c.name, "slices.")
			if three {
				args = []*Val{get(i), get(j)}
			}
			cc := *c
			cc.st = st
			v := single(cc.throughClosure(f.f, f.e, args...))
			if v != nil && three {
				k, ok := v.intVal()
				if !ok {
					return nil
				}
				return vBool(k < 0)
			}
			return v
		}
		swap = func(i, j int64) bool {
			x, y := get(i), get(j)
			st = st.clone()
			c.a.store(st, at(i), y, t)
			c.a.store(st, at(j), x, t)
			return true
		}
	}
	if n > 32 {
		return nil, false
	}
	for i := int64(1); i < n; i++ {
		for j := i; j > 0; j-- {
			v := less(j, j-1)
			if v == nil {
				return nil, false
			}
			yes, ok := v.boolVal()
			if !ok {
				return nil, false
			}
			if !yes {
				break
			}
			if !swap(j, j-1) {
				return nil, false
			}
		}
	}
	return []Out{{st: st, res: vTuple(), prop: st.prop}}, true
}

// readInto is a plain read: what there is, or the end.
func (d *dataFile) readInto(c *Call, st *State, r, b *Val) ([]Out, bool) {
	if b.k != KSlice {
		return nil, false
	}
	n, ok1 := b.e[1].intVal()
	off, ok2 := b.e[0].intVal()
	if !ok1 || !ok2 || n > 4096 {
		return nil, false
	}
	bs, ok, s := d.read(c, st, r, n)
	if !ok {
		return nil, false
	}
	s = s.clone()
	for k, x := range bs {
		c.a.store(s, vPtr(b.s, b.p+"["+itoa(off+int64(k))+"]"), x, types.Typ[types.Uint8])
	}
	err := vNil
	if len(bs) == 0 && n > 0 {
		err = nonNil("io.EOF")
	}
	return []Out{{st: s, res: vTuple(vInt(int64(len(bs))), err), prop: s.prop}}, true
}

// structAt gives the type of an io.LimitedReader at a place, as a pointer to it.
func (d *dataFile) structAt(st *State, v *Val) types.Type {
	o := st.mem[v.s]
	if o == nil || v.p != "" || o.typ == nil {
		return nil
	}
	if t := o.typ; namedIs(t, "io.LimitedReader") {
		return types.NewPointer(t)
	}
	return nil
}

func (d *dataFile) mine(v *Val) bool {
	if d.isFile(v) {
		return true
	}
	_, id := d.readerObj(v)
	return id != ""
}

// sliceModel follows reflection on slices element by element.
func sliceModel(c *Call, made *int) ([]Out, bool) {
	a, st := c.a, c.st
	one := func(v *Val) ([]Out, bool) { return []Out{{res: v}}, true }
	if c.name == "reflect.MakeSlice" && len(c.args) == 3 {
		t := rtype(c.args[0])
		n, ok := c.args[1].intVal()
		if t == nil || !ok || n > 512 {
			return nil, false
		}
		*made++
		id := fmt.Sprintf("A<made%d>", *made)
		s := st.clone()
		s.mem[id] = &Obj{zero: true, typ: t, cells: map[string]*Val{}}
		return []Out{{st: s, prop: s.prop, res: &Val{k: KRVal, t: t, e: []*Val{vSlice(id, "", vInt(0), vInt(n))}}}}, true
	}
	if !strings.HasPrefix(c.name, "(reflect.Value).") || len(c.args) == 0 || c.args[0].k != KRVal || c.args[0].t == nil {
		return nil, false
	}
	v := c.args[0]
	cur := v.e[0]
	if len(v.e) == 2 {
		// what is there now
		cur = a.obj(st, v.e[1].s, nil).get(v.e[1].s, v.e[1].p)
	}
	same := func(x *Val) *Val { return &Val{k: KRVal, t: v.t, e: []*Val{x}} }
	switch strings.TrimPrefix(c.name, "(reflect.Value).") {
	case "Len":
		switch {
		case cur.k == KSlice:
			return one(cur.e[1])
		case cur.k == KNil:
			return one(vInt(0))
		}
		if bs, ok := stringBytes(cur); ok {
			return one(vInt(int64(len(bs))))
		}
	case "Index":
		i, ok := c.args[1].intVal()
		if !ok || cur.k != KSlice {
			return nil, false
		}
		off, ok1 := cur.e[0].intVal()
		n, ok2 := cur.e[1].intVal()
		if !ok1 || !ok2 {
			return nil, false
		}
		if i < 0 || i >= n {
			return []Out{{panic: nonNil("reflect: index out of range")}}, true
		}
		at := vPtr(cur.s, cur.p+"["+itoa(off+i)+"]")
		return one(&Val{k: KRVal, t: elemOf(v.t), e: []*Val{a.obj(st, at.s, nil).get(at.s, at.p), at}})
	case "Set":
		x := c.args[1]
		if len(v.e) != 2 || x.k != KRVal {
			return nil, false
		}
		w := x.e[0]
		if len(x.e) == 2 {
			w = a.obj(st, x.e[1].s, nil).get(x.e[1].s, x.e[1].p)
		}
		if x.t == nil || !types.AssignableTo(x.t, v.t) {
			return []Out{{panic: nonNil("reflect: set of another type")}}, true
		}
		s := st.clone()
		a.store(s, v.e[1], w, v.t)
		return []Out{{st: s, prop: s.prop, res: vTuple()}}, true
	case "Slice":
		i, ok1 := c.args[1].intVal()
		j, ok2 := c.args[2].intVal()
		if !ok1 || !ok2 {
			return nil, false
		}
		if bs, ok := stringBytes(cur); ok {
			if i < 0 || j < i || j > int64(len(bs)) {
				return []Out{{panic: nonNil("reflect: slice out of range")}}, true
			}
			return one(same(stringOf(bs[i:j])))
		}
		if cur.k == KSlice {
			off, ok1 := cur.e[0].intVal()
			n, ok2 := cur.e[1].intVal()
			if !ok1 || !ok2 {
				return nil, false
			}
			if i < 0 || j < i || j > n {
				return []Out{{panic: nonNil("reflect: slice out of range")}}, true
			}
			return one(same(vSlice(cur.s, cur.p, vInt(off+i), vInt(j-i))))
		}
	case "Convert":
		if k, ok := cur.intVal(); ok {
			if t := rtype(c.args[1]); t != nil && isInteger(t) && isInteger(v.t) && numSize(t) > 0 && numSize(t) == numSize(v.t) {
				return one(&Val{k: KRVal, t: t, e: []*Val{vInt(wrapInt(k, t))}})
			}
		}
		// a number of the file stays one, if it has the same size
		t := rtype(c.args[1])
		if cur.k == KTok && strings.HasPrefix(cur.s, "e!") && t != nil && numSize(t) > 0 && numSize(t) == numSize(v.t) && isInteger(t) == isInteger(v.t) {
			return one(&Val{k: KRVal, t: t, e: []*Val{cur}})
		}
	case "Interface":
		if !types.IsInterface(v.t) {
			return one(vIface(v.t, cur))
		}
	case "IsNil":
		if cur.k == KSlice {
			return one(vFalse)
		}
	}
	return nil, false
}

// stringOf is a string of bytes of the file.
func stringOf(bs []*Val) *Val {
	if len(bs) == 0 {
		return vStr("")
	}
	s := "es!"
	for i, b := range bs {
		if i > 0 {
			s += ","
		}
		s += b.s
	}
	return tok(s)
}

// fileBytes gives the elements of a slice, if all are bytes of a file.
func fileBytes(o *Obj, v *Val, off, n int64) (bs []*Val) {
	for i := range n {
		c := o.get(v.s, v.p+"["+itoa(off+i)+"]")
		if c.k != KTok || !strings.HasPrefix(c.s, "e!1@") {
			return nil
		}
		bs = append(bs, c)
	}
	return bs
}

func stringBytes(v *Val) ([]*Val, bool) {
	if s, ok := v.strVal(); ok && s == "" {
		return nil, true
	}
	if v.k != KTok || !strings.HasPrefix(v.s, "es!") {
		return nil, false
	}
	var out []*Val
	for _, b := range strings.Split(v.s[3:], ",") {
		out = append(out, tok(b))
	}
	return out, true
}

// A cdfVar is a variable of a file that the rule made up.
type cdfVar struct {
	name  string
	typ   cdfType
	dims  []int64 // 0: the unlimited one
	begin string
}

// elements is the tree of the positions of the values between two bounds.
func (v *cdfVar) at(recSize int64, recs int64, idx []int64) poly {
	lin := int64(0)
	p := poly{v.begin: 1}
	for k, i := range idx {
		if v.dims[k] == 0 {
			p = p.add(poly{"": i * recSize}, 1)
			continue
		}
		lin = lin*v.dims[k] + i
	}
	return p.add(poly{"": lin * v.typ.size}, 1)
}

// A shape is what the values of a variable should be.
type shape struct {
	dims int
	str  bool                   // the last dimension is that of strings
	size int64                  // of an element
	at   func(idx []int64) *Val // where an element is, as a polynomial
	elem func(idx []int64) *Val // what an element is, instead of where
}

// compare tells how a value differs from the elements of a variable between bounds; "" if it does not.
func (v *shape) compare(a *An, st *State, x *Val, begin, end []int64, idx []int64) string {
	elem := v.elem
	if elem == nil {
		elem = func(idx []int64) *Val { return tok(fmt.Sprintf("e!%d@%s", v.size, v.at(idx).Key())) }
	}
	if r := len(idx); r < v.dims {
		n := end[r] - begin[r]
		if v.str && r == v.dims-1 {
			bs, ok := stringBytes(x)
			if !ok {
				return fmt.Sprintf("the string at %v is %s", idx, show(x))
			}
			if int64(len(bs)) != n {
				return fmt.Sprintf("the string at %v has %d bytes instead of %d", idx, len(bs), n)
			}
			for i := range n {
				want := elem(append(idx[:r:r], begin[r]+i))
				if bs[i].s != want.s {
					return fmt.Sprintf("the character at %v is %s instead of %s", append(idx[:r:r], begin[r]+i), show(bs[i]), show(want))
				}
			}
			return ""
		}
		ln, off := int64(-1), int64(0)
		switch x.k {
		case KNil:
			ln = 0
		case KSlice:
			if k, ok := x.e[1].intVal(); ok {
				ln = k
			}
			k, ok := x.e[0].intVal()
			if !ok {
				ln = -1
			}
			off = k
		}
		if ln < 0 {
			return fmt.Sprintf("undecided: what is at %v is %s", idx, show(x))
		}
		if ln != n {
			return fmt.Sprintf("there are %d elements instead of %d at %v", ln, n, idx)
		}
		for i := range n {
			y := a.obj(st, x.s, nil).get(x.s, x.p+"["+itoa(off+i)+"]")
			if why := v.compare(a, st, y, begin, end, append(idx[:r:r], begin[r]+i)); why != "" {
				return why
			}
		}
		return ""
	}
	want := elem(idx)
	if v.str {
		want = stringOf([]*Val{want})
	}
	if x.Key() != want.Key() {
		return fmt.Sprintf("the element at %v is %s instead of %s", idx, show(x), show(want))
	}
	return ""
}

func show(v *Val) string {
	s := v.Key()
	if v.k == KTok {
		s = v.s
	}
	s = strings.NewReplacer("e!1@", "byte ", "e!2@", "bytes ", "e!4@", "bytes ", "e!8@", "bytes ", "?n!*0|N:", "", "?n!*", "", "es!", "", "ea!", "").Replace(s)
	if len(s) > 80 {
		s = s[:80] + "..."
	}
	return s
}

func ruleC07(p *Prog, r *Report) {
	r.explain("The exported functions of the CDF package that open a file are interpreted abstractly on headers with variables of every type and of zero to three dimensions, with and without records; where the data begins is a symbol. On the object that results, the methods that give values (all of them, a part of the first dimension, a part of each dimension, and a whole variable) are interpreted with the bounds given. The position of the file and the readers that wrap it are followed, so that each byte that is read is known by its position; each element of the result has to be made of the bytes at the position that the format gives the element, in big-endian order, in nested slices of the right type and lengths.")
	base := p.initBase()
	n := 0
	const recs = 3
	for _, f := range p.readerOpeners("netcdf/cdf") {
		for _, t := range cdfTypes {
			v := int64(5)
			if t.code <= 6 {
				v = 2
				if t.code == 4 {
					v = 1
				}
			}
			for _, l := range []struct {
				what string
				vars []cdfVar
			}{
				{"fixed", []cdfVar{{"s", t, nil, "N:s"}, {"a", t, []int64{3}, "N:a"}, {"b", t, []int64{2, 3}, "N:b"}, {"c", t, []int64{2, 3, 2}, "N:c"}, {"d", t, []int64{3, 1, 2, 3}, "N:d"}}},
				{"one record variable", []cdfVar{{"r", t, []int64{0, 3}, "N:r"}}},
				{"one record variable of one dimension", []cdfVar{{"r", t, []int64{0}, "N:r"}}},
				{"records", []cdfVar{{"r", t, []int64{0}, "N:r"}, {"q", t, []int64{0, 3}, "N:q"}, {"w", t, []int64{0, 3, 2}, "N:w"}}},
			} {
				n += p.cdfData(r, base, f, v, l.what, l.vars, recs)
			}
		}
	}
	r.minimum("variables", n, 80)
}

// cdfData interprets the reading of the variables of a file.
func (p *Prog) cdfData(r *Report, base Mem, f *ssa.Function, version int64, what string, vars []cdfVar, recs int64) int {
	h := &cdfHeader{v: version}
	for _, b := range []byte("CDF") {
		h.put("", int64(b), 1)
	}
	h.put("", version, 1)
	h.num("", recs)
	lens := []int64{0, 3, 2, 1}
	h.list("", 10, int64(len(lens)))
	for i, n := range lens {
		h.name("", string("rxyz"[i]))
		h.num("", n)
	}
	h.list("", 12, 0)
	h.list("", 11, int64(len(vars)))
	recSize := int64(0)
	nRec := 0
	only := int64(0)
	for i := range vars {
		x := &vars[i]
		h.name("", x.name)
		h.num("", int64(len(x.dims)))
		size := x.typ.size
		for _, d := range x.dims {
			for id, n := range lens {
				if n == d {
					h.num("", int64(id))
				}
			}
			if d != 0 {
				size *= d
			}
		}
		h.list("", 12, 0)
		h.put("", x.typ.code, 4)
		padded := (size + 3) / 4 * 4
		h.num("", padded)
		if len(x.dims) > 0 && x.dims[0] == 0 {
			recSize += padded
			nRec++
			only = size
		}
		w := 8
		if version == 1 {
			w = 4
		}
		h.steps = append(h.steps, step{size: w, tok: poly{x.begin: 1}.val()})
	}
	if nRec == 1 {
		recSize = only // the records of a single variable are not padded
	}
	q := p.cdfOpen(r, base, f, h)
	q.args = map[int]*Val{0: nonNil("datafile")}
	ei := errResult(f)
	opened := q.opened(r, ei)
	title := fmt.Sprintf("%s, %s", vars[0].typ.name, what)
	if len(opened) == 0 {
		r.obl("data", title)
		r.fail("data", title, p.pos(f), "such a file is not opened")
		return 0
	}
	count := 0
	for i := range vars {
		x := &vars[i]
		full := append([]int64(nil), x.dims...)
		for k := range full {
			if full[k] == 0 {
				full[k] = recs
			}
		}
		name := fmt.Sprintf("%s, variable %s of dimensions %v", title, x.name, full)
		r.obl("data", name)
		count++
		sh := &shape{dims: len(x.dims), str: x.typ.elem == types.String, size: x.typ.size, at: func(idx []int64) *Val { return x.at(recSize, recs, idx).val() }}
		seen := 0
		for _, e := range opened {
			d := &dataFile{p: p, big: true}
			seen += p.checkValues(r, base, d, e, name, f, x.name, full, sh, x.typ.valueType(len(full)))
		}
		if seen == 0 {
			r.fail("data", name, p.pos(f), "no values are read")
		}
	}
	return count
}

// checkValues interprets all the ways to get the values of a variable, and compares what they give. It
// gives how many values were compared.
func (p *Prog) checkValues(r *Report, base Mem, d *dataFile, e *Exit, name string, f *ssa.Function, varName string, full []int64, sh *shape, want types.Type) (seen int) {
	zero := make([]int64, len(full))
	a := newAn(p, base)
	a.Unroll, a.Recur, a.Fresh = 80, 6, true
	a.Lin = &Lin{lens: map[string]*Val{}}
	a.OnCall, a.OnCmp = d.hook, d.cmp
	a.Frees = true
	check := func(e *Exit, v *Val, begin, end []int64, how string) {
		if v.k != KIface {
			r.fail("data", name, p.pos(e.at), "undecided: the dynamic type of the result of %s is not known", how)
			return
		}
		if !types.Identical(v.t, want) {
			r.fail("data", name, p.pos(e.at), "%s gives a %s instead of a %s", how, typeString(v.t), typeString(want))
			return
		}
		st := newState()
		st.mem = e.mem
		seen++
		if why := sh.compare(a, st, v.e[0], begin, end, nil); why != "" {
			r.fail("data", name, p.pos(e.at), "%s: %s", how, why)
		}
	}
	use := func(e *Exit, recv *Val, m string, begin, end []int64, args ...*Val) {
		how := m
		if begin != nil {
			how += fmt.Sprintf("(%v, %v)", begin, end)
		} else {
			begin, end = zero, full
		}
		at := f
		f, rc := p.methodOf(recv, m)
		if f == nil {
			r.fail("data", name, p.pos(at), "undecided: the dynamic type of what has the method %s is not known", m)
			return
		}
		good := 0
		for _, y := range a.sequel(e, f, "", append([]*Val{rc}, args...)...) {
			if y.panic != nil {
				r.fail("data", name, p.pos(y.at), "%s panics (%s)", how, show(y.panic))
				continue
			}
			if exitErr(y, errResult(f)) == -1 {
				continue
			}
			good++
			v := y.results[0]
			if m == "GetVariable" {
				v = fieldNamed(y, v, derefType(f.Signature.Results().At(0).Type()), "Values")
			}
			check(y, v, begin, end, how)
		}
		if good == 0 {
			r.fail("data", name, p.pos(f), "%s gives no values", how)
		}
	}
	use(e, e.results[0], "GetVariable", nil, nil, vStr(varName))
	g, rc := p.methodOf(e.results[0], "GetVarGetter")
	if g == nil {
		r.fail("data", name, p.pos(f), "undecided: the dynamic type of the group is not known")
		return 0
	}
	for _, y := range a.sequel(e, g, "", rc, vStr(varName)) {
		if y.panic != nil || exitErr(y, errResult(g)) == -1 {
			continue
		}
		vg := y.results[0]
		use(y, vg, "Values", nil, nil)
		lo, hi := int64(0), int64(1)
		if len(full) > 0 {
			hi = full[0]
		}
		for b := lo; b <= hi; b++ {
			for n := b; n <= hi; n++ {
				if len(full) == 0 && (b != 0 || n != 1) {
					continue
				}
				bs, es := append([]int64(nil), zero...), append([]int64(nil), full...)
				if len(full) > 0 {
					bs[0], es[0] = b, n
				}
				use(y, vg, "GetSlice", bs, es, vInt(b), vInt(n))
			}
		}
		boxes := [][2][]int64{{zero, full}}
		one, last := append([]int64(nil), zero...), append([]int64(nil), full...)
		if k := len(full); k > 0 {
			one[k-1], last[k-1] = 1, 2
			if full[k-1] > 1 {
				boxes = append(boxes, [2][]int64{one, full}, [2][]int64{one, last})
			}
			mid := append([]int64(nil), one...)
			mid[0] = 1
			boxes = append(boxes, [2][]int64{mid, full}, [2][]int64{full, full})
		}
		for k, box := range boxes {
			empty := false
			for i := range full {
				empty = empty || box[0][i] > box[1][i]
			}
			if empty {
				continue
			}
			mk := func(id string, ns []int64) *Val {
				var es []*Val
				for _, n := range ns {
					es = append(es, vInt(n))
				}
				st := newState()
				st.mem = y.mem
				s := knownSlice(st, id, types.NewSlice(types.Typ[types.Int64]), es...)
				y.mem = st.mem
				return s
			}
			b, e := mk(fmt.Sprintf("K<begin%d>", k), box[0]), mk(fmt.Sprintf("K<end%d>", k), box[1])
			use(y, vg, "GetSliceMD", box[0], box[1], b, e)
		}
	}
	r.cover(a)
	return seen
}

// fieldNamed loads a field of the struct that a pointer points to.
func fieldNamed(e *Exit, v *Val, t types.Type, name string) *Val {
	s := isStruct(t)
	if v.k != KPtr || s == nil || e.mem[v.s] == nil {
		return top
	}
	for i := range s.NumFields() {
		if s.Field(i).Name() == name {
			return e.mem[v.s].get(v.s, v.p+"."+itoa(int64(i)))
		}
	}
	return top
}
