package main

import (
	"encoding/hex"
	"go/constant"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What is written: a list of items. The property state of a path is the number of the list that
// was written on it.

type emitItem struct {
	kind  byte        // 'x' bytes, 'z' zero bytes, 'e' one number, 'r' the elements of a slice, 's' the bytes of a string, '?' unknown; 'n' a new buffer, 'p' other bytes at an offset, 'c' a condition, 't' what was there is gone
	bytes []byte      // x
	size  int64       // of an element
	order byte        // 'B' or 'L' (element size over 1)
	typ   string      // of the elements
	val   *Val        // e: the number; s: the string
	from  string      // r: the slice
	off   *Val        // r: offset in it
	n     *Val        // r, s, z: number of elements
	why   string      // ?, c
	sink  string      // the buffer written to ("": the file)
	its   []*emitItem // p
}

func (i *emitItem) key() string {
	k := string(i.kind) + hex.EncodeToString(i.bytes) + " " + itoa(i.size) + string(rune(i.order)) + " " + i.typ + " " + i.from + " " + i.why
	for _, v := range []*Val{i.val, i.off, i.n} {
		k += " "
		if v != nil {
			k += v.Key()
		}
	}
	if i.sink != "" {
		k += " >" + i.sink
	}
	for _, x := range i.its {
		k += " [" + x.key() + "]"
	}
	return k
}

// length is the number of bytes.
func (i *emitItem) length() poly {
	switch i.kind {
	case 'x':
		return poly{"": int64(len(i.bytes))}
	case 'e':
		return poly{"": i.size}
	case 'r', 's', 'z':
		if p, ok := polyOf(i.n); ok {
			return p.mul(poly{"": i.size})
		}
	}
	return nil
}

func (i *emitItem) String() string {
	switch i.kind {
	case 'x':
		return "bytes " + hex.EncodeToString(i.bytes)
	case 'e':
		return itoa(i.size) + "-byte " + i.val.s
	case 'r':
		return i.typ + " elements of " + i.from
	case 's':
		return "string " + i.val.s
	case 'z':
		return "zero bytes"
	}
	return "unknown (" + i.why + ")"
}

type Emit struct {
	lists []emitList
	index map[string]int
	blobs map[string][]*emitItem // encodings in memory, by object
	memo  map[string][]*emitItem
	over  bool // a list got too long
}

type emitList struct {
	parent int
	item   *emitItem
	depth  int
}

func newEmit() *Emit {
	return &Emit{lists: []emitList{{}}, index: map[string]int{}, blobs: map[string][]*emitItem{}, memo: map[string][]*emitItem{}}
}

func emitNode(prop string) int {
	n, _ := strconv.Atoi(strings.TrimPrefix(prop, "w"))
	return n
}

// add notes what is written to the file.
func (e *Emit) add(prop string, items ...*emitItem) string { return e.addTo(prop, "", items...) }

func (e *Emit) addTo(prop, sink string, items ...*emitItem) string {
	n := emitNode(prop)
	for _, i := range items {
		if i.kind == 'x' && len(i.bytes) > 0 && strings.Trim(string(i.bytes), "\x00") == "" {
			i = &emitItem{kind: 'z', size: 1, n: vInt(int64(len(i.bytes)))}
		}
		if i.sink != sink {
			j := *i
			j.sink = sink
			i = &j
		}
		if i.kind == 'z' {
			if l := e.lists[n].item; l != nil && l.kind == 'z' && l.sink == sink {
				p, ok1 := polyOf(i.n)
				q, ok2 := polyOf(l.n)
				if ok1 && ok2 {
					i = &emitItem{kind: 'z', size: 1, n: p.add(q, 1).val(), sink: sink}
					n = e.lists[n].parent
				}
			}
		}
		k := strconv.Itoa(n) + " " + i.key()
		m, ok := e.index[k]
		if !ok {
			m = len(e.lists)
			e.lists = append(e.lists, emitList{n, i, e.lists[n].depth + 1})
			e.index[k] = m
		}
		n = m
	}
	return "w" + strconv.Itoa(n)
}

// items gives what was written to the file.
func (e *Emit) items(prop string) []*emitItem { return mergeBytes(e.contents(prop, "")) }

// contents gives what is in a buffer.
func (e *Emit) contents(prop, sink string) []*emitItem {
	var todo []int
	var out []*emitItem
	for n := emitNode(prop); ; n = e.lists[n].parent {
		if m, ok := e.memo[strconv.Itoa(n)+sink]; ok || n == 0 {
			out = append(out, m...)
			break
		}
		if i := e.lists[n].item; i.sink == sink {
			if i.kind == 'n' || i.kind == 't' {
				out = append(out, i.its...)
				break
			}
			todo = append(todo, n)
		}
	}
	for k := len(todo) - 1; k >= 0; k-- {
		i := e.lists[todo[k]].item
		switch i.kind {
		case 'c':
		case 'p':
			l := poly{}
			for _, x := range i.its {
				m := x.length()
				if m == nil {
					l = nil
					break
				}
				l = l.add(m, 1)
			}
			off, ok := polyOf(i.off)
			var head, tail []*emitItem
			ok2 := false
			if ok && l != nil {
				head, tail, ok = cutItems(out, off)
				if ok {
					_, tail, ok2 = cutItems(tail, l)
				}
			}
			if !ok || !ok2 {
				out = append(append([]*emitItem(nil), out...), unknownItem("something is written over it at an offset that is not known")...)
				break
			}
			out = append(append(append([]*emitItem(nil), head...), i.its...), tail...)
		default:
			if n := len(out); n > 0 && i.kind == 'x' && out[n-1].kind == 'x' {
				j := *i
				j.bytes = append(append([]byte(nil), out[n-1].bytes...), i.bytes...)
				out = append(append([]*emitItem(nil), out[:n-1]...), &j)
				break
			}
			out = append(out[:len(out):len(out)], i)
		}
	}
	e.memo[strconv.Itoa(emitNode(prop))+sink] = out
	return out
}

// conds lists the conditions that a path took.
func (e *Emit) conds(prop string) []*emitItem {
	var out []*emitItem
	for n := emitNode(prop); n > 0; n = e.lists[n].parent {
		if i := e.lists[n].item; i.kind == 'c' {
			out = append(out, i)
		}
	}
	return out
}

// cutItems divides items at an offset.
func cutItems(its []*emitItem, off poly) (head, tail []*emitItem, ok bool) {
	for k, i := range its {
		if off.sign() == 0 && off[""] == 0 {
			return its[:k:k], its[k:], true
		}
		l := i.length()
		if l == nil {
			return nil, nil, false
		}
		if off.sign() == 0 && off[""] > 0 && l.sign() == 0 && off[""] < l[""] {
			n := off[""]
			a, b := *i, *i
			switch i.kind {
			case 'x':
				a.bytes, b.bytes = i.bytes[:n], i.bytes[n:]
			case 'z':
				a.n, b.n = vInt(n), vInt(l[""]-n)
			case 'r':
				o, ok := i.off.intVal()
				if n%i.size != 0 || !ok {
					return nil, nil, false
				}
				a.n, b.n, b.off = vInt(n/i.size), vInt((l[""]-n)/i.size), vInt(o+n/i.size)
			default:
				bs := bytesOfItem(i)
				if int64(len(bs)) != l[""] {
					return nil, nil, false
				}
				h, t := its[:k:k], []*emitItem(nil)
				for j, x := range bs {
					if y := number(x, types.Typ[types.Uint8], 0); int64(j) < n {
						h = append(h, y)
					} else {
						t = append(t, y)
					}
				}
				return h, append(t, its[k+1:]...), true
			}
			return append(its[:k:k], &a), append([]*emitItem{&b}, its[k+1:]...), true
		}
		if rest := l.add(off, -1); i.kind == 'z' && rest.sign() >= 0 && (rest.sign() > 0 || rest[""] >= 0) && off.sign() >= 0 && rest[""] >= 0 {
			a, b := *i, *i
			a.n, b.n = off.val(), rest.val()
			return append(its[:k:k], &a), append([]*emitItem{&b}, its[k+1:]...), true
		}
		off = off.add(l, -1)
	}
	return its, nil, off.sign() == 0 && off[""] == 0
}

// part gives the bytes from off on, n of them.
func partItems(its []*emitItem, off, n *Val) ([]*emitItem, bool) {
	o, ok1 := polyOf(off)
	l, ok2 := polyOf(n)
	if !ok1 || !ok2 {
		return nil, false
	}
	_, t, ok := cutItems(its, o)
	if !ok {
		return nil, false
	}
	h, _, ok := cutItems(t, l)
	return h, ok
}

// buffer gives the name of the buffer that a pointer to a bytes.Buffer is for.
func (e *Emit) buffer(a *An, s *State, ptr *Val) string {
	if ptr.k == KIface {
		ptr = ptr.e[0]
	}
	if ptr.k != KPtr {
		return ""
	}
	o := a.obj(s, ptr.s, nil)
	v, ok := o.cells[ptr.p+".~b"]
	if ok && !o.multi {
		if v.k == KTok && strings.HasPrefix(v.s, "b!") {
			return v.s
		}
		return ""
	}
	if !o.zero || o.multi {
		return ""
	}
	return e.newBuffer(a, s, ptr)
}

func (e *Emit) newBuffer(a *An, s *State, ptr *Val, its ...*emitItem) string {
	b := "b!" + s.prop
	s.prop = e.addTo(s.prop, b, append([]*emitItem{{kind: 'n'}}, its...)...)
	o := a.obj(s, ptr.s, nil).clone()
	o.cells[ptr.p+".~b"] = tok(b)
	s.mem[ptr.s] = o
	return b
}

// bytes makes a slice of bytes that may be written over.
func (e *Emit) bytes(st *State, a *An, its []*emitItem) *Val {
	b := "b!" + st.prop
	st.prop = e.addTo(st.prop, b, &emitItem{kind: 'n', its: its})
	id := "Q<" + b[2:] + ">"
	a.obj(st, id, types.NewSlice(types.Typ[types.Uint8]))
	return vSlice(id, "", vInt(0), blobLen(its))
}

// bytesOfItem gives the bytes of an item one by one.
func bytesOfItem(i *emitItem) []*Val {
	var out []*Val
	n, _ := i.length().val().intVal()
	switch {
	case i.kind == 'x':
		for _, b := range i.bytes {
			out = append(out, vInt(int64(b)))
		}
	case i.kind == 'z' && n <= 4096:
		for range n {
			out = append(out, vInt(0))
		}
	case i.kind == 'e' && i.size == 1 && i.val.k == KTok && strings.HasPrefix(i.val.s, "y!"):
		out = append(out, i.val)
	case i.kind == 'e' && i.val.k == KTok:
		for k := range i.size {
			sh := 8 * k
			if i.order == 'B' {
				sh = 8 * (i.size - 1 - k)
			}
			s, num := bytesOf(i.val)
			if strings.HasPrefix(i.val.s, "d!float") {
				s, num = 0, i.val.s
			}
			if num != "" && s == 0 {
				out = append(out, tok("y!"+itoa(sh)+":"+num))
			}
		}
	}
	return out
}

// load gives the bytes of encodings, where they are known.
func (e *Emit) load(fr *Frame, in *ssa.UnOp, addr, v *Val, st *State) *Val {
	if addr.k != KPtr || !strings.HasPrefix(addr.s, "Q<") {
		return nil
	}
	n, err := strconv.ParseInt(strings.TrimSuffix(strings.TrimPrefix(addr.p, "["), "]"), 10, 64)
	if err != nil {
		return nil
	}
	for _, i := range e.contents(st.prop, "b!"+addr.s[2:len(addr.s)-1]) {
		p := i.length()
		if p == nil {
			return nil
		}
		l, ok := p.val().intVal()
		if !ok {
			return nil
		}
		if n < l {
			if bs := bytesOfItem(i); int64(len(bs)) == l {
				return bs[n]
			}
			return nil
		}
		n -= l
	}
	return nil
}

// make models the making of slices of bytes whose length is not known, or large.
func (e *Emit) make(fr *Frame, x *ssa.MakeSlice, n *Val, st *State) *Val {
	if fr.a.Lin == nil || !isSliceOf(x.Type(), types.Typ[types.Uint8]) {
		return nil
	}
	p, ok := polyOf(n)
	if !ok || p.sign() == 0 && p[""] <= 0 {
		return nil
	}
	return e.bytes(st, fr.a, []*emitItem{{kind: 'z', size: 1, n: n}})
}

// mergeBytes makes numbers of their bytes.
func mergeBytes(in []*emitItem) []*emitItem {
	var out []*emitItem
	for i := 0; i < len(in); i++ {
		it := in[i]
		if it.kind == 'e' && it.size == 1 && strings.HasPrefix(it.val.s, "y!") {
			sh, num := bytesOf(it.val)
			run := int64(1)
			step := int64(-8)
			if i+1 < len(in) && in[i+1].kind == 'e' && in[i+1].val.s == "y!"+itoa(sh+8)+":"+num {
				step = 8
			}
			for k := i + 1; k < len(in) && in[k].kind == 'e' && in[k].size == 1; k++ {
				if in[k].val.s != "y!"+itoa(sh+step*run)+":"+num {
					break
				}
				run++
			}
			for _, n := range []int64{8, 4, 2} {
				if run >= n && (step < 0 && sh == 8*(n-1) || step > 0 && sh == 0) {
					o := byte('B')
					if step > 0 {
						o = 'L'
					}
					out = append(out, &emitItem{kind: 'e', size: n, order: o, typ: "uint" + itoa(8*n), val: tok(num)})
					i += int(n) - 1
					it = nil
					break
				}
			}
			if it != nil && sh == 0 {
				j := *it
				j.val = tok(num)
				it = &j
			}
		}
		if it != nil && it.kind == 'z' {
			if n, ok := it.n.intVal(); ok && n < 1<<20 {
				if n == 0 {
					continue
				}
				it = &emitItem{kind: 'x', bytes: make([]byte, n)}
			}
		}
		if n := len(out); it != nil && it.kind == 'x' && n > 0 && out[n-1].kind == 'x' {
			out[n-1] = &emitItem{kind: 'x', bytes: append(append([]byte(nil), out[n-1].bytes...), it.bytes...)}
			continue
		}
		if it != nil {
			out = append(out, it)
		}
	}
	return out
}

// put models the functions of encoding/binary that encode one number in memory.
func (e *Emit) put(c *Call) ([]Out, bool) {
	a, st := c.a, c.st
	i := strings.LastIndexByte(c.name, '.')
	if i < 0 || len(c.args) != 3 {
		return nil, false
	}
	var order byte
	switch strings.TrimPrefix(c.name[:i], "(*") {
	case "(encoding/binary.bigEndian)":
		order = 'B'
	case "(encoding/binary.littleEndian)":
		order = 'L'
	default:
		return nil, false
	}
	m := c.name[i+1:]
	j := strings.Index(m, "Uint")
	if j < 0 {
		return nil, false
	}
	bits, err := strconv.ParseInt(m[j+4:], 10, 64)
	if err != nil {
		return nil, false
	}
	var bs []*Val
	for k := int64(0); k < bits/8; k++ {
		sh := 8 * k
		if order == 'B' {
			sh = bits - 8 - sh
		}
		x := top
		if n, ok := bitsOf(c.args[2]); ok {
			x = vInt(int64(byte(n >> uint(sh))))
		} else if s, num := bytesOf(c.args[2]); num != "" && s == 0 {
			x = tok("y!" + itoa(sh) + ":" + num)
		}
		bs = append(bs, x)
	}
	s := st.clone()
	switch m[:j] {
	case "Put":
		b := c.args[1]
		if b.k != KSlice {
			return nil, false
		}
		if strings.HasPrefix(b.s, "Q<") {
			it := number(c.args[2], types.Typ[map[int64]types.BasicKind{16: types.Uint16, 32: types.Uint32, 64: types.Uint64}[bits]], order)
			e.patch(s, b, 0, it)
			return []Out{{res: vTuple(), st: s, prop: s.prop}}, true
		}
		off, ok := b.e[0].intVal()
		if !ok {
			return nil, false
		}
		o := a.obj(s, b.s, nil).clone()
		for k, x := range bs {
			a.storeAt(o, b.s, b.p+"["+itoa(off+int64(k))+"]", x, types.Typ[types.Uint8])
		}
		s.mem[b.s] = o
		return []Out{{res: vTuple(), st: s, prop: s.prop}}, true
	case "Append":
		t := types.NewSlice(types.Typ[types.Uint8])
		add := knownSlice(s, "Y<"+a.site(c.site)+">", t, bs...)
		if r := a.concatKnown(s, c.site, t, c.args[1], add); r != nil {
			return []Out{{res: r, st: s, prop: s.prop}}, true
		}
	}
	return nil, false
}

// patch writes over part of what is in a buffer.
func (e *Emit) patch(s *State, b *Val, at int64, its ...*emitItem) {
	off := top
	if p, ok := polyOf(b.e[0]); ok {
		off = p.add(poly{"": at}, 1).val()
	}
	s.prop = e.addTo(s.prop, "b!"+b.s[2:len(b.s)-1], &emitItem{kind: 'p', off: off, its: its})
}

// bitsOf gives a constant as bits.
func bitsOf(v *Val) (uint64, bool) {
	if n, ok := v.intVal(); ok {
		return uint64(n), true
	}
	if v.isConst() {
		if c := constant.ToInt(v.c); c.Kind() == constant.Int {
			return constant.Uint64Val(c)
		}
	}
	return 0, false
}

func unknownItem(why string) []*emitItem { return []*emitItem{{kind: '?', why: why}} }

func numSize(t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8, types.Bool:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32, types.Float32:
		return 4
	case types.Int64, types.Uint64, types.Float64:
		return 8
	}
	return 0
}

// number encodes one number.
func number(v *Val, t types.Type, order byte) *emitItem {
	size := numSize(t)
	if size == 0 {
		return unknownItem("value of type " + typeString(t))[0]
	}
	if size == 1 {
		order = 0
	} else if order == 0 {
		return unknownItem("unknown byte order")[0]
	}
	if n, ok := bitsOf(v); ok && !isFloat(t) {
		b := make([]byte, size)
		for i := range b {
			s := uint(8 * i)
			if order == 'B' {
				s = uint(8 * (int(size) - 1 - i))
			}
			b[i] = byte(n >> s)
		}
		return &emitItem{kind: 'x', bytes: b}
	}
	if v.isConst() && isFloat(t) && (v.c.Kind() == constant.Float || v.c.Kind() == constant.Int) {
		f, _ := constant.Float64Val(v.c)
		n := math.Float64bits(f)
		it := types.Typ[types.Uint64]
		if size == 4 {
			n, it = uint64(math.Float32bits(float32(f))), types.Typ[types.Uint32]
		}
		return number(&Val{k: KConst, c: constant.MakeUint64(n)}, it, order)
	}
	if v.k == KConst {
		if b, ok := v.boolVal(); ok {
			return &emitItem{kind: 'x', bytes: map[bool][]byte{true: {1}, false: {0}}[b]}
		}
	}
	if v.k == KTok || v.k == KConst {
		return &emitItem{kind: 'e', size: size, order: order, typ: typeString(t.Underlying()), val: v}
	}
	return unknownItem("a number that is not known")[0]
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// encode gives what encoding/binary makes of a value.
func (e *Emit) encode(a *An, st *State, v *Val, t types.Type, order byte) []*emitItem {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return []*emitItem{number(v, t, order)}
	case *types.Pointer:
		if v.k == KPtr {
			return e.encode(a, st, a.load(st, v, u.Elem()), u.Elem(), order)
		}
	case *types.Struct:
		if v.k == KStruct {
			var out []*emitItem
			for i := 0; i < u.NumFields(); i++ {
				out = append(out, e.encode(a, st, v.e[i], u.Field(i).Type(), order)...)
			}
			return out
		}
	case *types.Slice:
		if v.k == KSlice {
			return e.elements(a, st, v, u.Elem(), order)
		}
		if v.k == KNil {
			return nil
		}
	}
	return unknownItem("value of type " + typeString(t))
}

// elements gives the encoding of the elements of a slice.
func (e *Emit) elements(a *An, st *State, v *Val, et types.Type, order byte) []*emitItem {
	size := numSize(et)
	if size == 1 {
		order = 0
	}
	n, ok := v.e[1].intVal()
	off, ok2 := v.e[0].intVal()
	if ok && n == 0 {
		return nil
	}
	its, isBlob := e.blobs[v.s]
	if strings.HasPrefix(v.s, "Q<") {
		its, isBlob = e.contents(st.prop, "b!"+v.s[2:len(v.s)-1]), true
	}
	if isBlob {
		if h, ok := partItems(its, v.e[0], v.e[1]); ok {
			return h
		}
		return unknownItem("part of an encoded value")
	}
	if strings.HasPrefix(v.s, "P<s!") && ok2 && off == 0 && v.p == "" && size == 1 {
		s := v.s[2 : len(v.s)-1]
		if a.Lin != nil && a.Lin.lenOf(s).Key() == v.e[1].Key() {
			return a.Lin.stringItems(tok(s))
		}
	}
	if strings.HasPrefix(v.s, "V<") {
		// data of the scenario
		if size == 0 {
			return unknownItem("elements of type " + typeString(et))
		}
		if order == 0 && size > 1 {
			return unknownItem("unknown byte order")
		}
		return []*emitItem{{kind: 'r', size: size, order: order, typ: typeString(et.Underlying()), from: v.s + v.p, off: v.e[0], n: v.e[1]}}
	}
	o := a.obj(st, v.s, nil)
	if o.zero && !o.multi && size > 0 && (!ok || n > 64) {
		clean := true
		for p := range o.cells {
			if strings.HasPrefix(p, v.p+"[") {
				clean = false
			}
		}
		if p, ok := polyOf(v.e[1]); ok && clean {
			return []*emitItem{{kind: 'z', size: 1, n: p.mul(poly{"": size}).val()}}
		}
	}
	if ok && ok2 && n <= 4096 && size > 0 {
		var out []*emitItem
		for i := int64(0); i < n; i++ {
			x := o.get(v.s, v.p+"["+itoa(off+i)+"]")
			it := number(x, et, order)
			if it.kind == 'e' && size == 1 && strings.HasPrefix(x.s, "u") {
				it = unknownItem("a byte of " + v.s)[0]
			}
			out = append(out, it)
		}
		return out
	}
	return unknownItem("elements of " + v.s)
}

func blobLen(its []*emitItem) *Val {
	p := poly{}
	for _, i := range its {
		l := i.length()
		if l == nil {
			return top
		}
		p = p.add(l, 1)
	}
	return p.val()
}

// blob makes a slice of bytes that holds an encoding.
func (e *Emit) blob(a *An, st *State, its []*emitItem) *Val {
	k := "Z<"
	for _, i := range its {
		k += strconv.Itoa(e.intern(i)) + "."
	}
	k += ">"
	e.blobs[k] = its
	a.obj(st, k, types.NewSlice(types.Typ[types.Uint8]))
	return vSlice(k, "", vInt(0), blobLen(its))
}

func (e *Emit) intern(i *emitItem) int {
	k := "i" + i.key()
	n, ok := e.index[k]
	if !ok {
		n = len(e.index)
		e.index[k] = n
	}
	return n
}

func byteOrder(v *Val) byte {
	if v.k == KIface {
		switch typeString(v.t) {
		case "binary.bigEndian", "encoding/binary.bigEndian":
			return 'B'
		case "binary.littleEndian", "encoding/binary.littleEndian":
			return 'L'
		}
		// the order of the machine is the one it embeds
		if s := isStruct(v.t); s != nil && s.NumFields() == 1 && s.Field(0).Embedded() {
			return byteOrder(&Val{k: KIface, t: s.Field(0).Type()})
		}
	}
	return 0
}

// hook follows what is written to files and buffers, through encoding/binary and the writers of the
// module.
func (e *Emit) hook(c *Call) ([]Out, bool) {
	a, st := c.a, c.st
	byteT := types.Typ[types.Uint8]
	// the writer, as a sink; false: it is not known
	sink := func(s *State, w *Val) (string, bool) {
		if w.k == KIface {
			if t := derefType(w.t); t != nil && namedIs(t, "bytes.Buffer") {
				b := e.buffer(a, s, w)
				return b, b != ""
			}
		}
		if w.k == KPtr || w.k == KIface {
			if o := st.mem[ptrOf(w).s]; o != nil && o.typ != nil && namedIs(o.typ, "bytes.Buffer") {
				b := e.buffer(a, s, w)
				return b, b != ""
			}
		}
		return "", true
	}
	write := func(w *Val, its []*emitItem) (*State, bool) {
		s := st.clone()
		b, ok := sink(s, w)
		if !ok {
			its = unknownItem("something is written to a buffer that is not known")
			b = ""
		}
		s.prop = e.addTo(s.prop, b, its...)
		if e.lists[emitNode(s.prop)].depth > 20000 {
			e.over = true
			return nil, false
		}
		return s, true
	}
	written := func(w, v *Val, its []*emitItem) []Out {
		n := top
		if v.k == KSlice {
			n = v.e[1]
		} else if v.k == KNil {
			n = vInt(0)
		}
		if p := blobLen(its); n.k == KTop && len(its) > 0 {
			n = p
		}
		s, ok := write(w, its)
		if !ok {
			return nil
		}
		return []Out{{res: vTuple(n, vNil), st: s, prop: s.prop}}
	}
	errOnly := func(outs []Out) []Out {
		for i := range outs {
			outs[i].res = vNil
		}
		return outs
	}
	text := func(v *Val) []*emitItem {
		if s, ok := v.strVal(); ok {
			if s == "" {
				return nil
			}
			return []*emitItem{{kind: 'x', bytes: []byte(s)}}
		}
		if isSym(v) && a.Lin != nil {
			return a.Lin.stringItems(v)
		}
		return unknownItem("a string")
	}
	raw := func(v *Val) []*emitItem {
		if v.k == KNil {
			return nil
		}
		if v.k != KSlice {
			return unknownItem("unknown bytes")
		}
		return e.elements(a, st, v, byteT, 0)
	}
	done := func(s *State, res *Val) []Out { return []Out{{res: res, st: s, prop: s.prop}} }
	if outs, ok := e.put(c); ok {
		return outs, true
	}
	switch c.name {
	case "encoding/binary.Write":
		if len(c.args) < 3 {
			return nil, false
		}
		var its []*emitItem
		if d := c.args[2]; d.k == KIface {
			its = e.encode(a, st, d.e[0], d.t, byteOrder(c.args[1]))
		} else {
			its = unknownItem("a value of unknown type")
		}
		w := c.args[0]
		if f, recv := a.p.methodOf(w, "Write"); f != nil && a.p.analysable(f) {
			outs := c.through(f, recv, e.blob(a, st, its))
			for i := range outs {
				if r := outs[i].res; r != nil && r.k == KTuple {
					outs[i].res = r.e[1]
				}
			}
			return outs, true
		}
		return errOnly(written(w, nonNil(""), its)), true
	case "(*bufio.Writer).Write", "(*os.File).Write", "(*bytes.Buffer).Write":
		return written(c.args[0], c.args[1], raw(c.args[1])), true
	case "(*bufio.Writer).WriteString", "(*os.File).WriteString", "(*bytes.Buffer).WriteString":
		its := text(c.args[1])
		return written(c.args[0], vSlice("", "", vInt(0), blobLen(its)), its), true
	case "io.WriteString":
		if f, _ := a.p.methodOf(c.args[0], "Write"); f == nil || !a.p.analysable(f) {
			its := text(c.args[1])
			return written(c.args[0], vSlice("", "", vInt(0), blobLen(its)), its), true
		}
	case "(*bufio.Writer).WriteByte", "(*bytes.Buffer).WriteByte":
		return errOnly(written(c.args[0], nonNil(""), []*emitItem{number(c.args[1], byteT, 0)})), true
	case "bytes.NewBuffer", "bytes.NewBufferString":
		s := st.clone()
		id := a.alloc(s, c.site, derefType(c.site.Value().Type()))
		var its []*emitItem
		if c.name == "bytes.NewBuffer" {
			its = raw(c.args[0])
		} else {
			its = text(c.args[0])
		}
		e.newBuffer(a, s, vPtr(id, ""), its...)
		return done(s, vPtr(id, "")), true
	case "(*bytes.Buffer).Len", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*bytes.Buffer).Reset", "(*bytes.Buffer).Grow", "(*bytes.Buffer).WriteTo", "(*bytes.Buffer).Truncate":
		s := st.clone()
		b := e.buffer(a, s, c.args[0])
		if b == "" {
			if strings.HasSuffix(c.name, "Grow") {
				return done(s, nil), true
			}
			s.prop = e.add(s.prop, unknownItem("a buffer that is not known is used")...)
			return done(s, nil), true
		}
		n := blobLen(e.contents(s.prop, b))
		switch c.name[len("(*bytes.Buffer)."):] {
		case "Len":
			return done(s, n), true
		case "Bytes":
			id := "Q<" + b[2:] + ">"
			a.obj(s, id, types.NewSlice(byteT))
			return done(s, vSlice(id, "", vInt(0), n)), true
		case "Reset":
			s.prop = e.addTo(s.prop, b, &emitItem{kind: 't'})
		case "Truncate":
			k, ok := c.args[1].intVal()
			keep, ok2 := partItems(e.contents(s.prop, b), vInt(0), vInt(k))
			if !ok || !ok2 {
				keep = unknownItem("the end of a buffer is cut off")
			}
			s.prop = e.addTo(s.prop, b, append([]*emitItem{{kind: 't'}}, keep...)...)
		case "WriteTo":
			its := e.contents(s.prop, b)
			if f, recv := a.p.methodOf(c.args[1], "Write"); f != nil && a.p.analysable(f) {
				return c.through(f, recv, e.blob(a, s, its)), true
			}
			w, ok := sink(s, c.args[1])
			if !ok {
				its = unknownItem("something is written to a buffer that is not known")
			}
			s.prop = e.addTo(s.prop, w, its...)
			s.prop = e.addTo(s.prop, b, &emitItem{kind: 't'})
			return done(s, vTuple(n, vNil)), true
		case "String":
			its := e.contents(s.prop, b)
			if len(its) == 0 {
				return done(s, vStr("")), true
			}
			if len(its) == 1 && its[0].kind == 's' {
				return done(s, its[0].val), true
			}
			if len(its) == 1 && its[0].kind == 'x' {
				return done(s, vStr(string(its[0].bytes))), true
			}
			return done(s, nil), true
		}
		return done(s, nil), true
	case "builtin.append":
		// lists of bytes that are not known one by one
		sl, ok := c.site.Common().Args[0].Type().Underlying().(*types.Slice)
		if !ok || !isByte(sl.Elem()) || len(c.args) != 2 || a.Lin == nil {
			return nil, false
		}
		plain := true
		var its []*emitItem
		for i, v := range c.args {
			switch {
			case v.k == KNil:
				continue
			case v.k == KSlice:
				if n, ok := v.e[1].intVal(); !ok || n > 40 || len(v.s) > 1 && strings.Contains("P<Z<Q<V<", v.s[:2]) {
					plain = false
				}
				its = append(its, raw(v)...)
			case i == 1 && (isSym(v) || v.isConst()):
				plain = false
				its = append(its, text(v)...)
			default:
				return nil, false
			}
		}
		if plain {
			return nil, false
		}
		for _, i := range its {
			if i.kind == '?' {
				return nil, false
			}
		}
		s := st.clone()
		return done(s, e.bytes(s, a, its)), true
	case "bytes.Repeat":
		p, ok := polyOf(c.args[1])
		its := raw(c.args[0])
		if a.Lin == nil || !ok || p.sign() == -1 || p.sign() == 0 && p[""] < 0 || len(its) != 1 || its[0].key() != number(vInt(0), byteT, 0).key() {
			return nil, false
		}
		s := st.clone()
		return done(s, e.bytes(s, a, []*emitItem{{kind: 'z', size: 1, n: p.val()}})), true
	case "builtin.copy":
		if d := c.args[0]; d.k == KSlice && strings.HasPrefix(d.s, "Q<") {
			its := raw(c.args[1])
			if v := c.args[1]; v.isConst() || isSym(v) {
				its = text(v)
			}
			s := st.clone()
			n := blobLen(its)
			if p, ok := polyOf(d.e[1]); ok {
				if q, ok := polyOf(n); !ok || q.add(p, -1).sign() != 0 && q.add(p, -1).sign() != -1 || q.add(p, -1)[""] > 0 {
					its = unknownItem("part of something is copied")
				}
			}
			e.patch(s, d, 0, its...)
			return done(s, n), true
		} else if d.k == KSlice {
			// into an array
			var bs []*Val
			var its []*emitItem
			if v := c.args[1]; v.k == KSlice && (strings.HasPrefix(v.s, "Q<") || strings.HasPrefix(v.s, "Z<")) {
				its = raw(v)
			} else if v.isConst() {
				its = text(v)
			} else {
				return nil, false
			}
			for _, i := range its {
				bs = append(bs, bytesOfItem(i)...)
			}
			dn, ok1 := d.e[1].intVal()
			off, ok2 := d.e[0].intVal()
			if n, ok := blobLen(its).intVal(); !ok || !ok1 || !ok2 || int64(len(bs)) != n || n > 4096 {
				return nil, false
			}
			s := st.clone()
			o := a.obj(s, d.s, nil).clone()
			bs = bs[:min(dn, int64(len(bs)))]
			for k, x := range bs {
				a.storeAt(o, d.s, d.p+"["+itoa(off+int64(k))+"]", x, byteT)
			}
			s.mem[d.s] = o
			return done(s, vInt(int64(len(bs)))), true
		}
	case "(*bufio.Writer).Flush", "(*os.File).Close", "(*os.File).Sync":
		return []Out{{res: vNil}}, true
	case "(*os.File).WriteAt", "(*os.File).Seek", "(*os.File).Truncate", "(*bufio.Writer).ReadFrom", "(*os.File).ReadFrom", "(*bytes.Buffer).ReadFrom":
		s := st.clone()
		s.prop = e.add(st.prop, unknownItem(c.name)...)
		return []Out{{st: s, prop: s.prop}}, true
	case "os.Create", "os.OpenFile":
		return []Out{{res: vTuple(nonNil("file"), vNil)}}, true
	case "bufio.NewWriter", "bufio.NewWriterSize":
		return []Out{{res: nonNil("bufio")}}, true
	}
	return nil, false
}

func ptrOf(v *Val) *Val {
	if v.k == KIface {
		return v.e[0]
	}
	return v
}

// store follows bytes that are written over in a buffer.
func (e *Emit) store(fr *Frame, in ssa.Instruction, ptr, v *Val, st *State) {
	if ptr.k != KPtr || !strings.HasPrefix(ptr.s, "Q<") {
		return
	}
	i := strings.TrimSuffix(strings.TrimPrefix(ptr.p, "["), "]")
	n, err := strconv.ParseInt(i, 10, 64)
	b := vSlice(ptr.s, "", top, top)
	if err == nil {
		b = vSlice(ptr.s, "", vInt(n), top)
	}
	e.patch(st, b, 0, number(v, types.Typ[types.Uint8], 0))
}
