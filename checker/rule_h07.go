package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"slices"

	"golang.org/x/tools/go/ssa"
)

// H07: values and slices of HDF5 variables are the bytes at the positions that the layout gives them.

func init() {
	rules["H07"] = ruleH07
}

const (
	h5Data = 0x10000 // where the data is
	h5Size = 0x20000

	compactValue = 0x11 // the first element that is in the header
)

// An h5Image is the metadata of a small file.
type h5Image struct {
	b []byte
}

func (m *h5Image) num(v uint64, size int) {
	for i := range size {
		m.b = append(m.b, byte(v>>(8*i)))
	}
}

func (m *h5Image) str(s string) { m.b = append(m.b, s...) }

func (m *h5Image) sum(from int) { m.num(uint64(lookup3(m.b[from:])), 4) }

// lookup3 is the checksum of the format.
func lookup3(k []byte) uint32 {
	rot := func(x uint32, n uint) uint32 { return x<<n | x>>(32-n) }
	a := 0xdeadbeef + uint32(len(k))
	b, c := a, a
	word := func(p []byte) uint32 {
		var w [4]byte
		copy(w[:], p)
		return binary.LittleEndian.Uint32(w[:])
	}
	part := func(i int) []byte {
		if i > len(k) {
			return nil
		}
		return k[i:]
	}
	for len(k) > 12 {
		a += word(k)
		b += word(k[4:])
		c += word(k[8:])
		a -= c
		a ^= rot(c, 4)
		c += b
		b -= a
		b ^= rot(a, 6)
		a += c
		c -= b
		c ^= rot(b, 8)
		b += a
		a -= c
		a ^= rot(c, 16)
		c += b
		b -= a
		b ^= rot(a, 19)
		a += c
		c -= b
		c ^= rot(b, 4)
		b += a
		k = k[12:]
	}
	if len(k) == 0 {
		return c
	}
	a += word(part(0))
	b += word(part(4))
	c += word(part(8))
	c ^= b
	c -= rot(b, 14)
	a ^= c
	a -= rot(c, 11)
	b ^= a
	b -= rot(a, 25)
	c ^= b
	c -= rot(b, 16)
	a ^= c
	a -= rot(c, 4)
	b ^= a
	b -= rot(a, 14)
	c ^= b
	c -= rot(b, 24)
	return c
}

type h5Type struct {
	name string
	size int64
	elem types.BasicKind
	big  bool
	msg  func(m *h5Image)
}

// h5Fixed is the datatype of integers.
func h5Fixed(name string, size int64, kind types.BasicKind, signed, big bool) h5Type {
	return h5Type{name, size, kind, big, func(m *h5Image) {
		bits := uint64(0)
		if big {
			bits |= 1
		}
		if signed {
			bits |= 8
		}
		m.num(0x10, 1)
		m.num(bits, 3)
		m.num(uint64(size), 4)
		m.num(0, 2)
		m.num(uint64(8*size), 2)
	}}
}

type h5Filter struct {
	id   int64
	args []int64
}

// An h5Var is a variable of a file that the rule made up.
type h5Var struct {
	name    string
	typ     h5Type
	dims    []int64
	chunk   []int64 // nil: contiguous
	levels  bool    // two levels of the index
	filters []h5Filter
	masks   []uint64 // filters that are left out, of each chunk
	missing []int    // chunks
	fill    int64    // what is in them, if not zero
	compact bool
	none    bool  // no data
	at      int64 // where its data is
}

func (v *h5Var) String() string {
	s := fmt.Sprintf("%s, dimensions %v", v.typ.name, v.dims)
	if v.chunk != nil {
		s += fmt.Sprintf(", chunks %v", v.chunk)
	}
	if v.compact {
		s += ", compact"
	}
	if v.none {
		s += ", without data"
	}
	if v.levels {
		s += ", two levels"
	}
	for _, f := range v.filters {
		s += fmt.Sprintf(", filter %d", f.id)
	}
	if v.masks != nil {
		s += fmt.Sprintf(", masks %v", v.masks)
	}
	if v.missing != nil {
		s += fmt.Sprintf(", without the chunks %v", v.missing)
	}
	if v.fill != 0 {
		s += fmt.Sprintf(", fill value %d", v.fill)
	}
	return s
}

// header writes an object header.
func (m *h5Image) header(messages func(msg func(kind int, body func()))) uint64 {
	at := len(m.b)
	m.str("OHDR")
	m.num(2, 1)
	m.num(2, 1) // the size has four bytes
	sizeAt := len(m.b)
	m.num(0, 4)
	start := len(m.b)
	messages(func(kind int, body func()) {
		m.num(uint64(kind), 1)
		from := len(m.b)
		m.num(0, 2)
		m.num(0, 1)
		body()
		binary.LittleEndian.PutUint16(m.b[from:], uint16(len(m.b)-from-3))
	})
	binary.LittleEndian.PutUint32(m.b[sizeAt:], uint32(len(m.b)-start))
	m.sum(at)
	return uint64(at)
}

// variable writes the header of a variable and its index.
func (m *h5Image) variable(v *h5Var) uint64 {
	tree := ^uint64(0)
	if v.chunk != nil && !v.none {
		tree = m.index(v)
	}
	return m.header(func(msg func(int, func())) {
		msg(1, func() {
			m.num(2, 1)
			m.num(uint64(len(v.dims)), 1)
			m.num(0, 1)
			if len(v.dims) == 0 {
				m.num(0, 1)
			} else {
				m.num(1, 1)
			}
			for _, d := range v.dims {
				m.num(uint64(d), 8)
			}
		})
		msg(3, func() { v.typ.msg(m) })
		if v.fill != 0 {
			msg(5, func() {
				m.num(3, 1)
				m.num(1|2<<2|1<<5, 1)
				m.num(uint64(v.typ.size), 4)
				m.b = append(m.b, v.number(v.fill)...)
			})
		}
		if v.filters != nil {
			msg(11, func() {
				m.num(2, 1)
				m.num(uint64(len(v.filters)), 1)
				for _, f := range v.filters {
					m.num(uint64(f.id), 2)
					m.num(0, 2)
					m.num(uint64(len(f.args)), 2)
					for _, a := range f.args {
						m.num(uint64(a), 4)
					}
				}
			})
		}
		msg(8, func() {
			m.num(3, 1)
			if v.compact {
				m.num(0, 1)
				m.num(uint64(v.bytes()), 2)
				for i := range v.bytes() / v.typ.size {
					m.b = append(m.b, v.number(compactValue+i)...)
				}
				return
			}
			if v.chunk == nil {
				m.num(1, 1)
				if v.none {
					m.num(^uint64(0), 8)
				} else {
					m.num(uint64(v.at), 8)
				}
				m.num(uint64(v.bytes()), 8)
				return
			}
			m.num(2, 1)
			m.num(uint64(len(v.chunk)+1), 1)
			m.num(tree, 8)
			for _, c := range v.chunk {
				m.num(uint64(c), 4)
			}
			m.num(uint64(v.typ.size), 4)
		})
	})
}

func (v *h5Var) bytes() int64 {
	n := v.typ.size
	for _, d := range v.dims {
		n *= d
	}
	return n
}

// chunks gives the offsets of the chunks, in order.
func (v *h5Var) chunks() (all [][]int64) {
	all = [][]int64{nil}
	for k, d := range v.dims {
		var next [][]int64
		for _, o := range all {
			for i := int64(0); i < d; i += v.chunk[k] {
				next = append(next, append(o[:len(o):len(o)], i))
			}
		}
		all = next
	}
	return all
}

func (v *h5Var) chunkBytes() int64 {
	n := v.typ.size
	for _, d := range v.chunk {
		n *= d
	}
	return n
}

// chunkAt is where a chunk is: not in the order of the index.
func (v *h5Var) chunkAt(i int) int64 {
	n := len(v.chunks())
	return v.at + int64((n-1-i))*(v.chunkBytes()+32)
}

// number gives the bytes of a number.
func (v *h5Var) number(n int64) []byte {
	b := make([]byte, v.typ.size)
	for i := range b {
		k := i
		if v.typ.big {
			k = len(b) - 1 - i
		}
		b[k] = byte(n >> (8 * i))
	}
	return b
}

// applied tells whether a filter was applied to a chunk.
func (v *h5Var) applied(i, filter int) bool {
	return i >= len(v.masks) || v.masks[i]>>filter&1 == 0
}

// stored is the size of a chunk in the file.
func (v *h5Var) stored(i int) int64 {
	n := v.chunkBytes()
	for j, f := range v.filters {
		if f.id == 3 && v.applied(i, j) {
			n += 4
		}
	}
	return n
}

// contents gives the position in the file of each byte of a chunk.
func (v *h5Var) contents(i int) []int64 {
	var b []int64
	for k := range v.stored(i) {
		b = append(b, v.chunkAt(i)+k)
	}
	for j := len(v.filters) - 1; j >= 0; j-- {
		if !v.applied(i, j) {
			continue
		}
		switch v.filters[j].id {
		case 1: // what is deflated is taken to be what it was, from its end
			slices.Reverse(b)
		case 2:
			out := make([]int64, len(b))
			n, size := int64(len(b))/v.typ.size, v.typ.size
			for k := range n {
				for s := range size {
					out[k*size+s] = b[s*n+k]
				}
			}
			b = out
		case 3:
			b = b[:len(b)-4]
		}
	}
	return b
}

// elem gives an element.
func (v *h5Var) elem(d *dataFile, idx []int64) *Val {
	lin, chunk, in := int64(0), int64(0), int64(0)
	for k, i := range idx {
		lin = lin*v.dims[k] + i
		if v.chunk != nil {
			chunk = chunk*((v.dims[k]+v.chunk[k]-1)/v.chunk[k]) + i/v.chunk[k]
			in = in*v.chunk[k] + i%v.chunk[k]
		}
	}
	if v.compact {
		return vInt(compactValue + lin)
	}
	if v.none || v.chunk != nil && slices.Contains(v.missing, int(chunk)) {
		return vInt(v.fill)
	}
	var bs []*Val
	for k := range v.typ.size {
		at := v.at + lin*v.typ.size + k
		if v.chunk != nil {
			at = v.contents(int(chunk))[in*v.typ.size+k]
		}
		bs = append(bs, byteAt(poly{"": at}))
	}
	if v.typ.big {
		return d.number(bs, 'B')
	}
	return d.number(bs, 'L')
}

func (m *h5Image) index(v *h5Var) uint64 {
	type entry struct {
		at    []int64
		size  int64
		mask  uint64
		child uint64
	}
	var all []entry
	for i, o := range v.chunks() {
		if slices.Contains(v.missing, i) {
			continue
		}
		mask := uint64(0)
		if i < len(v.masks) {
			mask = v.masks[i]
		}
		all = append(all, entry{o, v.stored(i), mask, uint64(v.chunkAt(i))})
	}
	no := ^uint64(0)
	// node writes the entries of a node, and then the key of what follows.
	node := func(level int, es []entry, next []int64, left, right uint64) uint64 {
		at := uint64(len(m.b))
		m.str("TREE")
		m.num(1, 1)
		m.num(uint64(level), 1)
		m.num(uint64(len(es)), 2)
		m.num(left, 8)
		m.num(right, 8)
		key := func(e entry) {
			m.num(uint64(e.size), 4)
			m.num(e.mask, 4)
			for _, x := range e.at {
				m.num(uint64(x), 8)
			}
			m.num(0, 8)
		}
		for _, e := range es {
			key(e)
			m.num(e.child, 8)
		}
		key(entry{at: next})
		return at
	}
	last := make([]int64, len(v.dims))
	for k := range last {
		last[k] = (v.dims[k] + v.chunk[k] - 1) / v.chunk[k] * v.chunk[k]
	}
	if !v.levels {
		return node(0, all, last, no, no)
	}
	half := len(all) / 2
	size := uint64(24 + (half+1)*(8+8*(len(v.dims)+1)) + half*8)
	from := uint64(len(m.b))
	a := node(0, all[:half], all[half].at, no, from+size)
	b := node(0, all[half:], last, a, no)
	if b != from+size {
		panic("the size of a node")
	}
	one, two := all[0], all[half]
	one.child, two.child = a, b
	return node(1, []entry{one, two}, last, no, no)
}

// file makes a file of one variable.
func h5File(v *h5Var) *h5Image {
	m := &h5Image{}
	m.str("\x89HDF\r\n\x1a\n")
	m.num(2, 1)
	m.num(8, 1)
	m.num(8, 1)
	m.num(0, 1)
	m.num(0, 8)
	m.num(^uint64(0), 8)
	m.num(h5Size, 8)
	rootAt := len(m.b)
	m.num(0, 8)
	m.num(0, 4)
	a := m.variable(v)
	root := m.header(func(msg func(int, func())) {
		msg(6, func() {
			m.num(1, 1)
			m.num(0, 1)
			m.num(uint64(len(v.name)), 1)
			m.str(v.name)
			m.num(a, 8)
		})
	})
	binary.LittleEndian.PutUint64(m.b[rootAt:], root)
	binary.LittleEndian.PutUint32(m.b[rootAt+8:], lookup3(m.b[:rootAt+8]))
	return m
}

func ruleH07(p *Prog, r *Report) {
	r.explain("The exported functions of the HDF5 package that open a file are interpreted abstractly on the metadata of small files, made by the rule: variables of every integer and floating point type in both byte orders, of zero to three dimensions, contiguous, compact or in chunks of several shapes (whole, partial, larger than the data, missing) that are found by an index of one or two levels, with filters (shuffle, deflate, fletcher32, in several orders, left out for some chunks) and fill values. What is not metadata is a symbol for each byte of the file. On the object that results, the methods that give values (all of them, a part of the first dimension, a part of each dimension, a whole variable) are interpreted with the bounds given. Each element of the result has to be made of the bytes at the positions that the format gives the element (after the filters), in the byte order of its type, or be the fill value, in nested slices of the right type and lengths. Inflating is taken to be the reversal of the bytes, so that it does not commute with the other filters.")
	base := p.initBase()
	n, files := 0, 0
	for _, f := range p.readerOpeners("netcdf/hdf5") {
		files++
		for _, v := range h5Vars() {
			n += p.h5Data(r, base, f, &v)
		}
	}
	r.minimum("values", n, 300)
	r.minimum("functions that open a file", files, 1)
}

// h5Float is the datatype of floating point numbers.
func h5Float(name string, size int64, kind types.BasicKind, big bool) h5Type {
	return h5Type{name, size, kind, big, func(m *h5Image) {
		bits := uint64(0x20 | (8*size-1)<<8)
		if big {
			bits |= 1
		}
		exp, mant, bias := uint64(8), uint64(23), uint64(127)
		if size == 8 {
			exp, mant, bias = 11, 52, 1023
		}
		m.num(0x11, 1)
		m.num(bits, 3)
		m.num(uint64(size), 4)
		m.num(0, 2)
		m.num(uint64(8*size), 2)
		m.num(mant, 1)
		m.num(exp, 1)
		m.num(0, 1)
		m.num(mant, 1)
		m.num(bias, 4)
	}}
}

func h5Vars() (all []h5Var) {
	add := func(v h5Var) {
		v.name, v.at = "v", h5Data
		all = append(all, v)
	}
	i4 := h5Fixed("int", 4, types.Int32, true, false)
	i2 := h5Fixed("big-endian short", 2, types.Int16, true, true)
	typs := []h5Type{
		i4, i2,
		h5Fixed("byte", 1, types.Int8, true, false),
		h5Fixed("ubyte", 1, types.Uint8, false, false),
		h5Fixed("ushort", 2, types.Uint16, false, false),
		h5Fixed("big-endian uint", 4, types.Uint32, false, true),
		h5Fixed("int64", 8, types.Int64, true, false),
		h5Fixed("big-endian uint64", 8, types.Uint64, false, true),
		h5Float("float", 4, types.Float32, false),
		h5Float("big-endian double", 8, types.Float64, true),
	}
	for _, t := range typs {
		add(h5Var{typ: t})
		add(h5Var{typ: t, dims: []int64{3}})
		add(h5Var{typ: t, dims: []int64{2, 3}})
		add(h5Var{typ: t, dims: []int64{3, 3}, chunk: []int64{2, 2}})
	}
	add(h5Var{typ: i4, dims: []int64{2, 3, 2}})
	add(h5Var{typ: i4, dims: []int64{2, 2}, compact: true})
	add(h5Var{typ: i2, dims: []int64{3}, compact: true})
	for _, d := range [][2][]int64{
		{{4}, {2}}, {{5}, {2}}, {{2}, {5}},
		{{3, 4}, {1, 4}}, {{3, 4}, {1, 2}}, {{4, 4}, {2, 2}}, {{3, 5}, {2, 2}}, {{5, 3}, {2, 3}}, {{2, 3}, {3, 4}},
		{{2, 3, 2}, {1, 2, 2}}, {{3, 4, 2}, {2, 2, 2}}, {{2, 2, 3}, {1, 1, 3}}, {{2, 2, 3, 2}, {1, 2, 2, 1}}, {{3, 2, 2, 3}, {2, 1, 2, 2}}, {{2, 3, 3}, {2, 2, 2}},
	} {
		add(h5Var{typ: i4, dims: d[0], chunk: d[1]})
	}
	add(h5Var{typ: i4, dims: []int64{7}, chunk: []int64{2}, levels: true})
	add(h5Var{typ: i4, dims: []int64{4, 4}, chunk: []int64{1, 2}, levels: true})
	add(h5Var{typ: i4, dims: []int64{4, 5}, chunk: []int64{2, 2}, levels: true})

	deflate, shuffle, sum := h5Filter{1, []int64{6}}, h5Filter{2, []int64{4}}, h5Filter{3, nil}
	shuffle2 := h5Filter{2, []int64{2}}
	for _, d := range [][2][]int64{{{4}, {2}}, {{3, 3}, {2, 2}}, {{3, 4}, {1, 4}}} {
		for _, fs := range [][]h5Filter{{deflate}, {shuffle}, {sum}, {shuffle, deflate}, {sum, shuffle, deflate}} {
			add(h5Var{typ: i4, dims: d[0], chunk: d[1], filters: fs})
		}
		add(h5Var{typ: i4, dims: d[0], chunk: d[1], filters: []h5Filter{shuffle, deflate, sum}, masks: []uint64{0, 1, 6}})
		add(h5Var{typ: i2, dims: d[0], chunk: d[1], filters: []h5Filter{shuffle2, deflate}})
		for _, m := range [][]int{{0}, {1}} {
			add(h5Var{typ: i4, dims: d[0], chunk: d[1], missing: m})
			add(h5Var{typ: i4, dims: d[0], chunk: d[1], missing: m, fill: 0x1234567})
		}
		add(h5Var{typ: i2, dims: d[0], chunk: d[1], missing: []int{1}, fill: 0x1234})
	}
	add(h5Var{typ: i4, dims: []int64{3, 4}, chunk: []int64{1, 4}, missing: []int{2}, fill: 0x1234567})
	add(h5Var{typ: i4, dims: []int64{6}, chunk: []int64{2}, missing: []int{1, 2}, fill: 0x1234567})
	add(h5Var{typ: i4, dims: []int64{3, 2}, none: true, fill: 0x1234567})
	add(h5Var{typ: i4, dims: []int64{3, 3}, chunk: []int64{2, 2}, none: true, fill: 0x1234567})
	add(h5Var{typ: i4, dims: []int64{3, 3}, chunk: []int64{1, 3}, none: true})
	add(h5Var{typ: i4, dims: []int64{0}})
	add(h5Var{typ: i4, dims: []int64{0, 2}, chunk: []int64{1, 2}, none: true})
	add(h5Var{typ: i4, dims: []int64{2, 0}, none: true})
	return all
}

func (p *Prog) h5Data(r *Report, base Mem, f *ssa.Function, v *h5Var) int {
	img := h5File(v)
	name := v.String()
	r.obl("data", name)
	d := &dataFile{p: p, image: img.b, size: h5Size, big: v.typ.big}
	a := newAn(p, base)
	a.Unroll, a.Recur, a.Fresh, a.Frees = 80, 6, true, true
	a.Lin = &Lin{lens: map[string]*Val{}}
	a.OnCall, a.OnCmp = d.hook, d.cmp
	st := newState()
	d.setPosition(st, vInt(0))
	sh := &shape{dims: len(v.dims), size: v.typ.size, elem: func(idx []int64) *Val { return v.elem(d, idx) }}
	var want types.Type = types.Typ[v.typ.elem]
	for range v.dims {
		want = types.NewSlice(want)
	}
	seen := 0
	for _, e := range a.call(st, f, []*Val{nonNil("datafile")}, nil, nil, 0, false) {
		if e.panic != nil || exitErr(e, errResult(f)) == -1 {
			continue
		}
		seen += p.checkValues(r, base, d, e, name, f, v.name, v.dims, sh, want)
	}
	r.cover(a)
	if seen == 0 {
		r.fail("data", name, p.pos(f), "no values are read")
	}
	return seen
}
