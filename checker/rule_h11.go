package main

import (
	"cmp"
	"encoding/binary"
	"fmt"
	"go/types"
	"path"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// H11: groups, variables and attributes of HDF5 files are found under their names, however they are stored.

func init() {
	rules["H11"] = ruleH11
}

type h5Attr struct {
	name  string
	value int64
}

// how links or attributes are stored
const (
	inHeader  = iota
	inHeap    // one direct block
	inBlocks  // several, of an indirect block
	inNested  // and indirect blocks in it
	inSymbols // of an old group
)

type h5Object struct {
	name     string
	dims     []int64
	children []*h5Object
	group    bool
	attrs    []h5Attr
	links    int
	stored   int // the attributes
	depth    int // of the name index
	order    bool
	old      bool // first version of the header
	width    uint64
	split    int   // how many messages precede those of another block
	extra    bool  // times and limits
	data     int64 // where the data is
}

type h5Msg struct {
	kind int
	body []byte
}

type h5Tree struct {
	name  string
	root  *h5Object
	first bool // version of the superblock
}

func h5Body(f func(m *h5Image)) []byte {
	m := &h5Image{}
	f(m)
	return m.b
}

func (o *h5Object) space(m *h5Image, dims []int64, old bool) {
	if old {
		m.num(1, 1)
		m.num(uint64(len(dims)), 1)
		m.num(0, 6)
	} else {
		m.num(2, 1)
		m.num(uint64(len(dims)), 1)
		m.num(0, 1)
		if len(dims) == 0 {
			m.num(0, 1)
		} else {
			m.num(1, 1)
		}
	}
	for _, d := range dims {
		m.num(uint64(d), 8)
	}
}

func (m *h5Image) align(to int) {
	for len(m.b)%to != 0 {
		m.num(0, 1)
	}
}

// attribute is the message of an attribute.
func (o *h5Object) attribute(at h5Attr) []byte {
	typ := h5Body(func(m *h5Image) { h5Fixed("int", 4, types.Int32, true, false).msg(m) })
	space := h5Body(func(m *h5Image) { o.space(m, nil, o.old) })
	return h5Body(func(m *h5Image) {
		if o.old {
			m.num(1, 2)
		} else {
			m.num(3, 2)
		}
		m.num(uint64(len(at.name)+1), 2)
		m.num(uint64(len(typ)), 2)
		m.num(uint64(len(space)), 2)
		if !o.old {
			m.num(0, 1)
		}
		pad := func() {
			if o.old {
				m.align(8)
			}
		}
		m.str(at.name + "\x00")
		pad()
		m.b = append(m.b, typ...)
		pad()
		m.b = append(m.b, space...)
		pad()
		m.num(uint64(at.value), 4)
	})
}

// link is the message of a link.
func (o *h5Object) link(name string, order int, addr uint64) []byte {
	return h5Body(func(m *h5Image) {
		m.num(1, 1)
		if o.order {
			m.num(4|1, 1)
			m.num(uint64(order), 8)
			m.num(uint64(len(name)), 2)
		} else {
			m.num(0x10, 1)
			m.num(1, 1) // UTF-8
			m.num(uint64(len(name)), 1)
		}
		m.str(name)
		m.num(addr, 8)
	})
}

const noAddr = ^uint64(0)

// heap writes a heap of objects, each in the block with the number given, and gives where in the heap they are.
func (m *h5Image) heap(bits int, rows int, start, most uint64, objs [][]byte, block []int) (uint64, []uint64) {
	width := uint64(4)
	head := uint64(len(m.b))
	m.b = append(m.b, make([]byte, 146)...)
	offs := make([]uint64, len(objs))
	next, used := 0, uint64(0)
	offSize := bits / 8
	direct := func(off, size uint64) uint64 {
		n := next
		next++
		if !slices.Contains(block, n) {
			return noAddr
		}
		at := len(m.b)
		m.str("FHDB")
		m.num(0, 1)
		m.num(head, 8)
		m.num(off, offSize)
		sumAt := len(m.b)
		m.num(0, 4)
		for i, o := range objs {
			if block[i] == n {
				offs[i] = off + uint64(len(m.b)-at)
				m.b = append(m.b, o...)
				used++
			}
		}
		if uint64(len(m.b)-at) > size {
			panic("the block is too small")
		}
		for uint64(len(m.b)-at) < size {
			m.num(0, 1)
		}
		binary.LittleEndian.PutUint32(m.b[sumAt:], lookup3(m.b[at:]))
		return uint64(at)
	}
	var indirect func(off uint64, rows int) uint64
	indirect = func(off uint64, rows int) uint64 {
		from := off
		var addrs []uint64
		some := false
		for r := range rows {
			size := start
			if r > 1 {
				size = start << (r - 1)
			}
			for range width {
				a := noAddr
				if size <= most {
					a = direct(off, size)
				} else {
					n := 1 // rows of the block
					for start*width<<(n-1) < size {
						n++
					}
					a = indirect(off, n)
				}
				some = some || a != noAddr
				addrs = append(addrs, a)
				off += size
			}
		}
		if !some {
			return noAddr
		}
		at := len(m.b)
		m.str("FHIB")
		m.num(0, 1)
		m.num(head, 8)
		m.num(from, offSize)
		for _, a := range addrs {
			m.num(a, 8)
		}
		m.sum(at)
		return uint64(at)
	}
	var root uint64
	if rows == 0 {
		root = direct(0, start)
	} else {
		root = indirect(0, rows)
	}
	if used != uint64(len(objs)) {
		panic("not all are in the heap")
	}
	h := h5Body(func(h *h5Image) {
		h.str("FRHP")
		h.num(0, 1)
		if bits == 40 {
			h.num(8, 2)
		} else {
			h.num(7, 2)
		}
		h.num(0, 2)
		h.num(2, 1)
		h.num(most, 4)
		h.num(0, 8)
		h.num(noAddr, 8)
		h.num(0, 8)
		h.num(noAddr, 8)
		h.num(start, 8)
		h.num(start, 8)
		h.num(0, 8)
		h.num(used, 8)
		for range 4 {
			h.num(0, 8)
		}
		h.num(width, 2)
		h.num(start, 8)
		h.num(most, 8)
		h.num(uint64(bits), 2)
		h.num(1, 2)
		h.num(root, 8)
		h.num(uint64(rows), 2)
		h.sum(0)
	})
	copy(m.b[head:], h)
	return head, offs
}

// nameIndex writes the index of a heap.
func (m *h5Image) nameIndex(kind, depth int, recs [][]byte) uint64 {
	const nodeSize = 512
	node := func(sig string, body func()) uint64 {
		at := len(m.b)
		m.str(sig)
		m.num(0, 1)
		m.num(uint64(kind), 1)
		body()
		m.sum(at)
		for len(m.b)-at < nodeSize {
			m.num(0, 1)
		}
		return uint64(at)
	}
	put := func(rs [][]byte) {
		for _, r := range rs {
			m.b = append(m.b, r...)
		}
	}
	// write gives the address, and how many records are in the node itself
	var write func(rs [][]byte, depth int) (uint64, int)
	write = func(rs [][]byte, depth int) (uint64, int) {
		if depth == 0 {
			return node("BTLF", func() { put(rs) }), len(rs)
		}
		type child struct {
			addr   uint64
			n, all int
		}
		least := 1<<depth - 1 // records of a child
		var own [][]byte
		var cs []child
		for {
			k := len(rs)
			if k >= 2*least+1 {
				k = least
			}
			a, n := write(rs[:k], depth-1)
			cs = append(cs, child{a, n, k})
			if k == len(rs) {
				break
			}
			own = append(own, rs[k])
			rs = rs[k+1:]
		}
		return node("BTIN", func() {
			put(own)
			for _, c := range cs {
				m.num(c.addr, 8)
				m.num(uint64(c.n), 1)
				if depth > 1 {
					m.num(uint64(c.all), 2)
				}
			}
		}), len(own)
	}
	root, n := write(recs, depth)
	at := len(m.b)
	m.str("BTHD")
	m.num(0, 1)
	m.num(uint64(kind), 1)
	m.num(nodeSize, 4)
	m.num(uint64(len(recs[0])), 2)
	m.num(uint64(depth), 2)
	m.num(100, 1)
	m.num(40, 1)
	m.num(root, 8)
	m.num(uint64(n), 2)
	m.num(uint64(len(recs)), 8)
	m.sum(at)
	return uint64(at)
}

// dense writes links or attributes in a heap with an index.
func (m *h5Image) dense(kind, how, depth int, names []string, objs [][]byte) (heap, index uint64) {
	bits, rows, start, most := 32, 0, uint64(1024), uint64(4096)
	if kind == 8 {
		bits = 40
	}
	block := make([]int, len(objs))
	switch how {
	case inBlocks:
		rows, start, most = 4, 64, 256
		for i := range block {
			// in all rows
			block[i] = []int{0, 3, 5, 9, 12, 15, 8}[i%7] + i/7
		}
	case inNested:
		rows, start, most = 5, 64, 128
		// blocks of the first indirect block have the numbers from 12, four for each; from 28 there are eight
		for i := range block {
			block[i] = []int{12, 1, 17, 10, 35, 28, 43}[i%7] + i/7
		}
	}
	heap, offs := m.heap(bits, rows, start, most, objs, block)
	var recs [][]byte
	idx := make([]int, len(objs))
	for i := range idx {
		idx[i] = i
	}
	slices.SortFunc(idx, func(i, j int) int {
		return cmp.Compare(lookup3([]byte(names[i])), lookup3([]byte(names[j])))
	})
	for _, i := range idx {
		recs = append(recs, h5Body(func(m *h5Image) {
			if kind == 5 {
				m.num(uint64(lookup3([]byte(names[i]))), 4)
			}
			m.num(0, 1)
			m.num(offs[i], bits/8)
			m.num(uint64(len(objs[i])), 2)
			if kind == 8 {
				m.num(0, 1)
				m.num(uint64(i), 4)
				m.num(uint64(lookup3([]byte(names[i]))), 4)
			}
		}))
	}
	return heap, m.nameIndex(kind, depth, recs)
}

// symbols writes the table of an old group.
func (m *h5Image) symbols(o *h5Object, addrs []uint64) (tree, heap uint64) {
	const perNode = 8
	idx := make([]int, len(addrs))
	for i := range idx {
		idx[i] = i
	}
	slices.SortFunc(idx, func(i, j int) int { return strings.Compare(o.children[i].name, o.children[j].name) })
	seg := uint64(len(m.b))
	m.num(0, 8)
	offs := map[int]uint64{}
	for i, c := range o.children {
		offs[i] = uint64(len(m.b)) - seg
		m.str(c.name + "\x00")
		for (uint64(len(m.b))-seg)%8 != 0 {
			m.num(0, 1)
		}
	}
	size := uint64(len(m.b)) - seg
	heap = uint64(len(m.b))
	m.str("HEAP")
	m.num(0, 4)
	m.num(size, 8)
	m.num(1, 8)
	m.num(seg, 8)
	var nodes []uint64
	keys := []uint64{0}
	fill := 3
	for k := 0; k < len(idx); k += fill {
		part := idx[k:min(k+fill, len(idx))]
		nodes = append(nodes, uint64(len(m.b)))
		keys = append(keys, offs[part[len(part)-1]])
		m.str("SNOD")
		m.num(1, 1)
		m.num(0, 1)
		m.num(uint64(len(part)), 2)
		for _, i := range part {
			m.num(offs[i], 8)
			m.num(addrs[i], 8)
			m.num(0, 24)
		}
		for range perNode - len(part) {
			m.num(0, 40)
		}
	}
	tree = uint64(len(m.b))
	m.str("TREE")
	m.num(0, 1)
	m.num(0, 1)
	m.num(uint64(len(nodes)), 2)
	m.num(noAddr, 8)
	m.num(noAddr, 8)
	m.num(keys[0], 8)
	for i, n := range nodes {
		m.num(n, 8)
		m.num(keys[i+1], 8)
	}
	for range 32 - len(nodes) {
		m.num(0, 16)
	}
	return tree, heap
}

// object writes an object with all that is in it.
func (m *h5Image) object(o *h5Object) uint64 {
	var msgs []h5Msg
	add := func(kind int, f func(m *h5Image)) { msgs = append(msgs, h5Msg{kind, h5Body(f)}) }
	if o.group {
		var addrs []uint64
		for _, c := range o.children {
			addrs = append(addrs, m.object(c))
		}
		heap, index := noAddr, noAddr
		if o.links == inSymbols {
			tree, names := m.symbols(o, addrs)
			add(17, func(m *h5Image) {
				m.num(tree, 8)
				m.num(names, 8)
			})
		} else {
			var names []string
			var links [][]byte
			for i, c := range o.children {
				names = append(names, c.name)
				links = append(links, o.link(c.name, i, addrs[i]))
			}
			if o.links != inHeader {
				heap, index = m.dense(5, o.links, o.depth, names, links)
			}
			add(2, func(m *h5Image) {
				m.num(0, 1)
				if o.order {
					m.num(1, 1)
					m.num(uint64(len(links)), 8)
				} else {
					m.num(0, 1)
				}
				m.num(heap, 8)
				m.num(index, 8)
			})
			add(10, func(m *h5Image) { m.num(0, 2) })
			if o.links == inHeader {
				for _, l := range links {
					msgs = append(msgs, h5Msg{6, l})
				}
			}
		}
	} else {
		add(1, func(m *h5Image) { o.space(m, o.dims, o.old) })
		add(3, func(m *h5Image) { h5Fixed("int", 4, types.Int32, true, false).msg(m) })
		add(8, func(m *h5Image) {
			m.num(3, 1)
			m.num(1, 1)
			m.num(uint64(o.data), 8)
			n := int64(4)
			for _, d := range o.dims {
				n *= d
			}
			m.num(uint64(n), 8)
		})
	}
	if len(o.attrs) > 0 {
		var names []string
		var all [][]byte
		for _, at := range o.attrs {
			names = append(names, at.name)
			all = append(all, o.attribute(at))
		}
		if o.stored != inHeader {
			heap, index := m.dense(8, o.stored, o.depth, names, all)
			add(21, func(m *h5Image) {
				m.num(0, 2)
				m.num(heap, 8)
				m.num(index, 8)
			})
		} else {
			for _, b := range all {
				msgs = append(msgs, h5Msg{12, b})
			}
		}
	}
	if o.extra {
		msgs = slices.Insert(msgs, 1, h5Msg{0, make([]byte, 8)})
	}
	return m.messages(o, msgs)
}

// messages writes an object header, with the last messages in blocks of their own.
func (m *h5Image) messages(o *h5Object, msgs []h5Msg) uint64 {
	write := func(msgs []h5Msg, order int) {
		for i, g := range msgs {
			if o.old {
				b := append([]byte(nil), g.body...)
				for len(b)%8 != 0 {
					b = append(b, 0)
				}
				m.num(uint64(g.kind), 2)
				m.num(uint64(len(b)), 2)
				m.num(0, 4)
				m.b = append(m.b, b...)
				continue
			}
			m.num(uint64(g.kind), 1)
			m.num(uint64(len(g.body)), 2)
			m.num(0, 1)
			if o.order {
				m.num(uint64(order+i), 2)
			}
			m.b = append(m.b, g.body...)
		}
	}
	total := len(msgs)
	more := func(rest []h5Msg, first int) h5Msg {
		at := len(m.b)
		if !o.old {
			m.str("OCHK")
		}
		write(rest, first)
		if !o.old {
			m.sum(at)
		}
		return h5Msg{16, h5Body(func(b *h5Image) {
			b.num(uint64(at), 8)
			b.num(uint64(len(m.b)-at), 8)
		})}
	}
	if n := len(msgs); o.split > 0 && n > o.split {
		// the last block first: each refers to the next
		for _, k := range []int{(o.split + n + 1) / 2, o.split} {
			if k < len(msgs) {
				c := more(msgs[k:], k)
				msgs = append(msgs[:k:k], c)
				total++
			}
		}
	}
	at := len(m.b)
	if o.old {
		m.num(1, 1)
		m.num(0, 1)
		m.num(uint64(total), 2)
		m.num(1, 4)
		sizeAt := len(m.b)
		m.num(0, 8)
		write(msgs, 0)
		binary.LittleEndian.PutUint32(m.b[sizeAt:], uint32(len(m.b)-sizeAt-8))
		return uint64(at)
	}
	m.str("OHDR")
	m.num(2, 1)
	flags := o.width
	if o.order {
		flags |= 4
	}
	if o.extra {
		flags |= 0x30
	}
	m.num(flags, 1)
	if o.extra {
		m.num(0x5f000000, 4)
		m.num(0x5f000000, 4)
		m.num(0x5f000000, 4)
		m.num(0x5f000000, 4)
		m.num(8, 2)
		m.num(6, 2)
	}
	sizeAt, size := len(m.b), 1<<o.width
	m.num(0, size)
	write(msgs, 0)
	n := len(m.b) - sizeAt - size
	for i := range size {
		m.b[sizeAt+i] = byte(n >> (8 * i))
	}
	if n>>(8*size) != 0 {
		panic("the size of the header")
	}
	m.sum(at)
	return uint64(at)
}

// h5TreeFile makes a file.
func h5TreeFile(t *h5Tree) *h5Image {
	m := &h5Image{}
	m.str("\x89HDF\r\n\x1a\n")
	if t.first {
		m.num(0, 5)
		m.num(8, 1)
		m.num(8, 1)
		m.num(0, 1)
		m.num(4, 2)
		m.num(16, 2)
		m.num(0, 4)
		m.num(0, 8)
		m.num(noAddr, 8)
		m.num(h5Size, 8)
		m.num(noAddr, 8)
		m.num(0, 8)
		at := len(m.b)
		m.num(0, 32)
		root := m.object(t.root)
		binary.LittleEndian.PutUint64(m.b[at:], root)
		return m
	}
	m.num(2, 1)
	m.num(8, 1)
	m.num(8, 1)
	m.num(0, 1)
	m.num(0, 8)
	m.num(noAddr, 8)
	m.num(h5Size, 8)
	rootAt := len(m.b)
	m.num(0, 12)
	root := m.object(t.root)
	binary.LittleEndian.PutUint64(m.b[rootAt:], root)
	binary.LittleEndian.PutUint32(m.b[rootAt+8:], lookup3(m.b[:rootAt+8]))
	return m
}

func h5Trees() (all []h5Tree) {
	at := int64(h5Data)
	v := func(name string, dims ...int64) *h5Object {
		at += 0x20
		return &h5Object{name: name, dims: dims, data: at, width: 1}
	}
	g := func(name string, cs ...*h5Object) *h5Object {
		return &h5Object{name: name, group: true, children: cs, width: 2}
	}
	attrs := func(n int) (out []h5Attr) {
		for i := range n {
			out = append(out, h5Attr{[]string{"units", "b", "title", "a_long_name", "zz", "scale", "q1", "q2"}[i], int64(i*0x01010101 + 5)})
		}
		return out
	}
	with := func(o *h5Object, f func(o *h5Object)) *h5Object {
		f(o)
		return o
	}
	vars := func(n int) (out []*h5Object) {
		for i := range n {
			out = append(out, v([]string{"wind", "t", "pressure", "lat2", "q", "zeta", "alpha", "m2", "n2"}[i]))
		}
		return out
	}
	add := func(name string, root *h5Object) { all = append(all, h5Tree{name: name, root: root}) }

	mixed := func(f func(o *h5Object)) *h5Object {
		a := v("a", 2)
		a.attrs = attrs(2)
		in := g("inner", v("a"), v("deep", 2))
		sub := g("sub", v("b"), in, v("a"))
		sub.attrs = attrs(1)
		root := g("", a, sub, v("c"), g("other"))
		root.attrs = attrs(3)
		var each func(o *h5Object)
		each = func(o *h5Object) {
			f(o)
			for _, c := range o.children {
				each(c)
			}
		}
		each(root)
		return root
	}
	add("links in the headers", mixed(func(o *h5Object) {}))
	add("links in the headers, with the order of creation", mixed(func(o *h5Object) { o.order = true }))
	add("headers with times and limits, and wide sizes", mixed(func(o *h5Object) { o.extra, o.width = true, 3 }))
	add("headers in two blocks", mixed(func(o *h5Object) { o.split = 2 }))
	add("headers in several blocks, with the order of creation", mixed(func(o *h5Object) { o.split, o.order, o.extra = 1, true, true }))
	add("headers of the first version", mixed(func(o *h5Object) { o.old = true }))
	add("headers of the first version in several blocks", mixed(func(o *h5Object) { o.old, o.split = true, 1 }))
	add("symbol tables", mixed(func(o *h5Object) {
		o.old = true
		if o.group && len(o.children) > 0 {
			o.links = inSymbols
		}
	}))
	all = append(all, h5Tree{"symbol tables, and a superblock of the first version", mixed(func(o *h5Object) {
		o.old = true
		if o.group && len(o.children) > 0 {
			o.links = inSymbols
		}
	}), true})
	add("a symbol table of several nodes", with(g("", vars(7)...), func(o *h5Object) { o.old, o.links = true, inSymbols }))
	add("links and attributes in heaps", mixed(func(o *h5Object) {
		if len(o.children) > 0 {
			o.links = inHeap
		}
		o.stored = inHeap
	}))
	add("links in heaps, with the order of creation", mixed(func(o *h5Object) {
		o.order = true
		if len(o.children) > 0 {
			o.links = inHeap
		}
	}))
	for _, how := range []int{inHeap, inBlocks, inNested} {
		for depth := range 3 {
			where := []string{"", "one heap block", "several heap blocks", "nested heap blocks"}[how]
			add(fmt.Sprintf("links in %s, index of depth %d", where, depth), with(g("", vars(7)...), func(o *h5Object) { o.links, o.depth = how, depth }))
			add(fmt.Sprintf("attributes in %s, index of depth %d", where, depth), with(g("", v("v")), func(o *h5Object) {
				o.attrs, o.stored, o.depth = attrs(7), how, depth
			}))
		}
	}
	return all
}

func ruleH11(p *Prog, r *Report) {
	r.explain("The exported functions of the HDF5 package that open a file are interpreted abstractly on the metadata of small files, made by the rule: trees of groups, variables and attributes whose links and attributes are in object headers of either version (in one or several blocks, with or without the order of creation), in symbol tables with a local heap, or in fractal heaps (one block, the blocks of an indirect block, indirect blocks in it) with an index of the names of depth 0 to 2. On the group that results, and on every group below it, the methods that list variables and groups have to give each name once, a group or variable has to be found under each name, the variable with the bytes at its address, and the attributes of groups and variables have to be listed and have their values.")
	base := p.initBase()
	n, files := 0, 0
	for _, f := range p.readerOpeners("netcdf/hdf5") {
		files++
		for _, t := range h5Trees() {
			n += p.h5Names(r, base, f, &t)
		}
	}
	r.minimum("names", n, 300)
	r.minimum("functions that open a file", files, 1)
}

// stringsOf is a list of known strings.
func stringsOf(e *Exit, v *Val) ([]string, bool) {
	switch v.k {
	case KNil:
		return nil, true
	case KSlice:
		off, ok1 := v.e[0].intVal()
		n, ok2 := v.e[1].intVal()
		o := e.mem[v.s]
		if !ok1 || !ok2 || o == nil {
			return nil, n == 0 && ok2
		}
		var out []string
		for i := range n {
			s, ok := o.get(v.s, v.p+"["+itoa(off+i)+"]").strVal()
			if !ok {
				return nil, false
			}
			out = append(out, s)
		}
		return out, true
	}
	return nil, false
}

func (p *Prog) h5Names(r *Report, base Mem, f *ssa.Function, t *h5Tree) int {
	img := h5TreeFile(t)
	if len(img.b) > h5Data {
		panic("the metadata are too large")
	}
	r.obl("names", t.name)
	d := &dataFile{p: p, image: img.b, size: h5Size}
	mk := func() *An {
		a := newAn(p, base)
		a.Unroll, a.Recur, a.Fresh, a.Frees = 80, 12, true, true
		a.Lin = &Lin{lens: map[string]*Val{}}
		a.maxDepth, a.Chain, a.OnCmp = 90, 40, d.cmp
		a.OnCall = func(c *Call) ([]Out, bool) {
			if out, ok := d.textModel(c); ok {
				return out, ok
			}
			return d.hook(c)
		}
		return a
	}
	a := mk()
	st := newState()
	d.setPosition(st, vInt(0))
	seen := 0
	fail := func(at *ssa.Function, format string, args ...any) {
		r.fail("names", t.name, p.pos(at), format, args...)
	}
	// call interprets a method, and what follows it.
	call := func(e *Exit, recv *Val, what, m string, then func(y *Exit), args ...*Val) {
		g, rc := p.methodOf(recv, m)
		if g == nil {
			fail(f, "undecided: the dynamic type of what has the method %s is not known (%s)", m, what)
			return
		}
		good := 0
		for _, y := range a.sequel(e, g, "", append([]*Val{rc}, args...)...) {
			if y.panic != nil {
				fail(g, "%s of %s panics (%s)", m, what, show(y.panic))
				continue
			}
			if i := errResult(g); i >= 0 && exitErr(y, i) == -1 {
				continue
			}
			good++
			then(y)
		}
		if good == 0 {
			fail(g, "%s of %s always fails", m, what)
		}
	}
	list := func(e *Exit, recv *Val, what, m string, want []string) {
		call(e, recv, what, m, func(y *Exit) {
			got, ok := stringsOf(y, y.results[0])
			if !ok {
				fail(f, "undecided: %s of %s gives %s", m, what, show(y.results[0]))
				return
			}
			seen++
			slices.Sort(got)
			want := append([]string(nil), want...)
			slices.Sort(want)
			if !slices.Equal(got, want) {
				fail(f, "%s of %s gives %q instead of %q", m, what, got, want)
			}
		})
	}
	attributes := func(e *Exit, recv *Val, what string, want []h5Attr) {
		call(e, recv, what, "Attributes", func(y *Exit) {
			am := y.results[0]
			var names []string
			for _, at := range want {
				names = append(names, at.name)
			}
			list(y, am, "the attributes of "+what, "Keys", names)
			for _, at := range want {
				call(y, am, "the attributes of "+what, "Get", func(z *Exit) {
					if has, ok := z.results[1].boolVal(); !ok || !has {
						fail(f, "the attribute %s of %s may not be found", at.name, what)
						return
					}
					x := z.results[0]
					seen++
					if x.k != KIface || !types.Identical(x.t, types.Typ[types.Int32]) {
						fail(f, "the attribute %s of %s is %s instead of an int32", at.name, what, show(x))
						return
					}
					if k, ok := x.e[0].intVal(); !ok || k != at.value {
						fail(f, "the attribute %s of %s is %s instead of %d", at.name, what, show(x.e[0]), at.value)
					}
				}, vStr(at.name))
			}
		})
	}
	variable := func(e *Exit, recv *Val, what string, o *h5Object) {
		call(e, recv, what, "GetVarGetter", func(y *Exit) {
			vg := y.results[0]
			attributes(y, vg, what+o.name, o.attrs)
			call(y, vg, what+o.name, "Values", func(z *Exit) {
				var want types.Type = types.Typ[types.Int32]
				for range o.dims {
					want = types.NewSlice(want)
				}
				x := z.results[0]
				if x.k != KIface || !types.Identical(x.t, want) {
					fail(f, "the value of %s%s is %s", what, o.name, show(x))
					return
				}
				sh := &shape{dims: len(o.dims), size: 4, elem: func(idx []int64) *Val {
					from := o.data
					if len(idx) > 0 {
						from += 4 * idx[0]
					}
					var bs []*Val
					for i := range int64(4) {
						bs = append(bs, byteAt(poly{"": from + i}))
					}
					return d.number(bs, 'L')
				}}
				s := newState()
				s.mem = z.mem
				seen++
				if why := sh.compare(a, s, x.e[0], make([]int64, len(o.dims)), o.dims, nil); why != "" {
					fail(f, "%s%s: %s", what, o.name, why)
				}
			})
		}, vStr(o.name))
	}
	var group func(e *Exit, g *Val, what string, o *h5Object)
	group = func(e *Exit, g *Val, what string, o *h5Object) {
		var vars, subs []string
		for _, c := range o.children {
			if c.group {
				subs = append(subs, c.name)
			} else {
				vars = append(vars, c.name)
			}
		}
		list(e, g, what, "ListVariables", vars)
		list(e, g, what, "ListSubgroups", subs)
		attributes(e, g, what, o.attrs)
		for _, c := range o.children {
			if !c.group {
				variable(e, g, what, c)
				continue
			}
			call(e, g, what, "GetGroup", func(y *Exit) {
				group(y, y.results[0], what+c.name+"/", c)
			}, vStr(c.name))
		}
	}
	opened := 0
	for _, e := range a.call(st, f, []*Val{nonNil("datafile")}, nil, nil, 0, false) {
		if e.panic != nil || exitErr(e, errResult(f)) == -1 {
			continue
		}
		opened++
		group(e, e.results[0], "/", t.root)
	}
	r.cover(a)
	if opened == 0 {
		fail(f, "the file is never opened")
	}
	return seen
}

// wrapInt is a number as the integer type has it.
func wrapInt(k int64, t types.Type) int64 {
	n := numSize(t)
	b, ok := t.Underlying().(*types.Basic)
	if !ok || n <= 0 || n >= 8 {
		return k
	}
	k &= 1<<(8*n) - 1
	if b.Info()&types.IsUnsigned == 0 && k>>(8*n-1) != 0 {
		k -= 1 << (8 * n)
	}
	return k
}

// textModel answers calls on known strings.
func (d *dataFile) textModel(c *Call) ([]Out, bool) {
	base, _, _ := strings.Cut(c.name, "[")
	if m, ok := strings.CutPrefix(c.name, "(*strings.Builder)."); ok {
		return builderModel(c, m)
	}
	if out, ok := d.sequence(c, base); ok {
		return out, true
	}
	if base == "cmp.Compare" && len(c.args) == 2 {
		x, ok1 := c.args[0].strVal()
		y, ok2 := c.args[1].strVal()
		if ok1 && ok2 {
			return []Out{{res: vInt(int64(strings.Compare(x, y)))}}, true
		}
	}
	if base == "slices.DeleteFunc" && len(c.args) == 2 {
		return withoutModel(c)
	}
	if !strings.HasPrefix(c.name, "strings.") && !strings.HasPrefix(c.name, "path.") {
		return nil, false
	}
	if c.name == "strings.FieldsFunc" && len(c.args) == 2 {
		return fieldsModel(c)
	}
	one := func(v *Val) ([]Out, bool) { return []Out{{res: v}}, true }
	if len(c.args) > 0 && (c.name == "strings.Join" || c.name == "path.Join") {
		l, ok := stringsOf(&Exit{mem: c.st.mem}, c.args[0])
		if !ok {
			return nil, false
		}
		if c.name == "path.Join" {
			return one(vStr(path.Join(l...)))
		}
		if sep, ok := c.args[1].strVal(); ok {
			return one(vStr(strings.Join(l, sep)))
		}
		return nil, false
	}
	var s []string
	for _, x := range c.args {
		t, ok := x.strVal()
		if !ok {
			return nil, false
		}
		s = append(s, t)
	}
	two := len(s) == 2
	switch {
	case c.name == "strings.Compare" && two:
		return one(vInt(int64(strings.Compare(s[0], s[1]))))
	case c.name == "strings.Contains" && two:
		return one(vBool(strings.Contains(s[0], s[1])))
	case c.name == "strings.Index" && two:
		return one(vInt(int64(strings.Index(s[0], s[1]))))
	case c.name == "strings.LastIndex" && two:
		return one(vInt(int64(strings.LastIndex(s[0], s[1]))))
	case c.name == "strings.Count" && two:
		return one(vInt(int64(strings.Count(s[0], s[1]))))
	case c.name == "strings.TrimSuffix" && two:
		return one(vStr(strings.TrimSuffix(s[0], s[1])))
	case c.name == "strings.TrimPrefix" && two:
		return one(vStr(strings.TrimPrefix(s[0], s[1])))
	case c.name == "strings.TrimRight" && two:
		return one(vStr(strings.TrimRight(s[0], s[1])))
	case c.name == "strings.TrimLeft" && two:
		return one(vStr(strings.TrimLeft(s[0], s[1])))
	case c.name == "strings.Trim" && two:
		return one(vStr(strings.Trim(s[0], s[1])))
	case c.name == "strings.ReplaceAll" && len(s) == 3:
		return one(vStr(strings.ReplaceAll(s[0], s[1], s[2])))
	case c.name == "path.Base" && len(s) == 1:
		return one(vStr(path.Base(s[0])))
	case c.name == "path.Clean" && len(s) == 1:
		return one(vStr(path.Clean(s[0])))
	case c.name == "path.Dir" && len(s) == 1:
		return one(vStr(path.Dir(s[0])))
	case c.name == "strings.Cut" && two:
		a, b, ok := strings.Cut(s[0], s[1])
		return one(vTuple(vStr(a), vStr(b), vBool(ok)))
	case c.name == "strings.CutPrefix" && two:
		a, ok := strings.CutPrefix(s[0], s[1])
		return one(vTuple(vStr(a), vBool(ok)))
	case c.name == "strings.CutSuffix" && two:
		a, ok := strings.CutSuffix(s[0], s[1])
		return one(vTuple(vStr(a), vBool(ok)))
	case c.name == "strings.Split" && two:
		st := c.st.clone()
		var es []*Val
		for _, x := range strings.Split(s[0], s[1]) {
			es = append(es, vStr(x))
		}
		v := knownSlice(st, fmt.Sprintf("A<split %q by %q>", s[0], s[1]), stringSlice, es...)
		return []Out{{st: st, prop: st.prop, res: v}}, true
	}
	return nil, false
}

// ask interprets a predicate, if its answer is known.
func ask(c *Call, f *Val, x *Val) (yes, ok bool) {
	if f.k != KFunc {
		return false, false
	}
	outs := c.throughClosure(f.f, f.e, x)
	if len(outs) != 1 || outs[0].panic != nil || outs[0].res == nil {
		return false, false
	}
	return outs[0].res.boolVal()
}

// withoutModel answers slices.DeleteFunc for a list of known strings.
func withoutModel(c *Call) ([]Out, bool) {
	l, ok := stringsOf(&Exit{mem: c.st.mem}, c.args[0])
	if !ok || c.args[0].k != KSlice {
		return nil, false
	}
	var left []*Val
	for _, x := range l {
		yes, ok := ask(c, c.args[1], vStr(x))
		if !ok {
			return nil, false
		}
		if !yes {
			left = append(left, vStr(x))
		}
	}
	v := c.args[0]
	off, ok := v.e[0].intVal()
	if !ok {
		return nil, false
	}
	st := c.st.clone()
	for i := range l {
		x := vStr("")
		if i < len(left) {
			x = left[i]
		}
		c.a.store(st, vPtr(v.s, v.p+"["+itoa(off+int64(i))+"]"), x, types.Typ[types.String])
	}
	return []Out{{st: st, prop: st.prop, res: vSlice(v.s, v.p, v.e[0], vInt(int64(len(left))))}}, true
}

// fieldsModel answers strings.FieldsFunc for a known string.
func fieldsModel(c *Call) ([]Out, bool) {
	s, ok := c.args[0].strVal()
	if !ok {
		return nil, false
	}
	known := true
	fields := strings.FieldsFunc(s, func(x rune) bool {
		yes, ok := ask(c, c.args[1], vInt(int64(x)))
		known = known && ok
		return yes
	})
	if !known {
		return nil, false
	}
	st := c.st.clone()
	var es []*Val
	for _, x := range fields {
		es = append(es, vStr(x))
	}
	v := knownSlice(st, fmt.Sprintf("A<fields of %q: %q>", s, fields), stringSlice, es...)
	return []Out{{st: st, prop: st.prop, res: v}}, true
}

// builderModel answers the methods of strings.Builder while all of the text is known.
func builderModel(c *Call, m string) ([]Out, bool) {
	const cell = "#text"
	b := c.args[0]
	if b.k != KPtr || c.st.mem[b.s] == nil {
		return nil, false
	}
	text := ""
	if v := c.st.mem[b.s].cells[b.p+cell]; v != nil {
		t, ok := v.strVal()
		if !ok {
			return nil, false
		}
		text = t
	}
	write := func(add string, res *Val) ([]Out, bool) {
		st := c.st.clone()
		setCell(st, b.s, b.p+cell, vStr(text+add))
		return []Out{{st: st, prop: st.prop, res: res}}, true
	}
	switch m {
	case "String":
		return []Out{{res: vStr(text)}}, true
	case "Len":
		return []Out{{res: vInt(int64(len(text)))}}, true
	case "Grow":
		return []Out{{res: vTuple()}}, true
	case "Reset":
		text = ""
		return write("", vTuple())
	case "WriteString":
		if s, ok := c.args[1].strVal(); ok {
			return write(s, vTuple(vInt(int64(len(s))), vNil))
		}
	case "WriteByte":
		if k, ok := c.args[1].intVal(); ok {
			return write(string([]byte{byte(k)}), vNil)
		}
	case "WriteRune":
		if k, ok := c.args[1].intVal(); ok {
			return write(string(rune(k)), vTuple(vInt(int64(len(string(rune(k))))), vNil))
		}
	}
	// something that is not known is written
	st := c.st.clone()
	setCell(st, b.s, b.p+cell, top)
	var res *Val = vTuple(top, vNil)
	if m == "WriteByte" {
		res = vNil
	} else if m != "WriteString" && m != "WriteRune" && m != "Write" {
		return nil, false
	}
	return []Out{{st: st, prop: st.prop, res: res}}, true
}

// sequence answers what makes lists of the keys or values of a known map.
func (d *dataFile) sequence(c *Call, name string) ([]Out, bool) {
	const mark = "the elements of"
	if len(c.args) == 0 {
		return nil, false
	}
	switch name {
	case "maps.Keys", "maps.Values":
		m := c.args[0]
		mt, ok := c.site.Common().Args[0].Type().Underlying().(*types.Map)
		if !ok || m.k != KMap {
			return nil, false
		}
		ks, ok := c.a.mapKeys(c.st, m)
		if !ok {
			return nil, false
		}
		t := mt.Key()
		if name == "maps.Values" {
			t = mt.Elem()
			for i, k := range ks {
				cell, exact := c.fr.mapKey(k)
				v := c.st.mem[m.s].cells[cell]
				if !exact || v == nil {
					return nil, false
				}
				ks[i] = v
			}
		}
		d.made++
		st := c.st.clone()
		l := knownSlice(st, fmt.Sprintf("A<sequence%d>", d.made), types.NewSlice(t), ks...)
		return []Out{{st: st, prop: st.prop, res: vTuple(vStr(mark), l)}}, true
	case "slices.Collect", "slices.Sorted", "slices.SortedFunc", "slices.SortedStableFunc":
		v := c.args[0]
		if v.k != KTuple || len(v.e) != 2 {
			return nil, false
		}
		if s, ok := v.e[0].strVal(); !ok || s != mark {
			return nil, false
		}
		l := v.e[1]
		if n, ok := l.e[1].intVal(); ok && n == 0 {
			l = vNil
		}
		if name == "slices.Collect" || l.k == KNil {
			return []Out{{res: l}}, true
		}
		cc := *c
		cc.name = "slices.Sort"
		if name != "slices.Sorted" {
			cc.name = "slices.SortFunc"
		}
		cc.args = append([]*Val{l}, c.args[1:]...)
		outs, ok := d.sort(&cc)
		for i := range outs {
			outs[i].res = l
		}
		return outs, ok
	}
	return nil, false
}
