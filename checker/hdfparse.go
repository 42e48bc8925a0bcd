package main

import (
	"fmt"
	"go/types"
	"slices"
	"sort"
	"strings"
)

// hdfParse reads a list of items as an HDF5 file, by the specification, and compares it with what
// was given to the writer.
type hdfParse struct {
	w     *hdfWriteCase
	prop  string
	its   []*emitItem
	at    []poly // where the items begin
	end   poly
	kind  string // of problems in what is being read
	parts []hdfPart
	byOH  map[string]*hdfObject // by address
	heaps map[string]map[int64]*hdfCur
	sizes map[string]map[int64]*Val
	ids   map[int64]string // of dimensions
	hash  string
}

type hdfPart struct {
	what   string
	lo, hi hdfPos
}

type hdfPos struct {
	i int
	o int64
}

func (p hdfPos) before(q hdfPos) bool { return p.i < q.i || p.i == q.i && p.o < q.o }

// hdfCur is a place in the file.
type hdfCur struct {
	q   *hdfParse
	pos hdfPos
	lim poly // where it has to end (nil: not limited)
}

type hdfStop struct{}

func (q *hdfParse) stop(format string, args ...interface{}) {
	q.w.problem(q.kind, format, args...)
	panic(hdfStop{})
}

func (q *hdfParse) bad(kind, format string, args ...interface{}) {
	q.w.problem(kind, format, args...)
}

// in reads something whose problems are of another kind.
func (q *hdfParse) in(kind string, f func()) {
	old := q.kind
	q.kind = kind
	f()
	q.kind = old
}

func (q *hdfParse) seek(addr *Val, what string) *hdfCur {
	a, ok := polyOf(addr)
	if !ok {
		q.bad("place", "the address of %s is not known: %s", what, showVal(addr))
		panic(hdfStop{})
	}
	for i, p := range q.at {
		d := a.add(p, -1)
		if d.sign() != 0 {
			continue
		}
		if d[""] == 0 {
			return &hdfCur{q: q, pos: hdfPos{i, 0}}
		}
		if it := q.its[i]; it.kind == 'x' && d[""] > 0 && d[""] < int64(len(it.bytes)) {
			return &hdfCur{q: q, pos: hdfPos{i, d[""]}}
		}
	}
	if a.val().Key() == q.end.val().Key() {
		return &hdfCur{q: q, pos: hdfPos{len(q.its), 0}}
	}
	q.bad("place", "the address of %s is %s, where nothing begins", what, showPoly(a))
	panic(hdfStop{})
}

func (c *hdfCur) offset() poly {
	if c.pos.i == len(c.q.its) {
		return c.q.end
	}
	return c.q.at[c.pos.i].add(poly{"": c.pos.o}, 1)
}

func (c *hdfCur) item() *emitItem {
	if c.pos.i >= len(c.q.its) {
		return nil
	}
	return c.q.its[c.pos.i]
}

func (c *hdfCur) found() string {
	if i := c.item(); i != nil {
		if i.kind == 'x' {
			return fmt.Sprintf("bytes % x", i.bytes[c.pos.o:min(int64(len(i.bytes)), c.pos.o+16)])
		}
		return i.String()
	}
	return "the end"
}

// byte gives the next byte, if it is known.
func (c *hdfCur) byte() (byte, bool) {
	i := c.item()
	if i == nil || i.kind != 'x' {
		return 0, false
	}
	b := i.bytes[c.pos.o]
	c.pos.o++
	if c.pos.o == int64(len(i.bytes)) {
		c.pos = hdfPos{c.pos.i + 1, 0}
	}
	return b, true
}

// num reads a number of n bytes, lowest first.
func (c *hdfCur) num(n int64, what string) *Val {
	i := c.item()
	if i != nil && i.kind == 'e' {
		if i.size != n || n > 1 && i.order != 'L' {
			c.q.stop("%s is %s, not a little-endian number of %d bytes", what, i, n)
		}
		c.pos = hdfPos{c.pos.i + 1, 0}
		if n < 4 {
			c.q.fits(i.val, n, what)
		}
		return i.val
	}
	x := uint64(0)
	for k := int64(0); k < n; k++ {
		b, ok := c.byte()
		if !ok {
			c.q.stop("%s of %d bytes expected, found %s", what, n, c.found())
		}
		x |= uint64(b) << uint(8*k)
	}
	return vInt(int64(x))
}

func (c *hdfCur) known(n int64, what string) int64 {
	v := c.num(n, what)
	x, ok := v.intVal()
	if !ok {
		c.q.stop("%s is not a constant: %s", what, showVal(v))
	}
	return x
}

func (c *hdfCur) want(n int64, v int64, what string) {
	if x := c.known(n, what); x != v {
		c.q.bad(c.q.kind, "%s is %d, it should be %d", what, x, v)
	}
}

func (c *hdfCur) magic(s, what string) {
	for k := 0; k < len(s); k++ {
		if b, ok := c.byte(); !ok || b != s[k] {
			c.q.bad("place", "there is no %s where one should be (at %s)", what, showPoly(c.offset()))
			panic(hdfStop{})
		}
	}
}

// cstr reads a string that ends with a zero byte.
func (c *hdfCur) cstr(what string) *Val {
	if i := c.item(); i != nil && i.kind == 's' && c.pos.o == 0 {
		c.pos = hdfPos{c.pos.i + 1, 0}
		c.want(1, 0, "the byte after "+what)
		return i.val
	}
	s := ""
	for {
		b, ok := c.byte()
		if !ok {
			c.q.stop("%s expected, found %s", what, c.found())
		}
		if b == 0 {
			return vStr(s)
		}
		s += string(rune(b))
	}
}

// text reads a string of n bytes.
func (c *hdfCur) text(n *Val, what string) *Val {
	if i := c.item(); i != nil && i.kind == 's' && c.pos.o == 0 {
		if i.n.Key() != n.Key() {
			c.q.stop("the length of %s is given as %s, it is %s", what, showVal(n), showVal(i.n))
		}
		c.pos = hdfPos{c.pos.i + 1, 0}
		return i.val
	}
	k, ok := n.intVal()
	if !ok {
		c.q.stop("%s expected, found %s", what, c.found())
	}
	s := ""
	for ; k > 0; k-- {
		b, ok := c.byte()
		if !ok {
			c.q.stop("%s expected, found %s", what, c.found())
		}
		s += string(rune(b))
	}
	return vStr(s)
}

// skip goes on by n bytes.
func (c *hdfCur) skip(n *Val, what string) {
	p, ok := polyOf(n)
	if !ok {
		c.q.stop("the size of %s is not known", what)
	}
	c.pos = c.q.seek(c.offset().add(p, 1).val(), "the end of "+what).pos
}

// pad skips zero bytes up to a multiple of 8 from a place.
func (c *hdfCur) pad(from poly, what string) {
	_, r, ok := c.offset().add(from, -1).split(8)
	if !ok {
		c.q.stop("the padding after %s cannot be computed", what)
	}
	for ; r%8 != 0; r++ {
		if b, ok := c.byte(); !ok || b != 0 {
			c.q.stop("there is no padding after %s", what)
		}
	}
}

// fits checks that a length fits a field of n bytes.
func (q *hdfParse) fits(v *Val, n int64, what string) {
	p, ok := polyOf(v)
	if !ok || p.sign() == 0 {
		return
	}
	max := poly{"": 1<<uint(8*n) - 1}
	for _, d := range q.w.bounds(q.prop) {
		r := d.add(p.add(max, -1), -1)
		if s := r.sign(); (s == 0 || s == 1) && r[""] >= 0 {
			return
		}
	}
	q.bad("fit", "%s is stored in %d bytes, but nothing makes sure that %s fits", what, n, showPoly(p))
}

// bounds lists polynomials that are at most zero on a path.
func (w *hdfWriteCase) bounds(prop string) []poly {
	var out []poly
	for _, c := range w.e.conds(prop) {
		q := w.a.Lin.conds[c.why]
		x, ok1 := polyOf(q.x)
		y, ok2 := polyOf(q.y)
		if !ok1 || !ok2 {
			continue
		}
		op := q.op
		if strings.HasPrefix(c.typ, "not ") {
			op = map[string]string{"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
		}
		d := x.add(y, -1)
		e := y.add(x, -1)
		one := poly{"": 1}
		switch op {
		case "<":
			out = append(out, d.add(one, 1))
		case "<=":
			out = append(out, d)
		case ">":
			out = append(out, e.add(one, 1))
		case ">=":
			out = append(out, e)
		case "==":
			out = append(out, d, e)
		}
	}
	return out
}

// used notes that a part of the file holds something.
func (q *hdfParse) used(what string, lo, hi *hdfCur) {
	if lo.pos == hi.pos {
		return
	}
	q.parts = append(q.parts, hdfPart{what, lo.pos, hi.pos})
}

// sum reads a checksum and checks what it is of.
func (q *hdfParse) sum(from, c *hdfCur, what string) {
	lo, hi := from.offset(), c.offset()
	v := c.num(4, "the checksum of "+what)
	its, ok := q.w.hash[v.s]
	if v.k != KTok || !ok {
		q.bad("checksum", "there is no checksum at the end of %s", what)
		return
	}
	name := v.s[:strings.IndexAny(v.s, "0123456789")]
	if q.hash == "" {
		q.hash = name
	}
	if name != q.hash {
		q.bad("checksum", "the checksum of %s is computed in another way", what)
	}
	want, ok := partItems(q.its, lo.val(), hi.add(lo, -1).val())
	if !ok {
		q.bad("checksum", "what the checksum of %s should cover is not known", what)
		return
	}
	if itemsKey(its) != itemsKey(want) {
		q.bad("checksum", "the checksum of %s is not that of all that is before it", what)
	}
}

func itemsKey(its []*emitItem) string {
	k := ""
	for _, i := range mergeBytes(its) {
		j := *i
		j.sink = ""
		k += j.key() + "\n"
	}
	return k
}

// ---------------------------------------------------------------- structures

type hType struct {
	class  int64
	size   *Val
	order  byte
	signed bool
	str    bool
	names  []*Val
	offs   []int64
	types  []*hType // of members; one: the base
	vals   []*Val
}

type hdfAttr struct {
	name *Val
	t    *hType
	dims []*Val
	data *hdfCur
	end  poly
}

type hdfObject struct {
	addr  string
	name  *Val // of the link to it
	group bool
	links []hdfLink
	attrs []*hdfAttr
	t     *hType
	dims  []*Val
	space bool
	data  *Val
	size  *Val
	lay   bool
}

type hdfLink struct {
	name *Val
	addr *Val
}

func (q *hdfParse) file() {
	q.kind = "message"
	begin := &hdfCur{q: q}
	c := &hdfCur{q: q}
	c.magic("\x89HDF\r\n\x1a\n", "signature")
	v := c.known(1, "the version of the superblock")
	if v != 2 && v != 3 {
		q.stop("the version of the superblock is %d", v)
	}
	c.want(1, 8, "the size of offsets")
	c.want(1, 8, "the size of lengths")
	c.want(1, 0, "the consistency flags")
	c.want(8, 0, "the base address")
	c.want(8, -1, "the address of the superblock extension")
	eof := c.num(8, "the end of the file")
	if eof.Key() != q.end.val().Key() {
		q.bad("place", "the end of the file is given as %s, it is %s", showVal(eof), showPoly(q.end))
	}
	root := c.num(8, "the address of the root group")
	q.sum(begin, c, "the superblock")
	q.used("the superblock", begin, c)
	o := q.object(root, vStr("/"))
	q.group(o, &q.w.spec.root, "", true)
	q.overlaps()
}

func (q *hdfParse) overlaps() {
	ps := q.parts
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].lo.before(ps[j].lo) })
	for i := 1; i < len(ps); i++ {
		if ps[i].lo.before(ps[i-1].hi) {
			q.bad("place", "%s and %s overlap", ps[i-1].what, ps[i].what)
		}
	}
}

// object reads an object header.
func (q *hdfParse) object(addr, name *Val) *hdfObject {
	if o := q.byOH[addr.Key()]; o != nil {
		return o
	}
	o := &hdfObject{addr: addr.Key(), name: name}
	q.byOH[addr.Key()] = o
	begin := q.seek(addr, "an object header")
	c := q.seek(addr, "an object header")
	c.magic("OHDR", "object header")
	c.want(1, 2, "the version of an object header")
	flags := c.known(1, "the flags of an object header")
	if flags&0xc0 != 0 {
		q.stop("the flags of an object header are %#x", flags)
	}
	if flags&0x20 != 0 {
		c.skip(vInt(16), "times")
	}
	if flags&0x10 != 0 {
		c.skip(vInt(4), "numbers of attributes")
	}
	size := c.num(1<<uint(flags&3), "the size of an object header")
	sp, ok := polyOf(size)
	if !ok {
		q.stop("the size of an object header is %s", showVal(size))
	}
	end := c.offset().add(sp, 1)
	nulls := false
	for {
		left := end.add(c.offset(), -1)
		if left.sign() == 0 && left[""] < 4 {
			for k := left[""]; k > 0; k-- {
				c.want(1, 0, "the end of an object header")
			}
			if left[""] < 0 {
				q.stop("the messages of an object header are longer than it")
			}
			if left[""] > 0 && nulls {
				q.bad("message", "an object header with null messages has a gap of %d bytes", left[""])
			}
			break
		}
		if left.sign() == 2 || left.sign() == -1 {
			q.stop("the end of the messages of an object header does not match its size")
		}
		t := c.known(1, "the type of a message")
		n := c.num(2, "the size of a message")
		mf := c.known(1, "the flags of a message")
		if flags&4 != 0 {
			c.skip(vInt(2), "creation order")
		}
		nulls = nulls || t == 0
		if mf != 0 && mf != 1 && mf != 4 {
			q.bad("message", "the flags of a message are %#x", mf)
		}
		np, ok := polyOf(n)
		if !ok {
			q.stop("the size of a message is %s", showVal(n))
		}
		m := *c
		m.lim = c.offset().add(np, 1)
		q.message(o, t, &m)
		if m.offset().val().Key() != m.lim.val().Key() {
			q.stop("a message of type %d has the size %s, its content ends %s bytes from there", t, showVal(n), showPoly(m.offset().add(m.lim, -1)))
		}
		c.pos = m.pos
	}
	q.sum(begin, c, "an object header")
	q.used("an object header", begin, c)
	return o
}

func (q *hdfParse) message(o *hdfObject, t int64, c *hdfCur) {
	switch t {
	case 0:
		left := c.lim.add(c.offset(), -1)
		if left.sign() != 0 || left[""] < 0 {
			q.stop("the size of a message without content is not known")
		}
		for k := left[""]; k > 0; k-- {
			c.want(1, 0, "the content of a null message")
		}
	case 1:
		if o.space {
			q.bad("message", "an object has two dataspaces")
		}
		o.space = true
		o.dims = q.dataspace(c)
	case 2:
		o.group = true
		c.want(1, 0, "the version of a link info message")
		f := c.known(1, "the flags of a link info message")
		if f&1 != 0 {
			c.skip(vInt(8), "creation order")
		}
		c.want(8, -1, "the address of the heap of links")
		c.want(8, -1, "the address of the index of links")
		if f&2 != 0 {
			c.want(8, -1, "the address of the index of links")
		}
	case 3:
		if o.t != nil {
			q.bad("message", "an object has two datatypes")
		}
		o.t = q.datatype(c)
	case 6:
		c.want(1, 1, "the version of a link message")
		f := c.known(1, "the flags of a link message")
		if f&8 != 0 {
			c.want(1, 0, "the type of a link")
		}
		if f&4 != 0 {
			c.skip(vInt(8), "creation order")
		}
		if f&16 != 0 {
			c.known(1, "the character set of a link")
		}
		n := c.num(1<<uint(f&3), "the length of the name of a link")
		name := c.text(n, "the name of a link")
		if name.k == KTok && q.w.a.Lin.lenOf(name.s).Key() != n.Key() {
			q.bad("message", "the length of the name of a link is given as %s", showVal(n))
		}
		o.links = append(o.links, hdfLink{name, c.num(8, "the address of a link")})
	case 8:
		if o.lay {
			q.bad("message", "an object has two layouts")
		}
		o.lay = true
		c.want(1, 3, "the version of a layout message")
		c.want(1, 1, "the class of a layout")
		o.data = c.num(8, "the address of data")
		o.size = c.num(8, "the size of data")
	case 10:
		c.want(1, 0, "the version of a group info message")
		c.want(1, 0, "the flags of a group info message")
	case 12:
		o.attrs = append(o.attrs, q.attribute(c))
	default:
		q.stop("a message has type %d", t)
	}
}

func (q *hdfParse) dataspace(c *hdfCur) []*Val {
	v := c.known(1, "the version of a dataspace")
	rank := c.known(1, "the rank of a dataspace")
	f := c.known(1, "the flags of a dataspace")
	switch v {
	case 1:
		c.want(1, 0, "a reserved byte of a dataspace")
		c.want(4, 0, "a reserved part of a dataspace")
	case 2:
		t := int64(1)
		if rank == 0 {
			t = 0
		}
		c.want(1, t, "the type of a dataspace")
	default:
		q.stop("the version of a dataspace is %d", v)
	}
	if rank > 32 || f&^1 != 0 {
		q.stop("a dataspace has rank %d and flags %#x", rank, f)
	}
	var out []*Val
	for k := int64(0); k < rank; k++ {
		out = append(out, c.num(8, "a dimension of a dataspace"))
	}
	if f&1 != 0 {
		for k := int64(0); k < rank; k++ {
			c.num(8, "a maximal dimension of a dataspace")
		}
	}
	return out
}

func (q *hdfParse) attribute(c *hdfCur) *hdfAttr {
	begin := c.offset()
	v := c.known(1, "the version of an attribute")
	if v != 1 && v != 3 {
		q.stop("the version of an attribute is %d", v)
	}
	c.want(1, 0, "a reserved byte of an attribute")
	nn := c.num(2, "the size of the name of an attribute")
	tn := c.num(2, "the size of the datatype of an attribute")
	sn := c.num(2, "the size of the dataspace of an attribute")
	if v == 3 {
		c.known(1, "the character set of an attribute")
	}
	part := func(n *Val, what string, f func()) {
		p, ok := polyOf(n)
		if !ok {
			q.stop("the size of %s is %s", what, showVal(n))
		}
		end := c.offset().add(p, 1)
		f()
		if c.offset().val().Key() != end.val().Key() {
			q.stop("%s has the size %s, its content ends %s bytes from there", what, showVal(n), showPoly(c.offset().add(end, -1)))
		}
		if v == 1 {
			c.pad(begin, what)
		}
	}
	a := &hdfAttr{}
	part(nn, "the name of an attribute", func() { a.name = c.cstr("the name of an attribute") })
	part(tn, "the datatype of an attribute", func() { a.t = q.datatype(c) })
	part(sn, "the dataspace of an attribute", func() { a.dims = q.dataspace(c) })
	d := *c
	a.data = &d
	a.end = c.lim
	if n := q.total(a.t, a.dims); n != nil {
		// the content has to be there
		e := c.offset().add(n, 1)
		if e.val().Key() != c.lim.val().Key() {
			q.stop("the message of an attribute ends %s bytes from the end of its values", showPoly(c.lim.add(e, -1)))
		}
	}
	c.pos = q.seek(c.lim.val(), "the end of an attribute").pos
	return a
}

// total is the size of all elements.
func (q *hdfParse) total(t *hType, dims []*Val) poly {
	n, ok := polyOf(t.size)
	if !ok {
		return nil
	}
	for _, d := range dims {
		p, ok := polyOf(d)
		if !ok {
			return nil
		}
		n = n.mul(p)
	}
	return n
}

func (q *hdfParse) datatype(c *hdfCur) *hType {
	var t *hType
	q.in("datatype", func() { t = q.datatype0(c) })
	return t
}

func (q *hdfParse) datatype0(c *hdfCur) *hType {
	vc := c.known(1, "the class and version of a datatype")
	ver, class := vc>>4, vc&15
	b0 := c.known(1, "the bit field of a datatype")
	b1 := c.known(1, "the bit field of a datatype")
	b2 := c.known(1, "the bit field of a datatype")
	bits := b0 | b1<<8 | b2<<16
	t := &hType{class: class, size: c.num(4, "the size of a datatype")}
	sz, _ := t.size.intVal()
	if ver < 1 || ver > 3 {
		q.stop("the version of a datatype of class %d is %d", class, ver)
	}
	order := func() {
		t.order = 'L'
		if bits&1 != 0 {
			t.order = 'B'
		}
	}
	zero := func(mask int64) {
		if bits&^mask != 0 {
			q.bad("datatype", "the bit field of a datatype of class %d is %#x", class, bits)
		}
	}
	switch class {
	case 0:
		order()
		zero(9)
		t.signed = bits&8 != 0
		c.want(2, 0, "the bit offset of an integer")
		c.want(2, 8*sz, "the precision of an integer")
	case 1:
		order()
		zero(0xff21)
		if bits&0x30 != 0x20 {
			q.bad("datatype", "the normalization of a floating-point number is %d", bits>>4&3)
		}
		if bits>>8&255 != 8*sz-1 {
			q.bad("datatype", "the sign of a floating-point number of %d bytes is at bit %d", sz, bits>>8&255)
		}
		ieee := map[int64][4]int64{4: {23, 8, 23, 127}, 8: {52, 11, 52, 1023}}[sz]
		c.want(2, 0, "the bit offset of a floating-point number")
		c.want(2, 8*sz, "the precision of a floating-point number")
		c.want(1, ieee[0], "the location of the exponent")
		c.want(1, ieee[1], "the size of the exponent")
		c.want(1, 0, "the location of the mantissa")
		c.want(1, ieee[2], "the size of the mantissa")
		c.want(4, ieee[3], "the bias of the exponent")
	case 3:
		if bits&15 > 2 || bits>>4 > 1 {
			q.bad("datatype", "the bit field of a string is %#x", bits)
		}
	case 5:
		if bits%8 != 0 || bits > 255 {
			q.bad("datatype", "the length of the tag of an opaque type is %d", bits)
		}
		c.skip(vInt(bits), "the tag of an opaque type")
	case 6:
		if ver != 3 {
			q.stop("the version of a compound is %d", ver)
		}
		width := int64(1)
		for x := sz; x > 255; x >>= 8 {
			width++
		}
		for k := int64(0); k < bits; k++ {
			t.names = append(t.names, c.cstr("the name of a member"))
			t.offs = append(t.offs, c.known(width, "the offset of a member"))
			t.types = append(t.types, q.datatype0(c))
		}
	case 7:
		zero(0)
		if sz != 8 {
			q.bad("datatype", "the size of a reference is %d", sz)
		}
	case 8:
		if ver != 3 {
			q.stop("the version of an enumeration is %d", ver)
		}
		base := q.datatype0(c)
		t.types = []*hType{base}
		t.order, t.signed = base.order, base.signed
		for k := int64(0); k < bits; k++ {
			t.names = append(t.names, c.cstr("the name of a member"))
		}
		if base.class != 0 || base.size.Key() != t.size.Key() {
			q.bad("datatype", "an enumeration of %d bytes has a base of class %d", sz, base.class)
		}
		for k := int64(0); k < bits; k++ {
			t.vals = append(t.vals, q.value1(c, base, "the value of a member"))
		}
	case 9:
		if bits&15 > 1 || bits>>4&15 > 2 || bits>>8 > 1 {
			q.bad("datatype", "the bit field of a variable-length type is %#x", bits)
		}
		t.str = bits&15 == 1
		if sz != 16 {
			q.bad("datatype", "the size of a variable-length type is %d", sz)
		}
		t.types = []*hType{q.datatype0(c)}
		if b := t.types[0]; t.str && (b.size.Key() != vInt(1).Key() || b.class != 3 && b.class != 0) {
			q.bad("datatype", "a string has elements of class %d and size %s", b.class, showVal(b.size))
		}
	default:
		q.stop("the class of a datatype is %d", class)
	}
	return t
}

// value1 reads one number.
func (q *hdfParse) value1(c *hdfCur, t *hType, what string) *Val {
	n, _ := t.size.intVal()
	i := c.item()
	if i == nil || i.kind != 'e' || i.size != n || n > 1 && i.order != t.order {
		q.stop("%s of %d bytes expected, found %s", what, n, c.found())
	}
	c.pos = hdfPos{c.pos.i + 1, 0}
	return i.val
}

// ---------------------------------------------------------------- what was given

func hSize(b types.BasicKind) int64 { return numSize(types.Typ[b]) }

// levels gives the dimensions of a value and what its elements are.
func (n *hNode) levels(nd int) ([]int, *hNode) {
	if n.kind == 'e' && n.elem.kind == 'l' {
		d, e := n.elem.levels(nd)
		m := *n
		m.elem = e
		return d, &m
	}
	if nd == 0 || n.kind != 'l' {
		return nil, n
	}
	d, e := n.elem.levels(nd - 1)
	if len(n.elems) > 0 {
		d, e = n.elems[0].levels(nd - 1)
	}
	return append([]int{len(n.elems)}, d...), e
}

// attrDims is the number of dimensions of an attribute: lists of lists of different lengths are
// lists of sequences.
func (n *hNode) attrDims() int {
	if n.kind == 'e' {
		return n.elem.attrDims()
	}
	if n.kind != 'l' {
		return 0
	}
	if n.elem.kind == 'l' {
		for _, e := range n.elems {
			if len(e.elems) != len(n.elems[0].elems) {
				return 1
			}
		}
		if len(n.elems) == 0 {
			return 1
		}
		return 1 + n.elems[0].attrDims()
	}
	return 1
}

// sameType compares a datatype with a value. vlen: strings are of variable length.
func (q *hdfParse) sameType(t *hType, n *hNode, vlen bool, what string) {
	class := func(want int64, of string) {
		if t.class != want {
			q.stop("%s: %s has a datatype of class %d, it should be %d", what, of, t.class, want)
		}
	}
	sized := func(want int64, of string) {
		if t.size.Key() != vInt(want).Key() {
			q.bad("datatype", "%s: %s has the size %s, it should be %d", what, of, showVal(t.size), want)
		}
	}
	switch n.kind {
	case 'n':
		b := types.Typ[n.basic]
		if isFloat(b) {
			class(1, b.Name())
		} else {
			class(0, b.Name())
			if t.signed != (b.Info()&types.IsUnsigned == 0) {
				q.bad("datatype", "%s: %s has the wrong sign", what, b.Name())
			}
		}
		sized(hSize(n.basic), b.Name())
	case 's':
		if vlen {
			class(9, "a string")
			if !t.str {
				q.bad("datatype", "%s: a string is written as a sequence", what)
			}
			return
		}
		class(3, "a string")
		l, _ := polyOf(q.w.a.Lin.lenOf("s!text" + n.id))
		p, ok := polyOf(t.size)
		if d := p.add(l, -1); !ok || d.sign() != 0 || d[""] < 1 {
			q.bad("datatype", "%s: a string of length %s has the size %s", what, showPoly(l), showVal(t.size))
		}
	case 'o':
		class(5, "an opaque value")
		sized(n.n, "an opaque value")
	case 'e':
		class(8, "an enumeration")
		q.sameType(&hType{class: 0, size: t.size, signed: t.signed}, n.base(), false, what)
		if len(t.names) != len(n.names) {
			q.stop("%s: an enumeration has %d members, it should have %d", what, len(t.names), len(n.names))
		}
		for i, m := range n.names {
			if t.names[i].s != m {
				q.bad("datatype", "%s: member %d of an enumeration is called %s", what, i, t.names[i].Key())
			}
			if _, k := dataTok(t.vals[i]); k != n.id+".m"+itoa(int64(i)) {
				q.bad("datatype", "%s: member %d of an enumeration has the value %s", what, i, t.vals[i].Key())
			}
		}
	case 'l':
		class(9, "a sequence")
		if t.str {
			q.bad("datatype", "%s: a sequence is written as a string", what)
		}
		e := n.elem
		if len(n.elems) > 0 {
			e = n.elems[0]
		}
		q.sameType(t.types[0], e, true, what)
	case 'c':
		class(6, "a compound")
		if len(t.types) != len(n.elems) {
			q.stop("%s: a compound has %d members, it should have %d", what, len(t.types), len(n.elems))
		}
		off := int64(0)
		for i, f := range n.elems {
			if t.names[i].s != n.names[i] {
				q.bad("datatype", "%s: member %d of a compound is called %s", what, i, t.names[i].Key())
			}
			if t.offs[i] != off {
				q.bad("datatype", "%s: member %d of a compound is at %d, it should be at %d", what, i, t.offs[i], off)
			}
			q.sameType(t.types[i], f, true, what)
			s, ok := t.types[i].size.intVal()
			if !ok {
				q.stop("%s: the size of a member is not known", what)
			}
			off += s
		}
		sized(off, "a compound")
	}
}

func (q *hdfParse) sameDims(dims []*Val, want []int, what string) {
	if len(dims) != len(want) {
		q.stop("%s has %d dimensions, it should have %d", what, len(dims), len(want))
	}
	for i, n := range want {
		if dims[i].Key() != vInt(int64(n)).Key() {
			q.bad("message", "dimension %d of %s has the length %s, it should be %d", i, what, showVal(dims[i]), n)
		}
	}
}

// values reads values and compares them with what was given.
func (q *hdfParse) values(c *hdfCur, t *hType, n *hNode, nd int, vlen bool, what string) {
	if n.kind == 'e' && n.elem.kind == 'l' {
		q.values(c, t, n.elem, nd, vlen, what)
		return
	}
	if nd > 0 && n.kind == 'l' {
		for _, e := range n.elems {
			q.values(c, t, e, nd-1, vlen, what)
		}
		return
	}
	switch n.kind {
	case 'n', 'e':
		for n.kind == 'e' {
			n = n.elem
		}
		v := q.value1(c, t, what)
		a, an := dataTok(v)
		if an != n.id || a != types.Typ[n.basic].Name() && !sameBits(a, types.Typ[n.basic].Name()) {
			q.bad("value", "%s: %s is written where %s belongs", what, v.s, n.id)
		}
	case 'o':
		if i := c.item(); n.n > hdfLong && i != nil && i.kind == 'r' && c.pos.o == 0 {
			if i.from != "V<"+n.id+">" || i.size != 1 || i.off.Key() != vInt(0).Key() || i.n.Key() != vInt(n.n).Key() {
				q.bad("value", "%s: %s is written where %s belongs", what, i, n.id)
			}
			c.pos = hdfPos{c.pos.i + 1, 0}
			return
		}
		for k := int64(0); k < n.n; k++ {
			v := q.value1(c, &hType{size: vInt(1)}, what)
			if _, an := dataTok(v); an != n.id+"["+itoa(k)+"]" {
				q.bad("value", "%s: %s is written where %s[%d] belongs", what, v.s, n.id, k)
			}
		}
	case 's':
		if vlen {
			q.heapValue(c, n, q.w.a.Lin.lenOf("s!text"+n.id), t, what)
			return
		}
		l := q.w.a.Lin.lenOf("s!text" + n.id)
		q.stringIs(c, n, l, what)
		s, _ := polyOf(t.size)
		lp, _ := polyOf(l)
		for k := s.add(lp, -1)[""]; k > 0; k-- {
			c.want(1, 0, "the padding of a string")
		}
	case 'l':
		q.heapValue(c, n, vInt(int64(len(n.elems))), t, what)
	case 'c':
		for i, f := range n.elems {
			q.values(c, t.types[i], f, 0, true, what)
		}
	}
}

func (q *hdfParse) stringIs(c *hdfCur, n *hNode, l *Val, what string) {
	if k, ok := l.intVal(); ok && k == 0 {
		return
	}
	if v := c.text(l, what); v.s != "s!text"+n.id {
		q.bad("value", "%s: the string %s is written where %s belongs", what, v.Key(), n.id)
	}
}

// heapValue follows a descriptor to the global heap.
func (q *hdfParse) heapValue(c *hdfCur, n *hNode, l *Val, t *hType, what string) {
	if v := c.num(4, "the length of "+what); v.Key() != l.Key() {
		q.bad("value", "%s: the length is given as %s, it is %s", what, showVal(v), showVal(l))
	}
	addr := c.num(8, "the address of the heap of "+what)
	idx := c.known(4, "the index in the heap of "+what)
	if k, ok := addr.intVal(); ok && (k == 0 || k == -1) && l.Key() == vInt(0).Key() {
		return // no list, which is like one that is empty
	}
	d, size := q.heapObject(addr, idx, what)
	if k, ok := l.intVal(); ok && k == 0 && size.Key() == l.Key() {
		return
	}
	begin := d.offset()
	if n.kind == 's' {
		q.stringIs(d, n, l, what)
	} else {
		for _, e := range n.elems {
			q.values(d, t.types[0], e, 0, true, what)
		}
	}
	if got := d.offset().add(begin, -1).val(); got.Key() != size.Key() {
		q.bad("place", "the size of an object in the heap is given as %s, it is %s", showVal(size), showVal(got))
	}
}

// heapObject finds an object in a global heap.
func (q *hdfParse) heapObject(addr *Val, idx int64, what string) (*hdfCur, *Val) {
	k := addr.Key()
	if q.heaps[k] == nil {
		q.in("place", func() { q.heap(addr) })
	}
	c := q.heaps[k][idx]
	if c == nil {
		q.bad("place", "%s refers to object %d of the heap, which does not exist", what, idx)
		panic(hdfStop{})
	}
	d := *c
	return &d, q.sizes[k][idx]
}

func (q *hdfParse) heap(addr *Val) {
	k := addr.Key()
	q.heaps[k] = map[int64]*hdfCur{}
	q.sizes[k] = map[int64]*Val{}
	begin := q.seek(addr, "a heap")
	c := q.seek(addr, "a heap")
	start := c.offset()
	if _, r, ok := start.split(8); !ok || r%8 != 0 {
		q.bad("place", "a heap begins at %s, which is not a multiple of 8", showPoly(start))
	}
	c.magic("GCOL", "heap")
	c.want(1, 1, "the version of a heap")
	c.want(1, 0, "a reserved byte of a heap")
	c.want(2, 0, "a reserved part of a heap")
	size, ok := polyOf(c.num(8, "the size of a heap"))
	if !ok {
		q.stop("the size of a heap is not known")
	}
	if s := size.sign(); s != 0 && s != 1 || size[""] < 4096 {
		if !q.atLeast(size, 4096) {
			q.bad("place", "the size of a heap is %s, less than 4096", showPoly(size))
		}
	}
	end := start.add(size, 1)
	for {
		left := end.add(c.offset(), -1)
		if left.sign() == 0 && left[""] < 16 {
			if left[""] < 0 {
				q.stop("the objects of a heap are longer than it")
			}
			for n := left[""]; n > 0; n-- {
				c.want(1, 0, "the rest of a heap")
			}
			break
		}
		at := c.offset()
		idx := c.num(2, "the index of an object in a heap")
		refs := c.known(2, "the references to an object in a heap")
		c.want(4, 0, "a reserved part of an object in a heap")
		n := c.num(8, "the size of an object in a heap")
		np, ok := polyOf(n)
		i, ok2 := idx.intVal()
		if !ok || !ok2 {
			q.stop("an object in a heap has the index %s and the size %s", showVal(idx), showVal(n))
		}
		_ = refs
		if i == 0 {
			// the free space, with its header, is what is left
			if d := end.add(at, -1); d.val().Key() != n.Key() {
				q.bad("place", "the free space of a heap is given as %s, it is %s", showVal(n), showPoly(d))
			}
			c = q.seek(end.val(), "the end of a heap")
			break
		}
		if q.heaps[k][i] != nil {
			q.stop("there are two objects with the index %d in a heap", i)
		}
		d := *c
		q.heaps[k][i] = &d
		q.sizes[k][i] = n
		from := c.offset()
		c.pos = q.seek(from.add(np, 1).val(), "the end of an object in a heap").pos
		c.pad(from, "an object in a heap")
	}
	if c.offset().val().Key() != end.val().Key() {
		q.stop("a heap ends at %s, its size says %s", showPoly(c.offset()), showPoly(end))
	}
	q.used("a heap", begin, c)
}

// atLeast proves a bound with the conditions of the path.
func (q *hdfParse) atLeast(p poly, n int64) bool {
	for _, d := range q.w.bounds(q.prop) {
		// d <= 0; p - n >= 0 follows when p - n + d has no negative part
		r := p.add(poly{"": n}, -1).add(d, 1)
		if s := r.sign(); (s == 0 || s == 1) && r[""] >= 0 {
			return true
		}
	}
	return false
}

// attrs compares the attributes with those given. The extra ones may be there too; the writer's own
// take the place of those given that have their names.
func (q *hdfParse) attrs(o *hdfObject, all []hAttr, what string, extra map[string]bool, own ...string) {
	var given []hAttr
	for _, g := range all {
		if g.key[0] != '=' || !slices.Contains(own, g.key[1:]) {
			given = append(given, g)
		}
	}
	seen := map[string]bool{}
	for _, a := range o.attrs {
		if seen[a.name.Key()] {
			q.bad("message", "%s has two attributes called %s", what, a.name.Key())
		}
		seen[a.name.Key()] = true
		var g *hAttr
		for i := range given {
			if a.name.Key() == given[i].name().Key() {
				g = &given[i]
			}
		}
		if g == nil {
			if s, ok := a.name.strVal(); !ok || !extra[s] {
				q.bad("message", "%s gets an attribute called %s", what, a.name.Key())
			}
			continue
		}
		w := "an attribute of " + what
		nd := g.val.attrDims()
		dims, _ := g.val.levels(nd)
		q.in("message", func() { q.sameDims(a.dims, dims, w) })
		_, e := g.val.levels(nd)
		q.in("datatype", func() { q.sameType(a.t, e, nd > 0, w) })
		q.in("value", func() {
			c := *a.data
			q.values(&c, a.t, g.val, nd, nd > 0, w)
			if c.offset().val().Key() != a.end.val().Key() {
				q.stop("the values of %s end at %s instead of %s", w, showPoly(c.offset()), showPoly(a.end))
			}
		})
	}
	for _, g := range given {
		if !seen[g.name().Key()] {
			q.bad("message", "%s does not get the attribute %s", what, g.key)
		}
	}
}

func (q *hdfParse) dataset(o *hdfObject, v *hVar, what string) {
	if o.t == nil || !o.space || !o.lay || o.group || len(o.links) > 0 {
		q.stop("%s has no datatype, dataspace and layout", what)
	}
	nd := len(v.dims)
	dims, e := v.val.levels(nd)
	q.in("message", func() { q.sameDims(o.dims, dims, what) })
	q.in("datatype", func() { q.sameType(o.t, e, nd > 0, what) })
	if q.data(o, what) {
		q.in("value", func() {
			c := q.seek(o.data, "the data of "+what)
			q.values(c, o.t, v.val, nd, nd > 0, what)
			size, _ := polyOf(o.size)
			d, _ := polyOf(o.data)
			if end := d.add(size, 1); c.offset().val().Key() != end.val().Key() {
				q.stop("the values of %s end at %s instead of %s", what, showPoly(c.offset()), showPoly(end))
			}
		})
	}
}

// data checks the place of the data of a dataset.
func (q *hdfParse) data(o *hdfObject, what string) bool {
	n := q.total(o.t, o.dims)
	size, ok := polyOf(o.size)
	if n == nil || !ok {
		q.bad("place", "the size of the data of %s is not known", what)
		return false
	}
	if size.val().Key() != n.val().Key() {
		q.bad("place", "the size of the data of %s is given as %s, it is %s", what, showPoly(size), showPoly(n))
		return false
	}
	if n.sign() == 0 && n[""] == 0 {
		return false
	}
	lo := q.seek(o.data, "the data of "+what)
	hi := *lo
	hi.skip(size.val(), "the data of "+what)
	q.used("the data of "+what, lo, &hi)
	return true
}

// constAttr gives the string that an attribute is.
func (q *hdfParse) constAttr(o *hdfObject, name string) (string, bool) {
	for _, a := range o.attrs {
		if s, ok := a.name.strVal(); ok && s == name && a.t.class == 3 && len(a.dims) == 0 {
			c := *a.data
			v := c.text(vInt(q.constSize(a.t)), "the attribute "+name)
			s, ok := v.strVal()
			if i := strings.IndexByte(s, 0); i >= 0 {
				s = s[:i]
			}
			return s, ok
		}
	}
	return "", false
}

func (q *hdfParse) constSize(t *hType) int64 {
	n, ok := t.size.intVal()
	if !ok {
		q.stop("the size of a string is not known")
	}
	return n
}

func (q *hdfParse) attr(o *hdfObject, name string) *hdfAttr {
	for _, a := range o.attrs {
		if s, ok := a.name.strVal(); ok && s == name {
			return a
		}
	}
	return nil
}

var scaleAttrs = map[string]bool{"CLASS": true, "NAME": true, "_Netcdf4Dimid": true, "_Netcdf4Coordinates": true, "REFERENCE_LIST": true, "DIMENSION_LIST": true}

// group compares a group with what was given.
func (q *hdfParse) group(o *hdfObject, g *hGroup, path string, root bool) {
	what := "the root group"
	extra := map[string]bool{"_NCProperties": true}
	if !root {
		what = "a group"
		extra = nil
	}
	if !o.group || o.t != nil || o.lay || o.space {
		q.stop("%s is not a group", what)
	}
	seen := map[string]*hdfLink{}
	for i := range o.links {
		l := &o.links[i]
		if seen[l.name.s] != nil {
			q.bad("message", "%s has two links called %s", what, l.name.Key())
		}
		seen[l.name.s] = l
	}
	for _, l := range o.links {
		q.object(l.addr, l.name)
	}
	q.attrs(o, g.attrs, what, extra)
	names := map[string]bool{}
	for i := range g.vars {
		v := &g.vars[i]
		names[v.name] = true
		l := seen[v.name]
		if l == nil {
			q.bad("message", "%s has no link to the variable %s", what, v.name)
			continue
		}
		d := q.object(l.addr, l.name)
		vw := "a variable"
		q.dataset(d, v, vw)
		own := []string{"DIMENSION_LIST"}
		if len(v.dims) == 1 && v.dims[0] == v.name {
			own = []string{"CLASS", "NAME", "_Netcdf4Dimid"}
		} else if len(v.dims) == 0 {
			own = nil
		}
		q.attrs(d, v.attrs, vw, scaleAttrs, own...)
		q.in("dims", func() { q.dimensions(d, v) })
	}
	for i := range g.groups {
		s := &g.groups[i]
		names[s.name] = true
		l := seen[s.name]
		if l == nil {
			q.bad("message", "%s has no link to the group %s", what, s.name)
			continue
		}
		q.group(q.object(l.addr, l.name), s, path+s.name[2:]+".", false)
	}
	// what else there is has to be dimensions
	for _, l := range o.links {
		if names[l.name.s] {
			continue
		}
		d := q.object(l.addr, l.name)
		if s, _ := q.constAttr(d, "CLASS"); s != "DIMENSION_SCALE" {
			q.bad("message", "%s gets a link to something called %s", what, l.name.Key())
			continue
		}
		if d.t == nil || !d.space || !d.lay {
			q.stop("a dimension has no datatype, dataspace and layout")
		}
		q.data(d, "a dimension")
		q.attrs(d, nil, "a dimension", scaleAttrs)
		q.in("dims", func() {
			n := int64(-1)
			if len(d.dims) == 1 {
				n, _ = d.dims[0].intVal()
			}
			s, _ := q.constAttr(d, "NAME")
			if s != fmt.Sprintf("This is a netCDF dimension but not a netCDF variable.%10d", n) {
				q.bad("dims", "a dimension of length %d has the name %q", n, s)
			}
		})
	}
}

// dimensions checks that a variable refers to its dimensions.
func (q *hdfParse) dimensions(o *hdfObject, v *hVar) {
	named := 0
	own := false
	for _, d := range v.dims {
		if d != "" {
			named++
		}
		if d == v.name {
			own = true
		}
	}
	if named == 0 || named < len(v.dims) {
		return
	}
	if own && len(v.dims) == 1 {
		q.scale(o, "a coordinate variable")
		return
	}
	a := q.attr(o, "DIMENSION_LIST")
	if a == nil {
		q.stop("a variable with %d dimensions has no DIMENSION_LIST", len(v.dims))
	}
	if a.t.class != 9 || a.t.str || a.t.types[0].class != 7 || len(a.dims) != 1 || a.dims[0].Key() != vInt(int64(len(v.dims))).Key() {
		q.stop("the DIMENSION_LIST of a variable with %d dimensions is not a list of so many lists of references", len(v.dims))
	}
	c := *a.data
	lens, _ := v.val.levels(len(v.dims))
	for i, name := range v.dims {
		c.want(4, 1, "the number of references to a dimension")
		addr := c.num(8, "the address of the heap of references")
		idx := c.known(4, "the index in the heap of a reference")
		d, size := q.heapObject(addr, idx, "a reference to a dimension")
		if size.Key() != vInt(8).Key() {
			q.bad("dims", "a reference has the size %s", showVal(size))
		}
		ref := d.num(8, "a reference")
		s := q.byOH[ref.Key()]
		if s == nil {
			s = q.object(ref, vStr("?"))
		}
		q.scale(s, "a dimension")
		if s.name.s != name {
			q.bad("dims", "dimension %d of a variable is called %s, it should be %s", i, s.name.Key(), name)
		}
		if len(s.dims) > 0 && i < len(lens) && s.dims[0].Key() != vInt(int64(lens[i])).Key() {
			q.bad("dims", "dimension %d of a variable has the length %s, it should be %d", i, showVal(s.dims[0]), lens[i])
		}
	}
}

// scale checks that an object is a dimension.
func (q *hdfParse) scale(o *hdfObject, what string) {
	if s, ok := q.constAttr(o, "CLASS"); !ok || s != "DIMENSION_SCALE" {
		q.stop("%s has the CLASS %q", what, s)
	}
	if q.attr(o, "NAME") == nil {
		q.bad("dims", "%s has no NAME", what)
	}
	a := q.attr(o, "_Netcdf4Dimid")
	if a == nil || a.t.class != 0 || len(a.dims) != 0 {
		q.stop("%s has no _Netcdf4Dimid", what)
	}
	c := *a.data
	id := c.known(4, "the _Netcdf4Dimid of "+what)
	if old := q.ids[id]; old != "" && old != o.addr {
		q.bad("dims", "two dimensions have the _Netcdf4Dimid %d", id)
	}
	q.ids[id] = o.addr
}

func (w *hdfWriteCase) parse(prop string) {
	q := &hdfParse{w: w, prop: prop, its: w.e.items(prop), end: poly{}, kind: "message", byOH: map[string]*hdfObject{}, heaps: map[string]map[int64]*hdfCur{}, sizes: map[string]map[int64]*Val{}, ids: map[int64]string{}}
	for _, i := range q.its {
		q.at = append(q.at, q.end)
		l := i.length()
		if i.kind == '?' || l == nil {
			w.undecided("what is written is not known: %s", i)
			return
		}
		q.end = q.end.add(l, 1)
	}
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(hdfStop); !ok {
				panic(x)
			}
		}
	}()
	q.file()
}
