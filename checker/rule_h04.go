package main

import "fmt"

// H04: what the reader does not implement is an error.

func init() {
	rules["H04"] = ruleH04
}

// bitsClear gives the bytes in which the bits of the mask are zero.
func bytesWhere(ok func(b int) bool) ivals {
	var s ivals
	for b := 0; b < 256; b++ {
		if ok(b) {
			s = append(s, [2]uint64{uint64(b), uint64(b)})
		}
	}
	return s.norm()
}

func ruleH04(p *Prog, r *Report) {
	r.explain("Every field of the HDF5 format that selects a feature (message type, layout class, filter, link type, dataspace type, datatype class and its properties, sizes of offsets, kinds of nodes and symbol table entries, the parameters of fractal heaps, the flag of shared messages) is followed symbolically from where it is read, at its byte offset in the structure, as the set of its possible values. Every comparison splits the set; the values that reach a normal end must be those the reader implements.")
	s := p.pinSetup(r)
	if s.disp == nil {
		return
	}
	// kinds of messages
	q := s.message(p, 0)
	q.trackMsg = true
	r.obl("feature", "message type")
	q.run(r)
	q.judge(r, "feature", "message type", "type", setOf(0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 21, 22), true)

	n := 0
	msg := func(ty int64, what, field string, legal ivals, steps ...step) {
		n++
		s.message(p, ty, steps...).limit(r, "feature", what, field, legal)
	}
	// shared messages: the type, size and flags come before the message itself
	for _, m := range []struct {
		ty   int64
		name string
	}{{1, "dataspace"}, {3, "datatype"}, {5, "fill value"}, {0xb, "filter pipeline"}, {0xc, "attribute"}} {
		q := s.message(p, m.ty, skipBytes(1), want(8, 2), track("flags", 1))
		q.alt = []step{skipBytes(2), want(8, 2), track("flags", 1)}
		q.waiting = true
		n++
		q.limit(r, "feature", "shared "+m.name+" message", "flags", bytesWhere(func(b int) bool { return b&2 == 0 }))
	}
	msg(8, "layout class, version 3", "class", setOf(0, 1, 2), want(3, 1), track("class", 1))
	msg(8, "layout class, version 4", "class", setOf(0, 1), want(4, 1), track("class", 1))
	filters := setOf(1, 2, 3)
	msg(0xb, "filter, version 1", "filter", filters, want(1, 1), want(1, 1), want(0, 2), want(0, 4), track("filter", 2))
	msg(0xb, "filter, version 2", "filter", filters, want(2, 1), want(1, 1), track("filter", 2))
	msg(6, "link type", "type", setOf(0), want(1, 1), want(8, 1), track("type", 1))
	msg(1, "dataspace type", "type", setOf(0, 1, 2), want(2, 1), skipBytes(2), track("type", 1))
	msg(1, "dataspace permutation", "flags", bytesWhere(func(b int) bool { return b&2 == 0 }), want(1, 1), skipBytes(1), track("flags", 1))
	for v := int64(2); v <= 3; v++ {
		msg(0xc, fmt.Sprintf("attribute with shared parts, version %d", v), "flags", bytesWhere(func(b int) bool { return b&3 == 0 }), want(v, 1), track("flags", 1))
	}
	// datatypes
	const typed = 3
	msg(typed, "datatype class", "class", bytesWhere(func(b int) bool { return b&15 <= 10 && b>>4 >= 1 && b>>4 <= 4 }), track("class", 1))
	// classes that are rejected by what the class selects
	for v := int64(1); v <= 4; v++ {
		reject := []int64{4}
		if v > 1 {
			reject = append(reject, 1, 3, 7)
		}
		for _, class := range reject {
			q := s.message(p, typed, want(v<<4|class, 1))
			what := fmt.Sprintf("datatype class %d version %d", class, v)
			n++
			r.obl("feature", what)
			q.run(r)
			r.check(q.ran, "feature", what, p.pos(q.f), "the place where this is read was not found")
			for _, at := range q.survived {
				r.fail("feature", what, p.pos(at), "this is accepted although the reader does not implement it")
			}
		}
	}
	msg(typed, "integer padding and sign", "bits", bytesWhere(func(b int) bool { return b&6 == 0 }), want(0x10, 1), track("bits", 1), want(0, 2), want(4, 4))
	msg(typed, "integer bit offset", "offset", setOf(0), want(0x10, 1), want(0, 3), want(4, 4), track("offset", 2))
	for _, size := range []int64{1, 2, 4, 8} {
		msg(typed, fmt.Sprintf("integer precision, size %d", size), "precision", setOf(uint64(8*size)), want(0x10, 1), want(0, 3), want(size, 4), want(0, 2), track("precision", 2))
	}
	msg(typed, "integer size", "size", setOf(1, 2, 4, 8), want(0x10, 1), want(0, 3), track("size", 4))
	msg(typed, "float padding and byte order", "bits", bytesWhere(func(b int) bool { return b&0x7e == 0x20 }), want(0x11, 1), track("bits", 1), want(31, 1), want(0, 1), want(4, 4))
	msg(typed, "float size", "size", setOf(4, 8), want(0x11, 1), skipBytes(3), track("size", 4))
	for _, f := range []struct{ size, sign, prec, eloc, esize, mloc, msize, bias int64 }{
		{4, 31, 32, 23, 8, 0, 23, 127}, {8, 63, 64, 52, 11, 0, 52, 1023}} {
		fields := []struct {
			name string
			size int
			val  int64
		}{{"sign location", 1, f.sign}, {"", 1, 0}, {"", 4, f.size}, {"bit offset", 2, 0}, {"precision", 2, f.prec}, {"exponent location", 1, f.eloc}, {"exponent size", 1, f.esize}, {"mantissa location", 1, f.mloc}, {"mantissa size", 1, f.msize}, {"exponent bias", 4, f.bias}}
		for i, x := range fields {
			if x.name == "" {
				continue
			}
			steps := []step{want(0x11, 1), want(0x20, 1)}
			for j, y := range fields {
				if i == j {
					steps = append(steps, track(y.name, y.size))
				} else {
					steps = append(steps, want(y.val, y.size))
				}
			}
			msg(typed, fmt.Sprintf("float of size %d, %s", f.size, x.name), x.name, setOf(uint64(x.val)), steps...)
		}
	}
	msg(typed, "reference kind", "bits", bytesWhere(func(b int) bool { return b&15 <= 1 }), want(0x17, 1), track("bits", 1), want(0, 2))
	msg(typed, "variable-length kind", "bits", bytesWhere(func(b int) bool { return b&15 <= 1 && b>>4 <= 1 }), want(0x19, 1), track("bits", 1), want(0, 2))

	// structures
	str := func(sig, what, field string, legal ivals, steps ...step) {
		for _, x := range s.sites {
			if x.sig == sig && !s.dispatcher(p, r, x) {
				n++
				s.structure(p, x, steps...).limit(r, "feature", what+" in "+shortFn(x.f), field, legal)
			}
		}
	}
	for v := int64(0); v <= 3; v++ {
		steps := []step{want(v, 1)}
		if v < 2 {
			steps = append(steps, want(0, 4))
		}
		name := func(s string) string { return fmt.Sprintf("superblock version %d, %s", v, s) }
		size := func(o, l step) []step { return append(append([]step{}, steps...), o, l) }
		str(sbSig, name("size of offsets"), "size", setOf(8), size(track("size", 1), want(8, 1))...)
		str(sbSig, name("size of lengths"), "size", setOf(8), size(want(8, 1), track("size", 1))...)
		head := 1 // flags
		if v == 0 {
			head = 9 // reserved, leaf K, internal K, flags
		} else if v == 1 {
			head = 13 // and indexed K, reserved
		}
		str(sbSig, name("base address"), "base", setOf(0), append(size(want(8, 1), want(8, 1)), skipBytes(head), track("base", 8))...)
	}
	str("SNOD", "symbol table entry", "kind", setOf(0, 1), want(1, 1), want(0, 1), want(1, 2), skipBytes(16), track("kind", 4))
	str("FRHP", "filters of the fractal heap", "length", setOf(0), want(0, 1), skipBytes(2), track("length", 2))
	str("FRHP", "fractal heap width", "width", setOf(4), want(0, 1), skipBytes(2), want(0, 2), skipBytes(1+4+12*8), track("width", 2))
	str("FRHP", "fractal heap size", "size", setOf(32, 40), want(0, 1), skipBytes(2), want(0, 2), skipBytes(1+4+12*8), want(4, 2), skipBytes(16), track("size", 2))
	// the two kinds of version 1 B-trees
	for _, x := range s.sites {
		if x.sig != "TREE" {
			continue
		}
		q := s.structure(p, x, track("kind", 1))
		what := "kind of B-tree node in " + shortFn(x.f)
		n++
		r.obl("feature", what)
		q.run(r)
		set, unread, _ := q.accepted("kind")
		if unread != nil || set.size() != 1 || len(set.minus(setOf(0, 1))) > 0 {
			r.fail("feature", what, p.pos(x.f), "nodes of kinds %s are accepted; each reader handles one kind", set)
		}
	}
	r.minimum("fields that select a feature", n, 60)
}
