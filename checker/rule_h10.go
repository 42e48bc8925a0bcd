package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// H10: references to an open file are counted, and the last one to go closes it.

func init() { rules["H10"] = ruleH10 }

// counter is a struct that counts the users of a file it holds.
type counter struct {
	t       *types.Struct
	name    string
	pkg     string
	count   int
	file    int
	changes []*ssa.Store
	inits   []*ssa.Store
}

// step gives d when the store is "field = field + d", and whether it is.
func countStep(s *ssa.Store) (fieldKey, int64, bool) {
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok {
		return fieldKey{}, 0, false
	}
	k := fieldKey{isStruct(derefType(fa.X.Type())), fa.Field}
	b, ok := s.Val.(*ssa.BinOp)
	if !ok || b.Op != token.ADD && b.Op != token.SUB {
		return k, 0, false
	}
	var n int64 // 0: by a value that is not constant
	if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
		n, ok = constant.Int64Val(constant.ToInt(c.Value))
		if !ok {
			return k, 0, false
		}
	}
	u, ok := b.X.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return k, 0, false
	}
	fb, ok := u.X.(*ssa.FieldAddr)
	if !ok || (fieldKey{isStruct(derefType(fb.X.Type())), fb.Field}) != k {
		return k, 0, false
	}
	if b.Op == token.SUB {
		n = -n
	}
	return k, n, true
}

func isSeeker(t types.Type) bool {
	ms := types.NewMethodSet(t)
	return ms.Lookup(nil, "Seek") != nil && ms.Lookup(nil, "Read") != nil
}

func (p *Prog) counters() []*counter {
	steps := map[fieldKey]map[int64]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if k, n, ok := countStep(s); ok && k.s != nil {
						if steps[k] == nil {
							steps[k] = map[int64]bool{}
						}
						steps[k][n] = true
						// a helper that is given what to add
						if prm, ok := s.Val.(*ssa.BinOp).Y.(*ssa.Parameter); ok && n == 0 {
							for i, q := range f.Params {
								if q != prm {
									continue
								}
								for _, cs := range p.callersOf(f) {
									if cc := cs.site.Common(); !cc.IsInvoke() && i < len(cc.Args) {
										if c, ok := cc.Args[i].(*ssa.Const); ok && c.Value != nil {
											if d, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
												steps[k][d] = true
											}
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
	var out []*counter
	for _, pk := range p.prog.AllPackages() {
		if !strings.HasPrefix(pk.Pkg.Path(), modPath) {
			continue
		}
		for _, m := range pk.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			s := isStruct(t.Type())
			if s == nil {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				k := fieldKey{s, i}
				if !steps[k][-1] || !steps[k][1] {
					continue
				}
				for j := 0; j < s.NumFields(); j++ {
					if isSeeker(s.Field(j).Type()) {
						out = append(out, &counter{t: s, name: typeShort(t.Type()), pkg: pk.Pkg.Path(), count: i, file: j})
						break
					}
				}
			}
		}
	}
	for _, c := range out {
		for _, f := range p.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					k, n, step := countStep(s)
					if k.s == nil || k != (fieldKey{c.t, c.count}) {
						continue
					}
					if step && n >= -1 && n <= 1 {
						c.changes = append(c.changes, s)
					} else {
						c.inits = append(c.inits, s)
					}
				}
			}
		}
	}
	return out
}

// openState is the state of a run: the count, whether the handle of the group is open, and how
// often the file was closed.
func openState(count, open, closes int) string {
	return fmt.Sprintf("%d %d %d", count, open, closes)
}

func parseOpen(s string) (count, open, closes int) {
	fmt.Sscanf(s, "%d %d %d", &count, &open, &closes)
	return
}

func ruleH10(p *Prog, r *Report) {
	r.explain("The structures that count the users of a file are found by the shape of the stores to a field (both one more and one less). Close and GetGroup of the groups are interpreted with the count, and whether the group is open, pinned, and with the count, the handle and the number of closes of the file followed in the state: closing an open group takes exactly one from the count and closes the file exactly when none is left; closing once more does nothing and returns; opening a group adds exactly one when it succeeds and nothing when it fails, and fails when the file is closed. The count starts at one where the structure is made, is stored nowhere else, and the structure is never copied. Every other method of groups and variables leaves the count as it was, and with the group closed no path hands on or uses the handle of the file.")
	base := p.initBase()
	cs := p.counters()
	nClose, nOpen, nOther, nClosed := 0, 0, 0, 0
	for _, c := range cs {
		r.obl("counter", c.name)
		changes := map[*ssa.Function]bool{}
		for _, s := range c.changes {
			changes[s.Parent()] = true
		}
		// where it starts
		for _, s := range c.inits {
			f := s.Parent()
			k, ok := s.Val.(*ssa.Const)
			fa := s.Addr.(*ssa.FieldAddr)
			_, made := fa.X.(*ssa.Alloc)
			if !ok || !made || k.Value == nil || constant.ToInt(k.Value).String() != "1" {
				r.fail("starts-at-one", shortFn(f), p.pos(s), "the count of users of the file is set here, not to one at the beginning and not one more or less")
			}
		}
		made := 0
		for _, f := range p.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Alloc:
						if isStruct(derefType(x.Type())) != c.t {
							continue
						}
						made++
						r.obl("starts-at-one", shortFn(f))
						ok := false
						for _, ref := range *x.Referrers() {
							fa, isFA := ref.(*ssa.FieldAddr)
							if !isFA || fa.Field != c.count {
								continue
							}
							for _, q := range *fa.Referrers() {
								for _, s := range c.inits {
									ok = ok || q == s
								}
							}
						}
						if !ok {
							r.fail("starts-at-one", shortFn(f), p.pos(x), "the count of users of the file does not start at one")
						}
					case *ssa.UnOp:
						if x.Op == token.MUL && isStruct(x.Type()) == c.t {
							r.fail("copied", shortFn(f), p.pos(x), "the structure with the count of users of the file is copied")
						}
					}
				}
			}
		}
		r.minimum("places that make "+c.name, made, 1)
		// the handles: fields of groups that lead to the count
		reach := p.reaching(func(f *ssa.Function) bool { return changes[f] })
		for _, cl := range p.ifaceMethods("netcdf/api", "Group", "Close") {
			if pkgOf(cl).Path() != c.pkg {
				continue
			}
			gs := isStruct(derefType(cl.Signature.Recv().Type()))
			handle := -1
			for i := 0; gs != nil && i < gs.NumFields(); i++ {
				t := gs.Field(i).Type()
				ms := types.NewMethodSet(t)
				if ms.Lookup(nil, "Read") != nil && ms.Lookup(nil, "Close") != nil {
					handle = i
				}
			}
			if handle < 0 {
				r.fail("undecided", shortFn(cl), p.pos(cl), "no handle of a file was found in the group")
				continue
			}
			h := &openRule{p: p, r: r, base: base, c: c, gs: gs, handle: handle, reach: reach, io: p.ioReach()}
			h.close(cl)
			nClose++
			for _, g := range p.ifaceMethods("netcdf/api", "Group", "GetGroup") {
				if isStruct(derefType(g.Signature.Recv().Type())) == gs {
					h.open(g)
					nOpen++
				}
			}
			o, n := h.others(cl)
			nOther += o
			nClosed += n
		}
	}
	r.minimum("counters", len(cs), 2)
	r.minimum("Close methods", nClose, 2)
	r.minimum("GetGroup methods", nOpen, 2)
	r.minimum("methods that could change the count", nOther, 0)
	r.minimum("entries interpreted on a closed group", nClosed, 3)
}

type openRule struct {
	p      *Prog
	r      *Report
	base   Mem
	c      *counter
	gs     *types.Struct
	handle int
	reach  map[*ssa.Function]bool
	io     map[*ssa.Function]bool
	off    string // where the count was stored with a value that is not known
}

func (h *openRule) an() *An {
	a := newAn(h.p, h.base)
	a.Frees = true
	a.Recur = 2
	osFile := h.p.osFileType()
	a.PinField = func(st *State, t *types.Struct, i int, v *Val) *Val {
		count, open, _ := parseOpen(st.prop)
		switch {
		case t == h.c.t && i == h.c.count:
			return vInt(int64(count))
		case t == h.gs && i == h.handle:
			if open == 0 {
				return vNil
			}
			if t != h.c.t {
				st.nn["handle"] = true
				return tok("handle")
			}
			fallthrough
		case t == h.c.t && i == h.c.file:
			st.nn["osfile"] = true
			return vIface(osFile, tok("osfile"))
		}
		return nil
	}
	a.OnStore = func(fr *Frame, in ssa.Instruction, addr, val *Val, st *State) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		k := fieldKey{isStruct(derefType(fa.X.Type())), fa.Field}
		count, open, closes := parseOpen(st.prop)
		switch k {
		case fieldKey{h.c.t, h.c.count}:
			n, ok := val.intVal()
			if !ok {
				h.off = h.p.pos(in)
				return
			}
			if _, made := fa.X.(*ssa.Alloc); !made {
				st.prop = openState(int(n), open, closes)
			}
		case fieldKey{h.gs, h.handle}:
			if val.nilness() == 1 {
				st.prop = openState(count, 0, closes)
			}
		}
	}
	return a
}

func (p *Prog) osFileType() types.Type {
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == "os" {
			return types.NewPointer(pk.Type("File").Type())
		}
	}
	return nil
}

// closeCall counts the closes of the file.
func (h *openRule) closeCall(c *Call) ([]Out, bool) {
	if !isFileClose(c) || len(c.args) == 0 {
		return nil, false
	}
	v := c.args[0]
	if v.k == KIface {
		v = v.e[0]
	}
	if v.k != KTok || v.s != "osfile" {
		return nil, false
	}
	count, open, closes := parseOpen(c.st.prop)
	c.st.prop = openState(count, open, closes+1)
	good, bad := c.st.clone(), c.st
	bad.nn["closeerr"] = true
	return []Out{{st: good, prop: good.prop, res: vNil}, {st: bad, prop: bad.prop, res: nonNil("closeerr")}}, true
}

func (h *openRule) close(f *ssa.Function) {
	r, p := h.r, h.p
	same := h.gs == h.c.t // the group counts its own users
	for _, count := range []int{1, 2, 3} {
		what := fmt.Sprintf("%s with %d users", shortFn(f), count)
		a := h.an()
		a.Inline = func(g *ssa.Function) bool { return g == f || h.reach[g] || !h.io[g] }
		a.OnCall = h.closeCall
		exits := a.entry(f, openState(count, 1, 0))
		r.cover(a)
		r.obl("close", what)
		n := 0
		for _, e := range exits {
			if e.panic != nil {
				r.fail("close", what, p.pos(e.at), "closing an open group may panic")
				continue
			}
			n++
			left, open, closes := parseOpen(e.prop)
			switch {
			case h.off != "":
				r.fail("close", what, h.off, "the count of users is stored with a value that does not follow from the count")
				h.off = ""
			case left != count-1:
				r.fail("close", what, p.pos(e.at), "closing takes %d from the count of users, not one", count-left)
			case count == 1 && closes != 1:
				r.fail("close", what, p.pos(e.at), "the file is closed %d times by its last user, not once", closes)
			case count > 1 && closes != 0:
				r.fail("close", what, p.pos(e.at), "the file is closed although it has other users")
			case (count == 1 || !same) && open != 0:
				r.fail("close", what, p.pos(e.at), "the group still has its handle of the file after it was closed")
			}
			if count > 1 && same {
				continue
			}
			// once more
			r.obl("again", what)
			for _, x := range a.sequel(e, f, e.prop, tok("arg:"+f.Params[0].Name())) {
				l2, _, c2 := parseOpen(x.prop)
				if x.panic != nil {
					r.fail("again", what, p.pos(x.at), "closing a closed group may panic")
				} else if c2 != closes {
					r.fail("again", what, p.pos(x.at), "closing a closed group closes the file again")
				} else if l2 != left {
					r.fail("again", what, p.pos(x.at), "closing a closed group changes the count of users")
				}
			}
		}
		if n == 0 {
			r.fail("undecided", what, p.pos(f), "no path to the end of Close was found")
		}
	}
}

func (h *openRule) open(f *ssa.Function) {
	r, p := h.r, h.p
	ei := errResult(f)
	for _, open := range []int{1, 0} {
		count := 2 * open
		if h.gs != h.c.t {
			count = 2
		}
		what := shortFn(f) + " on an open group"
		if open == 0 {
			what = shortFn(f) + " on a closed group"
		}
		a := h.an()
		a.Inline = func(g *ssa.Function) bool {
			if g == f || h.reach[g] || !h.io[g] {
				return true
			}
			for q := g; q != nil; q = q.Parent() {
				if q == f {
					return true
				}
			}
			return false
		}
		a.OnCall = h.nilUse(what, h.closeCall)
		exits := a.entry(f, openState(count, open, 0))
		r.cover(a)
		r.obl("open", what)
		good := 0
		for _, e := range exits {
			left, o2, closes := parseOpen(e.prop)
			en := exitErr(e, ei)
			switch {
			case e.panic != nil:
				r.fail("open", what, p.pos(e.at), "may panic")
			case h.off != "":
				r.fail("open", what, h.off, "the count of users is stored with a value that does not follow from the count")
				h.off = ""
			case closes != 0:
				r.fail("open", what, p.pos(e.at), "closes the file")
			case o2 != open:
				r.fail("open", what, p.pos(e.at), "changes the handle of the group it is called on")
			case en == 0:
				r.fail("open", what, p.pos(e.at), "it is not known whether this fails")
			case en == -1 && left != count:
				r.fail("open", what, p.pos(e.at), "changes the count of users by %d and fails", left-count)
			case en == 1 && open == 0:
				r.fail("open", what, p.pos(e.at), "succeeds although the file is closed")
			case en == 1 && left != count+1:
				r.fail("open", what, p.pos(e.at), "changes the count of users by %d, not by one", left-count)
			}
			if en == 1 {
				good++
			}
		}
		if open == 1 && good == 0 {
			r.fail("undecided", what, p.pos(f), "no path on which opening succeeds was found")
		}
	}
}

// nilUse reports uses of the handle while the group is closed.
func (h *openRule) nilUse(what string, next func(c *Call) ([]Out, bool)) func(c *Call) ([]Out, bool) {
	ht := h.gs.Field(h.handle).Type()
	return func(c *Call) ([]Out, bool) {
		_, open, _ := parseOpen(c.st.prop)
		if open == 0 {
			cc := c.site.Common()
			var args []ssa.Value
			if cc.IsInvoke() {
				args = append(args, cc.Value)
			}
			args = append(args, cc.Args...)
			for i, v := range c.args {
				if i < len(args) && v.nilness() == 1 && (types.Identical(args[i].Type(), ht) || types.IsInterface(ht) && fromHandle(args[i], h.gs, h.handle, 0)) {
					h.r.fail("closed", what, h.p.pos(c.site), "uses the file although the group is closed")
					return []Out{}, true
				}
			}
		}
		return next(c)
	}
}

// fromHandle says that a value is the handle of a group, as another interface.
func fromHandle(v ssa.Value, gs *types.Struct, handle, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.ChangeInterface:
		return fromHandle(x.X, gs, handle, depth+1)
	case *ssa.MakeInterface:
		return fromHandle(x.X, gs, handle, depth+1)
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return isStruct(derefType(fa.X.Type())) == gs && fa.Field == handle
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if fromHandle(e, gs, handle, depth+1) {
				return true
			}
		}
	case *ssa.Parameter:
		return isSeeker(x.Type())
	}
	return false
}

// others interprets the other methods, and the functions that variables read with.
func (h *openRule) others(cl *ssa.Function) (nCount, nClosed int) {
	p, r := h.p, h.r
	loads := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && isStruct(derefType(fa.X.Type())) == h.gs && fa.Field == h.handle {
					loads[f] = true
				}
			}
		}
	}
	uses := p.reaching(func(f *ssa.Function) bool { return loads[f] })
	seen := map[*ssa.Function]bool{}
	var entries []*ssa.Function
	add := func(f *ssa.Function) {
		if !seen[f] && uses[f] && pkgOf(f).Path() == h.c.pkg && f.Name() != "Close" && f.Name() != "GetGroup" {
			seen[f] = true
			entries = append(entries, f)
		}
	}
	for _, i := range []string{"Group", "VarGetter"} {
		for _, m := range p.ifaceNames("netcdf/api", i) {
			for _, f := range p.ifaceMethods("netcdf/api", i, m) {
				add(f)
			}
		}
	}
	for _, f := range p.funcs {
		if f.Parent() != nil && p.escapes(f) {
			add(f)
		}
	}
	for _, f := range entries {
		what := shortFn(f) + " on a closed group"
		r.obl("closed", what)
		nClosed++
		count := 0
		if h.gs != h.c.t {
			count = 2
		}
		a := h.an()
		a.Inline = func(g *ssa.Function) bool { return g == f || uses[g] || !h.io[g] }
		a.OnCall = h.nilUse(what, h.closeCall)
		a.entry(f, openState(count, 0, 0))
		r.cover(a)
		if !h.reach[f] {
			continue
		}
		nCount++
		r.obl("kept", shortFn(f))
		a = h.an()
		a.Inline = func(g *ssa.Function) bool { return g == f || h.reach[g] || !h.io[g] }
		a.OnCall = h.closeCall
		for _, e := range a.entry(f, openState(2, 1, 0)) {
			if left, open, closes := parseOpen(e.prop); left != 2 || open != 1 || closes != 0 {
				r.fail("kept", shortFn(f), p.pos(e.at), "changes the count of users of the file")
			}
		}
		r.cover(a)
	}
	return
}
