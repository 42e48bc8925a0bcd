package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A04: files are closed when opening fails, and by the Close methods of the writers.

func init() { rules["A04"] = ruleA04 }

func isOpener(name string) bool {
	switch name {
	case "os.Open", "os.Create", "os.OpenFile", "os.CreateTemp", "os.NewFile", "os.OpenInRoot":
		return true
	}
	return false
}

func isFileClose(c *Call) bool {
	return c.name == "(*os.File).Close" || c.name == "(io.Closer).Close" || strings.HasSuffix(c.name, "Closer).Close")
}

// callsNamed gives the functions from which a call with one of the names can be reached.
func (p *Prog) reachingCalls(match func(name string) bool) map[*ssa.Function]bool {
	return p.reaching(func(f *ssa.Function) bool {
		if !p.inModule(f) {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if match(calleeName(c.Common(), c.Common().StaticCallee())) {
						return true
					}
				}
			}
		}
		return false
	})
}

func setAdd(s, x string) string {
	m := map[string]bool{}
	for _, y := range strings.Fields(s) {
		m[y] = true
	}
	delete(m, "none")
	m[x] = true
	return setStr(m)
}

func setDel(s, x string) string {
	m := map[string]bool{}
	for _, y := range strings.Fields(s) {
		if y != x && y != "none" {
			m[y] = true
		}
	}
	return setStr(m)
}

func setStr(m map[string]bool) string {
	var l []string
	for y := range m {
		l = append(l, y)
	}
	sort.Strings(l)
	if len(l) == 0 {
		return "none"
	}
	return strings.Join(l, " ")
}

func setHas(s, x string) bool {
	for _, y := range strings.Fields(s) {
		if y == x {
			return true
		}
	}
	return false
}

// openersInline keeps to the functions that open or close files.
func (p *Prog) openersInline(f *ssa.Function, opens, closes, io map[*ssa.Function]bool) func(g *ssa.Function) bool {
	return func(g *ssa.Function) bool {
		if opens[g] || !io[g] && !closes[g] {
			return true
		}
		for q := g; q != nil; q = q.Parent() {
			if q == f {
				return true
			}
		}
		if !closes[g] {
			return false
		}
		// helpers that are given the file
		for _, prm := range g.Params {
			t := prm.Type()
			if n, ok := types.Unalias(t).(*types.Pointer); ok && strings.HasSuffix(n.String(), "os.File") {
				return true
			}
			if types.IsInterface(t) && g.Signature.Recv() == nil && g.Signature.Results().Len() == 0 {
				return true
			}
		}
		return g.Parent() != nil
	}
}

func ruleA04(p *Prog, r *Report) {
	r.explain("Every exported function that opens an operating-system file is interpreted on all paths with the set of files it holds open as the state (an open that fails adds none; functions it hands the file to may fail or not): an exit with an error or a panic must hold none, and an exit with a nil error exactly one when it returns a reader or writer. The Close methods of the writers are interpreted on the object their constructor makes, with everything that adding calls may have changed unknown: every exit must have closed the file, and a successful one must have written or flushed before closing.")
	base := p.initBase()
	opens := p.reachingCalls(isOpener)
	closes := p.reachingCalls(func(n string) bool { return n == "(*os.File).Close" || strings.HasSuffix(n, "Closer).Close") })
	io := p.ioReach()
	nOpen, nEntry := 0, 0
	for _, f := range p.apiFuncs() {
		if !opens[f] {
			continue
		}
		ei := errResult(f)
		if ei < 0 {
			r.fail("closed-on-failure", shortFn(f), p.pos(f), "opens a file and has no error result")
			continue
		}
		nEntry++
		a := newAn(p, base)
		a.KeepErr = true
		a.Inline = p.openersInline(f, opens, closes, io)
		a.OnCall = func(c *Call) ([]Out, bool) {
			if isOpener(c.name) {
				nOpen++
				id := "file@" + p.pos(c.site)
				good, bad := c.st.clone(), c.st
				good.nn[id] = true
				return []Out{
					{st: good, prop: setAdd(good.prop, id), res: vTuple(tok(id), vNil)},
					{st: bad, res: vTuple(vNil, nonNil("openerr"))},
				}, true
			}
			if isFileClose(c) && len(c.args) > 0 {
				v := c.args[0]
				if v.k == KIface {
					v = v.e[0]
				}
				pr := c.st.prop
				if v.k == KTok {
					pr = setDel(pr, v.s)
				}
				return []Out{{prop: pr}}, true
			}
			return nil, false
		}
		exits := a.entry(f, "none")
		r.cover(a)
		r.obl("closed-on-failure", shortFn(f))
		r.obl("open-on-success", shortFn(f))
		for _, e := range exits {
			open := strings.Fields(e.prop)
			if e.prop == "none" {
				open = nil
			}
			en := exitErr(e, ei)
			if (e.panic != nil || en != 1) && len(open) > 0 && !(e.panic == nil && en == 0 && len(open) == 1) {
				r.fail("closed-on-failure", shortFn(f), p.pos(e.at), "may fail and leave open the file opened at %s", openSites(open))
			}
			if e.panic == nil && en == 0 && len(open) == 1 {
				// the error is that of a call that was handed the file: it must be tested
				r.fail("closed-on-failure", shortFn(f), p.pos(e.at), "returns an error that is not tested with the file opened at %s open", openSites(open))
			}
			if e.panic == nil && en == 1 && ei > 0 && len(open) != 1 {
				if len(open) == 0 {
					r.fail("open-on-success", shortFn(f), p.pos(e.at), "may return a nil error with its file closed")
				} else {
					r.fail("open-on-success", shortFn(f), p.pos(e.at), "may return a nil error with more than one file open: %s", openSites(open))
				}
			}
		}
	}
	r.minimum("functions that open files", nEntry, 6)
	r.minimum("opens interpreted", nOpen, 8)
	for _, w := range p.writerCloses(r, base) {
		r.obl("closed-by-close", shortFn(w.f))
		for _, e := range w.exits {
			if !setHas(e.prop, "closed") {
				r.fail("closed-by-close", shortFn(w.f), p.pos(e.at), "the first Close may end without closing the file")
			}
			if e.panic == nil && exitErr(e, w.ei) != -1 && !setHas(e.prop, "written") {
				r.fail("written-by-close", shortFn(w.f), p.pos(e.at), "may return a nil error without writing or flushing to the file before it is closed")
			}
			if setHas(e.prop, "late") {
				r.fail("written-by-close", shortFn(w.f), p.pos(e.at), "writes or flushes to the file after closing it")
			}
		}
	}
}

func openSites(l []string) string {
	return strings.ReplaceAll(strings.Join(l, ", "), "file@", "")
}

type closeRun struct {
	f     *ssa.Function
	ei    int
	exits []*Exit
}

// writerCloses interprets the Close methods of the writers that hold a file, on the object the
// constructor makes with everything unknown that other methods may have stored since.
// The state of an exit is a set of: written, closed, late (written after closing), failed (closing failed).
func (p *Prog) writerCloses(r *Report, base Mem) []closeRun {
	var out []closeRun
	flush := func(n string) bool {
		return n == "(*os.File).Write" || n == "(*os.File).WriteString" || n == "(*os.File).ReadFrom" || n == "(*os.File).WriteAt" || n == "(*bufio.Writer).Flush"
	}
	fileOps := p.reachingCalls(func(n string) bool { return flush(n) || n == "(*os.File).Close" })
	opens := p.reachingCalls(isOpener)
	for _, f := range p.ifaceMethods("netcdf/api", "Writer", "Close") {
		st := isStruct(derefType(f.Params[0].Type()))
		holds := false
		if st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if strings.HasSuffix(st.Field(i).Type().String(), "os.File") {
					holds = true
				}
			}
		}
		if !holds {
			continue
		}
		// the constructor
		var ctor *ssa.Function
		for _, g := range p.apiFuncs() {
			if pkgOf(g) == pkgOf(f) && opens[g] && g.Signature.Results().Len() == 2 && implementsResult(g, f) {
				ctor = g
			}
		}
		if ctor == nil {
			r.fail("closed-by-close", shortFn(f), p.pos(f), "no constructor of this writer was found")
			continue
		}
		// the fields that other methods store
		stored := map[string]bool{}
		for _, m := range []string{"AddVar", "AddAttributes", "CreateGroup"} {
			for _, g := range p.ifaceMethods("netcdf/api", "Writer", m) {
				if pkgOf(g) != pkgOf(f) {
					continue
				}
				for h := range p.reachableFrom([]*ssa.Function{g}) {
					if h == f {
						continue
					}
					for _, b := range h.Blocks {
						for _, in := range b.Instrs {
							if s, ok := in.(*ssa.Store); ok {
								if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
									if types.Identical(derefType(fa.X.Type()), derefType(f.Params[0].Type())) {
										stored[st.Field(fa.Field).Name()] = true
									}
								}
							}
						}
					}
				}
			}
		}
		a0 := newAn(p, base)
		a0.KeepErr = true
		for _, e := range a0.entry(ctor, "") {
			if e.panic != nil || exitErr(e, 1) == -1 {
				continue
			}
			v := e.results[0]
			if v.k == KIface {
				v = v.e[0]
			}
			if v.k != KPtr {
				r.fail("closed-by-close", shortFn(f), p.pos(f), "the object made by %s was not followed", shortFn(ctor))
				continue
			}
			s := newState()
			s.mem = e.mem.clone()
			for id, o := range s.mem {
				if id == v.s {
					n := o.clone()
					for i := 0; i < st.NumFields(); i++ {
						if stored[st.Field(i).Name()] {
							n.cells["."+st.Field(i).Name()] = tok("later:" + st.Field(i).Name())
						}
					}
					s.mem[id] = n
					continue
				}
				if strings.HasPrefix(id, "G:") {
					continue
				}
				s.mem[id] = &Obj{typ: o.typ, multi: o.multi, ep: "later", cells: map[string]*Val{}}
			}
			a := newAn(p, base)
			a.Inline = func(g *ssa.Function) bool { return fileOps[g] || g.Parent() != nil }
			a.OnCall = func(c *Call) ([]Out, bool) {
				switch {
				case flush(c.name):
					pr := setAdd(c.st.prop, "written")
					if setHas(pr, "closed") {
						pr = setAdd(pr, "late")
					}
					return []Out{{prop: pr}}, true
				case isFileClose(c):
					good, bad := c.st.clone(), c.st.clone()
					pr := setAdd(c.st.prop, "closed")
					return []Out{{st: good, prop: pr, res: vNil}, {st: bad, prop: setAdd(pr, "failed"), res: nonNil("closeerr")}}, true
				}
				return nil, false
			}
			s.prop = "none"
			ex := a.call(s, f, []*Val{v}, nil, nil, 0, false)
			r.cover(a)
			out = append(out, closeRun{f, errResult(f), ex})
		}
	}
	r.minimum("writer Close methods", len(out), 2)
	return out
}

// implementsResult says that a constructor's first result is (an interface satisfied by) the receiver of a method.
func implementsResult(ctor, m *ssa.Function) bool {
	rt := ctor.Signature.Results().At(0).Type()
	recv := m.Params[0].Type()
	if types.Identical(rt, recv) {
		return true
	}
	if it, ok := rt.Underlying().(*types.Interface); ok {
		return types.Implements(recv, it)
	}
	return false
}
