package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A10: reading does not change what later reads return.

func init() { rules["A10"] = ruleA10 }

// The fields of the open file that reading may change: lookup caches that are filled with the same
// contents by whatever read comes first, the position of the file, and reference counts. Each was
// confirmed by hand.
var readEffects = map[string]string{
	"cdf.CDF.fileRefCount":         "reference count",
	"hdf5.refCountedFile.refCount": "reference count",
	"hdf5.raFile.seekPointer":      "position",
	"hdf5.HDF5.registrations":      "suppressed while an internal attribute is read, and restored",
	"hdf5.HDF5.addrToName":         "cache of the names of all objects",
	"hdf5.HDF5.sharedAttrs":        "cache of shared messages",
	"hdf5.HDF5.heapCache":          "cache of heaps",
	"hdf5.attribute.value":         "cache of the value",
	"hdf5.attribute.df":            "dropped when the value is cached",
	"hdf5.object.attrListIsSorted": "the attribute list is sorted once",
	"hdf5.object.attrlist":         "the attribute list is sorted once",
	"hdf5.object.dataBlocks":       "cache of the blocks",
}

// fieldName names the field that an address or a loaded value belongs to.
func fieldName(v ssa.Value, depth int) string {
	if depth > 20 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		t := derefType(x.X.Type())
		if s := isStruct(t); s != nil {
			return typeShort(t) + "." + s.Field(x.Field).Name()
		}
	case *ssa.Field:
		if s := isStruct(x.X.Type()); s != nil {
			return typeShort(x.X.Type()) + "." + s.Field(x.Field).Name()
		}
	case *ssa.IndexAddr:
		return fieldName(x.X, depth+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return fieldName(x.X, depth+1)
		}
	case *ssa.Slice:
		return fieldName(x.X, depth+1)
	case *ssa.ChangeType:
		return fieldName(x.X, depth+1)
	case *ssa.MakeInterface:
		return fieldName(x.X, depth+1)
	case *ssa.Phi:
		name := ""
		for _, e := range x.Edges {
			if n := fieldName(e, depth+5); n != "" {
				if name != "" && name != n {
					return ""
				}
				name = n
			}
		}
		return name
	}
	return ""
}

func typeShort(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return shortName(n.Obj().Pkg().Path() + "." + n.Obj().Name())
		}
		return n.Obj().Name()
	}
	return "struct"
}

// maker decides what is made by the function itself.
type maker struct {
	p       *Prog
	covered map[*ssa.Function]bool // functions of the same interpretation: what their closures capture is made here too
	seen    map[ssa.Value]bool
}

// madeHere says that what a register refers to was made in the same function.
func (m *maker) made(v ssa.Value) bool {
	if m.seen[v] {
		return true
	}
	m.seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.Const:
		return true
	case *ssa.IndexAddr:
		return m.made(x.X)
	case *ssa.FieldAddr:
		return m.made(x.X)
	case *ssa.Slice:
		return m.made(x.X)
	case *ssa.ChangeType:
		return m.made(x.X)
	case *ssa.MakeInterface:
		return m.made(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !m.made(e) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return noRoom(x.Call.Args[0]) || m.made(x.Call.Args[0])
		}
		f := x.Call.StaticCallee()
		if f != nil && m.p.inModule(f) {
			return returnsAll(f, 0, m.made)
		}
		switch calleeName(x.Common(), f) {
		case "slices.Clone", "slices.Concat", "slices.Repeat", "slices.Sorted", "slices.SortedFunc", "slices.SortedStableFunc", "slices.Collect",
			"maps.Clone", "maps.Collect", "bytes.Clone", "bytes.Repeat", "bytes.Join", "strings.Split", "strings.Fields",
			"reflect.MakeSlice", "reflect.New", "reflect.Zero":
			return true
		}
	case *ssa.Convert:
		// bytes or letters of a string, which are copied
		b, ok := x.X.Type().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	case *ssa.FreeVar:
		return m.variable(x) != nil
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch y := x.X.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			// what is stored in a variable
			al := m.variable(y)
			return al != nil && m.stores(al)
		case *ssa.FieldAddr:
			// a field that only ever has what is made for it, of something that is made here
			if !m.made(y.X) || !m.notCopied(y.X) {
				return false
			}
			s := isStruct(derefType(y.X.Type()))
			return s != nil && m.fieldMade(fieldKey{s, y.Field})
		}
	}
	return false
}

// notCopied says that a struct that is made here is not a copy of one that is not.
func (m *maker) notCopied(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return m.stores(x)
	case *ssa.FreeVar:
		al := m.variable(x)
		return al != nil && m.stores(al)
	case *ssa.FieldAddr:
		return m.notCopied(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !m.notCopied(e) {
				return false
			}
		}
	}
	return true
}

// variable finds the local variable behind a cell.
func (m *maker) variable(v ssa.Value) *ssa.Alloc {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			f := x.Parent()
			if f.Parent() == nil || !m.covered[f.Parent()] {
				return nil
			}
			v = nil
			for i, fv := range f.FreeVars {
				if fv == x {
					v = binding(f, i)
				}
			}
			if v == nil {
				return nil
			}
		default:
			return nil
		}
	}
	return nil
}

// stores says that everything that is stored in a variable is made here.
func (m *maker) stores(al ssa.Value) bool {
	refs := al.Referrers()
	if refs == nil {
		return false
	}
	for _, ref := range *refs {
		switch s := ref.(type) {
		case *ssa.Store:
			if s.Addr == al && !m.made(s.Val) {
				return false
			}
		case *ssa.MakeClosure:
			f := s.Fn.(*ssa.Function)
			for i, b := range s.Bindings {
				if b == al && !m.stores(f.FreeVars[i]) {
					return false
				}
			}
		}
	}
	return true
}

func (m *maker) fieldMade(k fieldKey) bool {
	n := 0
	for _, f := range m.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && (fieldKey{isStruct(derefType(fa.X.Type())), fa.Field}) == k {
						if !m.made(s.Val) {
							return false
						}
						n++
					}
				}
			}
		}
	}
	return n > 0
}

func (p *Prog) madeHere(a *An, v ssa.Value) bool {
	m := &maker{p: p, covered: a.covered, seen: map[ssa.Value]bool{}}
	return m.made(v)
}

// changes says that a function from outside of the module changes what it is given.
func changes(name string) bool {
	switch {
	case strings.HasPrefix(name, "sort.S"), name == "sort.Ints", name == "sort.Reverse",
		strings.HasPrefix(name, "slices.Sort") && !strings.HasPrefix(name, "slices.Sorted"),
		strings.HasPrefix(name, "(reflect.Value).Set"), name == "reflect.Copy", name == "reflect.Append",
		strings.HasPrefix(name, "(*bytes.Buffer).") && !slices.Contains([]string{"(*bytes.Buffer).Bytes", "(*bytes.Buffer).Len", "(*bytes.Buffer).String"}, name),
		strings.HasPrefix(name, "(encoding/binary.littleEndian).Put"), strings.HasPrefix(name, "(encoding/binary.bigEndian).Put"),
		strings.HasPrefix(name, "encoding/binary.(littleEndian).Put"):
		return true
	}
	switch name {
	case "slices.Reverse", "slices.Delete", "slices.DeleteFunc", "slices.Insert", "slices.Replace", "slices.Compact", "slices.CompactFunc", "slices.Grow", "maps.Copy", "maps.DeleteFunc", "rand.Shuffle":
		return true
	}
	return false
}

// effectScan reports every change that an interpretation makes to what it did not make itself.
type effectScan struct {
	p      *Prog
	a      *An
	about  func(v *Val) bool
	top    func(target ssa.Value) bool // what to do about things nothing is known of
	effect func(fr *Frame, st *State, in ssa.Instruction, field, what string)
}

func (e *effectScan) consider(fr *Frame, st *State, in ssa.Instruction, target ssa.Value, v *Val, what string) {
	if v.k == KTop || v.k == KRVal || v.k == KStruct {
		// nothing is known of it: decide by where the function has it from
		if e.top != nil {
			if !e.top(target) {
				return
			}
		} else if fieldName(target, 0) == "" {
			return
		}
	} else if !e.about(v) {
		return
	}
	if e.p.madeHere(e.a, target) {
		return
	}
	e.effect(fr, st, in, fieldName(target, 0), what)
}

func (e *effectScan) hooks() {
	e.a.OnStore = func(fr *Frame, in ssa.Instruction, addr, val *Val, st *State) {
		if s, ok := in.(*ssa.Store); ok {
			e.consider(fr, st, in, s.Addr, addr, "store")
		}
	}
	e.a.OnInstr = func(fr *Frame, in ssa.Instruction, st *State) {
		switch x := in.(type) {
		case *ssa.MapUpdate:
			e.consider(fr, st, in, x.Map, fr.val(st, x.Map), "update of a map")
		case *ssa.Call:
			b, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || len(x.Call.Args) == 0 {
				return
			}
			switch b.Name() {
			case "delete", "clear", "copy":
				e.consider(fr, st, in, x.Call.Args[0], fr.val(st, x.Call.Args[0]), b.Name())
			case "append":
				// appending may write behind the end of what it appends to
				if v := fr.val(st, x.Call.Args[0]); !clipped(x.Call.Args[0]) && v.k != KNil && (v.k != KTop || e.top != nil) {
					e.consider(fr, st, in, x.Call.Args[0], v, "append in place")
				}
			}
		}
	}
	e.a.OnCall = func(c *Call) ([]Out, bool) {
		if !changes(c.name) {
			return nil, false
		}
		x := effectTarget(c.site)
		if x == nil {
			return nil, false
		}
		v := c.fr.val(c.st, x)
		if v.k == KIface {
			v = v.e[0]
		}
		e.consider(c.fr, c.st, c.site, x, v, c.name)
		return nil, false
	}
}

// clipped says that a slice has no room behind its end.
func clipped(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Max == nil {
		return false
	}
	if s.High == s.Max {
		return true
	}
	h, ok1 := s.High.(*ssa.Const)
	m, ok2 := s.Max.(*ssa.Const)
	return ok1 && ok2 && h.Value != nil && m.Value != nil && h.Int64() == m.Int64()
}

// noRoom says that nothing is kept of a slice when something is appended to it.
func noRoom(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Max == nil {
		return false
	}
	m, ok := s.Max.(*ssa.Const)
	return ok && m.Value != nil && m.Int64() == 0
}

// outside says that a value refers to something that was not made in the interpreted calls.
func (p *Prog) outside(a *An, v *Val) bool {
	switch v.k {
	case KPtr, KSlice, KMap:
		if strings.HasPrefix(v.s, "P<") {
			return p.outside(a, tok(strings.TrimSuffix(strings.TrimPrefix(v.s, "P<"), ">")))
		}
		return !private(v.s)
	case KTok:
		// the result of an allocation that is repeated
		if s, ok := strings.CutPrefix(v.s, "r<"); ok {
			s = strings.TrimSuffix(s, ">")
			if i := strings.IndexAny(s, "^@fj"); i >= 0 {
				if s[i] == 'f' {
					return true
				}
				s = s[:i]
			}
			for in, id := range a.siteID {
				if id != s {
					continue
				}
				switch in.(type) {
				case *ssa.MakeSlice, *ssa.MakeMap, *ssa.Alloc, *ssa.Slice, *ssa.MakeInterface, *ssa.MakeClosure:
					return false
				}
			}
		}
		return true
	}
	return false
}

func ruleA10(p *Prog, r *Report) {
	r.explain("Every reading method of the interfaces of groups and of variable getters, of both formats, is interpreted abstractly on an unknown open file (all paths, all callees including the ones behind interfaces and closures): a store, map update, copy, append in place or sorting whose target was not made during the call is an effect on the open file, and has to be one of the fields in a table of confirmed caches, positions and reference counts. The registered types are suppressed for a while: they have to be what they were at every exit, failing ones included.")
	base := p.initBase()
	effects, entries := 0, 0
	for _, ifc := range []string{"Group", "VarGetter"} {
		for _, m := range p.ifaceNames("netcdf/api", ifc) {
			if m == "Close" {
				continue
			}
			for _, f := range p.ifaceMethods("netcdf/api", ifc, m) {
				entries++
				a := newAn(p, base)
				a.CHA = func(c *Call) bool { return !strings.HasPrefix(c.name, "(api.") && !strings.HasPrefix(c.name, "(io.") }
				sc := &effectScan{p: p, a: a}
				sc.about = func(v *Val) bool { return p.outside(a, v) }
				sc.effect = func(fr *Frame, st *State, in ssa.Instruction, field, what string) {
					effects++
					where := field
					if where == "" {
						where = "something"
					}
					r.obl("effect", shortFn(fr.fn)+" changes "+where)
					if _, ok := readEffects[field]; ok {
						return
					}
					if strings.HasPrefix(field, "internal.logger") || inPkg(fr.fn, "internal") && strings.Contains(field, "Logger") {
						return
					}
					r.fail("effect", shortFn(fr.fn)+" changes "+where, p.pos(in), "%s: reading (%s) changes something of the open file that is not a known cache (%s)", where, shortFn(f), what)
				}
				sc.hooks()
				effects := a.OnStore
				a.OnStore = func(fr *Frame, in ssa.Instruction, addr, val *Val, st *State) {
					effects(fr, in, addr, val, st)
					s, ok := in.(*ssa.Store)
					if !ok {
						return
					}
					if name := fieldName(s.Addr, 0); strings.HasPrefix(readEffects[name], "suppressed") {
						if st.prop = ""; val.k == KNil {
							st.prop = "suppressed:" + name
						}
					}
				}
				exits := a.run(f, "", nil, nil)
				r.cover(a)
				r.obl("interpreted", shortFn(f))
				// suppressed things are restored
				for _, e := range exits {
					if name, ok := strings.CutPrefix(e.prop, "suppressed:"); ok {
						r.fail("restored", shortFn(f)+" "+name, p.pos(e.at), "%s is left suppressed on a path", name)
					} else {
						r.obl("restored", shortFn(f))
					}
				}
			}
		}
	}
	p.positioned(r, base)
	r.minimum("entries", entries, 20)
	r.minimum("effects", effects, 5)
}

// escapes says that a function literal may be called from somewhere else than where it is made.
func (p *Prog) escapes(f *ssa.Function) bool {
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				return !onlyCalled(mc)
			}
		}
	}
	return true
}

// positioned checks that the readers of CDF files say where they read: the position is shared, so that
// what an earlier read left behind must not matter.
func (p *Prog) positioned(r *Report, base Mem) {
	seeker := func(t types.Type) bool { return types.NewMethodSet(t).Lookup(nil, "Seek") != nil }
	isFile := func(v ssa.Value) bool {
		for i := 0; i < 10; i++ {
			if seeker(v.Type()) {
				return true
			}
			switch x := v.(type) {
			case *ssa.ChangeInterface:
				v = x.X
			case *ssa.MakeInterface:
				v = x.X
			default:
				return false
			}
		}
		return false
	}
	n := 0
	for _, f := range p.funcs {
		if !inPkg(f, "netcdf/cdf") || f.Parent() != nil && !p.escapes(f) {
			continue
		}
		if f.Parent() == nil && !ast.IsExported(f.Name()) {
			continue
		}
		a := newAn(p, base)
		reads := 0
		a.OnCall = func(c *Call) ([]Out, bool) {
			args := c.site.Common().Args
			switch {
			case strings.HasSuffix(c.name, ").Seek"):
				if len(args) == 2 {
					if v := c.fr.val(c.st, args[1]); v.k == KConst && v.c.ExactString() == "0" {
						c.st.prop = "sought"
					} else {
						c.st.prop = ""
					}
				}
			case c.name == "bufio.NewReader" || c.name == "bufio.NewReaderSize" || c.name == "io.LimitReader" || c.name == "io.ReadFull" || c.name == "io.ReadAll":
				if !inPkg(c.fr.fn, "netcdf/cdf") || !isFile(args[0]) {
					return nil, false
				}
				reads++
				r.check(c.st.prop == "sought", "position", shortFn(c.fr.fn)+" "+c.name, p.pos(c.site), "reads the file from wherever an earlier read left it")
				c.st.prop = ""
			case strings.HasSuffix(c.name, ".ReadSeekerCloser).Read") || c.name == "(io.ReadSeeker).Read" || c.name == "(*os.File).Read":
				if !inPkg(c.fr.fn, "netcdf/cdf") {
					return nil, false
				}
				reads++
				r.check(c.st.prop == "sought", "position", shortFn(c.fr.fn)+" "+c.name, p.pos(c.site), "reads the file from wherever an earlier read left it")
			}
			return nil, false
		}
		a.run(f, "", nil, nil)
		r.cover(a)
		n += reads
	}
	r.minimum("positioned reads", n, 2)
}

// ifaceNames lists the methods of an interface of the module.
func (p *Prog) ifaceNames(rel, iface string) []string {
	t := p.typ(rel, iface)
	if t == nil {
		return nil
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < it.NumMethods(); i++ {
		out = append(out, it.Method(i).Name())
	}
	return out
}
