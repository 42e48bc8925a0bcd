package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// taint finds, without regard to the order of things, which registers may refer to memory of the caller.
// Fields of structures of the module are one thing per field, calls are not told apart.
type taint struct {
	p       *Prog
	refs    map[ssa.Value]bool  // may refer to memory of the caller
	holds   map[ssa.Value]bool  // private memory whose contents may refer to memory of the caller
	fields  map[fieldKey]string // fields that may refer to memory of the caller
	results map[*ssa.Function]map[int]bool
	globals map[*ssa.Global]bool
	changed bool
	fresh   func(name string) bool
	source  func(c ssa.CallInstruction) bool
}

func newTaint(p *Prog) *taint {
	return &taint{p: p, refs: map[ssa.Value]bool{}, holds: map[ssa.Value]bool{}, fields: map[fieldKey]string{},
		results: map[*ssa.Function]map[int]bool{}, globals: map[*ssa.Global]bool{}, fresh: freshResult}
}

// freshResult says that the result of a function from outside of the module is a copy.
func freshResult(name string) bool {
	switch name {
	case "slices.Clone", "bytes.Clone", "maps.Clone", "slices.Concat", "slices.Sorted", "slices.Collect", "reflect.TypeOf",
		"(reflect.Value).Type", "(reflect.Value).Kind", "(reflect.Value).Len":
		return true
	}
	return strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "strconv.") ||
		strings.HasPrefix(name, "errors.")
}

// refType says that a value of the type may share memory with what it was copied from.
func refType(t types.Type) bool { return refTypeIn(t, map[types.Type]bool{}) }

func refTypeIn(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer, *types.Interface, *types.Signature, *types.Chan:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Array:
		return refTypeIn(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refTypeIn(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refTypeIn(u.At(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

func (t *taint) ref(v ssa.Value) {
	if v != nil && !t.refs[v] && refType(v.Type()) {
		if types.Identical(v.Type(), types.Universe.Lookup("error").Type()) {
			return
		}
		t.refs[v] = true
		t.changed = true
	}
}

func (t *taint) hold(v ssa.Value) {
	if !t.holds[v] {
		t.holds[v] = true
		t.changed = true
	}
}

func (t *taint) result(f *ssa.Function, i int) {
	m := t.results[f]
	if m == nil {
		m = map[int]bool{}
		t.results[f] = m
	}
	if !m[i] {
		m[i] = true
		t.changed = true
	}
}

// put notes that something of the caller is stored at an address.
func (t *taint) put(addr ssa.Value, depth int) {
	if depth > 20 {
		return
	}
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		st := isStruct(derefType(x.X.Type()))
		k := fieldKey{st, x.Field}
		if t.p.inModuleType(derefType(x.X.Type())) {
			if _, ok := t.fields[k]; !ok {
				t.fields[k] = typeShort(derefType(x.X.Type())) + "." + st.Field(x.Field).Name()
				t.changed = true
			}
			return
		}
		t.put(x.X, depth+1)
	case *ssa.IndexAddr:
		t.put(x.X, depth+1)
	case *ssa.Slice:
		t.hold(x)
		t.put(x.X, depth+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			t.hold(x)
			t.put(x.X, depth+1)
		}
	case *ssa.Phi:
		if !t.holds[x] {
			t.hold(x)
			for _, e := range x.Edges {
				t.put(e, depth+5)
			}
		}
	case *ssa.ChangeType:
		t.hold(x)
		t.put(x.X, depth+1)
	case *ssa.Global:
		if !t.globals[x] {
			t.globals[x] = true
			t.changed = true
		}
	default:
		t.hold(addr)
	}
}

// at says that what is at an address may refer to memory of the caller.
func (t *taint) at(addr ssa.Value) bool {
	if t.refs[addr] || t.holds[addr] {
		return true
	}
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		if t.p.inModuleType(derefType(x.X.Type())) {
			if _, ok := t.fields[fieldKey{isStruct(derefType(x.X.Type())), x.Field}]; ok {
				return true
			}
			// a copy of a structure of the caller
			return t.at2(x.X)
		}
		return t.at(x.X)
	case *ssa.IndexAddr:
		return t.at(x.X)
	case *ssa.Global:
		return t.globals[x]
	}
	return false
}

func (t *taint) at2(addr ssa.Value) bool { return t.refs[addr] || t.holds[addr] }

func (t *taint) run() {
	for t.changed = true; t.changed; {
		t.changed = false
		for _, f := range t.p.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					t.step(f, in)
				}
			}
		}
	}
}

func (t *taint) step(f *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if t.refs[e] {
				t.ref(x)
			}
			if t.holds[e] {
				t.hold(x)
			}
		}
	case *ssa.ChangeType:
		t.same(x, x.X)
	case *ssa.ChangeInterface:
		t.same(x, x.X)
	case *ssa.MakeInterface:
		t.same(x, x.X)
	case *ssa.TypeAssert:
		t.same(x, x.X)
	case *ssa.Slice:
		t.same(x, x.X)
	case *ssa.SliceToArrayPointer:
		t.same(x, x.X)
	case *ssa.Convert:
		_, s1 := x.X.Type().Underlying().(*types.Basic)
		_, s2 := x.Type().Underlying().(*types.Basic)
		if !s1 && !s2 {
			t.same(x, x.X)
		}
	case *ssa.FieldAddr:
		if t.refs[x.X] {
			t.ref(x)
		}
	case *ssa.IndexAddr:
		if t.refs[x.X] {
			t.ref(x)
		}
	case *ssa.Field:
		if t.refs[x.X] {
			t.ref(x)
		} else if _, ok := t.fields[fieldKey{isStruct(x.X.Type()), x.Field}]; ok {
			t.ref(x)
		}
	case *ssa.Index:
		if t.refs[x.X] || t.holds[x.X] {
			t.ref(x)
		}
	case *ssa.Lookup:
		if t.refs[x.X] || t.holds[x.X] {
			t.ref(x)
		}
	case *ssa.Range:
		if t.refs[x.X] || t.holds[x.X] {
			t.hold(x)
		}
	case *ssa.Next:
		if t.holds[x.Iter] {
			t.ref(x)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if t.results[nil] == nil && t.callResult(c, x.Index) {
				t.ref(x)
			}
			return
		}
		if t.refs[x.Tuple] {
			t.ref(x)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		if known, r := t.local(x); known {
			if r {
				t.ref(x)
			}
		} else if t.at(x.X) {
			t.ref(x)
		}
	case *ssa.Store:
		if t.refs[x.Val] {
			t.put(x.Addr, 0)
		}
	case *ssa.MapUpdate:
		if t.refs[x.Value] || t.refs[x.Key] {
			t.put(x.Map, 0)
		}
	case *ssa.Return:
		for i, v := range x.Results {
			if t.refs[v] {
				t.result(f, i)
			}
		}
	case *ssa.MakeClosure:
		g := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			fv := g.FreeVars[i]
			if t.refs[b] {
				t.ref(fv)
			}
			if t.holds[b] {
				t.hold(fv)
			}
			if t.holds[fv] {
				t.hold(b)
			}
		}
	case ssa.CallInstruction:
		t.call(x)
	}
}

func (t *taint) same(x, y ssa.Value) {
	if t.refs[y] {
		t.ref(x)
	}
	if t.holds[y] {
		t.hold(x)
	}
}

// callResult says that a result of a call may refer to memory of the caller.
func (t *taint) callResult(c *ssa.Call, i int) bool {
	fs := t.p.callees(c.Common())
	for _, g := range fs {
		if t.results[g][i] {
			return true
		}
	}
	return t.outsideResult(c, fs)
}

func (t *taint) outsideResult(c *ssa.Call, fs []*ssa.Function) bool {
	cc := c.Common()
	body := false
	for _, g := range fs {
		if len(g.Blocks) > 0 && t.p.inModule(g) {
			body = true
		}
	}
	if cc.IsInvoke() {
		if t.refs[cc.Value] {
			return true // an implementation of the caller's
		}
	}
	if body {
		return false
	}
	name := ""
	if f := cc.StaticCallee(); f != nil {
		name = shortFn(f)
		if o := f.Origin(); o != nil {
			name = shortFn(o)
		}
	}
	if t.fresh(name) {
		return false
	}
	for _, a := range cc.Args {
		if t.refs[a] || t.holds[a] {
			return true
		}
	}
	return false
}

func (t *taint) call(x ssa.CallInstruction) {
	cc := x.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		v, _ := x.(*ssa.Call)
		switch b.Name() {
		case "append":
			t.same(v, cc.Args[0])
			if len(cc.Args) > 1 {
				s, ok := cc.Args[1].Type().Underlying().(*types.Slice)
				if ok && refType(s.Elem()) && (t.refs[cc.Args[1]] || t.holds[cc.Args[1]]) {
					t.hold(v)
				}
			}
		case "copy":
			s, ok := cc.Args[1].Type().Underlying().(*types.Slice)
			if ok && refType(s.Elem()) && (t.refs[cc.Args[1]] || t.holds[cc.Args[1]]) {
				t.put(cc.Args[0], 0)
			}
		}
		return
	}
	fs := t.p.callees(cc)
	args := cc.Args
	for _, g := range fs {
		if len(g.Blocks) == 0 || !t.p.inModule(g) {
			continue
		}
		ps := g.Params
		if cc.IsInvoke() {
			if len(ps) > 0 {
				t.pass(ps[0], cc.Value)
				ps = ps[1:]
			}
		}
		for i, a := range args {
			if i < len(ps) {
				t.pass(ps[i], a)
			}
		}
	}
	if v, ok := x.(*ssa.Call); ok && v.Type() != nil {
		if _, tuple := v.Type().(*types.Tuple); !tuple && t.callResult(v, 0) {
			t.ref(v)
		}
	}
}

func (t *taint) pass(param, arg ssa.Value) {
	if t.refs[arg] {
		t.ref(param)
	}
	if t.holds[arg] {
		t.hold(param)
	}
	if t.holds[param] {
		t.put(arg, 0)
	}
}

// local decides a read of a field of a local structure by the stores before it: one that is always made
// in between replaces what the structure was copied with.
func (t *taint) local(ld *ssa.UnOp) (known, tainted bool) {
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return false, false
	}
	al, ok := fa.X.(*ssa.Alloc)
	if !ok {
		return false, false
	}
	var whole, field []*ssa.Store
	for _, ref := range *al.Referrers() {
		switch x := ref.(type) {
		case *ssa.Store:
			if x.Addr != al {
				return false, false
			}
			whole = append(whole, x)
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			for _, ref := range *x.Referrers() {
				switch y := ref.(type) {
				case *ssa.Store:
					if y.Addr != x {
						return false, false
					}
					if x.Field == fa.Field {
						field = append(field, y)
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					if x.Field == fa.Field {
						return false, false
					}
				}
			}
		default:
			return false, false
		}
	}
	for _, s := range field {
		if t.refs[s.Val] {
			return true, true
		}
	}
	for _, w := range whole {
		_, shared := t.fields[fieldKey{isStruct(derefType(al.Type())), fa.Field}]
		if !shared && !t.refs[w.Val] && !t.holds[w.Val] {
			continue
		}
		killed := false
		for _, s := range field {
			if before(s, ld) && before(w, s) && !reaches(s.Block(), w.Block()) {
				killed = true
			}
		}
		if !killed {
			return true, true
		}
	}
	return true, false
}

// before says that an instruction always comes before another.
func before(x, y ssa.Instruction) bool {
	if x.Block() != y.Block() {
		return x.Block().Dominates(y.Block())
	}
	for _, in := range x.Block().Instrs {
		if in == x {
			return true
		}
		if in == y {
			return false
		}
	}
	return false
}

// reaches says that there is a way from the end of one block to another one.
func reaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == to {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(from)
}
