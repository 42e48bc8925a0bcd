package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A08: nothing depends on the order in which a map is traversed, on time, or on random numbers.

func init() { rules["A08"] = ruleA08 }

type orderRule struct {
	p       *Prog
	r       *Report
	sources int
	slices  int
	unique  map[string]map[int]bool // fields of the values of a map that are the keys they are stored under
	inCheck map[ssa.Value]bool
	effects map[*ssa.Function]string
	done    map[string]bool
}

func ruleA08(p *Prog, r *Report) {
	r.explain("Every traversal of a map in the module (range, maps.Keys, maps.Values, maps.All, reflection) is enumerated. The body of a range must not let anything out that depends on the order: what leaves the loop is a slice that is appended to, a commutative sum, a constant, or something that is selected by a unique key; stores go to the element, to a known cache, or to a map under the same key; calls must not have other effects. A slice that was appended to must be sorted with a comparison that tells all elements apart before it is used in any other way, in the function, in the callers it is returned to, or in the helper it is passed to. Clocks and random numbers are not used.")
	o := &orderRule{p: p, r: r, inCheck: map[ssa.Value]bool{}, effects: map[*ssa.Function]string{}, done: map[string]bool{}}
	o.uniqueKeys()
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						o.sources++
						o.loop(f, x)
					}
				case ssa.CallInstruction:
					o.external(f, x)
				}
			}
		}
	}
	r.minimum("traversals of maps", o.sources, 8)
	r.minimum("slices in map order", o.slices, 5)
}

func (o *orderRule) fail(f *ssa.Function, in ssa.Instruction, what, format string, args ...any) {
	o.r.fail("order", shortFn(f)+" "+what, o.p.pos(in), format, args...)
}

// uniqueKeys finds the fields of structures that they are always stored under in maps.
func (o *orderRule) uniqueKeys() {
	o.unique = map[string]map[int]bool{}
	bad := map[string]map[int]bool{}
	for _, f := range o.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				t := typeString(derefType(mu.Value.Type()))
				s := isStruct(derefType(mu.Value.Type()))
				if s == nil {
					continue
				}
				for i := 0; i < s.NumFields(); i++ {
					if !types.Identical(s.Field(i).Type(), mu.Key.Type()) {
						continue
					}
					set := bad
					if ld, ok := mu.Key.(*ssa.UnOp); ok && ld.Op == token.MUL {
						if fa, ok := ld.X.(*ssa.FieldAddr); ok && fa.X == mu.Value && fa.Field == i {
							set = o.unique
						}
					}
					if storedField(mu.Value, i) == mu.Key {
						set = o.unique
					}
					if set[t] == nil {
						set[t] = map[int]bool{}
					}
					set[t][i] = true
				}
			}
		}
	}
	for t, m := range bad {
		for i := range m {
			delete(o.unique[t], i)
		}
	}
}

// storedField is what a field of a structure that is made here is set to.
func storedField(v ssa.Value, field int) ssa.Value {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out ssa.Value
	for _, ref := range *al.Referrers() {
		if fa, ok := ref.(*ssa.FieldAddr); ok && fa.Field == field {
			for _, ref := range *fa.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == fa {
					if out != nil {
						return nil
					}
					out = s.Val
				}
			}
		}
	}
	return out
}

// external checks calls of functions from outside of the module.
func (o *orderRule) external(f *ssa.Function, c ssa.CallInstruction) {
	g := c.Common().StaticCallee()
	if g == nil {
		return
	}
	name := calleeName(c.Common(), g)
	switch {
	case name == "time.Now" || name == "time.Since" || name == "os.Getpid" || name == "os.Getenv" || name == "os.Environ" ||
		name == "os.CreateTemp" || name == "os.MkdirTemp" || name == "runtime.NumGoroutine" ||
		strings.HasPrefix(name, "math/rand") || strings.HasPrefix(name, "rand.") || strings.HasPrefix(name, "crypto/rand") || strings.HasPrefix(name, "hash/maphash"):
		if inPkg(f, "internal") && strings.Contains(f.String(), "ogger") {
			return
		}
		o.fail(f, c, name, "the result depends on %s", name)
	case name == "maps.Keys" || name == "maps.Values" || name == "maps.All":
		o.sources++
		o.r.obl("order", shortFn(f)+" "+name)
		v, _ := c.(*ssa.Call)
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.Call:
				switch n := calleeName(x.Common(), x.Common().StaticCallee()); n {
				case "slices.Sorted":
				case "slices.Collect":
					o.slices++
					o.sorted(f, x, name)
				case "slices.SortedFunc", "slices.SortedStableFunc":
					if !o.total(x.Call.Args[1], x.Type()) {
						o.fail(f, x, name, "the comparison does not tell all elements apart")
					}
				case "maps.Collect", "maps.Insert":
				default:
					o.fail(f, x, name, "is used by %s in the order of the map", n)
				}
			default:
				o.fail(f, ref, name, "is used in the order of the map")
			}
		}
	case name == "(reflect.Value).MapKeys" || name == "(reflect.Value).MapRange" || name == "(reflect.Value).Seq" || name == "(reflect.Value).Seq2":
		o.sources++
		o.r.obl("order", shortFn(f)+" "+name)
		if v, ok := c.(*ssa.Call); ok && name == "(reflect.Value).MapKeys" {
			o.slices++
			o.sorted(f, v, name)
			return
		}
		o.fail(f, c, name, "is used in the order of the map")
	}
}

// loop checks the body of a range over a map.
func (o *orderRule) loop(f *ssa.Function, rg *ssa.Range) {
	o.r.obl("order", shortFn(f)+" range "+typeString(rg.X.Type()))
	var next *ssa.Next
	for _, ref := range *rg.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return
	}
	head := next.Block()
	body := map[*ssa.BasicBlock]bool{head: true}
	for _, b := range f.Blocks {
		if b != head && head.Dominates(b) && reaches(b, head) {
			body[b] = true
		}
	}
	// blocks from which the loop is left for good (returns in the body) belong to it too
	for _, b := range f.Blocks {
		if head.Dominates(b) && !body[b] {
			for _, q := range b.Preds {
				if body[q] && q != head && len(b.Preds) == 1 {
					o.leaving(f, rg, next, q, b)
				}
			}
		}
	}
	dep := o.dependent(f, next, body)
	for _, b := range f.Blocks {
		if !body[b] {
			continue
		}
		for _, in := range b.Instrs {
			o.inLoop(f, rg, head, body, dep, in)
		}
	}
	// what goes on to be used outside of the loop
	for _, b := range f.Blocks {
		if !body[b] {
			continue
		}
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || !dep[v] {
				continue
			}
			if refs := v.Referrers(); refs != nil {
				for _, ref := range *refs {
					ph, isPhi := ref.(*ssa.Phi)
					if body[ref.Block()] && !(isPhi && ref.Block() == head) {
						continue
					}
					if isPhi && ref.Block() == head {
						continue // looked at as a loop-carried value
					}
					if o.selected(v, b, ref, ph, next) {
						continue
					}
					if _, ok := v.(*ssa.Phi); ok && b == head {
						continue // a loop-carried value, looked at there
					}
					o.fail(f, ref, "range "+typeString(rg.X.Type()), "what leaves the loop depends on the order of the map")
				}
			}
		}
	}
}

// dependent finds the values of a loop that depend on the current key and value.
func (o *orderRule) dependent(f *ssa.Function, next *ssa.Next, body map[*ssa.BasicBlock]bool) map[ssa.Value]bool {
	dep := map[ssa.Value]bool{next: true}
	for changed := true; changed; {
		changed = false
		for _, b := range f.Blocks {
			if !body[b] {
				continue
			}
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || dep[v] {
					continue
				}
				if ex, ok := v.(*ssa.Extract); ok && ex.Tuple == next && ex.Index == 0 {
					continue // whether there is another one
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && dep[*op] {
						dep[v] = true
						changed = true
						break
					}
				}
			}
		}
	}
	return dep
}

// selected says that a value that leaves a loop is the one that goes with a unique key.
func (o *orderRule) selected(v ssa.Value, b *ssa.BasicBlock, ref ssa.Instruction, ph *ssa.Phi, next *ssa.Next) bool {
	at := ref.Block()
	if ph != nil {
		at = b
		for i, e := range ph.Edges {
			if e == v {
				at = ph.Block().Preds[i]
			}
		}
	}
	return o.guarded(at, next)
}

// guarded says that a block of the loop is only reached when a unique key has a given value.
func (o *orderRule) guarded(at *ssa.BasicBlock, next *ssa.Next) bool {
	for d := at; d != nil && d != next.Block(); d = d.Idom() {
		up := d.Idom()
		if up == nil {
			return false
		}
		ifi, ok := up.Instrs[len(up.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		cmp, ok := ifi.Cond.(*ssa.BinOp)
		if !ok || !(cmp.Op == token.EQL && up.Succs[0] == d || cmp.Op == token.NEQ && up.Succs[1] == d) {
			continue
		}
		if o.keyOf(cmp.X, next) && !o.fromLoop(cmp.Y, next) || o.keyOf(cmp.Y, next) && !o.fromLoop(cmp.X, next) {
			return true
		}
	}
	return false
}

func (o *orderRule) fromLoop(v ssa.Value, next *ssa.Next) bool {
	in, ok := v.(ssa.Instruction)
	return ok && in.Block() != nil && next.Block().Dominates(in.Block())
}

// keyOf says that a value is the key, or a field that is the key.
func (o *orderRule) keyOf(v ssa.Value, next *ssa.Next) bool {
	if ex, ok := v.(*ssa.Extract); ok && ex.Tuple == next {
		return ex.Index == 1
	}
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if fa, ok := ld.X.(*ssa.FieldAddr); ok {
			if ex, ok := fa.X.(*ssa.Extract); ok && ex.Tuple == next && ex.Index == 2 {
				return o.unique[typeString(derefType(ex.Type()))][fa.Field]
			}
		}
	}
	return false
}

// leaving checks a block that leaves the loop in the middle.
func (o *orderRule) leaving(f *ssa.Function, rg *ssa.Range, next *ssa.Next, from, b *ssa.BasicBlock) {
	// what is used there is looked at as a use outside of the loop; that it is left is a constant for
	// all orders, unless something was done before that counts
}

func (o *orderRule) inLoop(f *ssa.Function, rg *ssa.Range, head *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, dep map[ssa.Value]bool, in ssa.Instruction) {
	what := "range " + typeString(rg.X.Type())
	switch x := in.(type) {
	case *ssa.Phi:
		if x.Block() != head {
			return
		}
		// a value that is carried from one round to the next
		o.carried(f, what, x, body, dep)
	case *ssa.MapUpdate:
		if !dep[x.Key] && !dep[x.Value] || constLike(x.Value) {
			return
		}
		if ex, ok := x.Key.(*ssa.Extract); ok {
			if n, ok := ex.Tuple.(*ssa.Next); ok && n.Block() == head && ex.Index == 1 {
				return
			}
		}
		for _, b := range head.Instrs {
			if n, ok := b.(*ssa.Next); ok && o.keyOf(x.Key, n) {
				return
			}
		}
		o.fail(f, x, what, "a map is filled under keys that several elements may share: the last one wins")
	case *ssa.Store:
		if constLike(x.Val) {
			return
		}
		root := addrRoot(x.Addr)
		if root == nil || dep[x.Addr] && !isCell(root) {
			return // the element's own
		}
		if al, ok := root.(*ssa.Alloc); ok && body[al.Block()] {
			return // made in this round
		}
		if isAppend(x.Val, x.Addr) {
			o.slices++
			o.cell(f, x.Addr, what)
			return
		}
		if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
			if _, ok := ia.X.Type().Underlying().(*types.Slice); ok {
				switch y := ia.X.(type) {
				case *ssa.MakeSlice, *ssa.Phi:
					o.slices++
					o.sorted(f, y, what)
					return
				case *ssa.UnOp:
					if isCell(y.X) {
						o.slices++
						o.cell(f, y.X, what)
						return
					}
				}
			}
		}
		if b, ok := x.Val.(*ssa.BinOp); ok && commutes(b) {
			return
		}
		if !dep[x.Val] && !dep[x.Addr] {
			return
		}
		next := nextOf(head)
		if next != nil && o.guarded(x.Block(), next) {
			return
		}
		o.fail(f, x, what, "what is stored depends on the order of the map")
	case *ssa.Send:
		o.fail(f, x, what, "is sent in the order of the map")
	case ssa.CallInstruction:
		o.call(f, what, x)
	}
}

func nextOf(b *ssa.BasicBlock) *ssa.Next {
	for _, in := range b.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			return n
		}
	}
	return nil
}

func constLike(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeInterface:
		return constLike(x.X)
	}
	if s, ok := v.Type().Underlying().(*types.Struct); ok && s.NumFields() == 0 {
		return true
	}
	return false
}

func isCell(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Alloc, *ssa.FreeVar, *ssa.Global:
		return true
	}
	return false
}

func addrRoot(v ssa.Value) ssa.Value {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			v = x.X
		default:
			return v
		}
	}
	return v
}

func commutes(b *ssa.BinOp) bool {
	switch b.Op {
	case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
		t, ok := b.Type().Underlying().(*types.Basic)
		return ok && t.Info()&(types.IsInteger|types.IsBoolean) != 0
	}
	return false
}

// isAppend says that something is appended to what is at an address.
func isAppend(v, addr ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" {
		return false
	}
	ld, ok := c.Call.Args[0].(*ssa.UnOp)
	return ok && ld.X == addr
}

// carried checks a value that goes from one round of the loop to the next.
func (o *orderRule) carried(f *ssa.Function, what string, ph *ssa.Phi, body map[*ssa.BasicBlock]bool, dep map[ssa.Value]bool) {
	ordered := false
	seen := map[ssa.Value]bool{ph: true}
	next := nextOf(ph.Block())
	var ok func(v ssa.Value, at *ssa.BasicBlock) bool
	ok = func(v ssa.Value, at *ssa.BasicBlock) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		if constLike(v) || !dep[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for i, e := range x.Edges {
				if !ok(e, x.Block().Preds[i]) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			return commutes(x) && (seen[x.X] || seen[x.Y])
		case *ssa.Call:
			if b, is := x.Call.Value.(*ssa.Builtin); is {
				switch b.Name() {
				case "append":
					ordered = true
					return ok(x.Call.Args[0], x.Block())
				case "min", "max":
					return true
				}
			}
		}
		return next != nil && o.guarded(at, next)
	}
	for i, e := range ph.Edges {
		if body[ph.Block().Preds[i]] && !ok(e, ph.Block().Preds[i]) {
			o.fail(f, ph, what, "%s depends on the order of the map", phName(ph))
			return
		}
	}
	// values that only depend on a condition: constants per round are the same for all orders
	if !ordered {
		for _, e := range ph.Edges {
			if c, ok := e.(*ssa.Call); ok {
				if b, is := c.Call.Value.(*ssa.Builtin); is && b.Name() == "append" {
					ordered = true
				}
			}
		}
	}
	if ordered {
		o.slices++
		o.sorted(f, ph, what)
	}
}

func phName(ph *ssa.Phi) string {
	if ph.Comment != "" {
		return ph.Comment
	}
	return "a value"
}

// call checks a call in the body of a loop.
func (o *orderRule) call(f *ssa.Function, what string, c ssa.CallInstruction) {
	cc := c.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy":
			o.fail(f, c, what, "copies in the order of the map")
		case "print", "println":
			o.fail(f, c, what, "prints in the order of the map")
		}
		return
	}
	g := cc.StaticCallee()
	if g != nil && !o.p.inModule(g) {
		n := calleeName(cc, g)
		if changes(n) || strings.HasPrefix(n, "io.") || strings.HasPrefix(n, "encoding/binary.Write") || strings.HasPrefix(n, "(*bufio.Writer)") || strings.HasPrefix(n, "fmt.P") || strings.HasPrefix(n, "fmt.F") || strings.HasPrefix(n, "(*os.File).Write") {
			o.fail(f, c, what, "%s is called in the order of the map", n)
		}
		return
	}
	for _, g := range o.p.callees(cc) {
		if e := o.effectsOf(g); e != "" {
			o.fail(f, c, what, "%s is called in the order of the map, and %s", shortFn(g), e)
			return
		}
	}
}

// effectsOf names an effect of a function that goes beyond known caches and what it is given.
func (o *orderRule) effectsOf(g *ssa.Function) string {
	if e, ok := o.effects[g]; ok {
		return e
	}
	o.effects[g] = ""
	if inPkg(g, "internal") && strings.Contains(g.String(), "ogger") || len(g.Blocks) == 0 {
		return ""
	}
	p := o.p
	a := newAn(p, p.initBase())
	out := ""
	sc := &effectScan{p: p, a: a}
	sc.about = func(v *Val) bool { return p.outside(a, v) }
	sc.top = func(target ssa.Value) bool { return fieldName(target, 0) != "" || isCell(addrRoot(target)) }
	sc.effect = func(fr *Frame, st *State, in ssa.Instruction, field, what string) {
		if _, ok := readEffects[field]; ok || strings.HasPrefix(field, "internal.logger") || inPkg(fr.fn, "internal") {
			return
		}
		if out == "" {
			if field == "" {
				field = "something"
			}
			out = "it changes " + field + " at " + p.pos(in)
		}
	}
	sc.hooks()
	prev := a.OnCall
	a.OnCall = func(c *Call) ([]Out, bool) {
		if strings.HasPrefix(c.name, "encoding/binary.Write") || strings.HasSuffix(c.name, ").Write") {
			if out == "" {
				out = "it writes at " + p.pos(c.site)
			}
		}
		return prev(c)
	}
	a.run(g, "", nil, nil)
	o.r.cover(a)
	o.effects[g] = out
	return out
}

// cell checks that a slice in a variable is sorted before it is used.
func (o *orderRule) cell(f *ssa.Function, addr ssa.Value, what string) {
	al := addrRoot(addr)
	if fv, ok := al.(*ssa.FreeVar); ok && fv == addr {
		if c := cellOf(fv); c != nil {
			al = c
		}
	}
	a, ok := al.(*ssa.Alloc)
	if !ok || addr != al && !isFree(addr) {
		o.fail(f, addr.(ssa.Instruction), what, "a slice that is not a local variable is filled in the order of the map")
		return
	}
	// all loads of the variable
	var visit func(c ssa.Value)
	seen := map[ssa.Value]bool{}
	visit = func(c ssa.Value) {
		if seen[c] {
			return
		}
		seen[c] = true
		for _, ref := range *c.Referrers() {
			switch x := ref.(type) {
			case *ssa.UnOp:
				o.sorted(x.Parent(), x, what)
			case *ssa.MakeClosure:
				g := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == c {
						visit(g.FreeVars[i])
					}
				}
			}
		}
	}
	visit(a)
}

func isFree(v ssa.Value) bool { _, ok := v.(*ssa.FreeVar); return ok }

// sameSlice gives the registers that hold the same slice.
func sameSlice(v ssa.Value) []ssa.Value {
	out := []ssa.Value{v}
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL && isCell(ld.X) {
		for _, ref := range *ld.X.Referrers() {
			if x, ok := ref.(*ssa.UnOp); ok && x != ld {
				out = append(out, x)
			}
		}
	}
	return out
}

// sorted checks that a slice is sorted before it is used in another way.
func (o *orderRule) sorted(f *ssa.Function, v ssa.Value, what string) {
	if o.inCheck[v] {
		return
	}
	o.inCheck[v] = true
	var sorts []ssa.Instruction
	sorter := func(in ssa.Instruction, s ssa.Value) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok || c.Common().IsInvoke() {
			return false
		}
		cc := c.Common()
		n := calleeName(cc, cc.StaticCallee())
		switch n {
		case "slices.Sort", "sort.Strings", "sort.Ints", "sort.Float64s":
			return true
		case "slices.SortFunc", "slices.SortStableFunc", "sort.Slice", "sort.SliceStable":
			if len(cc.Args) == 2 && o.total(cc.Args[1], s.Type()) {
				return true
			}
			o.fail(f, c, what, "the comparison does not tell all elements apart: the others stay in the order of the map")
			return true
		case "sort.Sort", "sort.Stable":
			if t := cc.Args[0]; strings.Contains(t.Name(), "") {
				if mi, ok := t.(*ssa.MakeInterface); ok && strings.HasPrefix(mi.X.Type().String(), "sort.") {
					return true
				}
			}
			return false
		}
		if g := cc.StaticCallee(); g != nil && o.p.inModule(g) {
			for i, a := range cc.Args {
				if a == s && i < len(g.Params) && o.sorts(g, g.Params[i]) {
					return true
				}
			}
		}
		return false
	}
	var uses func(v ssa.Value, visit func(in ssa.Instruction, s ssa.Value), seen map[ssa.Value]bool)
	uses = func(v ssa.Value, visit func(in ssa.Instruction, s ssa.Value), seen map[ssa.Value]bool) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				uses(x, visit, seen)
			case *ssa.Slice:
				uses(x, visit, seen)
			case *ssa.ChangeType:
				uses(x, visit, seen)
			case *ssa.MakeInterface:
				// what a sort gets
				for _, r2 := range *x.Referrers() {
					visit(r2, v)
				}
			case *ssa.Store:
				if x.Val == v && isCell(x.Addr) {
					if _, ok := x.Addr.(*ssa.Global); !ok {
						for _, r2 := range *x.Addr.Referrers() {
							if ld, ok := r2.(*ssa.UnOp); ok {
								uses(ld, visit, seen)
							}
						}
						continue
					}
				}
				visit(x, v)
			default:
				visit(ref, v)
			}
		}
	}
	all := sameSlice(v)
	if fv, ok := v.(*ssa.UnOp); ok {
		if _, ok := fv.X.(*ssa.FreeVar); ok {
			// sorted where the variable is declared
			if c := cellOf(fv.X); c != nil {
				for _, ref := range *c.Referrers() {
					if ld, ok := ref.(*ssa.UnOp); ok {
						all = append(all, ld)
					}
				}
			}
		}
	}
	for _, w := range all {
		uses(w, func(in ssa.Instruction, s ssa.Value) {
			if sorter(in, s) {
				sorts = append(sorts, in)
			}
		}, map[ssa.Value]bool{})
	}
	comparator := func(g *ssa.Function) bool {
		for _, s := range sorts {
			for _, a := range s.(ssa.CallInstruction).Common().Args {
				if mc, ok := a.(*ssa.MakeClosure); ok && mc.Fn == g {
					return true
				}
			}
		}
		return false
	}
	after := func(in ssa.Instruction) bool {
		if comparator(in.Parent()) {
			return true
		}
		for _, s := range sorts {
			if s == in || s.Parent() == in.Parent() && before(s, in) {
				return true
			}
		}
		return false
	}
	uses(v, func(in ssa.Instruction, s ssa.Value) {
		if after(in) {
			return
		}
		switch x := in.(type) {
		case *ssa.Return:
			// the callers have to
			i := slices.Index(x.Results, s)
			for _, c := range o.p.callersOf(f) {
				call, ok := c.site.(*ssa.Call)
				if !ok {
					continue
				}
				if _, tuple := call.Type().(*types.Tuple); tuple {
					for _, ref := range *call.Referrers() {
						if ex, ok := ref.(*ssa.Extract); ok && ex.Index == i {
							o.sorted(c.fn, ex, what+" of "+shortFn(f))
						}
					}
				} else {
					o.sorted(c.fn, call, what+" of "+shortFn(f))
				}
			}
			if ast := f.Object(); ast != nil && ast.Exported() {
				o.fail(f, x, what, "is returned in the order of the map")
			}
			return
		case *ssa.BinOp:
			return // comparison with nil
		case *ssa.IndexAddr:
			if onlyStored(x) {
				return
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap" || b.Name() == "append" && x.Call.Args[0] == s) {
				if b.Name() == "append" {
					o.sorted(f, x, what)
				}
				return
			}
			if g := x.Call.StaticCallee(); g != nil && inPkg(g, "internal") && strings.Contains(g.String(), "ogger") {
				return
			}
			if n := calleeName(x.Common(), x.Common().StaticCallee()); n == "slices.Sorted" || n == "slices.Values" || n == "slices.Contains" || n == "slices.Max" || n == "slices.Min" {
				return
			}
		}
		o.fail(f, in, what, "a slice in the order of the map is used before it is sorted")
	}, map[ssa.Value]bool{})
}

// sorts says that a function of the module sorts its parameter before it does anything else with it.
func (o *orderRule) sorts(g *ssa.Function, param *ssa.Parameter) bool {
	for _, ref := range *param.Referrers() {
		if c, ok := ref.(ssa.CallInstruction); ok {
			switch calleeName(c.Common(), c.Common().StaticCallee()) {
			case "slices.Sort", "sort.Strings", "sort.Ints":
				return c.Block() == g.Blocks[0]
			case "slices.SortFunc", "slices.SortStableFunc", "sort.Slice", "sort.SliceStable":
				return c.Block() == g.Blocks[0] && o.total(c.Common().Args[1], param.Type())
			}
		}
	}
	// an interface for package sort
	for _, ref := range *param.Referrers() {
		if mi, ok := ref.(*ssa.MakeInterface); ok {
			for _, r2 := range *mi.Referrers() {
				if c, ok := r2.(ssa.CallInstruction); ok {
					switch calleeName(c.Common(), c.Common().StaticCallee()) {
					case "sort.Slice", "sort.SliceStable":
						return c.Block() == g.Blocks[0] && o.total(c.Common().Args[1], param.Type())
					}
				}
			}
		}
	}
	return false
}

// total says that a comparison function tells all elements of a slice apart: with everything else equal,
// the unique key decides.
func (o *orderRule) total(cmp ssa.Value, slice types.Type) bool {
	var f *ssa.Function
	switch x := cmp.(type) {
	case *ssa.MakeClosure:
		f = x.Fn.(*ssa.Function)
	case *ssa.Function:
		f = x
	default:
		return false
	}
	if n := shortFn(f); strings.HasPrefix(n, "strings.Compare") || strings.HasPrefix(n, "cmp.Compare[") {
		return true
	}
	if len(f.Params) != 2 || len(f.Blocks) == 0 {
		return false
	}
	o.r.obl("comparison", shortFn(f))
	isBool := types.Identical(f.Signature.Results().At(0).Type(), types.Typ[types.Bool])
	for _, less := range []bool{true, false} {
		a := newAn(o.p, o.p.initBase())
		keys := 0
		answer := func(x, y ssa.Value) (int, bool) {
			ex, fx, okx := o.element(x, f)
			ey, fy, oky := o.element(y, f)
			if !okx || !oky || ex == ey || fx != fy {
				return 0, false
			}
			if o.isKey(x, fx) {
				keys++
				if less == (ex == 0) {
					return -1, true
				}
				return 1, true
			}
			return 0, true
		}
		a.OnCmp = func(fr *Frame, in *ssa.BinOp, x, y *Val, st *State) *Val {
			if fr.fn != f {
				return nil
			}
			c, ok := answer(in.X, in.Y)
			if !ok {
				return nil
			}
			switch in.Op {
			case token.LSS:
				return vConst(constant.MakeBool(c < 0))
			case token.GTR:
				return vConst(constant.MakeBool(c > 0))
			case token.LEQ:
				return vConst(constant.MakeBool(c <= 0))
			case token.GEQ:
				return vConst(constant.MakeBool(c >= 0))
			case token.EQL:
				return vConst(constant.MakeBool(c == 0))
			case token.NEQ:
				return vConst(constant.MakeBool(c != 0))
			}
			return nil
		}
		a.OnCall = func(c *Call) ([]Out, bool) {
			if c.name == "cmp.Compare" || c.name == "strings.Compare" || c.name == "cmp.Less" {
				args := c.site.Common().Args
				if k, ok := answer(args[0], args[1]); ok {
					if c.name == "cmp.Less" {
						return []Out{{res: vConst(constant.MakeBool(k < 0))}}, true
					}
					return []Out{{res: vInt(int64(k))}}, true
				}
			}
			return nil, false
		}
		exits := a.run(f, "", nil, nil)
		o.r.cover(a)
		n := 0
		for _, e := range exits {
			if e.panic != nil {
				continue
			}
			n++
			v := e.results[0]
			if v.k != KConst {
				return false
			}
			if isBool {
				if constant.BoolVal(v.c) != less {
					return false
				}
			} else if less != (constant.Sign(v.c) < 0) || !less != (constant.Sign(v.c) > 0) {
				return false
			}
		}
		if n == 0 || keys == 0 {
			return false
		}
	}
	return true
}

// element says which of the two elements that are compared a value is of, and which field of it.
func (o *orderRule) element(v ssa.Value, f *ssa.Function) (which int, field string, ok bool) {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return 0, "", false
			}
			v = x.X
		case *ssa.FieldAddr:
			field = "." + itoa(int64(x.Field)) + field
			v = x.X
		case *ssa.Field:
			field = "." + itoa(int64(x.Field)) + field
			v = x.X
		case *ssa.IndexAddr:
			for i, q := range f.Params {
				if x.Index == q {
					return i, field, true
				}
			}
			return 0, "", false
		case *ssa.Parameter:
			for i, q := range f.Params {
				if x == q {
					return i, field, true
				}
			}
			return 0, "", false
		default:
			return 0, "", false
		}
	}
	return 0, "", false
}

// isKey says that a value is a key of a map, or a field that is.
func (o *orderRule) isKey(v ssa.Value, field string) bool {
	if field == "" {
		b, ok := v.Type().Underlying().(*types.Basic)
		return ok && b.Info()&(types.IsString|types.IsInteger) != 0
	}
	ld, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	return o.unique[typeString(derefType(fa.X.Type()))][fa.Field]
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// onlyStored says that an element is only set.
func onlyStored(v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		if s, ok := ref.(*ssa.Store); !ok || s.Addr != v {
			return false
		}
	}
	return true
}
