package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An is one analysis: a forward, path-merging dataflow over the inlined call tree. States are
// kept apart by the property state (prop), which the rule's hooks advance.
type An struct {
	p    *Prog
	base Mem // memory after package initialisation

	// rule hooks; all optional
	OnCall   func(c *Call) ([]Out, bool)
	OnCmp    func(fr *Frame, in *ssa.BinOp, x, y *Val, st *State) *Val
	OnStore  func(fr *Frame, in ssa.Instruction, addr, val *Val, st *State)
	OnInstr  func(fr *Frame, in ssa.Instruction, st *State)
	OnMake   func(fr *Frame, in *ssa.MakeSlice, n *Val, st *State) *Val
	Inline   func(f *ssa.Function) bool // nil: inline every module function
	CHA      func(c *Call) bool         // analyse the module's implementations of an unknown interface
	OnLoad   func(fr *Frame, in *ssa.UnOp, addr, v *Val, st *State) *Val
	PinField func(st *State, t *types.Struct, i int, v *Val) *Val // the value that a field has when it is read
	OnOpaque func(c *Call)
	OnExit   func(fr *Frame, st *State, res []*Val, at ssa.Instruction)
	OnSplit  func(st *State, name string, truth bool) bool // an unknown condition gets a value; false: it cannot
	PinVal   map[ssa.Value]*Val                            // registers with a given value
	OnField  bool                                          // conversions of tracked fields are kept
	KeepErr  bool                                          // results of unknown calls with an error: keep error and success apart
	Cut      func(prop string) bool                        // abandon states with this property state
	Ord      func(x, y string) (int, bool)
	keyVals  map[string]*Val
	Lin      *Lin // lengths are followed as polynomials
	Frees    bool // bind free variables to unknown cells
	MaxDisj  int
	Recur    int  // recursive calls of a function that are interpreted
	Unroll   int  // iterations of loops with a known bound that are kept apart
	Chain    int  // how many calls the name of an object tells, if more than six
	Fresh    bool // objects made again by the same instruction are told apart

	memo     map[string][]*Exit
	stack    []*ssa.Function
	siteID   map[ssa.Instruction]string
	maxDepth int
	steps    int
	budget   int
	over     bool // the budget was exceeded: the result is not a verdict
	covered  map[*ssa.Function]bool
	havocked map[string]bool
	live     map[*ssa.Function][]map[ssa.Value]bool
	loops    map[*ssa.Function][]map[int]bool
}

type deferRec struct {
	in   *ssa.Defer
	fn   *Val
	args []*Val
}

type State struct {
	env    map[ssa.Value]*Val
	mem    Mem
	prop   string
	defers []deferRec
	panic  *Val            // the value this frame is panicking with
	outer  *Val            // (deferred calls) the panic in progress, which recover would stop
	nn     map[string]bool // tokens known not to be nil
	facts  map[string]bool // outcomes of comparisons of unknown values
	pend   map[string]bool // type.field written through unknown pointers (applied to callers' frames)
}

func (s *State) clone() *State {
	n := &State{env: make(map[ssa.Value]*Val, len(s.env)+4), mem: s.mem.clone(), prop: s.prop, panic: s.panic, outer: s.outer}
	for k, v := range s.env {
		n.env[k] = v
	}
	n.defers = append([]deferRec(nil), s.defers...)
	n.nn = make(map[string]bool, len(s.nn))
	for k := range s.nn {
		n.nn[k] = true
	}
	n.pend = make(map[string]bool, len(s.pend))
	for k := range s.pend {
		n.pend[k] = true
	}
	if len(s.facts) > 0 {
		n.facts = make(map[string]bool, len(s.facts))
		for k, v := range s.facts {
			n.facts[k] = v
		}
	}
	return n
}

func newState() *State {
	return &State{env: map[ssa.Value]*Val{}, mem: Mem{}, nn: map[string]bool{}, pend: map[string]bool{}}
}

type Exit struct {
	prop    string
	panic   *Val
	outer   *Val
	results []*Val
	mem     Mem
	nn      map[string]bool
	pend    map[string]bool
	at      ssa.Instruction // a return or panic this exit comes from
	key     string
}

func (e *Exit) rkey() string {
	var b strings.Builder
	b.WriteString(e.prop + "#")
	if e.outer != nil {
		b.WriteString("outer#")
	}
	if e.panic != nil {
		b.WriteString("panic")
		if e.panic.k == KIface {
			b.WriteString(typeKey(e.panic.t))
		}
		return b.String()
	}
	for _, r := range e.results {
		switch {
		case r.isConst() && (r.c.Kind() == constant.Bool || r.c.Kind() == constant.Int):
			b.WriteString(r.Key())
		case e.nn[r.s] && r.k == KTok:
			b.WriteString("N")
		default:
			switch r.nilness() {
			case 1:
				b.WriteString("0")
			case -1:
				b.WriteString("N")
				if r.k == KIface && !isErrorType(r.t) {
					b.WriteString(typeKey(r.t))
				}
			default:
				b.WriteString("?")
			}
		}
		b.WriteString(",")
	}
	return b.String()
}

type Frame struct {
	a           *An
	fn          *ssa.Function
	args        []*Val
	depth       int
	deferDirect bool
	visits      map[string]int
	openIf      map[*ssa.BasicBlock]bool // loop heads whose condition was once not known
	made        map[string]bool
}

type Call struct {
	a      *An
	fr     *Frame
	site   ssa.CallInstruction
	st     *State
	callee *ssa.Function
	name   string
	args   []*Val
	fnVal  *Val
}

type Out struct {
	res   *Val
	prop  string
	st    *State
	panic *Val
}

func newAn(p *Prog, base Mem) *An {
	return &An{p: p, base: base, memo: map[string][]*Exit{}, siteID: map[ssa.Instruction]string{},
		maxDepth: 40, budget: 3000000, covered: map[*ssa.Function]bool{}, havocked: map[string]bool{}, live: map[*ssa.Function][]map[ssa.Value]bool{}, loops: map[*ssa.Function][]map[int]bool{}, MaxDisj: 8}
}

// fnID numbers the functions in the order the analyses of this program meet them.
func (a *An) fnID(f *ssa.Function) int {
	id, ok := a.p.fnIDs[f]
	if !ok {
		id = len(a.p.fnIDs) + 1
		a.p.fnIDs[f] = id
	}
	return id
}

func (a *An) site(in ssa.Instruction) string {
	if s, ok := a.siteID[in]; ok {
		return s
	}
	fn := in.Parent()
	n := 0
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			n++
			a.siteID[i] = fmt.Sprintf("%d.%d", a.fnID(fn), n)
		}
	}
	return a.siteID[in]
}

// ---- memory access ----

func (a *An) obj(st *State, id string, typ types.Type) *Obj {
	if o, ok := st.mem[id]; ok {
		if o.typ == nil && typ != nil {
			o = o.clone()
			o.typ = typ
			st.mem[id] = o
		}
		return o
	}
	if o, ok := a.base[id]; ok {
		return o
	}
	o := &Obj{typ: typ}
	st.mem[id] = o
	return o
}

// loc turns an address into an object and a path.
func (a *An) loc(st *State, addr *Val) (string, string, bool) {
	switch addr.k {
	case KPtr:
		return addr.s, addr.p, true
	case KTok:
		return "P<" + addr.s + ">", "", true
	}
	return "", "", false
}

func (a *An) load(st *State, addr *Val, t types.Type) *Val {
	id, path, ok := a.loc(st, addr)
	if !ok {
		return top
	}
	var ot types.Type
	if path == "" {
		ot = t
	}
	o := a.obj(st, id, ot)
	return a.loadAt(st, id, o, path, t)
}

func (a *An) loadAt(st *State, id string, o *Obj, path string, t types.Type) *Val {
	if s := isStruct(t); s != nil {
		if v, ok := o.cells[path]; ok && v.k != KStruct {
			return v
		}
		if s.NumFields() > 40 {
			return top
		}
		e := make([]*Val, s.NumFields())
		for i := range e {
			e[i] = a.loadAt(st, id, o, path+"."+strconv.Itoa(i), s.Field(i).Type())
		}
		return &Val{k: KStruct, t: t, e: e}
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		return top
	}
	// the whole struct may have been stored as an unknown
	if _, ok := o.cells[path]; !ok {
		for p := path; ; {
			i := strings.LastIndexAny(p, ".[")
			if i < 0 {
				break
			}
			p = p[:i]
			if v, ok := o.cells[p]; ok {
				if v.k == KTop || v.k == KTok {
					return top
				}
				break
			}
		}
	}
	v := o.get(id, path)
	if v.k == KTop && !o.zero && !o.multi && !strings.Contains(path, "*") {
		return v
	}
	return v
}

func (a *An) store(st *State, addr, v *Val, t types.Type) {
	id, path, ok := a.loc(st, addr)
	if !ok {
		// unknown address: anything of this type and not private may change
		st.havocType(addrKey(t))
		return
	}
	var ot types.Type
	if path == "" {
		ot = t
	}
	o := a.obj(st, id, ot).clone()
	st.mem[id] = o
	a.storeAt(o, id, path, v, t)
}

func (a *An) storeAt(o *Obj, id, path string, v *Val, t types.Type) {
	// drop cells below
	if s := isStruct(t); s != nil {
		for p := range o.cells {
			if p != path && strings.HasPrefix(p, path+".") {
				if !o.multi {
					delete(o.cells, p)
				}
			}
		}
		delete(o.cells, path)
		if v.k == KStruct && len(v.e) == s.NumFields() {
			for i := range v.e {
				a.storeAt(o, id, path+"."+strconv.Itoa(i), v.e[i], s.Field(i).Type())
			}
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if isStruct(ft) != nil {
				a.storeAt(o, id, path+"."+strconv.Itoa(i), top, ft)
			} else {
				o.cells[path+"."+strconv.Itoa(i)] = top
			}
		}
		return
	}
	if arr, isArr := t.Underlying().(*types.Array); isArr {
		for p := range o.cells {
			if strings.HasPrefix(p, path+"[") {
				delete(o.cells, p)
			}
		}
		o.cells[path+"[*]"] = top
		if v.isConst() {
			delete(o.cells, path+"[*]")
		}
		if v.k == KStruct && !o.multi {
			// zeros
			_, inArr := arr.Elem().Underlying().(*types.Array)
			if inArr || isStruct(arr.Elem()) != nil {
				if o.zero {
					delete(o.cells, path+"[*]")
				}
			} else if o.zero || arr.Len() <= 64 {
				delete(o.cells, path+"[*]")
				for i := int64(0); i < arr.Len() && !o.zero; i++ {
					o.cells[path+"["+itoa(i)+"]"] = zero(arr.Elem())
				}
			}
		}
		return
	}
	if strings.Contains(path, "[*]") {
		// unknown element: every element may have changed
		i := strings.LastIndex(path, "[*]")
		pre, post := path[:i], path[i+3:]
		for p, old := range o.cells {
			if strings.HasPrefix(p, pre+"[") && strings.HasSuffix(p, "]"+post) {
				o.cells[p] = join(old, v)
			}
		}
		if old, ok := o.cells[path]; ok {
			o.cells[path] = join(old, v)
		} else {
			o.cells[path] = join(o.defVal(id, path), v)
		}
		return
	}
	if o.multi {
		o.cells[path] = join(o.get(id, path), v)
		return
	}
	o.cells[path] = v
}

func addrKey(t types.Type) string {
	if t == nil {
		return "*"
	}
	return t.String()
}

func private(id string) bool { return strings.HasPrefix(id, "A<") }

// havocType forgets cells of a type that a store through an unknown pointer may have changed.
func (s *State) havocType(key string) {
	s.pend[key] = true
	s.applyPend(key)
}

func (s *State) applyPend(key string) {
	for id, o := range s.mem {
		if private(id) {
			continue
		}
		var drop []string
		for p := range o.cells {
			if key == "*" {
				drop = append(drop, p)
				continue
			}
			t := typeAt(o.typ, p)
			if t == nil || t.String() == key {
				drop = append(drop, p)
			}
		}
		if len(drop) > 0 {
			n := o.clone()
			for _, p := range drop {
				n.cells[p] = top
			}
			s.mem[id] = n
		}
	}
}

// havoc forgets everything reachable from the values (which unknown code was given).
func (a *An) havoc(st *State, vals []*Val, why string) {
	r := map[string]bool{}
	st.mem.reach(vals, r)
	for id := range r {
		o := st.mem[id]
		if o == nil {
			continue
		}
		n := &Obj{typ: o.typ, multi: o.multi, ep: why, cells: map[string]*Val{}}
		st.mem[id] = n
		if a.havocked[why+id] {
			a.killPrefix(st, "u<"+id, "@"+why+">")
			a.forgetEpoch(st, id, why)
		}
		a.havocked[why+id] = true
	}
}

// kill forgets every mention of a token.
func (a *An) kill(st *State, name string) {
	a.substState(st, name, top)
	delete(st.nn, name)
	for k := range st.facts {
		if strings.Contains(k, name) {
			delete(st.facts, k)
		}
	}
	delete(st.mem, "P<"+name+">")
}

func (a *An) killPrefix(st *State, pre, suf string) {
	found := map[string]bool{}
	var walk func(v *Val)
	walk = func(v *Val) {
		if v == nil {
			return
		}
		if v.k == KTok && strings.HasPrefix(v.s, pre) && strings.HasSuffix(v.s, suf) {
			found[v.s] = true
		}
		for _, x := range v.e {
			walk(x)
		}
	}
	for _, v := range st.env {
		walk(v)
	}
	for _, o := range st.mem {
		for _, v := range o.cells {
			walk(v)
		}
	}
	for n := range found {
		a.kill(st, n)
	}
}

func (a *An) substState(st *State, name string, by *Val) {
	for k, v := range st.env {
		if n := v.subst(name, by); n != v {
			st.env[k] = n
		}
	}
	for id, o := range st.mem {
		var n *Obj
		for p, v := range o.cells {
			if x := v.subst(name, by); x != v {
				if n == nil {
					n = o.clone()
				}
				n.cells[p] = x
			}
		}
		// a lazily named cell is refined by writing it down
		if n != nil {
			st.mem[id] = n
		}
	}
	if strings.HasPrefix(name, "u<") && by.k != KTop {
		// name = u<id path @ep>: pin the cell itself when it is still at this epoch
		for id, o := range st.mem {
			if !strings.HasPrefix(name[2:], id) {
				continue
			}
			rest := name[2+len(id):]
			at := strings.LastIndexByte(rest, '@')
			if at < 0 || rest[at+1:] != o.ep+">" {
				continue
			}
			path := rest[:at]
			if path != "" && path[0] != '.' && path[0] != '[' && path[0] != '{' {
				continue
			}
			if _, ok := o.cells[path]; !ok && !o.zero {
				n := o.clone()
				n.cells[path] = by
				st.mem[id] = n
			}
		}
	}
	for i := range st.defers {
		for j, v := range st.defers[i].args {
			if n := v.subst(name, by); n != v {
				args := append([]*Val(nil), st.defers[i].args...)
				args[j] = n
				st.defers[i].args = args
			}
		}
	}
}

func (a *An) nilness(st *State, v *Val) int {
	if v.k == KTok && st.nn[v.s] {
		return -1
	}
	return v.nilness()
}

// alloc makes a new object for an allocation instruction.
func (a *An) alloc(st *State, in ssa.Instruction, t types.Type) string {
	id := "A<" + a.site(in) + ">"
	o := &Obj{zero: true, typ: t, cells: map[string]*Val{}}
	if a.Fresh {
		id = a.freshID(st, id, in)
	}
	if old, ok := st.mem[id]; ok {
		// executed again: is the previous object still referred to from memory?
		ref := false
		for oid, x := range st.mem {
			if oid == id {
				continue
			}
			for _, v := range x.cells {
				if refersTo(v, id) {
					ref = true
				}
			}
		}
		for _, d := range st.defers {
			for _, v := range d.args {
				if refersTo(v, id) {
					ref = true
				}
			}
		}
		if ref {
			o = old.clone()
			o.multi = true
			// weak: either the old contents or zero
			for p, v := range o.cells {
				o.cells[p] = join(v, (&Obj{zero: true, typ: t}).defVal(id, p))
			}
		}
	}
	st.mem[id] = o
	return id
}

// freshID gives another name to an object that is made while the one made by the same instruction
// is still in use.
func (a *An) freshID(st *State, id string, in ssa.Instruction) string {
	for i := 0; i < 24; i++ {
		if _, ok := st.mem[id]; !ok || !a.inUse(st, id, in) {
			return id
		}
		id = id[:len(id)-1] + "'>"
	}
	return id
}

func (a *An) inUse(st *State, id string, in ssa.Instruction) bool {
	for oid, x := range st.mem {
		if oid == id {
			continue
		}
		for _, v := range x.cells {
			if refersTo(v, id) {
				return true
			}
		}
	}
	self, _ := in.(ssa.Value)
	for r, v := range st.env {
		if r != self && refersTo(v, id) {
			return true
		}
	}
	for _, d := range st.defers {
		for _, v := range d.args {
			if refersTo(v, id) {
				return true
			}
		}
	}
	return false
}

func refersTo(v *Val, id string) bool {
	if (v.k == KPtr || v.k == KSlice || v.k == KMap) && v.s == id {
		return true
	}
	for _, x := range v.e {
		if refersTo(x, id) {
			return true
		}
	}
	return false
}

// ---- values ----

func (fr *Frame) val(st *State, v ssa.Value) *Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zero(x.Type())
		}
		if x.Value.Kind() == constant.Complex {
			return top
		}
		if _, ok := x.Type().Underlying().(*types.Basic); ok {
			return convertConst(x.Value, x.Type())
		}
		return vConst(x.Value)
	case *ssa.Function:
		return vFunc(x, nil)
	case *ssa.Global:
		return vPtr(globalID(x), "")
	case *ssa.Builtin:
		return nonNil("builtin")
	}
	if fr.a.PinVal != nil {
		if r, ok := fr.a.PinVal[v]; ok {
			return r
		}
	}
	if r, ok := st.env[v]; ok {
		return r
	}
	return top
}

func globalID(g *ssa.Global) string { return "G:" + g.String() }

func (a *An) ensureGlobal(st *State, g *ssa.Global) {
	id := globalID(g)
	if _, ok := st.mem[id]; ok {
		return
	}
	if _, ok := a.base[id]; ok {
		return
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	st.mem[id] = &Obj{typ: t}
}

func (fr *Frame) set(st *State, v ssa.Value, x *Val) { st.env[v] = x }

// fresh names the unknown result of an instruction.
func (fr *Frame) fresh(st *State, in ssa.Instruction, sfx string, t types.Type) *Val {
	if t != nil {
		if tup, ok := t.(*types.Tuple); ok {
			e := make([]*Val, tup.Len())
			for i := range e {
				e[i] = fr.fresh(st, in, sfx+strconv.Itoa(i), tup.At(i).Type())
			}
			return vTuple(e...)
		}
		if s := isStruct(t); s != nil && s.NumFields() <= 24 {
			e := make([]*Val, s.NumFields())
			for i := range e {
				e[i] = fr.fresh(st, in, sfx+"f"+strconv.Itoa(i), s.Field(i).Type())
			}
			return &Val{k: KStruct, t: t, e: e}
		}
	}
	name := "r<" + fr.a.site(in) + sfx + ">"
	fr.forget(st, name)
	return tok(name)
}

// forget drops an earlier unknown of the same name (the instruction is being executed again).
func (fr *Frame) forget(st *State, name string) {
	if fr.made[name] {
		fr.a.kill(st, name)
	}
	fr.made[name] = true
}

func isErrorType(t types.Type) bool {
	if t == nil {
		return false
	}
	e := types.Universe.Lookup("error").Type()
	return types.Identical(t, e) || types.Implements(t, e.Underlying().(*types.Interface))
}

func isErrIface(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// ---- running a function ----

func (a *An) overBudget() bool {
	if a.steps > a.budget || stopAll.Load() {
		a.over = true
		return true
	}
	return false
}

// call analyses a function for given arguments, in the memory of a state, and returns one state per
// kind of exit.
func (a *An) call(st *State, fn *ssa.Function, args, binds []*Val, site ssa.Instruction, depth int, deferDirect bool) []*Exit {
	// the part of memory the callee can see
	r := map[string]bool{}
	roots := append(append([]*Val(nil), args...), binds...)
	var outer *Val
	if deferDirect && st.panic != nil {
		outer = st.panic
		roots = append(roots, outer)
	}
	for id := range st.mem {
		if strings.HasPrefix(id, "G:") {
			roots = append(roots, vPtr(id, ""))
		}
	}
	st.mem.reach(roots, r)
	in := Mem{}
	for id := range r {
		if o, ok := st.mem[id]; ok {
			in[id] = o
		}
	}
	var kb strings.Builder
	fmt.Fprintf(&kb, "%d|%v|%s|", a.fnID(fn), deferDirect, st.prop)
	for _, v := range args {
		kb.WriteString(v.Key())
		kb.WriteString(";")
	}
	for _, v := range binds {
		kb.WriteString(v.Key())
		kb.WriteString(";")
	}
	if outer != nil {
		kb.WriteString("P" + outer.Key())
	}
	nn := map[string]bool{}
	if len(st.nn) > 0 {
		var ks []string
		for t := range st.nn {
			// only those the callee can see
			if r["P<"+t+">"] {
				ks = append(ks, t)
				nn[t] = true
			}
		}
		sort.Strings(ks)
		kb.WriteString(strings.Join(ks, ","))
	}
	kb.WriteString("|" + in.Key())
	h := fnv.New128a()
	h.Write([]byte(kb.String()))
	key := string(h.Sum(nil))
	exits, ok := a.memo[key]
	if !ok {
		fr := &Frame{a: a, fn: fn, args: args, depth: depth, deferDirect: deferDirect, visits: map[string]int{}, made: map[string]bool{}}
		s := newState()
		s.prop = st.prop
		s.outer = outer
		s.mem = in.clone()
		s.nn = nn
		for i, prm := range fn.Params {
			if i < len(args) {
				s.env[prm] = args[i]
			} else {
				s.env[prm] = top
			}
		}
		for i, fv := range fn.FreeVars {
			if i < len(binds) {
				s.env[fv] = binds[i]
			} else {
				s.env[fv] = top
			}
		}
		a.stack = append(a.stack, fn)
		a.covered[fn] = true
		exits = fr.run(s)
		a.stack = a.stack[:len(a.stack)-1]
		// name what the callee made after the call site when it is returned
		known := map[string]bool{}
		for id, o := range in {
			baseIDs(id, known)
			for _, v := range o.cells {
				v.ids(known)
			}
		}
		for _, v := range roots {
			v.ids(known)
		}
		for _, e := range exits {
			e.gc(in)
		}
		a.memo[key] = exits
	}
	// compose with the caller's frame
	known := map[string]bool{}
	for id := range st.mem {
		if r[id] {
			baseIDs(id, known)
			for _, v := range st.mem[id].cells {
				v.ids(known)
			}
		}
	}
	for _, v := range roots {
		v.ids(known)
	}
	var out []*Exit
	for _, e := range exits {
		fresh := map[string]bool{}
		for _, v := range e.results {
			v.ids(fresh)
		}
		if e.panic != nil {
			e.panic.ids(fresh)
		}
		if e.outer != nil {
			e.outer.ids(fresh)
		}
		for id, o := range e.mem {
			baseIDs(id, fresh)
			for _, v := range o.cells {
				v.ids(fresh)
			}
		}
		var pairs []string
		for id := range fresh {
			if !known[id] {
				pairs = append(pairs, id)
			}
		}
		sort.Slice(pairs, func(i, j int) bool {
			if len(pairs[i]) != len(pairs[j]) {
				return len(pairs[i]) > len(pairs[j])
			}
			return pairs[i] < pairs[j]
		})
		n := &Exit{prop: e.prop, panic: e.panic, outer: e.outer, at: e.at, pend: e.pend}
		var eps map[string]string
		if site != nil {
			eps = a.newEpochs(st.mem, e.mem, a.site(site))
		}
		if (len(pairs) > 0 || len(eps) > 0) && site != nil {
			var rp []string
			for _, old := range sortedKeys(eps) {
				rp = append(rp, "@"+old+">", "@"+eps[old]+">")
			}
			for _, id := range pairs {
				nm := id[:len(id)-1]
				if strings.Count(nm, "^") < max(6, a.Chain) {
					nm += "^" + a.site(site)
				}
				if a.Fresh && private(id) {
					nm = a.freshID(st, nm+">", site)
					nm = nm[:len(nm)-1]
				}
				rp = append(rp, id, nm+">")
			}
			rep := strings.NewReplacer(rp...)
			for _, v := range e.results {
				n.results = append(n.results, v.rename(rep))
			}
			if e.panic != nil {
				n.panic = e.panic.rename(rep)
			}
			if e.outer != nil {
				n.outer = e.outer.rename(rep)
			}
			n.mem = Mem{}
			var ids []string
			for id := range e.mem {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			for _, id := range ids {
				o := e.mem[id]
				id2 := rep.Replace(id)
				var no *Obj
				for p, v := range o.cells {
					if x := v.rename(rep); x != v {
						if no == nil {
							no = o.clone()
						}
						no.cells[p] = x
					}
				}
				if ep, ok := eps[o.ep]; ok && (st.mem[id] == nil || st.mem[id].ep != o.ep) {
					if no == nil {
						no = o.clone()
					}
					no.ep = ep
				}
				if no == nil {
					no = o
				}
				// one that was made before, by the same call, and is still in use
				was := n.mem[id2]
				if id2 != id && was == nil && private(id2) {
					if was = e.mem[id2]; was == nil && st.mem[id2] != nil && a.inUse(st, id2, site) {
						was = st.mem[id2]
					}
				}
				if was != nil {
					no = a.joinObj(id2, was, no, "i"+a.site(site), nil, nil)
					no = no.clone()
					no.multi = true
				}
				n.mem[id2] = no
			}
			n.nn = map[string]bool{}
			for t := range e.nn {
				n.nn[rep.Replace(t)] = true
			}
		} else {
			n.results, n.mem, n.nn = e.results, e.mem, e.nn
		}
		out = append(out, n)
	}
	return out
}

// newEpochs names the epochs of objects that a callee has written after the call.
func (a *An) newEpochs(before, after Mem, site string) map[string]string {
	var eps map[string]string
	for id, o := range after {
		b := before[id]
		if b == nil || o.ep == "" || b.ep == o.ep || eps[o.ep] != "" {
			continue
		}
		if eps == nil {
			eps = map[string]string{}
		}
		eps[o.ep] = o.ep
	}
	for old := range eps {
		nw := old
		if strings.Count(nw, "^") < 6 {
			nw += "^" + site
		}
		used := map[string]bool{}
		for id, o := range after {
			if b := before[id]; b != nil && o.ep == old {
				used[b.ep] = true
			}
		}
		for i := 0; i < 2 && used[nw]; i++ {
			nw += "'"
		}
		eps[old] = nw
	}
	return eps
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// mentionsEpoch says that a name has a cell of an object in some epoch.
func mentionsEpoch(s, id, ep string) bool {
	for from := 0; ; {
		i := strings.Index(s[from:], "u<"+id)
		if i < 0 {
			return false
		}
		rest := s[from+i+2+len(id):]
		if rest != "" && strings.IndexByte(".[{@", rest[0]) >= 0 {
			if j := strings.IndexByte(rest, '@'); j >= 0 && strings.HasPrefix(rest[j+1:], ep+">") {
				return true
			}
		}
		from += i + 2
	}
}

// forgetEpoch forgets what is known of an object that was in some epoch before.
func (a *An) forgetEpoch(st *State, id, ep string) {
	for k := range st.facts {
		if mentionsEpoch(k, id, ep) {
			delete(st.facts, k)
		}
	}
	for t := range st.nn {
		if mentionsEpoch(t, id, ep) {
			delete(st.nn, t)
		}
	}
	found := map[string]bool{}
	var walk func(v *Val)
	walk = func(v *Val) {
		if v == nil {
			return
		}
		if v.k == KTok && mentionsEpoch(v.s, id, ep) {
			found[v.s] = true
		}
		for _, x := range v.e {
			walk(x)
		}
	}
	for _, v := range st.env {
		walk(v)
	}
	for _, o := range st.mem {
		for _, v := range o.cells {
			walk(v)
		}
	}
	for n := range found {
		a.kill(st, n)
	}
}

// gc drops objects that nothing refers to any more.
func (e *Exit) gc(in Mem) {
	roots := append([]*Val(nil), e.results...)
	if e.panic != nil {
		roots = append(roots, e.panic)
	}
	if e.outer != nil {
		roots = append(roots, e.outer)
	}
	keep := map[string]bool{}
	for id := range in {
		roots = append(roots, vPtr(id, ""))
	}
	for id := range e.mem {
		if strings.HasPrefix(id, "G:") {
			roots = append(roots, vPtr(id, ""))
		}
	}
	e.mem.reach(roots, keep)
	for id, o := range e.mem {
		if !keep[id] {
			delete(e.mem, id)
			continue
		}
		_ = o
	}
	ids := map[string]bool{}
	for _, v := range roots {
		tokNames(v, ids)
	}
	for _, o := range e.mem {
		for _, v := range o.cells {
			tokNames(v, ids)
		}
	}
	nn := map[string]bool{}
	for t := range e.nn {
		if ids[t] {
			nn[t] = true
		}
	}
	e.nn = nn
}

func tokNames(v *Val, out map[string]bool) {
	if v == nil {
		return
	}
	if v.k == KTok {
		out[v.s] = true
	}
	for _, x := range v.e {
		tokNames(x, out)
	}
}

// apply merges an exit into the caller's state.
func (a *An) apply(st *State, e *Exit, seen map[string]bool) *State {
	n := st.clone()
	n.prop = e.prop
	// tokens and objects that are made again replace older ones
	fresh := map[string]bool{}
	for _, v := range e.results {
		v.ids(fresh)
	}
	for id, o := range e.mem {
		baseIDs(id, fresh)
		for _, v := range o.cells {
			v.ids(fresh)
		}
	}
	for t := range n.nn {
		for f := range fresh {
			if strings.Contains(t, f) && !seen[f] {
				delete(n.nn, t)
			}
		}
	}
	stale := map[string]bool{}
	for _, v := range n.env {
		v.ids(stale)
	}
	for f := range fresh {
		if stale[f] && !seen[f] {
			// previous instance of a token created at this site
			if f[0] == 'r' {
				a.substIDs(n, f)
			}
		}
	}
	for id, o := range e.mem {
		if b := n.mem[id]; b != nil && b.ep != o.ep && o.ep != "" {
			a.forgetEpoch(n, id, o.ep)
		}
	}
	for k := range n.facts {
		for f := range fresh {
			if !seen[f] && strings.Contains(k, f) {
				delete(n.facts, k)
			}
		}
	}
	for id, o := range e.mem {
		n.mem[id] = o
	}
	for t := range e.nn {
		n.nn[t] = true
	}
	for k := range e.pend {
		n.pend[k] = true
		n.applyPend(k)
	}
	return n
}

// substIDs forgets all tokens that mention a base id.
func (a *An) substIDs(st *State, base string) {
	names := map[string]bool{}
	var walk func(v *Val)
	walk = func(v *Val) {
		if v == nil {
			return
		}
		if v.k == KTok && strings.Contains(v.s, base) {
			names[v.s] = true
		}
		for _, x := range v.e {
			walk(x)
		}
	}
	for _, v := range st.env {
		walk(v)
	}
	for id, o := range st.mem {
		if strings.Contains(id, base) {
			delete(st.mem, id)
			continue
		}
		for _, v := range o.cells {
			walk(v)
		}
	}
	for n := range names {
		a.substState(st, n, top)
		delete(st.nn, n)
	}
}

type workItem struct {
	b   *ssa.BasicBlock
	key string
}

func (fr *Frame) run(s0 *State) []*Exit {
	a := fr.a
	fn := fr.fn
	if len(fn.Blocks) == 0 {
		return nil
	}
	live := a.liveness(fn)
	loops := a.loopsOf(fn)
	in := make([]map[string]*State, len(fn.Blocks))
	for i := range in {
		in[i] = map[string]*State{}
	}
	exits := map[string]*Exit{}
	var order []string
	addExit := func(st *State, res []*Val, at ssa.Instruction) {
		if a.OnExit != nil {
			a.OnExit(fr, st, res, at)
		}
		e := &Exit{prop: st.prop, panic: st.panic, outer: st.outer, results: res, mem: st.mem, nn: st.nn, pend: st.pend, at: at}
		k := e.rkey()
		if old, ok := exits[k]; ok {
			for i := range old.results {
				old.results[i] = joinNN(old.results[i], res[i], old.nn, e.nn)
			}
			if old.panic != nil {
				old.panic = joinNN(old.panic, e.panic, old.nn, e.nn)
			}
			if old.outer != nil {
				old.outer = joinNN(old.outer, e.outer, old.nn, e.nn)
			}
			old.mem = a.joinMem(old.mem, e.mem, "x"+strconv.Itoa(a.fnID(fn)), old.nn, e.nn)
			for t := range old.nn {
				if !e.nn[t] {
					delete(old.nn, t)
				}
			}
			for k := range e.pend {
				old.pend[k] = true
			}
			return
		}
		e.results = append([]*Val(nil), res...)
		e.nn = map[string]bool{}
		for t := range st.nn {
			e.nn[t] = true
		}
		pend := map[string]bool{}
		for t := range st.pend {
			pend[t] = true
		}
		e.pend = pend
		exits[k] = e
		order = append(order, k)
	}
	var work []workItem
	inWork := map[workItem]bool{}
	push := func(b *ssa.BasicBlock, key string) {
		w := workItem{b, key}
		if !inWork[w] {
			inWork[w] = true
			work = append(work, w)
		}
	}
	in[0]["entry"] = s0
	push(fn.Blocks[0], "entry")
	flow := func(from, to *ssa.BasicBlock, st *State, key string, idx int) {
		if a.Cut != nil && a.Cut(st.prop) {
			return
		}
		// phis on this edge
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
				// both branches of an If may lead to the same block: the phi edges agree then or
				// are handled by the first match only when equal
				break
			}
		}
		type pv struct {
			v ssa.Value
			x *Val
		}
		var ps []pv
		for _, ins := range to.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			x := fr.val(st, ph.Edges[pi])
			for i, p := range to.Preds {
				if i != pi && p == from {
					x = join(x, fr.val(st, ph.Edges[i]))
				}
			}
			ps = append(ps, pv{ph, x})
		}
		st = st.clone()
		for v := range st.env {
			if !live[to.Index][v] {
				delete(st.env, v)
			}
		}
		for _, p := range ps {
			st.env[p.v] = p.x
		}
		bkey := st.prop
		if st.outer != nil {
			bkey += "!"
		}
		// key: property state | loop iterations ~ branches taken
		tags, chain := splitKey(key)
		nt := ""
		for _, t := range tags {
			h, _ := strconv.Atoi(t[:strings.IndexByte(t, '=')])
			if h != to.Index && (loops[to.Index][h] || len(to.Preds) == 1 && from.Index != h) {
				nt += t + ";"
			}
		}
		if a.Unroll > 0 && loops[to.Index][to.Index] && !fr.openIf[to] && len(in[to.Index]) < a.Unroll*8 {
			it := ""
			for _, p := range ps {
				if n, ok := p.x.intVal(); ok {
					it += "," + strconv.FormatInt(n, 10)
				} else if a.Lin != nil && p.x.k == KTok && strings.HasPrefix(p.x.s, "n!") {
					it += "," + strings.NewReplacer(";", "!", "~", "!", "|", "!").Replace(p.x.s)
				} else if p.x.k == KSlice {
					// what is left of a slice
					if off, ok := p.x.e[0].intVal(); ok {
						if n, ok := p.x.e[1].intVal(); ok {
							it += "," + itoa(off) + "+" + itoa(n)
						}
					}
				} else if p.x.k == KRVal || p.x.k == KRType {
					it += "," + strings.NewReplacer(";", "!", "~", "!", "|", "!").Replace(typeKey(p.x.t))
				}
			}
			if a.Lin != nil {
				for _, in := range to.Instrs {
					if n, ok := in.(*ssa.Next); ok {
						if r, ok := st.env[n.Iter]; ok && r.k == KTuple && len(r.e) >= 3 {
							it += "," + r.e[2].Key()
						}
					}
				}
			}
			if it != "" {
				nt += strconv.Itoa(to.Index) + "=" + it + ";"
			}
		}
		k := bkey + "|" + nt
		if len(to.Preds) == 1 && len(in[to.Index]) < a.MaxDisj*(1+strings.Count(nt, ";")*a.Unroll) {
			if strings.Count(chain, ".") < 10 {
				k += "~" + chain + "." + strconv.Itoa(idx)
			}
		}
		old, ok := in[to.Index][k]
		if !ok {
			in[to.Index][k] = st
			push(to, k)
			return
		}
		fr.visits[strconv.Itoa(to.Index)+k]++
		j, changed := a.joinState(old, st, fr, to)
		if changed {
			if fr.visits[strconv.Itoa(to.Index)+k] > 40 {
				// widen: forget what keeps changing
				for v, x := range j.env {
					if o, ok := old.env[v]; ok && o.Key() != x.Key() {
						j.env[v] = top
					}
				}
				for id, o := range j.mem {
					if p, ok := old.mem[id]; ok && p.Key() != o.Key() {
						j.mem[id] = &Obj{typ: o.typ, multi: o.multi, ep: "w" + strconv.Itoa(a.fnID(fn)), cells: map[string]*Val{}}
					}
				}
				if fr.visits[strconv.Itoa(to.Index)+k] > 80 {
					return
				}
			}
			in[to.Index][k] = j
			push(to, k)
		}
	}
	for len(work) > 0 {
		if a.overBudget() {
			return nil
		}
		// lowest block index first approximates reverse postorder
		bi := 0
		for i := range work {
			if work[i].b.Index < work[bi].b.Index {
				bi = i
			}
		}
		w := work[bi]
		work = append(work[:bi], work[bi+1:]...)
		delete(inWork, w)
		st0 := in[w.b.Index][w.key]
		if st0 == nil {
			continue
		}
		states := []*State{st0.clone()}
		for _, ins := range w.b.Instrs {
			if _, ok := ins.(*ssa.Phi); ok {
				continue
			}
			var next []*State
			for _, st := range states {
				a.steps++
				if a.OnInstr != nil {
					a.OnInstr(fr, ins, st)
				}
				switch x := ins.(type) {
				case *ssa.If:
					if !fr.val(st, x.Cond).isConst() {
						if fr.openIf == nil {
							fr.openIf = map[*ssa.BasicBlock]bool{}
						}
						fr.openIf[w.b] = true
					}
					fr.branch(st, x, func(s *State, which int) {
						flow(w.b, w.b.Succs[which], s, w.key, len(next)*2+which)
					})
					next = append(next, st)
					continue
				case *ssa.Jump:
					flow(w.b, w.b.Succs[0], st, w.key, len(next))
					next = append(next, st)
					continue
				case *ssa.Return:
					res := make([]*Val, len(x.Results))
					for i, r := range x.Results {
						res[i] = fr.val(st, r)
					}
					addExit(st, res, x)
					continue
				case *ssa.Panic:
					st.panic = fr.val(st, x.X)
					if st.panic.k == KTop || st.panic.k == KTok {
						st.panic = nonNil("panic")
					}
					for _, u := range fr.unwind(st) {
						fr.afterUnwind(u, addExit, x)
					}
					continue
				case *ssa.RunDefers:
					for _, u := range fr.unwind(st) {
						if u.panic != nil {
							fr.afterUnwind(u, addExit, x)
							continue
						}
						next = append(next, u)
					}
					continue
				}
				for _, n := range fr.step(st, ins) {
					if n.panic != nil {
						for _, u := range fr.unwind(n) {
							fr.afterUnwind(u, addExit, ins)
						}
						continue
					}
					next = append(next, n)
				}
			}
			if len(next) > a.MaxDisj*2 {
				next = a.mergeStates(next, fr, w.b)
			}
			states = next
			if len(states) == 0 {
				break
			}
		}
	}
	var out []*Exit
	sort.Strings(order)
	for _, k := range order {
		out = append(out, exits[k])
	}
	return out
}

func splitKey(key string) (tags []string, chain string) {
	if i := strings.LastIndexByte(key, '~'); i >= 0 {
		chain = key[i+1:]
		key = key[:i]
	}
	if i := strings.LastIndexByte(key, '|'); i >= 0 {
		for _, t := range strings.Split(key[i+1:], ";") {
			if t != "" {
				tags = append(tags, t)
			}
		}
	}
	return
}

// loopsOf gives, for every block, the heads of the natural loops it is part of.
func (a *An) loopsOf(fn *ssa.Function) []map[int]bool {
	if l, ok := a.loops[fn]; ok {
		return l
	}
	l := make([]map[int]bool, len(fn.Blocks))
	for i := range l {
		l[i] = map[int]bool{}
	}
	for _, h := range fn.Blocks {
		for _, p := range h.Preds {
			if !h.Dominates(p) {
				continue
			}
			l[h.Index][h.Index] = true
			stack := []*ssa.BasicBlock{p}
			for len(stack) > 0 {
				b := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if l[b.Index][h.Index] {
					continue
				}
				l[b.Index][h.Index] = true
				stack = append(stack, b.Preds...)
			}
		}
	}
	a.loops[fn] = l
	return l
}

func (a *An) mergeStates(in []*State, fr *Frame, b *ssa.BasicBlock) []*State {
	var out []*State
	idx := map[string]int{}
	for _, s := range in {
		k := s.prop
		if s.panic != nil {
			k += "!p"
		}
		if s.outer != nil {
			k += "!o"
		}
		if i, ok := idx[k]; ok {
			out[i], _ = a.joinState(out[i], s, fr, b)
		} else {
			idx[k] = len(out)
			out = append(out, s)
		}
	}
	return out
}

// afterUnwind continues after the deferred calls of a panicking function have run.
func (fr *Frame) afterUnwind(st *State, addExit func(*State, []*Val, ssa.Instruction), at ssa.Instruction) {
	if st.panic != nil {
		addExit(st, nil, at)
		return
	}
	// recovered: the named results are returned
	fn := fr.fn
	n := fn.Signature.Results().Len()
	if fn.Recover == nil {
		res := make([]*Val, n)
		for i := range res {
			res[i] = zero(fn.Signature.Results().At(i).Type())
		}
		addExit(st, res, at)
		return
	}
	states := []*State{st}
	for _, ins := range fn.Recover.Instrs {
		var next []*State
		for _, s := range states {
			if r, ok := ins.(*ssa.Return); ok {
				res := make([]*Val, len(r.Results))
				for i, v := range r.Results {
					res[i] = fr.val(s, v)
				}
				addExit(s, res, at)
				continue
			}
			next = append(next, fr.step(s, ins)...)
		}
		states = next
	}
}

// unwind runs the deferred calls recorded in a state, last first.
func (fr *Frame) unwind(st *State) []*State {
	states := []*State{st}
	for {
		again := false
		var next []*State
		for _, s := range states {
			if len(s.defers) == 0 {
				next = append(next, s)
				continue
			}
			again = true
			d := s.defers[len(s.defers)-1]
			s = s.clone()
			s.defers = s.defers[:len(s.defers)-1]
			outs := fr.doCall(s, d.in, d.fn, d.args, true)
			for _, o := range outs {
				next = append(next, o)
			}
		}
		states = next
		if len(states) > fr.a.MaxDisj {
			// keep bounded
			byKey := map[string]*State{}
			var keys []string
			for _, s := range states {
				k := s.prop + "|" + strconv.Itoa(len(s.defers)) + "|" + strconv.FormatBool(s.panic != nil) + strconv.FormatBool(s.outer != nil)
				if o, ok := byKey[k]; ok {
					j, _ := fr.a.joinState(o, s, fr, fr.fn.Blocks[0])
					byKey[k] = j
				} else {
					byKey[k] = s
					keys = append(keys, k)
				}
			}
			states = nil
			for _, k := range keys {
				states = append(states, byKey[k])
			}
		}
		if !again {
			return states
		}
	}
}

func (a *An) joinObj(id string, x, y *Obj, why string, fx, fy map[string]bool) *Obj {
	if x == y || x.Key() == y.Key() {
		return x
	}
	n := &Obj{typ: x.typ, multi: x.multi || y.multi, zero: x.zero && y.zero, complete: x.complete && y.complete, cells: map[string]*Val{}}
	if n.typ == nil {
		n.typ = y.typ
	}
	if x.ep == y.ep {
		n.ep = x.ep
	} else {
		n.ep = "j" + why
	}
	names := map[string]bool{}
	for p := range x.cells {
		names[p] = true
	}
	for p := range y.cells {
		names[p] = true
	}
	for p := range names {
		vx, vy := x.get(id, p), y.get(id, p)
		n.cells[p] = joinNN(vx, vy, fx, fy)
	}
	if x.zero != y.zero {
		n.ep = "j" + why
		n.zero = false
	}
	if n.complete != x.complete || n.complete != y.complete {
		n.complete = false
	}
	return n
}

func (a *An) joinMem(x, y Mem, why string, fx, fy map[string]bool) Mem {
	n := Mem{}
	get := func(m Mem, id string) *Obj {
		if o, ok := m[id]; ok {
			return o
		}
		if o, ok := a.base[id]; ok {
			return o
		}
		return nil
	}
	for id, o := range x {
		p := get(y, id)
		if p == nil {
			if private(id) {
				n[id] = o
				continue
			}
			p = &Obj{typ: o.typ}
		}
		n[id] = a.joinObj(id, o, p, why, fx, fy)
	}
	for id, o := range y {
		if _, ok := n[id]; ok {
			continue
		}
		p := get(x, id)
		if p == nil {
			if private(id) {
				n[id] = o
				continue
			}
			p = &Obj{typ: o.typ}
		}
		n[id] = a.joinObj(id, p, o, why, fx, fy)
	}
	return n
}

func (a *An) joinState(x, y *State, fr *Frame, b *ssa.BasicBlock) (*State, bool) {
	n := newState()
	n.prop = x.prop
	n.panic = x.panic
	n.outer = x.outer
	if n.outer != nil && y.outer != nil {
		n.outer = joinNN(x.outer, y.outer, x.nn, y.nn)
	}
	changed := false
	why := strconv.Itoa(a.fnID(fr.fn)) + "b" + strconv.Itoa(b.Index)
	for v, xv := range x.env {
		yv, ok := y.env[v]
		if !ok {
			changed = true
			continue
		}
		if xv == yv {
			n.env[v] = xv
			continue
		}
		j := joinNN(xv, yv, x.nn, y.nn)
		n.env[v] = j
		if j.Key() != xv.Key() {
			changed = true
		}
	}
	n.mem = a.joinMem(x.mem, y.mem, why, x.nn, y.nn)
	if len(n.mem) != len(x.mem) {
		changed = true
	} else {
		for id, o := range n.mem {
			p, ok := x.mem[id]
			if !ok || (p != o && p.Key() != o.Key()) {
				changed = true
				break
			}
		}
	}
	for t := range x.nn {
		if y.nn[t] {
			n.nn[t] = true
		} else {
			changed = true
		}
	}
	for k, v := range x.facts {
		if w, ok := y.facts[k]; ok && v == w {
			n.setFact(k, v)
		} else {
			changed = true
		}
	}
	for k := range x.pend {
		n.pend[k] = true
	}
	for k := range y.pend {
		if !n.pend[k] {
			n.pend[k] = true
			changed = true
		}
	}
	// defers: union in order
	n.defers = append(n.defers, x.defers...)
	for _, d := range y.defers {
		found := false
		for i, e := range n.defers {
			if e.in == d.in {
				found = true
				args := make([]*Val, len(d.args))
				diff := false
				for j := range args {
					args[j] = joinNN(e.args[j], d.args[j], x.nn, y.nn)
					if args[j].Key() != e.args[j].Key() {
						diff = true
					}
				}
				if diff {
					nf := e.fn
					if e.fn != nil && d.fn != nil {
						nf = join(e.fn, d.fn)
					}
					n.defers[i] = deferRec{e.in, nf, args}
					changed = true
				}
			}
		}
		if !found {
			n.defers = append(n.defers, d)
			changed = true
		}
	}
	return n, changed
}

// ---- branches ----

func (fr *Frame) branch(st *State, in *ssa.If, flow func(*State, int)) {
	c := fr.val(st, in.Cond)
	if b, ok := c.boolVal(); ok {
		which := 1
		if b {
			which = 0
		}
		if s := fr.assume(st.clone(), in.Cond, b); s != nil {
			flow(s, which)
		}
		return
	}
	if s := fr.assume(st.clone(), in.Cond, true); s != nil {
		flow(s, 0)
	}
	if s := fr.assume(st.clone(), in.Cond, false); s != nil {
		flow(s, 1)
	}
}

func (s *State) setFact(k string, v bool) {
	if s.facts == nil {
		s.facts = map[string]bool{}
	}
	if len(s.facts) < 40 {
		s.facts[k] = v
	}
}

// factKey names a comparison of values that are not known, such that the same comparison written in
// another way has the same name; neg says that the name stands for the opposite outcome.
func factKey(in *ssa.BinOp, x, y *Val) (string, bool) {
	op := in.Op
	if b, isB := in.X.Type().Underlying().(*types.Basic); isB && b.Info()&(types.IsFloat|types.IsComplex) != 0 {
		return "", false // not a number
	}
	ok := func(v *Val) bool { return v.k == KTok || v.isConst() && v.c.Kind() == constant.Int }
	if !ok(x) || !ok(y) || x.isConst() && y.isConst() {
		return "", false
	}
	l, r := x.Key(), y.Key()
	switch op {
	case token.EQL, token.NEQ:
		if l > r {
			l, r = r, l
		}
		return l + "==" + r, op == token.NEQ
	case token.LSS, token.GEQ:
		return l + "<" + r, op == token.GEQ
	case token.GTR, token.LEQ:
		return r + "<" + l, op == token.LEQ
	}
	return "", false
}

// assume refines a state by the outcome of a condition; nil when the outcome is impossible.
func (fr *Frame) assume(st *State, cond ssa.Value, truth bool) *State {
	a := fr.a
	v := fr.val(st, cond)
	if v.k == KTok {
		if a.OnSplit != nil && !a.OnSplit(st, v.s, truth) {
			return nil
		}
		a.substState(st, v.s, vBool(truth))
	}
	st.env[cond] = vBool(truth)
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return fr.assume(st, x.X, !truth)
		}
	case *ssa.BinOp:
		if k, neg := factKey(x, fr.val(st, x.X), fr.val(st, x.Y)); k != "" {
			st.setFact(k, truth != neg)
		}
		eq := x.Op == token.EQL
		ne := x.Op == token.NEQ
		if !eq && !ne {
			return st
		}
		l, r := fr.val(st, x.X), fr.val(st, x.Y)
		same := eq == truth
		if r.k == KTok && l.k != KTok {
			l, r = r, l
		}
		if l.k == KTok {
			if same {
				if r.k == KConst || r.k == KNil {
					a.substState(st, l.s, r)
				}
			} else if r.k == KNil {
				st.nn[l.s] = true
			} else if b, ok := r.boolVal(); ok {
				a.substState(st, l.s, vBool(!b))
			}
		}
		// a register that was joined to Top: refine the register itself
		for _, o := range []struct {
			v ssa.Value
			o *Val
		}{{x.X, fr.val(st, x.Y)}, {x.Y, fr.val(st, x.X)}} {
			cur := fr.val(st, o.v)
			if cur.k != KTop {
				continue
			}
			if _, isC := o.v.(*ssa.Const); isC {
				continue
			}
			if same && (o.o.k == KConst || o.o.k == KNil) {
				st.env[o.v] = o.o
			} else if !same && o.o.k == KNil {
				st.env[o.v] = nonNil("")
			}
		}
	case *ssa.Extract:
		// v, ok := x.(T): ok says whether v is meaningful; nothing to refine
	}
	return st
}

// liveness computes the registers that may be used in or after each block.
func (a *An) liveness(fn *ssa.Function) []map[ssa.Value]bool {
	if l, ok := a.live[fn]; ok {
		return l
	}
	l := make([]map[ssa.Value]bool, len(fn.Blocks))
	for i := range l {
		l[i] = map[ssa.Value]bool{}
	}
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	// a condition refines the operands it was computed from: keep the operands of comparisons alive
	// as long as the comparison
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range l[s.Index] {
					cur[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b && isReg(ph.Edges[k]) {
							cur[ph.Edges[k]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if isReg(*op) {
						cur[*op] = true
					}
				}
			}
			if len(cur) != len(l[i]) {
				l[i] = cur
				changed = true
			}
		}
	}
	// values the recovery block may load: allocations of named results
	if fn.Recover != nil {
		for _, in := range fn.Recover.Instrs {
			for _, op := range in.Operands(nil) {
				if isReg(*op) {
					for i := range l {
						l[i][*op] = true
					}
				}
			}
		}
	}
	a.live[fn] = l
	return l
}
