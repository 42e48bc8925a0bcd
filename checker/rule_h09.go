package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// H09: what a lock guards is only touched while it is held.

func init() { rules["H09"] = ruleH09 }

// The state of the lock, relative to the beginning of the function.
type lockState struct {
	at       byte // 'E' as at the beginning, 'L' held, 'S' held for reading, 'U' not held
	deferred int  // releases that are waiting for the end of the function
	sought   bool // the position of the guarded file was set since the lock was taken
}

type lockSummary struct {
	needs    ssa.Instruction // has to be called with the lock held, because of this
	needsNot ssa.Instruction // has to be called without the lock
	leaves   map[byte]bool   // states at the returns
	throws   bool
}

type lockRule struct {
	p       *Prog
	r       *Report
	guarded map[fieldKey]string
	locks   map[fieldKey]bool
	sums    map[*ssa.Function]*lockSummary
	report  bool
	access  int
	takes   int
	throws  map[*ssa.Function]bool
}

func ruleH09(p *Prog, r *Report) {
	r.explain("The structures of the module that contain a mutex are found by type; their other fields are guarded by it. For every function a dataflow over its control flow graph gives the state of the lock (held, not held, as at the beginning) at each instruction, with deferred releases run at the end and summaries of the called functions (needs the lock, must not have it, leaves it taken). A guarded field, or a file that was loaded from one, is only touched with the lock held; functions that need it are only called with it; it is not taken twice; it is released on every return and on every path on which something is thrown; and reading from the guarded file comes after setting its position in the same critical section.")
	l := &lockRule{p: p, r: r, guarded: map[fieldKey]string{}, locks: map[fieldKey]bool{}, sums: map[*ssa.Function]*lockSummary{}}
	for _, pk := range p.prog.AllPackages() {
		if !strings.HasPrefix(pk.Pkg.Path(), modPath) {
			continue
		}
		for _, m := range pk.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			s := isStruct(t.Type())
			if s == nil {
				continue
			}
			lock := -1
			for i := 0; i < s.NumFields(); i++ {
				if n := types.TypeString(s.Field(i).Type(), nil); n == "sync.Mutex" || n == "sync.RWMutex" || n == "*sync.Mutex" || n == "*sync.RWMutex" {
					lock = i
				}
			}
			if lock < 0 {
				continue
			}
			l.locks[fieldKey{s, lock}] = true
			for i := 0; i < s.NumFields(); i++ {
				if i != lock {
					l.guarded[fieldKey{s, i}] = typeShort(t.Type()) + "." + s.Field(i).Name()
				}
			}
		}
	}
	var fs []*ssa.Function
	for _, f := range p.funcs {
		if len(f.Blocks) > 0 {
			fs = append(fs, f)
			l.sums[f] = &lockSummary{leaves: map[byte]bool{}}
		}
	}
	// what functions do to the lock first, then what they need, so that nothing that is needed at first
	// for want of knowledge keeps itself up
	for round := 0; round < 40; round++ {
		changed := false
		for _, f := range fs {
			n := l.analyse(f)
			o := l.sums[f]
			if round < 20 {
				n.needs, n.needsNot = nil, nil
			}
			if (n.needs == nil) != (o.needs == nil) || (n.needsNot == nil) != (o.needsNot == nil) || len(n.leaves) != len(o.leaves) {
				changed = true
			}
			l.sums[f] = n
		}
		if !changed {
			if round >= 20 {
				break
			}
			round = 19
		}
	}
	l.report = true
	for _, f := range fs {
		l.analyse(f)
		r.funcs[shortFn(f)] = true
	}
	// where calls come from without the lock
	for _, f := range fs {
		s := l.sums[f]
		if s.needs == nil && !s.leaves['L'] && !s.leaves['S'] && !s.leaves['U'] {
			continue
		}
		if l.entry(f) {
			if s.needs != nil {
				r.fail("held", shortFn(f), p.pos(s.needs), "touches what the lock guards, and nothing that calls it takes the lock")
			}
			if s.leaves['L'] || s.leaves['S'] {
				r.fail("released", shortFn(f), p.pos(f), "returns with the lock held")
			}
		}
	}
	for k := range l.guarded {
		r.obl("guarded", l.guarded[k])
	}
	r.minimum("locks", len(l.locks), 1)
	r.minimum("guarded fields", len(l.guarded), 2)
	r.minimum("accesses to guarded fields", l.access, 4)
	r.minimum("critical sections", l.takes, 1)
}

// entry says that a function may be called from somewhere that is not known to be a caller in the module.
func (l *lockRule) entry(f *ssa.Function) bool {
	if f.Parent() != nil {
		return l.p.escapes(f)
	}
	cs := l.p.callersOf(f)
	if len(cs) == 0 {
		return true
	}
	for _, c := range cs {
		if c.site.Common().IsInvoke() || c.site.Common().StaticCallee() == nil {
			return true
		}
	}
	// callable from outside of the module: exported functions, and methods of exported types
	if o := f.Object(); o != nil && o.Exported() {
		recv := f.Signature.Recv()
		if recv == nil {
			return true
		}
		if n, ok := types.Unalias(derefType(recv.Type())).(*types.Named); ok && n.Obj().Exported() {
			return true
		}
	}
	return false
}

func (l *lockRule) mutexOp(c *ssa.CallCommon) string {
	g := c.StaticCallee()
	if g == nil {
		return ""
	}
	switch calleeName(c, g) {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "lock"
	case "(*sync.RWMutex).RLock":
		return "share"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		return "unlock"
	}
	return ""
}

// guardedField names the guarded field that a value is loaded from or an address is of.
func (l *lockRule) guardedField(v ssa.Value, depth int) string {
	if depth > 10 {
		return ""
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		s := isStruct(derefType(x.X.Type()))
		if n, ok := l.guarded[fieldKey{s, x.Field}]; ok {
			if al, ok := x.X.(*ssa.Alloc); ok && al.Parent() == x.Parent() {
				return "" // being made
			}
			return n
		}
	case *ssa.UnOp:
		return l.guardedField(x.X, depth+1)
	case *ssa.TypeAssert:
		return l.guardedField(x.X, depth+1)
	case *ssa.ChangeInterface:
		return l.guardedField(x.X, depth+1)
	case *ssa.MakeInterface:
		return l.guardedField(x.X, depth+1)
	case *ssa.Extract:
		return l.guardedField(x.Tuple, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if n := l.guardedField(e, depth+3); n != "" {
				return n
			}
		}
	}
	return ""
}

// viewField names a field of a structure that refers to one with a lock: it goes with a view of what
// the lock guards, and is only changed with the lock held.
func (l *lockRule) viewField(v ssa.Value) string {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	if al, ok := fa.X.(*ssa.Alloc); ok && al.Parent() == fa.Parent() {
		return ""
	}
	s := isStruct(derefType(fa.X.Type()))
	if s == nil || refType(s.Field(fa.Field).Type()) {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if pt, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok {
			if t := isStruct(pt.Elem()); t != nil {
				for k := range l.locks {
					if k.s == t {
						return typeShort(derefType(fa.X.Type())) + "." + s.Field(fa.Field).Name()
					}
				}
			}
		}
	}
	return ""
}

func (l *lockRule) analyse(f *ssa.Function) *lockSummary {
	sum := &lockSummary{leaves: map[byte]bool{}}
	in := map[*ssa.BasicBlock]map[lockState]bool{f.Blocks[0]: {{at: 'E'}: true}}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	done := map[*ssa.BasicBlock]map[lockState]bool{}
	seen := map[string]bool{}
	fail := func(kind string, at ssa.Instruction, format string, args ...any) {
		if l.report && !seen[kind+l.p.pos(at)] {
			seen[kind+l.p.pos(at)] = true
			l.r.fail(kind, shortFn(f), l.p.pos(at), format, args...)
		}
	}
	touch := func(st *lockState, at ssa.Instruction, name string, write bool) {
		if l.report {
			l.access++
			l.r.obl("held", shortFn(f)+" "+name)
		}
		switch st.at {
		case 'E':
			if sum.needs == nil {
				sum.needs = at
			}
		case 'U':
			fail("held", at, "%s is touched without the lock", name)
		case 'S':
			if write {
				fail("held", at, "%s is changed while others may hold the lock too", name)
			}
		}
	}
	apply := func(st *lockState, at ssa.Instruction, c *ssa.CallCommon) {
		op := l.mutexOp(c)
		switch op {
		case "lock", "share":
			if l.report {
				l.takes++
			}
			switch st.at {
			case 'L', 'S':
				fail("twice", at, "the lock is taken while it is held")
			case 'E':
				if sum.needsNot == nil {
					sum.needsNot = at
				}
			}
			st.at, st.sought = 'L', false
			if op == "share" {
				st.at = 'S'
			}
			return
		case "unlock":
			switch st.at {
			case 'U':
				fail("released", at, "the lock is released without being held")
			case 'E':
				if sum.needs == nil {
					sum.needs = at
				}
			}
			st.at = 'U'
			return
		}
		if c.IsInvoke() && l.guardedField(c.Value, 0) != "" {
			return // the guarded file itself
		}
		for _, g := range l.p.callees(c) {
			s := l.sums[g]
			if s == nil {
				continue
			}
			if s.needs != nil {
				switch st.at {
				case 'E':
					if sum.needs == nil {
						sum.needs = at
					}
				case 'U':
					fail("held", at, "%s is called without the lock it needs", shortFn(g))
				}
			}
			if s.needsNot != nil {
				switch st.at {
				case 'E':
					if sum.needsNot == nil {
						sum.needsNot = at
					}
				case 'L', 'S':
					fail("twice", at, "%s takes the lock while it is held", shortFn(g))
				}
			}
			if len(s.leaves) == 1 && !s.leaves['E'] {
				for k := range s.leaves {
					st.at = k
				}
				if st.at == 'L' || st.at == 'S' {
					st.sought = false
				}
			}
			if (s.leaves['L'] || s.leaves['S']) && len(s.leaves) > 1 {
				fail("released", at, "%s releases the lock on some paths only", shortFn(g))
			}
			if (st.at == 'L' || st.at == 'S') && st.deferred == 0 && l.mayThrow(g) {
				fail("released", at, "%s may throw, and the lock stays held then", shortFn(g))
			}
		}
	}
	releases := func(c *ssa.CallCommon) bool {
		if l.mutexOp(c) == "unlock" {
			return true
		}
		for _, g := range l.p.callees(c) {
			if s := l.sums[g]; s != nil && s.leaves['U'] {
				return true
			}
		}
		return false
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		for st := range in[b] {
			if done[b] == nil {
				done[b] = map[lockState]bool{}
			}
			if done[b][st] {
				continue
			}
			done[b][st] = true
			s := st
			for _, at := range b.Instrs {
				switch x := at.(type) {
				case *ssa.Defer:
					if releases(x.Common()) {
						s.deferred++
					}
				case *ssa.RunDefers:
					if s.deferred > 0 {
						if s.at == 'U' {
							fail("released", at, "the lock is released twice")
						}
						s.at, s.deferred = 'U', 0
					}
				case *ssa.Return:
					if l.report && s.at == 'L' && len(sum.leaves) > 0 && !sum.leaves['L'] {
						fail("released", at, "the lock is released on some paths only")
					}
					sum.leaves[s.at] = true
				case *ssa.Panic:
					if (s.at == 'L' || s.at == 'S') && s.deferred == 0 {
						fail("released", at, "the lock stays held when this panics")
					}
				case *ssa.UnOp:
					if n := l.guardedField(x.X, 0); n != "" {
						if _, ok := x.X.(*ssa.FieldAddr); ok {
							touch(&s, at, n, false)
						}
					}
				case *ssa.Store:
					if n := l.guardedField(x.Addr, 0); n != "" {
						touch(&s, at, n, true)
					} else if n := l.viewField(x.Addr); n != "" {
						touch(&s, at, n, true)
					}
				case ssa.CallInstruction:
					if _, ok := x.(*ssa.Go); ok {
						continue
					}
					apply(&s, at, x.Common())
					l.file(&s, f, at, x.Common(), touch, fail)
				}
			}
			for _, succ := range b.Succs {
				if in[succ] == nil {
					in[succ] = map[lockState]bool{}
				}
				if !in[succ][s] {
					in[succ][s] = true
					work = append(work, succ)
				}
			}
		}
	}
	if (sum.leaves['L'] || sum.leaves['S']) && (sum.leaves['U'] || sum.leaves['E']) {
		fail("released", f.Blocks[0].Instrs[0], "the lock is released on some paths only")
	}
	return sum
}

// file checks a call that uses a file which was loaded from a guarded field.
func (l *lockRule) file(s *lockState, f *ssa.Function, at ssa.Instruction, c *ssa.CallCommon, touch func(*lockState, ssa.Instruction, string, bool), fail func(string, ssa.Instruction, string, ...any)) {
	used := ""
	if c.IsInvoke() {
		used = l.guardedField(c.Value, 0)
	}
	for _, a := range c.Args {
		if _, addr := a.(*ssa.FieldAddr); addr {
			continue
		}
		if n := l.guardedField(a, 0); n != "" && refType(a.Type()) {
			used = n
		}
	}
	if used == "" {
		return
	}
	touch(s, at, used, true)
	name := calleeName(c, c.StaticCallee())
	switch {
	case strings.HasSuffix(name, ".Seek"):
		s.sought = len(c.Args) == 2 && zeroConst(c.Args[1])
	case strings.HasSuffix(name, ".Close"):
	case strings.HasSuffix(name, ".Read") || strings.HasPrefix(name, "io.Read") || strings.HasPrefix(name, "encoding/binary.Read") || strings.HasPrefix(name, "bufio.New"):
		if !s.sought {
			fail("position", at, "%s is read without setting the position in the same critical section", used)
		}
		s.sought = false
	}
}

func zeroConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.ExactString() == "0"
}

// mayThrow says that a function of the module may panic on purpose.
func (l *lockRule) mayThrow(g *ssa.Function) bool {
	if l.throws == nil {
		l.throws = map[*ssa.Function]bool{}
		for changed := true; changed; {
			changed = false
			for f := range l.sums {
				if l.throws[f] || inPkg(f, "internal") && strings.Contains(f.String(), "ogger") {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						hit := false
						switch x := in.(type) {
						case *ssa.Panic:
							hit = true
						case *ssa.Call:
							for _, h := range l.p.callees(x.Common()) {
								if l.throws[h] || strings.HasPrefix(shortFn(h), "thrower.Throw") {
									hit = true
								}
							}
						}
						if hit && !l.throws[f] {
							l.throws[f] = true
							changed = true
						}
					}
				}
			}
		}
	}
	return l.throws[g]
}
