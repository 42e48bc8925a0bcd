package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Reading of binary structures: the values that encoding/binary.Read delivers are chosen by the rule.

// A reader chooses the values of the scalars that are read, and is told about bytes that are skipped.
type reader interface {
	next(elem types.Type, st *State) *Val
	advance(st *State, n int64)
}

// readModel answers encoding/binary.Read and io.ReadFull as successes. onRead gives the value read for
// an element type, or nil for an unknown one.
func readModel(c *Call, on reader) ([]Out, bool) {
	onRead := func(elem types.Type, st *State) *Val { return nil }
	if on != nil {
		onRead = on.next
	}
	switch c.name {
	case "encoding/binary.Read":
		if len(c.args) < 3 {
			return nil, false
		}
		d := c.args[2]
		if d.k != KIface {
			return nil, false
		}
		st := c.st.clone()
		if elem := derefType(d.t); elem != nil && d.e[0].k == KPtr {
			if _, ok := elem.Underlying().(*types.Basic); ok {
				v := onRead(elem, st)
				if v == nil {
					v = c.fr.fresh(st, c.site, "rd", nil)
				}
				c.a.havoc(st, c.args[:1], c.a.site(c.site)) // the reader has advanced
				c.a.store(st, d.e[0], v, elem)
				return []Out{{st: st, res: vNil}}, true
			}
		}
		c.a.havoc(st, []*Val{c.args[0], d}, c.a.site(c.site))
		if on != nil {
			readInto(c, st, d, on)
		}
		return []Out{{st: st, res: vNil}}, true
	case "io.ReadFull":
		st := c.st.clone()
		c.a.havoc(st, c.args, c.a.site(c.site))
		if on != nil && len(c.args) > 1 {
			readInto(c, st, vIface(types.NewSlice(types.Typ[types.Uint8]), c.args[1]), on)
		}
		return []Out{{st: st, res: vTuple(top, vNil)}}, true
	}
	return nil, false
}

// readInto gives the elements of a short slice or array, or the fields of a struct, one by one.
func readInto(c *Call, st *State, d *Val, on reader) {
	put := func(p *Val, t types.Type) {
		if _, ok := t.Underlying().(*types.Basic); !ok {
			return
		}
		if v := on.next(t, st); v != nil {
			c.a.store(st, p, v, t)
		}
	}
	v := d.e[0]
	switch t := d.t.Underlying().(type) {
	case *types.Slice:
		if v.k != KSlice {
			on.advance(st, -1)
			return
		}
		off, ok1 := v.e[0].intVal()
		n, ok2 := v.e[1].intVal()
		b, _ := t.Elem().Underlying().(*types.Basic)
		if ok2 && b != nil && b.Kind() == types.Uint8 && (n > 16 || !ok1) {
			on.advance(st, n)
			return
		}
		if !ok1 || !ok2 || n > 16 {
			on.advance(st, -1)
			return
		}
		for i := int64(0); i < n; i++ {
			put(vPtr(v.s, v.p+"["+itoa(off+i)+"]"), t.Elem())
		}
	case *types.Pointer:
		if v.k != KPtr {
			on.advance(st, -1)
			return
		}
		switch e := t.Elem().Underlying().(type) {
		case *types.Array:
			if e.Len() > 16 {
				on.advance(st, -1)
				return
			}
			for i := int64(0); i < e.Len(); i++ {
				put(vPtr(v.s, v.p+"["+itoa(i)+"]"), e.Elem())
			}
		case *types.Struct:
			for i := 0; i < e.NumFields(); i++ {
				put(vPtr(v.s, v.p+"."+itoa(int64(i))), e.Field(i).Type())
			}
		}
	}
}

// A sigSite is a function in which the constant of a signature is compared or handed to a comparison.
type sigSite struct {
	f   *ssa.Function
	sig string
	n   int // instructions in which the constant occurs
}

// sigSites finds where the reader of a package uses the constants.
func (p *Prog) sigSites(rel string, sigs []string, reads map[*ssa.Function]bool) []sigSite {
	want := map[string]bool{}
	for _, s := range sigs {
		want[s] = true
	}
	var out []sigSite
	for _, f := range p.funcs {
		if f.Pkg == nil && f.Parent() == nil || pkgOf(f) == nil || !strings.HasSuffix(pkgOf(f).Path(), rel) || !reads[f] {
			continue
		}
		cnt := map[string]int{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				seen := map[string]bool{}
				for _, op := range in.Operands(nil) {
					k, ok := (*op).(*ssa.Const)
					if !ok || k.Value == nil || k.Value.Kind() != constant.String {
						continue
					}
					s := constant.StringVal(k.Value)
					if !want[s] || seen[s] {
						continue
					}
					switch x := in.(type) {
					case *ssa.BinOp, *ssa.Call, *ssa.Phi, *ssa.Store:
						if c, ok := x.(*ssa.Call); ok {
							if g := c.Call.StaticCallee(); g == nil || !p.inModule(g) {
								if calleeName(c.Common(), g) != "bytes.Equal" && calleeName(c.Common(), g) != "strings.HasPrefix" {
									continue
								}
							}
						}
						seen[s] = true
						cnt[s]++
					case *ssa.Convert:
						// []byte(sig) in a reading function
						seen[s] = true
						cnt[s]++
					}
				}
			}
		}
		for s, n := range cnt {
			out = append(out, sigSite{f, s, n})
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].sig != out[j].sig {
			return out[i].sig < out[j].sig
		}
		return out[i].f.String() < out[j].f.String()
	})
	return out
}

// hashFuncs finds the lookup3 hash: the functions that add to its initial constant.
func (p *Prog) hashFuncs() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.BinOp); ok && x.Op == token.ADD {
					for _, o := range []ssa.Value{x.X, x.Y} {
						if k, ok := o.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
							if v, exact := constant.Uint64Val(k.Value); exact && v == 0xdeadbeef {
								out[f] = true
							}
						}
					}
				}
			}
		}
	}
	return out
}

// sigRun interprets a function that checks a signature.
// match: the answer of the comparison with it; hash: the answer of comparisons with a computed hash;
// version: the value of the first byte read after the signature (nil: unknown).
// States: "" before, "P" matched, "R" matched and version read, "C" checksum agreed, "M" checksum
// disagreed, "B" signature differs, "D" another function that checks the same signature took over.
type sigRun struct {
	p       *Prog
	base    Mem
	roots   map[*ssa.Function]map[string]bool
	hashes  map[*ssa.Function]bool
	f       *ssa.Function
	sig     string
	match   bool
	hashEq  bool
	version *int64
}

func (q *sigRun) run(r *Report) []*Exit {
	a := newAn(q.p, q.base)
	a.Frees = true
	a.Inline = func(g *ssa.Function) bool { return len(q.roots[g]) == 0 || g == q.f }
	a.OnCall = func(c *Call) ([]Out, bool) {
		if c.callee != nil && q.hashes[c.callee] {
			return []Out{{res: tok("hash!")}}, true
		}
		if c.callee != nil && c.callee != q.f && q.roots[c.callee][q.sig] && strings.HasPrefix(c.st.prop, "P") {
			outs := c.fr.opaque(c)
			for i := range outs {
				if outs[i].panic == nil {
					outs[i].prop = "D"
				}
			}
			return outs, true
		}
		return readModel(c, q)
	}
	isSig := func(v *Val) bool {
		s, ok := v.strVal()
		return ok && s == q.sig
	}
	a.OnCmp = func(fr *Frame, in *ssa.BinOp, x, y *Val, st *State) *Val {
		if in.Op != token.EQL && in.Op != token.NEQ {
			return nil
		}
		eq := in.Op == token.EQL
		if isSig(x) != isSig(y) {
			if q.match {
				if st.prop == "" {
					st.prop = "P"
				}
				return vBool(eq)
			}
			st.prop = "B"
			return vBool(!eq)
		}
		isH := func(v *Val) bool { return v.k == KTok && v.s == "hash!" }
		if isH(x) != isH(y) {
			if q.hashEq {
				if st.prop != "" {
					st.prop = "C"
				}
				return vBool(eq)
			}
			st.prop = "M"
			return vBool(!eq)
		}
		return nil
	}
	ex := a.entry(q.f, "")
	r.cover(a)
	return ex
}

// next gives the first byte after the signature its chosen value.
func (q *sigRun) next(elem types.Type, st *State) *Val {
	if b, ok := elem.Underlying().(*types.Basic); ok && st.prop == "P" && q.version != nil {
		if b.Kind() == types.Uint8 || b.Kind() == types.Int8 {
			st.prop = "R"
			return vInt(*q.version)
		}
	}
	return nil
}

func (q *sigRun) advance(st *State, n int64) {}
