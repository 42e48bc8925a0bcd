package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func one(st *State) []*State { return []*State{st} }

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// step executes one instruction on one state.
func (fr *Frame) step(st *State, ins ssa.Instruction) []*State {
	a := fr.a
	switch x := ins.(type) {
	case *ssa.DebugRef:
		return one(st)
	case *ssa.Alloc:
		id := a.alloc(st, x, derefType(x.Type()))
		fr.set(st, x, vPtr(id, ""))
	case *ssa.Store:
		fr.touchGlobals(st, x.Addr)
		addr, v := fr.val(st, x.Addr), fr.val(st, x.Val)
		if a.OnStore != nil {
			a.OnStore(fr, x, addr, v, st)
		}
		a.store(st, addr, v, x.Val.Type())
	case *ssa.UnOp:
		fr.unop(st, x)
	case *ssa.BinOp:
		l, r := fr.val(st, x.X), fr.val(st, x.Y)
		var v *Val
		if a.OnCmp != nil {
			v = a.OnCmp(fr, x, l, r, st)
		}
		if v == nil {
			v = a.binop(st, x, l, r)
		}
		if v.k == KTop {
			v = fr.fresh(st, x, "", nil)
		}
		fr.set(st, x, v)
	case *ssa.Convert:
		fr.set(st, x, a.convert(fr, st, x, fr.val(st, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		fr.set(st, x, fr.fresh(st, x, "", nil))
	case *ssa.ChangeType:
		v := fr.val(st, x.X)
		if v.k == KStruct {
			v = &Val{k: KStruct, t: x.Type(), e: v.e}
		}
		fr.set(st, x, v)
	case *ssa.ChangeInterface:
		fr.set(st, x, fr.val(st, x.X))
	case *ssa.MakeInterface:
		fr.set(st, x, vIface(x.X.Type(), fr.val(st, x.X)))
	case *ssa.TypeAssert:
		return fr.typeAssert(st, x)
	case *ssa.Extract:
		t := fr.val(st, x.Tuple)
		if t.k == KTuple && x.Index < len(t.e) {
			fr.set(st, x, t.e[x.Index])
		} else {
			fr.set(st, x, top)
		}
	case *ssa.Field:
		v := fr.val(st, x.X)
		var f *Val
		if v.k == KStruct && x.Field < len(v.e) {
			f = v.e[x.Field]
		} else {
			f = fr.fresh(st, x, "", nil)
		}
		if a.PinField != nil {
			if w := a.PinField(st, isStruct(x.X.Type()), x.Field, f); w != nil {
				f = w
			}
		}
		fr.set(st, x, f)
	case *ssa.FieldAddr:
		fr.touchGlobals(st, x.X)
		v := fr.val(st, x.X)
		id, path, ok := a.loc(st, v)
		if ok {
			if path == "" {
				a.obj(st, id, derefType(x.X.Type()))
			}
			fr.set(st, x, vPtr(id, path+"."+strconv.Itoa(x.Field)))
		} else {
			fr.set(st, x, top)
		}
	case *ssa.Index:
		v, i := fr.val(st, x.X), fr.val(st, x.Index)
		if s, ok := v.strVal(); ok {
			if n, ok := i.intVal(); ok && n >= 0 && n < int64(len(s)) {
				fr.set(st, x, vInt(int64(s[n])))
				return one(st)
			}
		}
		if n, ok := i.intVal(); ok && a.Lin != nil && isSym(v) {
			fr.set(st, x, tok("d!uint8:"+v.s[2:]+"["+itoa(n)+"]"))
			return one(st)
		}
		fr.set(st, x, fr.fresh(st, x, "", nil))
	case *ssa.IndexAddr:
		fr.touchGlobals(st, x.X)
		v, i := fr.val(st, x.X), fr.val(st, x.Index)
		idx := "[*]"
		n, isInt := i.intVal()
		switch v.k {
		case KSlice:
			if o, ok := v.e[0].intVal(); ok && isInt {
				idx = "[" + strconv.FormatInt(o+n, 10) + "]"
			}
			if o, ok := a.base[v.s]; ok && st.mem[v.s] == nil {
				_ = o
			}
			fr.set(st, x, vPtr(v.s, v.p+idx))
		case KPtr:
			if isInt {
				idx = "[" + strconv.FormatInt(n, 10) + "]"
			}
			fr.set(st, x, vPtr(v.s, v.p+idx))
		case KTok:
			if isInt {
				idx = "[" + strconv.FormatInt(n, 10) + "]"
			}
			id := "P<" + v.s + ">"
			if _, isSl := x.X.Type().Underlying().(*types.Slice); isSl {
				a.obj(st, id, x.X.Type())
			} else {
				a.obj(st, id, derefType(x.X.Type()))
			}
			fr.set(st, x, vPtr(id, idx))
		default:
			fr.set(st, x, top)
		}
	case *ssa.Slice:
		fr.slice(st, x)
	case *ssa.SliceToArrayPointer:
		fr.set(st, x, nonNil(""))
	case *ssa.MakeClosure:
		var b []*Val
		for _, v := range x.Bindings {
			b = append(b, fr.val(st, v))
		}
		fr.set(st, x, vFunc(x.Fn.(*ssa.Function), b))
	case *ssa.MakeSlice:
		n := fr.val(st, x.Len)
		if a.OnMake != nil {
			if v := a.OnMake(fr, x, n, st); v != nil {
				fr.set(st, x, v)
				break
			}
		}
		id := a.alloc(st, x, x.Type())
		fr.set(st, x, vSlice(id, "", vInt(0), n))
	case *ssa.MakeMap:
		id := a.alloc(st, x, x.Type())
		o := st.mem[id].clone()
		o.complete = true
		st.mem[id] = o
		fr.set(st, x, &Val{k: KMap, s: id})
	case *ssa.MakeChan:
		fr.set(st, x, nonNil(""))
	case *ssa.MapUpdate:
		fr.mapUpdate(st, x)
	case *ssa.Lookup:
		fr.lookup(st, x)
	case *ssa.Range:
		fr.set(st, x, fr.rangeOver(st, x))
	case *ssa.Next:
		fr.set(st, x, fr.next(st, x))
	case *ssa.Send, *ssa.Go:
		if g, ok := ins.(*ssa.Go); ok {
			var args []*Val
			for _, v := range g.Call.Args {
				args = append(args, fr.val(st, v))
			}
			a.havoc(st, args, a.site(ins))
		}
	case *ssa.Select:
		fr.set(st, x, top)
	case *ssa.Defer:
		fnv, args := fr.callee(st, &x.Call)
		rec := deferRec{x, fnv, args}
		found := false
		nd := append([]deferRec(nil), st.defers...)
		for i, d := range nd {
			if d.in == x {
				nd[i] = rec
				found = true
			}
		}
		if !found {
			nd = append(nd, rec)
		}
		st.defers = nd
	case *ssa.Call:
		fnv, args := fr.callee(st, &x.Call)
		return fr.doCall(st, x, fnv, args, false)
	default:
		if v, ok := ins.(ssa.Value); ok {
			fr.set(st, v, top)
		}
	}
	return one(st)
}

func (fr *Frame) touchGlobals(st *State, v ssa.Value) {
	if g, ok := v.(*ssa.Global); ok {
		fr.a.ensureGlobal(st, g)
	}
}

func (fr *Frame) callee(st *State, c *ssa.CallCommon) (*Val, []*Val) {
	var args []*Val
	if c.IsInvoke() {
		args = append(args, fr.val(st, c.Value))
	}
	for _, v := range c.Args {
		args = append(args, fr.val(st, v))
	}
	if c.IsInvoke() {
		return nil, args
	}
	return fr.val(st, c.Value), args
}

func (fr *Frame) unop(st *State, x *ssa.UnOp) {
	a := fr.a
	switch x.Op {
	case token.MUL:
		fr.touchGlobals(st, x.X)
		addr := fr.val(st, x.X)
		v := a.load(st, addr, x.Type())
		if g, ok := x.X.(*ssa.Global); ok && g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) && isErrIface(x.Type()) {
			// the error variables of other packages (io.EOF) are set and never nil
			v = nonNil(g.String())
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok && a.PinField != nil {
			if w := a.PinField(st, isStruct(derefType(fa.X.Type())), fa.Field, v); w != nil {
				fr.set(st, x, w)
				return
			}
		}
		if a.OnLoad != nil {
			if w := a.OnLoad(fr, x, addr, v, st); w != nil {
				v = w
			}
		}
		if v.k == KTop {
			// give the cell a name so that later loads agree
			v = fr.fresh(st, x, "", nil)
			if id, path, ok := a.loc(st, addr); ok && isStruct(x.Type()) == nil && !strings.Contains(path, "*") {
				if _, isArr := x.Type().Underlying().(*types.Array); !isArr {
					o := a.obj(st, id, nil)
					if !o.multi {
						o = o.clone()
						o.cells[path] = v
						st.mem[id] = o
					}
				}
			}
		}
		fr.set(st, x, v)
		return
	case token.NOT:
		if b, ok := fr.val(st, x.X).boolVal(); ok {
			fr.set(st, x, vBool(!b))
			return
		}
		if v := fr.val(st, x.X); v.k == KTok {
			if n, set, ok := strings.Cut(v.s, "="); ok && strings.HasPrefix(n, "c!") {
				fr.set(st, x, tok(n+"="+parseSet(set).not(64).String()))
				return
			}
		}
	case token.SUB, token.XOR:
		if v := fr.val(st, x.X); v.isConst() {
			if c := safeUnary(x.Op, v.c); c != nil {
				fr.set(st, x, convertConst(c, x.Type()))
				return
			}
		}
	}
	fr.set(st, x, fr.fresh(st, x, "", x.Type()))
}

func safeUnary(op token.Token, c constant.Value) (r constant.Value) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	r = constant.UnaryOp(op, c, 0)
	if r.Kind() == constant.Unknown {
		return nil
	}
	return r
}

func safeBinary(op token.Token, x, y constant.Value, isInt bool) (r constant.Value) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	switch op {
	case token.SHL, token.SHR:
		n, ok := constant.Uint64Val(y)
		if !ok || n > 4096 {
			return nil
		}
		return constant.Shift(constant.ToInt(x), op, uint(n))
	case token.QUO:
		if isInt {
			if constant.Sign(y) == 0 {
				return nil
			}
			return constant.BinaryOp(constant.ToInt(x), token.QUO_ASSIGN, constant.ToInt(y))
		}
	case token.REM:
		if constant.Sign(y) == 0 {
			return nil
		}
	}
	r = constant.BinaryOp(x, op, y)
	if r.Kind() == constant.Unknown {
		return nil
	}
	return r
}

func (a *An) binop(st *State, x *ssa.BinOp, l, r *Val) *Val {
	v := a.binop0(st, x, l, r)
	if v.k == KTop && len(st.facts) > 0 {
		if k, neg := factKey(x, l, r); k != "" {
			if t, ok := st.facts[k]; ok {
				return vBool(t != neg)
			}
		}
	}
	return v
}

func (a *An) binop0(st *State, x *ssa.BinOp, l, r *Val) *Val {
	if a.Lin != nil {
		if v := a.Lin.binop(x.Op, l, r, x.Type()); v != nil {
			return v
		}
	}
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if l.isConst() && r.isConst() && l.c.Kind() != constant.Unknown {
			ok := true
			var res bool
			func() {
				defer func() {
					if recover() != nil {
						ok = false
					}
				}()
				res = constant.Compare(l.c, x.Op, r.c)
			}()
			if ok {
				return vBool(res)
			}
			return top
		}
		if a.Ord != nil && l.k != KTop && r.k != KTop {
			// tokens with a given order
			if c, ok := a.Ord(l.Key(), r.Key()); ok {
				switch x.Op {
				case token.EQL:
					return vBool(c == 0)
				case token.NEQ:
					return vBool(c != 0)
				case token.LSS:
					return vBool(c < 0)
				case token.LEQ:
					return vBool(c <= 0)
				case token.GTR:
					return vBool(c > 0)
				case token.GEQ:
					return vBool(c >= 0)
				}
			}
		}
		eq := x.Op == token.EQL
		if eq || x.Op == token.NEQ {
			if l.k == KNil || r.k == KNil {
				o := l
				if l.k == KNil {
					o = r
				}
				switch a.nilness(st, o) {
				case 1:
					return vBool(eq)
				case -1:
					return vBool(!eq)
				}
				return top
			}
			if l.k == KStruct && r.k == KStruct && len(l.e) == len(r.e) {
				y := *x
				y.Op = token.EQL
				all := true
				for i := range l.e {
					b, ok := a.binop0(st, &y, l.e[i], r.e[i]).boolVal()
					if ok && !b {
						return vBool(!eq)
					}
					all = all && ok
				}
				if all {
					return vBool(eq)
				}
				return top
			}
			if l.k == KTok && r.k == KTok && l.s == r.s {
				return vBool(eq)
			}
			if l.k == KRType && r.k == KRType {
				return vBool(types.Identical(l.t, r.t) == eq)
			}
			if l.k == KIface && r.k == KIface {
				if !types.Identical(l.t, r.t) {
					return vBool(!eq)
				}
				if s := isStruct(l.t); s != nil && s.NumFields() == 0 {
					return vBool(eq)
				}
				if l.e[0].k == KRType && r.e[0].k == KRType {
					return vBool(types.Identical(l.e[0].t, r.e[0].t) == eq)
				}
				if l.e[0].isConst() && r.e[0].isConst() {
					return vBool((l.e[0].Key() == r.e[0].Key()) == eq)
				}
			}
			if l.k == KPtr && r.k == KPtr && (l.s != r.s || l.p != r.p) && private(l.s) && private(r.s) && !strings.Contains(l.p+r.p, "*") {
				return vBool(!eq)
			}
		} else if l.k == KTok && r.k == KTok && l.s == r.s {
			return vBool(x.Op == token.LEQ || x.Op == token.GEQ)
		}
		return top
	}
	if l.isConst() && r.isConst() {
		b, _ := x.Type().Underlying().(*types.Basic)
		if b == nil {
			return top
		}
		c := safeBinary(x.Op, l.c, r.c, b.Info()&types.IsInteger != 0)
		if c == nil {
			return top
		}
		return convertConst(c, x.Type())
	}
	// identities that hold whatever the other operand is
	if z, ok := r.intVal(); ok && z == 0 {
		switch x.Op {
		case token.ADD, token.SUB, token.OR, token.XOR, token.SHL, token.SHR:
			return l
		case token.AND, token.MUL:
			return vInt(0)
		}
	}
	if z, ok := l.intVal(); ok && z == 0 {
		switch x.Op {
		case token.ADD, token.OR, token.XOR:
			return r
		case token.AND, token.MUL:
			return vInt(0)
		}
	}
	return top
}

func (a *An) convert(fr *Frame, st *State, in ssa.Instruction, v *Val, from, to types.Type) *Val {
	if a.Lin != nil {
		if r := a.Lin.convert(a, st, v, from, to); r != nil {
			return r
		}
	}
	if v.isConst() {
		if _, ok := to.Underlying().(*types.Basic); ok {
			if r := convertConst(v.c, to); r.k != KTop {
				return r
			}
		}
		if s, ok := v.strVal(); ok {
			if sl, isSl := to.Underlying().(*types.Slice); isSl {
				if b, isB := sl.Elem().Underlying().(*types.Basic); isB && b.Kind() == types.Byte {
					id := a.alloc(st, in, to)
					o := st.mem[id].clone()
					if len(s) <= 64 {
						for i := 0; i < len(s); i++ {
							o.cells["["+strconv.Itoa(i)+"]"] = vInt(int64(s[i]))
						}
					} else {
						o.zero = false
					}
					st.mem[id] = o
					return vSlice(id, "", vInt(0), vInt(int64(len(s))))
				}
			}
		}
		return fr.fresh(st, in, "", nil)
	}
	if tb, ok := to.Underlying().(*types.Basic); ok {
		if tb.Kind() == types.UnsafePointer {
			return v
		}
		if fb, ok := from.Underlying().(*types.Basic); ok {
			if tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0 {
				tn, ts := intSize(tb)
				fn, fs := intSize(fb)
				if a.OnField && v.k == KTok && strings.HasPrefix(v.s, "v!") {
					if tn > fn && !fs || tn >= fn && !ts && !fs {
						return v
					}
					if f, _ := parseField(v); f.bits <= 16 || tn == 64 || tn == f.bits {
						return tok(v.s + "/conv " + tb.Name())
					}
				}
				// widening keeps the value
				if v.k == KTok && (tn > fn && (!fs || ts) || tn == fn && ts == fs) {
					return v
				}
				// the same number of bits with another sign, kept as a value for order rules
				if v.k == KTok && a.Ord != nil && tn >= fn {
					return v
				}
			}
		}
		// []byte to string
		if tb.Info()&types.IsString != 0 && v.k == KSlice {
			if n, ok := v.e[1].intVal(); ok && n <= 64 {
				if off, ok := v.e[0].intVal(); ok {
					var b []byte
					var parts []string // with fields among them
					fields := 0
					all := true
					o := a.obj(st, v.s, nil)
					if bs := fileBytes(o, v, off, n); bs != nil {
						return stringOf(bs)
					}
					for i := int64(0); i < n; i++ {
						c := o.get(v.s, v.p+"["+strconv.FormatInt(off+i, 10)+"]")
						x, ok := c.intVal()
						if _, isF := parseField(c); isF && a.OnField && n <= 8 {
							parts = append(parts, c.s)
							fields++
							continue
						}
						parts = append(parts, strconv.FormatInt(x, 10))
						if !ok {
							all = false
							break
						}
						b = append(b, byte(x))
					}
					if all && fields == 1 {
						return tok("fs!" + strings.Join(parts, ","))
					}
					if all && fields == 0 {
						return vStr(string(b))
					}
				}
			}
		}
	}
	return fr.fresh(st, in, "", nil)
}

func (fr *Frame) slice(st *State, x *ssa.Slice) {
	a := fr.a
	v := fr.val(st, x.X)
	lo, hi := vInt(0), (*Val)(nil)
	if x.Low != nil {
		lo = fr.val(st, x.Low)
	}
	if x.High != nil {
		hi = fr.val(st, x.High)
	}
	if bs, ok := stringBytes(v); ok && v.k == KTok {
		l, ok1 := lo.intVal()
		h, ok2 := int64(len(bs)), true
		if hi != nil {
			h, ok2 = hi.intVal()
		}
		if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(bs)) {
			fr.set(st, x, stringOf(bs[l:h]))
			return
		}
	}
	if s, ok := v.strVal(); ok {
		l, ok1 := lo.intVal()
		h, ok2 := int64(len(s)), true
		if hi != nil {
			h, ok2 = hi.intVal()
		}
		if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(s)) {
			fr.set(st, x, vStr(s[l:h]))
			return
		}
		fr.set(st, x, fr.fresh(st, x, "", nil))
		return
	}
	sub := func(h, l *Val) *Val {
		hv, ok1 := h.intVal()
		lv, ok2 := l.intVal()
		if ok1 && ok2 {
			return vInt(hv - lv)
		}
		if ok2 && lv == 0 {
			return h
		}
		if a.Lin != nil {
			if r := a.Lin.binop(token.SUB, h, l, nil); r != nil {
				return r
			}
		}
		return top
	}
	switch v.k {
	case KSlice:
		if hi == nil {
			hi = v.e[1]
		}
		off := top
		if o, ok := v.e[0].intVal(); ok {
			if l, ok := lo.intVal(); ok {
				off = vInt(o + l)
			} else if o == 0 {
				if _, ok := polyOf(lo); ok {
					off = lo
				}
			}
		}
		if off.k == KTop && a.Lin != nil {
			if s := a.Lin.binop(token.ADD, v.e[0], lo, nil); s != nil {
				off = s
			}
		}
		fr.set(st, x, vSlice(v.s, v.p, off, sub(hi, lo)))
		return
	case KPtr:
		if arr, ok := derefArr(x.X.Type()); ok {
			if hi == nil {
				hi = vInt(arr.Len())
			}
			off := top
			if _, ok := lo.intVal(); ok {
				off = lo
			}
			a.obj(st, v.s, nil)
			fr.set(st, x, vSlice(v.s, v.p, off, sub(hi, lo)))
			return
		}
	case KNil:
		fr.set(st, x, vNil)
		return
	case KTok:
		if _, isSl := x.X.Type().Underlying().(*types.Slice); isSl && hi == nil {
			if l, ok := lo.intVal(); ok && l == 0 {
				fr.set(st, x, v)
				return
			}
		}
	}
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		fr.set(st, x, fr.fresh(st, x, "", nil))
		return
	}
	if v.k == KTok {
		// part of an unknown slice: share its object
		id := "P<" + v.s + ">"
		if _, isSl := x.X.Type().Underlying().(*types.Slice); isSl {
			a.obj(st, id, x.X.Type())
			n := top
			if hi != nil {
				n = sub(hi, lo)
			}
			off := top
			if _, ok := lo.intVal(); ok {
				off = lo
			}
			fr.set(st, x, vSlice(id, "", off, n))
			return
		}
	}
	fr.set(st, x, fr.fresh(st, x, "", nil))
}

func derefArr(t types.Type) (*types.Array, bool) {
	d := derefType(t)
	if d == nil {
		return nil, false
	}
	arr, ok := d.Underlying().(*types.Array)
	return arr, ok
}

func (fr *Frame) mapKey(k *Val) (string, bool) {
	if fr.a.Lin != nil {
		if fr.a.keyVals == nil {
			fr.a.keyVals = map[string]*Val{}
		}
		fr.a.keyVals[k.Key()] = k
	}
	if k.isConst() || fr.a.Lin != nil && isSym(k) {
		return "{" + k.Key() + "}", true
	}
	if k.k == KIface && k.e[0].isConst() {
		return "{" + k.Key() + "}", true
	}
	if k.k == KIface && k.e[0].k == KRType || k.k == KRType {
		return "{" + k.Key() + "}", true
	}
	return "{*}", false
}

func (fr *Frame) mapUpdate(st *State, x *ssa.MapUpdate) {
	a := fr.a
	m := fr.val(st, x.Map)
	v := fr.val(st, x.Value)
	k, exact := fr.mapKey(fr.val(st, x.Key))
	if a.OnStore != nil {
		a.OnStore(fr, x, m, v, st)
	}
	var id string
	switch m.k {
	case KMap:
		id = m.s
	case KTok:
		id = "P<" + m.s + ">"
	default:
		return
	}
	o := a.obj(st, id, x.Map.Type()).clone()
	if exact && !o.multi {
		o.cells[k] = v
	} else if old, ok := o.cells[k]; ok {
		o.cells[k] = join(old, v)
	} else {
		o.cells[k] = v
	}
	if !exact {
		o.complete = false
		for p, old := range o.cells {
			if strings.HasPrefix(p, "{") {
				o.cells[p] = join(old, v)
			}
		}
	}
	st.mem[id] = o
}

func (fr *Frame) lookup(st *State, x *ssa.Lookup) {
	a := fr.a
	m, kv := fr.val(st, x.X), fr.val(st, x.Index)
	set := func(v *Val, ok *Val) {
		if x.CommaOk {
			fr.set(st, x, vTuple(v, ok))
		} else {
			fr.set(st, x, v)
		}
	}
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap {
		// string index
		if s, ok := m.strVal(); ok {
			if n, ok := kv.intVal(); ok && n >= 0 && n < int64(len(s)) {
				fr.set(st, x, vInt(int64(s[n])))
				return
			}
		}
		if n, ok := kv.intVal(); ok && a.Lin != nil && isSym(m) {
			fr.set(st, x, tok("d!uint8:"+m.s[2:]+"["+itoa(n)+"]"))
			return
		}
		fr.set(st, x, fr.fresh(st, x, "", nil))
		return
	}
	if m.k == KNil {
		set(zero(mt.Elem()), vFalse)
		return
	}
	var id string
	switch m.k {
	case KMap:
		id = m.s
	case KTok:
		id = "P<" + m.s + ">"
	}
	if id != "" {
		o := a.obj(st, id, x.X.Type())
		k, exact := fr.mapKey(kv)
		if exact {
			if v, ok := o.cells[k]; ok {
				if _, fuzzy := o.cells["{*}"]; !fuzzy {
					set(v, vTrue)
					return
				}
			} else if o.complete {
				set(zero(mt.Elem()), vFalse)
				return
			}
		}
	}
	var v *Val
	if mt.Elem() != nil && isStruct(mt.Elem()) != nil {
		v = fr.fresh(st, x, "v", mt.Elem())
	} else {
		v = fr.fresh(st, x, "v", nil)
	}
	set(v, fr.fresh(st, x, "ok", nil))
}

// rangeOver starts an iteration: over the keys of a map that are known, or not known.
func (fr *Frame) rangeOver(st *State, x *ssa.Range) *Val {
	m := fr.val(st, x.X)
	if m.k == KNil {
		m = &Val{k: KMap}
	}
	if fr.a.Lin != nil && m.k == KMap {
		if ks, ok := fr.a.mapKeys(st, m); ok {
			return vTuple(append([]*Val{vStr("range"), m, vInt(0)}, ks...)...)
		}
	}
	return nonNil("iter")
}

// mapKeys lists the keys of a map, if they are known.
func (a *An) mapKeys(st *State, m *Val) ([]*Val, bool) {
	if m.s == "" {
		return nil, true
	}
	o := st.mem[m.s]
	if o == nil || !o.complete || o.multi {
		return nil, false
	}
	seen := map[string]string{}
	for p := range o.cells {
		i := strings.IndexByte(p, '}')
		if p == "{*}" || i < 0 {
			return nil, false
		}
		seen[p[1:i]] = ""
	}
	var out []*Val
	for _, k := range sortedKeys(seen) {
		v := a.keyVals[k]
		if v == nil {
			return nil, false
		}
		out = append(out, v)
	}
	return out, true
}

func (fr *Frame) next(st *State, x *ssa.Next) *Val {
	if it := fr.val(st, x.Iter); it.k == KTuple && len(it.e) >= 3 {
		n, _ := it.e[2].intVal()
		if int(n) >= len(it.e)-3 {
			return vTuple(vFalse, top, top)
		}
		k := it.e[3+n]
		e := append([]*Val(nil), it.e...)
		e[2] = vInt(n + 1)
		st.env[x.Iter] = vTuple(e...)
		v := top
		mt, _ := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		key, _ := fr.mapKey(k)
		o := fr.a.obj(st, it.e[1].s, mt)
		if c, ok := o.cells[key]; ok && isStruct(mt.Elem()) == nil {
			v = c
		} else {
			v = fr.a.loadAt(st, it.e[1].s, o, key, mt.Elem())
		}
		return vTuple(vTrue, k, v)
	}
	r := fr.fresh(st, x, "", nil)
	ok := tok(strings.Replace(r.s, ">", "ok>", 1))
	fr.forget(st, ok.s)
	k := tok(strings.Replace(r.s, ">", "k>", 1))
	fr.forget(st, k.s)
	v := tok(strings.Replace(r.s, ">", "v>", 1))
	fr.forget(st, v.s)
	return vTuple(ok, k, v)
}

func (fr *Frame) typeAssert(st *State, x *ssa.TypeAssert) []*State {
	v := fr.val(st, x.X)
	res := func(s *State, val *Val, ok bool) *State {
		if x.CommaOk {
			if !ok {
				val = zero(x.AssertedType)
			}
			fr.set(s, x, vTuple(val, vBool(ok)))
		} else {
			fr.set(s, x, val)
		}
		return s
	}
	if v.k == KNil {
		if x.CommaOk {
			return one(res(st, nil, false))
		}
		st.panic = nonNil("type assertion")
		return one(st)
	}
	toIface := types.IsInterface(x.AssertedType)
	if v.k == KIface {
		match := false
		if toIface {
			match = types.Implements(v.t, x.AssertedType.Underlying().(*types.Interface))
		} else {
			match = types.Identical(v.t, x.AssertedType)
		}
		if match {
			if toIface {
				return one(res(st, v, true))
			}
			return one(res(st, v.e[0], true))
		}
		if x.CommaOk {
			return one(res(st, nil, false))
		}
		st.panic = nonNil("type assertion")
		return one(st)
	}
	// unknown: both outcomes
	s1 := st.clone()
	var val *Val
	if toIface {
		if v.k == KTok {
			val = v
			s1.nn[v.s] = true
		} else {
			val = nonNil("")
		}
	} else {
		val = fr.fresh(s1, x, "", x.AssertedType)
		if v.k == KTok {
			fr.a.substState(s1, v.s, vIface(x.AssertedType, val))
		}
	}
	s1 = res(s1, val, true)
	if !x.CommaOk {
		return one(s1) // a failing assertion is a run-time panic, outside of the model
	}
	s2 := res(st.clone(), nil, false)
	return []*State{s1, s2}
}
