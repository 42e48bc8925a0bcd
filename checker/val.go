package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The abstract values.
type Kind uint8

const (
	KTop    Kind = iota // anything
	KTok                // unknown, but the same unknown everywhere the token appears
	KConst              // a constant
	KNil                // nil
	KNonNil             // not nil, otherwise unknown
	KPtr                // address of a cell of an abstract object
	KSlice              // slice of a cell of an abstract object
	KMap                // map object
	KFunc               // function or closure
	KTuple              // results of a call
	KIface              // interface holding a value of a known dynamic type
	KStruct             // struct value
	KRType              // reflect.Type of a known type
	KRVal               // reflect.Value of a value of a known type
)

type Val struct {
	k   Kind
	c   constant.Value
	t   types.Type
	s   string
	p   string // path
	f   *ssa.Function
	e   []*Val
	key string
}

func (v *Val) Key() string {
	if v == nil {
		return "_"
	}
	if v.key != "" {
		return v.key
	}
	var b strings.Builder
	switch v.k {
	case KTop:
		b.WriteString("T")
	case KTok:
		b.WriteString("?" + v.s)
	case KConst:
		b.WriteString("c" + v.c.ExactString())
	case KNil:
		b.WriteString("nil")
	case KNonNil:
		b.WriteString("nn" + v.s)
	case KPtr:
		b.WriteString("&" + v.s + "|" + v.p)
	case KSlice:
		b.WriteString("sl" + v.s + "|" + v.p)
	case KMap:
		b.WriteString("map" + v.s)
	case KFunc:
		fmt.Fprintf(&b, "fn%s@%d", v.f.String(), v.f.Pos())
	case KTuple:
		b.WriteString("tup")
	case KIface:
		b.WriteString("if<" + typeKey(v.t) + ">")
	case KStruct:
		b.WriteString("st")
	case KRType:
		b.WriteString("rt<" + typeKey(v.t) + ">")
	case KRVal:
		b.WriteString("rv<" + typeKey(v.t) + ">" + v.s)
	}
	if len(v.e) > 0 {
		b.WriteString("(")
		for _, x := range v.e {
			b.WriteString(x.Key())
			b.WriteString(",")
		}
		b.WriteString(")")
	}
	v.key = b.String()
	return v.key
}

func typeKey(t types.Type) string {
	if t == nil {
		return "?"
	}
	return t.String()
}

var (
	top    = &Val{k: KTop}
	vNil   = &Val{k: KNil}
	vTrue  = &Val{k: KConst, c: constant.MakeBool(true)}
	vFalse = &Val{k: KConst, c: constant.MakeBool(false)}
)

// The shared values have their keys from the start: several analyses may run at the same time.
func init() {
	for _, v := range []*Val{top, vNil, vTrue, vFalse} {
		v.Key()
	}
}

func tok(s string) *Val            { return &Val{k: KTok, s: s} }
func nonNil(s string) *Val         { return &Val{k: KNonNil, s: s} }
func vConst(c constant.Value) *Val { return &Val{k: KConst, c: c} }
func vInt(i int64) *Val            { return vConst(constant.MakeInt64(i)) }
func vStr(s string) *Val           { return vConst(constant.MakeString(s)) }
func vBool(b bool) *Val {
	if b {
		return vTrue
	}
	return vFalse
}
func vIface(t types.Type, v *Val) *Val         { return &Val{k: KIface, t: t, e: []*Val{v}} }
func vTuple(e ...*Val) *Val                    { return &Val{k: KTuple, e: e} }
func vPtr(obj, path string) *Val               { return &Val{k: KPtr, s: obj, p: path} }
func vFunc(f *ssa.Function, binds []*Val) *Val { return &Val{k: KFunc, f: f, e: binds} }
func vSlice(obj, path string, off, ln *Val) *Val {
	return &Val{k: KSlice, s: obj, p: path, e: []*Val{off, ln}}
}

func (v *Val) isConst() bool { return v.k == KConst }
func (v *Val) boolVal() (bool, bool) {
	if v.k == KConst && v.c.Kind() == constant.Bool {
		return constant.BoolVal(v.c), true
	}
	return false, false
}
func (v *Val) intVal() (int64, bool) {
	if v.k == KConst {
		c := constant.ToInt(v.c)
		if c.Kind() == constant.Int {
			return constant.Int64Val(c)
		}
	}
	return 0, false
}
func (v *Val) strVal() (string, bool) {
	if v.k == KConst && v.c.Kind() == constant.String {
		return constant.StringVal(v.c), true
	}
	return "", false
}

// nilness: 1 certainly nil, -1 certainly not nil, 0 unknown.
func (v *Val) nilness() int {
	switch v.k {
	case KNil:
		return 1
	case KNonNil, KPtr, KSlice, KMap, KFunc, KIface, KRType, KRVal:
		return -1
	}
	return 0
}

func join(a, b *Val) *Val { return joinNN(a, b, nil, nil) }

// joinNN joins two values given the tokens known not to be nil on either side.
func joinNN(a, b *Val, fa, fb map[string]bool) *Val {
	if a == b || a.Key() == b.Key() {
		return a
	}
	if a.k == KTuple && b.k == KTuple && len(a.e) == len(b.e) {
		e := make([]*Val, len(a.e))
		for i := range e {
			e[i] = joinNN(a.e[i], b.e[i], fa, fb)
		}
		return vTuple(e...)
	}
	if a.k == KStruct && b.k == KStruct && len(a.e) == len(b.e) {
		e := make([]*Val, len(a.e))
		for i := range e {
			e[i] = joinNN(a.e[i], b.e[i], fa, fb)
		}
		return &Val{k: KStruct, t: a.t, e: e}
	}
	if a.k == KIface && b.k == KIface && types.Identical(a.t, b.t) {
		return vIface(a.t, joinNN(a.e[0], b.e[0], fa, fb))
	}
	if a.k == KRVal && b.k == KRVal && types.Identical(a.t, b.t) && a.s == b.s {
		return &Val{k: KRVal, t: a.t, s: a.s, e: []*Val{joinNN(a.e[0], b.e[0], fa, fb)}}
	}
	if a.k == KSlice && b.k == KSlice && a.s == b.s && a.p == b.p {
		return vSlice(a.s, a.p, joinNN(a.e[0], b.e[0], fa, fb), joinNN(a.e[1], b.e[1], fa, fb))
	}
	if (a.nilness() == -1 || a.k == KTok && fa[a.s]) && (b.nilness() == -1 || b.k == KTok && fb[b.s]) {
		return nonNil("")
	}
	return top
}

// subst replaces a token by a value everywhere in v.
func (v *Val) subst(name string, by *Val) *Val {
	if v.k == KTok {
		if v.s == name {
			return by
		}
		return v
	}
	if len(v.e) == 0 {
		return v
	}
	if !strings.Contains(v.Key(), "?"+name) {
		return v
	}
	e := make([]*Val, len(v.e))
	ch := false
	for i, x := range v.e {
		e[i] = x.subst(name, by)
		if e[i] != x {
			ch = true
		}
	}
	if !ch {
		return v
	}
	n := *v
	n.e = e
	n.key = ""
	return &n
}

// zero is the zero value of a type.
func zero(t types.Type) *Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return vFalse
		case u.Info()&types.IsString != 0:
			return vStr("")
		case u.Info()&types.IsInteger != 0:
			return vInt(0)
		case u.Info()&types.IsFloat != 0:
			return vConst(constant.MakeFloat64(0))
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return vNil
		}
		return top
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return vNil
	case *types.Struct:
		e := make([]*Val, u.NumFields())
		for i := range e {
			e[i] = zero(u.Field(i).Type())
		}
		return &Val{k: KStruct, t: t, e: e}
	case *types.Array:
		// an array of zeros
		return &Val{k: KStruct, t: t}
	}
	return top
}

// convertConst gives a constant its representation in a basic type.
func convertConst(c constant.Value, t types.Type) *Val {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return top
	}
	switch {
	case b.Info()&types.IsInteger != 0:
		if c.Kind() == constant.String || c.Kind() == constant.Bool {
			return top
		}
		if c.Kind() == constant.Float {
			f, _ := constant.Float64Val(c)
			c = constant.ToInt(constant.MakeFloat64(float64(int64(f))))
		}
		c = constant.ToInt(c)
		if c.Kind() != constant.Int {
			return top
		}
		bits, signed := intSize(b)
		mod := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits))
		r := constant.BinaryOp(c, token.REM, mod)
		if constant.Sign(r) < 0 {
			r = constant.BinaryOp(r, token.ADD, mod)
		}
		if signed {
			half := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits-1))
			if constant.Compare(r, token.GEQ, half) {
				r = constant.BinaryOp(r, token.SUB, mod)
			}
		}
		return vConst(r)
	case b.Info()&types.IsFloat != 0:
		if c.Kind() == constant.String || c.Kind() == constant.Bool {
			return top
		}
		f := constant.ToFloat(c)
		if f.Kind() == constant.Float || f.Kind() == constant.Int {
			if b.Kind() == types.Float32 {
				x, _ := constant.Float32Val(f)
				return vConst(constant.MakeFloat64(float64(x)))
			}
			x, _ := constant.Float64Val(f)
			return vConst(constant.MakeFloat64(x))
		}
		return top
	case b.Info()&types.IsString != 0:
		if c.Kind() == constant.String {
			return vConst(c)
		}
		if i, ok := constant.Int64Val(c); ok && c.Kind() == constant.Int {
			return vStr(string(rune(i)))
		}
		return top
	case b.Info()&types.IsBoolean != 0:
		return vConst(c)
	}
	return top
}

func intSize(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 64, true
}
