package main

import (
	"go/types"
	"reflect"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// model gives the effect of well-known functions outside of the module.
func model(c *Call) ([]Out, bool) {
	a, st := c.a, c.st
	n := c.name
	arg := func(i int) *Val {
		if i < len(c.args) {
			return c.args[i]
		}
		return top
	}
	switch n {
	case "fmt.Sprintf":
		if a.Lin != nil && len(c.args) == 2 {
			if v := a.Lin.sprintf(a, st, arg(0), arg(1)); v != nil {
				return []Out{{res: v}}, true
			}
		}
	case "math.Float32bits", "math.Float64bits":
		// the bits of a value that the rule gave
		if v := arg(0); a.Lin != nil && v.k == KTok && strings.HasPrefix(v.s, "d!") {
			if t, name := dataTok(v); t == map[string]string{"math.Float32bits": "float32", "math.Float64bits": "float64"}[n] {
				return []Out{{res: tok("d!uint" + t[5:] + ":bits(" + name + ")")}}, true
			}
		}
	case "errors.New", "fmt.Errorf":
		return []Out{{res: nonNil("err@" + a.site(c.site))}}, true
	case "regexp.MustCompile", "regexp.Compile":
		re := nonNil("re@" + a.site(c.site))
		if s, ok := arg(0).strVal(); ok {
			if _, err := regexp.Compile(s); err == nil {
				re = nonNil("re:" + s)
				if n == "regexp.Compile" {
					return []Out{{res: vTuple(re, vNil)}}, true
				}
			}
		}
		if n == "regexp.Compile" {
			return []Out{{res: vTuple(re, vNil), st: st.clone()}, {res: vTuple(vNil, nonNil("err@"+a.site(c.site))), st: st.clone()}}, true
		}
		return []Out{{res: re}}, true
	case "(*regexp.Regexp).MatchString":
		// the standard library's matcher on constants of the source
		if re := arg(0); re.k == KNonNil && strings.HasPrefix(re.s, "re:") {
			if s, ok := arg(1).strVal(); ok {
				return []Out{{res: vBool(regexp.MustCompile(re.s[3:]).MatchString(s))}}, true
			}
		}
		return []Out{{}}, true
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		return nil, true
	case "log.Panic", "log.Panicf", "log.Panicln":
		return []Out{{panic: nonNil("log.Panic")}}, true
	case "reflect.ValueOf":
		v := arg(0)
		if v.k == KIface {
			return []Out{{res: &Val{k: KRVal, t: v.t, e: []*Val{v.e[0]}}}}, true
		}
		if v.k == KNil {
			return []Out{{res: &Val{k: KRVal, e: []*Val{vNil}}}}, true
		}
		return []Out{{}}, true
	case "reflect.TypeOf":
		v := arg(0)
		if v.k == KIface {
			return []Out{{res: &Val{k: KRType, t: v.t}}}, true
		}
		if v.k == KNil {
			return []Out{{res: vNil}}, true
		}
		return []Out{{}}, true
	case "reflect.SliceOf":
		if t := rtype(arg(0)); t != nil {
			return []Out{{res: &Val{k: KRType, t: types.NewSlice(t)}}}, true
		}
		return []Out{{}}, true
	case "reflect.MakeSlice", "reflect.Zero":
		if t := rtype(arg(0)); t != nil {
			v := top
			if n == "reflect.Zero" {
				v = zero(t)
			}
			return []Out{{res: &Val{k: KRVal, t: t, e: []*Val{v}}}}, true
		}
		return []Out{{}}, true
	}
	if strings.HasPrefix(n, "(reflect.Value).") {
		return modelRVal(c, arg(0), strings.TrimPrefix(n, "(reflect.Value)."))
	}
	if strings.HasPrefix(n, "(reflect.Type).") || strings.HasPrefix(n, "(*reflect.rtype).") {
		m := n[strings.LastIndexByte(n, '.')+1:]
		return modelRType(c, arg(0), m)
	}
	if strings.HasPrefix(n, "(reflect.Kind).String") {
		if k, ok := arg(0).intVal(); ok {
			return []Out{{res: vStr(reflect.Kind(k).String())}}, true
		}
		return []Out{{}}, true
	}
	switch n {
	case "(internal.logger).Fatal":
	}
	if isErrMethod(n) {
		return []Out{{}}, true
	}
	if i := strings.Index(n, "Endian).Uint"); i > 0 && (strings.HasSuffix(n[:i], "binary.little") || strings.HasSuffix(n[:i], "binary.big")) {
		// of known bytes
		size := map[string]int64{"16": 2, "32": 4, "64": 8}[n[i+len("Endian).Uint"):]]
		if v := arg(1); v.k == KSlice && size > 0 {
			if off, ok := v.e[0].intVal(); ok {
				o := a.obj(st, v.s, nil)
				x, known := uint64(0), true
				for k := int64(0); k < size; k++ {
					j := k
					if strings.HasSuffix(n[:i], "little") {
						j = size - 1 - k
					}
					b, ok := o.get(v.s, v.p+"["+itoa(off+j)+"]").intVal()
					known = known && ok
					x = x<<8 | uint64(b&255)
				}
				if known {
					return []Out{{res: vInt(int64(x))}}, true
				}
			}
		}
	}
	switch n {
	case "strings.HasPrefix":
		s, ok1 := arg(0).strVal()
		p, ok2 := arg(1).strVal()
		if ok1 && ok2 {
			return []Out{{res: vBool(strings.HasPrefix(s, p))}}, true
		}
	case "strings.HasSuffix":
		s, ok1 := arg(0).strVal()
		p, ok2 := arg(1).strVal()
		if ok1 && ok2 {
			return []Out{{res: vBool(strings.HasSuffix(s, p))}}, true
		}
	case "slices.Clone", "slices.Concat":
		t, ok := c.site.Common().Signature().Results().At(0).Type().Underlying().(*types.Slice)
		if !ok {
			break
		}
		xs := []*Val{arg(0)}
		if n == "slices.Concat" {
			xs = nil
			if l := arg(0); l.k == KSlice {
				ln, ok := l.e[1].intVal()
				off, ok2 := l.e[0].intVal()
				if !ok || !ok2 || ln > 16 {
					break
				}
				o := a.obj(st, l.s, nil)
				for i := int64(0); i < ln; i++ {
					xs = append(xs, o.get(l.s, l.p+"["+itoa(off+i)+"]"))
				}
			} else if l.k != KNil {
				break
			}
		}
		s := st.clone()
		if r := a.concatKnown(s, c.site, t, xs...); r != nil {
			return []Out{{res: r, st: s, prop: st.prop}}, true
		}
	case "slices.Contains":
		if v := arg(0); v.k == KSlice && arg(1).isConst() {
			if ln, ok := v.e[1].intVal(); ok {
				off, ok2 := v.e[0].intVal()
				o := a.obj(st, v.s, nil)
				found, unknown := false, !ok2
				for i := int64(0); i < ln && ok2; i++ {
					e := o.get(v.s, v.p+"["+itoa(off+i)+"]")
					if !e.isConst() {
						unknown = true
					} else if e.Key() == arg(1).Key() {
						found = true
					}
				}
				if found {
					return []Out{{res: vTrue}}, true
				}
				if !unknown {
					return []Out{{res: vFalse}}, true
				}
			}
		}
	}
	return nil, false
}

func isErrMethod(n string) bool { return n == "(error).Error" }

func kindOf(t types.Type) (int64, bool) {
	if t == nil {
		return 0, false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1, true
		case types.Int:
			return 2, true
		case types.Int8:
			return 3, true
		case types.Int16:
			return 4, true
		case types.Int32:
			return 5, true
		case types.Int64:
			return 6, true
		case types.Uint:
			return 7, true
		case types.Uint8:
			return 8, true
		case types.Uint16:
			return 9, true
		case types.Uint32:
			return 10, true
		case types.Uint64:
			return 11, true
		case types.Uintptr:
			return 12, true
		case types.Float32:
			return 13, true
		case types.Float64:
			return 14, true
		case types.Complex64:
			return 15, true
		case types.Complex128:
			return 16, true
		case types.String:
			return 24, true
		case types.UnsafePointer:
			return 26, true
		}
	case *types.Array:
		return 17, true
	case *types.Chan:
		return 18, true
	case *types.Signature:
		return 19, true
	case *types.Interface:
		return 20, true
	case *types.Map:
		return 21, true
	case *types.Pointer:
		return 22, true
	case *types.Slice:
		return 23, true
	case *types.Struct:
		return 25, true
	}
	return 0, false
}

func elemOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

// rtype gives the type in a reflect.Type.
func rtype(v *Val) types.Type {
	if v.k == KIface {
		v = v.e[0]
	}
	if v.k == KRType {
		return v.t
	}
	return nil
}

func modelRVal(c *Call, v *Val, m string) ([]Out, bool) {
	if v.k != KRVal {
		return []Out{{}}, true
	}
	if v.t == nil {
		// the zero Value: the other methods panic
		switch m {
		case "Kind":
			return []Out{{res: vInt(0)}}, true
		case "IsValid":
			return []Out{{res: vFalse}}, true
		}
		return []Out{{panic: nonNil("reflect:zero Value")}}, true
	}
	switch m {
	case "Kind":
		if k, ok := kindOf(v.t); ok {
			return []Out{{res: vInt(k)}}, true
		}
	case "Type":
		return []Out{{res: &Val{k: KRType, t: v.t}}}, true
	case "Interface":
		if types.IsInterface(v.t) {
			return []Out{{}}, true
		}
		return []Out{{res: vIface(v.t, v.e[0])}}, true
	case "Int", "Uint", "Float", "String", "Bool":
		if c.a.Lin != nil && v.e[0].k != KTop {
			return []Out{{res: v.e[0]}}, true
		}
	case "Elem", "Index":
		e := elemOf(v.t)
		if c.a.Lin != nil && m == "Index" && len(c.args) > 1 && e != nil && !types.IsInterface(e) && v.e[0].k == KSlice {
			s := v.e[0]
			i, ok1 := c.args[1].intVal()
			off, ok2 := s.e[0].intVal()
			if ok1 && ok2 {
				x := c.a.loadAt(c.st, s.s, c.a.obj(c.st, s.s, nil), s.p+"["+itoa(off+i)+"]", e)
				return []Out{{res: &Val{k: KRVal, t: e, e: []*Val{x}}}}, true
			}
		}
		if m == "Index" {
			if b, ok := v.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				e = types.Typ[types.Uint8]
			}
		}
		if e != nil && !types.IsInterface(e) {
			return []Out{{res: &Val{k: KRVal, t: e, e: []*Val{top}}}}, true
		}
	case "Slice":
		t := v.t
		if a, ok := t.Underlying().(*types.Array); ok {
			t = types.NewSlice(a.Elem())
		}
		return []Out{{res: &Val{k: KRVal, t: t, e: []*Val{top}}}}, true
	case "Len":
		if a, ok := v.t.Underlying().(*types.Array); ok {
			return []Out{{res: vInt(a.Len())}}, true
		}
		if v.e[0].k == KSlice && v.e[0].e[1].k != KTop {
			return []Out{{res: v.e[0].e[1]}}, true
		}
		if v.e[0].k == KNil && c.a.Lin != nil {
			return []Out{{res: vInt(0)}}, true
		}
		if s, ok := v.e[0].strVal(); ok {
			return []Out{{res: vInt(int64(len(s)))}}, true
		}
		if v.e[0].k == KTok && c.a.Lin != nil {
			if n := c.a.Lin.lenOf(v.e[0].s); n != nil {
				return []Out{{res: n}}, true
			}
		}
		if v.e[0].k == KTok {
			return []Out{{res: tok("len(" + v.e[0].s + ")")}}, true
		}
	case "Field":
		if s := isStruct(v.t); s != nil && len(c.args) > 1 {
			if i, ok := c.args[1].intVal(); ok && int(i) < s.NumFields() {
				ft := s.Field(int(i)).Type()
				if !types.IsInterface(ft) {
					return []Out{{res: &Val{k: KRVal, t: ft, e: []*Val{top}}}}, true
				}
			}
		}
	case "NumField":
		if s := isStruct(v.t); s != nil {
			return []Out{{res: vInt(int64(s.NumFields()))}}, true
		}
	case "IsValid":
		return []Out{{res: vTrue}}, true
	case "Convert":
		if len(c.args) > 1 {
			t := c.args[1]
			if t.k == KIface {
				t = t.e[0]
			}
			if t.k == KRType {
				return []Out{{res: &Val{k: KRVal, t: t.t, e: []*Val{top}}}}, true
			}
		}
	}
	return []Out{{}}, true
}

func modelRType(c *Call, v *Val, m string) ([]Out, bool) {
	if v.k == KIface {
		v = v.e[0]
	}
	if v.k != KRType {
		return []Out{{}}, true
	}
	switch m {
	case "Kind":
		if k, ok := kindOf(v.t); ok {
			return []Out{{res: vInt(k)}}, true
		}
	case "Elem":
		if e := elemOf(v.t); e != nil {
			return []Out{{res: &Val{k: KRType, t: e}}}, true
		}
	case "Name":
		switch t := types.Unalias(v.t).(type) {
		case *types.Named:
			return []Out{{res: vStr(t.Obj().Name())}}, true
		case *types.Basic:
			return []Out{{res: vStr(t.Name())}}, true
		default:
			return []Out{{res: vStr("")}}, true
		}
	case "NumField":
		if s := isStruct(v.t); s != nil {
			return []Out{{res: vInt(int64(s.NumFields()))}}, true
		}
	case "Size":
		if b, ok := v.t.Underlying().(*types.Basic); ok {
			return []Out{{res: vInt(types.SizesFor("gc", "amd64").Sizeof(b))}}, true
		}
	case "Len":
		if a, ok := v.t.Underlying().(*types.Array); ok {
			return []Out{{res: vInt(a.Len())}}, true
		}
	}
	return []Out{{}}, true
}

// mayThrow says whether a function of the module may panic with a thrown error (or any explicit
// panic), looking through calls and through deferred recovery.
func (p *Prog) mayThrow(f *ssa.Function) bool {
	if p.throws == nil {
		p.throws = map[*ssa.Function]bool{}
		recovers := func(f *ssa.Function) bool {
			// a deferred RecoverError in the entry block
			for _, in := range f.Blocks[0].Instrs {
				if d, ok := in.(*ssa.Defer); ok {
					if g := d.Call.StaticCallee(); g != nil && shortFn(g) == "thrower.RecoverError" {
						return true
					}
				}
			}
			return false
		}
		all := append([]*ssa.Function(nil), p.funcs...)
		if p.thr != nil {
			for _, m := range p.thr.Members {
				if g, ok := m.(*ssa.Function); ok && g.Blocks != nil {
					all = append(all, g)
				}
			}
		}
		for changed := true; changed; {
			changed = false
			for _, g := range all {
				if p.throws[g] || len(g.Blocks) == 0 || p.inModule(g) && recovers(g) {
					continue
				}
				if shortFn(g) == "thrower.RecoverError" {
					continue
				}
				hit := false
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						switch x := in.(type) {
						case *ssa.Panic:
							hit = true
						case ssa.CallInstruction:
							for _, h := range p.callees(x.Common()) {
								if p.throws[h] {
									hit = true
								}
							}
						}
					}
				}
				if hit {
					p.throws[g] = true
					changed = true
				}
			}
		}
	}
	return p.throws[f]
}
