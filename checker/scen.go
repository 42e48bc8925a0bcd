package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ifaceMethods lists the module's implementations of a method of an interface of the module.
func (p *Prog) ifaceMethods(rel, iface, method string) []*ssa.Function {
	t := p.typ(rel, iface)
	if t == nil {
		return nil
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var m *types.Func
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == method {
			m = it.Method(i)
		}
	}
	if m == nil {
		return nil
	}
	out := p.implementers(t, m)
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// knownSlice makes a slice object with the given elements.
func knownSlice(st *State, id string, t types.Type, elems ...*Val) *Val {
	o := &Obj{zero: true, typ: t, cells: map[string]*Val{}}
	for i, e := range elems {
		o.cells["["+itoa(int64(i))+"]"] = e
	}
	st.mem[id] = o
	return vSlice(id, "", vInt(0), vInt(int64(len(elems))))
}

var stringSlice = types.NewSlice(types.Typ[types.String])

// scenario is a call of an entry point with partly known arguments.
type scenario struct {
	keys  []*Val // the attribute names of every attribute map (nil: unknown)
	value *Val   // and its value
	// values given to parameters by name of type
	pins func(c *Call) ([]Out, bool)
}

// hook answers the calls on attribute maps that the user supplied.
func (s *scenario) hook(c *Call) ([]Out, bool) {
	if s.pins != nil {
		if o, ok := s.pins(c); ok {
			return o, ok
		}
	}
	switch c.name {
	case "(api.AttributeMap).Keys":
		if s.keys != nil {
			return []Out{{res: knownSlice(c.st, "K<keys>", stringSlice, s.keys...)}}, true
		}
		return []Out{{res: tok("attrkeys")}}, true
	case "(api.AttributeMap).Get":
		if s.value != nil {
			return []Out{{res: vTuple(s.value, vTrue)}}, true
		}
		return []Out{{res: vTuple(tok("attrval"), tok("attrhas"))}}, true
	}
	return nil, false
}

// paramOf gives the index of the first parameter of a type (after the receiver), or -1.
func paramOf(f *ssa.Function, match func(t types.Type) bool) int {
	for i, prm := range f.Params {
		if i == 0 && f.Signature.Recv() != nil {
			continue
		}
		if match(prm.Type()) {
			return i
		}
	}
	return -1
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

func namedIs(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && shortName(n.Obj().Pkg().Path()+"."+n.Obj().Name()) == name
}

// variableArg makes an api.Variable with the given parts; nil parts are unknown.
func (p *Prog) variableArg(values, dims, attrs *Val) *Val {
	t := p.typ("netcdf/api", "Variable")
	s := isStruct(t)
	e := make([]*Val, s.NumFields())
	for i := range e {
		e[i] = tok("arg:vr." + s.Field(i).Name())
		switch s.Field(i).Name() {
		case "Values":
			if values != nil {
				e[i] = values
			}
		case "Dimensions":
			if dims != nil {
				e[i] = dims
			}
		case "Attributes":
			if attrs != nil {
				e[i] = attrs
			}
		}
	}
	return &Val{k: KStruct, t: t, e: e}
}

// run interprets an entry point.
func (a *An) run(f *ssa.Function, prop string, setup func(st *State), args map[int]*Val) []*Exit {
	st := newState()
	st.prop = prop
	if setup != nil {
		setup(st)
	}
	var av []*Val
	for i := range f.Params {
		name := "arg:" + f.Params[i].Name()
		v := tok(name)
		if i == 0 && f.Signature.Recv() != nil {
			st.nn[name] = true
		}
		if x, ok := args[i]; ok {
			v = x
		}
		av = append(av, v)
	}
	return a.call(st, f, av, nil, nil, 0, false)
}
