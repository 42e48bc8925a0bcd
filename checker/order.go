package main

import (
	"go/types"
	"sort"
	"strings"
)

// orderText is what strings are ordered by: strings that are not known by their names.
func orderText(v *Val) (string, bool) {
	if s, ok := v.strVal(); ok {
		return s, true
	}
	if isSym(v) {
		return v.s[2:], true
	}
	if n, ok := v.intVal(); ok {
		return strings.Repeat("0", 20-len(itoa(n))) + itoa(n), true
	}
	return "", false
}

// ordered models functions that list keys of maps and put lists in order. The order of strings
// that are not known is that of their names, and comparison functions of the program are not
// followed: a list stays as it is.
func (e *Emit) ordered(c *Call) ([]Out, bool) {
	a, st := c.a, c.st
	if a.Lin == nil || len(c.args) == 0 {
		return nil, false
	}
	arg := c.args[0]
	list := func(s *State, t types.Type, vs []*Val) []Out {
		id := a.alloc(s, c.site, t)
		o := s.mem[id].clone()
		for i, v := range vs {
			a.storeAt(o, id, "["+itoa(int64(i))+"]", v, t.Underlying().(*types.Slice).Elem())
		}
		s.mem[id] = o
		return []Out{{res: vSlice(id, "", vInt(0), vInt(int64(len(vs)))), st: s, prop: s.prop}}
	}
	inOrder := func(vs []*Val) bool {
		for _, v := range vs {
			if _, ok := orderText(v); !ok {
				return false
			}
		}
		sort.SliceStable(vs, func(i, j int) bool {
			x, _ := orderText(vs[i])
			y, _ := orderText(vs[j])
			return x < y
		})
		return true
	}
	switch c.name {
	case "maps.Keys":
		if arg.k == KNil {
			return []Out{{res: vTuple(vStr("seq"))}}, true
		}
		if arg.k == KMap {
			if ks, ok := a.mapKeys(st, arg); ok {
				return []Out{{res: vTuple(append([]*Val{vStr("seq")}, ks...)...)}}, true
			}
		}
	case "slices.Sorted", "slices.Collect", "slices.SortedFunc":
		if arg.k == KTuple && len(arg.e) > 0 {
			vs := append([]*Val(nil), arg.e[1:]...)
			if c.name == "slices.Sorted" && !inOrder(vs) {
				return nil, false
			}
			s := st.clone()
			return list(s, c.site.Value().Type(), vs), true
		}
	case "slices.Sort", "sort.Strings", "sort.Ints", "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		if arg.k == KIface {
			arg = arg.e[0]
		}
		if arg.k == KNil {
			return []Out{{res: vTuple()}}, true
		}
		if !strings.HasSuffix(c.name, "Sort") && c.name != "sort.Strings" && c.name != "sort.Ints" {
			return []Out{{res: vTuple()}}, true
		}
		if arg.k != KSlice {
			return nil, false
		}
		n, ok1 := arg.e[1].intVal()
		off, ok2 := arg.e[0].intVal()
		if !ok1 || !ok2 || n > 1000 {
			return nil, false
		}
		s := st.clone()
		o := a.obj(s, arg.s, nil).clone()
		var vs []*Val
		for i := int64(0); i < n; i++ {
			vs = append(vs, o.get(arg.s, arg.p+"["+itoa(off+i)+"]"))
		}
		if !inOrder(vs) {
			return nil, false
		}
		for i, v := range vs {
			o.cells[arg.p+"["+itoa(off+int64(i))+"]"] = v
		}
		s.mem[arg.s] = o
		return []Out{{res: vTuple(), st: s, prop: s.prop}}, true
	}
	return nil, false
}
