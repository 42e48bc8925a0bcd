package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Obj is an abstract object. Objs are immutable once in a Mem; every change makes a copy.
type Obj struct {
	zero     bool // cells that are not listed hold the zero value
	complete bool // (maps) entries that are not listed are absent
	multi    bool // stands for several objects: updates are weak
	typ      types.Type
	ep       string // epoch: changes when unknown code may have written the object
	cells    map[string]*Val
	key      string
}

func (o *Obj) clone() *Obj {
	n := *o
	n.key = ""
	n.cells = make(map[string]*Val, len(o.cells)+1)
	for k, v := range o.cells {
		n.cells[k] = v
	}
	return &n
}

func (o *Obj) Key() string {
	if o.key == "" {
		ks := make([]string, 0, len(o.cells))
		for k := range o.cells {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var b strings.Builder
		if o.zero {
			b.WriteString("z")
		}
		if o.complete {
			b.WriteString("c")
		}
		if o.multi {
			b.WriteString("m")
		}
		b.WriteString(o.ep + ":")
		for _, k := range ks {
			b.WriteString(k)
			b.WriteString("=")
			b.WriteString(o.cells[k].Key())
			b.WriteString(";")
		}
		o.key = b.String()
	}
	return o.key
}

type Mem map[string]*Obj

func (m Mem) clone() Mem {
	n := make(Mem, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (m Mem) Key() string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(k)
		b.WriteString("{")
		b.WriteString(m[k].Key())
		b.WriteString("}")
	}
	return b.String()
}

// typeAt follows a path of fields and elements from a type.
func typeAt(t types.Type, path string) types.Type {
	for path != "" {
		if t == nil {
			return nil
		}
		switch path[0] {
		case '.':
			end := strings.IndexAny(path[1:], ".[{")
			var n string
			if end < 0 {
				n, path = path[1:], ""
			} else {
				n, path = path[1:1+end], path[1+end:]
			}
			i, err := strconv.Atoi(n)
			st, ok := t.Underlying().(*types.Struct)
			if err != nil || !ok || i >= st.NumFields() {
				return nil
			}
			t = st.Field(i).Type()
		case '[':
			end := strings.IndexByte(path, ']')
			path = path[end+1:]
			switch u := t.Underlying().(type) {
			case *types.Array:
				t = u.Elem()
			case *types.Slice:
				t = u.Elem()
			default:
				return nil
			}
		case '{':
			end := strings.LastIndexByte(path, '}')
			path = path[end+1:]
			m, ok := t.Underlying().(*types.Map)
			if !ok {
				return nil
			}
			t = m.Elem()
		default:
			return nil
		}
	}
	return t
}

// defVal is the value of a cell that is not listed.
func (o *Obj) defVal(id, path string) *Val {
	if o.zero {
		t := typeAt(o.typ, path)
		if t == nil {
			return top
		}
		return zero(t)
	}
	if strings.Contains(path, "[*]") || strings.Contains(path, "{*}") {
		return top
	}
	return tok("u<" + id + path + "@" + o.ep + ">")
}

// get reads one cell (not a struct).
func (o *Obj) get(id, path string) *Val {
	if v, ok := o.cells[path]; ok {
		return v
	}
	// a prefix may hold a whole value
	if strings.Contains(path, "[") {
		i := strings.LastIndexByte(path, '[')
		j := strings.IndexByte(path[i:], ']') + i
		pre, idx, post := path[:i], path[i+1:j], path[j+1:]
		if idx == "*" {
			// join of everything that may be in the array
			var acc *Val
			n := 0
			for p, v := range o.cells {
				if strings.HasPrefix(p, pre+"[") && strings.HasSuffix(p, "]"+post) && !strings.ContainsAny(p[len(pre)+1:len(p)-len(post)-1], ".[") {
					if acc == nil {
						acc = v
					} else {
						acc = join(acc, v)
					}
					n++
				}
			}
			full := false
			if at := typeAt(o.typ, pre); at != nil {
				if arr, ok := at.Underlying().(*types.Array); ok && int64(n) >= arr.Len() {
					full = true
				}
			}
			if acc == nil {
				return o.defVal(id, path)
			}
			if full {
				return acc
			}
			return join(acc, o.defVal(id, path))
		}
		if v, ok := o.cells[pre+"[*]"+post]; ok {
			return join(v, o.defVal(id, path))
		}
	}
	return o.defVal(id, path)
}

func isStruct(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func baseIDs(s string, out map[string]bool) {
	// base identifiers are r<...> and A<...>, possibly nested in other names
	for i := 0; i+1 < len(s); i++ {
		if (s[i] == 'r' || s[i] == 'A') && s[i+1] == '<' {
			j := strings.IndexByte(s[i:], '>')
			if j > 0 {
				out[s[i:i+j+1]] = true
			}
		}
	}
}

func (v *Val) ids(out map[string]bool) {
	if v == nil {
		return
	}
	if v.s != "" {
		baseIDs(v.s, out)
	}
	for _, x := range v.e {
		x.ids(out)
	}
}

func (v *Val) rename(r *strings.Replacer) *Val {
	if v == nil {
		return v
	}
	n := *v
	ch := false
	if v.s != "" && (v.k == KTok || v.k == KPtr || v.k == KSlice || v.k == KMap) {
		if s := r.Replace(v.s); s != v.s {
			n.s = s
			ch = true
		}
	}
	if len(v.e) > 0 {
		e := make([]*Val, len(v.e))
		ec := false
		for i, x := range v.e {
			e[i] = x.rename(r)
			if e[i] != x {
				ec = true
			}
		}
		if ec {
			n.e = e
			ch = true
		}
	}
	if !ch {
		return v
	}
	n.key = ""
	return &n
}

// reach computes the ids of the objects reachable from values.
func (m Mem) reach(vals []*Val, out map[string]bool) {
	var visitObj func(id string)
	var visit func(v *Val)
	visit = func(v *Val) {
		if v == nil {
			return
		}
		switch v.k {
		case KTok:
			visitObj("P<" + v.s + ">")
		case KPtr, KSlice, KMap:
			visitObj(v.s)
		}
		for _, x := range v.e {
			visit(x)
		}
	}
	visitObj = func(id string) {
		if out[id] {
			return
		}
		out[id] = true
		o := m[id]
		if o == nil {
			return
		}
		for _, c := range o.cells {
			visit(c)
		}
	}
	for _, v := range vals {
		visit(v)
	}
	// objects named after cells of reachable objects: P<u<obj.path@ep>>
	for changed := true; changed; {
		changed = false
		for id := range m {
			if out[id] || !strings.HasPrefix(id, "P<u<") {
				continue
			}
			inner := id[4:]
			for o := range out {
				if strings.HasPrefix(inner, o) && len(inner) > len(o) && strings.IndexByte(".[{@", inner[len(o)]) >= 0 {
					visitObj(id)
					changed = true
					break
				}
			}
		}
	}
}
