package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C02: what is missing at the end of a fixed-size CDF variable reads as its fill value.

func init() {
	rules["C02"] = ruleC02
}

// The default fill values of the format, by type code, as they are in a file.
var cdfFill = map[int64][]byte{
	1:  {0x81},
	2:  {0},
	3:  {0x80, 0x01},
	4:  {0x80, 0, 0, 1},
	5:  {0x7c, 0xf0, 0, 0},
	6:  {0x47, 0x9e, 0, 0, 0, 0, 0, 0},
	7:  {0xff},
	8:  {0xff, 0xff},
	9:  {0xff, 0xff, 0xff, 0xff},
	10: {0x80, 0, 0, 0, 0, 0, 0, 2},
	11: {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe},
}

// Readers that are made of others: structs of types that only the rule has.
var multiReaderT, limitReaderT = readerType("multi", 0), readerType("limit", 0)

func readerType(name string, _ int) types.Type {
	return types.NewNamed(types.NewTypeName(token.NoPos, nil, "verif"+name, nil), types.NewStruct(nil, nil), nil)
}

// leaves lists the readers that a reader reads from, one after the other.
func (p *Prog) leaves(st *State, v *Val) ([]*Val, bool) {
	if v.k != KIface {
		return []*Val{v}, v.k == KTok || v.k == KNonNil || v.k == KPtr
	}
	switch v.t {
	case multiReaderT:
		var out []*Val
		for _, x := range v.e[0].e {
			l, ok := p.leaves(st, x)
			if !ok {
				return nil, false
			}
			out = append(out, l...)
		}
		return out, true
	case limitReaderT:
		return p.leaves(st, v.e[0].e[0])
	}
	if t := derefType(v.t); t != nil && namedIs(t, "io.LimitedReader") && v.e[0].k == KPtr {
		if o := st.mem[v.e[0].s]; o != nil {
			return p.leaves(st, o.get(v.e[0].s, v.e[0].p+".0"))
		}
	}
	return []*Val{v}, true
}

type fillCase struct {
	p    *Prog
	r    *Report
	what string
	e    *Emit
	user *Val // the attribute's value (nil: there is none)
	want []*Val
	size int64
	seen int
}

func (w *fillCase) hook(c *Call) ([]Out, bool) {
	a, st := c.a, c.st
	switch {
	case strings.HasSuffix(c.name, ".Get") && len(c.args) == 2:
		if s, ok := c.args[1].strVal(); ok {
			if s == "_FillValue" && w.user != nil {
				return []Out{{res: vTuple(w.user, vTrue)}}, true
			}
			if s == "_FillValue" {
				return []Out{{res: vTuple(vNil, vFalse)}}, true
			}
		}
	case c.name == "io.MultiReader" && len(c.args) == 1 && c.args[0].k == KSlice:
		n, ok1 := c.args[0].e[1].intVal()
		off, ok2 := c.args[0].e[0].intVal()
		if !ok1 || !ok2 || n > 8 {
			return nil, false
		}
		var es []*Val
		for i := int64(0); i < n; i++ {
			es = append(es, a.obj(st, c.args[0].s, nil).get(c.args[0].s, fmt.Sprintf("%s[%d]", c.args[0].p, off+i)))
		}
		return []Out{{res: vIface(multiReaderT, &Val{k: KStruct, e: es})}}, true
	case c.name == "io.LimitReader" && len(c.args) == 2:
		return []Out{{res: vIface(limitReaderT, &Val{k: KStruct, e: []*Val{c.args[0], c.args[1]}})}}, true
	case c.name == "math.Float32frombits" || c.name == "math.Float64frombits":
		if n, ok := bitsOf(c.args[0]); ok {
			f := math.Float64frombits(n)
			if strings.Contains(c.name, "32") {
				f = float64(math.Float32frombits(uint32(n)))
			}
			if v := constant.MakeFloat64(f); v.Kind() == constant.Float {
				return []Out{{res: &Val{k: KConst, c: v}}}, true
			}
		}
	case c.name == "math.Float32bits" || c.name == "math.Float64bits":
		v := c.args[0]
		if v.k == KTok && strings.HasPrefix(v.s, "d!float") {
			return []Out{{res: tok(strings.Replace(v.s, "d!float", "d!uint", 1))}}, true
		}
		if v.isConst() {
			f, _ := constant.Float64Val(v.c)
			n := math.Float64bits(f)
			if strings.Contains(c.name, "32") {
				n = uint64(math.Float32bits(float32(f)))
			}
			return []Out{{res: &Val{k: KConst, c: constant.MakeUint64(n)}}}, true
		}
	case c.name == "encoding/binary.Read" && len(c.args) == 3, c.name == "io.ReadFull" && len(c.args) == 2:
		w.read(c)
		s := st.clone()
		a.havoc(s, c.args, a.site(c.site))
		res := vNil
		if c.name == "io.ReadFull" {
			res = vTuple(top, vNil)
		}
		return []Out{{res: res, st: s, prop: s.prop}}, true
	}
	return w.e.hook(c)
}

var dataType = regexp.MustCompile(`d!u?(int|float)(\d*)`)

// sameByte compares bytes, whatever type the number that they are of was given.
func sameByte(x, y *Val) bool {
	if x.k == KTok && y.k == KTok {
		norm := func(s string) string {
			s = dataType.ReplaceAllString(s, "d!$2")
			if !strings.HasPrefix(s, "y!") {
				s = "y!0:" + s
			}
			return s
		}
		return norm(x.s) == norm(y.s)
	}
	return x.Key() == y.Key()
}

// read checks the reader that data is read from.
func (w *fillCase) read(c *Call) {
	p, a := w.p, c.a
	pos := p.pos(c.site)
	ls, ok := p.leaves(c.st, c.args[0])
	if !ok || len(ls) == 0 {
		w.r.fail("fill value", w.what, pos, "undecided: it is not known what the data is read from")
		return
	}
	last := ls[len(ls)-1]
	f, recv := p.methodOf(last, "Read")
	if f == nil || !p.analysable(f) || len(ls) < 2 {
		w.r.fail("fill value", w.what, pos, "the data is not followed by fill values")
		return
	}
	for _, l := range ls[:len(ls)-1] {
		if g, _ := p.methodOf(l, "Read"); g == f {
			w.r.fail("fill value", w.what, pos, "there are fill values before the data")
		}
	}
	w.seen++
	// two reads, the first of which ends in the middle of a value
	bytesT := types.NewSlice(types.Typ[types.Uint8])
	buf := func(st *State, id string, n int) *Val {
		var e []*Val
		for range n {
			e = append(e, tok("old"))
		}
		return knownSlice(st, id, bytesT, e...)
	}
	st := c.st.clone()
	k := int64(0)
	states := []*State{st}
	for i, n := range []int{2*int(w.size) + 1, int(w.size), 0, 1, 3 * int(w.size)} {
		var next []*State
		for _, s := range states {
			id := fmt.Sprintf("K<fill%d>", i)
			b := buf(s, id, n)
			cc := *c
			cc.st = s
			outs := cc.through(f, recv, b)
			if len(outs) == 0 {
				w.r.fail("fill value", w.what, p.pos(f), "undecided: reading fill values cannot be followed")
			}
			for _, o := range outs {
				if o.panic != nil {
					w.r.fail("fill value", w.what, p.pos(f), "reading fill values panics")
					continue
				}
				if o.res.k != KTuple || o.res.e[1].nilness() != 1 || o.res.e[0].Key() != vInt(int64(n)).Key() {
					w.r.fail("fill value", w.what, p.pos(f), "reading %d bytes of fill values gives %s", n, o.res.Key())
					continue
				}
				m := o.st.mem[id]
				for j := int64(0); j < int64(n); j++ {
					got := m.get(id, fmt.Sprintf("[%d]", j))
					want := w.want[(k+j)%w.size]
					if !sameByte(got, want) {
						w.r.fail("fill value", w.what, p.pos(f), "byte %d of a fill value is %s instead of %s", (k+j)%w.size, showByte(got), showByte(want))
						return
					}
				}
				next = append(next, o.st)
			}
		}
		k += int64(n)
		states = next
	}
	_ = a
}

func showByte(v *Val) string {
	if n, ok := v.intVal(); ok {
		return fmt.Sprintf("%#02x", n)
	}
	return v.Key()
}

func ruleC02(p *Prog, r *Report) {
	r.explain("The function of the CDF package that gives access to a variable is interpreted abstractly with the type code of the variable and its shape given, without a fill-value attribute and with one whose value is not known, and then the methods that read values. Where the data is read, the reader has to read from the file first and then from a reader of the module; reading bytes from that one, in pieces that begin and end anywhere in a value, is interpreted too, and each byte has to be that byte of the fill value in the order of the file.")
	base := p.initBase()
	c := p.cdfCodes()
	r.check(len(c.fields) > 0, "anchor", "type code of a variable", "?", "no field of a struct is compared with the type codes of the format")
	n := 0
	for _, g := range p.ifaceMethods("netcdf/api", "Group", "GetVarGetter") {
		if !inPkg(g, "netcdf/cdf") {
			continue
		}
		for _, t := range cdfTypes {
			var def []*Val
			for _, b := range cdfFill[t.code] {
				def = append(def, vInt(int64(b)))
			}
			type task struct {
				what string
				user *Val
				want []*Val
			}
			tasks := []task{{"default", nil, def}}
			if t.elem == types.String {
				for _, b := range []byte{'x', 0, 0xff} {
					s := vStr(string([]byte{b}))
					tasks = append(tasks, task{fmt.Sprintf("attribute %q", []byte{b}), vIface(types.Typ[types.String], s), []*Val{vInt(int64(b))}})
				}
			} else {
				et := types.Typ[t.elem]
				v := tok("d!" + t.gone + ":fill")
				var bs []*Val
				for k := range t.size {
					bs = append(bs, tok(fmt.Sprintf("y!%d:%s", 8*(t.size-1-k), v.s)))
				}
				tasks = append(tasks, task{"attribute", vIface(et, v), bs})
			}
			for _, k := range tasks {
				for _, dims := range [][]int64{nil, {3}, {4, 2}} {
					what := fmt.Sprintf("%s of %d dimensions, %s", t.name, len(dims), k.what)
					r.obl("fill value", what)
					w := &fillCase{p: p, r: r, what: what, e: newEmit(), user: k.user, want: k.want, size: t.size}
					s := &cdfShape{c, t.code, dims, nil}
					a := newAn(p, base)
					a.PinField = s.pin
					a.Unroll, a.Recur, a.Fresh = 40, 6, true
					a.Lin = &Lin{lens: map[string]*Val{}}
					a.OnCall = w.hook
					a.OnMake = func(fr *Frame, x *ssa.MakeSlice, n *Val, st *State) *Val { return w.e.make(fr, x, n, st) }
					a.OnLoad = w.e.load
					a.OnStore = w.e.store
					ei := errResult(g)
					for _, e := range a.run(g, "w0", nil, nil) {
						if e.panic != nil || exitErr(e, ei) == -1 {
							continue
						}
						f, recv := p.methodOf(e.results[0], "Values")
						if f == nil {
							r.fail("undecided", what, p.pos(g), "the dynamic type of what the function returns is not known")
							continue
						}
						a.sequel(e, f, e.prop, recv)
						if len(dims) > 0 {
							if f, recv = p.methodOf(e.results[0], "GetSlice"); f != nil {
								a.sequel(e, f, e.prop, recv, vInt(1), vInt(2))
							}
						}
					}
					if w.seen == 0 {
						r.fail("fill value", what, p.pos(g), "no data is read")
					}
					r.cover(a)
					n++
				}
			}
		}
	}
	r.minimum("variables", n, 60)
}
