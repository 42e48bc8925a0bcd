package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C06: malformed CDF headers are rejected.

func init() {
	rules["C06"] = ruleC06
}

// A cdfHeader is a header as the format specifies it, one number after the other. One of the numbers
// can be left open: it then is any value of a set.
type cdfHeader struct {
	v     int64
	steps []step
	open  string // the number that is left open
	set   ivals  // its values
	bits  int    // its size
}

func (h *cdfHeader) put(name string, v int64, size int) {
	s := want(v, size)
	if name != "" && name == h.open {
		s = track(name, size)
		s.set = h.set
		h.bits = 8 * size
	}
	h.steps = append(h.steps, s)
}

// num is a number whose width depends on the version.
func (h *cdfHeader) num(name string, v int64) {
	if h.v == 5 {
		h.put(name, v, 8)
	} else {
		h.put(name, v, 4)
	}
}

func (h *cdfHeader) name(where, s string) {
	h.num(where+" name length", int64(len(s)))
	for i := 0; i < (len(s)+3)/4*4; i++ {
		c := byte(0)
		if i < len(s) {
			c = s[i]
		}
		h.put("", int64(c), 1)
	}
}

func (h *cdfHeader) list(name string, tag, n int64) {
	if n == 0 {
		tag = 0
	}
	h.put(name+" tag", tag, 4)
	h.num(name+" count", n)
}

func (h *cdfHeader) attr(where, name string, ty, n, size int64) {
	h.name(where, name)
	h.put(where+" type", ty, 4)
	h.num(where+" number of values", n)
	for i := int64(0); i < n; i++ {
		h.put("", 7, int(size))
	}
	for i := n * size; i%4 != 0; i++ {
		h.put("", 0, 1)
	}
}

func (h *cdfHeader) variable(where, name string, ids []int64, ty int64) {
	h.name(where, name)
	h.num(where+" number of dimensions", int64(len(ids)))
	for i, id := range ids {
		h.num(fmt.Sprintf("%s dimension %d", where, i), id)
	}
	if h.open == where+" number of dimensions" {
		return // what follows is not known
	}
	h.list(where+" attributes", 12, 1)
	h.attr(where+" attribute", "u", 4, 0, 4)
	h.put(where+" type", ty, 4)
	h.num(where+" size", 24)
	if h.v == 1 {
		h.put(where+" begin", 200, 4)
	} else {
		h.put(where+" begin", 200, 8)
	}
}

// cdfFile builds the header of a file with dimensions r (records), x and y.
func cdfFile(v int64, open string, set ivals, dims, attrs, vars int) *cdfHeader {
	h := &cdfHeader{v: v, open: open, set: set}
	h.put("magic 0", 'C', 1)
	h.put("magic 1", 'D', 1)
	h.put("magic 2", 'F', 1)
	h.put("version", v, 1)
	h.num("number of records", 2)
	h.list("dimensions", 10, int64(dims))
	for i := 0; i < dims; i++ {
		h.name("dimension", string("xyr"[i]))
		h.num("dimension length", []int64{3, 2, 0}[i])
	}
	h.list("attributes", 12, int64(attrs))
	for i := 0; i < attrs; i++ {
		if open == "attribute number of values" {
			h.attr("attribute", "a", 4, 1, 4)
		} else {
			h.attr("attribute", "a", 4, 0, 4)
		}
	}
	h.list("variables", 11, int64(vars))
	if vars > 0 {
		h.variable("variable", "v", []int64{0, 1}, 4)
	}
	if vars > 1 {
		h.variable("record variable", "w", []int64{2, 1}, 4)
	}
	return h
}

// The length of the file in the scenarios.
const cdfFileSize = 1000

func (p *Prog) cdfOpen(r *Report, base Mem, f *ssa.Function, h *cdfHeader) *pinRun {
	q := &pinRun{p: p, base: base, f: f, steps: h.steps, unroll: 40, atOnce: true, big: true, fresh: true}
	q.onCall = func(c *Call, sets map[string]ivals) ([]Out, bool) {
		if strings.HasSuffix(c.name, ".Seek") && len(c.args) == 3 {
			n, ok := c.args[1].intVal()
			w, ok2 := c.args[2].intVal()
			if ok && ok2 && w == 2 {
				return []Out{{res: vTuple(vInt(cdfFileSize+n), vNil)}}, true
			}
			return []Out{{res: vTuple(c.args[1], vNil)}}, true
		}
		return nil, false
	}
	return q
}

// opened tells whether the interpretation of opening a file found paths that end without an error.
func (q *pinRun) opened(r *Report, ei int) (ok []*Exit) {
	for _, e := range q.run(r) {
		if e.panic == nil && exitErr(e, ei) != -1 && strings.HasPrefix(e.prop, "T") {
			ok = append(ok, e)
		}
	}
	return ok
}

func ruleC06(p *Prog, r *Report) {
	r.explain("The exported functions of the CDF package that open a file from a reader are interpreted abstractly on headers of the format's three versions in which one number at a time is left open: it is the set of all its values, and every comparison of it divides the set. The values that are left on the paths that end without an error have to be ones that the format allows there, and at least one has to be. What reads values is interpreted in the same way for the type codes that do not exist.")
	base := p.initBase()
	n := 0
	all32, all64 := fullSet(32), fullSet(64)
	for _, f := range p.readerOpeners("netcdf/cdf") {
		ei := errResult(f)
		type task struct {
			open             string
			set              ivals // values that are tried
			ok               ivals // values that are allowed
			dims, attrs, vrs int
			must             bool // some value has to be accepted
		}
		for _, v := range []int64{1, 2, 5} {
			all := all32
			big := ivals{{cdfFileSize + 1, all32[0][1]}}
			minus := uint64(1)<<32 - 1
			if v == 5 {
				all = all64
				big = ivals{{cdfFileSize + 1, all64[0][1]}}
				minus = ^uint64(0)
			}
			codes := ivals{{1, 6}}
			if v == 5 {
				codes = ivals{{1, 11}}
			}
			many := ivals{{1025, all[0][1]}}
			tasks := []task{
				{"magic 0", fullSet(8), setOf('C'), 0, 0, 0, true},
				{"magic 1", fullSet(8), setOf('D'), 0, 0, 0, true},
				{"magic 2", fullSet(8), setOf('F'), 0, 0, 0, true},
				{"version", fullSet(8).minus(setOf(1, 2, 5).minus(setOf(uint64(v)))), setOf(uint64(v)), 0, 0, 0, true},
				{"number of records", setOf(minus), nil, 0, 0, 0, false},
				{"dimensions tag", all32, setOf(0, 10), 0, 0, 0, true},
				{"dimensions tag", all32, setOf(10), 2, 0, 0, true},
				{"attributes tag", all32, setOf(0, 12), 0, 0, 0, true},
				{"attributes tag", all32, setOf(12), 0, 1, 0, true},
				{"variables tag", all32, setOf(0, 11), 0, 0, 0, true},
				{"variables tag", all32, setOf(11), 2, 0, 1, true},
				{"variable attributes tag", all32, setOf(12), 2, 0, 1, true},
				{"dimensions count", many, nil, 1, 0, 0, false},
				{"dimension name length", big, nil, 1, 0, 0, false},
				{"attribute name length", big, nil, 0, 1, 0, false},
				{"attribute type", all32, codes, 0, 1, 0, true},
				{"attribute number of values", big, nil, 0, 1, 0, false},
				{"variable name length", big, nil, 2, 0, 1, false},
				{"variable number of dimensions", many, nil, 2, 0, 1, false},
				{"variable dimension 0", all, ivals{{0, 1}}, 2, 0, 1, true},
				{"variable dimension 1", all, ivals{{0, 1}}, 2, 0, 1, true},
				{"variable dimension 0", all, ivals{{0, 2}}, 3, 0, 1, true},
				{"variable attribute type", all32, codes, 2, 0, 1, true},
				{"record variable type", all32, ivals{{1, 11}}, 3, 0, 2, true},
				{"record variable dimension 1", all, ivals{{0, 2}}, 3, 0, 2, true},
			}
			for _, t := range tasks {
				h := cdfFile(v, t.open, t.set, t.dims, t.attrs, t.vrs)
				what := fmt.Sprintf("version %d, %s (%d dimensions, %d variables)", v, t.open, t.dims, t.vrs)
				r.obl("header", what)
				q := p.cdfOpen(r, base, f, h)
				var got ivals
				var at ssa.Instruction
				unread := false
				for _, e := range q.opened(r, ei) {
					x, has := q.sets(e.prop)[t.open]
					if !has {
						unread = true
					}
					got = got.or(x)
					if len(x.minus(t.ok)) > 0 {
						at = e.at
					}
				}
				if bad := got.minus(t.ok); len(bad) > 0 {
					r.fail("header", what, p.pos(at), "a file in which this is %s is opened", shortSet(bad))
				}
				if unread {
					r.fail("header", what, p.pos(f), "a file is opened without this having been read")
				}
				if no := t.ok.minus(got); t.must && len(no) > 0 {
					r.fail("header", what, p.pos(f), "no file in which this is %s is opened", shortSet(no))
				}
				n++
			}
			// an absent list has no elements
			for _, l := range []string{"dimensions", "attributes", "variables"} {
				h := cdfFile(v, l+" count", all.minus(setOf(0)), 0, 0, 0)
				what := fmt.Sprintf("version %d, %s with a count but absent", v, l)
				r.obl("header", what)
				q := p.cdfOpen(r, base, f, h)
				for _, e := range q.opened(r, ei) {
					r.fail("header", what, p.pos(e.at), "such a file is opened")
				}
				n++
			}
			// names of variables
			for _, same := range []bool{false, true} {
				h := cdfFile(v, "", nil, 2, 0, 0)
				h.steps = h.steps[:len(h.steps)-2]
				h.list("variables", 11, 2)
				h.variable("variable", "v", []int64{0}, 4)
				second := "w"
				if same {
					second = "v"
				}
				h.variable("variable", second, []int64{1}, 4)
				what := fmt.Sprintf("version %d, two variables", v)
				if same {
					what += " of the same name"
				}
				r.obl("header", what)
				q := p.cdfOpen(r, base, f, h)
				ok := q.opened(r, ei)
				if same && len(ok) > 0 {
					r.fail("header", what, p.pos(ok[0].at), "such a file is opened")
				} else if !same && len(ok) == 0 {
					r.fail("header", what, p.pos(f), "such a file is not opened")
				}
				n++
			}
		}
	}
	r.minimum("headers", n, 70)
	// using a variable
	c := p.cdfCodes()
	for _, g := range p.ifaceMethods("netcdf/api", "Group", "GetVarGetter") {
		if !inPkg(g, "netcdf/cdf") {
			continue
		}
		p.cdfUse(r, base, c, g, "a variable of a type that does not exist", fieldTok(0, 32), []int64{4, 3})
		p.cdfUse(r, base, c, g, "a scalar of a type that does not exist", fieldTok(0, 32), nil)
		p.cdfUse(r, base, c, g, "a variable whose second dimension is unlimited", vInt(4), []int64{4, 0})
	}
}

func shortSet(s ivals) string {
	t := s.String()
	if len(t) > 60 {
		t = t[:60] + "..."
	}
	return t
}

// cdfUse interprets the use of a variable, which has to be an error.
func (p *Prog) cdfUse(r *Report, base Mem, c *cdfCodes, g *ssa.Function, what string, code *Val, dims []int64) {
	r.obl("use", what)
	s := &cdfShape{c, 0, dims, nil}
	q := &pinRun{p: p, base: base, f: g}
	a := newAn(p, base)
	a.Unroll, a.Recur = 12, 6
	a.PinField = func(st *State, t *types.Struct, i int, v *Val) *Val {
		if c.fields[fieldKey{t, i}] {
			return code
		}
		return s.pin(st, t, i, v)
	}
	a.OnCall = func(c *Call) ([]Out, bool) { return readModel(c, nil) }
	a.OnCmp = func(fr *Frame, in *ssa.BinOp, x, y *Val, st *State) *Val { return fieldOp(in, x, y, st) }
	a.OnSplit = func(st *State, name string, truth bool) bool { return q.split(st, name, truth) }
	a.OnField = true
	st := pinState{hit: true, off: -1, sets: map[int]ivals{0: ivals{{1, 11}}.not(32)}}
	ei := errResult(g)
	for _, e := range a.run(g, st.encode(), nil, nil) {
		if e.panic != nil || exitErr(e, ei) == -1 {
			continue
		}
		for _, m := range []string{"Values", "GetSlice"} {
			f, recv := p.methodOf(e.results[0], m)
			if f == nil {
				r.fail("undecided", what+" "+m, p.pos(g), "the dynamic type of what the function returns is not known")
				continue
			}
			args := []*Val{recv}
			if m == "GetSlice" {
				args = append(args, vInt(0), vInt(1))
			}
			for _, x := range a.sequel(e, f, e.prop, args...) {
				if x.panic != nil {
					r.fail("use", what+" "+m, p.pos(x.at), "this panics")
				} else if exitErr(x, errResult(f)) != -1 {
					r.fail("use", what+" "+m, p.pos(x.at), "this has values")
				}
			}
		}
	}
	r.cover(a)
}

// readerOpeners finds the functions of a package that open a file that they are given.
func (p *Prog) readerOpeners(rel string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.apiFuncs() {
		if !inPkg(f, rel) || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() || f.Signature.Params().Len() == 0 {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() == 2 && namedIs(rs.At(0).Type(), "api.Group") && types.IsInterface(f.Signature.Params().At(0).Type()) {
			out = append(out, f)
		}
	}
	return out
}
