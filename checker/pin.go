package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value sets of single fields: a field read from a file is followed symbolically as the set of the
// values it may have, which every comparison with a constant splits. One run decides all its values.

// ivals is a sorted list of disjoint closed intervals.
type ivals [][2]uint64

func fullSet(bits int) ivals {
	if bits >= 64 {
		return ivals{{0, ^uint64(0)}}
	}
	return ivals{{0, 1<<uint(bits) - 1}}
}

func setOf(vs ...uint64) ivals {
	var s ivals
	for _, v := range vs {
		s = append(s, [2]uint64{v, v})
	}
	return s.norm()
}

func (s ivals) norm() ivals {
	t := append(ivals(nil), s...)
	sort.Slice(t, func(i, j int) bool { return t[i][0] < t[j][0] })
	var out ivals
	for _, x := range t {
		if n := len(out); n > 0 && (out[n-1][1] == ^uint64(0) || x[0] <= out[n-1][1]+1) {
			if x[1] > out[n-1][1] {
				out[n-1][1] = x[1]
			}
			continue
		}
		out = append(out, x)
	}
	return out
}

func (s ivals) String() string {
	var b strings.Builder
	for i, x := range s {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(strconv.FormatUint(x[0], 10))
		if x[1] != x[0] {
			b.WriteString("-" + strconv.FormatUint(x[1], 10))
		}
	}
	return b.String()
}

func parseSet(t string) ivals {
	var s ivals
	if t == "" {
		return s
	}
	for _, x := range strings.Split(t, ",") {
		lo, hi, ok := strings.Cut(x, "-")
		if !ok {
			hi = lo
		}
		a, _ := strconv.ParseUint(lo, 10, 64)
		b, _ := strconv.ParseUint(hi, 10, 64)
		s = append(s, [2]uint64{a, b})
	}
	return s
}

func (s ivals) size() uint64 {
	n := uint64(0)
	for _, x := range s {
		d := x[1] - x[0] + 1
		if d == 0 || n+d < n {
			return ^uint64(0)
		}
		n += d
	}
	return n
}

func (s ivals) has(v uint64) bool {
	for _, x := range s {
		if x[0] <= v && v <= x[1] {
			return true
		}
	}
	return false
}

func (s ivals) and(t ivals) ivals {
	var out ivals
	for _, x := range s {
		for _, y := range t {
			lo, hi := max(x[0], y[0]), min(x[1], y[1])
			if lo <= hi {
				out = append(out, [2]uint64{lo, hi})
			}
		}
	}
	return out.norm()
}

func (s ivals) not(bits int) ivals {
	var out ivals
	top := fullSet(bits)[0][1]
	next, done := uint64(0), false
	for _, x := range s.norm() {
		if x[0] > next {
			out = append(out, [2]uint64{next, x[0] - 1})
		}
		if x[1] >= top {
			done = true
			break
		}
		next = x[1] + 1
	}
	if !done {
		out = append(out, [2]uint64{next, top})
	}
	return out
}

func (s ivals) or(t ivals) ivals { return append(append(ivals(nil), s...), t...).norm() }

// minus gives the values of s that are not in t.
func (s ivals) minus(t ivals) ivals { return s.and(t.not(64)) }

// A field token is "v!<n>:<bits>" followed by operations "/<op><constant>".

func fieldTok(n, bits int) *Val { return tok(fmt.Sprintf("v!%d:%d", n, bits)) }

type fieldRef struct {
	n, bits int
	ops     []string
}

func parseField(v *Val) (fieldRef, bool) {
	if v.k != KTok || !strings.HasPrefix(v.s, "v!") {
		return fieldRef{}, false
	}
	parts := strings.Split(v.s[2:], "/")
	n, bits, _ := strings.Cut(parts[0], ":")
	f := fieldRef{ops: parts[1:]}
	f.n, _ = strconv.Atoi(n)
	f.bits, _ = strconv.Atoi(bits)
	return f, true
}

// eval applies the operations to a value of the field.
func (f fieldRef) eval(x uint64) (constant.Value, bool) {
	c := constant.MakeUint64(x)
	for _, o := range f.ops {
		i := strings.IndexByte(o, ' ')
		op, arg := o[:i], o[i+1:]
		if op == "conv" {
			for _, b := range types.Typ {
				if b.Name() == arg {
					r := convertConst(c, b)
					if !r.isConst() {
						return nil, false
					}
					c = r.c
				}
			}
			continue
		}
		k, _ := strconv.ParseInt(arg, 10, 64)
		if op == "tab" {
			c = fieldTables.vals[k][x]
			continue
		}
		t, _ := strconv.Atoi(op)
		r := safeBinary(token.Token(t), c, constant.MakeInt64(k), true)
		if r == nil {
			return nil, false
		}
		c = r
	}
	return c, true
}

// fieldTables has the functions of a small field that are not a chain of operations with constants.
var fieldTables struct {
	ids  map[string]int
	vals [][]constant.Value
}

// combineFields computes an operation on two values that depend on the same field.
func combineFields(in *ssa.BinOp, f, g fieldRef, st *State) *Val {
	s, ok := decodePin(st.prop)
	set, has := s.sets[f.n]
	if !ok || !has || f.bits > 16 {
		return nil
	}
	bt, _ := in.X.Type().Underlying().(*types.Basic)
	if bt == nil || bt.Info()&types.IsInteger == 0 {
		return nil
	}
	var key strings.Builder
	vals := make([]constant.Value, 1<<uint(f.bits))
	var yes ivals
	for v := range vals {
		a, ok1 := f.eval(uint64(v))
		b, ok2 := g.eval(uint64(v))
		if !ok1 || !ok2 {
			return nil
		}
		switch in.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if constant.Compare(a, in.Op, b) {
				yes = append(yes, [2]uint64{uint64(v), uint64(v)})
			}
			continue
		}
		c := safeBinary(in.Op, a, b, true)
		if c == nil {
			return nil
		}
		w := convertConst(c, in.Type())
		if !w.isConst() {
			return nil
		}
		vals[v] = w.c
		key.WriteString(w.c.ExactString() + ",")
	}
	if vals[0] == nil {
		t := set.and(yes.norm())
		switch {
		case len(t) == 0:
			return vBool(false)
		case t.String() == set.String():
			return vBool(true)
		}
		return tok("c!" + strconv.Itoa(f.n) + "=" + t.String())
	}
	if fieldTables.ids == nil {
		fieldTables.ids = map[string]int{}
	}
	id, ok := fieldTables.ids[key.String()]
	if !ok {
		id = len(fieldTables.vals)
		fieldTables.ids[key.String()] = id
		fieldTables.vals = append(fieldTables.vals, vals)
	}
	return tok(fmt.Sprintf("v!%d:%d/tab %d", f.n, f.bits, id))
}

// pick gives the subset of values for which the comparison with k holds.
func (f fieldRef) pick(s ivals, op token.Token, k constant.Value, swapped bool) (ivals, bool) {
	if len(f.ops) == 0 {
		k = constant.ToInt(k)
		if constant.Sign(k) < 0 {
			return nil, false
		}
		v, exact := constant.Uint64Val(k)
		if !exact {
			return nil, false
		}
		if swapped {
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		top := ^uint64(0)
		var t ivals
		switch op {
		case token.EQL:
			t = ivals{{v, v}}
		case token.NEQ:
			t = ivals{{v, v}}.not(64)
		case token.LSS:
			if v > 0 {
				t = ivals{{0, v - 1}}
			}
		case token.LEQ:
			t = ivals{{0, v}}
		case token.GTR:
			if v < top {
				t = ivals{{v + 1, top}}
			}
		case token.GEQ:
			t = ivals{{v, top}}
		}
		return s.and(t), true
	}
	if f.bits > 16 {
		return f.pickLinear(s, op, k, swapped)
	}
	if s.size() > 1<<16 {
		return nil, false
	}
	var out ivals
	for _, x := range s {
		for v := x[0]; ; v++ {
			c, ok := f.eval(v)
			if !ok {
				return nil, false
			}
			l, r := c, k
			if swapped {
				l, r = k, c
			}
			if constant.Compare(l, op, r) {
				out = append(out, [2]uint64{v, v})
			}
			if v == x[1] {
				break
			}
		}
	}
	return out.norm(), true
}

// A piece is a range of values of a field on which a function of it is the value plus an offset.
type piece struct{ lo, hi, off *big.Int }

// linear gives the pieces of a function made of conversions and sums with constants.
func (f fieldRef) linear(s ivals) ([]piece, bool) {
	var ps []piece
	for _, x := range s {
		ps = append(ps, piece{new(big.Int).SetUint64(x[0]), new(big.Int).SetUint64(x[1]), new(big.Int)})
	}
	for _, o := range f.ops {
		i := strings.IndexByte(o, ' ')
		op, arg := o[:i], o[i+1:]
		if op != "conv" {
			t, _ := strconv.Atoi(op)
			k, ok := new(big.Int).SetString(arg, 10)
			if !ok || token.Token(t) != token.ADD && token.Token(t) != token.SUB {
				return nil, false
			}
			if token.Token(t) == token.SUB {
				k.Neg(k)
			}
			for i := range ps {
				ps[i].off = new(big.Int).Add(ps[i].off, k)
			}
			continue
		}
		var bt *types.Basic
		for _, b := range types.Typ {
			if b.Name() == arg {
				bt = b
			}
		}
		if bt == nil || bt.Info()&types.IsInteger == 0 {
			return nil, false
		}
		bits, signed := intSize(bt)
		mod := new(big.Int).Lsh(big.NewInt(1), uint(bits))
		min := new(big.Int)
		if signed {
			min.Neg(new(big.Int).Rsh(mod, 1))
		}
		var out []piece
		for _, p := range ps {
			lo := p.lo
			for lo.Cmp(p.hi) <= 0 {
				// the number of times the modulus fits into the value above the minimum
				v := new(big.Int).Add(lo, p.off)
				q := new(big.Int).Div(new(big.Int).Sub(v, min), mod) // rounds down: the modulus is positive
				shift := new(big.Int).Mul(q, mod)
				end := new(big.Int).Add(min, shift)
				end.Add(end, mod).Sub(end, big.NewInt(1)).Sub(end, p.off)
				if end.Cmp(p.hi) > 0 {
					end = p.hi
				}
				out = append(out, piece{lo, end, new(big.Int).Sub(p.off, shift)})
				if len(out) > 64 {
					return nil, false
				}
				lo = new(big.Int).Add(end, big.NewInt(1))
			}
		}
		ps = out
	}
	return ps, true
}

func (f fieldRef) pickLinear(s ivals, op token.Token, k constant.Value, swapped bool) (ivals, bool) {
	ps, ok := f.linear(s)
	if !ok {
		return nil, false
	}
	kb, ok := new(big.Int).SetString(constant.ToInt(k).ExactString(), 10)
	if !ok {
		return nil, false
	}
	if swapped {
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	one := big.NewInt(1)
	var out ivals
	add := func(p piece, lo, hi *big.Int) {
		if lo == nil || lo.Cmp(p.lo) < 0 {
			lo = p.lo
		}
		if hi == nil || hi.Cmp(p.hi) > 0 {
			hi = p.hi
		}
		if lo.Cmp(hi) <= 0 {
			out = append(out, [2]uint64{lo.Uint64(), hi.Uint64()})
		}
	}
	for _, p := range ps {
		x := new(big.Int).Sub(kb, p.off) // the value for which the function is k
		below, above := new(big.Int).Sub(x, one), new(big.Int).Add(x, one)
		switch op {
		case token.EQL:
			add(p, x, x)
		case token.NEQ:
			add(p, nil, below)
			add(p, above, nil)
		case token.LSS:
			add(p, nil, below)
		case token.LEQ:
			add(p, nil, x)
		case token.GTR:
			add(p, above, nil)
		case token.GEQ:
			add(p, x, nil)
		}
	}
	return out.norm(), true
}

// ---- plans ----

// A step describes some bytes of the format: unknown ones, a field with a given value, or one whose
// values are followed.
type step struct {
	size  int
	val   *int64
	track bool
	name  string
	set   ivals // of a tracked field: the values that are of interest (nil: all)
	tok   *Val  // or: this value
}

// only restricts a tracked field to some values.
func (s step) only(vs ...uint64) step {
	s.set = setOf(vs...)
	return s
}

func skipBytes(n int) step             { return step{size: n} }
func track(name string, size int) step { return step{track: true, name: name, size: size} }
func want(v int64, size int) step      { return step{val: &v, size: size} }

// A pinRun interprets a function; after the start event the bytes that are read one after the
// other are treated as the plan says. The property state is "" before the start, then
// "T<bytes read>;<field>=<set>..." with the sets of the tracked fields, then "X" for abandoned paths.
type pinRun struct {
	p      *Prog
	base   Mem
	f      *ssa.Function
	steps  []step
	alt    []step // another layout of the same bytes
	big    bool   // numbers are big-endian
	fresh  bool   // objects made by the same instruction are told apart
	args   map[int]*Val
	unroll int
	stop   func(g *ssa.Function) bool // functions that are not looked into

	// start events
	sig      string // the comparison with this signature, answered as equal
	differs  bool   // ... as unequal
	atOnce   bool
	waiting  bool               // count bytes from the beginning, but accept only after the dispatch
	dispatch map[ssa.Value]bool // comparison of these values
	msg      int64              // with this one
	trackMsg bool               // or: the value itself is followed
	loopHead *ssa.BasicBlock    // executed again: the message was accepted

	hashes   map[*ssa.Function]bool
	onCall   func(c *Call, sets map[string]ivals) ([]Out, bool)
	survived map[string]ssa.Instruction
	ran      bool // the start event happened
	an       *An
	stack    []*ssa.Function // calls in progress when the first field was read
}

type pinState struct {
	off  int  // bytes read since the start; -1: not known, or past the last field
	hit  bool // the start event happened
	sets map[int]ivals
}

func (q *pinRun) names() []string {
	var out []string
	if q.trackMsg {
		out = append(out, "type")
	}
	for _, s := range append(append([]step{}, q.steps...), q.alt...) {
		known := false
		for _, n := range out {
			known = known || n == s.name
		}
		if s.track && !known {
			out = append(out, s.name)
		}
	}
	return out
}

func (q *pinRun) index(name string) int {
	for i, n := range q.names() {
		if n == name {
			return i
		}
	}
	return -1
}

func decodePin(prop string) (pinState, bool) {
	if !strings.HasPrefix(prop, "T") && !strings.HasPrefix(prop, "W") {
		return pinState{}, false
	}
	parts := strings.Split(prop[1:], ";")
	s := pinState{sets: map[int]ivals{}, hit: prop[0] == 'T'}
	s.off, _ = strconv.Atoi(parts[0])
	for _, x := range parts[1:] {
		n, v, _ := strings.Cut(x, "=")
		i, _ := strconv.Atoi(n)
		s.sets[i] = parseSet(v)
	}
	return s, true
}

func (s pinState) encode() string {
	out := "W"
	if s.hit {
		out = "T"
	}
	out += strconv.Itoa(s.off)
	var ks []int
	for k := range s.sets {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		out += ";" + strconv.Itoa(k) + "=" + s.sets[k].String()
	}
	return out
}

// sets names the sets of a state.
func (q *pinRun) sets(prop string) map[string]ivals {
	out := map[string]ivals{}
	s, ok := decodePin(prop)
	if !ok {
		return out
	}
	for i, n := range q.names() {
		if x, ok := s.sets[i]; ok {
			out[n] = x
		}
	}
	return out
}

// planEnd is the offset after the last field of the plan.
func (q *pinRun) planEnd() int {
	end := 0
	for _, plan := range [][]step{q.steps, q.alt} {
		o := 0
		for _, s := range plan {
			o += s.size
		}
		end = max(end, o)
	}
	return end
}

// advance moves on in the file by n bytes (negative: not known how many).
func (q *pinRun) advance(st *State, n int64) {
	s, on := decodePin(st.prop)
	if !on || s.off < 0 {
		return
	}
	s.off += int(n)
	if n < 0 || n > 1<<20 || s.off >= q.planEnd() {
		s.off = -1
	}
	st.prop = s.encode()
}

// next gives the value of the next scalar that is read.
func (q *pinRun) next(elem types.Type, st *State) *Val {
	b, ok := elem.Underlying().(*types.Basic)
	if !ok {
		q.advance(st, -1)
		return nil
	}
	bits, signed := intSize(b)
	if b.Kind() == types.Bool {
		bits = 8
	}
	s, on := decodePin(st.prop)
	if !on || s.off < 0 {
		return nil
	}
	if q.stack == nil && q.an != nil {
		q.stack = append([]*ssa.Function{}, q.an.stack...)
	}
	if bits == 0 {
		q.advance(st, -1)
		return nil
	}
	var v *Val
	for _, plan := range [][]step{q.steps, q.alt} {
		o := 0
		for _, sp := range plan {
			if o == s.off && sp.size*8 == bits && v == nil {
				switch {
				case sp.tok != nil:
					v = sp.tok
				case sp.val != nil:
					v = convertConst(constant.MakeInt64(*sp.val), elem)
				case sp.track:
					i := q.index(sp.name)
					if _, has := s.sets[i]; has {
						break
					}
					v = fieldTok(i, bits)
					if signed {
						v = tok(v.s + "/conv " + b.Name())
					}
					s.sets[i] = fullSet(bits)
					if sp.set != nil {
						s.sets[i] = sp.set
					}
				}
			}
			o += sp.size
		}
	}
	if v == nil {
		// a part of a field with a given value, or several of them at once
		v = q.combined(s.off, bits/8, elem)
	}
	st.prop = s.encode()
	q.advance(st, int64(bits/8))
	return v
}

func (q *pinRun) combined(off, n int, elem types.Type) *Val {
	x := uint64(0)
	got := 0
	o := 0
	for _, sp := range q.steps {
		for k := 0; k < sp.size; k++ {
			if at := o + k - off; sp.val != nil && at >= 0 && at < n && n <= 8 {
				from, to := k, at
				if q.big {
					from, to = sp.size-1-k, n-1-at
				}
				x |= (uint64(*sp.val) >> (8 * uint(from)) & 0xff) << (8 * uint(to))
				got++
			}
		}
		o += sp.size
	}
	if got != n {
		return nil
	}
	return convertConst(constant.MakeUint64(x), elem)
}

func (q *pinRun) start(st *State) {
	q.ran = true
	s := pinState{hit: true, sets: map[int]ivals{}}
	if q.trackMsg {
		s.sets[0] = fullSet(16)
	}
	st.prop = s.encode()
}

func (q *pinRun) run(r *Report) []*Exit {
	a := newAn(q.p, q.base)
	a.Frees = true
	a.Unroll = q.unroll
	a.Fresh = q.fresh
	q.an = a
	q.survived = map[string]ssa.Instruction{}
	a.Inline = func(g *ssa.Function) bool { return g == q.f || q.stop == nil || !q.stop(g) }
	a.OnCall = func(c *Call) ([]Out, bool) {
		if c.callee != nil && q.hashes[c.callee] {
			return []Out{{res: tok("hash!")}}, true
		}
		if q.onCall != nil {
			if o, ok := q.onCall(c, q.sets(c.st.prop)); ok {
				return o, ok
			}
		}
		switch c.name {
		case "io.CopyN":
			if len(c.args) > 2 {
				n, ok := c.args[2].intVal()
				if !ok {
					n = -1
				}
				st := c.st.clone()
				c.a.havoc(st, c.args[:2], c.a.site(c.site))
				q.advance(st, n)
				return []Out{{st: st, res: vTuple(c.args[2], vNil)}}, true
			}
		}
		return readModel(c, q)
	}
	if q.loopHead != nil {
		a.OnInstr = func(fr *Frame, in ssa.Instruction, st *State) {
			if in.Block() == q.loopHead && strings.HasPrefix(st.prop, "T") {
				q.survived[st.prop] = in
				st.prop = "X"
			}
		}
	}
	a.Cut = func(prop string) bool { return prop == "X" }
	a.OnSplit = func(st *State, name string, truth bool) bool { return q.split(st, name, truth) }
	a.OnField = true
	a.OnCmp = func(fr *Frame, in *ssa.BinOp, x, y *Val, st *State) *Val {
		if q.dispatch[in.X] || q.dispatch[in.Y] {
			if q.trackMsg {
				if st.prop == "" {
					q.start(st)
				}
				if q.dispatch[in.X] {
					x = fieldTok(0, 16)
				} else {
					y = fieldTok(0, 16)
				}
			} else {
				m := convertConst(constant.MakeInt64(q.msg), in.X.Type())
				if q.dispatch[in.X] {
					x = m
				} else {
					y = m
				}
				v := fr.a.binop(st, in, x, y)
				if b, ok := v.boolVal(); ok && b == (in.Op == token.EQL) && (in.Op == token.EQL || in.Op == token.NEQ) {
					if s, on := decodePin(st.prop); on && !s.hit {
						s.hit = true
						q.ran = true
						st.prop = s.encode()
					} else if st.prop == "" {
						q.start(st)
					}
				}
				return v
			}
		}
		if q.sig != "" && (in.Op == token.EQL || in.Op == token.NEQ) {
			isSig := func(v *Val) bool {
				s, ok := v.strVal()
				return ok && s == q.sig
			}
			if isSig(x) != isSig(y) {
				if st.prop == "" {
					q.start(st)
				}
				return vBool((in.Op == token.EQL) != q.differs)
			}
		}
		isH := func(v *Val) bool { return v.k == KTok && v.s == "hash!" }
		if isH(x) != isH(y) {
			return vBool(in.Op == token.EQL)
		}
		return fieldOp(in, x, y, st)
	}
	prop := ""
	if q.atOnce || q.waiting {
		s := pinState{hit: q.atOnce, sets: map[int]ivals{}}
		prop = s.encode()
		q.ran = q.atOnce
	}
	var ex []*Exit
	if len(q.args) > 0 {
		ex = a.run(q.f, prop, nil, q.args)
	} else {
		ex = a.entry(q.f, prop)
	}
	r.cover(a)
	if a.over {
		r.fail("undecided", shortFn(q.f), q.p.pos(q.f), "the analysis exceeded its budget")
	}
	for _, e := range ex {
		if e.panic == nil && strings.HasPrefix(e.prop, "T") {
			q.survived[e.prop] = e.at
		}
	}
	return ex
}

// fieldString compares a string of known bytes and one that is a tracked field with a constant.
func fieldString(in *ssa.BinOp, x, y *Val, st *State) *Val {
	s, ok := y.strVal()
	if !ok || x.k != KTok || !strings.HasPrefix(x.s, "fs!") || in.Op != token.EQL && in.Op != token.NEQ {
		return nil
	}
	parts := strings.Split(x.s[3:], ",")
	no := vBool(in.Op == token.NEQ)
	if len(parts) != len(s) {
		return no
	}
	var v *Val
	for i, b := range parts {
		if _, isF := parseField(tok(b)); isF {
			f, _ := parseField(tok(b))
			ps, has := decodePin(st.prop)
			set, known := ps.sets[f.n]
			if !has || !known {
				return nil
			}
			t, can := f.pick(set, in.Op, constant.MakeInt64(int64(s[i])), false)
			if !can {
				return nil
			}
			switch {
			case len(t) == 0:
				v = vBool(false)
			case t.String() == set.String():
				v = vBool(true)
			default:
				v = tok("c!" + strconv.Itoa(f.n) + "=" + t.String())
			}
		} else if b != strconv.Itoa(int(s[i])) {
			return no
		}
	}
	return v
}

// fieldStruct compares structs (or arrays) that have tracked fields in them: the outcome is "c&"
// followed by what has to hold of each field, or "c|" for the opposite.
func fieldStruct(in *ssa.BinOp, x, y *Val, st *State) *Val {
	if x.k != KStruct || y.k != KStruct || len(x.e) != len(y.e) || in.Op != token.EQL && in.Op != token.NEQ {
		return nil
	}
	one := *in
	one.Op = token.EQL
	var conds []string
	for i := range x.e {
		v := fieldOp(&one, x.e[i], y.e[i], st)
		if v == nil && x.e[i].isConst() && y.e[i].isConst() {
			v = vBool(x.e[i].Key() == y.e[i].Key())
		}
		if v == nil {
			return nil
		}
		if b, ok := v.boolVal(); ok {
			if !b {
				return vBool(in.Op == token.NEQ)
			}
			continue
		}
		switch {
		case strings.HasPrefix(v.s, "c!"):
			conds = append(conds, v.s)
		case strings.HasPrefix(v.s, "c&"):
			conds = append(conds, strings.Split(v.s[2:], "&")...)
		default:
			return nil
		}
	}
	switch {
	case len(conds) == 0:
		return vBool(in.Op == token.EQL)
	case in.Op == token.EQL:
		return tok("c&" + strings.Join(conds, "&"))
	}
	return tok("c|" + strings.Join(conds, "&"))
}

// fieldOp answers operations on tracked fields.
func fieldOp(in *ssa.BinOp, x, y *Val, st *State) *Val {
	if v := fieldString(in, x, y, st); v != nil {
		return v
	}
	if v := fieldString(in, y, x, st); v != nil {
		return v
	}
	if v := fieldStruct(in, x, y, st); v != nil {
		return v
	}
	fx, okx := parseField(x)
	fy, oky := parseField(y)
	if okx && oky && fx.n == fy.n && fx.bits == fy.bits {
		return combineFields(in, fx, fy, st)
	}
	if okx == oky {
		return nil
	}
	swapped := oky
	f, k := fx, y
	ftok := x
	if swapped {
		f, _ = parseField(y)
		k, ftok = x, y
	}
	if !k.isConst() || k.c.Kind() != constant.Int {
		return nil
	}
	s, ok := decodePin(st.prop)
	switch in.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if _, has := s.sets[f.n]; !ok || !has {
			return nil
		}
		t, ok := f.pick(s.sets[f.n], in.Op, k.c, swapped)
		if !ok {
			return nil
		}
		switch {
		case len(t) == 0:
			return vBool(false)
		case t.String() == s.sets[f.n].String():
			return vBool(true)
		}
		return tok("c!" + strconv.Itoa(f.n) + "=" + t.String())
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.AND_NOT:
		if swapped {
			switch in.Op {
			case token.AND, token.OR, token.XOR, token.ADD, token.MUL:
			default:
				return nil
			}
		}
		kv, exact := constant.Int64Val(k.c)
		if !exact || f.bits > 16 && in.Op != token.ADD && (in.Op != token.SUB || swapped) {
			return nil
		}
		b, _ := in.Type().Underlying().(*types.Basic)
		if b == nil {
			return nil
		}
		return tok(ftok.s + "/" + strconv.Itoa(int(in.Op)) + " " + strconv.FormatInt(kv, 10) + "/conv " + b.Name())
	}
	return nil
}

// split refines the sets of a state by the outcome of a comparison; false: not possible.
func (q *pinRun) split(st *State, name string, truth bool) bool {
	if strings.HasPrefix(name, "c&") || strings.HasPrefix(name, "c|") {
		conds := strings.Split(name[2:], "&")
		if truth == (name[1] == '&') {
			for _, c := range conds {
				if !q.split(st, c, true) {
					return false
				}
			}
			return true
		}
		// one of them does not hold; which one is known only if there is only one
		return len(conds) != 1 || q.split(st, conds[0], false)
	}
	if !strings.HasPrefix(name, "c!") {
		return true
	}
	n, set, _ := strings.Cut(name[2:], "=")
	i, _ := strconv.Atoi(n)
	s, ok := decodePin(st.prop)
	if _, has := s.sets[i]; !ok || !has {
		return true
	}
	t := parseSet(set)
	if truth {
		s.sets[i] = s.sets[i].and(t)
	} else {
		s.sets[i] = s.sets[i].minus(t)
	}
	if len(s.sets[i]) == 0 {
		return false
	}
	st.prop = s.encode()
	return true
}

// accepted gives the union of the values of a tracked field over the accepting paths; read tells
// whether the field was read on all (or, loose, any) of them.
func (q *pinRun) accepted(name string) (set ivals, unread ssa.Instruction, read bool) {
	idx := q.index(name)
	for prop, at := range q.survived {
		s, _ := decodePin(prop)
		if x, has := s.sets[idx]; has {
			set = set.or(x)
			read = true
		} else {
			unread = at
		}
	}
	return
}
