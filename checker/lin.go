package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Lin is a domain of polynomials with integer coefficients over unknown integers that are not
// negative. Lengths are given as c + k*q: all the lengths that leave the rest c modulo k. Sums,
// products and roundings of them to multiples of k stay exact. Numbers are taken to fit their
// types. Values are tokens "n!...".
//
// With it, tokens "s!..." are strings that differ from one another and from all constants.
type Lin struct {
	lens  map[string]*Val   // lengths of strings
	rest  int64             // the rest modulo mod (1 to mod) of the lengths of other strings
	mod   int64             // 4 if not given
	cats  map[string][]*Val // parts of strings that were put together
	conds map[string]linCond
	Conds bool  // comparisons that are not decided are named
	k     int64 // over 0: the unknown integers are k-1 instead
}

type linCond struct {
	op   string
	x, y *Val
}

type poly map[string]int64 // by monomial; "" is the constant

func polyOf(v *Val) (poly, bool) {
	if n, ok := v.intVal(); ok {
		return poly{"": n}, true
	}
	if v.k == KTok && strings.HasPrefix(v.s, "y!0:n!") {
		v = tok(v.s[4:])
	}
	if v.k != KTok || !strings.HasPrefix(v.s, "n!") {
		return nil, false
	}
	p := poly{}
	for _, t := range strings.Split(v.s[2:], "|") {
		m, c, _ := strings.Cut(t, "*")
		n, err := strconv.ParseInt(c, 10, 64)
		if err != nil {
			return nil, false
		}
		p[m] = n
	}
	return p, true
}

func (p poly) val() *Val {
	var ks []string
	for k, c := range p {
		if c != 0 && k != "" {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return vInt(p[""])
	}
	sort.Strings(ks)
	s := "n!*" + strconv.FormatInt(p[""], 10)
	for _, k := range ks {
		s += "|" + k + "*" + strconv.FormatInt(p[k], 10)
	}
	return tok(s)
}

func (p poly) add(q poly, f int64) poly {
	r := poly{}
	for k, c := range p {
		r[k] += c
	}
	for k, c := range q {
		r[k] += f * c
	}
	return r
}

func (p poly) mul(q poly) poly {
	r := poly{}
	for k, c := range p {
		for l, d := range q {
			var m []string
			for _, s := range []string{k, l} {
				if s != "" {
					m = append(m, strings.Split(s, "&")...)
				}
			}
			sort.Strings(m)
			r[strings.Join(m, "&")] += c * d
		}
	}
	return r
}

// sign gives a bound when all unknown terms have one sign: 1 (at least the constant), -1 (at
// most), 0 (exactly) or 2 (not known).
func (p poly) sign() int {
	s := 0
	for k, c := range p {
		if k == "" || c == 0 {
			continue
		}
		t := 1
		if c < 0 {
			t = -1
		}
		if s != 0 && s != t {
			return 2
		}
		s = t
	}
	return s
}

// split separates the terms that are multiples of k, if that leaves only a constant.
func (p poly) split(k int64) (poly, int64, bool) {
	r := poly{}
	for m, c := range p {
		if m == "" {
			continue
		}
		if c%k != 0 {
			return nil, 0, false
		}
		r[m] = c
	}
	return r, p[""], true
}

func polyVal(c int64, coef int64, atom string) *Val { return poly{"": c, atom: coef}.val() }

// lenOf gives the length of a string.
func (l *Lin) lenOf(name string) *Val {
	if v := l.lens[name]; v != nil {
		return v
	}
	if ps := l.cats[name]; ps != nil {
		n := poly{}
		for _, p := range ps {
			m := l.lenOfVal(p)
			q, ok := polyOf(m)
			if !ok {
				return nil
			}
			n = n.add(q, 1)
		}
		return n.val()
	}
	if strings.HasPrefix(name, "s!") {
		m := l.mod
		if m == 0 {
			m = 4
		}
		return l.pin(polyVal(l.rest, m, "L:"+linName(name)))
	}
	return nil
}

func (l *Lin) lenOfVal(v *Val) *Val {
	if s, ok := v.strVal(); ok {
		return vInt(int64(len(s)))
	}
	if v.k == KTok {
		if n := l.lenOf(v.s); n != nil {
			return n
		}
	}
	return top
}

// cat puts strings together.
func (l *Lin) cat(x, y *Val) *Val {
	var ps []*Val
	for _, v := range []*Val{x, y} {
		if s, ok := v.strVal(); ok && s == "" {
			continue
		}
		if q := l.cats[v.s]; v.k == KTok && q != nil {
			ps = append(ps, q...)
		} else {
			ps = append(ps, v)
		}
	}
	if len(ps) == 1 {
		return ps[0]
	}
	k := "s!cat"
	for _, p := range ps {
		k += "(" + linName(p.Key()) + ")"
	}
	if l.cats == nil {
		l.cats = map[string][]*Val{}
	}
	l.cats[k] = ps
	return tok(k)
}

// stringItems gives the bytes of a string.
func (l *Lin) stringItems(v *Val) []*emitItem {
	if s, ok := v.strVal(); ok {
		return []*emitItem{{kind: 'x', bytes: []byte(s)}}
	}
	if ps := l.cats[v.s]; ps != nil {
		var out []*emitItem
		for _, p := range ps {
			out = append(out, l.stringItems(p)...)
		}
		return out
	}
	n := l.lenOf(v.s)
	if k, ok := n.intVal(); ok && k == 0 {
		return nil
	}
	return []*emitItem{{kind: 's', size: 1, val: v, n: n}}
}

var linNames = strings.NewReplacer("|", "/", "&", "/", "*", "/")

func linName(s string) string { return linNames.Replace(s) }

// pin gives the unknown parts of a length their value, if they have one.
func (l *Lin) pin(v *Val) *Val {
	p, ok := polyOf(v)
	if !ok || l.k == 0 {
		return v
	}
	n := int64(0)
	for m, c := range p {
		if m != "" {
			for range strings.Split(m, "&") {
				c *= l.k - 1
			}
		}
		n += c
	}
	return vInt(n)
}

func isSym(v *Val) bool { return v.k == KTok && strings.HasPrefix(v.s, "s!") }

// binop gives the result of an operation (nil: not known here).
func (l *Lin) binop(op token.Token, x, y *Val, t types.Type) *Val {
	if op == token.EQL || op == token.NEQ {
		sx, sy := isSym(x), isSym(y)
		_, cx := x.strVal()
		_, cy := y.strVal()
		if sy && cx {
			x, y, sx, sy = y, x, sy, sx
			cx, cy = cy, cx
		}
		if c, _ := y.strVal(); sx && cy && c == "" {
			if n := l.lenOf(x.s); n.isConst() {
				k, _ := n.intVal()
				return vBool((k == 0) == (op == token.EQL))
			} else {
				return l.binop(op, n, vInt(0), types.Typ[types.Int])
			}
		}
		if sx && sy || sx && cy {
			return vBool((sx && sy && x.s == y.s) == (op == token.EQL))
		}
	}
	if x.isConst() && y.isConst() {
		return nil
	}
	if op == token.ADD {
		_, cx := x.strVal()
		_, cy := y.strVal()
		if (isSym(x) || cx) && (isSym(y) || cy) {
			return l.cat(x, y)
		}
	}
	// the bytes of a number: "h!24:X" is X without its low 24 bits, "y!24:X" the lowest byte of that
	if n, ok := y.intVal(); ok && x.k == KTok {
		sh, num := bytesOf(x)
		if op == token.SHR && n >= 0 && n < 64 && n%8 == 0 && num != "" && (!strings.HasPrefix(num, "n!") || sh > 0 || n > 0) && isInteger(t) && !strings.HasPrefix(x.s, "y!") {
			if n == 0 {
				return x
			}
			return tok("h!" + itoa(sh+n) + ":" + num)
		}
		if op == token.AND && n == 255 && num != "" && !strings.HasPrefix(x.s, "y!") {
			return tok("y!" + itoa(sh) + ":" + num)
		}
	}
	p, ok1 := polyOf(x)
	q, ok2 := polyOf(y)
	if !ok1 || !ok2 {
		return nil
	}
	pow2 := func(n int64) bool { return n > 0 && n&(n-1) == 0 }
	yc, yConst := y.intVal()
	switch op {
	case token.ADD:
		return p.add(q, 1).val()
	case token.SUB:
		return p.add(q, -1).val()
	case token.MUL:
		return p.mul(q).val()
	case token.SHL:
		if yConst && yc >= 0 && yc < 32 {
			return p.mul(poly{"": 1 << uint(yc)}).val()
		}
	case token.QUO, token.REM, token.SHR:
		if !yConst || p.sign() != 1 && p.sign() != 0 || p[""] < 0 {
			return nil
		}
		k := yc
		if op == token.SHR {
			if yc < 0 || yc > 30 {
				return nil
			}
			k = 1 << uint(yc)
		}
		if k <= 0 {
			return nil
		}
		r, c, ok := p.split(k)
		if !ok {
			return nil
		}
		if op == token.REM {
			return vInt(c % k)
		}
		for m := range r {
			r[m] /= k
		}
		r[""] = c / k
		return r.val()
	case token.AND, token.AND_NOT:
		if !yConst {
			if op == token.AND && x.isConst() {
				return l.binop(op, y, x, t)
			}
			return nil
		}
		if op == token.AND_NOT {
			yc = ^yc
		}
		switch {
		case pow2(yc + 1): // the low bits
			if _, c, ok := p.split(yc + 1); ok {
				return vInt(c & yc)
			}
		case pow2(-yc): // all but the low bits
			if r, c, ok := p.split(-yc); ok {
				r[""] = c & yc
				return r.val()
			}
		}
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		d := p.add(q, -1)
		lo, hi := false, false // the difference has a lower, an upper bound
		switch d.sign() {
		case 0:
			lo, hi = true, true
		case 1:
			lo = true
		case -1:
			hi = true
		}
		c := d[""]
		res := func(yes, no bool) *Val {
			if yes {
				return vTrue
			}
			if no {
				return vFalse
			}
			if l.Conds {
				if l.conds == nil {
					l.conds = map[string]linCond{}
				}
				k := "q!" + op.String() + "!" + x.Key() + "!" + y.Key()
				l.conds[k] = linCond{op.String(), x, y}
				return tok(k)
			}
			return nil
		}
		switch op {
		case token.EQL:
			return res(lo && hi && c == 0, lo && c > 0 || hi && c < 0)
		case token.NEQ:
			return res(lo && c > 0 || hi && c < 0, lo && hi && c == 0)
		case token.LSS:
			return res(hi && c < 0, lo && c >= 0)
		case token.LEQ:
			return res(hi && c <= 0, lo && c > 0)
		case token.GTR:
			return res(lo && c > 0, hi && c <= 0)
		case token.GEQ:
			return res(lo && c >= 0, hi && c < 0)
		}
	}
	return nil
}

// convert keeps numbers, and makes the bytes of strings.
func (l *Lin) convert(a *An, st *State, v *Val, from, to types.Type) *Val {
	if sh, num := bytesOf(v); num != "" && !strings.HasPrefix(v.s, "y!") {
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if n, _ := intSize(b); n == 8 && numSize(from) > 1 {
				return tok("y!" + itoa(sh) + ":" + num)
			}
			if sh > 0 {
				return v
			}
		}
	} else if num != "" && isInteger(to) && isInteger(from) {
		return v
	}
	if _, ok := polyOf(v); ok && !v.isConst() {
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if fb, ok := from.Underlying().(*types.Basic); ok && fb.Info()&types.IsInteger != 0 {
				// a narrow value that is made wide again has lost its upper part
				tn, _ := intSize(b)
				if fn, _ := intSize(fb); fn <= 32 && tn > 32 {
					return tok("narrowed<" + itoa(int64(fn)) + ":" + v.s + ">")
				}
			}
			return v
		}
	}
	if v.k == KTok && isString(from) {
		if s, ok := to.Underlying().(*types.Slice); ok && isByte(s.Elem()) {
			if n := l.lenOf(v.s); n != nil {
				id := "P<" + v.s + ">"
				a.obj(st, id, to)
				return vSlice(id, "", vInt(0), n)
			}
		}
		if isString(to) {
			return v
		}
	}
	// another type for a value that the rule gave
	if v.k == KTok && strings.HasPrefix(v.s, "d!") {
		tb, ok1 := to.Underlying().(*types.Basic)
		fb, ok2 := from.Underlying().(*types.Basic)
		if ok1 && ok2 && tb.Info()&types.IsNumeric != 0 {
			if tb.Kind() == fb.Kind() {
				return v
			}
			// "d!T:name" is a value of type T; a conversion to wider types and back keeps it
			t, n := dataTok(v)
			if tb.Kind() == types.Int64 || tb.Kind() == types.Uint64 || tb.Kind() == types.Float64 {
				if fb.Kind() == types.Float64 == (tb.Kind() == types.Float64) || fb.Kind() == types.Float32 && tb.Kind() == types.Float64 {
					return v
				}
			}
			name := types.Typ[tb.Kind()].Name() // not "byte"
			if t == name || sameBits(t, name) {
				return v
			}
			return tok("d!" + name + ":" + t + "(" + n + ")")
		}
	}
	return nil
}

// bytesOf gives the number that a value is the upper part of, and how much of it is gone.
func bytesOf(v *Val) (int64, string) {
	if v.k != KTok || len(v.s) < 3 {
		return 0, ""
	}
	switch v.s[:2] {
	case "h!", "y!":
		s, n, ok := strings.Cut(v.s[2:], ":")
		sh, err := strconv.ParseInt(s, 10, 64)
		if !ok || err != nil {
			return 0, ""
		}
		return sh, n
	case "n!":
		return 0, v.s
	case "d!":
		if t, _ := dataTok(v); strings.Contains(t, "int") {
			return 0, v.s
		}
	}
	return 0, ""
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// dataTok gives the type and name of a value "d!T:name".
func dataTok(v *Val) (string, string) {
	t, n, _ := strings.Cut(strings.TrimPrefix(v.s, "d!"), ":")
	return t, n
}

// sameBits says that integers of two types have the same bits.
func sameBits(a, b string) bool {
	return strings.TrimPrefix(a, "u") == strings.TrimPrefix(b, "u") && strings.Contains(a, "int") && strings.Contains(b, "int")
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// sprintf is a string that depends on what it is made of.
func (l *Lin) sprintf(a *An, st *State, format *Val, args *Val) *Val {
	f, ok := format.strVal()
	if !ok || args.k != KSlice {
		return nil
	}
	n, ok := args.e[1].intVal()
	off, ok2 := args.e[0].intVal()
	if !ok || !ok2 || n > 4 {
		return nil
	}
	o := a.obj(st, args.s, nil)
	var known []interface{}
	for i := int64(0); i < n; i++ {
		e := o.get(args.s, args.p+"["+itoa(off+i)+"]")
		if e.k == KIface && isInteger(e.t) {
			if k, ok := e.e[0].intVal(); ok {
				known = append(known, k)
			}
		} else if e.k == KIface {
			if k, ok := e.e[0].strVal(); ok {
				known = append(known, k)
			}
		}
	}
	if int64(len(known)) == n {
		return vStr(fmt.Sprintf(f, known...))
	}
	s := "s!" + f
	for i := int64(0); i < n; i++ {
		e := o.get(args.s, args.p+"["+itoa(off+i)+"]")
		if e.k == KIface {
			e = e.e[0]
		}
		switch {
		case isSym(e):
			s += ";" + e.s[2:]
		case e.isConst() && e.c.Kind() != constant.Unknown:
			s += ";" + e.c.ExactString()
		default:
			return nil
		}
	}
	return tok(s)
}
