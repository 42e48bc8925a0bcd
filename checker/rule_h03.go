package main

import (
	"go/constant"
	"go/token"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// H03: versions of structures and messages.

func init() {
	rules["H03"] = ruleH03
}

// dispatchValues finds the value that says what kind of message an object header contains: the one that
// is compared with the constants of the message types. It returns the value where it originates, and
// every value that is a copy of it.
func (p *Prog) messageDispatch() (ssa.Value, map[ssa.Value]bool) {
	types := map[int64]bool{1: true, 2: true, 3: true, 5: true, 6: true, 8: true, 0xb: true, 0xc: true, 0x10: true, 0x11: true, 0x15: true}
	reads := p.reachingCalls(func(n string) bool { return n == "encoding/binary.Read" || n == "io.ReadFull" })
	seen := map[ssa.Value]map[int64]bool{}
	origin := func(v ssa.Value) ssa.Value {
		for i := 0; i < 20; i++ {
			switch x := v.(type) {
			case *ssa.Convert:
				v = x.X
				continue
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.Parameter:
				cs := p.callersOf(x.Parent())
				if len(cs) != 1 {
					return v
				}
				k := -1
				for j, prm := range x.Parent().Params {
					if prm == x {
						k = j
					}
				}
				args := cs[0].site.Common().Args
				if cs[0].site.Common().IsInvoke() || k < 0 || k >= len(args) {
					return v
				}
				v = args[k]
				continue
			}
			break
		}
		return v
	}
	copies := map[ssa.Value]map[ssa.Value]bool{}
	for _, f := range p.funcs {
		if !reads[f] || !inPkg(f, "netcdf/hdf5") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.BinOp)
				if !ok || x.Op != token.EQL && x.Op != token.NEQ {
					continue
				}
				for _, o := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
					k, ok := o[1].(*ssa.Const)
					if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
						continue
					}
					v, _ := constant.Int64Val(k.Value)
					if !types[v] {
						continue
					}
					og := origin(o[0])
					if seen[og] == nil {
						seen[og] = map[int64]bool{}
						copies[og] = map[ssa.Value]bool{}
					}
					seen[og][v] = true
					copies[og][o[0]] = true
				}
			}
		}
	}
	var best ssa.Value
	for v, s := range seen {
		if len(s) >= 8 && (best == nil || len(s) > len(seen[best])) {
			best = v
		}
	}
	if best == nil {
		return nil, nil
	}
	copies[best][best] = true
	return best, copies[best]
}

func parentOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case ssa.Instruction:
		return x.Parent()
	case *ssa.Parameter:
		return x.Parent()
	}
	return nil
}

// pinSetup is what the rules on fields of the HDF5 format share.
type pinSetup struct {
	*sigSetup
	disp   ssa.Value
	copies map[ssa.Value]bool
	dispFn *ssa.Function
}

func (p *Prog) pinSetup(r *Report) *pinSetup {
	s := &pinSetup{sigSetup: p.sigSetup(r)}
	s.disp, s.copies = p.messageDispatch()
	if s.disp == nil {
		r.fail("anchor", "message dispatch", "netcdf/hdf5", "no value is compared with the message types of an object header")
		return s
	}
	s.dispFn = parentOf(s.disp)
	return s
}

func (s *pinSetup) pin(p *Prog) *pinRun {
	q := &pinRun{p: p, base: s.base, hashes: s.hashes, unroll: 3}
	q.stop = func(g *ssa.Function) bool { return len(s.roots[g]) > 0 || g == s.dispFn }
	return q
}

// message prepares the interpretation of one message.
func (s *pinSetup) message(p *Prog, msg int64, steps ...step) *pinRun {
	q := s.pin(p)
	q.f, q.dispatch, q.msg, q.steps = s.dispFn, s.copies, msg, steps
	if in, ok := s.disp.(ssa.Instruction); ok {
		q.loopHead = in.Block()
	}
	return q
}

// structure prepares the interpretation of a structure with a signature.
func (s *pinSetup) structure(p *Prog, x sigSite, steps ...step) *pinRun {
	q := s.pin(p)
	q.f, q.sig, q.steps = x.f, x.sig, steps
	return q
}

// limit checks that only the legal values of a field are accepted.
func (q *pinRun) limit(r *Report, rule, what, field string, legal ivals) {
	r.obl(rule, what)
	q.run(r)
	q.judge(r, rule, what, field, legal, true)
}

func (q *pinRun) judge(r *Report, rule, what, field string, legal ivals, must bool) {
	pos := q.p.pos(q.f)
	if !q.ran {
		r.fail(rule, what, pos, "the place where this is read was not found")
		return
	}
	set, unread, read := q.accepted(field)
	if unread != nil {
		r.fail(rule, what, q.p.pos(unread), "a path accepts this without looking at the field %s", field)
		return
	}
	if bad := set.minus(legal); len(bad) > 0 {
		at := pos
		idx := q.index(field)
		var props []string
		for prop := range q.survived {
			props = append(props, prop)
		}
		sort.Strings(props)
		for _, prop := range props {
			if s, _ := decodePin(prop); len(s.sets[idx].minus(legal)) > 0 {
				at = q.p.pos(q.survived[prop])
			}
		}
		r.fail(rule, what, at, "values %s of the field %s are accepted; legal are %s", bad, field, legal)
		return
	}
	if must && (!read || len(set) == 0) {
		r.fail(rule, what, pos, "no path accepts a legal value of the field %s", field)
	}
}

// sharedReader picks, of the calls that lead from the message dispatch to a read, the outermost function
// that reads more than one thing and is called from several places.
func (s *pinSetup) sharedReader(p *Prog, stack []*ssa.Function) *ssa.Function {
	reads := p.reachingCalls(func(n string) bool { return n == "encoding/binary.Read" || n == "io.ReadFull" })
	for _, g := range stack {
		if g == s.dispFn || len(p.callersOf(g)) < 2 || !inPkg(g, "netcdf/hdf5") {
			continue
		}
		n := 0
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if k := c.Common().StaticCallee(); k != nil && reads[k] {
						n++
					}
				}
			}
		}
		if n >= 2 {
			return g
		}
	}
	return nil
}

func ruleH03(p *Prog, r *Report) {
	r.explain("The version field of every versioned structure is followed symbolically, as the set of the values it may have, from where it is read: the first byte after a signature that was compared, or the first byte after an object-header message was recognised. Every comparison of it splits the set. The union of the sets that reach a normal end may only contain the versions the reader implements.")
	s := p.pinSetup(r)
	if s.disp == nil {
		return
	}
	legal := map[string]ivals{sbSig: setOf(0, 1, 2, 3), "OHDR": setOf(2), "BTHD": setOf(0), "BTIN": setOf(0), "BTLF": setOf(0), "FHIB": setOf(0), "FRHP": setOf(0), "HEAP": setOf(0), "GCOL": setOf(1), "SNOD": setOf(1)}
	n := 0
	for _, x := range s.sites {
		set, ok := legal[x.sig]
		if !ok {
			continue
		}
		if s.dispatcher(p, r, x) {
			// without a signature: object header version 1
			q := s.structure(p, x, track("version", 1))
			q.differs = true
			n++
			q.limit(r, "structure", "object header without signature", "version", setOf(0, 1))
			continue
		}
		n++
		s.structure(p, x, track("version", 1)).limit(r, "structure", sigName(x.sig)+" in "+shortFn(x.f), "version", set)
	}
	r.minimum("versioned structures", n, 11)
	msgs := []struct {
		ty    int64
		name  string
		legal ivals
	}{
		{1, "dataspace", setOf(1, 2)},
		{2, "link info", setOf(0)},
		{3, "datatype", ivals{{0x10, 0x4f}}},
		{5, "fill value", setOf(1, 2, 3)},
		{6, "link", setOf(1)},
		{8, "data layout", setOf(3, 4)},
		{0xa, "group info", setOf(0)},
		{0xb, "filter pipeline", setOf(1, 2)},
		{0xc, "attribute", setOf(1, 2, 3)},
		{0x15, "attribute info", setOf(0)},
		{0x16, "reference count", setOf(0)},
	}
	for _, m := range msgs {
		q := s.message(p, m.ty, track("version", 1))
		q.limit(r, "message", m.name, "version", m.legal)
		// the function that reads it may be used elsewhere too
		if g := s.sharedReader(p, q.stack); g != nil {
			q = s.pin(p)
			q.f, q.atOnce, q.steps = g, true, []step{track("version", 1)}
			q.limit(r, "message", m.name+" wherever read ("+shortFn(g)+")", "version", m.legal)
		}
	}
	r.minimum("versioned messages", len(msgs), 11)
}
