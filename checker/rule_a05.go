package main

import (
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// A05: names that are not valid netCDF names are rejected by every writer.

func init() { rules["A05"] = ruleA05 }

var badNames = []string{"", "a/b", "/", "_FillValue", "_x", " a", "a ", "a\u00a0", "a\nb", "\x00", "a\x00b", "a\x7f", ".a", "-a", "a/", "\u0301a", "a\u200b", "+", "a\tb"}
var goodNames = []string{"a", "A1", "temperature", "1a", "a b", "a.b", "a-b", "a_b", "é", "气温", "x+y", "a(b)", "a:b", "aé", "a@"}

func ruleA05(p *Prog, r *Report) {
	r.explain("Every implementation of the writer interface is interpreted abstractly (all paths, all calls inlined) for a call whose name, or whose attribute map holds a name, that the name check rejects; whatever the other arguments and the state of the writer are, no path may return a nil error.")
	r.explain("What the name check accepts is decided by constant propagation through the same entry points for a table of names with one entry for every class of characters the rule for names distinguishes.")
	base := p.initBase()
	validator := p.fn("internal", "IsValidNetCDFName")
	n := 0
	for _, method := range []string{"AddVar", "AddAttributes", "CreateGroup"} {
		for _, f := range p.ifaceMethods("netcdf/api", "Writer", method) {
			ei := errResult(f)
			if ei < 0 {
				r.fail("entry", shortFn(f), p.pos(f), "has no error result")
				continue
			}
			n++
			namePrm := paramOf(f, isString)
			attrPrm := paramOf(f, func(t types.Type) bool { return namedIs(t, "api.AttributeMap") })
			varPrm := paramOf(f, func(t types.Type) bool { return namedIs(t, "api.Variable") })
			run := func(rule, what string, args map[int]*Val, sc *scenario) {
				a := newAn(p, base)
				a.OnCall = sc.hook
				a.Unroll = 40
				exits := a.run(f, "", func(st *State) { st.nn["attrs"] = true }, args)
				r.cover(a)
				r.obl(rule, shortFn(f)+" "+what)
				for _, e := range exits {
					if e.panic == nil && exitErr(e, ei) != -1 {
						r.fail(rule, shortFn(f)+" "+what, p.pos(e.at), "may return a nil error for a call with %s", what)
					}
				}
			}
			// an invalid name, whatever it is
			if validator != nil {
				pin := func(bad string, keys ...*Val) *scenario {
					return &scenario{keys: keys, pins: func(c *Call) ([]Out, bool) {
						if c.callee == validator && c.args[0].k == KTok {
							return []Out{{res: vBool(c.args[0].s != bad)}}, true
						}
						return nil, false
					}}
				}
				if namePrm >= 0 {
					run("invalid-name", "an invalid name", map[int]*Val{namePrm: tok("name")}, pin("name", tok("attrname")))
				}
				o1, o2, at := tok("otherattr1"), tok("otherattr2"), tok("attrname")
				for i, keys := range [][]*Val{{at, o1, o2}, {o1, at, o2}, {o1, o2, at}} {
					what := "an invalid attribute name in position " + strconv.Itoa(i+1) + " of 3"
					if attrPrm >= 0 {
						run("invalid-name", what, map[int]*Val{attrPrm: tok("attrs")}, pin("attrname", keys...))
					}
					if varPrm >= 0 {
						run("invalid-name", what, map[int]*Val{namePrm: tok("name"), varPrm: p.variableArg(nil, nil, tok("attrs"))}, pin("attrname", keys...))
					}
				}
			}
			for _, bad := range badNames {
				what := "the name " + strconv.Quote(bad)
				if namePrm >= 0 {
					run("rejects", what, map[int]*Val{namePrm: vStr(bad)}, &scenario{keys: []*Val{vStr("ok")}})
				}
				what = "the attribute name " + strconv.Quote(bad)
				if attrPrm >= 0 {
					run("rejects", what, map[int]*Val{attrPrm: tok("attrs")}, &scenario{keys: []*Val{vStr(bad)}})
				}
				if varPrm >= 0 {
					run("rejects", what, map[int]*Val{namePrm: vStr("ok"), varPrm: p.variableArg(nil, nil, tok("attrs"))}, &scenario{keys: []*Val{vStr(bad)}})
				}
			}
			// valid names are accepted: some path succeeds
			if f.Name() == "CreateGroup" && unsupported(p, base, f) {
				continue
			}
			for _, good := range goodNames {
				accept := func(what string, args map[int]*Val, sc *scenario) {
					a := newAn(p, base)
					a.OnCall = sc.hook
					a.Unroll = 40
					exits := a.run(f, "", func(st *State) { st.nn["attrs"] = true }, args)
					r.cover(a)
					ok := false
					for _, e := range exits {
						if e.panic == nil && exitErr(e, ei) != -1 {
							ok = true
						}
					}
					r.check(ok, "accepts", shortFn(f)+" "+what, p.pos(f), "rejects a call with %s", what)
				}
				if namePrm >= 0 {
					accept("the name "+strconv.Quote(good), map[int]*Val{namePrm: vStr(good)}, &scenario{keys: []*Val{vStr("ok")}})
				}
				if attrPrm >= 0 {
					accept("the attribute name "+strconv.Quote(good), map[int]*Val{attrPrm: tok("attrs")}, &scenario{keys: []*Val{vStr(good)}})
				}
				if varPrm >= 0 {
					accept("the attribute name "+strconv.Quote(good), map[int]*Val{namePrm: vStr("ok"), varPrm: p.variableArg(nil, nil, tok("attrs"))}, &scenario{keys: []*Val{vStr(good)}})
				}
			}
		}
	}
	r.minimum("writer methods that take names", n, 9)
}

// unsupported says that an operation always fails, whatever it is given.
func unsupported(p *Prog, base Mem, f *ssa.Function) bool {
	a := newAn(p, base)
	ei := errResult(f)
	for _, e := range a.run(f, "", nil, nil) {
		if e.panic == nil && exitErr(e, ei) != -1 {
			return false
		}
	}
	return true
}
