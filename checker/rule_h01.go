package main

import (
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// H01: checksums of metadata; H02: signatures; H03: versions of structures with a signature.

func init() {
	rules["H01"] = ruleH01
	rules["H02"] = ruleH02
}

const sbSig = "\211HDF\r\n\032\n"

// signatures of the file format, and the number of places that read such a structure
var h5sigs = map[string]int{sbSig: 1, "OHDR": 1, "OCHK": 1, "TREE": 2, "HEAP": 1, "SNOD": 1, "GCOL": 1, "BTHD": 1, "BTIN": 1, "BTLF": 1, "FRHP": 1, "FHIB": 1}

// signatures of structures that carry a checksum (the superblock: in some versions)
var h5checked = map[string]bool{sbSig: true, "OHDR": true, "OCHK": true, "BTHD": true, "BTIN": true, "BTLF": true, "FRHP": true, "FHIB": true}

func sigName(s string) string {
	if s == sbSig {
		return "superblock"
	}
	return s
}

type sigSetup struct {
	base   Mem
	sites  []sigSite
	roots  map[*ssa.Function]map[string]bool
	hashes map[*ssa.Function]bool
}

func (p *Prog) sigSetup(r *Report) *sigSetup {
	var sigs []string
	for s := range h5sigs {
		sigs = append(sigs, s)
	}
	reads := p.reachingCalls(func(n string) bool { return n == "encoding/binary.Read" || n == "io.ReadFull" })
	s := &sigSetup{base: p.initBase(), roots: map[*ssa.Function]map[string]bool{}, hashes: p.hashFuncs()}
	s.sites = p.sigSites("netcdf/hdf5", sigs, reads)
	for _, x := range s.sites {
		if s.roots[x.f] == nil {
			s.roots[x.f] = map[string]bool{}
		}
		s.roots[x.f][x.sig] = true
	}
	return s
}

func (s *sigSetup) run(p *Prog, x sigSite) *sigRun {
	return &sigRun{p: p, base: s.base, roots: s.roots, hashes: s.hashes, f: x.f, sig: x.sig, match: true, hashEq: true}
}

// dispatcher says that the function only decides which other function reads the structure.
func (s *sigSetup) dispatcher(p *Prog, r *Report, x sigSite) bool {
	took, kept := false, false
	for _, e := range s.run(p, x).run(r) {
		if e.panic == nil {
			if e.prop == "D" {
				took = true
			} else if e.prop != "" {
				kept = true
			}
		}
	}
	return took && !kept
}

func ruleH01(p *Prog, r *Report) {
	r.explain("The functions of the HDF5 reader that compare a signature are found by the signature's constant and interpreted with the comparison answered as equal, everything they call inlined up to the next such function. Where the structure carries a checksum every path that ends normally must contain a comparison of a lookup3 hash that was answered as equal, and with the hash comparison answered as unequal no path may end normally after it. The hash is found by its initial constant.")
	s := p.sigSetup(r)
	if len(s.hashes) == 0 {
		r.fail("anchor", "lookup3 hash", "?", "no function with the initial constant of the lookup3 hash was found")
	}
	n := 0
	for _, x := range s.sites {
		if !h5checked[x.sig] {
			continue
		}
		if s.dispatcher(p, r, x) {
			continue
		}
		versions := []*int64{nil}
		if x.sig == sbSig {
			two, three := int64(2), int64(3)
			versions = []*int64{&two, &three}
		}
		for _, v := range versions {
			what := sigName(x.sig) + " in " + shortFn(x.f)
			if v != nil {
				what += " version " + strconv.FormatInt(*v, 10)
			}
			n++
			q := s.run(p, x)
			q.version = v
			r.obl("verified", what)
			seen := false
			for _, e := range q.run(r) {
				if e.panic != nil {
					continue
				}
				if e.prop == "C" {
					seen = true
				}
				if e.prop == "P" || e.prop == "R" {
					// version 1 of the object header continuation has neither signature nor checksum
					r.fail("verified", what, p.pos(e.at), "the structure may be accepted without comparing its checksum")
				}
			}
			if !seen {
				r.fail("verified", what, p.pos(x.f), "no path compares the checksum")
			}
			q.hashEq = false
			r.obl("mismatch", what)
			for _, e := range q.run(r) {
				if e.panic == nil && e.prop == "M" {
					r.fail("mismatch", what, p.pos(e.at), "the structure may be accepted although its checksum differs")
				}
			}
		}
	}
	r.minimum("structures with a checksum", n, 9)
}

func ruleH02(p *Prog, r *Report) {
	r.explain("The functions of the HDF5 reader that compare a signature are found by the signature's constant and interpreted with the comparison answered as unequal: no path may end normally after it, except in a function that only decides between an object header with and without signature. Every signature of the table must be compared somewhere, in as many places as structures of that kind are read.")
	s := p.sigSetup(r)
	count := map[string]int{}
	for _, x := range s.sites {
		what := sigName(x.sig) + " in " + shortFn(x.f)
		if x.sig == "OHDR" && s.dispatcher(p, r, x) {
			continue
		}
		q := s.run(p, x)
		q.match = false
		r.obl("compared", what)
		hit := false
		for _, e := range q.run(r) {
			if e.prop == "B" {
				hit = true
				if e.panic == nil {
					r.fail("compared", what, p.pos(e.at), "the structure may be accepted although its signature differs")
				}
			}
		}
		if hit {
			// a helper that only checks counts once for each of its calls
			k := x.n
			if n := p.checkOnly(x.f); n > 0 {
				k = n
			}
			count[x.sig] += k
		}
	}
	for sig, n := range h5sigs {
		r.check(count[sig] >= n, "present", sigName(sig), "netcdf/hdf5", "is compared in %d places, %d were confirmed by hand: a structure is read without checking its signature", count[sig], n)
	}
	r.minimum("places that compare a signature", len(s.sites), 13)
}

// checkOnly gives the number of calls of a function that contains nothing but calls of one other
// function and no branches (a wrapper around a check), or 0.
func (p *Prog) checkOnly(f *ssa.Function) int {
	if len(f.Blocks) != 1 {
		return 0
	}
	calls := 0
	for _, in := range f.Blocks[0].Instrs {
		if _, ok := in.(ssa.CallInstruction); ok {
			calls++
		}
	}
	if calls > 1 {
		return 0
	}
	n := 0
	for _, cs := range p.callersOf(f) {
		_ = cs
		n++
	}
	return n
}
