package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is one violation: the rule, the construct it is about, and where it is.
type Finding struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos"`
	Msg       string `json:"msg"`
}

func (f Finding) key() string { return f.Rule + " | " + f.Construct }

// Report collects what a check analysed and found.
type Report struct {
	id       string
	p        *Prog
	findings []Finding
	obls     []string // obligations: rule | construct
	oblSeen  map[string]bool
	failed   map[string]bool
	notes    []string
	assume   []string
	expl     []string
	counts   map[string]int
	funcs    map[string]bool
}

func newReport(id string, p *Prog) *Report {
	return &Report{id: id, p: p, oblSeen: map[string]bool{}, failed: map[string]bool{}, counts: map[string]int{}, funcs: map[string]bool{}}
}

func (r *Report) obl(rule, construct string) {
	k := rule + " | " + construct
	if !r.oblSeen[k] {
		r.oblSeen[k] = true
		r.obls = append(r.obls, k)
	}
}

func (r *Report) fail(rule, construct, pos, format string, args ...interface{}) {
	r.obl(rule, construct)
	f := Finding{rule, construct, pos, fmt.Sprintf(format, args...)}
	if r.failed[f.key()] {
		return
	}
	r.failed[f.key()] = true
	r.findings = append(r.findings, f)
}

// check registers an obligation and its verdict.
func (r *Report) check(ok bool, rule, construct, pos, format string, args ...interface{}) {
	r.obl(rule, construct)
	if !ok {
		r.fail(rule, construct, pos, format, args...)
	}
}

func (r *Report) explain(format string, args ...interface{}) {
	r.expl = append(r.expl, fmt.Sprintf(format, args...))
}
func (r *Report) assumes(s string) { r.assume = append(r.assume, s) }
func (r *Report) minimum(rule string, got, want int) {
	r.counts[rule] = got
	r.check(got >= want, rule+"/instances", "at least "+strconv.Itoa(want), "?", "only %d instances of the rule were found, %d were confirmed by hand: the rule no longer sees the code it is about", got, want)
}
func (r *Report) cover(a *An) {
	for f := range a.covered {
		r.funcs[shortFn(f)] = true
	}
	if a.over {
		r.fail("budget", r.id, "?", "the analysis did not finish within its budget: undecided")
	}
}

type known struct{ kind, prop, text string }

func loadKnown(dir string) []known {
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property=")
		i := strings.IndexByte(rest, ' ')
		if i < 0 {
			continue
		}
		out = append(out, known{"known", rest[:i], strings.TrimSpace(rest[i:])})
	}
	return out
}

// finish prints the verdict, writes the evidence, and returns the exit status.
func (r *Report) finish(verifDir string, start time.Time) int {
	kn := loadKnown(verifDir)
	sort.SliceStable(r.findings, func(i, j int) bool { return r.findings[i].key() < r.findings[j].key() })
	var viol []Finding
	var knownHits []string
	for _, f := range r.findings {
		matched := false
		for _, k := range kn {
			// text: rule | construct -- description
			spec := k.text
			if i := strings.Index(spec, " -- "); i >= 0 {
				spec = spec[:i]
			}
			if k.prop == r.id && spec == f.key() {
				matched = true
				knownHits = append(knownHits, k.text)
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, k.text)
			}
		}
		if !matched {
			viol = append(viol, f)
		}
	}
	evDir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(evDir, 0o755)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	sort.Strings(r.obls)
	samples := r.obls
	if len(samples) > 400 {
		samples = samples[:400]
	}
	var fl []string
	for f := range r.funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	nf := len(r.failed)
	ev := map[string]interface{}{
		"property": r.id,
		"tier":     tier,
		"seed":     seed,
		"level":    "other",
		"coverage": map[string]interface{}{
			"explanation":        strings.Join(r.expl, " "),
			"obligations":        len(r.obls),
			"discharged":         len(r.obls) - nf,
			"obligation_list":    samples,
			"instances":          r.counts,
			"files_loaded":       r.p.files,
			"packages":           len(r.p.pkgs),
			"functions_loaded":   len(r.p.funcs),
			"functions_analysed": fl,
			"known_findings":     knownHits,
			"rule":               "every obligation is a rule applied to a construct of the current source; a failed or undecided obligation is a violation",
		},
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(viol),
		"assumptions": r.assume,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, r.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	if len(viol) > 0 {
		rp := filepath.Join(evDir, r.id+".violations.txt")
		var sb strings.Builder
		for _, f := range viol {
			fmt.Fprintf(&sb, "%s: [%s] %s: %s\n", f.Pos, f.Rule, f.Construct, f.Msg)
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, rp)
		return 1
	}
	fmt.Printf("%s: %d obligations hold (%d functions loaded, %d analysed)\n", r.id, len(r.obls), len(r.p.funcs), len(fl))
	return 0
}
