package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

)

// gvc check -prop P: decide one property on /repo's current source.
//
// The functions under contract are those whose contracts mention the property, and, transitively, the functions whose
// contracts their proofs rely on. Every obligation of every one of them has to be discharged.

type propRun struct {
	w        *World
	prop     string
	tier     string
	deadline time.Time
	mu       sync.Mutex
	reps     map[string]*FnReport
	vers     map[string]*Verifier
	errs     []string // problems that are not obligations
	notes    []string
	queued   map[string]bool
	usedCon  map[string]bool
	usedLem  map[string]bool
}

func (c *Contract) mentions(p string) bool {
	if c.tags[p] {
		return true
	}
	for _, l := range [][]*Clause{c.requires, c.ensures, c.modifies, c.hints, c.allocb} {
		for _, cl := range l {
			for _, t := range cl.tags {
				if t == p {
					return true
				}
			}
		}
	}
	return false
}

// a contract that is proved by the checks of other properties and only relied on here ("option only:P,Q")
func (r *propRun) elsewhere(n string) bool {
	c := r.w.Cons.Funcs[n]
	if c == nil {
		return false
	}
	for o := range c.opts {
		if l, ok := strings.CutPrefix(o, "only:"); ok {
			for _, p := range strings.Split(l, ",") {
				if p == r.prop {
					return false
				}
			}
			r.mu.Lock()
			note := "the contract of " + n + " is relied on here and proved by the checks of " + l
			for _, x := range r.notes {
				if x == note {
					note = ""
				}
			}
			if note != "" {
				r.notes = append(r.notes, note)
			}
			r.mu.Unlock()
			return true
		}
	}
	return false
}

func seedEnv() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return n
}

func checkMain(args []string) int {
	t0 := time.Now()
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	limit := fs.Int("limit", 0, "seconds for the proofs")
	workers := fs.Int("workers", 6, "functions verified at the same time")
	noReplay := fs.Bool("noreplay", false, "no search for a failing input")
	fs.Parse(args)
	if *tier != "thorough" {
		*tier = "quick"
	}
	lim := 560 * time.Second
	if *limit > 0 {
		lim = time.Duration(*limit) * time.Second
	}
	r := &propRun{prop: *prop, tier: *tier, deadline: t0.Add(lim), reps: map[string]*FnReport{}, vers: map[string]*Verifier{}, queued: map[string]bool{}, usedCon: map[string]bool{}, usedLem: map[string]bool{}}
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.errs = append(r.errs, fmt.Sprintf("verifier failure: %v", e))
			}
		}()
		r.run(*workers)
	}()
	return r.finish(t0, *noReplay)
}

// the functions a contract belongs to
func (r *propRun) byContract() map[string][]string {
	m := map[string][]string{}
	for n, f := range r.w.Funcs {
		if len(f.Blocks) == 0 {
			continue
		}
		for _, bc := range r.w.contractsFor(f) {
			m[bc.con.name] = append(m[bc.con.name], n)
		}
	}
	for _, l := range m {
		sort.Strings(l)
	}
	return m
}

func exportedName(n string) bool {
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		n = n[i+1:]
	}
	return n != "" && n[0] >= 'A' && n[0] <= 'Z'
}

func (r *propRun) run(workers int) {
	w, err := loadAll()
	if err != nil {
		r.errs = append(r.errs, "the code or its contracts do not load: "+err.Error())
		return
	}
	r.w = w
	by := r.byContract()
	var roots []string
	for _, n := range w.Cons.Order {
		c := w.Cons.Funcs[n]
		if !c.mentions(r.prop) || c.extern {
			continue
		}
		r.usedCon[n] = true
		if r.elsewhere(n) {
			continue
		}
		if len(by[n]) == 0 {
			if exportedName(n) {
				r.errs = append(r.errs, "no function in the source for contract "+n)
			} else {
				r.notes = append(r.notes, "no function for contract "+n+" (helper gone; callers are verified without it)")
			}
			continue
		}
		roots = append(roots, by[n]...)
	}
	if len(roots) == 0 {
		r.errs = append(r.errs, "no function under contract for this property")
		return
	}
	r.round(roots, by, workers, 0, 2)
	// second attempt for what failed, with more solver time
	if bad := r.failing(); len(bad) > 0 && time.Now().Before(r.deadline.Add(-60*time.Second)) {
		for _, n := range bad {
			r.queued[n] = false
		}
		if len(bad) <= 12 {
			r.round(bad, by, min(workers, 3), 1, 3)
		}
	}
	for _, l := range w.Cons.Lemmas {
		use := r.usedLem[l.name]
		for _, t := range l.tags {
			use = use || t == r.prop
		}
		if use {
			r.lemma(l)
		}
	}
}

func (r *propRun) lemma(l *Lemma) {
	rep, v := r.w.verifyLemma(r.prop, l)
	v.discharge(2, r.late)
	r.reps["lemma "+l.name] = rep
	r.vers["lemma "+l.name] = v
}

func (r *propRun) late() bool { return time.Now().After(r.deadline) }

func (r *propRun) round(roots []string, by map[string][]string, workers, candLvl, level int) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, workers)
	var add func(n string)
	one := func(n string) {
		defer wg.Done()
		sem <- struct{}{}
		fn := r.w.Funcs[n]
		rep, v := r.w.verifyFn(r.prop, n, fn, r.late, candLvl)
		<-sem
		if rep.Err == "" {
			v.discharge(level, r.late)
			r.vacuity(rep, v)
		}
		v.retAsm = nil
		r.mu.Lock()
		r.reps[n] = rep
		r.vers[n] = v
		var next []string
		for _, u := range rep.Used {
			r.usedCon[u] = true
		}
		for l := range v.usedLem {
			r.usedLem[l] = true
		}
		r.mu.Unlock()
		next = nil
		for _, u := range rep.Used {
			if !r.elsewhere(u) {
				next = append(next, by[u]...)
			}
		}
		for _, x := range next {
			add(x)
		}
	}
	add = func(n string) {
		r.mu.Lock()
		q := r.queued[n]
		r.queued[n] = true
		r.mu.Unlock()
		if q {
			return
		}
		wg.Add(1)
		go one(n)
	}
	for _, n := range roots {
		add(n)
	}
	wg.Wait()
}

// the assumptions on some returning path have to be satisfiable as far as the solver can tell
func (r *propRun) vacuity(rep *FnReport, v *Verifier) {
	if len(v.retAsm) == 0 || rep.Err != "" {
		return
	}
	for _, asm := range v.retAsm {
		text := r.w.query(v.c, append(append([]*Term{}, asm...), v.gfacts...), v.c.tFalse, v.excl)
		if runSolver(backends(1)[0], text, 1) != "unsat" {
			return
		}
	}
	rep.Err = "the assumptions are contradictory on every path that returns"
}

func (rep *FnReport) ok() bool {
	if rep.Err != "" {
		return false
	}
	for _, o := range rep.Obls {
		if o.goal != nil && !o.Res.OK {
			return false
		}
	}
	return true
}

func (r *propRun) failing() []string {
	var out []string
	for n, rep := range r.reps {
		if !rep.ok() && r.w.Funcs[n] != nil {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

type violation struct {
	fn, kind, name, pos, trace, out string
}

func (r *propRun) finish(t0 time.Time, noReplay bool) int {
	var viol []violation
	total, done := 0, 0
	byBack := map[string]int{}
	kinds := map[string]int{}
	var fns []string
	ext := map[string]bool{}
	inl := map[string]bool{}
	notes := map[string]bool{}
	paths, returns := 0, 0
	for n, rep := range r.reps {
		fns = append(fns, n)
		if rep.Err != "" {
			viol = append(viol, violation{fn: n, kind: "function", name: rep.Err})
		}
		for _, o := range rep.Obls {
			total++
			kinds[o.Kind]++
			if o.goal == nil {
				done++
				byBack["simplifier"]++
				continue
			}
			if o.Res.OK {
				done++
				byBack[o.Res.Backend]++
				continue
			}
			viol = append(viol, violation{n, o.Kind, o.Name, o.Pos, strings.Join(o.Trace, " / "), o.Res.Out})
		}
		for _, x := range rep.Externs {
			ext[x] = true
		}
		for _, x := range rep.Inlined {
			inl[x] = true
		}
		for _, x := range rep.Notes {
			notes[x] = true
		}
		paths += rep.Paths
		returns += rep.Returns
	}
	for _, e := range r.errs {
		viol = append(viol, violation{fn: "-", kind: "check", name: e})
	}
	if total == 0 && len(viol) == 0 {
		viol = append(viol, violation{fn: "-", kind: "check", name: "no obligations were generated"})
	}
	for _, n := range r.notes {
		notes[n] = true
	}
	sort.Strings(fns)
	sort.Slice(viol, func(i, j int) bool {
		if viol[i].fn != viol[j].fn {
			return viol[i].fn < viol[j].fn
		}
		return viol[i].name < viol[j].name
	})
	fmt.Printf("property %s: %d functions under contract, %d obligations, %d discharged, %d paths, %d queries, solver time %v, wall %v\n", r.prop, len(fns), total, done, paths, stats.Queries, stats.Time.Round(time.Second), time.Since(t0).Round(time.Second))
	for i, v := range viol {
		if i < 12 {
			fmt.Printf("FAILED %s: %s: %s %s %s\n", v.fn, v.kind, v.name, v.pos, v.trace)
		}
	}
	// known findings
	for _, k := range knownFindings(r.prop) {
		fmt.Println("KNOWN-FINDING: " + k)
	}
	code := 0
	replayed := ""
	if len(viol) > 0 {
		code = 1
		found := false
		if !noReplay {
			replayed, found = searchWitness(r.prop)
		}
		path := r.writeReplay(viol, replayed, found)
		suffix := ""
		if !found {
			suffix = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", r.prop, path, suffix)
	}
	var cons []string
	for n := range r.usedCon {
		cons = append(cons, n)
	}
	sort.Strings(cons)
	ev := map[string]interface{}{
		"property": r.prop, "tier": r.tier, "seed": seedEnv(), "level": "proof",
		"wall_s": float64(time.Since(t0).Milliseconds()) / 1000, "violations": len(viol),
		"coverage": map[string]interface{}{
			"obligations": total, "discharged": done,
			"checker_cmd":              "bin/gvc check -prop " + r.prop,
			"functions_under_contract": fns,
			"contracts_relied_on":      cons,
			"helpers_verified_inline":  sortedKeys(inl),
			"obligations_by_kind":      kinds,
			"discharged_by_back_end":   byBack,
			"paths":                    paths, "returning_paths": returns,
			"solver_queries":  stats.Queries,
			"solver_time_s":   stats.Time.Seconds(),
			"lemmas":          sortedKeys(r.usedLem),
			"notes":           sortedKeys(notes),
			"trusted_base": append([]string{
				"gvc (this repository's condition generator), go/packages, go/types and go/ssa (x/tools)",
				"z3 and cvc5: an obligation counts as discharged when one of them reports unsat",
				"axioms in contracts/*.smt2 (byte strings, machine words, floats, sequences)",
			}, extTrust(ext)...),
		},
		"assumptions": assumptionsOf(r.prop),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0755)
	os.WriteFile(filepath.Join(dir, r.prop+".json"), append(b, '\n'), 0644)
	return code
}

func extTrust(ext map[string]bool) []string {
	var out []string
	for _, x := range sortedKeys(ext) {
		out = append(out, "assumed contract of external function "+x)
	}
	return out
}

func (r *propRun) writeReplay(viol []violation, replayed string, found bool) string {
	dir := filepath.Join(verifDir(), "work", "replay")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, r.prop+".txt")
	var b strings.Builder
	fmt.Fprintf(&b, "property %s: obligations not discharged on the current source\n\n", r.prop)
	for i, v := range viol {
		if i == 60 {
			fmt.Fprintf(&b, "... and %d more\n", len(viol)-i)
			break
		}
		fmt.Fprintf(&b, "%s\n  %s: %s\n  at %s\n  path %s\n  solver: %s\n", v.fn, v.kind, v.name, v.pos, v.trace, strings.ReplaceAll(strings.TrimSpace(v.out), "\n", " | "))
	}
	if found {
		fmt.Fprintf(&b, "\nfailing input found by running the real code (rerun: VERIF_SEED=%d bin/gvc witness -prop %s):\n%s\n", seedEnv(), r.prop, replayed)
	} else {
		fmt.Fprintf(&b, "\nno failing input found:\n%s\n", replayed)
	}
	os.WriteFile(path, []byte(b.String()), 0644)
	return path
}

// known-findings.txt: "known: property=<id> <what fails>" and "fixed: ..." lines
func knownFindings(prop string) []string {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+prop+" ") {
			out = append(out, strings.TrimPrefix(l, "known: "))
		}
	}
	return out
}

// assumptions.txt: "<props or *>: text"
func assumptionsOf(prop string) []string {
	b, err := os.ReadFile(filepath.Join(verifDir(), "assumptions.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		i := strings.Index(l, ": ")
		if i < 0 || strings.HasPrefix(l, "#") {
			continue
		}
		for _, p := range strings.Split(l[:i], ",") {
			if p == "*" || p == prop {
				out = append(out, l[i+2:])
			}
		}
	}
	return out
}


