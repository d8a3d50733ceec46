package main

import (
	"bytes"
	"context"
	"fmt"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Query struct {
	text string
}

type SolveStats struct {
	mu      sync.Mutex
	ByBack  map[string]int
	Time    time.Duration
	Queries int64
}

var stats = &SolveStats{ByBack: map[string]int{}}
var solverSem = make(chan struct{}, 8)

var litRe = regexp.MustCompile(`lit![0-9a-f]*`)

const dtSlice = "(declare-datatypes ((Slice 0)) (((mkslice (s_arr Int) (s_off Int) (s_len Int) (s_cap Int)))))"

func (w *World) ifaceDecl() string {
	var b strings.Builder
	b.WriteString("(declare-datatypes ((Iface 0)) (((i_nil)")
	b.WriteString(" (i_other (o_tag Int) (o_id Int))")
	for _, i := range w.Ifaces {
		b.WriteString(" (" + i.Ctor.Name)
		for k, s := range i.Ctor.Sels {
			b.WriteString(" (" + s + " " + i.Ctor.Sorts[k] + ")")
		}
		b.WriteString(")")
	}
	return b.String() + ")))"
}

// text of an SMT query: assumptions entail goal
func (w *World) query(c *Ctx, asm []*Term, goal *Term, exclude map[string]bool) string {
	all := append([]*Term{}, asm...)
	if goal != nil {
		all = append(all, c.Not(goal))
	}
	p := &printer{c: c, decl: map[string]string{}, lits: map[string]bool{}, funs: map[string]bool{}, copyN: map[*Term]string{}, shared: map[*Term]string{}}
	// sharing
	cnt := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		order = append(order, t)
	}
	for _, t := range all {
		walk(t)
	}
	size := map[*Term]int{}
	var defs []string
	for _, t := range order {
		n := 1
		for _, a := range t.args {
			n += size[a]
		}
		if cnt[t] > 1 && n > 4 && len(t.fv) == 0 && t.op != OForall && t.op != OCopy && t.op != OBlit {
			nm := fmt.Sprintf("sh!%d", t.id)
			defs = append(defs, fmt.Sprintf("(define-fun %s () %s %s)", nm, t.sort, p.raw(t)))
			p.shared[t] = nm
			n = 1
		}
		size[t] = n
	}
	var body []string
	for _, t := range asm {
		body = append(body, "(assert "+p.str(t)+")")
	}
	if goal != nil {
		body = append(body, "(assert "+p.str(c.Not(goal))+")")
	}
	// elements of byte memory are bytes
	if p.funs["mkb"] {
		p.funs["at"] = true
		for _, t := range order {
			if t.op == OSelect && t.sort == "Int" && len(t.fv) == 0 && isByteArr(t.args[0]) {
				body = append(body, "(assert (and (<= 0 "+p.str(t)+") (< "+p.str(t)+" 256)))")
			}
		}
	}
	// byte strings that have to be equal: compared position by position
	if goal != nil {
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] || t.op == OForall || t.sort != "Bool" {
				return
			}
			seen[t] = true
			if t.op == OEq && t.args[0].sort == "Bytes" && len(t.fv) == 0 {
				p.funs["bext"] = true
				body = append(body, "(assert (bext "+p.str(t.args[0])+" "+p.str(t.args[1])+"))")
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(goal)
	}
	var copies []string
	for i := 0; i < len(p.copies); i++ {
		t := p.copies[i]
		n := p.copyN[t]
		dst, doff, src, soff, m := t.args[0], t.args[1], t.args[2], t.args[3], t.args[4]
		j := c.BVar("cj", "Int")
		in := c.And(c.Ge(j, doff), c.Lt(j, c.Add(doff, m)))
		copies = append(copies, fmt.Sprintf("(assert (forall ((%s Int)) (! (= (select %s %s) (ite %s (select %s %s) (select %s %s))) :pattern ((select %s %s)))))",
			qname(j.name), n, qname(j.name), p.str(in), p.str(src), p.str(c.Add(c.Sub(j, doff), soff)), p.str(dst), qname(j.name), n, qname(j.name)))
		// the source elements show up in the copy
		k := c.BVar("ck", "Int")
		ink := c.And(c.Ge(k, soff), c.Lt(k, c.Add(soff, m)))
		if src.op == OConst || src.op == OSelect || src.op == OCopy {
			copies = append(copies, fmt.Sprintf("(assert (forall ((%s Int)) (! (=> %s (= (select %s %s) (select %s %s))) :pattern ((select %s %s)))))",
				qname(k.name), p.str(ink), n, p.str(c.Add(c.Sub(k, soff), doff)), p.str(src), qname(k.name), p.str(src), qname(k.name)))
		}
		if dst.op == OConst || dst.op == OSelect || dst.op == OCopy {
			copies = append(copies, fmt.Sprintf("(assert (forall ((%s Int)) (! (=> (not %s) (= (select %s %s) (select %s %s))) :pattern ((select %s %s)))))",
				qname(j.name), p.str(in), n, qname(j.name), p.str(dst), qname(j.name), p.str(dst), qname(j.name)))
		}
	}
	var b strings.Builder
	b.WriteString(w.queryHead(p, exclude))
	for _, d := range defs {
		b.WriteString(d + "\n")
	}
	for _, s := range copies {
		b.WriteString(s + "\n")
	}
	for _, s := range body {
		b.WriteString(s + "\n")
	}
	return b.String()
}

// declarations and axioms for what the printer has met
func (w *World) queryHead(p *printer, exclude map[string]bool) string {
	c := p.c
	syms := map[string]bool{}
	for f := range p.funs {
		syms[f] = true
	}
	// symbols of sorts: literals need the byte theory
	for l := range p.lits {
		if len(l) == 1 {
			syms["unit"] = true
		}
	}
	if len(p.lits) > 0 {
		syms["blen"] = true
		syms["at"] = true
	}
	for _, s := range p.decl {
		_ = s
	}
	decls, axioms, _ := w.Pre.relevant(syms, exclude)
	for _, n := range litRe.FindAllString(strings.Join(decls, " ")+strings.Join(axioms, " "), -1) {
		if s, ok := litOf(n); ok && !p.lits[s] {
			p.lits[s] = true
			syms["unit"], syms["blen"], syms["at"] = true, true, true
		}
	}
	decls, axioms, _ = w.Pre.relevant(syms, exclude)
	var b strings.Builder
	for _, s := range w.Pre.Sorts[:w.preSortsBefore()] {
		b.WriteString(s + "\n")
	}
	b.WriteString(dtSlice + "\n")
	b.WriteString(w.ifaceDecl() + "\n")
	for _, s := range w.Pre.Sorts[w.preSortsBefore():] {
		b.WriteString(s + "\n")
	}
	var ls []string
	for l := range p.lits {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for _, l := range ls {
		b.WriteString(fmt.Sprintf("(declare-fun %s () Bytes)\n", c.litName(l)))
	}
	for _, d := range decls {
		b.WriteString(d + "\n")
	}
	var ns []string
	for n := range p.decl {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		b.WriteString(fmt.Sprintf("(declare-fun %s () %s)\n", qname(n), p.decl[n]))
	}
	for i, t := range p.copies {
		_ = i
		b.WriteString(fmt.Sprintf("(declare-fun %s () %s)\n", p.copyN[t], t.sort))
	}
	fd, fa := c.fhLinks(func(n string) []*IfaceCtor { return w.impls(w.TPkg.Scope().Lookup(n).Type()) }, declared(decls, w.Pre), p.decl)
	for _, d := range fd {
		b.WriteString(d + "\n")
	}
	axioms = append(axioms, fa...)
	for _, l := range ls {
		n := c.litName(l)
		b.WriteString(fmt.Sprintf("(assert (= (blen %s) %d))\n", n, len(l)))
		if len(l) == 1 {
			b.WriteString(fmt.Sprintf("(assert (= %s (unit %d)))\n", n, l[0]))
		}
		for i := 0; i < len(l) && i < 64; i++ {
			b.WriteString(fmt.Sprintf("(assert (= (at %s %d) %d))\n", n, i, l[i]))
		}
	}
	for i := range ls { // distinct literals of equal length are distinct by their bytes; state it
		for j := i + 1; j < len(ls); j++ {
			b.WriteString(fmt.Sprintf("(assert (not (= %s %s)))\n", c.litName(ls[i]), c.litName(ls[j])))
		}
	}
	for _, a := range axioms {
		b.WriteString(a + "\n")
	}
	return b.String()
}

// sorts of the prelude that the Iface datatype refers to come first; datatypes over Iface after it
func (w *World) preSortsBefore() int {
	for i, s := range w.Pre.Sorts {
		if strings.Contains(s, "Iface") {
			return i
		}
	}
	return len(w.Pre.Sorts)
}

type backend struct {
	name string
	args []string
	pre  string
}

func backends(sec int) []backend {
	ms := fmt.Sprint(sec * 1000)
	return []backend{
		{"z3-new", []string{"z3-new", "-in", "-t:" + ms}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 7)\n"},
		{"z3-new/default", []string{"z3-new", "-in", "-t:" + ms}, ""},
		{"cvc5", []string{"cvc5", "--lang", "smt2", "--tlimit=" + ms}, "(set-logic ALL)\n"},
		{"z3-4.8", []string{"z3", "-in", "-t:" + ms}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 3)\n"},
	}
}

func runSolver(be backend, text string, sec int) string {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(sec+2)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, be.args[0], be.args[1:]...)
	cmd.Stdin = strings.NewReader(be.pre + text + "(check-sat)\n")
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	d := time.Since(t0)
	stats.mu.Lock()
	stats.Time += d
	stats.mu.Unlock()
	atomic.AddInt64(&stats.Queries, 1)
	s := strings.TrimSpace(out.String())
	if i := strings.LastIndexByte(s, '\n'); i >= 0 && !strings.Contains(s, "error") {
		s = s[i+1:]
	}
	return s
}

type Result struct {
	OK      bool
	Backend string
	Out     string
	Dur     time.Duration
}

// valid: does the text (assumptions and negated goal) have no model?
func solve(text string, level int) Result {
	t0 := time.Now()
	var plan []struct {
		b int
		s int
	}
	add := func(b, s int) {
		plan = append(plan, struct {
			b int
			s int
		}{b, s})
	}
	switch level {
	case -1: // another solver for invariants of contracts
		add(2, 5)
	case -2: // first attempt, when there is a variant of the obligation with fewer assumptions
		add(0, 5)
	case -3: // the variant
		add(0, 6)
		add(2, 5)
	case 0: // loop inference
		add(0, 3)
	case 1: // loop inference, second attempt
		add(0, 10)
		add(1, 6)
	case 2: // final obligations
		add(0, 5)
		add(1, 8)
		add(2, 10)
		add(3, 8)
		add(0, 25)
	default:
		add(0, 10)
		add(1, 30)
		add(2, 30)
		add(3, 30)
		add(0, 60)
	}
	var last string
	for _, st := range plan {
		be := backends(st.s)[st.b]
		o := runSolver(be, text, st.s)
		if o == "unsat" {
			stats.mu.Lock()
			stats.ByBack[be.name]++
			stats.mu.Unlock()
			return Result{true, be.name, o, time.Since(t0)}
		}
		if len(o) > 400 {
			o = o[:400]
		}
		last += be.name + ": " + o + "\n"
		if strings.Contains(o, "error") && !strings.Contains(be.name, "cvc5") {
			return Result{false, be.name, "SOLVER-ERROR " + o, time.Since(t0)}
		}
	}
	return Result{false, "", last, time.Since(t0)}
}

func declared(decls []string, p *Prelude) map[string]bool {
	r := map[string]bool{}
	for _, d := range decls {
		for _, x := range viewHeap {
			if f := p.Funs[x.fh]; f != nil && f.Text == d {
				r[x.fh] = true
			}
		}
	}
	return r
}
