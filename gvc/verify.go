package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debugLoops bool
var dumpLoops = os.Getenv("GVC_DUMP")

// ---------------------------------------------------------------- solver cache and parallel proving

type solveCache struct {
	mu sync.Mutex
	m  map[[32]byte]*cacheEnt
}
type cacheEnt struct {
	once sync.Once
	res  Result
}

func newCache() *solveCache { return &solveCache{m: map[[32]byte]*cacheEnt{}} }

func (s *solveCache) solve(text string, level int) Result {
	h := sha256.Sum256([]byte(fmt.Sprint(level) + text))
	s.mu.Lock()
	e := s.m[h]
	if e == nil {
		e = &cacheEnt{}
		s.m[h] = e
	}
	s.mu.Unlock()
	e.once.Do(func() { e.res = solve(text, level) })
	return e.res
}

type parJob struct {
	ch chan bool
	cb func(bool)
}
type par struct{ jobs []parJob }

func newPar() *par { return &par{} }
func (p *par) wait() {
	for _, j := range p.jobs {
		j.cb(<-j.ch)
	}
}

func (v *Verifier) proveAsync(p *par, st *State, goal *Term, level int, hard bool, cb func(bool)) {
	ch := make(chan bool, 1)
	p.jobs = append(p.jobs, parJob{ch, cb})
	g := st.simp(st.deep(goal))
	if g.op == OTrue {
		ch <- true
		return
	}
	if g.op == OFalse {
		// the path itself may be contradictory
		g = v.c.tFalse
	}
	asm := append(append([]*Term{}, st.asm...), v.gfacts...)
	g, hyp := v.goalHyps(v.skolem(g))
	text := v.w.query(v.c, append(asm, hyp...), g, v.excl)
	less := ""
	if few := v.fewer(asm, g); hard && len(few) < len(asm) {
		less = v.w.query(v.c, append(few, hyp...), g, v.excl)
	}
	go func() {
		r := proveCache.solve(text, level)
		if !r.OK && less != "" {
			r = proveCache.solve(less, level)
		}
		if !r.OK && hard {
			r = proveCache.solve(text, -1)
		}
		if !r.OK && dumpLoops != "" {
			os.MkdirAll(dumpLoops, 0755)
			os.WriteFile(fmt.Sprintf("%s/L%x.smt2", dumpLoops, sha256.Sum256([]byte(text)))[:len(dumpLoops)+12]+".smt2", []byte("; "+strings.ReplaceAll(v.c.Str(g), "\n", " ")+"\n"+text+"(check-sat)\n"), 0644)
		}
		ch <- r.OK
	}()
}

// the assumptions without quantified facts about memories that the goal does not mention (fewer assumptions are sound)
func (v *Verifier) fewer(asm []*Term, g *Term) []*Term {
	memo := map[*Term]map[*Term]bool{}
	var mems func(t *Term) map[*Term]bool
	mems = func(t *Term) map[*Term]bool {
		if r, ok := memo[t]; ok {
			return r
		}
		r := map[*Term]bool{}
		memo[t] = r
		if v.c.isMem[t] || t.op == OConst && strings.HasPrefix(t.name, "FH") {
			r[t] = true
		}
		for _, a := range t.args {
			for m := range mems(a) {
				r[m] = true
			}
		}
		return r
	}
	has := map[string]bool{}
	name := func(t *Term) string {
		n := strings.TrimPrefix(t.name, "lm:")
		if i := strings.IndexAny(n, "@!"); i >= 0 {
			n = n[:i]
		}
		return n
	}
	for m := range mems(g) {
		has[name(m)] = true
	}
	var out []*Term
	for _, a := range asm {
		q := quantified(a)
		keep := true
		if q {
			for m := range mems(a) {
				if !has[name(m)] {
					keep = false
				}
			}
		}
		if keep {
			out = append(out, a)
		}
	}
	return out
}

func quantified(t *Term) bool {
	if t.op == OForall {
		return true
	}
	if t.op == OAnd || t.op == OOr || t.op == ONot {
		for _, a := range t.args {
			if quantified(a) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- one function

type FnReport struct {
	Name    string
	Err     string
	Obls    []*Oblig
	Used    []string
	Externs []string
	Inlined []string
	Notes   []string
	Paths   int
	Returns int
	Dur     time.Duration
}

func (v *Verifier) frame(st *State, locs []Loc) {
	c := v.c
	var names []string
	for n := range st.mem {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if n == "G:rvis" || n == "G:rcnt" || n == "G:frz" {
			continue
		}
		m0 := v.m0[n]
		m := st.mem[n]
		if m0 == nil || m == m0 {
			continue
		}
		r := c.Fresh("fr", "Int")
		c.lt[r] = v.alloc0
		var ex []*Term
		whole := false
		for _, l := range locs {
			whole = whole || l.mem == n && l.ref == nil
		}
		if whole {
			continue
		}
		hyp := []*Term{c.Lt(r, v.alloc0), c.Ge(r, c.MulK(v.alloc0, bigI(-8)))}
		a, b := c.Select(m, r), c.Select(m0, r)
		var j *Term
		if strings.HasPrefix(n, "E:") {
			j = c.Fresh("fj", "Int")
			a, b = c.Select(a, j), c.Select(b, j)
		}
		for _, l := range locs {
			if l.mem != n {
				continue
			}
			g := c.Eq(r, l.ref)
			if l.lo != nil {
				g = c.And(g, c.Ge(j, l.lo), c.Lt(j, l.hi))
			}
			if l.cond != nil {
				g = c.And(g, l.cond)
			}
			ex = append(ex, g)
		}
		s2 := st.clone()
		ok := true
		for _, h := range hyp {
			ok = ok && s2.assume(h)
		}
		for _, x := range ex {
			ok = ok && s2.assume(c.Not(x))
		}
		if !ok {
			continue
		}
		v.oblige(s2, "frame", "only what the contract lists is changed ("+n+")", v.name, nil, c.Eq(a, b))
	}
}

func (w *World) verifyFn(prop, name string, fn *ssa.Function, dl func() bool, candLvl int) (rep *FnReport, v *Verifier) {
	rep, v = w.verifyFn1(prop, name, fn, dl, candLvl, false)
	if rep == nil {
		rep, v = w.verifyFn1(prop, name, fn, dl, candLvl, true)
	}
	return
}

func (w *World) verifyFn1(prop, name string, fn *ssa.Function, dl func() bool, candLvl int, views bool) (rep *FnReport, v *Verifier) {
	t0 := time.Now()
	rep = &FnReport{Name: name}
	v = newVerifier(w, prop, name, fn)
	v.viewMode = views
	retry := false
	v.deadline = dl
	v.candLvl = candLvl
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupErr:
				rep.Err = "outside the verifier's reach: " + string(e)
			case specErr:
				rep.Err = "contract does not fit the code: " + string(e)
			case needViews:
				retry = true
			default:
				if debugPanic {
					panic(r)
				}
				rep.Err = fmt.Sprintf("verifier failure: %v", r)
			}
		}
		rep.Obls = v.obls
		rep.Used = sortedKeys(v.used)
		rep.Externs = sortedKeys(v.externs)
		rep.Inlined = sortedKeys(v.inlined)
		rep.Notes = sortedKeys(v.notes)
		rep.Paths = v.paths + 1
		rep.Returns = v.returns
		rep.Dur = time.Since(t0)
		if retry {
			rep = nil
		}
	}()
	if len(fn.Blocks) == 0 {
		panic(unsup("no body"))
	}
	v.cons = w.contractsFor(fn)
	for _, bc := range v.cons {
		if v.conViews(bc.con) {
			v.viewMode = true
		}
	}
	// one run for every dynamic type of the interface parameters, where the contract asks for it
	combos := [][]*IfaceCtor{nil}
	for _, p := range fn.Params {
		var pool []*IfaceCtor
		if v.allOptions("cases") && types.IsInterface(p.Type()) && v.closedWorld(p.Type()) && len(w.impls(p.Type())) <= 3 {
			pool = w.impls(p.Type())
		} else {
			pool = []*IfaceCtor{nil}
		}
		var nx [][]*IfaceCtor
		for _, cb := range combos {
			for _, ic := range pool {
				nx = append(nx, append(append([]*IfaceCtor{}, cb...), ic))
			}
		}
		combos = nx
	}
	for _, bc := range v.cons {
		for o := range bc.con.opts {
			if strings.HasPrefix(o, "hide:") {
				if v.excl == nil {
					v.excl = map[string]bool{}
				}
				v.excl["fn:"+o[5:]] = true
			}
		}
	}
	for _, cb := range combos {
		if f := os.Getenv("GVC_CASE"); f != "" && cb[0] != nil && !strings.Contains(types.TypeString(cb[0].T, nil), f) {
			continue // development only
		}
		v.infMemo = nil
		v.verifyRun(rep, fn, cb, nil)
	}
	for _, bc := range v.cons {
		for _, cl := range bc.con.ensures {
			if cl.scen && v.relevant(cl) {
				for _, cb := range combos {
					v.verifyRun(rep, fn, cb, cl)
				}
			}
		}
	}
	if v.returns == 0 && !v.allOptions("noreturn") {
		rep.Err = "no path of the function returns under its precondition"
	}
	return
}

func (v *Verifier) verifyRun(rep *FnReport, fn *ssa.Function, combo []*IfaceCtor, scen *Clause) {
	w := v.w
	v.conNames = nil
	st := v.newState()
	var args []Val
	var evs []EV
	for i, p := range fn.Params {
		var x Val
		if ic := combo[i]; ic != nil {
			// a non-nil value of this dynamic type
			x = v.box(st, v.symbolic(st, p.Name(), ic.T, v.alloc0), ic.T)
		} else if pt := types.NewPointer(p.Type()); fn.Signature.Recv() != nil && len(args) == 0 && w.ifaceFor(p.Type()) == nil && w.ifaceFor(pt) != nil {
			v.recvPtr = v.symbolic(st, p.Name()+".ptr", pt, v.alloc0).(*Term)
			st.assume(v.c.Gt(v.recvPtr, v.c.Int(0)))
			x = v.load(st, v.recvPtr, p.Type())
		} else {
			x = v.symbolic(st, p.Name(), p.Type(), v.alloc0)
		}
		args = append(args, x)
		evs = append(evs, EV{x, p.Type()})
	}
	if fn.Signature.Recv() != nil {
		if _, ok := fn.Signature.Recv().Type().(*types.Pointer); ok {
			st.assume(v.c.Gt(args[0].(*Term), v.c.Int(0)))
		}
	}
	for i, a := range args {
		// pointers inside of a value of the package
		if sv, ok := a.(*StructV); ok && w.ifaceFor(evs[i].t) != nil {
			for j, l := range w.leaves(evs[i].t) {
				if _, isP := l.T.Underlying().(*types.Pointer); isP {
					st.assume(v.c.Gt(sv.f[j], v.c.Int(0)))
				}
			}
		}
	}
	for _, bc := range v.cons {
		if bc.con.opts["diverges"] {
			v.diverges = true
		}
	}
	for i, a := range args {
		if t, ok := a.(*Term); ok {
			v.assumeTypeMacro(st, t, evs[i].t)
		}
	}
	for _, bc := range v.cons {
		names := v.bindContract(st, bc, evs)
		v.conNames = append(v.conNames, names)
		sc := &Scope{v: v, st: st, old: st, names: names}
		for _, cl := range bc.con.requires {
			if v.relevant(cl) {
				v.assumeClause(st, sc.Bool(cl.expr))
			}
		}
	}
	var scenVars []map[string]EV
	if scen != nil {
		v.mute++
		v.pruneAll = true
		defer func() { v.mute--; v.pruneAll = false }()
		for i, bc := range v.cons {
			vs := map[string]EV{}
			scenVars = append(scenVars, vs)
			for _, cl := range bc.con.ensures {
				if cl != scen {
					continue
				}
				sc := &Scope{v: v, st: st, old: st, names: v.conNames[i]}
				sc = sc.sub()
				for j := 0; j < len(cl.expr.vars); j += 2 {
					t, srt := sc.resolveType(cl.expr.vars[j+1])
					vs[cl.expr.vars[j]] = EV{v.c.Fresh("for."+cl.expr.vars[j], srt), t}
					sc.names[cl.expr.vars[j]] = vs[cl.expr.vars[j]]
				}
				v.assumeClause(st, sc.Bool(cl.expr.args[0].args[0]))
				// a parameter that has to equal something is that
				var eqs func(n *Node)
				eqs = func(n *Node) {
					if n.op == "bin" && n.name == "&&" {
						eqs(n.args[0])
						eqs(n.args[1])
					}
					if n.op == "bin" && n.name == "==" && n.args[0].op == "id" {
						for j, p := range fn.Params {
							if x, ok := args[j].(*Term); ok && v.conNames[i][n.args[0].name].v == Val(x) && vs[n.args[0].name].v == nil && (x.sort == "Bytes" || x.sort == "Dec") {
								y := sc.eval(n.args[1]).term()
								args[j] = y
								evs[j] = EV{y, p.Type()}
								v.conNames[i][n.args[0].name] = evs[j]
							}
						}
					}
				}
				eqs(cl.expr.args[0].args[0])
			}
		}
	}
	v.entry = st.snapshot()
	var locs [][]Loc
	for i, bc := range v.cons {
		sc := &Scope{v: v, st: v.entry, old: v.entry, names: v.conNames[i]}
		var ls []Loc
		for _, m := range bc.con.modifies {
			ls = append(ls, sc.locs(m.expr)...)
		}
		locs = append(locs, ls)
		for _, cl := range bc.con.ensures {
			_ = cl
		}
		if bc.con.decr != nil && v.relevant(bc.con.decr) {
			v.allocBound = nil
		}
		for _, cl := range bc.con.allocb {
			if v.relevant(cl) {
				v.allocBound = cl
			}
		}
	}
	for i, bc := range v.cons {
		if !bc.con.opts["noframe"] {
			v.roLocs = append(v.roLocs, locs[i])
		}
	}
	resT := resultTypes(fn.Signature)
	v.runFunc(st, fn, args, nil, func(st *State, rets []Val) {
		v.returns++
		if len(v.retAsm) < 8 {
			v.retAsm = append(v.retAsm, append([]*Term{}, st.asm...))
		}
		var rs []EV
		for i, r := range rets {
			rs = append(rs, EV{r, resT[i]})
			if t, ok := r.(*Term); ok {
				v.proveTypeMacro(st, t, resT[i], v.name)
				v.freeze(st, t, resT[i])
			}
		}
		for i, bc := range v.cons {
			names := map[string]EV{}
			for k, x := range v.conNames[i] {
				names[k] = x
			}
			v.bindResults(bc.con, names, rs)
			sc := &Scope{v: v, st: st, old: v.entry, names: names}
			for _, cl := range bc.con.hints {
				if v.relevant(cl) {
					v.hint(st, sc, cl)
				}
			}
			if scen != nil {
				for k, x := range scenVars[i] {
					names[k] = x
				}
				for _, cl := range bc.con.ensures {
					if cl == scen {
						mu := v.mute
						v.mute = 0
						v.obligeSplit(st, "postcondition", bc.con.name+" ensures "+cl.text, v.name, cl.tags, sc.Bool(cl.expr.args[0].args[1]))
						v.mute = mu
					}
				}
				continue
			}
			for _, cl := range bc.con.ensures {
				if v.relevant(cl) && !cl.scen && !cl.def {
					v.obligeSplit(st, "postcondition", bc.con.name+" ensures "+cl.text, v.name, cl.tags, sc.Bool(cl.expr))
				}
			}
			if !bc.con.opts["noframe"] {
				v.frame(st, locs[i])
			}
		}
	})
}

func (v *Verifier) allOptions(o string) bool {
	for _, bc := range v.cons {
		if bc.con.opts[o] {
			return true
		}
	}
	return false
}

func (v *Verifier) hint(st *State, sc *Scope, cl *Clause) {
	v.oblige(st, "assertion", "hint "+cl.text, v.name, cl.tags, sc.Bool(cl.expr))
}

// conjunctions and guarded conjunctions become separate obligations
func (v *Verifier) obligeSplit(st *State, kind, name, pos string, tags []string, g *Term) {
	c := v.c
	g = st.simp(st.deep(g))
	var parts []*Term
	var split func(g *Term, hyp *Term)
	split = func(g *Term, hyp *Term) {
		if g.op == OAnd {
			for _, a := range g.args {
				split(a, hyp)
			}
			return
		}
		if hyp != nil {
			g = c.Or(hyp, g)
		}
		parts = append(parts, g)
	}
	if g.op == OOr {
		// A ==> (B && C)
		var rest []*Term
		var conj *Term
		for _, a := range g.args {
			if a.op == OAnd && conj == nil {
				conj = a
			} else {
				rest = append(rest, a)
			}
		}
		if conj != nil && len(rest) > 0 {
			split(conj, c.Or(rest...))
		} else {
			split(g, nil)
		}
	} else {
		split(g, nil)
	}
	for _, p := range parts {
		v.oblige(st, kind, name, pos, tags, p)
	}
	if len(parts) == 0 {
		v.oblige(st, kind, name, pos, tags, c.tTrue)
	}
}

// solve all open obligations of a function
func (v *Verifier) discharge(level int, stop func() bool) {
	var wg sync.WaitGroup
	for _, o := range v.obls {
		if o.goal == nil || o.Res.OK {
			continue
		}
		text, less := o.text, ""
		if !o.fixed {
			asm := append(append([]*Term{}, o.asm...), v.gfacts...)
			goal, hyp := v.goalHyps(v.skolem(o.goal))
			text = v.w.query(v.c, append(asm, hyp...), goal, v.excl)
			if few := v.fewer(asm, goal); len(few) < len(asm) {
				less = v.w.query(v.c, append(few, hyp...), goal, v.excl)
			}
		}
		o := o
		wg.Add(1)
		go func() {
			defer wg.Done()
			if stop != nil && stop() {
				o.Res = Result{Out: "time limit of the check"}
				return
			}
			if less != "" {
				o.Res = proveCache.solve(text, -2)
				if !o.Res.OK {
					o.Res = proveCache.solve(less, -3)
				}
			}
			if !o.Res.OK {
				o.Res = proveCache.solve(text, level)
			}
			o.text = text
		}()
	}
	wg.Wait()
}

// universally quantified hypotheses of a goal H ==> G become assumptions
func (v *Verifier) goalHyps(g *Term) (*Term, []*Term) {
	c := v.c
	if g.op != OOr {
		if g.op == ONot && g.args[0].op == OForall {
			return c.tFalse, c.hypForall(g.args[0])
		}
		return g, nil
	}
	var rest, hyp []*Term
	for _, a := range g.args {
		if a.op != ONot {
			rest = append(rest, a)
			continue
		}
		hs := []*Term{a.args[0]}
		if hs[0].op == OAnd {
			hs = hs[0].args
		}
		for _, h := range hs {
			if h.op == OForall {
				hyp = append(hyp, c.hypForall(h)...)
			} else {
				rest = append(rest, c.Not(h))
			}
		}
	}
	if len(hyp) == 0 {
		return g, nil
	}
	return c.Or(rest...), hyp
}

// a universally quantified hypothesis, with its instances at the places the body singles out (an index stored to)
func (c *Ctx) hypForall(h *Term) []*Term {
	out := []*Term{c.normForall(h)}
	if h.op != OForall || len(h.vars) != 1 {
		return out
	}
	q := h.vars[0]
	seen := map[*Term]bool{}
	var at []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || t.op == OForall {
			return
		}
		seen[t] = true
		if t.op == OEq && len(t.args) == 2 {
			for i := 0; i < 2; i++ {
				if t.args[i] == q && len(t.args[1-i].fv) == 0 && len(at) < 3 {
					at = append(at, t.args[1-i])
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(h.args[0])
	for _, a := range at {
		out = append(out, c.Subst(h.args[0], map[*Term]*Term{q: a}))
	}
	return out
}

// quantified goals: the variables become constants
func (v *Verifier) skolem(g *Term) *Term {
	c := v.c
	switch g.op {
	case OForall:
		m := map[*Term]*Term{}
		for _, b := range g.vars {
			m[b] = c.Fresh("sk", b.sort)
		}
		return v.skolem(c.Subst(g.args[0], m))
	case OAnd, OOr:
		as := make([]*Term, len(g.args))
		for i, a := range g.args {
			as[i] = v.skolem(a)
		}
		if g.op == OAnd {
			return c.And(as...)
		}
		return c.Or(as...)
	}
	return g
}

// an axiom of the prelude that follows from the others: proved by induction over a measure in the naturals. The
// axioms proved later do not take part.
func (w *World) axiomQuery(c *Ctx, l *Lemma) (string, error) {
	excl := map[string]bool{"!proof": true}
	after := false
	var ax *PreAx
	for _, m := range w.Cons.Lemmas {
		after = after || m == l
		if after && m.meas != nil {
			excl[m.name] = true
		}
	}
	for _, a := range w.Pre.Ax {
		if a.Name == l.name {
			ax = a
		}
	}
	if ax == nil {
		return "", fmt.Errorf("no axiom %s", l.name)
	}
	body := ax.Body
	var vars []*sx
	if body.head() == "forall" {
		vars = body.list[1].list
		body = body.list[2]
	}
	pat := ""
	if body.head() == "!" {
		for _, x := range body.list[2:] {
			pat += " " + x.String()
		}
		body = body.list[1]
	}
	var b strings.Builder
	consts := map[string]*sx{}
	prime := map[string]*sx{}
	qv := ""
	for _, x := range vars {
		n, s := x.list[0].atom, x.list[1].String()
		fmt.Fprintf(&b, "(declare-fun %s!0 () %s)\n", n, s)
		consts[n] = &sx{atom: n + "!0"}
		prime[n] = &sx{atom: n + "!1"}
		qv += fmt.Sprintf("(%s!1 %s)", n, s)
	}
	syms := map[string]bool{}
	ax.Body.syms(syms)
	l.meas.syms(syms)
	for i, x := range l.with {
		if x.list[0].atom == "Cases" {
			continue
		}
		x.syms(syms)
		fmt.Fprintf(&b, "(declare-fun hint!%d (%s) Bool)\n(assert (hint!%d %s))\n", i, x.list[0], i, x.list[1].subst(consts))
	}
	if qv != "" {
		m0, m1 := l.meas.subst(consts), l.meas.subst(prime)
		p1 := ""
		for _, x := range parseSx(pat) {
			p1 += " " + x.subst(prime).String()
		}
		fmt.Fprintf(&b, "(assert (forall (%s) (! (=> (and (<= 0 %s) (< %s %s)) %s)%s)))\n", qv, m1, m1, m0, body.subst(prime), p1)
	}
	p := &printer{c: c, decl: map[string]string{}, lits: map[string]bool{}, funs: syms, copyN: map[*Term]string{}, shared: map[*Term]string{}}
	goal := body.subst(consts).String()
	if l.meas.String() == "0" {
		// no induction: the goal in simplified form, with definitions unfolded
		env := map[string]*Term{}
		for _, x := range vars {
			env[x.list[0].atom] = c.Const(x.list[0].atom+"!0", x.list[1].String())
		}
		if t := c.sxTerm(body, env); t != nil {
			goal = p.str(t)
			for _, x := range vars {
				delete(p.decl, x.list[0].atom+"!0")
			}
		}
	}
	fmt.Fprintf(&b, "(assert (not %s))\n", goal)
	for _, n := range litRe.FindAllString(b.String(), -1) {
		if s, ok := litOf(n); ok {
			p.lits[s] = true
		}
	}
	return w.queryHead(p, excl) + b.String(), nil
}

func (x *sx) subst(m map[string]*sx) *sx {
	if !x.isL {
		if y := m[x.atom]; y != nil {
			return y
		}
		return x
	}
	r := &sx{isL: true}
	for _, y := range x.list {
		r.list = append(r.list, y.subst(m))
	}
	return r
}

func (w *World) verifyLemma(prop string, l *Lemma) (rep *FnReport, v *Verifier) {
	if l.meas != nil {
		rep = &FnReport{Name: "axiom " + l.name, Paths: 1, Returns: 1}
		v = newVerifier(w, prop, rep.Name, nil)
		text, err := w.axiomQuery(v.c, l)
		if err != nil {
			rep.Err = err.Error()
			return
		}
		name := "axiom " + l.name + " by induction over " + l.meas.String()
		split := []string{""}
		for _, x := range l.with {
			if x.list[0].atom == "Cases" {
				// one query per constructor of the variable's sort
				split = nil
				for n, k := range w.Pre.Ctors {
					if k.Sort == x.list[2].atom {
						split = append(split, fmt.Sprintf("(assert ((_ is %s) %s!0))\n", n, x.list[1].atom))
					}
				}
				sort.Strings(split)
			}
		}
		for _, e := range split {
			n := name
			if e != "" {
				n += ", case " + strings.TrimSpace(e)
			}
			rep.Obls = append(rep.Obls, &Oblig{Kind: "lemma", Name: n, Pos: l.pos, goal: v.c.tFalse, text: text + e, fixed: true})
		}
		v.obls = rep.Obls
		return
	}
	rep = &FnReport{Name: "lemma " + l.name}
	v = newVerifier(w, prop, "lemma "+l.name, nil)
	t0 := time.Now()
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupErr:
				rep.Err = string(e)
			case specErr:
				rep.Err = string(e)
			default:
				rep.Err = fmt.Sprintf("verifier failure: %v", r)
			}
		}
		rep.Obls = v.obls
		rep.Paths, rep.Returns = 1, 1
		rep.Dur = time.Since(t0)
	}()
	st := v.newState()
	sc := &Scope{v: v, st: st, old: st, names: map[string]EV{}}
	for i := 0; i < len(l.vars); i += 2 {
		t, srt := sc.resolveType(l.vars[i+1])
		sc.names[l.vars[i]] = EV{v.c.Fresh(l.vars[i], srt), t}
	}
	v.entry = st.snapshot()
	for _, cl := range l.pre {
		v.assumeClause(st, sc.Bool(cl.expr))
	}
	v.retAsm = append(v.retAsm, append([]*Term{}, st.asm...))
	for _, cl := range l.goals {
		v.obligeSplit(st, "lemma", l.name+": "+cl.text, l.pos, l.tags, sc.Bool(cl.expr))
	}
	return
}
