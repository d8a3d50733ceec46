package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- loops

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	phis   []*ssa.Phi
	outs   []ssa.Value // defined outside, used inside
	comps  []*ssa.BinOp
	nexts  []*ssa.Next
	recvs  []*ssa.UnOp
	name   string
}

type loopRun struct {
	li        *loopInfo
	depth     int
	back      func(st *State)
	discovery bool
	unroll    int
	first     *State
	done      *bool // >0: unrolling
}

func (v *Verifier) loopAt(b *ssa.BasicBlock) *loopInfo {
	key := fmt.Sprintf("%p", b)
	if li, ok := v.loopMemo[key]; ok {
		return li
	}
	var li *loopInfo
	for _, p := range b.Preds {
		if b.Dominates(p) {
			if li == nil {
				li = &loopInfo{head: b, blocks: map[*ssa.BasicBlock]bool{b: true}}
			}
			stack := []*ssa.BasicBlock{p}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if li.blocks[x] {
					continue
				}
				li.blocks[x] = true
				stack = append(stack, x.Preds...)
			}
		}
	}
	if li != nil {
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				li.phis = append(li.phis, ph)
			}
		}
		seen := map[ssa.Value]bool{}
		var bl []*ssa.BasicBlock
		for x := range li.blocks {
			bl = append(bl, x)
		}
		sort.Slice(bl, func(i, j int) bool { return bl[i].Index < bl[j].Index })
		for _, x := range bl {
			for _, in := range x.Instrs {
				switch y := in.(type) {
				case *ssa.BinOp:
					switch y.Op {
					case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
						if bt, ok := y.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
							li.comps = append(li.comps, y)
						}
					}
				case *ssa.Next:
					li.nexts = append(li.nexts, y)
				case *ssa.UnOp:
					if y.Op == token.ARROW {
						li.recvs = append(li.recvs, y)
					}
				}
				for _, op := range in.Operands(nil) {
					o := *op
					if o == nil || seen[o] {
						continue
					}
					switch d := o.(type) {
					case *ssa.Parameter, *ssa.FreeVar:
						seen[o] = true
						li.outs = append(li.outs, o)
					case ssa.Instruction:
						if !li.blocks[d.Block()] {
							seen[o] = true
							li.outs = append(li.outs, o)
						}
					}
				}
			}
		}
		li.name = fmt.Sprintf("loop at %s", v.posOf(firstPos(bl)))
	}
	v.loopMemo[key] = li
	return li
}

func firstPos(bl []*ssa.BasicBlock) ssa.Instruction {
	for _, b := range bl {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				if _, ok := in.(*ssa.Phi); !ok {
					return in
				}
			}
		}
	}
	return bl[0].Instrs[0]
}

func loopKey(st *State, b *ssa.BasicBlock) string { return fmt.Sprintf("%d/%p", len(st.envs), b) }

// called by block: leaving loops, or stopping a discovery run at the loop's exit
func (v *Verifier) loopExit(st *State, b *ssa.BasicBlock) bool {
	for key, run := range st.loops {
		if run.depth == len(st.envs) && !run.li.blocks[b] {
			if run.discovery {
				return true
			}
			delete(st.loops, key)
		}
	}
	return false
}

// header condition decided by what is known
func (v *Verifier) probe(st *State, b *ssa.BasicBlock) (known bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupErr); ok {
				known = false
				return
			}
			panic(r)
		}
	}()
	s2 := st.clone()
	v.mute++
	defer func() { v.mute-- }()
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			t := s2.simp(s2.deep(v.term(s2, x.Cond)))
			return t.op == OTrue || t.op == OFalse
		case *ssa.Call:
			bi, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				return false
			}
			y, ok := v.val(s2, x.Call.Args[0]).(*Term)
			if !ok {
				return false
			}
			switch y.sort {
			case "Slice":
				s2.env()[x] = v.c.Len(y)
			case "Bytes":
				s2.env()[x] = v.c.BLen(y)
			default:
				return false
			}
		case *ssa.BinOp:
			v.step(s2, in)
		default:
			return false
		}
	}
	return false
}

const maxUnroll = 64

func (v *Verifier) enterLoop(st *State, li *loopInfo, b, prev *ssa.BasicBlock, k cont) {
	key := loopKey(st, b)
	n := 0
	first, done := st, new(bool)
	if prev != nil && li.blocks[prev] {
		run := st.loops[key]
		if run == nil {
			panic(unsup("loop bookkeeping"))
		}
		if run.unroll == 0 {
			run.back(st)
			return
		}
		n, first, done = run.unroll, run.first, run.done
	}
	if *done {
		return
	}
	if n < maxUnroll && v.probe(st, b) {
		if n == 0 {
			first = st.clone()
		}
		st.loops[key] = &loopRun{li: li, depth: len(st.envs), unroll: n + 1, first: first, done: done}
		v.instrs(st, b, 0, k)
		return
	}
	// a loop that cannot be unrolled to its end is cut where it starts
	*done = true
	st = first
	delete(st.loops, key)
	v.cutLoop(st, li, b, key, k)
}

type memMode struct {
	level  int // 0: nothing older than the loop changed but refs; 1: nothing older than the function; 2: anything
	refs   []*Term
	noninv bool
}

type loopCand struct {
	name string
	eval func(st *State, it *Term) *Term
	dead bool
	user bool
}

type loopCfg struct {
	mems  map[string]*memMode
	alloc bool
	defs  map[string]int // component key -> index into alternatives; -1 fresh
}

func (c *Ctx) hasNew(t *Term, mark int) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.id < mark || seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OConst && !strings.HasSuffix(t.name, "@0") && !strings.HasPrefix(t.name, "g:") && !strings.HasPrefix(t.name, "gref:") && !strings.HasPrefix(t.name, "f64:") && t.name != "ghostobj" {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

var proveCache = newCache()

func (v *Verifier) prove(st *State, goal *Term, level int) bool {
	g := st.simp(st.deep(goal))
	if g.op == OTrue {
		return true
	}
	if g.op == OFalse {
		return false
	}
	if g.op == OAnd {
		for _, a := range g.args {
			if !v.prove(st, a, level) {
				return false
			}
		}
		return true
	}
	asm := append(append([]*Term{}, st.asm...), v.gfacts...)
	g, hyp := v.goalHyps(v.skolem(g))
	text := v.w.query(v.c, append(asm, hyp...), g, v.excl)
	return proveCache.solve(text, level).OK
}

type loopMemo struct {
	cfg  *loopCfg
	dead map[string]bool
}

func (v *Verifier) cutLoop(entry *State, li *loopInfo, b *ssa.BasicBlock, key string, k cont) {
	c := v.c
	cfg := &loopCfg{mems: map[string]*memMode{}, defs: map[string]int{}}
	inits := map[*ssa.Phi]Val{}
	for _, ph := range li.phis {
		inits[ph] = entry.env()[ph]
	}
	// what an earlier inference of this loop on the same path gave up (an enclosing loop's inference only gets weaker)
	memoKey := key + "|" + strings.Join(entry.trace, "|")
	memo := v.infMemo[memoKey]
	if memo != nil {
		for n, md := range memo.cfg.mems {
			cfg.mems[n] = &memMode{level: md.level, noninv: md.noninv}
		}
		for n, d := range memo.cfg.defs {
			cfg.defs[n] = d
		}
		cfg.alloc = memo.cfg.alloc
	}
	// alternatives for the components of the loop variables, as functions of the iteration counter
	alts := func(init *Term, isLen bool) []func(it *Term) *Term {
		r := []func(it *Term) *Term{func(it *Term) *Term { return init }}
		if init.sort == "Int" {
			r = append(r, func(it *Term) *Term { return c.Add(init, it) }, func(it *Term) *Term { return c.Sub(init, it) })
		}
		return r
	}
	type comp struct {
		key  string
		alts []func(it *Term) *Term
		get  func(st *State) *Term
	}
	var comps []comp
	for _, ph := range li.phis {
		ph := ph
		switch x := inits[ph].(type) {
		case *Term:
			if x.sort == "Slice" {
				for i, s := range []string{"s_arr", "s_off", "s_len", "s_cap"} {
					s := s
					a := alts(c.Sel(s, x), i == 2)
					if i == 0 {
						a = a[:1]
					}
					comps = append(comps, comp{ph.Name() + "." + s, a, func(st *State) *Term { return c.Sel(s, st.env()[ph].(*Term)) }})
				}
			} else {
				a := alts(x, false)
				if _, isB := ph.Type().Underlying().(*types.Basic); !isB {
					a = a[:1]
				}
				comps = append(comps, comp{ph.Name(), a, func(st *State) *Term { return st.env()[ph].(*Term) }})
			}
		case *StructV:
			for i := range x.f {
				i := i
				comps = append(comps, comp{fmt.Sprintf("%s.%d", ph.Name(), i), alts(x.f[i], false)[:1], func(st *State) *Term { return st.env()[ph].(*StructV).f[i] }})
			}
		case *FuncV, *PtrV:
		}
	}
	var mark int
	var it *Term
	compAt := map[string]*Term{}
	pick := func(h *State, ckey string, init *Term, t types.Type) *Term {
		var cp *comp
		for i := range comps {
			if comps[i].key == ckey {
				cp = &comps[i]
			}
		}
		d := cfg.defs[ckey]
		var r *Term
		if d >= 0 && d < len(cp.alts) {
			r = cp.alts[d](it)
		} else {
			r = c.Fresh("l:"+ckey, init.sort)
			c.lt[r] = h.alloc
			if t != nil {
				v.typeInv(h, r, t)
			}
		}
		compAt[ckey] = r
		return r
	}
	makeHead := func() *State {
		h := entry.clone()
		mark = c.n
		it = c.Fresh("it", "Int")
		c.nonneg[it] = true
		h.assumeRaw(c.mk(&Term{op: OGe0, sort: "Bool", args: []*Term{it}}))
		if cfg.alloc {
			v.advance(h)
		}
		for n, md := range cfg.mems {
			m := entry.get(n, v.memLeaf[n])
			base := m
			if md.noninv || md.level == 2 {
				base = c.Fresh("lm:"+n, m.sort)
				c.isMem[base] = true
				c.lt[base] = h.alloc
				switch md.level {
				case 0:
					c.agree[base] = agreeInfo{old: m, bound: entry.alloc}
				case 1:
					c.agree[base] = agreeInfo{old: m, bound: v.alloc0}
				}
				if md.level < 2 && len(md.refs) == 0 {
					q := c.BVar("r", "Int")
					h.assume(c.Forall([]*Term{q}, c.Implies(c.Lt(q, c.agree[base].bound), c.Eq(rawSelect(c, base, q), c.Select(m, q))), [][]*Term{{rawSelect(c, base, q)}}))
				} else if md.level < 2 {
					q := c.BVar("r", "Int")
					h.assume(c.Forall([]*Term{q}, c.Implies(c.Lt(q, c.agree[base].bound), c.Eq(rawSelect(c, base, q), c.Select(m, q))), [][]*Term{{rawSelect(c, base, q)}}))
				}
			}
			if md.level < 2 {
				for _, r := range md.refs {
					nm := "lh:" + n
					if n == "E:byte" {
						nm = "bytes_arr_lh"
					}
					x := c.Fresh(nm, elemSort(m.sort))
					c.lt[x] = h.alloc
					base = c.Store(base, r, x)
				}
			}
			h.mem[n] = base
		}
		for _, ph := range li.phis {
			switch x := inits[ph].(type) {
			case *Term:
				if x.sort == "Slice" {
					ti := types.Typ[types.Int]
					s := c.Slice(pick(h, ph.Name()+".s_arr", c.Arr(x), nil), pick(h, ph.Name()+".s_off", c.Off(x), ti), pick(h, ph.Name()+".s_len", c.Len(x), ti), pick(h, ph.Name()+".s_cap", c.Cap(x), ti))
					h.env()[ph] = s
					v.typeInv(h, s, ph.Type())
				} else {
					r := pick(h, ph.Name(), x, ph.Type())
					h.env()[ph] = r
				}
			case *StructV:
				sv := &StructV{t: x.t}
				ls := v.w.leaves(x.t)
				for i := range x.f {
					sv.f = append(sv.f, pick(h, fmt.Sprintf("%s.%d", ph.Name(), i), x.f[i], ls[i].T))
				}
				h.env()[ph] = sv
			default:
				h.env()[ph] = x
			}
		}
		h.its["#"] = it
		return h
	}
	var cands []*loopCand
	add := func(name string, f func(st *State, it *Term) *Term) {
		cands = append(cands, &loopCand{name: name, eval: f})
	}
	v.autoCands(entry, li, inits, add)
	v.userCands(entry, li, inits, &cands)
	evalC := func(cd *loopCand, st *State, it *Term) (t *Term) {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case specErr, unsupErr:
					t = nil
				default:
					panic(r)
				}
			}
		}()
		return cd.eval(st, it)
	}
	alive := func() []*loopCand {
		var r []*loopCand
		for _, cd := range cands {
			if !cd.dead {
				r = append(r, cd)
			}
		}
		return r
	}
	debug := debugLoops
	// initiation
	par := newPar()
	for ci, cd := range cands {
		if memo != nil && memo.dead[fmt.Sprint(ci, cd.name)] {
			cd.dead = true
			continue
		}
		t := evalC(cd, entry, c.Int(0))
		if t == nil {
			cd.dead = true
			if debug && cd.user {
				fmt.Printf("  [%s] cannot evaluate %s\n", li.name, cd.name)
			}
			continue
		}
		cd := cd
		v.proveAsync(par, entry, t, v.candLvl, cd.user, func(ok bool) {
			if !ok {
				cd.dead = true
				if debug && cd.user {
					fmt.Printf("  [%s] not initially: %s\n", li.name, cd.name)
				}
			}
		})
	}
	par.wait()
	assumeCands := func(h *State) bool {
		ok := true
		for _, cd := range alive() {
			t := evalC(cd, h, it)
			if t == nil {
				cd.dead = true
				continue
			}
			if !h.assume(t) {
				ok = false
			}
		}
		return ok
	}
	runBody := func(h *State) (backs []*State) {
		h.loops[key] = &loopRun{li: li, depth: len(h.envs), discovery: true, back: func(st *State) { backs = append(backs, st) }}
		v.mute++
		v.instrs(h, b, 0, func(*State, []Val) {})
		v.mute--
		return
	}
	// walk of a memory term back to the loop's own
	type chain struct {
		refs []*Term
		ok   bool
		bnd  []*Term
	}
	walkMem := func(m, head *Term) chain {
		var ch chain
		// a store at the reference of an earlier store replaces it: the head may be seen only below its own stores
		anc := map[*Term][]*Term{}
		var peeled []*Term
		for x := head; ; x = x.args[0] {
			anc[x] = append([]*Term{}, peeled...)
			if x.op != OStore {
				break
			}
			peeled = append(peeled, x.args[1])
		}
		for {
			if pl, ok := anc[m]; ok {
				ch.refs = append(ch.refs, pl...)
				ch.ok = true
				return ch
			}
			if m.op == OStore {
				ch.refs = append(ch.refs, m.args[0+1])
				m = m.args[0]
				continue
			}
			if a, ok := c.agree[m]; ok && m != head {
				ch.bnd = append(ch.bnd, a.bound)
				m = a.old
				continue
			}
			return ch
		}
	}
	headBase := func(h *State, n string) *Term { // the head's memory without the stores at its references
		m := h.mem[n]
		return m
	}
	var backs []*State
	var head *State
	for round := 0; ; round++ {
		if round > 60 {
			panic(unsup("loop inference does not settle"))
		}
		head = makeHead()
		feasible := assumeCands(head)
		hm := map[string]*Term{}
		for n := range head.mem {
			hm[n] = head.mem[n]
		}
		h2 := head.clone()
		if feasible {
			backs = runBody(h2)
		} else {
			backs = nil
		}
		changed := false
		// memory discovery
		for _, bs := range backs {
			if bs.alloc != head.alloc && !cfg.alloc {
				cfg.alloc = true
				changed = true
			}
			for n, m := range bs.mem {
				hmN, ok := hm[n]
				if !ok {
					hmN = v.m0[n]
					if hmN == nil {
						continue
					}
				}
				if m == hmN {
					continue
				}
				md := cfg.mems[n]
				if md == nil {
					md = &memMode{}
					cfg.mems[n] = md
					changed = true
				}
				if md.level == 2 {
					continue
				}
				ch := walkMem(m, hmN)
				if !ch.ok {
					md.level = 2
					changed = true
					continue
				}
				for _, r := range ch.refs {
					if !c.hasNew(r, mark) {
						found := false
						for _, x := range md.refs {
							found = found || x == r
						}
						if !found {
							md.refs = append(md.refs, r)
							changed = true
						}
					} else if !md.noninv {
						md.noninv = true
						changed = true
					}
				}
				if len(ch.bnd) > 0 && !md.noninv {
					md.noninv = true
					changed = true
				}
			}
		}
		_ = headBase
		if changed {
			continue
		}
		// definitions of the loop variables
		for _, cp := range comps {
			d := cfg.defs[cp.key]
			if d < 0 || d >= len(cp.alts) {
				continue
			}
			for _, bs := range backs {
				want := cp.alts[d](c.AddI(it, 1))
				got := cp.get(bs)
				if got == want || v.prove(bs, c.Eq(got, want), 0) {
					continue
				}
				cfg.defs[cp.key] = d + 1
				changed = true
				break
			}
		}
		if changed {
			continue
		}
		// old memory untouched
		for n, md := range cfg.mems {
			if md.level == 2 || !md.noninv {
				continue
			}
			for _, bs := range backs {
				m := bs.mem[n]
				ch := walkMem(m, hm[n])
				lv := md.level
				for lv < 2 {
					bound := entry.alloc
					if lv == 1 {
						bound = v.alloc0
					}
					good := true
					for _, r := range ch.refs {
						if !c.hasNew(r, mark) {
							continue
						}
						if !v.prove(bs, c.Ge(r, bound), 0) {
							good = false
							break
						}
					}
					for _, bd := range ch.bnd {
						if good && !v.prove(bs, c.Ge(bd, bound), 0) {
							good = false
						}
					}
					if good {
						break
					}
					lv++
				}
				if lv != md.level {
					md.level = lv
					changed = true
				}
			}
		}
		if changed {
			continue
		}
		// candidate invariants are preserved
		par := newPar()
		for _, cd := range alive() {
			for _, bs := range backs {
				t := evalC(cd, bs, c.AddI(it, 1))
				if t == nil {
					cd.dead = true
					changed = true
					break
				}
				cd := cd
				v.proveAsync(par, bs, t, v.candLvl, cd.user, func(ok bool) {
					if !ok && !cd.dead {
						cd.dead = true
						changed = true
						if debug && cd.user {
							fmt.Printf("  [%s] not preserved: %s\n", li.name, cd.name)
							if d := os.Getenv("GVC_LOOPDUMP"); d != "" {
								g, hyp := v.goalHyps(v.skolem(bs.simp(bs.deep(t))))
								os.WriteFile(fmt.Sprintf("%s/loop%d.smt2", d, c.n), []byte(v.w.query(c, append(append([]*Term{}, bs.asm...), hyp...), g, v.excl)), 0644)
							}
						}
					}
				})
			}
		}
		par.wait()
		if !changed {
			break
		}
	}
	if v.infMemo == nil {
		v.infMemo = map[string]*loopMemo{}
	}
	memo = &loopMemo{cfg: cfg, dead: map[string]bool{}}
	for ci, cd := range cands {
		if cd.dead {
			memo.dead[fmt.Sprint(ci, cd.name)] = true
		}
	}
	v.infMemo[memoKey] = memo
	// record what was established
	inv := 0
	for _, cd := range alive() {
		inv++
		if v.mute == 0 {
			v.obls = append(v.obls, &Oblig{Fn: v.name, Name: "loop invariant holds initially and is preserved: " + cd.name, Kind: "loopinv", Pos: li.name, Res: Result{OK: true, Backend: "z3-new (loop inference)"}})
			if debug {
				fmt.Printf("  [%s] invariant %s\n", li.name, cd.name)
			}
		}
	}
	if debug {
		for n, md := range cfg.mems {
			fmt.Printf("  [%s] memory %s level %d refs %d noninv %v\n", li.name, n, md.level, len(md.refs), md.noninv)
		}
		for _, cp := range comps {
			fmt.Printf("  [%s] %s def %d\n", li.name, cp.key, cfg.defs[cp.key])
		}
	}
	// termination
	if v.mute == 0 && !v.diverges {
		ok := len(backs) == 0
		if !ok {
			ok = v.terminates(entry, head, backs, li, it)
		}
		goal := c.tFalse
		if ok {
			goal = c.tTrue
		}
		if ok {
			v.obls = append(v.obls, &Oblig{Fn: v.name, Name: li.name + " terminates", Kind: "termination", Pos: li.name, Res: Result{OK: true, Backend: "z3-new (loop inference)"}})
		} else {
			s2 := head.clone()
			v.oblige(s2, "termination", li.name+" terminates", li.name, nil, goal)
		}
	}
	// the rest of the function, from an arbitrary iteration
	outer := entry.its["#"]
	_ = outer
	head.loops[key] = &loopRun{li: li, depth: len(head.envs), back: func(st *State) {}}
	v.instrs(head, b, 0, k)
}

func rawSelect(c *Ctx, a, i *Term) *Term {
	return c.mk(&Term{op: OSelect, sort: elemSort(a.sort), args: []*Term{a, i}})
}

// values of SSA expressions recomputed from the loop variables
func (v *Verifier) pureVal(st *State, li *loopInfo, x ssa.Value, d int) *Term {
	c := v.c
	if d > 8 {
		return nil
	}
	switch y := x.(type) {
	case *ssa.Const:
		t, _ := v.val(st, y).(*Term)
		return t
	case *ssa.Phi:
		if y.Block() == li.head {
			t, _ := st.env()[y].(*Term)
			return t
		}
	}
	if in, ok := x.(ssa.Instruction); ok && li.blocks[in.Block()] {
		switch y := x.(type) {
		case *ssa.BinOp:
			a, b := v.pureVal(st, li, y.X, d+1), v.pureVal(st, li, y.Y, d+1)
			if a == nil || b == nil || a.sort != "Int" || b.sort != "Int" {
				return nil
			}
			switch y.Op {
			case token.ADD:
				return c.Add(a, b)
			case token.SUB:
				return c.Sub(a, b)
			case token.MUL:
				return c.Mul(a, b)
			}
			return nil
		case *ssa.Call:
			if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				a := v.pureVal(st, li, y.Call.Args[0], d+1)
				if a == nil {
					return nil
				}
				switch a.sort {
				case "Slice":
					return c.Len(a)
				case "Bytes":
					return c.BLen(a)
				}
			}
			return nil
		case *ssa.Convert:
			a := v.pureVal(st, li, y.X, d+1)
			if a == nil || a.sort != "Int" || v.w.sortOf(y.Type()) != "Int" {
				return nil
			}
			return v.wrapInt(a, y.Type())
		case *ssa.UnOp:
			if y.Op == token.MUL {
				if fa, ok := y.X.(*ssa.FieldAddr); ok {
					a := v.pureVal(st, li, fa.X, d+1)
					if a == nil {
						return nil
					}
					p := v.fieldAddr(st, a, fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field)
					t, _ := v.load(st, p, y.Type()).(*Term)
					return t
				}
			}
		}
		return nil
	}
	t, ok := st.env()[x].(*Term)
	if !ok {
		return nil
	}
	return t
}

func (v *Verifier) autoCands(entry *State, li *loopInfo, inits map[*ssa.Phi]Val, add func(string, func(*State, *Term) *Term)) {
	c := v.c
	type bnd struct {
		name string
		f    func(st *State) *Term
	}
	var bounds []bnd
	seen := map[*Term]bool{}
	addB := func(name string, f func(st *State) *Term) {
		var t *Term
		func() {
			defer func() { recover() }()
			t = f(entry)
		}()
		if t == nil || t.sort != "Int" {
			return
		}
		if t.op != OInt {
			if seen[t] {
				return
			}
			seen[t] = true
		} else if seen[t] {
			return
		}
		seen[t] = true
		bounds = append(bounds, bnd{name, f})
	}
	for _, cp := range li.comps {
		for _, s := range []ssa.Value{cp.X, cp.Y} {
			s := s
			if ph, ok := s.(*ssa.Phi); ok && ph.Block() == li.head {
				continue
			}
			addB(s.String(), func(st *State) *Term { return v.pureVal(st, li, s, 0) })
		}
	}
	for _, o := range li.outs {
		o := o
		t, ok := entry.env()[o].(*Term)
		if !ok {
			continue
		}
		switch t.sort {
		case "Int":
			if b, ok := o.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				addB(o.Name(), func(st *State) *Term { return st.env()[o].(*Term) })
			}
		case "Slice":
			addB("len "+o.Name(), func(st *State) *Term { return c.Len(st.env()[o].(*Term)) })
		case "Bytes":
			addB("len "+o.Name(), func(st *State) *Term { return c.BLen(st.env()[o].(*Term)) })
		}
	}
	for _, ph := range li.phis {
		ph := ph
		init, ok := inits[ph].(*Term)
		if !ok {
			continue
		}
		cur := func(st *State) *Term { return st.env()[ph].(*Term) }
		nm := ph.Comment
		if nm == "" {
			nm = ph.Name()
		}
		switch init.sort {
		case "Int":
			if b, ok := ph.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				continue
			}
			add(nm+" >= init", func(st *State, it *Term) *Term { return c.Ge(cur(st), init) })
			add(nm+" <= init", func(st *State, it *Term) *Term { return c.Le(cur(st), init) })
			add(nm+" >= 0", func(st *State, it *Term) *Term { return c.Ge(cur(st), c.Int(0)) })
			add(nm+" >= -1", func(st *State, it *Term) *Term { return c.Ge(cur(st), c.Int(-1)) })
			for _, bd := range bounds {
				bd := bd
				add(nm+" <= "+bd.name, func(st *State, it *Term) *Term { return c.Le(cur(st), bd.f(st)) })
				add(nm+" < "+bd.name, func(st *State, it *Term) *Term { return c.Lt(cur(st), bd.f(st)) })
				add(nm+" >= "+bd.name, func(st *State, it *Term) *Term { return c.Ge(cur(st), bd.f(st)) })
			}
		case "Slice":
			add(nm+" is fresh", func(st *State, it *Term) *Term { return c.Ge(c.Arr(cur(st)), entry.alloc) })
			add(nm+" is fresh or empty", func(st *State, it *Term) *Term {
				return c.Or(c.Ge(c.Arr(cur(st)), entry.alloc), c.Eq(c.Cap(cur(st)), c.Int(0)))
			})
			add(nm+" is newer than the call", func(st *State, it *Term) *Term { return c.Ge(c.Arr(cur(st)), v.alloc0) })
			add(nm+" is newer than the call or empty", func(st *State, it *Term) *Term {
				return c.Or(c.Ge(c.Arr(cur(st)), v.alloc0), c.Eq(c.Cap(cur(st)), c.Int(0)))
			})
			if st, ok := ph.Type().Underlying().(*types.Slice); ok && v.viewMode && fhOf[elemMem(v.w, st.Elem())] != "" {
				add(nm+" is not part of a value yet", func(st *State, it *Term) *Term {
					return c.Or(c.Eq(c.Cap(cur(st)), c.Int(0)), c.Not(st.ghost("frz", c.Arr(cur(st)))))
				})
			}
			add("len "+nm+" <= it", func(st *State, it *Term) *Term { return c.Le(c.Len(cur(st)), c.Add(c.Len(init), it)) })
			for _, bd := range bounds {
				bd := bd
				add("len "+nm+" <= "+bd.name, func(st *State, it *Term) *Term { return c.Le(c.Len(cur(st)), bd.f(st)) })
			}
		case "Iface":
			add(nm+" is nil", func(st *State, it *Term) *Term { return c.Is("i_nil", cur(st)) })
			add(nm+" is not nil", func(st *State, it *Term) *Term { return c.Not(c.Is("i_nil", cur(st))) })
			if init.op == OCtor {
				add(nm+" keeps its dynamic type", func(st *State, it *Term) *Term { return c.Is(init.name, cur(st)) })
			}
		}
	}
	// the iteration counter against the bounds
	for _, bd := range bounds {
		bd := bd
		add("iterations <= "+bd.name, func(st *State, it *Term) *Term {
			t := bd.f(st)
			if t == nil {
				panic(specErr("x"))
			}
			return c.Le(it, t)
		})
	}
}

func (v *Verifier) tyMatch(t types.Type, want string) bool {
	if v.w.tname(t) == want {
		return true
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok && strings.HasPrefix(want, "[]") && v.w.tname(t.Underlying()) == want
}

// invariants of the contract, matched to the loop's variables by Go type
func (v *Verifier) userCands(entry *State, li *loopInfo, inits map[*ssa.Phi]Val, cands *[]*loopCand) {
	type lv struct {
		x ssa.Value
	}
	for ci, bc := range v.cons {
		for _, cl := range bc.con.loopinv {
			if !v.relevant(cl) {
				continue
			}
			var pools [][]ssa.Value
			ok := true
			for i := 0; i < len(cl.lv); i += 2 {
				want := cl.lv[i+1]
				var pool []ssa.Value
				phOnly := strings.HasSuffix(want, "!")
				want = strings.TrimSuffix(want, "!")
				outOnly := strings.HasSuffix(want, "~")
				want = strings.TrimSuffix(want, "~")
				for _, ph := range li.phis {
					if !outOnly && v.tyMatch(ph.Type(), want) {
						pool = append(pool, ph)
					}
				}
				if !phOnly {
					for _, o := range li.outs {
						if v.tyMatch(o.Type(), want) {
							pool = append(pool, o)
						}
					}
					for _, n := range li.nexts {
						if want == "iter" {
							pool = append(pool, n.Iter)
						}
					}
				}
				if len(pool) == 0 {
					ok = false
				}
				pools = append(pools, pool)
			}
			if !ok {
				continue
			}
			combos := [][]ssa.Value{nil}
			for _, p := range pools {
				var nx [][]ssa.Value
				for _, c0 := range combos {
					for _, x := range p {
						same := false
						for i, y := range c0 {
							same = same || x == y && strings.HasSuffix(cl.lv[2*i+1], "!") && strings.HasSuffix(cl.lv[2*len(c0)+1], "!")
						}
						if !same {
							nx = append(nx, append(append([]ssa.Value{}, c0...), x))
						}
					}
				}
				combos = nx
			}
			if len(combos) > 48 {
				combos = combos[:48]
			}
			for _, cb := range combos {
				cb := cb
				cl := cl
				ci := ci
				nm := cl.text
				for i, x := range cb {
					n := x.Name()
					if ph, ok := x.(*ssa.Phi); ok && ph.Comment != "" {
						n = ph.Comment
					}
					nm += fmt.Sprintf(" [%s=%s]", cl.lv[2*i], n)
				}
				*cands = append(*cands, &loopCand{name: nm, user: true, eval: func(st *State, it *Term) *Term {
					names := map[string]EV{}
					for k, e := range v.conNames[ci] {
						names[k] = e
					}
					ini := map[string]EV{}
					for i, x := range cb {
						val, ok := st.env()[x]
						if !ok {
							panic(specErr("undefined"))
						}
						t := x.Type()
						names[cl.lv[2*i]] = EV{val, t}
						if iv, ok := entry.env()[x]; ok {
							ini[cl.lv[2*i]] = EV{iv, t}
						}
					}
					sc := &Scope{v: v, st: st, old: v.entry, names: names, it: it, lentry: entry, inits: ini}
					return sc.Bool(cl.expr)
				}})
			}
		}
	}
}

func (v *Verifier) terminates(entry, head *State, backs []*State, li *loopInfo, it *Term) bool {
	c := v.c
	type vr struct {
		name string
		f    func(st *State, it *Term) *Term
	}
	var vs []vr
	for _, cp := range li.comps {
		cp := cp
		diff := func(neg bool) func(st *State, it *Term) *Term {
			return func(st *State, it *Term) *Term {
				a, b := v.pureVal(st, li, cp.X, 0), v.pureVal(st, li, cp.Y, 0)
				if a == nil || b == nil {
					return nil
				}
				if neg {
					return c.Sub(a, b)
				}
				return c.Sub(b, a)
			}
		}
		vs = append(vs, vr{"comparand difference", diff(false)}, vr{"comparand difference", diff(true)})
	}
	for _, n := range li.nexts {
		n := n
		vs = append(vs, vr{"remaining keys", func(st *State, it *Term) *Term {
			rg := n.Iter.(*ssa.Range)
			i, ok := st.env()[rg].(*Term)
			m, ok2 := st.env()[rg.X].(*Term)
			if !ok || !ok2 {
				return nil
			}
			return c.Sub(c.Ite(c.Eq(m, c.Int(0)), c.Int(0), st.ghost("mlen", m)), st.ghost("rcnt", i))
		}})
	}
	for _, r := range li.recvs {
		r := r
		vs = append(vs, vr{"values left in the channel", func(st *State, it *Term) *Term {
			ch, ok := st.env()[r.X].(*Term)
			if !ok {
				return nil
			}
			return c.App("vs_len", "Int", st.ghost("chrest", ch))
		}})
	}
	for _, o := range li.phis {
		o := o
		if t, ok := inits0(head, o); ok && t.sort == "Slice" {
			vs = append(vs, vr{"length", func(st *State, it *Term) *Term { return c.Len(st.env()[o].(*Term)) }})
		}
		if t, ok := inits0(head, o); ok && t.sort == "Int" {
			if b, isb := o.Type().Underlying().(*types.Basic); isb && b.Info()&types.IsInteger != 0 {
				vs = append(vs, vr{"value", func(st *State, it *Term) *Term { return st.env()[o].(*Term) }})
			}
		}
	}
	for ci, bc := range v.cons {
		for _, cl := range bc.con.variant {
			cl := cl
			ci := ci
			vs = append(vs, vr{cl.text, func(st *State, it *Term) *Term {
				sc := &Scope{v: v, st: st, old: v.entry, names: v.conNames[ci], it: it, lentry: entry}
				return sc.eval(cl.expr).term()
			}})
		}
	}
	for _, x := range vs {
		ok := true
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r.(type) {
					case specErr, unsupErr:
						ok = false
					default:
						panic(r)
					}
				}
			}()
			eh := x.f(head, it)
			if eh == nil {
				ok = false
				return
			}
			for _, bs := range backs {
				eb := x.f(bs, c.AddI(it, 1))
				if eb == nil || !v.prove(bs, c.And(c.Ge(eh, c.Int(0)), c.Lt(eb, eh)), 0) {
					ok = false
					return
				}
			}
		}()
		if ok {
			return true
		}
	}
	return false
}

func inits0(st *State, ph *ssa.Phi) (*Term, bool) {
	t, ok := st.env()[ph].(*Term)
	return t, ok
}
