package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- values

type Val interface{}

type StructV struct {
	t types.Type
	f []*Term
}

type PtrV struct {
	kind string // field elem global
	ref  *Term
	idx  *Term
	t    types.Type // pointee type
	st   types.Type // struct type of a field pointer
	path []int
	mem  string
	g    *ssa.Global
}

type FuncV struct {
	fn   *ssa.Function
	bind []Val
	bi   string
}

type TupleV struct{ v []Val }

// ---------------------------------------------------------------- state

type State struct {
	v      *Verifier
	mem    map[string]*Term
	alloc  *Term
	asm    []*Term
	asmSet map[*Term]bool
	dyn    map[*Term]string // interface terms with known constructor
	notd   map[string]bool  // "id/ctor" excluded constructors
	envs   []map[ssa.Value]Val
	conds  []*Term
	its    map[string]*Term // loop header -> iteration counter term
	loops  map[string]*loopRun
	inv    map[*Term]bool // type invariants already assumed
	trace  []string
	depth  int
	eqs    map[*Term]*Term // known constant values of integer terms
	defers [][]*ssa.Defer
	dead   bool // this path cannot be taken
}

func (s *State) clone() *State {
	n := *s
	n.mem = map[string]*Term{}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.asm = s.asm[:len(s.asm):len(s.asm)]
	n.asmSet = map[*Term]bool{}
	for k := range s.asmSet {
		n.asmSet[k] = true
	}
	n.dyn = map[*Term]string{}
	for k, v := range s.dyn {
		n.dyn[k] = v
	}
	n.notd = map[string]bool{}
	for k, v := range s.notd {
		n.notd[k] = v
	}
	n.envs = make([]map[ssa.Value]Val, len(s.envs))
	for i, e := range s.envs {
		m := make(map[ssa.Value]Val, len(e))
		for k, v := range e {
			m[k] = v
		}
		n.envs[i] = m
	}
	n.its = map[string]*Term{}
	for k, v := range s.its {
		n.its[k] = v
	}
	n.loops = map[string]*loopRun{}
	for k, v := range s.loops {
		n.loops[k] = v
	}
	n.inv = map[*Term]bool{}
	for k := range s.inv {
		n.inv[k] = true
	}
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.conds = s.conds[:len(s.conds):len(s.conds)]
	n.defers = make([][]*ssa.Defer, len(s.defers))
	for i := range s.defers {
		n.defers[i] = s.defers[i][:len(s.defers[i]):len(s.defers[i])]
	}
	return &n
}

// assume a fact; false when it contradicts what is known syntactically
func (s *State) assume(t *Term) bool {
	c := s.v.c
	t = s.simp(t)
	if t.op == OTrue || s.asmSet[t] {
		return true
	}
	if t.op == OFalse {
		s.asm = append(s.asm, t)
		return false
	}
	if t.op == OAnd {
		for _, a := range t.args {
			if !s.assume(a) {
				return false
			}
		}
		return true
	}
	if s.asmSet[c.Not(t)] {
		s.asm = append(s.asm, c.tFalse)
		return false
	}
	if t.op == OIs {
		if d, ok := s.dyn[t.args[0]]; ok {
			return d == t.name
		}
		if s.notd[fmt.Sprintf("%d/%s", t.args[0].id, t.name)] {
			return false
		}
		s.dyn[t.args[0]] = t.name
	}
	if t.op == ONot && t.args[0].op == OIs {
		x := t.args[0]
		if d, ok := s.dyn[x.args[0]]; ok && d == x.name {
			return false
		}
		s.notd[fmt.Sprintf("%d/%s", x.args[0].id, x.name)] = true
	}
	s.asmSet[t] = true
	t = c.hoist(t)
	if t.op == OForall {
		t = c.normForall(t)
	}
	s.asm = append(s.asm, t)
	return true
}

// simplification under the facts of the path (top level connectives only)
func (s *State) simp(t *Term) *Term {
	c := s.v.c
	switch t.op {
	case OTrue, OFalse:
		return t
	case OIs:
		if d, ok := s.dyn[t.args[0]]; ok {
			return c.Bool(d == t.name)
		}
		if s.notd[fmt.Sprintf("%d/%s", t.args[0].id, t.name)] {
			return c.tFalse
		}
	case ONot:
		return c.Not(s.simp(t.args[0]))
	case OAnd, OOr:
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = s.simp(a)
			ch = ch || as[i] != a
		}
		if ch {
			if t.op == OAnd {
				t = c.And(as...)
			} else {
				t = c.Or(as...)
			}
		}
	case OIte:
		p := s.simp(t.args[0])
		if p != t.args[0] {
			if t.sort == "Bool" {
				return c.Ite(p, s.simp(t.args[1]), s.simp(t.args[2]))
			}
			return c.Ite(p, t.args[1], t.args[2])
		}
	}
	if s.asmSet[t] {
		return c.tTrue
	}
	if t.sort == "Bool" && t.op != OTrue && t.op != OFalse && s.asmSet[c.Not(t)] {
		return c.tFalse
	}
	return t
}

// deep simplification of a value: decides conditions inside by the path facts
func (s *State) deep(t *Term) *Term {
	c := s.v.c
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.args) == 0 || t.op == OForall {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.op == OIte {
			p := s.simp(rec(t.args[0]))
			if p.op == OTrue {
				r = rec(t.args[1])
			} else if p.op == OFalse {
				r = rec(t.args[2])
			} else {
				r = c.Ite(p, rec(t.args[1]), rec(t.args[2]))
			}
		} else {
			as := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				as[i] = rec(a)
				ch = ch || as[i] != a
			}
			r = t
			if ch {
				r = c.rebuild(t, as)
			}
			if r.sort == "Bool" {
				r = s.simp(r)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (s *State) fact(t *Term) bool { return s.simp(t).op == OTrue }

// a disjunction with one quantified member is quantified itself
func (c *Ctx) hoist(t *Term) *Term {
	if t.op != OOr {
		return t
	}
	k := -1
	for i, a := range t.args {
		if a.op == OForall && a.pats == nil {
			if k >= 0 {
				return t
			}
			k = i
		}
	}
	if k < 0 {
		return t
	}
	q := t.args[k]
	as := append([]*Term{}, t.args[:k]...)
	as = append(as, t.args[k+1:]...)
	as = append(as, q.args[0])
	return c.Forall(q.vars, c.Or(as...), nil)
}

// quantified hypotheses are triggered by the array elements they speak about
func (c *Ctx) normForall(t *Term) *Term {
	if t.op != OForall || t.pats != nil {
		return t
	}
	body := t.args[0]
	if len(t.vars) == 1 {
		v := t.vars[0]
		if v.sort != "Int" {
			return c.withPats(t)
		}
		type piv struct {
			arr  *Term
			rest *Term
			neg  bool
			sel  bool
		}
		var ps []piv
		seen := map[string]bool{}
		vis := map[*Term]bool{}
		var walk func(x *Term)
		walk = func(x *Term) {
			if vis[x] || !x.fv[v] {
				return
			}
			vis[x] = true
			if (x.op == OSelect || x.op == OApp && x.name == "at") && len(x.args[0].fv) == 0 {
				l := toLin(x.args[1])
				if f := l.m[v]; f != nil && f.CmpAbs(bone) == 0 {
					delete(l.m, v)
					rest := c.fromLin(l)
					if len(rest.fv) == 0 {
						k := fmt.Sprintf("%d/%d/%v", x.args[0].id, rest.id, f.Sign())
						if !seen[k] {
							seen[k] = true
							ps = append(ps, piv{x.args[0], rest, f.Sign() < 0, x.op == OSelect})
						}
					}
				}
			}
			for _, a := range x.args {
				walk(a)
			}
		}
		walk(body)
		// copies and ites as array: their printed form is a constant or macro; use arrays that make good patterns
		var out []*Term
		for _, p := range ps {
			if !c.patOK(p.arr) {
				continue
			}
			j := c.BVar("q", "Int")
			var sub *Term
			if p.neg {
				sub = c.Sub(p.rest, j)
			} else {
				sub = c.Sub(j, p.rest)
			}
			b := c.Subst(body, map[*Term]*Term{v: sub})
			var pat *Term
			if p.sel {
				pat = c.mk(&Term{op: OSelect, sort: elemSort(p.arr.sort), args: []*Term{p.arr, j}})
			} else {
				pat = c.mk(&Term{op: OApp, sort: "Int", name: "at", args: []*Term{p.arr, j}})
			}
			out = append(out, c.Forall([]*Term{j}, b, [][]*Term{{pat}}))
			if len(out) >= 4 {
				break
			}
		}
		if len(out) == 0 {
			return c.withPats(t)
		}
		return c.And(out...)
	}
	if len(t.vars) == 2 && t.vars[0].sort == "Int" && t.vars[1].sort == "Int" {
		// sortedness shapes: one pivot per variable over the same array
		var ps [2][]struct{ arr, rest *Term }
		vis := map[*Term]bool{}
		var walk func(x *Term)
		walk = func(x *Term) {
			if vis[x] || len(x.fv) == 0 {
				return
			}
			vis[x] = true
			if x.op == OSelect && len(x.args[0].fv) == 0 && c.patOK(x.args[0]) {
				for k, v := range t.vars {
					l := toLin(x.args[1])
					if f := l.m[v]; f != nil && f.Cmp(bone) == 0 {
						delete(l.m, v)
						rest := c.fromLin(l)
						if len(rest.fv) == 0 {
							ps[k] = append(ps[k], struct{ arr, rest *Term }{x.args[0], rest})
						}
					}
				}
			}
			for _, a := range x.args {
				walk(a)
			}
		}
		walk(body)
		if len(ps[0]) > 0 && len(ps[1]) > 0 {
			var out []*Term
			for i := 0; i < len(ps[0]) && i < 2; i++ {
				p0 := ps[0][i]
				p1 := ps[1][0]
				for _, q := range ps[1] {
					if q.arr == p0.arr {
						p1 = q
						break
					}
				}
				a, b := c.BVar("q", "Int"), c.BVar("q", "Int")
				bd := c.Subst(body, map[*Term]*Term{t.vars[0]: c.Sub(a, p0.rest), t.vars[1]: c.Sub(b, p1.rest)})
				pat := []*Term{
					c.mk(&Term{op: OSelect, sort: elemSort(p0.arr.sort), args: []*Term{p0.arr, a}}),
					c.mk(&Term{op: OSelect, sort: elemSort(p1.arr.sort), args: []*Term{p1.arr, b}}),
				}
				out = append(out, c.Forall([]*Term{a, b}, bd, [][]*Term{pat}))
			}
			return c.And(out...)
		}
	}
	return c.withPats(t)
}

func (c *Ctx) patOK(a *Term) bool {
	switch a.op {
	case OConst, OCopy:
		return true
	case OSelect:
		return c.patOK(a.args[0])
	case OSel, OApp:
		return true
	}
	return false
}

// general patterns: smallest set of uninterpreted applications covering the variables
func (c *Ctx) withPats(t *Term) *Term {
	var cands []*Term
	vis := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if vis[x] || len(x.fv) == 0 {
			return
		}
		vis[x] = true
		ok := x.op == OApp || x.op == OSelect && c.patOK(x.args[0]) || x.op == OSelect && x.args[0].op == OSelect
		if ok {
			// arguments free of interpreted symbols over the bound variables
			var clean func(y *Term) bool
			clean = func(y *Term) bool {
				if len(y.fv) == 0 {
					return true
				}
				switch y.op {
				case OConst:
					return true
				case OApp, OSelect, OSel, OCtor, OUnit, OCat, OMkb:
					for _, a := range y.args {
						if !clean(a) {
							return false
						}
					}
					return true
				}
				return false
			}
			if clean(x) {
				cands = append(cands, x)
			}
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(t.args[0])
	covers := func(x *Term) int {
		n := 0
		for _, v := range t.vars {
			if x.fv[v] {
				n++
			}
		}
		return n
	}
	var pats [][]*Term
	for _, x := range cands {
		if covers(x) == len(t.vars) {
			pats = append(pats, []*Term{x})
			if len(pats) >= 3 {
				break
			}
		}
	}
	if len(pats) == 0 {
		// greedy multi-pattern
		need := map[*Term]bool{}
		for _, v := range t.vars {
			need[v] = true
		}
		var mp []*Term
		for _, x := range cands {
			hit := false
			for v := range need {
				if x.fv[v] {
					hit = true
				}
			}
			if hit {
				mp = append(mp, x)
				for v := range x.fv {
					delete(need, v)
				}
			}
		}
		if len(need) > 0 || len(mp) == 0 {
			return t
		}
		pats = [][]*Term{mp}
	}
	return c.Forall(t.vars, t.args[0], pats)
}

// ---------------------------------------------------------------- memory

func memSort(name, leaf string) string {
	if strings.HasPrefix(name, "E:") {
		return arrSort(arrSort(leaf))
	}
	return arrSort(leaf)
}

func (s *State) get(name, leaf string) *Term {
	if t, ok := s.mem[name]; ok {
		return t
	}
	t := s.v.mem0(name, leaf)
	s.mem[name] = t
	return t
}

func (v *Verifier) mem0(name, leaf string) *Term {
	if t, ok := v.m0[name]; ok {
		return t
	}
	t := v.c.Const(name+"@0", memSort(name, leaf))
	v.c.lt[t] = v.alloc0
	v.c.isMem[t] = true
	v.m0[name] = t
	v.memLeaf[name] = leaf
	return t
}

func (s *State) set(name string, t *Term) { s.mem[name] = t }

var ghostSorts = map[string]string{"wout": "Bytes", "wfail": "Bool", "rrest": "Bytes", "rclean": "Bool", "big": "Int",
	"mdom": "(Array Bytes Bool)", "mval": "(Array Bytes Iface)", "mlen": "Int", "frozen": "Bool", "frz": "Bool",
	"chseq": "VS", "chclosed": "Bool", "chrest": "VS", "ucalls": "Int", "uarg": "Iface", "uret": "Iface", "imdom": "(Array Int Bool)", "imval": "(Array Int Int)", "hsum": "Bytes", "scal": "Int", "rlim": "Int", "bigf": "Bigf", "jenc": "Iface", "jesc": "Bool", "rvis": "(Array Bytes Bool)", "rcnt": "Int", "halg": "Int", "rnd": "Int"}

func (s *State) ghost(name string, key *Term) *Term {
	return s.v.c.Select(s.get("G:"+name, ghostSorts[name]), key)
}
func (s *State) setGhost(name string, key, val *Term) {
	m := s.get("G:"+name, ghostSorts[name])
	s.set("G:"+name, s.v.c.Store(m, key, val))
}

// ---------------------------------------------------------------- spec evaluation

type EV struct {
	v Val
	t types.Type
}

func (e EV) term() *Term {
	t, ok := e.v.(*Term)
	if !ok {
		panic(specErr(fmt.Sprintf("not a simple value: %T", e.v)))
	}
	return t
}

type specErr string

type Scope struct {
	v     *Verifier
	st    *State // current (post) state
	old   *State // pre state
	names map[string]EV
	it    *Term
	depth int
	pos   string
	lentry *State
	inits map[string]EV
}

func (sc *Scope) sub() *Scope {
	n := *sc
	n.names = map[string]EV{}
	for k, v := range sc.names {
		n.names[k] = v
	}
	return &n
}

func (sc *Scope) fail(n *Node, f string, a ...interface{}) {
	panic(specErr(n.pos + ": " + fmt.Sprintf(f, a...)))
}

func (sc *Scope) Bool(n *Node) *Term {
	e := sc.eval(n)
	t := e.term()
	if t.sort != "Bool" {
		sc.fail(n, "boolean expected, got %s", t.sort)
	}
	return t
}

// type or sort named in a specification
func (sc *Scope) resolveType(name string) (types.Type, string) {
	w := sc.v.w
	switch name {
	case "Bytes", "V", "VL", "KL", "IL", "Int", "Bool", "Iface", "Slice", "F64", "Dec", "VS", "ER":
		return nil, name
	}
	t := w.lookupType(name)
	if t == nil {
		// sorts declared in the prelude
		if w.Pre != nil {
			for _, s := range w.Pre.Sorts {
				if strings.Contains(s, "("+name+" 0)") || strings.Contains(s, "declare-sort "+name+" ") {
					return nil, name
				}
			}
		}
		panic(specErr("unknown type " + name))
	}
	return t, w.sortOf(t)
}

func (sc *Scope) coerce(e EV, sort string, t types.Type) EV {
	if x, ok := e.v.(*Term); ok {
		if x.sort == sort {
			if t == nil {
				t = e.t
			}
			return EV{x, t}
		}
		if x.op == OApp && x.name == "$nil" {
			return EV{sc.v.nilOf(sort), t}
		}
		if sort == "Iface" && e.t != nil {
			return EV{sc.v.box(sc.st, x, e.t), t}
		}
	} else if sort == "Iface" && e.t != nil {
		return EV{sc.v.box(sc.st, e.v, e.t), t}
	}
	return e
}

func (v *Verifier) nilOf(sort string) *Term {
	switch sort {
	case "Iface":
		return v.c.Ctor("i_nil")
	case "Slice":
		return v.c.NilSlice()
	case "Int":
		return v.c.Int(0)
	}
	panic(specErr("nil of sort " + sort))
}

func (sc *Scope) eval(n *Node) EV {
	c := sc.v.c
	w := sc.v.w
	switch n.op {
	case "num":
		b, ok := new(big.Int).SetString(n.name, 0)
		if !ok {
			sc.fail(n, "number %s", n.name)
		}
		return EV{c.BigI(b), types.Typ[types.Int]}
	case "str":
		return EV{c.Blit(n.name), types.Typ[types.String]}
	case "id":
		if e, ok := sc.names[n.name]; ok {
			return e
		}
		switch n.name {
		case "true":
			return EV{c.tTrue, types.Typ[types.Bool]}
		case "false":
			return EV{c.tFalse, types.Typ[types.Bool]}
		case "nil":
			return EV{c.mk(&Term{op: OApp, sort: "Nil", name: "$nil"}), nil}
		}
		if ci := c.ctorOf[n.name]; ci != nil && len(ci.Sels) == 0 {
			return EV{c.Ctor(n.name), nil}
		}
		if o := w.TPkg.Scope().Lookup(n.name); o != nil {
			switch x := o.(type) {
			case *types.Const:
				return EV{sc.v.constTerm(x.Val(), x.Type()), x.Type()}
			case *types.Var:
				g := w.Pkg.Var(n.name)
				return EV{sc.v.readGlobal(sc.st, g), x.Type()}
			}
		}
		if f := w.Pre.Funs[n.name]; f != nil && len(f.Args) == 0 {
			return EV{c.App(n.name, f.Ret), nil}
		}
		sc.fail(n, "unknown name %s", n.name)
	case "ghost":
		switch n.name {
		case "it":
			if sc.it == nil {
				sc.fail(n, "#it outside loop")
			}
			return EV{sc.it, types.Typ[types.Int]}
		case "alloc":
			return EV{sc.st.alloc, types.Typ[types.Int]}
		}
		sc.fail(n, "unknown ghost %s", n.name)
	case "un":
		x := sc.eval(n.args[0])
		if n.name == "!" {
			return EV{c.Not(x.term()), types.Typ[types.Bool]}
		}
		return EV{c.MulK(x.term(), bmone), x.t}
	case "bin":
		return sc.evalBin(n)
	case "if":
		p := sc.Bool(n.args[0])
		a, b := sc.eval(n.args[1]), sc.eval(n.args[2])
		for _, e := range []*EV{&a, &b} {
			if _, ok := e.v.(*StructV); ok {
				*e = EV{sc.v.box(sc.st, e.v, e.t), nil}
			}
		}
		if at, ok := a.v.(*Term); ok {
			if bt, ok := b.v.(*Term); ok {
				if at.sort != bt.sort {
					if at.sort == "Nil" || bt.sort == "Iface" {
						a = sc.coerce(a, bt.sort, b.t)
					} else {
						b = sc.coerce(b, at.sort, a.t)
					}
				}
			}
		}
		t := a.t
		if t == nil {
			t = b.t
		}
		return EV{c.Ite(p, a.term(), b.term()), t}
	case "let":
		s2 := sc.sub()
		s2.names[n.name] = sc.eval(n.args[0])
		return s2.eval(n.args[1])
	case "forall":
		s2 := sc.sub()
		var vs []*Term
		var ranges []*Term
		for i := 0; i < len(n.vars); i += 2 {
			t, srt := sc.resolveType(n.vars[i+1])
			b := c.BVar(n.vars[i], srt)
			vs = append(vs, b)
			s2.names[n.vars[i]] = EV{b, t}
		}
		_ = ranges
		return EV{c.Forall(vs, s2.Bool(n.args[0]), nil), types.Typ[types.Bool]}
	case "dyn":
		x := sc.eval(n.args[0])
		t, _ := sc.resolveType(n.name)
		ic := w.ifaceFor(t)
		if ic == nil {
			sc.fail(n, "type %s never boxed", n.name)
		}
		return EV{c.Is(ic.Ctor.Name, x.term()), types.Typ[types.Bool]}
	case "as":
		x := sc.eval(n.args[0])
		t, _ := sc.resolveType(n.name)
		return EV{sc.v.unbox(sc.st, x.term(), t), t}
	case "box":
		x := sc.eval(n.args[0])
		t := x.t
		if n.name != "" {
			t, _ = sc.resolveType(n.name)
		}
		return EV{sc.v.box(sc.st, x.v, t), nil}
	case "field":
		x := sc.eval(n.args[0])
		return sc.field(n, x, n.name)
	case "index":
		x := sc.eval(n.args[0])
		i := sc.eval(n.args[1]).term()
		xt := x.term()
		switch {
		case xt.sort == "Slice":
			el := elemOf(x.t)
			if el == nil {
				sc.fail(n, "index of untyped slice")
			}
			m := sc.st.get(elemMem(w, el), w.sortOf(el))
			return EV{c.Select(c.Select(m, c.Arr(xt)), c.Add(c.Off(xt), i)), el}
		case xt.sort == "Bytes":
			return EV{c.At(xt, i), types.Typ[types.Uint8]}
		case strings.HasPrefix(xt.sort, "(Array"):
			return EV{c.Select(xt, i), elemOf(x.t)}
		}
		sc.fail(n, "index of %s", xt.sort)
	case "slice":
		x := sc.eval(n.args[0])
		xt := x.term()
		lo := c.Int(0)
		if n.args[1] != nil {
			lo = sc.eval(n.args[1]).term()
		}
		if xt.sort == "Bytes" {
			hi := c.BLen(xt)
			if n.args[2] != nil {
				hi = sc.eval(n.args[2]).term()
			}
			return EV{c.BSub(xt, lo, hi), x.t}
		}
		hi := c.Len(xt)
		if n.args[2] != nil {
			hi = sc.eval(n.args[2]).term()
		}
		return EV{c.Slice(c.Arr(xt), c.Add(c.Off(xt), lo), c.Sub(hi, lo), c.Sub(c.Cap(xt), lo)), x.t}
	case "call":
		return sc.call(n)
	}
	sc.fail(n, "cannot evaluate %s", n.op)
	return EV{}
}

func elemOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
	}
	return nil
}

func (sc *Scope) field(n *Node, x EV, name string) EV {
	w := sc.v.w
	if x.t == nil {
		sc.fail(n, "field %s of untyped value", name)
	}
	t := x.t
	ptr := false
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		ptr = true
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		sc.fail(n, "field %s of %s", name, t)
	}
	fi := -1
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			fi = i
		}
	}
	if fi < 0 {
		sc.fail(n, "no field %s in %s", name, t)
	}
	ft := st.Field(fi).Type()
	switch v := x.v.(type) {
	case *Term:
		if !ptr {
			sc.fail(n, "field of term")
		}
		p := sc.v.fieldAddr(sc.st, v, t, fi)
		if pv, ok := p.(*PtrV); ok {
			if _, isS := ft.Underlying().(*types.Struct); isS && isOpaque(ft) == "" {
				return EV{pv, types.NewPointer(ft)}
			}
			return EV{sc.v.load(sc.st, pv, ft), ft}
		}
		// embedded array or ghost object
		if _, isArr := ft.Underlying().(*types.Array); isArr {
			return EV{sc.v.load(sc.st, p, ft), ft}
		}
		return EV{p, types.NewPointer(ft)}
	case *PtrV:
		p := sc.v.fieldAddr(sc.st, v, t, fi)
		if pv, ok := p.(*PtrV); ok {
			if _, isS := ft.Underlying().(*types.Struct); isS && isOpaque(ft) == "" {
				return EV{pv, types.NewPointer(ft)}
			}
			return EV{sc.v.load(sc.st, pv, ft), ft}
		}
		if _, isArr := ft.Underlying().(*types.Array); isArr {
			return EV{sc.v.load(sc.st, p, ft), ft}
		}
		return EV{p, types.NewPointer(ft)}
	case *StructV:
		return EV{w.structField(v, t, fi), ft}
	}
	sc.fail(n, "field %s", name)
	return EV{}
}

func (sc *Scope) evalBin(n *Node) EV {
	c := sc.v.c
	tb := types.Typ[types.Bool]
	switch n.name {
	case "&&":
		return EV{c.And(sc.Bool(n.args[0]), sc.Bool(n.args[1])), tb}
	case "||":
		return EV{c.Or(sc.Bool(n.args[0]), sc.Bool(n.args[1])), tb}
	case "==>":
		p := sc.Bool(n.args[0])
		if p.op == OFalse {
			return EV{c.tTrue, tb}
		}
		return EV{c.Implies(p, sc.Bool(n.args[1])), tb}
	case "<==>":
		return EV{c.Iff(sc.Bool(n.args[0]), sc.Bool(n.args[1])), tb}
	}
	a, b := sc.eval(n.args[0]), sc.eval(n.args[1])
	switch n.name {
	case "==", "!=":
		var r *Term
		as, aok := a.v.(*StructV)
		bs, bok := b.v.(*StructV)
		if aok && bok {
			var cs []*Term
			for i := range as.f {
				cs = append(cs, c.Eq(as.f[i], bs.f[i]))
			}
			r = c.And(cs...)
		} else {
			if at, ok := a.v.(*Term); ok && at.sort == "Nil" {
				a, b = b, a
			}
			if bt, ok := b.v.(*Term); ok && bt.sort == "Nil" && a.term().sort == "Slice" {
				r = c.Eq(c.Arr(a.term()), c.Int(0))
			} else if aok || bok {
				// struct against interface (e.g. Null)
				if aok {
					r = c.Eq(sc.v.box(sc.st, a.v, a.t), b.term())
				} else {
					r = c.Eq(a.term(), sc.v.box(sc.st, b.v, b.t))
				}
			} else {
				if b.term().sort != a.term().sort {
					if b.term().sort == "Iface" {
						a = sc.coerce(a, "Iface", b.t)
					} else {
						b = sc.coerce(b, a.term().sort, a.t)
					}
				}
				if a.term().sort != b.term().sort {
					sc.fail(n, "== on %s and %s", a.term().sort, b.term().sort)
				}
				r = c.Eq(a.term(), b.term())
			}
		}
		if n.name == "!=" {
			r = c.Not(r)
		}
		return EV{r, tb}
	case "<", "<=", ">", ">=":
		x, y := a.term(), b.term()
		if n.name[0] == '>' {
			x, y = y, x
		}
		strict := len(n.name) == 1
		if x.sort == "Bytes" {
			if strict {
				return EV{c.App("blt", "Bool", x, y), tb}
			}
			return EV{c.Not(c.App("blt", "Bool", y, x)), tb}
		}
		if x.sort != "Int" || y.sort != "Int" {
			sc.fail(n, "order on %s %s", x.sort, y.sort)
		}
		if strict {
			return EV{c.Lt(x, y), tb}
		}
		return EV{c.Le(x, y), tb}
	case "+":
		if a.term().sort == "Bytes" {
			return EV{c.Cat(a.term(), b.term()), a.t}
		}
		return EV{c.Add(a.term(), b.term()), a.t}
	case "-":
		return EV{c.Sub(a.term(), b.term()), a.t}
	case "*":
		return EV{c.Mul(a.term(), b.term()), a.t}
	case "/", "%":
		d := b.term()
		if d.op != OInt || d.val.Sign() <= 0 {
			sc.fail(n, "division by non-literal")
		}
		if n.name == "/" {
			return EV{c.DivK(a.term(), d.val), a.t}
		}
		return EV{c.ModK(a.term(), d.val), a.t}
	case "++":
		return EV{c.Cat(sc.coerce(a, "Bytes", nil).term(), sc.coerce(b, "Bytes", nil).term()), types.Typ[types.String]}
	}
	sc.fail(n, "operator %s", n.name)
	return EV{}
}

func (sc *Scope) call(n *Node) EV {
	c := sc.v.c
	w := sc.v.w
	tb := types.Typ[types.Bool]
	ti := types.Typ[types.Int]
	arg := func(i int) EV {
		if i >= len(n.args) {
			sc.fail(n, "%s: missing argument", n.name)
		}
		return sc.eval(n.args[i])
	}
	switch n.name {
	case "old":
		s2 := *sc
		s2.st = sc.old
		return s2.eval(n.args[0])
	case "pre": // the state at loop entry
		if sc.lentry == nil {
			sc.fail(n, "pre outside loop invariant")
		}
		s2 := *sc
		s2.st = sc.lentry
		return s2.eval(n.args[0])
	case "init": // value of a loop variable at loop entry
		e, ok := sc.inits[n.args[0].name]
		if !ok {
			sc.fail(n, "init of %s", n.args[0].name)
		}
		return e
	case "len":
		x := arg(0).term()
		switch x.sort {
		case "Slice":
			return EV{c.Len(x), ti}
		case "Bytes":
			return EV{c.BLen(x), ti}
		}
		sc.fail(n, "len of %s", x.sort)
	case "cap":
		return EV{c.Cap(arg(0).term()), ti}
	case "arr":
		return EV{c.Arr(arg(0).term()), ti}
	case "off":
		return EV{c.Off(arg(0).term()), ti}
	case "contents": // the backing array of a slice
		x := arg(0)
		el := elemOf(x.t)
		return EV{c.Select(sc.st.get(elemMem(w, el), w.sortOf(el)), c.Arr(x.term())), types.NewSlice(el)}
	case "bytes":
		x := arg(0)
		t := x.term()
		if t.sort == "Bytes" {
			return x
		}
		m := sc.st.get("E:byte", "Int")
		if x.t != nil {
			if pt, ok := x.t.Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok {
					return EV{c.Mkb(c.Select(m, t), c.Int(0), c.Int(at.Len())), types.Typ[types.String]}
				}
			}
		}
		return EV{c.Mkb(c.Select(m, c.Arr(t)), c.Off(t), c.Len(t)), types.Typ[types.String]}
	case "fresh": // allocated after the pre-state
		x := arg(0).term()
		if x.sort == "Slice" {
			return EV{c.Or(c.Ge(c.Arr(x), sc.old.alloc), c.Lt(c.Arr(x), c.MulK(sc.old.alloc, bigI(-8))), c.Eq(c.Cap(x), c.Int(0))), tb}
		}
		return EV{c.Ge(x, sc.old.alloc), tb}
	case "newat": // fresh with respect to the pre-state, as a reference
		return EV{c.Ge(arg(0).term(), sc.old.alloc), tb}
	case "live": // allocated before now
		x := arg(0).term()
		if x.sort == "Slice" {
			x = c.Arr(x)
		}
		return EV{c.Lt(x, sc.st.alloc), tb}
	case "oldref":
		x := arg(0).term()
		if x.sort == "Slice" {
			x = c.Arr(x)
		}
		return EV{c.Lt(x, sc.old.alloc), tb}
	case "wf": // slice header well-formed
		return EV{sc.v.sliceWF(arg(0).term()), tb}
	case "unit":
		return EV{c.Unit(arg(0).term()), types.Typ[types.String]}
	case "arrof":
		return EV{c.ArrOf(arg(0).term()), nil}
	case "mkb":
		return EV{c.Mkb(arg(0).term(), arg(1).term(), arg(2).term()), types.Typ[types.String]}
	case "sel":
		return EV{c.Select(arg(0).term(), arg(1).term()), nil}
	case "objid":
		return EV{sc.v.objid(arg(0).term()), ti}
	case "extvar": // a variable of another package, such as io.EOF
		if n.args[0].op != "str" {
			sc.fail(n, "extvar needs a name")
		}
		i := strings.LastIndexByte(n.args[0].name, '.')
		p := w.Prog.ImportedPackage(n.args[0].name[:i])
		if p == nil || p.Var(n.args[0].name[i+1:]) == nil {
			sc.fail(n, "no variable %s", n.args[0].name)
		}
		g := p.Var(n.args[0].name[i+1:])
		return EV{sc.v.readGlobal(sc.st, g), g.Type().Underlying().(*types.Pointer).Elem()}
	case "infallible": // a writer whose Write never fails
		return EV{sc.v.infallible(arg(0).term()), tb}
	case "ite":
		return EV{c.Ite(arg(0).term(), arg(1).term(), arg(2).term()), nil}
	case "wrap64":
		return EV{sc.v.wrapInt(arg(0).term(), types.Typ[types.Int64]), types.Typ[types.Int64]}
	case "implements": // dynamic type of x implements interface T (closed world)
		sc.fail(n, "implements needs type")
	case "havoc":
		sc.fail(n, "havoc")
	}
	if strings.HasPrefix(n.name, "$") {
		g := n.name[1:]
		srt, ok := ghostSorts[g]
		if !ok {
			sc.fail(n, "ghost %s", g)
		}
		k := arg(0).term()
		if k.sort == "Iface" {
			k = sc.v.objid(k)
		}
		_ = srt
		return EV{sc.st.ghost(g, k), nil}
	}
	if strings.HasPrefix(n.name, "is_") {
		if c.ctorOf[n.name[3:]] != nil {
			return EV{c.Is(n.name[3:], arg(0).term()), tb}
		}
	}
	if m := w.Cons.Macros[n.name]; m != nil && m.body != nil {
		if sc.depth > 40 {
			sc.fail(n, "macro recursion")
		}
		if len(n.args)*2 != len(m.params) {
			sc.fail(n, "macro %s arity", n.name)
		}
		var distribute func(a EV) EV
		if len(n.args) == 1 {
			if t, srt := sc.resolveType(m.params[1]); srt == "Iface" {
				// a case distinction in the argument becomes one of the result
				distribute = func(a EV) EV {
					x := a.v.(*Term)
					if x.op == OIte {
						p := distribute(EV{x.args[1], a.t})
						q := distribute(EV{x.args[2], a.t})
						if pt, ok := p.v.(*Term); ok {
							if qt, ok := q.v.(*Term); ok && pt.sort == qt.sort {
								return EV{c.Ite(x.args[0], pt, qt), p.t}
							}
						}
						sc.fail(n, "macro over cases")
					}
					s3 := &Scope{v: sc.v, st: sc.st, old: sc.old, names: map[string]EV{m.params[0]: {x, t}}, depth: sc.depth + 1, it: sc.it, lentry: sc.lentry}
					return s3.eval(m.body)
				}
			}
		}
		s2 := &Scope{v: sc.v, st: sc.st, old: sc.old, names: map[string]EV{}, depth: sc.depth + 1, it: sc.it, lentry: sc.lentry}
		for i := range n.args {
			t, srt := sc.resolveType(m.params[2*i+1])
			a := sc.eval(n.args[i])
			if distribute != nil {
				a = sc.coerce(a, srt, t)
				if x, ok := a.v.(*Term); ok && x.op == OIte {
					r := distribute(a)
					if m.rtype != "" {
						t, srt := sc.resolveType(m.rtype)
						r = sc.coerce(r, srt, t)
						if t != nil {
							r.t = t
						}
					}
					return r
				}
			}
			if srt != "Struct" {
				a = sc.coerce(a, srt, t)
				if x, ok := a.v.(*Term); ok && x.sort != srt {
					sc.fail(n, "macro %s argument %d: %s, want %s", n.name, i, x.sort, srt)
				}
			}
			if t != nil {
				a.t = t
			}
			s2.names[m.params[2*i]] = a
		}
		r := s2.eval(m.body)
		if m.rtype != "" {
			t, srt := sc.resolveType(m.rtype)
			r = sc.coerce(r, srt, t)
			if x, ok := r.v.(*Term); ok && srt != "Struct" && x.sort != srt {
				sc.fail(n, "macro %s result %s want %s", n.name, x.sort, srt)
			}
			if t != nil {
				r.t = t
			}
		}
		return r
	}
	if ci := c.ctorOf[n.name]; ci != nil {
		if len(ci.Sels) != len(n.args) {
			sc.fail(n, "constructor %s arity", n.name)
		}
		var as []*Term
		for i := range n.args {
			as = append(as, sc.coerce(arg(i), ci.Sorts[i], nil).term())
		}
		return EV{c.Ctor(n.name, as...), nil}
	}
	if _, ok := c.selOf[n.name]; ok {
		return EV{c.Sel(n.name, arg(0).term()), nil}
	}
	if f := w.Pre.Funs[n.name]; f != nil {
		if len(f.Args) != len(n.args) {
			sc.fail(n, "function %s arity", n.name)
		}
		var as []*Term
		for i := range n.args {
			a := sc.coerce(arg(i), f.Args[i], nil).term()
			if a.sort != f.Args[i] {
				sc.fail(n, "function %s argument %d: %s want %s", n.name, i, a.sort, f.Args[i])
			}
			as = append(as, a)
		}
		var t types.Type
		switch f.Ret {
		case "Bytes":
			t = types.Typ[types.String]
		case "Int":
			t = ti
		case "Bool":
			t = tb
		}
		return EV{c.App(n.name, f.Ret, as...), t}
	}
	sc.fail(n, "unknown function %s", n.name)
	return EV{}
}

// ---------------------------------------------------------------- locations (modifies)

type Loc struct {
	mem    string
	leaf   string
	ref    *Term
	lo, hi *Term // element range, nil: the whole object
	cond   *Term
}

func (sc *Scope) locs(n *Node) []Loc {
	c := sc.v.c
	w := sc.v.w
	switch n.op {
	case "if":
		p := sc.Bool(n.args[0])
		var out []Loc
		for _, l := range sc.locs(n.args[1]) {
			l.cond = c.And(orTrue(c, l.cond), p)
			out = append(out, l)
		}
		for _, l := range sc.locs(n.args[2]) {
			l.cond = c.And(orTrue(c, l.cond), c.Not(p))
			out = append(out, l)
		}
		return out
	case "id":
		if n.name == "nothing" {
			return nil
		}
	case "call":
		switch n.name {
		case "elems", "window":
			x := sc.eval(n.args[0])
			el := elemOf(x.t)
			if el == nil {
				sc.fail(n, "elems of untyped value")
			}
			t := x.term()
			hi := c.Len(t)
			if n.name == "window" {
				hi = c.Cap(t)
			}
			return []Loc{{mem: elemMem(w, el), leaf: w.sortOf(el), ref: c.Arr(t), lo: c.Off(t), hi: c.Add(c.Off(t), hi)}}
		case "all": // a field of every object
			f := n.args[0]
			return []Loc{{mem: "F:" + f.args[0].name + "." + f.name, leaf: w.fieldSort(f.args[0].name, f.name)}}
		case "array": // embedded array p.m.buf
			x := sc.addr(n.args[0])
			return []Loc{{mem: "E:byte", leaf: "Int", ref: x}}
		}
		if strings.HasPrefix(n.name, "$") {
			g := n.name[1:]
			k := sc.eval(n.args[0]).term()
			if k.sort == "Iface" {
				k = sc.v.objid(k)
			}
			return []Loc{{mem: "G:" + g, leaf: ghostSorts[g], ref: k}}
		}
		if m := w.Cons.Macros[n.name]; m != nil && m.items != nil {
			s2 := &Scope{v: sc.v, st: sc.st, old: sc.old, names: map[string]EV{}, depth: sc.depth + 1}
			for i := range n.args {
				t, srt := sc.resolveType(m.params[2*i+1])
				a := sc.coerce(sc.eval(n.args[i]), srt, t)
				if t != nil {
					a.t = t
				}
				s2.names[m.params[2*i]] = a
			}
			var out []Loc
			for _, it := range m.items {
				out = append(out, s2.locs(it)...)
			}
			return out
		}
	case "field":
		x := sc.eval(n.args[0])
		t := x.t
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n.name {
				p := sc.v.fieldAddr(sc.st, x.v, t, i)
				if pv, ok := p.(*PtrV); ok {
					l, ok := w.leafAt(pv.st, pv.path)
					if !ok {
						sc.fail(n, "modifies of a struct field")
					}
					return []Loc{{mem: l.Path, leaf: w.sortOf(l.T), ref: pv.ref}}
				}
				return []Loc{{mem: "E:byte", leaf: "Int", ref: p.(*Term)}}
			}
		}
	}
	sc.fail(n, "not a location")
	return nil
}

func orTrue(c *Ctx, t *Term) *Term {
	if t == nil {
		return c.tTrue
	}
	return t
}

func (sc *Scope) addr(n *Node) *Term {
	if n.op != "field" {
		sc.fail(n, "address")
	}
	x := sc.eval(n.args[0])
	t := x.t
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == n.name {
			if r, ok := sc.v.fieldAddr(sc.st, x.v, t, i).(*Term); ok {
				return r
			}
		}
	}
	sc.fail(n, "address")
	return nil
}

func (v *Verifier) constTerm(val constant.Value, t types.Type) *Term {
	c := v.c
	srt := v.w.sortOf(t)
	switch srt {
	case "Bool":
		return c.Bool(constant.BoolVal(val))
	case "Bytes":
		if val.Kind() == constant.String {
			return c.Blit(constant.StringVal(val))
		}
	case "Int":
		iv := constant.ToInt(val)
		if iv.Kind() == constant.Int {
			b, _ := new(big.Int).SetString(iv.ExactString(), 10)
			return c.BigI(b)
		}
	case "F64":
		f, _ := constant.Float64Val(val)
		return v.f64(f)
	}
	panic(unsup("constant %s of %s", val.String(), t.String()))
}

func (v *Verifier) f64(f float64) *Term {
	return v.c.Const("f64:"+strconv.FormatFloat(f, 'g', -1, 64), "F64")
}
