package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// The prelude: SMT-LIB declarations and axioms of the specification theories
// (byte strings, value trees, encodings, orders). Axioms are included in a query
// only when every symbol they are about occurs in it.

type PreFun struct {
	Name string
	Args []string
	Ret  string
	Text string // declare-fun or define-fun(-rec)
	Def  bool
	Syms map[string]bool
	Pars []string
	Body *sx
}

type PreAx struct {
	Name string
	Text string
	Trig map[string]bool
	All  map[string]bool
	Body *sx
}

type Prelude struct {
	Funs  map[string]*PreFun
	Order []string
	Ax    []*PreAx
	Sorts []string // other declarations in order
	Ctors map[string]*CtorInfo
	Raw   string
	Rules map[string][]*PreRule // equations f(constructor …) = body, applied when terms are built
}

type PreRule struct {
	vars map[string]bool
	pats []*sx
	body *sx
}

// equations over constructors among the named axioms become rewriting rules
func (p *Prelude) addRule(body *sx) {
	vars := map[string]bool{}
	if body.head() == "forall" {
		for _, b := range body.list[1].list {
			vars[b.list[0].atom] = true
		}
		body = body.list[2]
		if body.head() == "!" {
			body = body.list[1]
		}
	}
	if body.head() != "=" || !body.list[1].isL {
		return
	}
	l := body.list[1]
	f := l.head()
	if p.Funs[f] == nil {
		return
	}
	ct := false
	for _, a := range l.list[1:] {
		h := a.atom
		if a.isL {
			h = a.head()
		}
		if p.Ctors[h] != nil {
			ct = true
			if a.isL {
				for _, y := range a.list[1:] {
					if y.isL || !vars[y.atom] {
						return
					}
				}
			}
		} else if a.isL || !vars[a.atom] {
			return
		}
	}
	if ct {
		if p.Rules == nil {
			p.Rules = map[string][]*PreRule{}
		}
		p.Rules[f] = append(p.Rules[f], &PreRule{vars, l.list[1:], body.list[2]})
	}
}

func (c *Ctx) rewrite(name string, args []*Term) *Term {
	if c.pre == nil || c.noRules {
		return nil
	}
next:
	for _, r := range c.pre.Rules[name] {
		env := map[string]*Term{}
		bind := func(v string, t *Term) bool {
			if o := env[v]; o != nil {
				return o == t
			}
			env[v] = t
			return true
		}
		for i, pt := range r.pats {
			a := args[i]
			if pt.isL {
				if a.op != OCtor || a.name != pt.head() {
					continue next
				}
				for k, y := range pt.list[1:] {
					if !bind(y.atom, a.args[k]) {
						continue next
					}
				}
			} else if r.vars[pt.atom] {
				if !bind(pt.atom, a) {
					continue next
				}
			} else if a.op != OCtor || a.name != pt.atom {
				continue next
			}
		}
		return c.sxTerm(r.body, env)
	}
	return nil
}

type sx struct {
	atom string
	list []*sx
	isL  bool
}

func parseSx(s string) []*sx {
	var stack [][]*sx
	cur := []*sx{}
	for i := 0; i < len(s); {
		ch := s[i]
		switch {
		case ch == ';':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case ch == '(':
			stack = append(stack, cur)
			cur = []*sx{}
			i++
		case ch == ')':
			l := &sx{list: cur, isL: true}
			if len(stack) == 0 {
				panic("prelude: unbalanced )")
			}
			cur = append(stack[len(stack)-1], l)
			stack = stack[:len(stack)-1]
			i++
		case ch == '|':
			j := i + 1
			for s[j] != '|' {
				j++
			}
			cur = append(cur, &sx{atom: s[i : j+1]})
			i = j + 1
		case ch == '"':
			j := i + 1
			for s[j] != '"' {
				j++
			}
			cur = append(cur, &sx{atom: s[i : j+1]})
			i = j + 1
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\t\r();", rune(s[j])) {
				j++
			}
			cur = append(cur, &sx{atom: s[i:j]})
			i = j
		}
	}
	if len(stack) != 0 {
		panic("prelude: unbalanced (")
	}
	return cur
}

func (x *sx) String() string {
	if !x.isL {
		return x.atom
	}
	var b strings.Builder
	b.WriteByte('(')
	for i, a := range x.list {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(a.String())
	}
	b.WriteByte(')')
	return b.String()
}

func (x *sx) syms(m map[string]bool) {
	if !x.isL {
		m[strings.Trim(x.atom, "|")] = true
		return
	}
	for _, a := range x.list {
		a.syms(m)
	}
}

func (x *sx) head() string {
	if x.isL && len(x.list) > 0 {
		return x.list[0].atom
	}
	return ""
}

func loadPrelude(dir string, w *World) (*Prelude, error) {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.smt2"))
	sort.Strings(fs)
	p := &Prelude{Funs: map[string]*PreFun{}, Ctors: map[string]*CtorInfo{}}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		p.Raw += string(b)
	}
	if err := p.add(p.Raw); err != nil {
		return nil, err
	}
	return p, nil
}

func (p *Prelude) add(src string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("prelude: %v", r)
		}
	}()
	for _, x := range parseSx(src) {
		switch x.head() {
		case "declare-fun":
			f := &PreFun{Name: strings.Trim(x.list[1].atom, "|"), Ret: x.list[3].String(), Text: x.String()}
			for _, a := range x.list[2].list {
				f.Args = append(f.Args, a.String())
			}
			p.Funs[f.Name] = f
			p.Order = append(p.Order, f.Name)
		case "declare-const":
			f := &PreFun{Name: x.list[1].atom, Ret: x.list[2].String(), Text: x.String()}
			p.Funs[f.Name] = f
			p.Order = append(p.Order, f.Name)
		case "define-fun", "define-fun-rec":
			f := &PreFun{Name: x.list[1].atom, Ret: x.list[3].String(), Text: x.String(), Def: true, Syms: map[string]bool{}}
			for _, a := range x.list[2].list {
				f.Args = append(f.Args, a.list[1].String())
				f.Pars = append(f.Pars, a.list[0].atom)
			}
			f.Body = x.list[4]
			x.list[4].syms(f.Syms)
			p.Funs[f.Name] = f
			p.Order = append(p.Order, f.Name)
		case "declare-sort":
			p.Sorts = append(p.Sorts, x.String())
		case "declare-datatypes":
			p.Sorts = append(p.Sorts, x.String())
			for i, d := range x.list[2].list {
				srt := x.list[1].list[i].list[0].atom
				for _, c := range d.list {
					ci := &CtorInfo{Sort: srt}
					if !c.isL {
						ci.Name = c.atom
					} else {
						ci.Name = c.list[0].atom
						for _, f := range c.list[1:] {
							ci.Sels = append(ci.Sels, f.list[0].atom)
							ci.Sorts = append(ci.Sorts, f.list[1].String())
						}
					}
					p.Ctors[ci.Name] = ci
				}
			}
		case "assert":
			a := &PreAx{Text: x.String(), Trig: map[string]bool{}, All: map[string]bool{}}
			body := x.list[1]
			if body.head() == "!" && len(body.list) >= 4 && body.list[2].atom == ":named" {
				a.Name = body.list[3].atom
				body = body.list[1]
				a.Text = "(assert " + body.String() + ")"
			}
			if a.Name != "" {
				p.addRule(body)
			}
			body.syms(a.All)
			a.Body = body
			// triggers
			var find func(x *sx)
			found := false
			find = func(x *sx) {
				if !x.isL {
					return
				}
				for i, c := range x.list {
					if c.atom == ":pattern" && i+1 < len(x.list) {
						if !found {
							x.list[i+1].syms(a.Trig)
							found = true
						}
					}
					find(c)
				}
			}
			find(body)
			if !found {
				for k := range a.All {
					if k != "unit" && k != "app" && k != "bsub" && k != "mkb" {
						a.Trig[k] = true
					}
				}
			}
			p.Ax = append(p.Ax, a)
		default:
			return fmt.Errorf("prelude: unknown command %s", x.head())
		}
	}
	return nil
}

// the declarations and axioms relevant to the given symbols
func (p *Prelude) relevant(syms map[string]bool, exclude map[string]bool) (decls []string, axioms []string, used []string) {
	have := map[string]bool{}
	var need func(n string)
	need = func(n string) {
		f := p.Funs[n]
		if f == nil || have[n] {
			return
		}
		have[n] = true
		for s := range f.Syms {
			need(s)
		}
	}
	for s := range syms {
		need(s)
	}
	in := map[int]bool{}
	for ch := true; ch; {
		ch = false
		for i, a := range p.Ax {
			// an axiom whose name ends in ! takes part in proofs of axioms only
			if in[i] || a.Name != "" && exclude[a.Name] || strings.HasSuffix(a.Name, "!") && !exclude["!proof"] {
				continue
			}
			ok := true
			for s := range a.Trig {
				if exclude["fn:"+s] { // dropping an axiom is sound
					ok = false
					break
				}
				if p.Funs[s] != nil && !have[s] {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			in[i] = true
			ch = true
			for s := range a.All {
				need(s)
			}
		}
	}
	for _, n := range p.Order {
		if have[n] {
			decls = append(decls, p.Funs[n].Text)
		}
	}
	for i, a := range p.Ax {
		if in[i] {
			axioms = append(axioms, a.Text)
			used = append(used, a.Name)
		}
	}
	return
}

// the definition of a defined function at the given arguments; nil when it uses something not supported here
func (c *Ctx) expand(name string, args []*Term) *Term {
	if c.pre == nil {
		return nil
	}
	f := c.pre.Funs[name]
	if f == nil || !f.Def || f.Body == nil || f.Syms[name] {
		return nil
	}
	env := map[string]*Term{}
	for i, p := range f.Pars {
		env[p] = args[i]
	}
	return c.sxTerm(f.Body, env)
}

func (c *Ctx) sxTerm(x *sx, env map[string]*Term) *Term {
	if !x.isL {
		if t, ok := env[x.atom]; ok {
			return t
		}
		switch x.atom {
		case "true":
			return c.tTrue
		case "false":
			return c.tFalse
		}
		if s, ok := litOf(x.atom); ok {
			return c.Blit(s)
		}
		if n, ok := new(big.Int).SetString(x.atom, 10); ok {
			return c.BigI(n)
		}
		if ci := c.ctorOf[x.atom]; ci != nil && len(ci.Sels) == 0 {
			return c.Ctor(x.atom)
		}
		if f := c.pre.Funs[x.atom]; f != nil && len(f.Args) == 0 {
			return c.App(x.atom, f.Ret)
		}
		return nil
	}
	if len(x.list) == 0 {
		return nil
	}
	if x.list[0].isL {
		h := x.list[0]
		if len(h.list) == 3 && h.list[0].atom == "_" && h.list[1].atom == "is" {
			a := c.sxTerm(x.list[1], env)
			if a == nil {
				return nil
			}
			return c.Is(strings.Trim(h.list[2].atom, "|"), a)
		}
		return nil
	}
	op := x.list[0].atom
	if op == "let" {
		e2 := map[string]*Term{}
		for k, v := range env {
			e2[k] = v
		}
		for _, b := range x.list[1].list {
			t := c.sxTerm(b.list[1], env)
			if t == nil {
				return nil
			}
			e2[b.list[0].atom] = t
		}
		return c.sxTerm(x.list[2], e2)
	}
	var a []*Term
	for _, y := range x.list[1:] {
		t := c.sxTerm(y, env)
		if t == nil {
			return nil
		}
		a = append(a, t)
	}
	switch op {
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "and":
		return c.And(a...)
	case "or":
		return c.Or(a...)
	case "not":
		return c.Not(a[0])
	case "=>":
		return c.Implies(a[0], a[1])
	case "=":
		return c.Eq(a[0], a[1])
	case "<=", "<", ">=", ">":
		rs := []*Term{}
		for i := 0; i+1 < len(a); i++ {
			switch op {
			case "<=":
				rs = append(rs, c.Le(a[i], a[i+1]))
			case "<":
				rs = append(rs, c.Lt(a[i], a[i+1]))
			case ">=":
				rs = append(rs, c.Ge(a[i], a[i+1]))
			case ">":
				rs = append(rs, c.Gt(a[i], a[i+1]))
			}
		}
		return c.And(rs...)
	case "+":
		return c.Add(a...)
	case "-":
		if len(a) == 1 {
			return c.MulK(a[0], bmone)
		}
		r := a[0]
		for _, y := range a[1:] {
			r = c.Sub(r, y)
		}
		return r
	case "*":
		return c.Mul(a[0], a[1])
	case "div", "mod":
		if a[1].op != OInt || a[1].val.Sign() <= 0 {
			return nil
		}
		if op == "div" {
			return c.DivK(a[0], a[1].val)
		}
		return c.ModK(a[0], a[1].val)
	case "select":
		return c.Select(a[0], a[1])
	case "app":
		return c.Cat(a...)
	case "mkb":
		return c.Mkb(a[0], a[1], a[2])
	}
	op = strings.Trim(op, "|")
	if ci := c.ctorOf[op]; ci != nil {
		return c.Ctor(op, a...)
	}
	if _, ok := c.selOf[op]; ok {
		return c.Sel(op, a[0])
	}
	if f := c.pre.Funs[op]; f != nil {
		return c.App(op, f.Ret, a...)
	}
	return nil
}
