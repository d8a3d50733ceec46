package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- contract files

type Node struct {
	op   string // id num str call index slice field dyn as forall if let un bin old
	name string
	args []*Node
	vars []string // forall: name type pairs
	pos  string
}

type Clause struct {
	kind string
	tags []string
	text string
	expr *Node
	pos  string
	lv   []string // loopinv: template variables, name type pairs
	scen bool     // ensures forall x :: H ==> G, proved in a run of its own that starts from H
	def  bool     // assumed where the function is called: defines a symbol
}

type Contract struct {
	name     string // "(T).M", "F", or "Iface.M"
	iface    bool
	extern   bool
	recv     string
	params   []string
	results  []string
	requires []*Clause
	ensures  []*Clause
	modifies []*Clause
	loopinv  []*Clause
	variant  []*Clause
	decr     *Clause
	hints    []*Clause
	allocb   []*Clause
	opts     map[string]bool
	tags     map[string]bool // explicit property list
	pos      string
}

type Macro struct {
	name   string
	params []string // name type pairs
	rtype  string
	body   *Node
	items  []*Node // modset
	pos    string
}

type Lemma struct {
	name  string
	tags  []string
	vars  []string
	pre   []*Clause
	goals []*Clause
	using []string
	pos   string
	meas  *sx   // an axiom of the prelude, proved by induction over this measure
	with  []*sx // terms (sort term) that the proof looks at
}

type Contracts struct {
	Funcs  map[string]*Contract
	Macros map[string]*Macro
	Lemmas []*Lemma
	Order  []string
	Text   string
}

var clauseKW = map[string]bool{"requires": true, "ensures": true, "modifies": true, "loopinv": true, "scenario": true, "defines": true, "decreases": true, "func": true, "iface": true,
	"also": true, "macro": true, "modset": true, "option": true, "for": true, "end": true, "variant": true, "lemma": true, "axiom": true, "given": true, "show": true, "hint": true, "props": true, "using": true, "allocbound": true}

func loadContracts(dir string) (*Contracts, error) {
	cs := &Contracts{Funcs: map[string]*Contract{}, Macros: map[string]*Macro{}}
	fs, err := filepath.Glob(filepath.Join(dir, "*.gvc"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		cs.Text += string(b)
		if err := cs.parseFile(filepath.Base(f), string(b)); err != nil {
			return nil, err
		}
	}
	return cs, nil
}

type srcLine struct {
	text string
	pos  string
}

func (cs *Contracts) parseFile(fname, src string) error {
	// logical lines
	var ls []srcLine
	for i, l := range strings.Split(src, "\n") {
		if k := strings.Index(l, "//"); k >= 0 {
			l = l[:k]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := t
		if k := strings.IndexAny(w, " [("); k >= 0 {
			w = w[:k]
		}
		if clauseKW[w] {
			ls = append(ls, srcLine{t, fmt.Sprintf("%s:%d", fname, i+1)})
		} else {
			if len(ls) == 0 {
				return fmt.Errorf("%s:%d: stray line", fname, i+1)
			}
			ls[len(ls)-1].text += " " + t
		}
	}
	// for X in a, b { ... } end  expansion
	var expand func(ls []srcLine) ([]srcLine, error)
	expand = func(ls []srcLine) ([]srcLine, error) {
		var out []srcLine
		for i := 0; i < len(ls); i++ {
			if !strings.HasPrefix(ls[i].text, "for ") {
				out = append(out, ls[i])
				continue
			}
			d := 1
			j := i + 1
			for ; j < len(ls) && d > 0; j++ {
				if strings.HasPrefix(ls[j].text, "for ") {
					d++
				}
				if ls[j].text == "end" {
					d--
				}
			}
			if d != 0 {
				return nil, fmt.Errorf("%s: for without end", ls[i].pos)
			}
			body := ls[i+1 : j-1]
			hd := strings.TrimPrefix(ls[i].text, "for ")
			k := strings.Index(hd, " in ")
			if k < 0 {
				return nil, fmt.Errorf("%s: bad for", ls[i].pos)
			}
			vars := strings.Fields(strings.ReplaceAll(hd[:k], ",", " "))
			for _, alt := range strings.Split(hd[k+4:], ";") {
				vals := splitTop(alt)
				if len(vals) != len(vars) {
					return nil, fmt.Errorf("%s: for arity", ls[i].pos)
				}
				var inst []srcLine
				for _, b := range body {
					t := b.text
					for q, v := range vars {
						t = replaceWord(t, v, strings.TrimSpace(vals[q]))
					}
					inst = append(inst, srcLine{t, b.pos})
				}
				r, err := expand(inst)
				if err != nil {
					return nil, err
				}
				out = append(out, r...)
			}
			i = j - 1
		}
		return out, nil
	}
	ls, err := expand(ls)
	if err != nil {
		return err
	}
	var cur *Contract
	var lem *Lemma
	for _, l := range ls {
		w := l.text
		rest := ""
		if k := strings.IndexAny(w, " ["); k >= 0 {
			w, rest = w[:k], strings.TrimSpace(w[k:])
		}
		fail := func(err interface{}) error { return fmt.Errorf("%s: %v: %s", l.pos, err, l.text) }
		mkClause := func() (*Clause, error) {
			c := &Clause{kind: w, pos: l.pos}
			r := rest
			if strings.HasPrefix(r, "[") {
				k := strings.Index(r, "]")
				for _, t := range strings.Split(r[1:k], ",") {
					c.tags = append(c.tags, strings.TrimSpace(t))
				}
				r = strings.TrimSpace(r[k+1:])
			}
			if w == "loopinv" && strings.HasPrefix(r, "?") {
				k := strings.Index(r, ":")
				// careful: "::" of quantifiers
				for k+1 < len(r) && r[k+1] == ':' {
					n := strings.Index(r[k+2:], ":")
					k = k + 2 + n
				}
				for _, v := range strings.Split(r[:k], ",") {
					f := strings.Fields(strings.TrimSpace(v))
					if len(f) != 2 {
						return nil, fail("loopinv variable")
					}
					c.lv = append(c.lv, f[0][1:], f[1])
				}
				r = strings.TrimSpace(r[k+1:])
			}
			c.text = r
			e, err := parseExpr(r, l.pos)
			if err != nil {
				return nil, fail(err)
			}
			c.expr = e
			return c, nil
		}
		switch w {
		case "func", "iface":
			c, err := parseSig(rest)
			if err != nil {
				return fail(err)
			}
			c.iface = w == "iface"
			c.pos = l.pos
			if old := cs.Funcs[c.name]; old != nil {
				// further clauses for the same function: parameter names must agree
				if strings.Join(old.params, ",") != strings.Join(c.params, ",") || old.recv != c.recv || len(c.results) > 0 && strings.Join(old.results, ",") != strings.Join(c.results, ",") {
					return fail("contract reopened with different parameter names")
				}
				cur = old
			} else {
				cs.Funcs[c.name] = c
				cs.Order = append(cs.Order, c.name)
				cur = c
			}
			lem = nil
		case "requires", "ensures", "defines", "scenario", "loopinv", "decreases", "variant", "hint", "allocbound":
			if cur == nil {
				return fail("no function")
			}
			c, err := mkClause()
			if err != nil {
				return err
			}
			switch w {
			case "requires":
				cur.requires = append(cur.requires, c)
			case "scenario":
				if c.expr.op != "forall" || c.expr.args[0].op != "bin" || c.expr.args[0].name != "==>" {
					return fail("a scenario is forall x T :: H ==> G")
				}
				c.scen = true
				cur.ensures = append(cur.ensures, c)
			case "ensures":
				cur.ensures = append(cur.ensures, c)
			case "defines": // the meaning of a function symbol that nothing else is known about: what this function returns
				c.def = true
				cur.ensures = append(cur.ensures, c)
			case "loopinv":
				cur.loopinv = append(cur.loopinv, c)
			case "variant":
				cur.variant = append(cur.variant, c)
			case "decreases":
				cur.decr = c
			case "allocbound":
				cur.allocb = append(cur.allocb, c)
			case "hint":
				cur.hints = append(cur.hints, c)
			}
		case "modifies":
			if cur == nil {
				return fail("no function")
			}
			for _, it := range splitTop(rest) {
				e, err := parseExpr(it, l.pos)
				if err != nil {
					return fail(err)
				}
				cur.modifies = append(cur.modifies, &Clause{kind: w, expr: e, text: it, pos: l.pos})
			}
		case "option":
			for _, o := range strings.Fields(rest) {
				cur.opts[o] = true
			}
		case "props":
			for _, o := range strings.Fields(strings.ReplaceAll(rest, ",", " ")) {
				cur.tags[o] = true
			}
		case "also":
			// also P1,P2: contracts that belong to further properties
			k := strings.Index(rest, ":")
			if k < 0 {
				return fail("also P: names")
			}
			for _, n := range splitTop(rest[k+1:]) {
				f := cs.Funcs[n]
				if f == nil {
					return fail("no contract " + n)
				}
				for _, o := range strings.Split(rest[:k], ",") {
					f.tags[strings.TrimSpace(o)] = true
				}
			}
			cur = nil
		case "macro", "modset":
			m, err := parseMacro(w, rest, l.pos)
			if err != nil {
				return fail(err)
			}
			if cs.Macros[m.name] != nil {
				return fail("duplicate macro")
			}
			cs.Macros[m.name] = m
		case "lemma":
			// lemma[tags] name(vars)
			lem = &Lemma{pos: l.pos}
			r := rest
			if strings.HasPrefix(r, "[") {
				k := strings.Index(r, "]")
				for _, t := range strings.Split(r[1:k], ",") {
					lem.tags = append(lem.tags, strings.TrimSpace(t))
				}
				r = strings.TrimSpace(r[k+1:])
			}
			k := strings.Index(r, "(")
			lem.name = strings.TrimSpace(r[:k])
			vs := strings.TrimSuffix(strings.TrimSpace(r[k+1:]), ")")
			for _, v := range splitTop(vs) {
				f := strings.SplitN(strings.TrimSpace(v), " ", 2)
				if len(f) == 2 {
					lem.vars = append(lem.vars, f[0], strings.TrimSpace(f[1]))
				}
			}
			cs.Lemmas = append(cs.Lemmas, lem)
			cur = nil
		case "axiom":
			// axiom[tags] name measure (sort term) …
			lem = nil
			cur = nil
			l2 := &Lemma{pos: l.pos}
			r := rest
			if strings.HasPrefix(r, "[") {
				k := strings.Index(r, "]")
				for _, t := range strings.Split(r[1:k], ",") {
					l2.tags = append(l2.tags, strings.TrimSpace(t))
				}
				r = strings.TrimSpace(r[k+1:])
			}
			xs := parseSx(r)
			if len(xs) < 2 {
				return fail("axiom name measure")
			}
			l2.name, l2.meas, l2.with = xs[0].atom, xs[1], xs[2:]
			cs.Lemmas = append(cs.Lemmas, l2)
		case "given", "show":
			if lem == nil {
				return fail("no lemma")
			}
			c, err := mkClause()
			if err != nil {
				return err
			}
			if w == "given" {
				lem.pre = append(lem.pre, c)
			} else {
				lem.goals = append(lem.goals, c)
			}
		case "using":
			lem.using = append(lem.using, strings.Fields(rest)...)
		default:
			return fail("unknown keyword " + w)
		}
	}
	return nil
}

func isWordCh(ch byte) bool {
	return ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || ch == '_'
}

func replaceWord(s, w, r string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], w) && (i == 0 || !isWordCh(s[i-1])) && (i+len(w) == len(s) || !isWordCh(s[i+len(w)])) {
			b.WriteString(r)
			i += len(w)
			continue
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

func splitTop(s string) []string {
	var out []string
	d := 0
	st := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		out = append(out, t)
	}
	return out
}

// (t T) Name(a, b) (r, err)   |  Name(a) r  |  Iface.Name(this, a) (r)
func parseSig(s string) (*Contract, error) {
	c := &Contract{opts: map[string]bool{}, tags: map[string]bool{}}
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "(") {
		k := strings.Index(s, ")")
		f := strings.Fields(s[1:k])
		if len(f) != 2 {
			return nil, fmt.Errorf("receiver")
		}
		c.recv = f[0]
		rest := strings.TrimSpace(s[k+1:])
		k = strings.Index(rest, "(")
		c.name = "(" + f[1] + ")." + strings.TrimSpace(rest[:k])
		s = rest[k:]
	} else {
		k := strings.Index(s, "(")
		if k < 0 {
			return nil, fmt.Errorf("signature")
		}
		c.name = strings.TrimSpace(s[:k])
		s = s[k:]
	}
	k := strings.Index(s, ")")
	for _, p := range splitTop(s[1:k]) {
		c.params = append(c.params, strings.Fields(p)[0])
	}
	r := strings.TrimSpace(s[k+1:])
	r = strings.Trim(r, "()")
	for _, p := range splitTop(r) {
		c.results = append(c.results, p)
	}
	return c, nil
}

func parseMacro(kw, s, pos string) (*Macro, error) {
	k := strings.Index(s, "(")
	m := &Macro{name: strings.TrimSpace(s[:k]), pos: pos}
	// find matching paren
	d, e := 0, -1
	for i := k; i < len(s); i++ {
		if s[i] == '(' {
			d++
		}
		if s[i] == ')' {
			d--
			if d == 0 {
				e = i
				break
			}
		}
	}
	for _, p := range splitTop(s[k+1 : e]) {
		f := strings.SplitN(p, " ", 2)
		if len(f) != 2 {
			return nil, fmt.Errorf("macro parameter %q", p)
		}
		m.params = append(m.params, f[0], strings.TrimSpace(f[1]))
	}
	rest := strings.TrimSpace(s[e+1:])
	q := strings.Index(rest, "=")
	m.rtype = strings.TrimSpace(rest[:q])
	body := strings.TrimSpace(rest[q+1:])
	if kw == "modset" {
		for _, it := range splitTop(body) {
			n, err := parseExpr(it, pos)
			if err != nil {
				return nil, err
			}
			m.items = append(m.items, n)
		}
		return m, nil
	}
	n, err := parseExpr(body, pos)
	if err != nil {
		return nil, err
	}
	m.body = n
	return m, nil
}

// ---------------------------------------------------------------- expression parser

type tok struct {
	k string // id num str op eof
	s string
}

type eparser struct {
	ts  []tok
	i   int
	pos string
}

func lexExpr(s string) ([]tok, error) {
	var ts []tok
	for i := 0; i < len(s); {
		ch := s[i]
		switch {
		case ch == ' ' || ch == '\t':
			i++
		case ch >= '0' && ch <= '9':
			j := i
			for j < len(s) && isWordCh(s[j]) {
				j++
			}
			ts = append(ts, tok{"num", s[i:j]})
			i = j
		case isWordCh(ch) || ch == '$':
			j := i + 1
			for j < len(s) && isWordCh(s[j]) {
				j++
			}
			ts = append(ts, tok{"id", s[i:j]})
			i = j
		case ch == '"':
			j := i + 1
			var b strings.Builder
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
					switch s[j] {
					case 'n':
						b.WriteByte('\n')
					case 'x':
						var v int
						fmt.Sscanf(s[j+1:j+3], "%x", &v)
						b.WriteByte(byte(v))
						j += 2
					default:
						b.WriteByte(s[j])
					}
				} else {
					b.WriteByte(s[j])
				}
				j++
			}
			ts = append(ts, tok{"str", b.String()})
			i = j + 1
		default:
			ok := false
			for _, op := range []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "::", "++", "<", ">", "+", "-", "*", "/", "%", "!", "(", ")", "[", "]", ",", ".", ":", "=", "#", "?"} {
				if strings.HasPrefix(s[i:], op) {
					ts = append(ts, tok{"op", op})
					i += len(op)
					ok = true
					break
				}
			}
			if !ok {
				return nil, fmt.Errorf("lex at %q", s[i:])
			}
		}
	}
	return append(ts, tok{"eof", ""}), nil
}

func parseExpr(s, pos string) (n *Node, err error) {
	ts, err := lexExpr(s)
	if err != nil {
		return nil, err
	}
	p := &eparser{ts: ts, pos: pos}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(parseErr); ok {
				err = fmt.Errorf("%s", string(e))
				return
			}
			panic(r)
		}
	}()
	n = p.expr()
	if p.cur().k != "eof" {
		return nil, fmt.Errorf("trailing %q", p.cur().s)
	}
	return n, nil
}

type parseErr string

func (p *eparser) cur() tok { return p.ts[p.i] }
func (p *eparser) is(op string) bool {
	return p.ts[p.i].k == "op" && p.ts[p.i].s == op
}
func (p *eparser) isId(id string) bool { return p.ts[p.i].k == "id" && p.ts[p.i].s == id }
func (p *eparser) eat(op string) bool {
	if p.is(op) {
		p.i++
		return true
	}
	return false
}
func (p *eparser) need(op string) {
	if !p.eat(op) {
		panic(parseErr(fmt.Sprintf("expected %q, got %q", op, p.cur().s)))
	}
}
func (p *eparser) nd(op, name string, args ...*Node) *Node {
	return &Node{op: op, name: name, args: args, pos: p.pos}
}

func (p *eparser) expr() *Node { return p.iff() }

func (p *eparser) iff() *Node {
	a := p.imp()
	for p.eat("<==>") {
		a = p.nd("bin", "<==>", a, p.imp())
	}
	return a
}
func (p *eparser) imp() *Node {
	a := p.or()
	if p.eat("==>") {
		return p.nd("bin", "==>", a, p.imp())
	}
	return a
}
func (p *eparser) or() *Node {
	a := p.and()
	for p.eat("||") {
		a = p.nd("bin", "||", a, p.and())
	}
	return a
}
func (p *eparser) and() *Node {
	a := p.cmp()
	for p.eat("&&") {
		a = p.nd("bin", "&&", a, p.cmp())
	}
	return a
}
func (p *eparser) cmp() *Node {
	a := p.add()
	var res *Node
	for {
		op := ""
		for _, o := range []string{"==", "!=", "<=", ">=", "<", ">"} {
			if p.is(o) {
				op = o
			}
		}
		if op == "" {
			break
		}
		p.i++
		b := p.add()
		n := p.nd("bin", op, a, b)
		if res == nil {
			res = n
		} else {
			res = p.nd("bin", "&&", res, n)
		}
		a = b
	}
	if res == nil {
		return a
	}
	return res
}
func (p *eparser) add() *Node {
	a := p.mul()
	for {
		switch {
		case p.eat("+"):
			a = p.nd("bin", "+", a, p.mul())
		case p.eat("-"):
			a = p.nd("bin", "-", a, p.mul())
		case p.eat("++"):
			a = p.nd("bin", "++", a, p.mul())
		default:
			return a
		}
	}
}
func (p *eparser) mul() *Node {
	a := p.unary()
	for {
		switch {
		case p.eat("*"):
			a = p.nd("bin", "*", a, p.unary())
		case p.eat("/"):
			a = p.nd("bin", "/", a, p.unary())
		case p.eat("%"):
			a = p.nd("bin", "%", a, p.unary())
		default:
			return a
		}
	}
}
func (p *eparser) unary() *Node {
	if p.eat("!") {
		return p.nd("un", "!", p.unary())
	}
	if p.eat("-") {
		return p.nd("un", "-", p.unary())
	}
	return p.postfix()
}

func (p *eparser) typeName() string {
	s := ""
	for {
		if p.eat("*") {
			s += "*"
			continue
		}
		if p.is("[") && p.ts[p.i+1].s == "]" {
			p.i += 2
			s += "[]"
			continue
		}
		break
	}
	if p.cur().k != "id" {
		panic(parseErr("type name expected, got " + p.cur().s))
	}
	s += p.cur().s
	p.i++
	if p.is(".") && p.ts[p.i+1].k == "id" {
		p.i++
		s += "." + p.cur().s
		p.i++
	}
	return s
}

func (p *eparser) postfix() *Node {
	a := p.primary()
	for {
		switch {
		case p.eat("."):
			if p.eat("(") {
				t := p.typeName()
				p.need(")")
				a = p.nd("as", t, a)
				continue
			}
			if p.cur().k != "id" {
				panic(parseErr("field name"))
			}
			a = p.nd("field", p.cur().s, a)
			p.i++
		case p.eat("["):
			if p.eat(":") {
				e := p.expr()
				p.need("]")
				a = p.nd("slice", "", a, nil, e)
				continue
			}
			i := p.expr()
			if p.eat(":") {
				if p.eat("]") {
					a = p.nd("slice", "", a, i, nil)
					continue
				}
				e := p.expr()
				p.need("]")
				a = p.nd("slice", "", a, i, e)
				continue
			}
			p.need("]")
			a = p.nd("index", "", a, i)
		default:
			return a
		}
	}
}

func (p *eparser) primary() *Node {
	t := p.cur()
	switch {
	case t.k == "num":
		p.i++
		return p.nd("num", t.s)
	case t.k == "str":
		p.i++
		return p.nd("str", t.s)
	case p.eat("("):
		e := p.expr()
		p.need(")")
		return e
	case p.eat("#"):
		n := p.cur().s
		p.i++
		return p.nd("ghost", n)
	case t.k == "id":
		p.i++
		switch t.s {
		case "forall":
			n := p.nd("forall", "")
			for {
				nm := p.cur().s
				p.i++
				if p.eat(",") {
					// same type as the next one
					n.vars = append(n.vars, nm, "")
					continue
				}
				ty := p.typeName()
				n.vars = append(n.vars, nm, ty)
				for i := len(n.vars) - 4; i >= 0 && n.vars[i+1] == ""; i -= 2 {
					n.vars[i+1] = ty
				}
				if p.eat("::") {
					break
				}
				p.need(",")
			}
			n.args = []*Node{p.expr()}
			return n
		case "if":
			a := p.expr()
			if !p.isId("then") {
				panic(parseErr("then"))
			}
			p.i++
			b := p.expr()
			if !p.isId("else") {
				panic(parseErr("else"))
			}
			p.i++
			return p.nd("if", "", a, b, p.expr())
		case "let":
			nm := p.cur().s
			p.i++
			p.need("=")
			a := p.expr()
			if !p.isId("in") {
				panic(parseErr("in"))
			}
			p.i++
			return p.nd("let", nm, a, p.expr())
		}
		if p.eat("(") {
			// dyn(x, T) / as(x, T) / zero(T)
			if t.s == "dyn" || t.s == "as" {
				a := p.expr()
				p.need(",")
				ty := p.typeName()
				p.need(")")
				return p.nd(t.s, ty, a)
			}
			if t.s == "box" {
				a := p.expr()
				ty := ""
				if p.eat(",") {
					ty = p.typeName()
				}
				p.need(")")
				return p.nd("box", ty, a)
			}
			n := p.nd("call", t.s)
			if !p.eat(")") {
				for {
					n.args = append(n.args, p.expr())
					if p.eat(")") {
						break
					}
					p.need(",")
				}
			}
			return n
		}
		return p.nd("id", t.s)
	}
	panic(parseErr("unexpected " + t.s))
}
