package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- terms

type Op uint8

const (
	OConst Op = iota // named constant (name, sort)
	OInt             // integer literal
	OLin             // linear combination: sum cf[i]*args[i] + val
	OMul             // non-linear product of args
	ODiv             // floor division by positive literal (args[0], val)
	OMod             // floor modulus by positive literal
	OTrue
	OFalse
	OGe0 // args[0] >= 0
	OEq
	ONot
	OAnd
	OOr
	OIte
	OSelect
	OStore
	OCopy // copyarr(dst, doff, src, soff, n): array equal to dst except [doff,doff+n) = src[soff..]
	OConstArr
	OApp  // uninterpreted / prelude function: name
	OCtor // datatype constructor: name
	OSel  // datatype selector: name
	OIs   // datatype tester: name is the constructor
	OForall
	OBlit // literal byte string (name holds the bytes)
	OCat  // concatenation of byte strings, flattened
	OUnit // one byte
	OMkb  // bytes of an array window: (array, off, len)
	OArrOf
)

type Term struct {
	id   int
	op   Op
	sort string
	name string
	args []*Term
	val  *big.Int
	cf   []*big.Int
	vars []*Term
	pats [][]*Term
	fv   map[*Term]bool // bound variables occurring free
	aux  interface{}
}

type Ctx struct {
	tab    map[string]*Term
	n      int
	fresh  map[string]int
	lt     map[*Term]*Term // constant -> allocation counter it is below (references contained in it are old)
	nonneg map[*Term]bool
	lower  map[*Term]*Term // allocation base constant -> known lower bound
	ctorOf map[string]*CtorInfo
	selOf  map[string]selInfo
	tTrue  *Term
	tFalse *Term
	isMem  map[*Term]bool
	agree  map[*Term]agreeInfo
	substC map[string]*Term
	pre    *Prelude
	noRules bool
	fhMem  func(fh, sort string) *Term // the entry heap behind a frozen-heap function
	fhAlloc *Term
}

// a havoced memory that agrees with an earlier one on every reference older than bound
type agreeInfo struct {
	old   *Term
	bound *Term
}

type CtorInfo struct {
	Name  string
	Sort  string
	Sels  []string
	Sorts []string
}
type selInfo struct {
	ctor *CtorInfo
	idx  int
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, fresh: map[string]int{}, lt: map[*Term]*Term{}, nonneg: map[*Term]bool{},
		lower: map[*Term]*Term{}, ctorOf: map[string]*CtorInfo{}, selOf: map[string]selInfo{}, isMem: map[*Term]bool{}, agree: map[*Term]agreeInfo{}}
	c.tTrue = c.mk(&Term{op: OTrue, sort: "Bool"})
	c.tFalse = c.mk(&Term{op: OFalse, sort: "Bool"})
	return c
}

func (c *Ctx) AddCtor(ci *CtorInfo) {
	c.ctorOf[ci.Name] = ci
	for i, s := range ci.Sels {
		c.selOf[s] = selInfo{ci, i}
	}
}

func (c *Ctx) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteByte(byte(t.op))
	b.WriteString(t.sort)
	b.WriteByte(0)
	b.WriteString(t.name)
	b.WriteByte(0)
	for _, a := range t.args {
		b.WriteString(strconv.Itoa(a.id))
		b.WriteByte(',')
	}
	if t.val != nil {
		b.WriteString(t.val.String())
	}
	b.WriteByte(0)
	for _, a := range t.cf {
		b.WriteString(a.String())
		b.WriteByte(',')
	}
	for _, a := range t.vars {
		b.WriteString(strconv.Itoa(a.id))
		b.WriteByte(';')
	}
	for _, p := range t.pats {
		b.WriteByte('|')
		for _, a := range p {
			b.WriteString(strconv.Itoa(a.id))
			b.WriteByte(';')
		}
	}
	k := b.String()
	if x := c.tab[k]; x != nil {
		return x
	}
	c.n++
	t.id = c.n
	for _, a := range t.args {
		for v := range a.fv {
			if t.fv == nil {
				t.fv = map[*Term]bool{}
			}
			t.fv[v] = true
		}
	}
	if t.op == OForall {
		for _, v := range t.vars {
			delete(t.fv, v)
		}
	}
	c.tab[k] = t
	return t
}

func (c *Ctx) Const(name, sort string) *Term { return c.mk(&Term{op: OConst, sort: sort, name: name}) }

func (c *Ctx) Fresh(prefix, sort string) *Term {
	c.fresh[prefix]++
	return c.Const(fmt.Sprintf("%s!%d", prefix, c.fresh[prefix]), sort)
}

func (c *Ctx) BVar(prefix, sort string) *Term {
	t := c.Fresh("?"+prefix, sort)
	t.fv = map[*Term]bool{t: true}
	return t
}

func (c *Ctx) Int(v int64) *Term { return c.BigI(big.NewInt(v)) }
func (c *Ctx) BigI(v *big.Int) *Term {
	return c.mk(&Term{op: OInt, sort: "Int", val: v})
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}

// ---------------------------------------------------------------- linear arithmetic

type lin struct {
	m map[*Term]*big.Int
	k *big.Int
}

func toLin(t *Term) lin {
	l := lin{map[*Term]*big.Int{}, big.NewInt(0)}
	l.add(t, big.NewInt(1))
	return l
}

func (l *lin) add(t *Term, f *big.Int) {
	switch t.op {
	case OInt:
		l.k = new(big.Int).Add(l.k, new(big.Int).Mul(t.val, f))
	case OLin:
		l.k = new(big.Int).Add(l.k, new(big.Int).Mul(t.val, f))
		for i, a := range t.args {
			l.addAtom(a, new(big.Int).Mul(t.cf[i], f))
		}
	default:
		l.addAtom(t, f)
	}
}

func (l *lin) addAtom(a *Term, f *big.Int) {
	o := l.m[a]
	if o == nil {
		l.m[a] = f
		return
	}
	s := new(big.Int).Add(o, f)
	if s.Sign() == 0 {
		delete(l.m, a)
	} else {
		l.m[a] = s
	}
}

func (c *Ctx) fromLin(l lin) *Term {
	for a, f := range l.m {
		if f.Sign() == 0 {
			delete(l.m, a)
		}
	}
	if len(l.m) == 0 {
		return c.BigI(l.k)
	}
	as := make([]*Term, 0, len(l.m))
	for a := range l.m {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.k.Sign() == 0 && l.m[as[0]].IsInt64() && l.m[as[0]].Int64() == 1 {
		return as[0]
	}
	cf := make([]*big.Int, len(as))
	for i, a := range as {
		cf[i] = l.m[a]
	}
	return c.mk(&Term{op: OLin, sort: "Int", args: as, cf: cf, val: l.k})
}

var bone = big.NewInt(1)
var bmone = big.NewInt(-1)

func (c *Ctx) Add(ts ...*Term) *Term {
	l := lin{map[*Term]*big.Int{}, big.NewInt(0)}
	for _, t := range ts {
		l.add(t, bone)
	}
	return c.fromLin(l)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, bmone)
	return c.fromLin(l)
}

func (c *Ctx) AddI(a *Term, k int64) *Term { return c.Add(a, c.Int(k)) }

func (c *Ctx) MulK(a *Term, k *big.Int) *Term {
	l := lin{map[*Term]*big.Int{}, big.NewInt(0)}
	l.add(a, k)
	return c.fromLin(l)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == OInt {
		return c.MulK(b, a.val)
	}
	if b.op == OInt {
		return c.MulK(a, b.val)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OMul, sort: "Int", args: []*Term{a, b}})
}

// floor division / modulus by positive literal
// a linear term modulo k: inner remainders by multiples of k are dropped, the constant is reduced
func (c *Ctx) dropMods(a *Term, k *big.Int) *Term {
	if a.op != OLin {
		return a
	}
	t := c.BigI(new(big.Int).Mod(a.val, k))
	ch := t.val.Cmp(a.val) != 0
	for i, x := range a.args {
		if x.op == OMod && new(big.Int).Mod(new(big.Int).Mul(x.val, a.cf[i]), k).Sign() == 0 {
			x = x.args[0]
			ch = true
		}
		t = c.Add(t, c.MulK(x, a.cf[i]))
	}
	if !ch {
		return a
	}
	return t
}
func (c *Ctx) DivK(a *Term, k *big.Int) *Term {
	if k.Cmp(bone) == 0 {
		return a
	}
	if a.op == OInt {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.val, k, m)
		return c.BigI(q)
	}
	if a.op == ODiv {
		return c.DivK(a.args[0], new(big.Int).Mul(a.val, k))
	}
	if a.op == OMod {
		if q, r := new(big.Int).QuoRem(a.val, k, new(big.Int)); r.Sign() == 0 && q.Cmp(bone) > 0 {
			return c.ModK(c.DivK(a.args[0], k), q)
		}
	}
	return c.mk(&Term{op: ODiv, sort: "Int", args: []*Term{a}, val: k})
}

func (c *Ctx) ModK(a *Term, k *big.Int) *Term {
	if a.op == OInt {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.val, k, m)
		return c.BigI(m)
	}
	if a.op == OMod {
		r := new(big.Int).Mod(a.val, k)
		if r.Sign() == 0 { // (x mod 2^16) mod 2^8
			return c.ModK(a.args[0], k)
		}
		if a.val.Cmp(k) <= 0 {
			return a
		}
	}
	if lo, hi := c.rng(a); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(k) < 0 {
		return a
	}
	// remainders inside that do not matter: k, or k times the divisor, divides their modulus
	if b := c.dropMods(a, k); b != a {
		return c.ModK(b, k)
	}
	if a.op == ODiv {
		if b := c.dropMods(a.args[0], new(big.Int).Mul(a.val, k)); b != a.args[0] {
			return c.ModK(c.DivK(b, a.val), k)
		}
	}
	return c.mk(&Term{op: OMod, sort: "Int", args: []*Term{a}, val: k})
}

// cheap syntactic range
func (c *Ctx) rng(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case OInt:
		return t.val, t.val
	case OMod:
		return big.NewInt(0), new(big.Int).Sub(t.val, bone)
	case ODiv:
		l, h := c.rng(t.args[0])
		if l != nil && h != nil {
			a, b := new(big.Int), new(big.Int)
			m := new(big.Int)
			a.DivMod(l, t.val, m)
			b.DivMod(h, t.val, m)
			return a, b
		}
	case OIte:
		l1, h1 := c.rng(t.args[1])
		l2, h2 := c.rng(t.args[2])
		if l1 != nil && l2 != nil && l1.Cmp(l2) > 0 {
			l1 = l2
		} else if l2 == nil {
			l1 = nil
		}
		if h1 != nil && h2 != nil && h1.Cmp(h2) < 0 {
			h1 = h2
		} else if h2 == nil {
			h1 = nil
		}
		return l1, h1
	case OLin:
		lo, hi = t.val, t.val
		for i, a := range t.args {
			l, h := c.rng(a)
			if t.cf[i].Sign() < 0 {
				l, h = h, l
			}
			if l == nil {
				lo = nil
			} else if lo != nil {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(l, t.cf[i]))
			}
			if h == nil {
				hi = nil
			} else if hi != nil {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(h, t.cf[i]))
			}
		}
		return lo, hi
	case OApp:
		switch t.name {
		case "at":
			return big.NewInt(0), big.NewInt(255)
		case "blen":
			return big.NewInt(0), nil
		}
	case OConst:
		if r, ok := t.aux.([2]*big.Int); ok {
			return r[0], r[1]
		}
		if c.nonneg[t] {
			return big.NewInt(0), nil
		}
	case OSelect:
		// elements of byte arrays
		if r, ok := t.aux.([2]*big.Int); ok {
			return r[0], r[1]
		}
	}
	return nil, nil
}

func (c *Ctx) SetRange(t *Term, lo, hi *big.Int) { t.aux = [2]*big.Int{lo, hi} }

func (c *Ctx) Ge0(d *Term) *Term {
	if d.op == OInt {
		return c.Bool(d.val.Sign() >= 0)
	}
	if d.op == OLin { // divide by gcd
		g := new(big.Int)
		for _, f := range d.cf {
			g.GCD(nil, nil, g, new(big.Int).Abs(f))
		}
		if g.Cmp(bone) > 0 {
			l := lin{map[*Term]*big.Int{}, nil}
			for i, a := range d.args {
				l.m[a] = new(big.Int).Div(d.cf[i], g)
			}
			q, m := new(big.Int), new(big.Int)
			q.DivMod(d.val, g, m) // floor
			l.k = q
			d = c.fromLin(l)
		}
	}
	if lo, hi := c.rng(d); lo != nil && lo.Sign() >= 0 {
		return c.tTrue
	} else if hi != nil && hi.Sign() < 0 {
		return c.tFalse
	}
	return c.mk(&Term{op: OGe0, sort: "Bool", args: []*Term{d}})
}

func (c *Ctx) Ge(a, b *Term) *Term { return c.Ge0(c.Sub(a, b)) }
func (c *Ctx) Le(a, b *Term) *Term { return c.Ge0(c.Sub(b, a)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.Ge0(c.AddI(c.Sub(b, a), -1)) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.Lt(b, a) }

// ---------------------------------------------------------------- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return c.tFalse
	case OFalse:
		return c.tTrue
	case ONot:
		return a.args[0]
	case OGe0:
		return c.Ge0(c.AddI(c.MulK(a.args[0], bmone), -1))
	case OIte:
		return c.Ite(a.args[0], c.Not(a.args[1]), c.Not(a.args[2]))
	}
	return c.mk(&Term{op: ONot, sort: "Bool", args: []*Term{a}})
}

func (c *Ctx) And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.op == OTrue || seen[t] {
			return true
		}
		if t.op == OFalse {
			return false
		}
		if t.op == OAnd {
			for _, a := range t.args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return c.tFalse
		}
	}
	if len(out) == 0 {
		return c.tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: OAnd, sort: "Bool", args: out})
}

func (c *Ctx) Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.op == OFalse || seen[t] {
			return true
		}
		if t.op == OTrue {
			return false
		}
		if t.op == OOr {
			for _, a := range t.args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return c.tTrue
		}
	}
	if len(out) == 0 {
		return c.tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{op: OOr, sort: "Bool", args: out})
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }
func (c *Ctx) Iff(a, b *Term) *Term     { return c.Eq(a, b) }

func (c *Ctx) Ite(p, a, b *Term) *Term {
	switch p.op {
	case OTrue:
		return a
	case OFalse:
		return b
	case ONot:
		return c.Ite(p.args[0], b, a)
	}
	if a == b {
		return a
	}
	if a.sort == "Bool" {
		if a.op == OTrue {
			return c.Or(p, b)
		}
		if a.op == OFalse {
			return c.And(c.Not(p), b)
		}
		if b.op == OTrue {
			return c.Or(c.Not(p), a)
		}
		if b.op == OFalse {
			return c.And(p, a)
		}
	}
	if a.op == OIte && a.args[0] == p {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == p {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return c.mk(&Term{op: OIte, sort: a.sort, args: []*Term{p, a, b}})
}

func isLit(t *Term) bool { return t.op == OInt || t.op == OBlit || t.op == OTrue || t.op == OFalse }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts: %s (%s) vs %s (%s)", a.sort, c.Str(a), b.sort, c.Str(b)))
	}
	switch a.sort {
	case "Bool":
		if a.op == OTrue {
			return b
		}
		if b.op == OTrue {
			return a
		}
		if a.op == OFalse {
			return c.Not(b)
		}
		if b.op == OFalse {
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.tFalse
		}
	case "Int":
		d := c.Sub(a, b)
		if d.op == OInt {
			return c.Bool(d.val.Sign() == 0)
		}
		if lo, hi := c.rng(d); lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return c.tFalse
		}
		// canonical orientation
		if d.op == OLin {
			if d.cf[0].Sign() < 0 {
				d = c.MulK(d, bmone)
			}
			if d.op == OLin {
				// move first atom left when coefficient is one
				l := lin{map[*Term]*big.Int{}, new(big.Int).Neg(d.val)}
				for i := 1; i < len(d.args); i++ {
					l.m[d.args[i]] = new(big.Int).Neg(d.cf[i])
				}
				left := c.MulK(d.args[0], d.cf[0])
				right := c.fromLin(l)
				if left.op == OIte && isLit(right) || right.op == OIte && isLit(left) {
					return c.eqIte(left, right)
				}
				return c.mk(&Term{op: OEq, sort: "Bool", args: []*Term{left, right}})
			}
		}
		z := c.Int(0)
		if d.op == OIte {
			return c.eqIte(d, z)
		}
		return c.mk(&Term{op: OEq, sort: "Bool", args: []*Term{d, z}})
	case "Bytes":
		return c.eqBytes(a, b)
	}
	if a.op == OCtor && b.op == OCtor {
		if a.name != b.name {
			return c.tFalse
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, c.Eq(a.args[i], b.args[i]))
		}
		return c.And(cs...)
	}
	if a.op == OCtor && len(a.args) == 0 {
		return c.Is(a.name, b)
	}
	if b.op == OCtor && len(b.args) == 0 {
		return c.Is(b.name, a)
	}
	if a.op == OCtor && b.op == OIte || b.op == OCtor && a.op == OIte {
		return c.eqIte(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, sort: "Bool", args: []*Term{a, b}})
}

func (c *Ctx) eqIte(a, b *Term) *Term {
	if a.op != OIte {
		a, b = b, a
	}
	return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
}

func (c *Ctx) Neq(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

// ---------------------------------------------------------------- datatypes

func (c *Ctx) Ctor(name string, args ...*Term) *Term {
	ci := c.ctorOf[name]
	if ci == nil {
		panic("no constructor " + name)
	}
	if len(args) != len(ci.Sels) {
		panic("ctor arity " + name)
	}
	for i, a := range args {
		if a.sort != ci.Sorts[i] {
			panic(fmt.Sprintf("ctor %s arg %d sort %s want %s", name, i, a.sort, ci.Sorts[i]))
		}
	}
	// eta: C(sel0 x, sel1 x, ..) when x is known to be of single-constructor sort
	if len(args) > 0 && ci.Sort == "Slice" && args[0].op == OSel && args[0].name == ci.Sels[0] {
		x := args[0].args[0]
		ok := true
		for i := range args {
			if !(args[i].op == OSel && args[i].name == ci.Sels[i] && args[i].args[0] == x) {
				ok = false
			}
		}
		if ok {
			return x
		}
	}
	return c.mk(&Term{op: OCtor, sort: ci.Sort, name: name, args: args})
}

func (c *Ctx) Sel(name string, x *Term) *Term {
	si, ok := c.selOf[name]
	if !ok {
		panic("no selector " + name)
	}
	if x.sort != si.ctor.Sort {
		panic(fmt.Sprintf("sel %s of sort %s: %s", name, x.sort, c.Str(x)))
	}
	if x.op == OCtor && x.name == si.ctor.Name {
		return x.args[si.idx]
	}
	if x.op == OIte {
		return c.Ite(x.args[0], c.Sel(name, x.args[1]), c.Sel(name, x.args[2]))
	}
	return c.mk(&Term{op: OSel, sort: si.ctor.Sorts[si.idx], name: name, args: []*Term{x}})
}

func (c *Ctx) Is(ctor string, x *Term) *Term {
	if x.op == OCtor {
		return c.Bool(x.name == ctor)
	}
	if x.op == OIte {
		return c.Ite(x.args[0], c.Is(ctor, x.args[1]), c.Is(ctor, x.args[2]))
	}
	return c.mk(&Term{op: OIs, sort: "Bool", name: ctor, args: []*Term{x}})
}

// slices
func (c *Ctx) Arr(s *Term) *Term { return c.Sel("s_arr", s) }
func (c *Ctx) Off(s *Term) *Term { return c.Sel("s_off", s) }
func (c *Ctx) Len(s *Term) *Term { return c.Sel("s_len", s) }
func (c *Ctx) Cap(s *Term) *Term { return c.Sel("s_cap", s) }
func (c *Ctx) Slice(arr, off, ln, cp *Term) *Term {
	return c.Ctor("mkslice", arr, off, ln, cp)
}
func (c *Ctx) NilSlice() *Term {
	z := c.Int(0)
	return c.Slice(z, z, z, z)
}

// ---------------------------------------------------------------- distinctness of references

func linAtomK(t *Term) (*Term, *big.Int, bool) { // t = atom + k
	if t.op == OInt {
		return nil, t.val, true
	}
	if t.op == OLin {
		if len(t.args) == 1 && t.cf[0].Cmp(bone) == 0 {
			return t.args[0], t.val, true
		}
		return nil, nil, false
	}
	return t, big.NewInt(0), true
}

// allocation counter below which the reference t was allocated, by structure
func (c *Ctx) refBound(t *Term) *Term {
	switch t.op {
	case OConst:
		return c.lt[t]
	case OSelect:
		a := t.args[0]
		if a.op == OConst {
			b := c.lt[a]
			if b != nil && c.isMem[a] && !c.below(t.args[1], b) {
				return nil
			}
			return b
		}
		return c.refBound(a)
	case OStore:
		return nil
	case OSel:
		return c.refBound(t.args[0])
	case OApp:
		if t.name == "drv" {
			return c.refBound(t.args[0])
		}
	}
	return nil
}

func (c *Ctx) baseGe(b *Term, bound *Term, depth int) bool { // b (base constant [+k>=0]) >= bound
	if depth > 60 {
		return false
	}
	ba, bk, ok := linAtomK(b)
	oa, ok2k, ok2 := linAtomK(bound)
	if !ok || !ok2 {
		return false
	}
	if ba == oa {
		return bk.Cmp(ok2k) >= 0
	}
	if ba == nil {
		return false
	}
	if l := c.lower[ba]; l != nil {
		return c.baseGe(c.Add(l, c.BigI(bk)), bound, depth+1)
	}
	return false
}

// is the reference (or derived reference) r older than bound?
func (c *Ctx) below(r, bound *Term) bool {
	if r.op == OInt {
		return r.val.Sign() <= 0
	}
	if r.op == OApp && r.name == "drv" {
		return c.below(r.args[0], bound)
	}
	if c.isAlloc(r) {
		return c.baseGe(bound, c.AddI(r, 1), 0)
	}
	if b := c.refBound(r); b != nil {
		return c.baseGe(bound, b, 0)
	}
	return false
}

func (c *Ctx) isAlloc(t *Term) bool {
	a, _, ok := linAtomK(t)
	if !ok || a == nil {
		return false
	}
	_, is := c.lower[a]
	return is
}

func (c *Ctx) Distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	d := c.Sub(a, b)
	if d.op == OInt {
		return d.val.Sign() != 0
	}
	if a.op == OInt || b.op == OInt {
		if b.op == OInt {
			a, b = b, a
		}
		// literal (nil = 0) against an allocated reference
		if a.val.Sign() <= 0 && c.isAlloc(b) {
			_, k, _ := linAtomK(b)
			if k.Sign() >= 0 {
				return true
			}
		}
		if a.val.Sign() >= 0 && b.op == OApp && b.name == "drv" {
			return true
		}
		return false
	}
	ad := a.op == OApp && a.name == "drv"
	bd := b.op == OApp && b.name == "drv"
	if ad && bd {
		if a.args[1] != b.args[1] {
			return true
		}
		return c.Distinct(a.args[0], b.args[0])
	}
	if ad || bd {
		if bd {
			a, b = b, a
		}
		// a is derived
		if c.isAlloc(b) {
			return true // plain allocations are positive
		}
		if c.isAlloc(a.args[0]) {
			if bb := c.refBound(b); bb != nil && c.baseGe(a.args[0], bb, 0) {
				return true
			}
		}
		return false
	}
	if c.isAlloc(a) {
		if bb := c.refBound(b); bb != nil && c.baseGe(a, bb, 0) {
			return true
		}
	}
	if c.isAlloc(b) {
		if aa := c.refBound(a); aa != nil && c.baseGe(b, aa, 0) {
			return true
		}
	}
	if c.isAlloc(a) && c.isAlloc(b) {
		if c.baseGe(a, c.AddI(b, 1), 0) || c.baseGe(b, c.AddI(a, 1), 0) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- arrays

func elemSort(arr string) string { // "(Array Int X)" -> X
	i := strings.IndexByte(arr[7:], ' ') + 8
	return arr[i : len(arr)-1]
}
func arrSort(e string) string { return "(Array Int " + e + ")" }

func (c *Ctx) ConstArr(sort string, v *Term) *Term {
	return c.mk(&Term{op: OConstArr, sort: sort, args: []*Term{v}})
}

func (c *Ctx) Select(a, i *Term) *Term {
	if g, ok := c.agree[a]; ok && c.below(i, g.bound) {
		return c.Select(g.old, i)
	}
	if a.op == OApp && len(a.args) == 0 && len(a.name) > 2 && a.name[:2] == "FH" {
		if t := c.fhSelect(a, i); t != nil {
			return t
		}
	}
	if i.op == OIte && a.op == OStore {
		return c.Ite(i.args[0], c.Select(a, i.args[1]), c.Select(a, i.args[2]))
	}
	switch a.op {
	case OStore:
		if a.args[1] == i {
			return a.args[2]
		}
		if c.Distinct(a.args[1], i) {
			return c.Select(a.args[0], i)
		}
		e := c.Eq(a.args[1], i)
		if e.op == OFalse {
			return c.Select(a.args[0], i)
		}
		if e.op == OTrue {
			return a.args[2]
		}
		return c.Ite(e, a.args[2], c.Select(a.args[0], i))
	case OCopy:
		dst, doff, src, soff, n := a.args[0], a.args[1], a.args[2], a.args[3], a.args[4]
		in := c.And(c.Ge(i, doff), c.Lt(i, c.Add(doff, n)))
		if in.op == OFalse {
			return c.Select(dst, i)
		}
		v := c.Select(src, c.Add(c.Sub(i, doff), soff))
		if in.op == OTrue {
			return v
		}
		return c.Ite(in, v, c.Select(dst, i))
	case OConstArr:
		return a.args[0]
	case OIte:
		return c.Ite(a.args[0], c.Select(a.args[1], i), c.Select(a.args[2], i))
	case OArrOf:
		return c.At(a.args[0], i)
	}
	t := c.mk(&Term{op: OSelect, sort: elemSort(a.sort), args: []*Term{a, i}})
	if a.name == "" && t.sort == "Int" && t.aux == nil {
		if isByteArr(a) {
			t.aux = [2]*big.Int{big.NewInt(0), big.NewInt(255)}
		}
	}
	return t
}

// arrays read from the byte memory
func isByteArr(a *Term) bool {
	switch a.op {
	case OSelect:
		return isByteMem(a.args[0])
	case OConst:
		return strings.HasPrefix(a.name, "bytes_arr")
	}
	return false
}
func isByteMem(m *Term) bool {
	switch m.op {
	case OConst:
		return strings.HasPrefix(m.name, "E:byte")
	case OStore, OIte:
		return m.sort == "(Array Int (Array Int Int))" && isByteMem(m.args[len(m.args)-1]) || m.op == OStore && isByteMem(m.args[0])
	}
	return false
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	if elemSort(a.sort) != v.sort {
		panic(fmt.Sprintf("store sort %s into %s", v.sort, a.sort))
	}
	if a.op == OStore && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == OSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	return c.mk(&Term{op: OStore, sort: a.sort, args: []*Term{a, i, v}})
}

func (c *Ctx) CopyArr(dst, doff, src, soff, n *Term) *Term {
	if n.op == OInt && n.val.Sign() == 0 {
		return dst
	}
	if n.op == OInt && n.val.IsInt64() && n.val.Int64() <= 8 {
		r := dst
		for k := int64(0); k < n.val.Int64(); k++ {
			r = c.Store(r, c.AddI(doff, k), c.Select(src, c.AddI(soff, k)))
		}
		return r
	}
	return c.mk(&Term{op: OCopy, sort: dst.sort, args: []*Term{dst, doff, src, soff, n}})
}

// ---------------------------------------------------------------- uninterpreted functions

func (c *Ctx) App(name, sort string, args ...*Term) *Term {
	if name == "at" {
		return c.At(args[0], args[1])
	}
	if name == "blen" {
		return c.BLen(args[0])
	}
	if name == "bcat" {
		return c.Cat(args...)
	}
	if name == "bsub" {
		return c.BSub(args[0], args[1], args[2])
	}
	if name == "unit" {
		return c.Unit(args[0])
	}
	if name == "mkb" {
		return c.Mkb(args[0], args[1], args[2])
	}
	if name == "plain" && args[0].op == OBlit {
		// the definition (plainc of every byte) evaluated
		for _, ch := range []byte(args[0].name) {
			if ch < 32 || ch >= 127 || ch == 34 || ch == 92 {
				return c.tFalse
			}
		}
		return c.tTrue
	}
	if name == "dcoef" && args[0].op == OApp && args[0].name == "mkdec" {
		return args[0].args[0]
	}
	if t := c.viewApp(name, args); t != nil {
		return t
	}
	if t := c.rewrite(name, args); t != nil {
		return t
	}
	return c.mk(&Term{op: OApp, sort: sort, name: name, args: args})
}

// ---------------------------------------------------------------- byte strings

func (c *Ctx) Blit(s string) *Term { return c.mk(&Term{op: OBlit, sort: "Bytes", name: s}) }

func (c *Ctx) Unit(b *Term) *Term {
	if b.op == OInt && b.val.IsInt64() && b.val.Int64() >= 0 && b.val.Int64() < 256 {
		return c.Blit(string([]byte{byte(b.val.Int64())}))
	}
	return c.mk(&Term{op: OUnit, sort: "Bytes", args: []*Term{b}})
}

func (c *Ctx) Cat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		parts := []*Term{t}
		if t.op == OCat {
			parts = t.args
		}
		for _, p := range parts {
			if p.op == OBlit && p.name == "" {
				continue
			}
			if p.op == OBlit && len(out) > 0 && out[len(out)-1].op == OBlit {
				out[len(out)-1] = c.Blit(out[len(out)-1].name + p.name)
				continue
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return c.Blit("")
	}
	if len(out) == 1 {
		return out[0]
	}
	// lift a single ite with literal-ish branches? keep as is
	return c.mk(&Term{op: OCat, sort: "Bytes", args: out})
}

func (c *Ctx) BLen(s *Term) *Term {
	switch s.op {
	case OBlit:
		return c.Int(int64(len(s.name)))
	case OUnit:
		return c.Int(1)
	case OCat:
		var ls []*Term
		for _, a := range s.args {
			ls = append(ls, c.BLen(a))
		}
		return c.Add(ls...)
	case OMkb:
		return s.args[2]
	case OIte:
		return c.Ite(s.args[0], c.BLen(s.args[1]), c.BLen(s.args[2]))
	}
	return c.mk(&Term{op: OApp, sort: "Int", name: "blen", args: []*Term{s}})
}

func (c *Ctx) At(s, i *Term) *Term {
	switch s.op {
	case OBlit:
		if i.op == OInt && i.val.IsInt64() && i.val.Int64() >= 0 && i.val.Int64() < int64(len(s.name)) {
			return c.Int(int64(s.name[i.val.Int64()]))
		}
	case OUnit:
		if i.op == OInt && i.val.Sign() == 0 {
			return s.args[0]
		}
	case OCat:
		off := c.Int(0)
		for k, a := range s.args {
			l := c.BLen(a)
			end := c.Add(off, l)
			in := c.And(c.Ge(i, off), c.Lt(i, end))
			if in.op == OTrue {
				return c.At(a, c.Sub(i, off))
			}
			if in.op != OFalse {
				lt := c.Lt(i, end)
				if k+1 < len(s.args) && c.Ge(i, off).op == OTrue && i.op == OInt == false {
					return c.Ite(lt, c.At(a, c.Sub(i, off)), c.At(c.Cat(s.args[k+1:]...), c.Sub(i, end)))
				}
				break
			}
			off = end
		}
	case OMkb:
		return c.Select(s.args[0], c.Add(s.args[1], i))
	case OIte:
		return c.Ite(s.args[0], c.At(s.args[1], i), c.At(s.args[2], i))
	}
	return c.mk(&Term{op: OApp, sort: "Int", name: "at", args: []*Term{s, i}})
}

func (c *Ctx) BSub(s, i, j *Term) *Term {
	if i == j {
		return c.Blit("")
	}
	z := c.Int(0)
	if i == z && j == c.BLen(s) {
		return s
	}
	switch s.op {
	case OBlit:
		if i.op == OInt && j.op == OInt {
			a, b := i.val.Int64(), j.val.Int64()
			if 0 <= a && a <= b && b <= int64(len(s.name)) {
				return c.Blit(s.name[a:b])
			}
		}
	case OMkb:
		return c.Mkb(s.args[0], c.Add(s.args[1], i), c.Sub(j, i))
	case OCat:
		// drop whole leading / trailing parts when the cut falls on a boundary
		off := z
		for k, a := range s.args {
			if off == i && k > 0 {
				return c.BSub(c.Cat(s.args[k:]...), z, c.Sub(j, i))
			}
			if a.op == OBlit && i.op == OInt && off.op == OInt {
				d := new(big.Int).Sub(i.val, off.val)
				if d.Sign() > 0 && d.IsInt64() && d.Int64() < int64(len(a.name)) {
					rest := append([]*Term{c.Blit(a.name[d.Int64():])}, s.args[k+1:]...)
					return c.BSub(c.Cat(rest...), z, c.Sub(j, i))
				}
			}
			off = c.Add(off, c.BLen(a))
		}
		if i == z {
			off = z
			for k, a := range s.args {
				off = c.Add(off, c.BLen(a))
				if off == j {
					return c.Cat(s.args[:k+1]...)
				}
				if a.op == OBlit && j.op == OInt && off.op == OInt && off.val.Cmp(j.val) > 0 {
					prev := c.Cat(s.args[:k]...)
					pl := c.BLen(prev)
					if pl.op == OInt {
						d := new(big.Int).Sub(j.val, pl.val).Int64()
						if d >= 0 && d <= int64(len(a.name)) {
							return c.Cat(prev, c.Blit(a.name[:d]))
						}
					}
				}
			}
		}
	case OApp:
		if s.name == "bsub" {
			return c.BSub(s.args[0], c.Add(s.args[1], i), c.Add(s.args[1], j))
		}
	case OIte:
		return c.Ite(s.args[0], c.BSub(s.args[1], i, j), c.BSub(s.args[2], i, j))
	}
	return c.mk(&Term{op: OApp, sort: "Bytes", name: "bsub", args: []*Term{s, i, j}})
}

// bytes of the window [off, off+n) of an array
func (c *Ctx) Mkb(a, off, n *Term) *Term {
	if n.op == OInt && n.val.Sign() == 0 {
		return c.Blit("")
	}
	if a.op == OCopy && a.args[1] == off && a.args[4] == n && !(n.op == OInt && n.val.IsInt64() && n.val.Int64() <= 8) {
		return c.Mkb(a.args[2], a.args[3], n)
	}
	if n.op == OInt && n.val.IsInt64() && n.val.Int64() > 0 && n.val.Int64() <= 32 && (a.op == OStore || a.op == OConstArr || a.op == OCopy) {
		var us []*Term
		for k := int64(0); k < n.val.Int64(); k++ {
			us = append(us, c.Unit(c.Select(a, c.AddI(off, k))))
		}
		return c.Cat(us...)
	}
	if a.op == OArrOf {
		return c.BSub(a.args[0], off, c.Add(off, n))
	}
	if a.op == OIte {
		return c.Ite(a.args[0], c.Mkb(a.args[1], off, n), c.Mkb(a.args[2], off, n))
	}
	if a.op == OCopy {
		// window exactly the copied part, or the copied part a prefix etc.
		dst, doff, src, soff, m := a.args[0], a.args[1], a.args[2], a.args[3], a.args[4]
		if doff == off && m == n {
			return c.Mkb(src, soff, n)
		}
		if off == c.Add(doff, m) {
			return c.Mkb(dst, off, n)
		}
		if c.Add(off, n) == c.Add(doff, m) { // suffix is copied
			return c.Cat(c.Mkb(dst, off, c.Sub(doff, off)), c.Mkb(src, soff, m))
		}
		if doff == off { // prefix is copied
			return c.Cat(c.Mkb(src, soff, m), c.Mkb(dst, c.Add(off, m), c.Sub(n, m)))
		}
	}
	return c.mk(&Term{op: OMkb, sort: "Bytes", args: []*Term{a, off, n}})
}

func (c *Ctx) ArrOf(s *Term) *Term {
	return c.mk(&Term{op: OArrOf, sort: "(Array Int Int)", args: []*Term{s}})
}

func catParts(t *Term) []*Term {
	if t.op == OCat {
		return t.args
	}
	if t.op == OBlit && t.name == "" {
		return nil
	}
	return []*Term{t}
}

func (c *Ctx) eqBytes(a, b *Term) *Term {
	if a.op == OBlit && b.op == OBlit {
		return c.Bool(a.name == b.name)
	}
	pa, pb := catParts(a), catParts(b)
	// strip common prefix / suffix
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x == y {
			pa, pb = pa[1:], pb[1:]
			continue
		}
		if x.op == OBlit && y.op == OBlit {
			n := 0
			for n < len(x.name) && n < len(y.name) && x.name[n] == y.name[n] {
				n++
			}
			if n < len(x.name) && n < len(y.name) {
				return c.tFalse
			}
			if n == 0 {
				break
			}
			pa = append([]*Term{}, pa...)
			pb = append([]*Term{}, pb...)
			if n == len(x.name) {
				pa = pa[1:]
			} else {
				pa[0] = c.Blit(x.name[n:])
			}
			if n == len(y.name) {
				pb = pb[1:]
			} else {
				pb[0] = c.Blit(y.name[n:])
			}
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 && pa[len(pa)-1] == pb[len(pb)-1] {
		pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
	}
	a, b = c.Cat(pa...), c.Cat(pb...)
	if a == b {
		return c.tTrue
	}
	if d := c.Sub(c.BLen(a), c.BLen(b)); d.op == OInt && d.val.Sign() != 0 {
		return c.tFalse
	}
	// units against units
	pa, pb = catParts(a), catParts(b)
	if len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		h := func(t *Term) *Term {
			if t.op == OUnit {
				return t.args[0]
			}
			if t.op == OBlit {
				return c.Int(int64(t.name[0]))
			}
			return nil
		}
		tl := func(ps []*Term) *Term {
			if ps[0].op == OBlit {
				return c.Cat(append([]*Term{c.Blit(ps[0].name[1:])}, ps[1:]...)...)
			}
			return c.Cat(ps[1:]...)
		}
		if hx, hy := h(x), h(y); hx != nil && hy != nil {
			return c.And(c.Eq(hx, hy), c.Eq(tl(pa), tl(pb)))
		}
	}
	// hexadecimal text is injective
	if len(pa) == 1 && len(pb) == 1 && pa[0].op == OApp && pb[0].op == OApp && pa[0].name == "hexenc" && pb[0].name == "hexenc" {
		return c.Eq(pa[0].args[0], pb[0].args[0])
	}
	// spelled-out bytes against a window or a definition
	if len(pa) > 0 && len(pb) > 0 {
		if r := c.eqSpelled(a, b); r != nil {
			return r
		}
		if r := c.eqSpelled(b, a); r != nil {
			return r
		}
	}
	if len(pa) == 0 || len(pb) == 0 {
		if len(pa) == 0 {
			pa, a = pb, b
		}
		// a == ""  iff every part is empty
		if a.op != OIte {
			return c.Eq(c.BLen(a), c.Int(0))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, sort: "Bool", args: []*Term{a, b}})
}

// a spelled out byte by byte, b a definition, a case distinction or a window of literal length
func (c *Ctx) eqSpelled(a, b *Term) *Term {
	pa := catParts(a)
	for _, p := range pa {
		if p.op != OUnit && p.op != OBlit && !(p.op == OMkb && p.args[2].op == OInt && p.args[2].val.IsInt64() && p.args[2].val.Int64() <= 24) {
			return nil
		}
	}
	switch b.op {
	case OIte:
		return c.eqIte(b, a)
	case OApp:
		if t := c.expand(b.name, b.args); t != nil && t != b {
			return c.Eq(a, t)
		}
	}
	ch := false
	spell := func(ps []*Term) (out []*Term) {
		for _, p := range ps {
			if p.op == OMkb && p.args[2].op == OInt && p.args[2].val.IsInt64() && p.args[2].val.Int64() <= 24 {
				ch = true
				for k := int64(0); k < p.args[2].val.Int64(); k++ {
					out = append(out, c.Unit(c.Select(p.args[0], c.AddI(p.args[1], k))))
				}
				continue
			}
			if p.op == OApp {
				if t := c.expand(p.name, p.args); t != nil && t.op != OIte {
					ch = true
					out = append(out, t)
					continue
				}
			}
			out = append(out, p)
		}
		return
	}
	a2, b2 := c.Cat(spell(pa)...), c.Cat(spell(catParts(b))...)
	if ch && (a2 != a || b2 != b) {
		return c.Eq(a2, b2)
	}
	return nil
}

// ---------------------------------------------------------------- quantifiers and substitution

func (c *Ctx) Forall(vars []*Term, body *Term, pats [][]*Term) *Term {
	if body.op == OTrue || body.op == OFalse {
		return body
	}
	var used []*Term
	for _, v := range vars {
		if body.fv[v] {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	if body.op == OAnd && pats == nil {
		var cs []*Term
		for _, a := range body.args {
			cs = append(cs, c.Forall(used, a, nil))
		}
		return c.And(cs...)
	}
	t := &Term{op: OForall, sort: "Bool", args: []*Term{body}, vars: used, pats: pats}
	for _, p := range pats {
		_ = p
	}
	return c.mk(t)
}

func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, args)
			if t.op == OForall {
				var pats [][]*Term
				for _, p := range t.pats {
					var q []*Term
					for _, a := range p {
						q = append(q, rec(a))
					}
					pats = append(pats, q)
				}
				r = c.Forall(t.vars, args[0], pats)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OLin:
		l := lin{map[*Term]*big.Int{}, t.val}
		for i := range a {
			l.add(a[i], t.cf[i])
		}
		return c.fromLin(l)
	case OMul:
		return c.Mul(a[0], a[1])
	case ODiv:
		return c.DivK(a[0], t.val)
	case OMod:
		return c.ModK(a[0], t.val)
	case OGe0:
		return c.Ge0(a[0])
	case OEq:
		return c.Eq(a[0], a[1])
	case ONot:
		return c.Not(a[0])
	case OAnd:
		return c.And(a...)
	case OOr:
		return c.Or(a...)
	case OIte:
		return c.Ite(a[0], a[1], a[2])
	case OSelect:
		return c.Select(a[0], a[1])
	case OStore:
		return c.Store(a[0], a[1], a[2])
	case OCopy:
		return c.CopyArr(a[0], a[1], a[2], a[3], a[4])
	case OConstArr:
		return c.ConstArr(t.sort, a[0])
	case OApp:
		return c.App(t.name, t.sort, a...)
	case OCtor:
		return c.Ctor(t.name, a...)
	case OSel:
		return c.Sel(t.name, a[0])
	case OIs:
		return c.Is(t.name, a[0])
	case OForall:
		return c.Forall(t.vars, a[0], t.pats)
	case OCat:
		return c.Cat(a...)
	case OUnit:
		return c.Unit(a[0])
	case OMkb:
		return c.Mkb(a[0], a[1], a[2])
	case OArrOf:
		return c.ArrOf(a[0])
	}
	return t
}

// ---------------------------------------------------------------- printing

func bigSMT(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func qname(n string) string {
	for i := 0; i < len(n); i++ {
		ch := n[i]
		if !(ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || ch == '_' || ch == '!' || ch == '.') {
			return "|" + n + "|"
		}
	}
	return n
}

func (c *Ctx) Str(t *Term) string {
	p := &printer{c: c, noshare: true}
	return p.str(t)
}

type printer struct {
	c       *Ctx
	noshare bool
	decl    map[string]string // constants: name -> sort
	lits    map[string]bool
	funs    map[string]bool
	copies  []*Term
	copyN   map[*Term]string
	shared  map[*Term]string
	defs    []string
}

func (p *printer) str(t *Term) string {
	if !p.noshare {
		if n, ok := p.shared[t]; ok {
			return n
		}
	}
	return p.raw(t)
}

func (p *printer) raw(t *Term) string {
	var b strings.Builder
	list := func(op string, args []*Term) {
		b.WriteByte('(')
		b.WriteString(op)
		for _, a := range args {
			b.WriteByte(' ')
			b.WriteString(p.str(a))
		}
		b.WriteByte(')')
	}
	switch t.op {
	case OConst:
		if p.decl != nil && t.fv == nil {
			p.decl[t.name] = t.sort
		}
		return qname(t.name)
	case OInt:
		return bigSMT(t.val)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OLin:
		n := len(t.args)
		if t.val.Sign() != 0 {
			n++
		}
		if n > 1 {
			b.WriteString("(+")
		}
		for i, a := range t.args {
			if n > 1 {
				b.WriteByte(' ')
			}
			if t.cf[i].Cmp(bone) == 0 {
				b.WriteString(p.str(a))
			} else {
				b.WriteString("(* " + bigSMT(t.cf[i]) + " " + p.str(a) + ")")
			}
		}
		if t.val.Sign() != 0 {
			b.WriteString(" " + bigSMT(t.val))
		}
		if n > 1 {
			b.WriteByte(')')
		}
	case OMul:
		list("*", t.args)
	case ODiv:
		return "(div " + p.str(t.args[0]) + " " + t.val.String() + ")"
	case OMod:
		return "(mod " + p.str(t.args[0]) + " " + t.val.String() + ")"
	case OGe0:
		d := t.args[0]
		if d.op == OLin { // nicer: pos >= neg
			pl := lin{map[*Term]*big.Int{}, big.NewInt(0)}
			nl := lin{map[*Term]*big.Int{}, big.NewInt(0)}
			for i, a := range d.args {
				if d.cf[i].Sign() > 0 {
					pl.m[a] = d.cf[i]
				} else {
					nl.m[a] = new(big.Int).Neg(d.cf[i])
				}
			}
			nl.k = new(big.Int).Neg(d.val)
			return "(>= " + p.raw(p.c.fromLin(pl)) + " " + p.raw(p.c.fromLin(nl)) + ")"
		}
		return "(>= " + p.str(d) + " 0)"
	case OEq:
		list("=", t.args)
	case ONot:
		list("not", t.args)
	case OAnd:
		list("and", t.args)
	case OOr:
		list("or", t.args)
	case OIte:
		list("ite", t.args)
	case OSelect:
		list("select", t.args)
	case OStore:
		list("store", t.args)
	case OConstArr:
		return "((as const " + t.sort + ") " + p.str(t.args[0]) + ")"
	case OApp, OCtor, OSel:
		if p.funs != nil {
			p.funs[t.name] = true
		}
		if len(t.args) == 0 {
			return qname(t.name)
		}
		list(qname(t.name), t.args)
	case OIs:
		return "((_ is " + qname(t.name) + ") " + p.str(t.args[0]) + ")"
	case OForall:
		vs := ""
		for _, v := range t.vars {
			vs += "(" + qname(v.name) + " " + v.sort + ")"
		}
		body := p.str(t.args[0])
		if len(t.pats) == 0 {
			return "(forall (" + vs + ") " + body + ")"
		}
		ps := ""
		for _, pt := range t.pats {
			ps += " :pattern ("
			for i, a := range pt {
				if i > 0 {
					ps += " "
				}
				ps += p.str(a)
			}
			ps += ")"
		}
		return "(forall (" + vs + ") (! " + body + ps + "))"
	case OBlit:
		if p.noshare {
			return fmt.Sprintf("%q", t.name)
		}
		p.lits[t.name] = true
		return p.c.litName(t.name)
	case OUnit:
		if p.funs != nil {
			p.funs["unit"] = true
		}
		list("unit", t.args)
	case OCat:
		if p.funs != nil {
			p.funs["app"] = true
		}
		s := p.str(t.args[len(t.args)-1])
		for i := len(t.args) - 2; i >= 0; i-- {
			s = "(app " + p.str(t.args[i]) + " " + s + ")"
		}
		return s
	case OMkb:
		if p.funs != nil {
			p.funs["mkb"] = true
		}
		list("mkb", t.args)
	case OArrOf:
		if p.funs != nil {
			p.funs["arrof"] = true
		}
		list("arrof", t.args)
	case OCopy:
		if p.noshare {
			list("copyarr", t.args)
		} else {
			n, ok := p.copyN[t]
			if !ok {
				n = fmt.Sprintf("cp!%d", t.id)
				p.copyN[t] = n
				p.copies = append(p.copies, t)
			}
			return n
		}
	}
	return b.String()
}

// name of a literal in queries; the prelude names literals the same way
func (c *Ctx) litName(s string) string { return fmt.Sprintf("lit!%x", s) }

func litOf(n string) (string, bool) {
	if !strings.HasPrefix(n, "lit!") {
		return "", false
	}
	b, err := hex.DecodeString(n[4:])
	return string(b), err == nil
}
