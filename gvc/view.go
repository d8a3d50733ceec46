package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// ---------------------------------------------------------------- values as trees
//
// view(x) is the tree a value denotes. It is a function over the frozen heap FH: on references that existed at
// the function's entry FH is the heap at entry; on objects the function builds it is their content when they are
// made a value. A function whose clauses (or whose callees' clauses) speak of views may not write to an object
// that is already part of a value: every such write is an obligation over the ghost set frz of frozen references.

var viewHeap = []struct{ fh, mem string }{
	{"FHV", "E:Value"}, {"FHE", "E:MapEntry"}, {"FHI", "E:ListItem"}, {"FHB", "E:byte"}, {"FHbig", "G:big"},
	{"FHiek", "F:immutableMapEntry.key"}, {"FHiev", "F:immutableMapEntry.value"}, {"FHmek", "F:mutableMapEntry.key"}, {"FHmev", "F:mutableMapEntry.value"},
	{"FHiik", "F:immutableListItem.key"}, {"FHiiv", "F:immutableListItem.value"}, {"FHmik", "F:mutableListItem.key"}, {"FHmiv", "F:mutableListItem.value"},
}

var viewSyms = map[string]bool{"view": true, "vseq": true, "kseq": true, "iseq": true, "fekey": true, "feval": true, "fikey": true, "fival": true}

var fhOf = map[string]string{}

func init() {
	for _, x := range viewHeap {
		viewSyms[x.fh] = true
		fhOf[x.mem] = x.fh
	}
}

func (w *World) mentionsView(n *Node, seen map[string]bool) bool {
	if n == nil {
		return false
	}
	if viewSyms[n.name] && (n.op == "call" || n.op == "id") {
		return true
	}
	if m := w.Cons.Macros[n.name]; m != nil && !seen[n.name] {
		if seen == nil {
			seen = map[string]bool{}
		}
		seen[n.name] = true
		if w.mentionsView(m.body, seen) {
			return true
		}
	}
	for _, a := range n.args {
		if w.mentionsView(a, seen) {
			return true
		}
	}
	return false
}

func (v *Verifier) conViews(con *Contract) bool {
	for _, cs := range [][]*Clause{con.requires, con.ensures} {
		for _, cl := range cs {
			if v.relevant(cl) && v.w.mentionsView(cl.expr, map[string]bool{}) {
				return true
			}
		}
	}
	return false
}

type needViews struct{}

func (v *Verifier) useViews() {
	if !v.viewMode {
		panic(needViews{})
	}
}

// called before a write to an object
func (v *Verifier) viewWrite(st *State, mem string, ref *Term, pos string) {
	v.readOnly(st, mem, ref, pos)
	if !v.viewMode || fhOf[mem] == "" {
		return
	}
	c := v.c
	g := c.Or(c.Lt(ref, c.Int(0)), c.Not(st.ghost("frz", ref)))
	if ref.op == OApp && ref.name == "drv" {
		return
	}
	if g.op == OTrue {
		return
	}
	v.oblige(st, "frame", "no object that is part of a value is changed ("+mem+")", pos, nil, g)
}

func (v *Verifier) viewAlloc(st *State, ref *Term) {
	if v.viewMode {
		st.setGhost("frz", ref, v.c.tFalse)
	}
}

func (v *Verifier) viewAdvance(st *State, before *Term) {
	if !v.viewMode {
		return
	}
	c := v.c
	m := st.get("G:frz", "Bool")
	base := c.Fresh("lm:G:frz", m.sort)
	c.isMem[base] = true
	c.lt[base] = st.alloc
	c.agree[base] = agreeInfo{old: m, bound: before}
	q := c.BVar("r", "Int")
	st.assume(c.Forall([]*Term{q}, c.Implies(c.Lt(q, before), c.Eq(rawSelect(c, base, q), c.Select(m, q))), [][]*Term{{rawSelect(c, base, q)}}))
	st.set("G:frz", base)
}

// x of type t becomes a value (or an entry or item of one)
func (v *Verifier) freeze(st *State, x Val, t types.Type) {
	if !v.viewMode {
		return
	}
	c := v.c
	xt, ok := x.(*Term)
	if sv, isS := x.(*StructV); isS && v.w.tname(t) == "bigIntNumber" {
		xt, ok = sv.f[0], true
	}
	if !ok {
		return
	}
	fr := func(ref *Term, mems ...string) {
		if c.below(ref, v.alloc0) && ref.op != OInt {
			return
		}
		for _, m := range mems {
			fh := fhOf[m]
			f := v.fhTerm(fh)
			cur := c.Select(st.get(m, leafOf(m, f.sort)), ref)
			st.assume(c.mk(&Term{op: OEq, sort: "Bool", args: []*Term{rawSelect(c, f, ref), cur}}))
		}
		if ref.op != OInt {
			st.setGhost("frz", ref, c.tTrue)
		}
	}
	n := v.w.tname(t)
	switch n {
	case "immutableListValue", "solidListValue":
		fr(c.Arr(xt), "E:Value")
	case "immutableMapValue", "sortedMapValue":
		fr(c.Arr(xt), "E:MapEntry")
	case "sparseListValue":
		fr(c.Arr(xt), "E:ListItem")
	case "rawString", "unknownValue":
		fr(c.Arr(xt), "E:byte")
		f := v.fhTerm("FHB")
		cur := c.Mkb(c.Select(st.get("E:byte", "Int"), c.Arr(xt)), c.Off(xt), c.Len(xt))
		if fz := c.Mkb(rawSelect(c, f, c.Arr(xt)), c.Off(xt), c.Len(xt)); fz != cur && !(c.below(c.Arr(xt), v.alloc0) && c.Arr(xt).op != OInt) {
			st.assume(c.mk(&Term{op: OEq, sort: "Bool", args: []*Term{fz, cur}}))
		}
	case "bigIntNumber":
		fr(xt, "G:big")
	case "*immutableMapEntry", "*mutableMapEntry", "*immutableListItem", "*mutableListItem":
		fr(xt, "F:"+n[1:]+".key", "F:"+n[1:]+".value")
	}
}

func (v *Verifier) fhTerm(fh string) *Term {
	f := v.w.Pre.Funs[fh]
	if f == nil {
		panic(fmt.Sprintf("no %s in the prelude", fh))
	}
	return v.c.mk(&Term{op: OApp, sort: f.Ret, name: fh})
}

// reads of the frozen heap at old references are reads of the heap at entry
func (c *Ctx) fhSelect(a, i *Term) *Term {
	if c.fhMem == nil || !c.below(i, c.fhAlloc) {
		return nil
	}
	if a.name == "FHB" && !(i.op == OSel && i.name == "s_arr") {
		return nil
	}
	return c.Select(c.fhMem(a.name, a.sort), i)
}

func leafOf(mem, sort string) string {
	s := elemSort(sort)
	if strings.HasPrefix(mem, "E:") {
		s = elemSort(s)
	}
	return s
}

// view of a value whose constructor is known
func (c *Ctx) viewOf(x *Term) *Term {
	if x.op == OIte {
		a, b := c.viewOf(x.args[1]), c.viewOf(x.args[2])
		if a != nil && b != nil {
			return c.Ite(x.args[0], a, b)
		}
		return nil
	}
	if x.op != OCtor {
		return nil
	}
	fh := func(n string) *Term {
		return c.App(n, c.pre.Funs[n].Ret)
	}
	p := func() *Term { return x.args[0] }
	switch x.name {
	case "i_nil", "i_nullValue":
		return c.Ctor("vnull")
	case "i_boolValue":
		return c.Ctor("vbool", p())
	case "i_longNumber":
		return c.Ctor("vlong", p())
	case "i_doubleNumber":
		return c.Ctor("vdbl", p())
	case "i_bigIntNumber":
		return c.Ctor("vbig", c.Select(fh("FHbig"), p()))
	case "i_decimalNumber":
		return c.Ctor("vdec", p())
	case "i_uft8String":
		return c.Ctor("vstr", p())
	case "i_rawString", "i_unknownValue":
		n := "vraw"
		if x.name == "i_unknownValue" {
			n = "vext"
		}
		return c.Ctor(n, c.Mkb(c.Select(fh("FHB"), c.Arr(p())), c.Off(p()), c.Len(p())))
	case "i_immutableListValue", "i_solidListValue":
		return c.Ctor("vlist", c.App("vseq", "VL", c.Select(fh("FHV"), c.Arr(p())), c.Off(p()), c.Len(p())))
	case "i_immutableMapValue", "i_sortedMapValue":
		return c.Ctor("vmap", c.App("kseq", "KL", c.Select(fh("FHE"), c.Arr(p())), c.Off(p()), c.Len(p())))
	case "i_sparseListValue":
		return c.Ctor("vsp", c.App("iseq", "IL", c.Select(fh("FHI"), c.Arr(p())), c.Off(p()), c.Len(p())))
	}
	return nil
}

func (c *Ctx) viewApp(name string, args []*Term) *Term {
	switch name {
	case "view":
		return c.viewOf(args[0])
	case "vseq", "kseq", "iseq":
		if args[2].op == OInt && args[2].val.Sign() <= 0 {
			return c.Ctor(map[string]string{"vseq": "vln", "kseq": "kln", "iseq": "iln"}[name])
		}
	case "vlen", "klen", "ilen":
		a := args[0]
		if a.op == OApp && (a.name == "vseq" || a.name == "kseq" || a.name == "iseq") {
			if lo, _ := c.rng(a.args[2]); lo != nil && lo.Sign() >= 0 {
				return a.args[2]
			}
			if c.nonneg[a.args[2]] {
				return a.args[2]
			}
		}
		if a.op == OCtor {
			if len(a.args) == 0 {
				return c.Int(0)
			}
			return c.Add(c.Int(1), c.App(name, "Int", a.args[len(a.args)-1]))
		}
	}
	return nil
}

// which frozen-heap functions need the link to the heap at entry stated
func (c *Ctx) fhLinks(impls func(string) []*IfaceCtor, have map[string]bool, decl map[string]string) (decls, axs []string) {
	if c.fhMem == nil {
		return
	}
	if _, ok := decl[c.fhAlloc.name]; ok {
		axs = append(axs, c.wfLinks(impls, have, decl)...)
	}
	for _, x := range viewHeap {
		if !have[x.fh] {
			continue
		}
		n := x.mem + "@0"
		if _, ok := decl[n]; !ok {
			continue
		}
		if _, ok := decl[c.fhAlloc.name]; !ok {
			decls = append(decls, "(declare-fun "+qname(c.fhAlloc.name)+" () Int)")
			decl[c.fhAlloc.name] = "Int"
		}
		axs = append(axs, c.wfLinks(impls, have, decl)...)
		axs = append(axs, fmt.Sprintf("(assert (forall ((r Int)) (! (=> (and (<= 0 r) (< r %s)) (= (select %s r) (select %s r))) :pattern ((select %s r)))))", qname(c.fhAlloc.name), x.fh, qname(n), x.fh))
	}
	return
}

// entries and items that are referred to at entry exist
func (c *Ctx) wfLinks(impls func(string) []*IfaceCtor, have map[string]bool, decl map[string]string) (axs []string) {
	for _, e := range []struct{ mem, in string }{{"E:MapEntry@0", "MapEntry"}, {"E:ListItem@0", "ListItem"}} {
		if _, ok := decl[e.mem]; !ok || have["wf:"+e.mem] {
			continue
		}
		have["wf:"+e.mem] = true
		var ors []string
		for _, ic := range impls(e.in) {
			pl := "(" + ic.Ctor.Sels[0] + " x)"
			ors = append(ors, fmt.Sprintf("(and ((_ is %s) x) (<= 0 %s) (< %s %s))", ic.Ctor.Name, pl, pl, qname(c.fhAlloc.name)))
		}
		axs = append(axs, fmt.Sprintf("(assert (forall ((a Int) (i Int)) (! (let ((x (select (select %s a) i))) (or ((_ is i_nil) x) %s)) :pattern ((select (select %s a) i)))))", qname(e.mem), strings.Join(ors, " "), qname(e.mem)))
	}
	return
}

var _ = big.NewInt

// C11: not even for a moment is an object written that existed before and is not listed (values are read from
// several goroutines at once)
func (v *Verifier) readOnly(st *State, mem string, ref *Term, pos string) {
	if v.prop != "C11" || v.roLocs == nil {
		return
	}
	c := v.c
	if ref.op == OApp && ref.name == "drv" {
		return
	}
	all := c.tTrue
	for _, locs := range v.roLocs {
		g := c.Or(c.Ge(ref, v.alloc0), c.Lt(ref, c.Int(0)))
		for _, l := range locs {
			if l.mem != mem {
				continue
			}
			if l.ref == nil {
				g = c.tTrue
				continue
			}
			e := c.Eq(ref, l.ref)
			if l.cond != nil {
				e = c.And(e, l.cond)
			}
			g = c.Or(g, e)
		}
		all = c.And(all, g)
	}
	if v.roCount != nil {
		all = c.Or(all, c.Le(v.roCount, c.Int(0)))
	}
	if all.op == OTrue {
		return
	}
	v.oblige(st, "frame", "no object that existed before is written ("+mem+")", pos, nil, all)
}
