package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type unsupErr string

func unsup(f string, a ...interface{}) unsupErr { return unsupErr(fmt.Sprintf(f, a...)) }

type Oblig struct {
	Fn    string
	Name  string
	Kind  string
	Pos   string
	Tags  []string
	asm   []*Term
	goal  *Term
	Trace []string
	Res   Result
	Group string
	ctx   *Ctx
	text  string
	fixed bool // text is given
	excl  map[string]bool
}

type Verifier struct {
	infMemo map[string]*loopMemo
	w          *World
	c          *Ctx
	prop       string
	name       string
	fn         *ssa.Function
	cons       []boundContract
	m0         map[string]*Term
	memLeaf    map[string]string
	alloc0     *Term
	roLocs     [][]Loc
	pureMemo   map[string][]*Term
	roCount    *Term           // number of elements written, when not known
	limited    map[*Term]*Term // readers made by io.LimitReader
	viewMode   bool
	obls       []*Oblig
	mute       int
	entry      *State
	paths      int
	steps      int
	returns    int
	params     []EV
	globs      map[*ssa.Global]Val
	loopN      map[string]int
	pure       int
	used       map[string]bool // contracts of callees used
	inlined    map[string]bool
	externs    map[string]bool
	loopMemo   map[string]*loopInfo
	allocBound *Clause
	notes      map[string]bool
	noteC      map[string]int
	lemIH      []*Term
	gfacts     []*Term
	pruneWith  bool
	pruneAll   bool
	funcCells  map[*Term]*FuncV
	deadline   func() bool
	hv         []*Term
	excl       map[string]bool
	diverges   bool
	conNames   []map[string]EV
	usedLem    map[string]bool
	recvPtr    *Term // a value receiver that lives in an object
	candLvl    int   // solver effort for loop candidates
	retAsm     [][]*Term
}

type boundContract struct {
	con   *Contract
	iface types.Type // interface the contract belongs to, nil for a function contract
}

func newVerifier(w *World, prop, name string, fn *ssa.Function) *Verifier {
	v := &Verifier{w: w, c: w.newCtx(), prop: prop, name: name, fn: fn, m0: map[string]*Term{}, memLeaf: map[string]string{}, globs: map[*ssa.Global]Val{},
		loopN: map[string]int{}, used: map[string]bool{}, inlined: map[string]bool{}, externs: map[string]bool{}, loopMemo: map[string]*loopInfo{}, notes: map[string]bool{}, noteC: map[string]int{}, usedLem: map[string]bool{}, funcCells: map[*Term]*FuncV{}}
	v.limited = map[*Term]*Term{}
	v.alloc0 = v.c.Const("alloc0", "Int")
	v.c.lower[v.alloc0] = v.c.Int(1)
	v.c.SetRange(v.alloc0, bone, nil)
	v.c.fhAlloc = v.alloc0
	v.c.fhMem = func(fh, sort string) *Term {
		for _, x := range viewHeap {
			if x.fh == fh {
				return v.mem0(x.mem, leafOf(x.mem, sort))
			}
		}
		panic("no heap for " + fh)
	}
	return v
}

func (v *Verifier) newState() *State {
	s := &State{v: v, mem: map[string]*Term{}, alloc: v.alloc0, asmSet: map[*Term]bool{}, dyn: map[*Term]string{}, notd: map[string]bool{},
		its: map[string]*Term{}, loops: map[string]*loopRun{}, inv: map[*Term]bool{}}
	s.assumeRaw(v.c.mk(&Term{op: OGe0, sort: "Bool", args: []*Term{v.c.AddI(v.alloc0, -1)}}))
	return s
}

// ---------------------------------------------------------------- obligations

func (v *Verifier) oblige(st *State, kind, name, pos string, tags []string, goal *Term) {
	if v.mute > 0 {
		st.assume(goal)
		return
	}
	g := st.deep(goal)
	g = st.simp(g)
	if g.op != OTrue {
		v.obls = append(v.obls, &Oblig{Fn: v.name, Name: name, Kind: kind, Pos: pos, Tags: tags, asm: st.asm[:len(st.asm):len(st.asm)], goal: g, Trace: st.trace[:len(st.trace):len(st.trace)], ctx: v.c})
	} else {
		v.obls = append(v.obls, &Oblig{Fn: v.name, Name: name, Kind: kind, Pos: pos, Tags: tags, goal: nil, Res: Result{OK: true, Backend: "simplifier"}})
	}
	if kind == "postcondition" || kind == "typeinv" { // judged independently of each other
		return
	}
	st.assume(goal)
}

func (v *Verifier) safety(st *State, what string, in ssa.Instruction, goal *Term) {
	v.oblige(st, "safety", what, v.posOf(in), nil, goal)
}

func (v *Verifier) posOf(in ssa.Instruction) string {
	p := v.w.Prog.Fset.Position(in.Pos())
	if p.IsValid() {
		f := p.Filename
		if i := strings.LastIndexByte(f, '/'); i >= 0 {
			f = f[i+1:]
		}
		return fmt.Sprintf("%s:%d", f, p.Line)
	}
	return in.Parent().Name()
}

// ---------------------------------------------------------------- allocation and typing

func (v *Verifier) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = v.c.AddI(st.alloc, 1)
	v.viewAlloc(st, r)
	return r
}

const maxLen = int64(1) << 56

func (v *Verifier) sliceWF(s *Term) *Term { return v.sliceWF1(s, false) }

// a plain []byte may be a window of an array inside of an object (those have negative references);
// values never are, see inv_rawString
func (v *Verifier) mayBeScratch(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == v.w.TPkg {
		return false
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (v *Verifier) sliceWF1(s *Term, scratch bool) *Term {
	c := v.c
	z := c.Int(0)
	a := c.Ge(c.Arr(s), z)
	if scratch {
		a = c.tTrue
	}
	return c.And(a, c.Ge(c.Off(s), z), c.Ge(c.Len(s), z), c.Ge(c.Cap(s), c.Len(s)),
		c.Le(c.Add(c.Off(s), c.Cap(s)), c.Int(maxLen)), c.Implies(c.Eq(c.Arr(s), z), c.And(c.Eq(c.Cap(s), z), c.Eq(c.Off(s), z))))
}

func intRange(t types.Type) (lo, hi *big.Int) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil
	}
	p := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	switch b.Kind() {
	case types.Int, types.Int64:
		return new(big.Int).Neg(p(63)), new(big.Int).Sub(p(63), bone)
	case types.Int32:
		return new(big.Int).Neg(p(31)), new(big.Int).Sub(p(31), bone)
	case types.Int16:
		return new(big.Int).Neg(p(15)), new(big.Int).Sub(p(15), bone)
	case types.Int8:
		return new(big.Int).Neg(p(7)), new(big.Int).Sub(p(7), bone)
	case types.Uint, types.Uint64, types.Uintptr:
		return big.NewInt(0), new(big.Int).Sub(p(64), bone)
	case types.Uint32:
		return big.NewInt(0), new(big.Int).Sub(p(32), bone)
	case types.Uint16:
		return big.NewInt(0), new(big.Int).Sub(p(16), bone)
	case types.Uint8:
		return big.NewInt(0), new(big.Int).Sub(p(8), bone)
	}
	return nil, nil
}

// facts every value of a type satisfies
func (v *Verifier) typeInv(st *State, x *Term, t types.Type) {
	if x == nil || x.op == OInt || x.op == OBlit || len(x.fv) > 0 {
		return
	}
	key := v.c.mk(&Term{op: OApp, sort: "$", name: "inv:" + t.String(), args: []*Term{x}})
	if st.inv[key] {
		return
	}
	st.inv[key] = true
	c := v.c
	switch x.sort {
	case "Int":
		if lo, hi := intRange(t); lo != nil {
			if x.op == OConst && x.aux == nil {
				c.SetRange(x, lo, hi)
			}
			l, h := c.rng(x)
			if l == nil || l.Cmp(lo) < 0 {
				st.assumeRaw(c.mk(&Term{op: OGe0, sort: "Bool", args: []*Term{c.Sub(x, c.BigI(lo))}}))
			} else if x.op == OConst || x.op == OSel || x.op == OSelect {
				st.assumeRaw(c.mk(&Term{op: OGe0, sort: "Bool", args: []*Term{c.Sub(x, c.BigI(lo))}}))
			}
			if h == nil || h.Cmp(hi) > 0 || x.op == OConst || x.op == OSel || x.op == OSelect {
				st.assumeRaw(c.mk(&Term{op: OGe0, sort: "Bool", args: []*Term{c.Sub(c.BigI(hi), x)}}))
			}
			return
		}
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan:
			st.assume(c.Ge(x, c.Int(0)))
			v.assumeBelow(st, x)
		}
	case "Slice":
		st.assume(v.sliceWF1(x, v.mayBeScratch(t)))
		v.assumeBelow(st, c.Arr(x))
	case "Iface":
		it, ok := t.Underlying().(*types.Interface)
		if !ok {
			return
		}
		if v.closedWorld(t) {
			ds := []*Term{c.Is("i_nil", x)}
			for _, ic := range v.w.impls(t) {
				ds = append(ds, c.Is(ic.Ctor.Name, x))
			}
			st.assume(c.Or(ds...))
			if v.viewMode && len(v.w.impls(t)) <= 2 {
				for _, ic := range v.w.impls(t) {
					if _, ok := ic.T.Underlying().(*types.Pointer); ok {
						p := c.Sel(ic.Ctor.Sels[0], x)
						bound := st.alloc
						if b := c.refBound(p); b != nil {
							bound = b
						}
						lt := c.mk(&Term{op: OGe0, sort: "Bool", args: []*Term{c.AddI(c.Sub(bound, p), -1)}})
						st.assume(c.Implies(c.Is(ic.Ctor.Name, x), c.And(c.Ge(p, c.Int(0)), lt)))
					}
				}
			}
		} else if it.NumMethods() > 0 {
			// a dynamic type of the program that lacks the methods is excluded
			im := map[string]bool{}
			for _, ic := range v.w.impls(t) {
				im[ic.Ctor.Name] = true
			}
			if len(im) <= 6 {
				ds := []*Term{c.Is("i_nil", x), c.Is("i_other", x)}
				for _, ic := range v.w.impls(t) {
					ds = append(ds, c.Is(ic.Ctor.Name, x))
				}
				st.assume(c.Or(ds...))
			}
			for _, ic := range v.w.Ifaces {
				if !im[ic.Ctor.Name] && len(im) > 6 {
					st.assume(c.Not(c.Is(ic.Ctor.Name, x)))
				}
			}
		}
		st.assume(c.Implies(c.Is("i_other", x), c.And(c.Lt(c.Sel("o_id", x), st.alloc), c.Ge(c.Sel("o_id", x), c.Int(-100000)))))
	}
}

// the reference x exists; where it is known since when, that is stated
func (v *Verifier) assumeBelow(st *State, x *Term) {
	c := v.c
	if b := c.refBound(x); b != nil && b != st.alloc && v.viewMode {
		st.assumeRaw(c.mk(&Term{op: OGe0, sort: "Bool", args: []*Term{c.AddI(c.Sub(b, x), -1)}}))
	}
	st.assume(c.Lt(x, st.alloc))
}

func (s *State) assumeRaw(t *Term) {
	if t.op == OTrue || s.asmSet[t] {
		return
	}
	s.asmSet[t] = true
	s.asm = append(s.asm, t)
}

// interfaces of the package whose implementations are all known
var closedIfaces = map[string]bool{"Value": true, "Bool": true, "Number": true, "String": true, "Extension": true, "List": true, "Map": true, "Collection": true,
	"ListItem": true, "MapEntry": true, "Packer": true, "Unpacker": true, "Parser": true, "Writer": true}

func (v *Verifier) closedWorld(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == v.w.TPkg && closedIfaces[n.Obj().Name()]
}

// what is known about the payload once the dynamic type is
func (v *Verifier) payloadInv(st *State, x *Term, ctor string) {
	for _, ic := range v.w.Ifaces {
		if ic.Ctor.Name != ctor {
			continue
		}
		if _, isS := ic.T.Underlying().(*types.Struct); isS && isOpaque(ic.T) == "" {
			sv := v.unbox(st, x, ic.T).(*StructV)
			for i, l := range v.w.leaves(ic.T) {
				v.typeInv(st, sv.f[i], l.T)
				if _, isP := l.T.Underlying().(*types.Pointer); isP {
					st.assume(v.c.Gt(sv.f[i], v.c.Int(0)))
				}
			}
			return
		}
		p := v.unbox(st, x, ic.T)
		if pt, ok := p.(*Term); ok {
			v.typeInv(st, pt, ic.T)
			if _, isP := ic.T.Underlying().(*types.Pointer); isP {
				st.assume(v.c.Gt(pt, v.c.Int(0)))
			}
			v.assumeTypeMacro(st, pt, ic.T)
		}
	}
}

// declared type invariant: macro inv_<type>
func (v *Verifier) assumeTypeMacro(st *State, x *Term, t types.Type) {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() != v.w.TPkg {
		return
	}
	m := v.w.Cons.Macros["inv_"+n.Obj().Name()]
	if m == nil {
		return
	}
	key := v.c.mk(&Term{op: OApp, sort: "$", name: "tinv:" + n.Obj().Name(), args: []*Term{x}})
	if st.inv[key] {
		return
	}
	st.inv[key] = true
	hs := st
	if v.entry != nil && v.entryLive(x) {
		hs = v.entry
	}
	sc := &Scope{v: v, st: hs, old: hs, names: map[string]EV{m.params[0]: {x, t}}}
	st.assume(sc.Bool(m.body))
}

func (v *Verifier) entryLive(x *Term) bool {
	if x.sort == "Slice" {
		return v.c.below(v.c.Arr(x), v.alloc0)
	}
	return v.c.below(x, v.alloc0)
}

func (v *Verifier) proveTypeMacro(st *State, x *Term, t types.Type, pos string) {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() != v.w.TPkg {
		return
	}
	m := v.w.Cons.Macros["inv_"+n.Obj().Name()]
	if m == nil {
		return
	}
	key := v.c.mk(&Term{op: OApp, sort: "$", name: "tinv:" + n.Obj().Name(), args: []*Term{x}})
	if st.inv[key] && len(st.mem) >= 0 && v.sameContent(st, x) {
		return
	}
	sc := &Scope{v: v, st: st, old: st, names: map[string]EV{m.params[0]: {x, t}}}
	v.oblige(st, "typeinv", "invariant of "+n.Obj().Name()+" holds", pos, nil, sc.Bool(m.body))
}

// the invariant was assumed for the entry heap and nothing was written since
func (v *Verifier) sameContent(st *State, x *Term) bool {
	for n, m := range st.mem {
		if strings.HasPrefix(n, "E:") || strings.HasPrefix(n, "F:") {
			if m != v.m0[n] {
				return false
			}
		}
	}
	return true
}

// ---------------------------------------------------------------- boxing

func (v *Verifier) box(st *State, x Val, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return x.(*Term)
	}
	ic := v.w.ifaceFor(t)
	if ic == nil {
		ic = v.w.lateIface(t)
		if ic == nil {
			panic(unsup("boxing of %s", t))
		}
	}
	switch y := x.(type) {
	case *Term:
		return v.c.Ctor(ic.Ctor.Name, y)
	case *StructV:
		return v.c.Ctor(ic.Ctor.Name, y.f...)
	}
	panic(unsup("boxing of %T", x))
}

func (w *World) lateIface(t types.Type) *IfaceCtor { return nil }

func (v *Verifier) unbox(st *State, x *Term, t types.Type) Val {
	ic := v.w.ifaceFor(t)
	if ic == nil {
		panic(unsup("unboxing of %s", t))
	}
	if _, ok := t.Underlying().(*types.Struct); ok && isOpaque(t) == "" {
		sv := &StructV{t: t}
		for _, s := range ic.Ctor.Sels {
			sv.f = append(sv.f, v.c.Sel(s, x))
		}
		return sv
	}
	return v.c.Sel(ic.Ctor.Sels[0], x)
}

// identity of the object behind an interface value (writers and readers)
func (v *Verifier) objid(x *Term) *Term {
	c := v.c
	if x.op == OCtor {
		if x.name == "i_other" {
			return x.args[1]
		}
		if len(x.args) == 1 && x.args[0].sort == "Int" {
			return x.args[0]
		}
		return c.Int(0)
	}
	return c.App("objid", "Int", x)
}

// identity as a function of the interface value
func (w *World) objidDef() string {
	r := "0"
	for i := len(w.Ifaces) - 1; i >= 0; i-- {
		ic := w.Ifaces[i]
		if _, ok := ic.T.Underlying().(*types.Pointer); ok {
			n := ic.Ctor.Name
			if strings.Contains(n, "Buffer") || strings.Contains(n, "Reader") || strings.Contains(n, "Builder") {
				r = "(ite ((_ is " + n + ") x) (" + ic.Ctor.Sels[0] + " x) " + r + ")"
			}
		}
	}
	return "(define-fun objid ((x Iface)) Int (ite ((_ is i_other) x) (o_id x) " + r + "))"
}

// ---------------------------------------------------------------- structs and pointers

func (w *World) structField(sv *StructV, t types.Type, i int) Val {
	st := t.Underlying().(*types.Struct)
	ft := st.Field(i).Type()
	var fs []*Term
	for k, l := range w.leaves(t) {
		if l.Idx[0] == i {
			fs = append(fs, sv.f[k])
		}
	}
	if _, ok := ft.Underlying().(*types.Struct); ok && isOpaque(ft) == "" {
		return &StructV{t: ft, f: fs}
	}
	return fs[0]
}

func (v *Verifier) drv(ref *Term, k int) *Term {
	return v.c.App("drv", "Int", ref, v.c.Int(int64(k)))
}

func (v *Verifier) fieldAddr(st *State, x Val, t types.Type, i int) Val {
	var ref *Term
	var path []int
	root := t
	switch p := x.(type) {
	case *Term:
		ref = p
	case *PtrV:
		if p.kind != "field" {
			panic(unsup("field address of %s pointer", p.kind))
		}
		ref, path, root = p.ref, p.path, p.st
	default:
		panic(unsup("field address of %T", x))
	}
	path = append(append([]int{}, path...), i)
	ft := t.Underlying().(*types.Struct).Field(i).Type()
	if l, ok := v.w.leafAt(root, path); ok && l.Drv >= 0 {
		return v.drv(ref, l.Drv)
	}
	return &PtrV{kind: "field", ref: ref, t: ft, st: root, path: path}
}

func zeroIdx(p []int, q []int) bool {
	if len(q) < len(p) {
		return false
	}
	for i := range p {
		if p[i] != q[i] {
			return false
		}
	}
	return true
}

func (v *Verifier) load(st *State, p Val, t types.Type) Val {
	c := v.c
	w := v.w
	switch q := p.(type) {
	case *Term:
		if o := isOpaque(t); o != "" {
			switch o {
			case "Dec":
				return c.Select(st.get("C:"+mangle(w.tname(t)), "Dec"), q)
			case "Bigs":
				return c.Select(st.get("G:big", "Int"), q)
			default:
				panic(unsup("copying a %s", t))
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			sv := &StructV{t: t}
			for _, l := range w.leaves(t) {
				sv.f = append(sv.f, v.loadLeaf(st, l, q))
			}
			return sv
		case *types.Array:
			return c.Select(st.get(elemMem(w, u.Elem()), w.sortOf(u.Elem())), q)
		}
		if fv, ok := v.funcCells[q]; ok {
			return fv
		}
		r := c.Select(st.get("C:"+mangle(w.tname(t)), w.sortOf(t)), q)
		v.typeInv(st, r, t)
		return r
	case *PtrV:
		switch q.kind {
		case "field":
			if _, ok := t.Underlying().(*types.Struct); ok && isOpaque(t) == "" {
				sv := &StructV{t: t}
				for _, l := range w.leaves(q.st) {
					if zeroIdx(q.path, l.Idx) {
						sv.f = append(sv.f, v.loadLeaf(st, l, q.ref))
					}
				}
				return sv
			}
			l, ok := w.leafAt(q.st, q.path)
			if !ok {
				panic(unsup("field path"))
			}
			return v.loadLeaf(st, l, q.ref)
		case "elem":
			if _, isS := t.Underlying().(*types.Struct); isS && isOpaque(t) == "" {
				panic(unsup("array of structs"))
			}
			r := c.Select(c.Select(st.get(q.mem, w.sortOf(t)), q.ref), q.idx)
			v.typeInv(st, r, t)
			return r
		case "global":
			return v.readGlobal(st, q.g)
		}
	}
	panic(unsup("load through %T", p))
}

func (v *Verifier) loadLeaf(st *State, l FieldInfo, ref *Term) *Term {
	c := v.c
	w := v.w
	if a, ok := l.T.Underlying().(*types.Array); ok {
		return c.Select(st.get(elemMem(w, a.Elem()), w.sortOf(a.Elem())), v.drv(ref, l.Drv))
	}
	if l.Drv >= 0 {
		return c.Const("ghostobj", "Ghost")
	}
	r := c.Select(st.get(l.Path, w.sortOf(l.T)), ref)
	v.typeInv(st, r, l.T)
	return r
}

func (v *Verifier) storeLeaf(st *State, l FieldInfo, ref *Term, x *Term) {
	c := v.c
	w := v.w
	if a, ok := l.T.Underlying().(*types.Array); ok {
		n := elemMem(w, a.Elem())
		st.set(n, c.Store(st.get(n, w.sortOf(a.Elem())), v.drv(ref, l.Drv), x))
		return
	}
	if l.Drv >= 0 {
		return
	}
	v.viewWrite(st, l.Path, ref, v.name)
	st.set(l.Path, c.Store(st.get(l.Path, w.sortOf(l.T)), ref, x))
}

func (v *Verifier) store(st *State, p Val, x Val, t types.Type) {
	c := v.c
	w := v.w
	switch q := p.(type) {
	case *Term:
		if o := isOpaque(t); o != "" {
			switch o {
			case "Dec":
				n := "C:" + mangle(w.tname(t))
				st.set(n, c.Store(st.get(n, "Dec"), q, x.(*Term)))
				return
			case "Ghost":
				// zero value of a fresh object
				if y, ok := x.(*Term); ok && y.sort == "Ghost" {
					v.zeroGhost(st, q)
					return
				}
			}
			panic(unsup("store of %s", t))
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			sv := x.(*StructV)
			for i, l := range w.leaves(t) {
				v.storeLeaf(st, l, q, sv.f[i])
			}
			return
		case *types.Array:
			n := elemMem(w, u.Elem())
			v.viewWrite(st, n, q, v.name)
			st.set(n, c.Store(st.get(n, w.sortOf(u.Elem())), q, x.(*Term)))
			return
		}
		xt, ok := x.(*Term)
		if !ok {
			// functions stored in variables
			panic(unsup("store of %T", x))
		}
		n := "C:" + mangle(w.tname(t))
		v.readOnly(st, n, q, v.name)
		st.set(n, c.Store(st.get(n, w.sortOf(t)), q, xt))
		return
	case *PtrV:
		switch q.kind {
		case "field":
			if _, ok := t.Underlying().(*types.Struct); ok && isOpaque(t) == "" {
				sv := x.(*StructV)
				k := 0
				for _, l := range w.leaves(q.st) {
					if zeroIdx(q.path, l.Idx) {
						v.storeLeaf(st, l, q.ref, sv.f[k])
						k++
					}
				}
				return
			}
			l, ok := w.leafAt(q.st, q.path)
			if !ok {
				panic(unsup("field path"))
			}
			v.storeLeaf(st, l, q.ref, x.(*Term))
			return
		case "elem":
			m := st.get(q.mem, w.sortOf(t))
			v.viewWrite(st, q.mem, q.ref, v.name)
			st.set(q.mem, c.Store(m, q.ref, c.Store(c.Select(m, q.ref), q.idx, x.(*Term))))
			return
		case "global":
			v.note("writes package variable " + q.g.Name())
			v.oblige(st, "frame", "package variable "+q.g.Name()+" is not written", "", []string{"C11"}, c.tFalse)
			return
		}
	}
	panic(unsup("store through %T", p))
}

func (v *Verifier) zeroGhost(st *State, ref *Term) {
	st.setGhost("wout", ref, v.c.Blit(""))
	st.setGhost("wfail", ref, v.c.tFalse)
}

func (v *Verifier) note(s string) { v.notes[s] = true }

func (v *Verifier) zero(t types.Type) Val {
	c := v.c
	w := v.w
	if o := isOpaque(t); o != "" {
		switch o {
		case "Dec":
			return c.App("mkdec", "Dec", c.Int(0), c.Int(0))
		case "Bigs":
			return c.Int(0)
		}
		return c.Const("ghostobj", "Ghost")
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := &StructV{t: t}
		for _, l := range w.leaves(t) {
			z := v.zero(l.T)
			sv.f = append(sv.f, z.(*Term))
		}
		return sv
	case *types.Array:
		return c.ConstArr(arrSort(w.sortOf(u.Elem())), v.zero(u.Elem()).(*Term))
	}
	switch w.sortOf(t) {
	case "Int":
		return c.Int(0)
	case "Bool":
		return c.tFalse
	case "Bytes":
		return c.Blit("")
	case "F64":
		return v.f64(0)
	case "Iface":
		return c.Ctor("i_nil")
	case "Slice":
		return c.NilSlice()
	}
	return c.Const("zero:"+w.sortOf(t), w.sortOf(t))
}

// a fresh symbolic value of a type
func (v *Verifier) symbolic(st *State, name string, t types.Type, bound *Term) Val {
	c := v.c
	w := v.w
	if _, ok := t.Underlying().(*types.Struct); ok && isOpaque(t) == "" {
		sv := &StructV{t: t}
		for _, l := range w.leaves(t) {
			sv.f = append(sv.f, v.symbolic(st, name+l.Path[strings.LastIndexByte(l.Path, '.'):], l.T, bound).(*Term))
		}
		return sv
	}
	if tp, ok := t.(*types.Tuple); ok {
		tv := &TupleV{}
		for i := 0; i < tp.Len(); i++ {
			tv.v = append(tv.v, v.symbolic(st, fmt.Sprintf("%s.%d", name, i), tp.At(i).Type(), bound))
		}
		return tv
	}
	srt := w.sortOf(t)
	x := c.Fresh(name, srt)
	if strings.HasPrefix(srt, "(Array") && elemSort(srt) == "Int" {
		if a, ok := t.Underlying().(*types.Array); ok {
			if b, ok := a.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				x = c.Fresh("bytes_arr_"+name, srt)
			}
		}
	}
	c.lt[x] = bound
	v.typeInv(st, x, t)
	return x
}

// ---------------------------------------------------------------- globals

var mutableGlobals = map[string]bool{"AllowFastAppends": true}

func (v *Verifier) readGlobal(st *State, g *ssa.Global) Val {
	if x, ok := v.globs[g]; ok {
		return x
	}
	x := v.readGlobal1(st, g)
	v.globs[g] = x
	return x
}

func (v *Verifier) globalConst(g *ssa.Global, t types.Type) Val {
	c := v.c
	if _, ok := t.Underlying().(*types.Struct); ok && isOpaque(t) == "" {
		return v.symbolic(v.entryOr(), "g:"+g.Name(), t, v.alloc0)
	}
	if n := "ext_" + g.Pkg.Pkg.Name() + "_" + g.Name(); v.w.Pre.Funs[n] != nil {
		x := c.App(n, v.w.sortOf(t))
		c.lt[x] = v.alloc0
		return x
	}
	x := c.Const("g:"+g.Pkg.Pkg.Name()+"."+g.Name(), v.w.sortOf(t))
	c.lt[x] = v.alloc0
	return x
}

func (v *Verifier) entryOr() *State {
	if v.entry != nil {
		return v.entry
	}
	return v.newState()
}

func (v *Verifier) readGlobal1(st *State, g *ssa.Global) Val {
	c := v.c
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if g.Pkg != v.w.Pkg {
		// error values and the like of other packages
		if v.w.sortOf(t) == "Iface" {
			h := int64(0)
			for _, ch := range g.Pkg.Pkg.Path() + "." + g.Name() {
				h = (h*131 + int64(ch)) % 90000
			}
			return c.Ctor("i_other", c.Int(1), c.Int(-h-1))
		}
		return v.globalConst(g, t)
	}
	if v.w.written[g] {
		v.note("package variable " + g.Name() + " is reassigned; read as arbitrary")
		x := v.symbolic(st, "gw:"+g.Name(), t, v.alloc0)
		return x
	}
	if mutableGlobals[g.Name()] {
		return v.globalConst(g, t)
	}
	iv, ok := v.w.GInit[g]
	if !ok {
		return v.zero(t)
	}
	if x := v.initVal(st, iv, 0); x != nil {
		return x
	}
	x := v.globalConst(g, t)
	if xt, ok := x.(*Term); ok && xt.sort == "Iface" {
		// errors.New and friends
		h := int64(0)
		for _, ch := range "value." + g.Name() {
			h = (h*131 + int64(ch)) % 90000
		}
		return c.Ctor("i_other", c.Int(2), c.Int(-h-1))
	}
	return x
}

func (v *Verifier) initVal(st *State, iv ssa.Value, d int) Val {
	c := v.c
	if d > 6 {
		return nil
	}
	switch x := iv.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return v.zero(x.Type())
		}
		return v.constTerm(x.Value, x.Type())
	case *ssa.ChangeType:
		return v.initVal(st, x.X, d+1)
	case *ssa.Convert:
		if k, ok := x.X.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
			return v.constTerm(k.Value, x.Type())
		}
		if cl, ok := x.X.(*ssa.Call); ok && v.w.sortOf(x.Type()) == "F64" {
			return v.initVal(st, cl, d+1)
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.String() == "math.NaN" {
			return c.App("fnan", "F64")
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			// struct literal through a temporary: only the zero value
			n := 0
			for _, r := range *al.Referrers() {
				if r != x {
					n++
				}
			}
			if n == 0 {
				return v.zero(x.Type())
			}
		}
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok {
			return nil
		}
		at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return nil
		}
		// unique reference for the backing array; its content never changes (frame obligations)
		ref := c.Const("gref:"+fmt.Sprint(al.Pos(), "_", al.Name()), "Int")
		c.lt[ref] = v.alloc0
		es := v.w.sortOf(at.Elem())
		m := v.mem0(elemMem(v.w, at.Elem()), es)
		n := at.Len()
		sl := c.Slice(ref, c.Int(0), c.Int(n), c.Int(n))
		vals := map[int64]*Term{}
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			k, ok := ia.Index.(*ssa.Const)
			if !ok {
				return nil
			}
			for _, r2 := range *ia.Referrers() {
				if s, ok := r2.(*ssa.Store); ok {
					y := v.initVal(st, s.Val, d+1)
					if yt, ok := y.(*Term); ok {
						vals[k.Int64()] = yt
					} else {
						return nil
					}
				}
			}
		}
		facts := []*Term{c.Gt(ref, c.Int(0)), c.Lt(ref, v.alloc0)}
		if v.w.readOnlyGlobalArrays {
			arr := c.ConstArr(arrSort(es), v.zero(at.Elem()).(*Term))
			for i := int64(0); i < n; i++ {
				if y := vals[i]; y != nil {
					arr = c.Store(arr, c.Int(i), y)
				}
			}
			_ = arr
		}
		for i := int64(0); i < n; i++ {
			y := vals[i]
			if y == nil {
				y = v.zero(at.Elem()).(*Term)
			}
			facts = append(facts, c.mk(&Term{op: OEq, sort: "Bool", args: []*Term{c.Select(c.Select(m, ref), c.Int(i)), y}}))
		}
		for _, f := range facts {
			v.gfacts = append(v.gfacts, f)
		}
		return sl
	}
	return nil
}

// ---------------------------------------------------------------- value lookup

func (v *Verifier) val(st *State, x ssa.Value) Val {
	switch y := x.(type) {
	case *ssa.Const:
		if y.Value == nil {
			return v.zero(y.Type())
		}
		return v.constTerm(y.Value, y.Type())
	case *ssa.Global:
		return &PtrV{kind: "global", g: y, t: y.Type().Underlying().(*types.Pointer).Elem()}
	case *ssa.Function:
		return &FuncV{fn: y}
	case *ssa.Builtin:
		return &FuncV{bi: y.Name()}
	}
	e := st.envs[len(st.envs)-1]
	r, ok := e[x]
	if !ok {
		panic(unsup("value %s undefined", x.Name()))
	}
	return r
}

func (v *Verifier) term(st *State, x ssa.Value) *Term {
	t, ok := v.val(st, x).(*Term)
	if !ok {
		panic(unsup("value %s is a %T", x.Name(), v.val(st, x)))
	}
	return t
}

func (st *State) env() map[ssa.Value]Val { return st.envs[len(st.envs)-1] }

// ---------------------------------------------------------------- execution

type cont func(st *State, rets []Val)

const maxPaths = 6000

func (v *Verifier) runFunc(st *State, fn *ssa.Function, args []Val, bind []Val, k cont) {
	if len(fn.Blocks) == 0 {
		panic(unsup("no body: %s", fn))
	}
	env := map[ssa.Value]Val{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		env[f] = bind[i]
	}
	st.envs = append(st.envs, env)
	st.defers = append(st.defers, nil)
	st.depth++
	if st.depth > 40 {
		panic(unsup("recursion while inlining %s", fn))
	}
	v.block(st, fn.Blocks[0], nil, func(st *State, rets []Val) {
		st.envs = st.envs[:len(st.envs)-1]
		st.defers = st.defers[:len(st.defers)-1]
		st.depth--
		k(st, rets)
	})
}

func (v *Verifier) block(st *State, b *ssa.BasicBlock, prev *ssa.BasicBlock, k cont) {
	v.steps++
	if v.steps > 400000 || v.deadline != nil && v.deadline() {
		panic(unsup("too many steps"))
	}
	if v.loopExit(st, b) {
		return
	}
	// parallel phi assignment
	if prev != nil {
		pi := -1
		for i, p := range b.Preds {
			if p == prev {
				pi = i
			}
		}
		var ps []*ssa.Phi
		var vs []Val
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			ps = append(ps, ph)
			vs = append(vs, v.val(st, ph.Edges[pi]))
		}
		for i, ph := range ps {
			st.env()[ph] = vs[i]
		}
	}
	if li := v.loopAt(b); li != nil {
		v.enterLoop(st, li, b, prev, k)
		return
	}
	v.instrs(st, b, 0, k)
}

func (v *Verifier) instrs(st *State, b *ssa.BasicBlock, i int, k cont) {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			v.branch(st, v.term(st, x.Cond), func(st *State) {
				v.block(st, b.Succs[0], b, k)
			}, func(st *State) {
				v.block(st, b.Succs[1], b, k)
			}, v.posOf(x))
			return
		case *ssa.Jump:
			v.block(st, b.Succs[0], b, k)
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range x.Results {
				rs = append(rs, v.val(st, r))
			}
			k(st, rs)
			return
		case *ssa.Panic:
			v.oblige(st, "safety", "no panic", v.posOf(x), nil, v.c.tFalse)
			return
		case *ssa.RunDefers:
			ds := st.defers[len(st.defers)-1]
			st.defers[len(st.defers)-1] = nil
			ni := i
			v.runDefers(st, ds, func(st *State) { v.instrs(st, b, ni+1, k) })
			return
		case *ssa.Defer:
			st.defers[len(st.defers)-1] = append(st.defers[len(st.defers)-1], x)
		case *ssa.Call:
			ni := i
			v.call(st, x, &x.Call, func(st *State, rets []Val) {
				switch len(rets) {
				case 0:
				case 1:
					st.env()[x] = rets[0]
				default:
					st.env()[x] = &TupleV{rets}
				}
				v.instrs(st, b, ni+1, k)
			})
			return
		case *ssa.TypeAssert:
			ni := i
			v.typeAssert(st, x, func(st *State) { v.instrs(st, b, ni+1, k) })
			return
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				ni := i
				v.recv(st, x, func(st *State) { v.instrs(st, b, ni+1, k) })
				return
			}
			v.step(st, in)
		default:
			v.step(st, in)
			if st.dead {
				return
			}
		}
	}
}

func (v *Verifier) runDefers(st *State, ds []*ssa.Defer, k func(st *State)) {
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	v.call(st, d, &d.Call, func(st *State, _ []Val) { v.runDefers(st, ds[:len(ds)-1], k) })
}

func (v *Verifier) branch(st *State, cond *Term, yes, no func(st *State), pos string) {
	cond = st.simp(st.deep(cond))
	switch cond.op {
	case OTrue:
		yes(st)
		return
	case OFalse:
		no(st)
		return
	}
	v.paths++
	if v.paths > maxPaths {
		panic(unsup("too many paths"))
	}
	s2 := st.clone()
	if st.assume(cond) && !v.infeasible(st) {
		st.trace = append(st.trace, pos+" true")
		st.conds = append(st.conds, cond)
		v.afterCond(st, cond)
		yes(st)
	}
	if s2.assume(v.c.Not(cond)) && !v.infeasible(s2) {
		s2.trace = append(s2.trace, pos+" false")
		s2.conds = append(s2.conds, v.c.Not(cond))
		v.afterCond(s2, v.c.Not(cond))
		no(s2)
	}
}

// payload facts for dynamic types that just became known
func (v *Verifier) afterCond(st *State, cond *Term) {
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.op == OIs {
			v.payloadInv(st, t.args[0], t.name)
		}
		if t.op == OAnd {
			for _, a := range t.args {
				walk(a)
			}
		}
	}
	walk(cond)
}

func (v *Verifier) infeasible(st *State) bool {
	n := len(st.asm)
	if n > 0 && st.asm[n-1].op == OFalse {
		return true
	}
	if v.pruneAll || v.pruneWith && v.paths > 40 {
		r := proveCache.solve(v.w.query(v.c, st.asm, v.c.tFalse, v.excl), 0)
		if d := os.Getenv("GVC_PRUNEDUMP"); d != "" && !r.OK {
			os.WriteFile(fmt.Sprintf("%s/p%d.smt2", d, v.paths), []byte(v.w.query(v.c, st.asm, v.c.tFalse, v.excl)), 0644)
		}
		if debugLoops {
			fmt.Fprintln(os.Stderr, "prune", r.OK, r.Dur, strings.Join(st.trace, " / "))
		}
		return r.OK
	}
	return false
}

func (v *Verifier) typeAssert(st *State, x *ssa.TypeAssert, k func(st *State)) {
	c := v.c
	xt := v.term(st, x.X)
	var ok *Term
	if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		var ds []*Term
		for _, ic := range v.w.impls(x.AssertedType) {
			ds = append(ds, c.Is(ic.Ctor.Name, xt))
		}
		if !v.closedWorld(x.AssertedType) {
			ds = append(ds, c.And(c.Is("i_other", xt), c.App("implements", "Bool", c.Sel("o_tag", xt), c.Int(typeHash(x.AssertedType.String())))))
		}
		ok = c.Or(ds...)
		fin := func(st *State, r Val) {
			st.env()[x] = r
			k(st)
		}
		if x.CommaOk {
			v.branch(st, ok, func(st *State) { fin(st, &TupleV{[]Val{xt, c.tTrue}}) }, func(st *State) {
				fin(st, &TupleV{[]Val{c.Ctor("i_nil"), c.tFalse}})
			}, v.posOf(x))
			return
		}
		v.safety(st, "type assertion to "+x.AssertedType.String(), x, ok)
		fin(st, xt)
		return
	}
	ic := v.w.ifaceFor(x.AssertedType)
	if ic == nil {
		panic(unsup("assertion to %s", x.AssertedType))
	}
	ok = c.Is(ic.Ctor.Name, xt)
	if x.CommaOk {
		v.branch(st, ok, func(st *State) {
			v.payloadInv(st, xt, ic.Ctor.Name)
			st.env()[x] = &TupleV{[]Val{v.unbox(st, xt, x.AssertedType), c.tTrue}}
			k(st)
		}, func(st *State) {
			st.env()[x] = &TupleV{[]Val{v.zero(x.AssertedType), c.tFalse}}
			k(st)
		}, v.posOf(x))
		return
	}
	v.safety(st, "type assertion to "+x.AssertedType.String(), x, ok)
	v.payloadInv(st, xt, ic.Ctor.Name)
	st.env()[x] = v.unbox(st, xt, x.AssertedType)
	k(st)
}

func typeHash(s string) int64 {
	h := int64(7)
	for _, ch := range s {
		h = (h*131 + int64(ch)) % 1000003
	}
	return h
}

func (v *Verifier) nonNil(st *State, p Val, in ssa.Instruction) {
	if t, ok := p.(*Term); ok {
		if t.op == OApp && t.name == "drv" {
			return
		}
		v.safety(st, "nil dereference", in, v.c.Neq(t, v.c.Int(0)))
	}
	if q, ok := p.(*PtrV); ok && q.kind == "field" {
		if q.ref.op == OApp && q.ref.name == "drv" {
			return
		}
		v.safety(st, "nil dereference", in, v.c.Neq(q.ref, v.c.Int(0)))
	}
}

func (v *Verifier) step(st *State, in ssa.Instruction) {
	c := v.c
	w := v.w
	env := st.env()
	switch x := in.(type) {
	case *ssa.Alloc:
		ref := v.newRef(st)
		t := x.Type().Underlying().(*types.Pointer).Elem()
		v.initObj(st, ref, t)
		env[x] = ref
	case *ssa.FieldAddr:
		p := v.val(st, x.X)
		v.nonNil(st, p, x)
		env[x] = v.fieldAddr(st, p, x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)
	case *ssa.Field:
		sv, ok := v.val(st, x.X).(*StructV)
		if !ok {
			panic(unsup("field of %T", v.val(st, x.X)))
		}
		env[x] = w.structField(sv, x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		i := v.term(st, x.Index)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			s := v.term(st, x.X)
			v.safety(st, "index in range", x, c.And(c.Ge(i, c.Int(0)), c.Lt(i, c.Len(s))))
			env[x] = &PtrV{kind: "elem", mem: elemMem(w, u.Elem()), ref: c.Arr(s), idx: c.Add(c.Off(s), i), t: u.Elem()}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			p := v.val(st, x.X)
			v.nonNil(st, p, x)
			v.safety(st, "index in range", x, c.And(c.Ge(i, c.Int(0)), c.Lt(i, c.Int(at.Len()))))
			r, ok := p.(*Term)
			if !ok {
				panic(unsup("array pointer %T", p))
			}
			env[x] = &PtrV{kind: "elem", mem: elemMem(w, at.Elem()), ref: r, idx: i, t: at.Elem()}
		default:
			panic(unsup("index address of %s", x.X.Type()))
		}
	case *ssa.Index:
		i := v.term(st, x.Index)
		s := v.term(st, x.X)
		if s.sort == "Bytes" {
			v.safety(st, "index in range", x, c.And(c.Ge(i, c.Int(0)), c.Lt(i, c.BLen(s))))
			env[x] = c.At(s, i)
			return
		}
		at, ok := x.X.Type().Underlying().(*types.Array)
		if !ok {
			panic(unsup("index of %s", x.X.Type()))
		}
		v.safety(st, "index in range", x, c.And(c.Ge(i, c.Int(0)), c.Lt(i, c.Int(at.Len()))))
		env[x] = c.Select(s, i)
	case *ssa.Lookup:
		v.lookup(st, x)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := v.val(st, x.X)
			v.nonNil(st, p, x)
			env[x] = v.load(st, p, x.Type())
		case token.SUB:
			a := v.term(st, x.X)
			if a.sort == "F64" {
				env[x] = c.App("fneg", "F64", a)
			} else {
				env[x] = v.wrapInt(c.MulK(a, bmone), x.Type())
			}
		case token.NOT:
			env[x] = c.Not(v.term(st, x.X))
		case token.XOR:
			a := v.term(st, x.X)
			lo, hi := intRange(x.Type())
			if lo != nil && lo.Sign() == 0 {
				env[x] = c.Sub(c.BigI(hi), a)
			} else {
				env[x] = c.Sub(c.Int(-1), a)
			}
		default:
			panic(unsup("unary %s", x.Op))
		}
	case *ssa.Store:
		p := v.val(st, x.Addr)
		v.nonNil(st, p, x)
		val := v.val(st, x.Val)
		if fv, ok := val.(*FuncV); ok {
			if r, ok := p.(*Term); ok {
				st.env()[x.Addr] = r
				v.funcCells[r] = fv
				return
			}
		}
		v.store(st, p, val, x.Val.Type())
	case *ssa.BinOp:
		env[x] = v.binop(st, x)
	case *ssa.ChangeType:
		val := v.val(st, x.X)
		if sv, ok := val.(*StructV); ok {
			env[x] = &StructV{t: x.Type(), f: sv.f}
		} else {
			env[x] = val
		}
	case *ssa.ChangeInterface:
		env[x] = v.val(st, x.X)
	case *ssa.Convert:
		env[x] = v.convert(st, x)
	case *ssa.MakeInterface:
		val := v.val(st, x.X)
		t := x.X.Type()
		if vt, ok := val.(*Term); ok {
			if it, ok := x.Type().(*types.Named); ok && it.Obj().Pkg() == w.TPkg {
				v.proveTypeMacro(st, vt, t, v.posOf(x))
				key := v.c.mk(&Term{op: OApp, sort: "$", name: "tinv:" + w.tname(t), args: []*Term{vt}})
				_ = key
			}
		}
		if sv, ok := val.(*StructV); ok {
			for i, l := range w.leaves(t) {
				if _, isP := l.T.Underlying().(*types.Pointer); isP && i < len(sv.f) {
					v.oblige(st, "typeinv", "pointers in a "+w.tname(t)+" are not nil", v.posOf(x), nil, v.c.Gt(sv.f[i], v.c.Int(0)))
				}
			}
		}
		b := v.box(st, val, t)
		if b.op == OCtor {
			st.dyn[b] = b.name
		}
		if it, ok := x.Type().(*types.Named); ok && it.Obj().Pkg() == w.TPkg {
			v.freeze(st, val, t)
		}
		env[x] = b
	case *ssa.MakeClosure:
		fv := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.bind = append(fv.bind, v.val(st, b))
		}
		env[x] = fv
	case *ssa.MakeSlice:
		n, cp := v.term(st, x.Len), v.term(st, x.Cap)
		v.safety(st, "make: size in range", x, c.And(c.Ge(n, c.Int(0)), c.Le(n, cp)))
		if !st.assume(c.Le(cp, c.Int(maxLen))) { // an allocation no machine can provide
			st.dead = true
			return
		}
		v.checkAllocBound(st, x, cp)
		el := x.Type().Underlying().(*types.Slice).Elem()
		ref := v.newRef(st)
		m := elemMem(w, el)
		es := w.sortOf(el)
		st.set(m, c.Store(st.get(m, es), ref, c.ConstArr(arrSort(es), v.zero(el).(*Term))))
		env[x] = c.Slice(ref, c.Int(0), n, cp)
	case *ssa.Slice:
		v.slice(st, x)
	case *ssa.Extract:
		env[x] = v.val(st, x.Tuple).(*TupleV).v[x.Index]
	case *ssa.MakeMap:
		v.makeMap(st, x)
	case *ssa.MapUpdate:
		v.mapUpdate(st, x)
	case *ssa.Range:
		v.rangeStart(st, x)
	case *ssa.Next:
		v.rangeNext(st, x)
	case *ssa.Send:
		v.send(st, x)
	case *ssa.MakeChan:
		r := v.newRef(st)
		env[x] = r
	default:
		panic(unsup("instruction %T", in))
	}
}

func (v *Verifier) checkAllocBound(st *State, x ssa.Instruction, cp *Term) {
	if v.allocBound == nil {
		return
	}
	sc := v.scopeAt(st)
	b := sc.eval(v.allocBound.expr).term()
	v.oblige(st, "allocbound", "reserved capacity is bounded: "+v.allocBound.text, v.posOf(x), v.allocBound.tags, v.c.Le(cp, b))
}

func (v *Verifier) initObj(st *State, ref *Term, t types.Type) {
	c := v.c
	w := v.w
	if o := isOpaque(t); o != "" {
		switch o {
		case "Ghost":
			v.zeroGhost(st, ref)
		case "Bigs":
			st.setGhost("big", ref, c.Int(0))
		case "Bigf":
			st.setGhost("bigf", ref, c.App("bf_of_int", "Bigf", c.Int(0)))
		case "Dec":
			v.store(st, ref, v.zero(t), t)
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for _, l := range w.leaves(t) {
			if l.Drv >= 0 {
				if _, isArr := l.T.Underlying().(*types.Array); !isArr {
					v.initObj(st, v.drv(ref, l.Drv), l.T)
					continue
				}
			}
			v.storeLeaf(st, l, ref, v.zero(l.T).(*Term))
		}
	case *types.Array:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			panic(unsup("array of structs"))
		}
		v.store(st, ref, v.zero(t), t)
	case *types.Signature:
	default:
		v.store(st, ref, v.zero(t), t)
	}
}

func (v *Verifier) slice(st *State, x *ssa.Slice) {
	c := v.c
	env := st.env()
	opt := func(y ssa.Value) *Term {
		if y == nil {
			return nil
		}
		return v.term(st, y)
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = c.Int(0)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		s := v.term(st, x.X)
		if hi == nil {
			hi = c.Len(s)
		}
		top := c.Cap(s)
		if mx != nil {
			v.safety(st, "slice bounds", x, c.And(c.Le(hi, mx), c.Le(mx, c.Cap(s))))
			top = mx
		}
		v.safety(st, "slice bounds", x, c.And(c.Ge(lo, c.Int(0)), c.Le(lo, hi), c.Le(hi, top)))
		env[x] = c.Slice(c.Arr(s), c.Add(c.Off(s), lo), c.Sub(hi, lo), c.Sub(top, lo))
	case *types.Basic:
		s := v.term(st, x.X)
		if hi == nil {
			hi = c.BLen(s)
		}
		v.safety(st, "slice bounds", x, c.And(c.Ge(lo, c.Int(0)), c.Le(lo, hi), c.Le(hi, c.BLen(s))))
		env[x] = c.BSub(s, lo, hi)
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p := v.val(st, x.X)
		v.nonNil(st, p, x)
		r, ok := p.(*Term)
		if !ok {
			panic(unsup("slice of %T", p))
		}
		n := c.Int(at.Len())
		if hi == nil {
			hi = n
		}
		top := n
		if mx != nil {
			top = mx
			v.safety(st, "slice bounds", x, c.And(c.Le(hi, mx), c.Le(mx, n)))
		}
		v.safety(st, "slice bounds", x, c.And(c.Ge(lo, c.Int(0)), c.Le(lo, hi), c.Le(hi, top)))
		env[x] = c.Slice(r, lo, c.Sub(hi, lo), c.Sub(top, lo))
	default:
		panic(unsup("slice of %s", x.X.Type()))
	}
}

func (v *Verifier) wrapInt(x *Term, t types.Type) *Term {
	c := v.c
	lo, hi := intRange(t)
	if lo == nil {
		return x
	}
	if l, h := c.rng(x); l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return x
	}
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), bone)
	if lo.Sign() == 0 {
		return c.ModK(x, m)
	}
	return c.Add(c.ModK(c.Sub(x, c.BigI(lo)), m), c.BigI(lo))
}

func isWordInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

func (v *Verifier) comparable(x *Term) *Term { // dynamic type comparable (no panic on ==)
	c := v.c
	var bad []*Term
	for _, ic := range v.w.Ifaces {
		if !types.Comparable(ic.T) {
			bad = append(bad, c.Not(c.Is(ic.Ctor.Name, x)))
		}
	}
	return c.And(bad...)
}

func (v *Verifier) binop(st *State, x *ssa.BinOp) Val {
	c := v.c
	av, bv := v.val(st, x.X), v.val(st, x.Y)
	xt := x.X.Type()
	if as, ok := av.(*StructV); ok {
		bs := bv.(*StructV)
		var cs []*Term
		for i := range as.f {
			cs = append(cs, c.Eq(as.f[i], bs.f[i]))
		}
		r := c.And(cs...)
		if x.Op == token.NEQ {
			r = c.Not(r)
		}
		return r
	}
	if _, ok := av.(*FuncV); ok {
		return c.Bool(x.Op == token.NEQ)
	}
	if p, ok := av.(*PtrV); ok && (x.Op == token.EQL || x.Op == token.NEQ) {
		// addresses of elements of slices
		if q, ok := bv.(*PtrV); ok && p.kind == "elem" && q.kind == "elem" && p.mem == q.mem && len(p.path) == 0 && len(q.path) == 0 {
			r := c.And(c.Eq(p.ref, q.ref), c.Eq(p.idx, q.idx))
			if x.Op == token.NEQ {
				r = c.Not(r)
			}
			return r
		}
	}
	a, aok := av.(*Term)
	b, bok := bv.(*Term)
	if !aok || !bok {
		panic(unsup("binop %s on %T %T", x.Op, av, bv))
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		var r *Term
		switch a.sort {
		case "Slice":
			// only comparison with nil
			s := a
			if a.op == OCtor && a == c.NilSlice() {
				s = b
			}
			r = c.Eq(c.Arr(s), c.Int(0))
		case "Iface":
			known := func(t *Term) bool {
				if t.op != OCtor {
					return false
				}
				for _, ic := range v.w.Ifaces {
					if ic.Ctor.Name == t.name {
						return types.Comparable(ic.T)
					}
				}
				return true
			}
			if !known(a) && !known(b) {
				v.safety(st, "comparison of uncomparable dynamic types", x, c.Or(v.comparable(a), v.comparable(b), c.Neq(a, b)))
			}
			r = c.Eq(a, b)
		case "F64":
			r = c.App("feq", "Bool", a, b)
		default:
			r = c.Eq(a, b)
		}
		if x.Op == token.NEQ {
			r = c.Not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		p, q := a, b
		op := x.Op
		if op == token.GTR || op == token.GEQ {
			p, q = q, p
			if op == token.GTR {
				op = token.LSS
			} else {
				op = token.LEQ
			}
		}
		switch a.sort {
		case "Int":
			if op == token.LSS {
				return c.Lt(p, q)
			}
			return c.Le(p, q)
		case "Bytes":
			if op == token.LSS {
				return c.App("blt", "Bool", p, q)
			}
			return c.Not(c.App("blt", "Bool", q, p))
		case "F64":
			if op == token.LSS {
				return c.App("flt", "Bool", p, q)
			}
			return c.App("fle", "Bool", p, q)
		}
	case token.ADD, token.SUB, token.MUL:
		if a.sort == "Bytes" {
			return c.Cat(a, b)
		}
		if a.sort == "F64" {
			n := map[token.Token]string{token.ADD: "fadd", token.SUB: "fsub", token.MUL: "fmul"}[x.Op]
			return c.App(n, "F64", a, b)
		}
		var r *Term
		switch x.Op {
		case token.ADD:
			r = c.Add(a, b)
		case token.SUB:
			r = c.Sub(a, b)
		default:
			r = c.Mul(a, b)
		}
		if isWordInt(xt) && !v.allOptions("wraps") {
			// index arithmetic: no overflow
			lo, hi := intRange(xt)
			v.safety(st, "integer overflow", x, c.And(c.Ge(r, c.BigI(lo)), c.Le(r, c.BigI(hi))))
			return r
		}
		return v.wrapInt(r, xt)
	case token.QUO, token.REM:
		if a.sort == "F64" {
			return c.App("fdiv", "F64", a, b)
		}
		if b.op == OInt && b.val.Sign() > 0 {
			lo, _ := c.rng(a)
			nonneg := lo != nil && lo.Sign() >= 0 || st.fact(c.Ge(a, c.Int(0)))
			q, m := c.DivK(a, b.val), c.ModK(a, b.val)
			if !nonneg {
				// truncated towards zero
				na := c.MulK(a, bmone)
				q = c.Ite(c.Ge(a, c.Int(0)), q, c.MulK(c.DivK(na, b.val), bmone))
				m = c.Ite(c.Ge(a, c.Int(0)), m, c.MulK(c.ModK(na, b.val), bmone))
			}
			if x.Op == token.QUO {
				return q
			}
			return m
		}
		v.safety(st, "division by zero", x, c.Neq(b, c.Int(0)))
		r := c.App("idiv", "Int", a, b)
		if x.Op == token.REM {
			r = c.App("irem", "Int", a, b)
		}
		return r
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		return v.bitop(st, x.Op, a, b, xt)
	}
	panic(unsup("binop %s on %s", x.Op, a.sort))
}

func (v *Verifier) bitop(st *State, op token.Token, a, b *Term, t types.Type) *Term {
	c := v.c
	if a.op == OInt && b.op == OInt {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.val, b.val)
		case token.OR:
			r.Or(a.val, b.val)
		case token.XOR:
			r.Xor(a.val, b.val)
		case token.SHL:
			r.Lsh(a.val, uint(b.val.Int64()))
		case token.SHR:
			r.Rsh(a.val, uint(b.val.Int64()))
		case token.AND_NOT:
			r.AndNot(a.val, b.val)
		}
		return v.wrapInt(c.BigI(r), t)
	}
	if a.op == OInt && (op == token.AND || op == token.OR || op == token.XOR) {
		a, b = b, a
	}
	if b.op == OInt && b.val.Sign() >= 0 {
		k := b.val
		switch op {
		case token.SHL:
			if k.IsInt64() && k.Int64() < 64 {
				return v.wrapInt(c.MulK(a, new(big.Int).Lsh(bone, uint(k.Int64()))), t)
			}
		case token.SHR:
			if k.IsInt64() && k.Int64() < 64 {
				return c.DivK(a, new(big.Int).Lsh(bone, uint(k.Int64())))
			}
		case token.AND:
			p := new(big.Int).Add(k, bone)
			if new(big.Int).And(p, k).Sign() == 0 { // 2^n - 1
				return c.ModK(a, p)
			}
			// single bit or high mask
			low := k.TrailingZeroBits()
			hi := new(big.Int).Rsh(k, low)
			hp := new(big.Int).Add(hi, bone)
			if new(big.Int).And(hp, hi).Sign() == 0 { // contiguous mask
				return c.MulK(c.ModK(c.DivK(a, new(big.Int).Lsh(bone, low)), hp), new(big.Int).Lsh(bone, low))
			}
		case token.OR:
			if k.Sign() == 0 {
				return a
			}
			low := new(big.Int).Lsh(bone, k.TrailingZeroBits())
			return c.Ite(c.And(c.Ge(a, c.Int(0)), c.Lt(a, c.BigI(low))), c.Add(a, b), c.App("bitor", "Int", a, b))
		}
	}
	if op == token.OR {
		// sum of a high part and a low part: x*2^k | y with y < 2^k
		sh := func(t *Term) *big.Int {
			if t.op == OLin && t.val.Sign() == 0 {
				g := new(big.Int)
				for _, f := range t.cf {
					g.GCD(nil, nil, g, new(big.Int).Abs(f))
				}
				return new(big.Int).Lsh(bone, g.TrailingZeroBits())
			}
			return big.NewInt(1)
		}
		for i := 0; i < 2; i++ {
			if _, h := c.rng(b); h != nil && h.Cmp(sh(a)) < 0 {
				if l, _ := c.rng(b); l != nil && l.Sign() >= 0 {
					return c.Add(a, b)
				}
			}
			a, b = b, a
		}
	}
	n := map[token.Token]string{token.AND: "bitand", token.OR: "bitor", token.XOR: "bitxor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[op]
	r := c.App(n, "Int", a, b)
	v.typeInv(st, r, t)
	return r
}

func (v *Verifier) convert(st *State, x *ssa.Convert) Val {
	c := v.c
	from, to := x.X.Type(), x.Type()
	a := v.term(st, x.X)
	fs, ts := v.w.sortOf(from), v.w.sortOf(to)
	switch {
	case fs == "Int" && ts == "Int":
		if fl, fh := intRange(from); fl != nil {
			if tl, th := intRange(to); tl != nil && tl.Cmp(fl) <= 0 && th.Cmp(fh) >= 0 {
				return a
			}
		}
		return v.wrapInt(a, to)
	case fs == "Int" && ts == "F64":
		return c.App("f_of_int", "F64", a)
	case fs == "F64" && ts == "Int":
		r := c.App("f_to_int", "Int", a)
		v.typeInv(st, r, to)
		return r
	case fs == "F64" && ts == "F64":
		fb := from.Underlying().(*types.Basic)
		tb := to.Underlying().(*types.Basic)
		if fb.Kind() == tb.Kind() || tb.Kind() == types.Float64 && fb.Kind() == types.Float32 {
			if fb.Kind() == types.Float32 {
				return c.App("f_of_f32", "F64", a)
			}
			return a
		}
		return c.App("f_to_f32", "F64", a)
	case fs == "Slice" && ts == "Bytes":
		m := st.get("E:byte", "Int")
		return c.Mkb(c.Select(m, c.Arr(a)), c.Off(a), c.Len(a))
	case fs == "Bytes" && ts == "Slice":
		return v.bytesSlice(st, a)
	case fs == "Bytes" && ts == "Bytes":
		return a
	case fs == "Int" && ts == "Bytes":
		return c.App("runestr", "Bytes", a)
	case fs == "Slice" && ts == "Slice":
		return a
	}
	panic(unsup("conversion %s to %s", from, to))
}

// a freshly allocated []byte with the given content
func (v *Verifier) bytesSlice(st *State, b *Term) *Term {
	c := v.c
	ref := v.newRef(st)
	n := c.BLen(b)
	cp := c.Fresh("cap", "Int")
	st.assume(c.Ge(cp, n))
	st.assume(c.Le(cp, c.Int(maxLen)))
	st.set("E:byte", c.Store(st.get("E:byte", "Int"), ref, c.ArrOf(b)))
	return c.Slice(ref, c.Int(0), n, cp)
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
