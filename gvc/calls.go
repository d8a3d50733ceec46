package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- contracts of functions

func (v *Verifier) relevant(cl *Clause) bool {
	if len(cl.tags) == 0 || v.prop == "" {
		return true
	}
	for _, t := range cl.tags {
		if t == v.prop {
			return true
		}
	}
	return false
}

// the interface contracts a method of a concrete type has to satisfy, and its own
func (w *World) contractsFor(fn *ssa.Function) []boundContract {
	var out []boundContract
	if fn == nil || fn.Parent() != nil {
		return nil
	}
	if c := w.Cons.Funcs[funcName(fn)]; c != nil && !c.iface && (fn.Pkg == w.Pkg) {
		out = append(out, boundContract{con: c})
	}
	if len(out) == 0 && fn.Signature.Recv() == nil && fn.Pkg == w.Pkg && !exportedName(fn.Name()) && w.recursive(fn) {
		// recursive helpers obey the contract of the exported function of the same signature that says so
		for _, n := range w.Cons.Order {
			if c := w.Cons.Funcs[n]; c.opts["sig"] {
				if f := w.Funcs[n]; f != nil && types.Identical(f.Signature, fn.Signature) {
					out = append(out, boundContract{con: c})
				}
			}
		}
	}
	if r := fn.Signature.Recv(); r != nil && fn.Pkg == w.Pkg {
		out = append(out, w.ifaceContracts(r.Type(), fn.Name(), false)...)
	}
	return out
}

// does the function call itself, directly or through other functions of the package?
func (w *World) recursive(fn *ssa.Function) bool {
	w.recMu.Lock()
	defer w.recMu.Unlock()
	if w.rec == nil {
		w.rec = map[*ssa.Function]bool{}
	}
	if r, ok := w.rec[fn]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	found := false
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					g := c.Common().StaticCallee()
					if g == fn {
						found = true
					}
					if g != nil && g.Pkg == w.Pkg && !seen[g] {
						seen[g] = true
						walk(g)
					}
				}
			}
		}
	}
	walk(fn)
	w.rec[fn] = found
	return found
}

func (w *World) ifaceContracts(t types.Type, method string, static bool) []boundContract {
	var out []boundContract
	for _, n := range w.Cons.Order {
		c := w.Cons.Funcs[n]
		if !c.iface {
			continue
		}
		i := strings.IndexByte(n, '.')
		if n[i+1:] != method {
			continue
		}
		o := w.TPkg.Scope().Lookup(n[:i])
		if o == nil {
			continue
		}
		it, ok := o.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		if types.Implements(t, it) {
			out = append(out, boundContract{con: c, iface: o.Type()})
		}
	}
	return out
}

// names of a contract bound to actual values; recv first in args for methods
func (v *Verifier) bindContract(st *State, bc boundContract, args []EV) map[string]EV {
	names := map[string]EV{}
	con := bc.con
	if bc.iface != nil {
		// first parameter is the interface value
		if len(con.params) != len(args) {
			panic(specErr(con.pos + ": " + con.name + ": parameter count"))
		}
		a := args[0]
		if v.recvPtr != nil && !types.IsInterface(a.t) && v.w.ifaceFor(a.t) == nil {
			names[con.params[0]] = EV{v.box(st, v.recvPtr, types.NewPointer(a.t)), bc.iface}
		} else {
			v.freeze(st, a.v, a.t)
			names[con.params[0]] = EV{v.box(st, a.v, a.t), bc.iface}
		}
		for i := 1; i < len(args); i++ {
			names[con.params[i]] = args[i]
		}
		return names
	}
	ps := con.params
	if con.recv != "" {
		ps = append([]string{con.recv}, ps...)
	}
	if len(ps) != len(args) {
		panic(specErr(con.pos + ": " + con.name + ": parameter count"))
	}
	for i := range args {
		names[ps[i]] = args[i]
	}
	return names
}

func (v *Verifier) bindResults(con *Contract, names map[string]EV, rets []EV) {
	if len(rets) > 0 {
		names["result"] = rets[0]
	}
	for i, r := range rets {
		names[fmt.Sprintf("r%d", i)] = r
		if i < len(con.results) {
			names[con.results[i]] = r
		}
	}
}

func (st *State) snapshot() *State {
	n := *st
	n.mem = map[string]*Term{}
	for k, x := range st.mem {
		n.mem[k] = x
	}
	n.asm = st.asm[:len(st.asm):len(st.asm)]
	n.asmSet = map[*Term]bool{}
	n.inv = map[*Term]bool{}
	for k := range st.inv {
		n.inv[k] = true
	}
	return &n
}

func (v *Verifier) assumeClause(st *State, t *Term) bool {
	ok := st.assume(t)
	v.afterCond(st, t)
	return ok
}

// havoc the given locations
func (v *Verifier) havocLocs(st *State, locs []Loc) {
	c := v.c
	for _, l := range locs {
		m := st.get(l.mem, l.leaf)
		if l.ref == nil {
			if v.viewMode && fhOf[l.mem] != "" {
				panic(unsup("a call changes any object (%s)", l.mem))
			}
			x := c.Fresh("h:"+l.mem, m.sort)
			v.hv = append(v.hv, x)
			st.set(l.mem, x)
			continue
		}
		v.viewWrite(st, l.mem, l.ref, v.name)
		es := elemSort(m.sort)
		nm := "h:" + l.mem
		if l.mem == "E:byte" {
			nm = "bytes_arr_h"
		}
		x := c.Fresh(nm, es)
		c.lt[x] = nil
		v.hv = append(v.hv, x)
		old := c.Select(m, l.ref)
		if l.lo != nil {
			j := c.BVar("j", "Int")
			st.assume(c.Forall([]*Term{j}, c.Or(c.And(c.Ge(j, l.lo), c.Lt(j, l.hi)), c.Eq(c.Select(x, j), c.Select(old, j))), [][]*Term{{c.Select(x, j)}}))
		}
		val := x
		if l.cond != nil && l.cond.op != OTrue {
			val = c.Ite(l.cond, x, old)
		}
		st.set(l.mem, c.Store(m, l.ref, val))
	}
}

func (v *Verifier) advance(st *State) {
	c := v.c
	a := c.Fresh("alloc", "Int")
	c.lower[a] = st.alloc
	c.SetRange(a, bone, nil)
	st.assumeRaw(c.mk(&Term{op: OGe0, sort: "Bool", args: []*Term{c.Sub(a, st.alloc)}}))
	st.alloc = a
}

func (v *Verifier) callContract(st *State, name, pos string, bcs []boundContract, args []EV, resT []types.Type, k cont) {
	c := v.c
	if len(bcs) == 0 {
		panic("no contract")
	}
	old := st.snapshot()
	var nms []map[string]EV
	for _, bc := range bcs {
		v.used[bc.con.name] = true
		names := v.bindContract(st, bc, args)
		nms = append(nms, names)
		sc := &Scope{v: v, st: st, old: old, names: names}
		for _, cl := range bc.con.requires {
			if v.relevant(cl) {
				v.oblige(st, "precondition", name+" requires "+cl.text, pos, cl.tags, sc.Bool(cl.expr))
			}
		}
	}
	for i, bc := range bcs {
		if d := bc.con.decr; d != nil && v.relevant(d) {
			for j, own := range v.cons {
				od := own.con.decr
				group := od != nil && v.relevant(od) && len(d.tags) > 0 && strings.Join(d.tags, ",") == strings.Join(od.tags, ",")
				if group || own.con == bc.con && v.w.recursive(v.fn) {
					// recursion, also between functions whose measures carry the same tags: the measure goes down
					now := (&Scope{v: v, st: st, old: old, names: nms[i]}).eval(d.expr).term()
					was := (&Scope{v: v, st: v.entry, old: v.entry, names: v.conNames[j]}).eval(od.expr).term()
					v.oblige(st, "termination", "recursive call of "+name+" has a smaller "+d.text, pos, d.tags, c.And(c.Ge(now, c.Int(0)), c.Lt(now, was)))
				}
			}
		}
	}
	for _, a := range args {
		if t, ok := a.v.(*Term); ok {
			v.proveTypeMacro(st, t, a.t, pos)
		}
	}
	// frame: the first contract that states one
	var locs []Loc
	for i, bc := range bcs {
		if len(bc.con.modifies) > 0 || i == len(bcs)-1 {
			sc := &Scope{v: v, st: old, old: old, names: nms[i]}
			for _, m := range bc.con.modifies {
				locs = append(locs, sc.locs(m.expr)...)
			}
			break
		}
	}
	for _, bc := range bcs {
		if v.conViews(bc.con) {
			v.useViews()
		}
	}
	v.hv = nil
	v.havocLocs(st, locs)
	before := st.alloc
	v.advance(st)
	v.viewAdvance(st, before)
	for _, x := range v.hv {
		c.lt[x] = st.alloc
	}
	v.hv = nil
	// results
	var rets []EV
	defd := map[int]bool{}
	for i, t := range resT {
		rets = append(rets, EV{nil, t})
		// a clause "result == E" defines the result
		for bi, bc := range bcs {
			for _, cl := range bc.con.ensures {
				e := cl.expr
				if defd[i] || !v.relevant(cl) || e.op != "bin" || e.name != "==" || e.args[0].op != "id" || bc.con.opts["nodef"] {
					continue
				}
				rn := e.args[0].name
				if !(i == 0 && rn == "result" || rn == fmt.Sprintf("r%d", i) || i < len(bc.con.results) && bc.con.results[i] == rn) || mentionsResult(e.args[1], bc.con) {
					continue
				}
				sc := &Scope{v: v, st: st, old: old, names: nms[bi]}
				x := sc.coerce(sc.eval(e.args[1]), v.w.sortOf(t), t)
				if xt, ok := x.v.(*Term); ok && xt.sort == v.w.sortOf(t) {
					rets[i].v = xt
					defd[i] = true
					v.typeInv(st, xt, t)
				} else if sv, ok := x.v.(*StructV); ok && len(sv.f) == len(v.w.leaves(t)) {
					rets[i].v = &StructV{t: t, f: sv.f}
					defd[i] = true
				}
			}
		}
		if !defd[i] {
			rets[i].v = v.symbolic(st, "r:"+name, t, st.alloc)
		}
	}
	for i, bc := range bcs {
		v.bindResults(bc.con, nms[i], rets)
		sc := &Scope{v: v, st: st, old: old, names: nms[i]}
		for _, cl := range bc.con.ensures {
			if v.relevant(cl) {
				if !v.assumeClause(st, sc.Bool(cl.expr)) {
					return // contradicts what is known: the call cannot return here
				}
			}
		}
	}
	var out []Val
	for _, r := range rets {
		if rt, ok := r.v.(*Term); ok {
			v.assumeTypeMacro(st, rt, r.t)
		}
		if rt, ok := r.v.(*Term); ok && rt.sort == "Iface" {
			if d, ok := st.dyn[rt]; ok {
				v.payloadInv(st, rt, d)
			}
		}
		out = append(out, r.v)
	}
	k(st, out)
}

func mentionsResult(n *Node, con *Contract) bool {
	if n == nil {
		return false
	}
	if n.op == "id" {
		if n.name == "result" || len(n.name) == 2 && n.name[0] == 'r' && n.name[1] >= '0' && n.name[1] <= '9' {
			return true
		}
		for _, r := range con.results {
			if r == n.name {
				return true
			}
		}
	}
	for _, a := range n.args {
		if mentionsResult(a, con) {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- calls

func resultTypes(sig *types.Signature) []types.Type {
	var r []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, sig.Results().At(i).Type())
	}
	return r
}

func (v *Verifier) call(st *State, in ssa.Instruction, com *ssa.CallCommon, k cont) {
	if com.IsInvoke() {
		v.invoke(st, in, com, k)
		return
	}
	var args []Val
	for _, a := range com.Args {
		args = append(args, v.val(st, a))
	}
	switch f := com.Value.(type) {
	case *ssa.Builtin:
		v.builtin(st, in, f.Name(), com, args, k)
		return
	}
	fv, ok := v.val(st, com.Value).(*FuncV)
	if !ok {
		v.callUnknown(st, in, com, args, k)
		return
	}
	v.callFn(st, in, fv.fn, args, fv.bind, k)
}

// a call of a function value supplied by the caller (Updater and the like)
func (v *Verifier) callUnknown(st *State, in ssa.Instruction, com *ssa.CallCommon, args []Val, k cont) {
	t := com.Value.Type()
	if n, ok := t.(*types.Named); ok {
		if con := v.w.Cons.Funcs[n.Obj().Name()]; con != nil && !con.iface {
			fv := v.term(st, com.Value)
			v.safety(st, "nil function", in, v.c.Neq(fv, v.c.Int(0)))
			evs := []EV{{fv, t}}
			for i, a := range args {
				evs = append(evs, EV{a, com.Args[i].Type()})
			}
			v.note("callback contract: " + con.name)
			v.callContract(st, con.name, v.posOf(in), []boundContract{{con: con}}, evs, resultTypes(com.Signature()), k)
			return
		}
	}
	panic(unsup("call of unknown function value of type %s", t))
}

func (v *Verifier) callFn(st *State, in ssa.Instruction, fn *ssa.Function, args []Val, bind []Val, k cont) {
	if fn.Pkg != v.w.Pkg && fn.Synthetic == "" || len(fn.Blocks) == 0 {
		v.externs[fn.String()] = true
		v.extern(st, in, fn, args, k)
		return
	}
	if fn.Parent() == nil && fn.Synthetic == "" {
		bcs := v.w.contractsFor(fn)
		if r := fn.Signature.Recv(); r != nil && v.w.ifaceFor(r.Type()) == nil {
			// interface contracts need the boxed receiver
			var own []boundContract
			for _, b := range bcs {
				if b.iface == nil {
					own = append(own, b)
				}
			}
			bcs = own
		}
		inl := false
		for _, b := range bcs {
			if b.con.opts["inline"] {
				inl = true
			}
		}
		if len(bcs) > 0 && !inl {
			var evs []EV
			for i, a := range args {
				evs = append(evs, EV{a, fn.Params[i].Type()})
			}
			v.callContract(st, funcName(fn), v.posOf(in), bcs, evs, resultTypes(fn.Signature), k)
			return
		}
		v.inlined[funcName(fn)] = true
	}
	v.runFunc(st, fn, args, bind, k)
}

func (v *Verifier) invoke(st *State, in ssa.Instruction, com *ssa.CallCommon, k cont) {
	c := v.c
	recv := st.deep(v.term(st, com.Value))
	var args []Val
	for _, a := range com.Args {
		args = append(args, v.val(st, a))
	}
	ctor := ""
	if recv.op == OCtor {
		ctor = recv.name
	} else if d, ok := st.dyn[recv]; ok {
		ctor = d
	}
	it := com.Value.Type()
	if ctor == "i_nil" {
		v.safety(st, "method call on nil interface", in, c.tFalse)
		return
	}
	if ctor != "" && ctor != "i_other" {
		for _, ic := range v.w.Ifaces {
			if ic.Ctor.Name == ctor {
				v.invokeOn(st, in, com, recv, ic, args, k)
				return
			}
		}
	}
	bcs := v.w.ifaceContracts(it, com.Method.Name(), true)
	inl := false
	for _, b := range bcs {
		inl = inl || b.con.opts["inline"]
	}
	if len(bcs) > 0 && !inl {
		v.safety(st, "method call on nil interface", in, c.Not(c.Is("i_nil", recv)))
		evs := []EV{{recv, it}}
		for i, a := range args {
			evs = append(evs, EV{a, com.Args[i].Type()})
		}
		v.callContract(st, v.w.tname(it)+"."+com.Method.Name(), v.posOf(in), bcs, evs, resultTypes(com.Signature()), k)
		return
	}
	if v.externInvoke(st, in, com, recv, args, k) {
		return
	}
	if !v.closedWorld(it) {
		panic(unsup("call of %s.%s", it, com.Method.Name()))
	}
	v.safety(st, "method call on nil interface", in, c.Not(c.Is("i_nil", recv)))
	impls := v.w.impls(it)
	var fork func(st *State, i int)
	fork = func(st *State, i int) {
		if i >= len(impls) {
			return
		}
		ic := impls[i]
		v.branch(st, c.Is(ic.Ctor.Name, recv), func(st *State) {
			v.invokeOn(st, in, com, recv, ic, args, k)
		}, func(st *State) { fork(st, i+1) }, v.posOf(in)+" dynamic type "+v.w.tname(ic.T))
	}
	fork(st, 0)
}

func (v *Verifier) invokeOn(st *State, in ssa.Instruction, com *ssa.CallCommon, recv *Term, ic *IfaceCtor, args []Val, k cont) {
	v.payloadInv(st, recv, ic.Ctor.Name)
	fn := v.w.Prog.LookupMethod(ic.T, com.Method.Pkg(), com.Method.Name())
	if fn == nil {
		panic(unsup("method %s of %s", com.Method.Name(), ic.T))
	}
	all := append([]Val{v.unbox(st, recv, ic.T)}, args...)
	v.callFn(st, in, fn, all, nil, k)
}

// ---------------------------------------------------------------- builtins

func (v *Verifier) builtin(st *State, in ssa.Instruction, name string, com *ssa.CallCommon, args []Val, k cont) {
	c := v.c
	w := v.w
	one := func(x Val) { k(st, []Val{x}) }
	if name == "len" || name == "cap" {
		if _, ok := com.Args[0].Type().Underlying().(*types.Chan); ok {
			// what a channel's buffer holds at a moment is up to the scheduler
			n := c.Fresh("chlen", "Int")
			st.assume(c.Ge(n, c.Int(0)))
			st.assume(c.Le(n, c.Int(maxLen)))
			one(n)
			return
		}
	}
	switch name {
	case "len":
		x := args[0].(*Term)
		switch x.sort {
		case "Slice":
			one(c.Len(x))
		case "Bytes":
			one(c.BLen(x))
		default:
			if _, ok := com.Args[0].Type().Underlying().(*types.Map); ok {
				n := st.ghost("mlen", x)
				st.assume(c.Ge(n, c.Int(0)))
				st.assume(c.Implies(c.Eq(x, c.Int(0)), c.Eq(n, c.Int(0))))
				st.assume(c.Le(n, c.Int(maxLen)))
				one(n)
				return
			}
			panic(unsup("len of %s", x.sort))
		}
	case "cap":
		one(c.Cap(args[0].(*Term)))
	case "append":
		v.append_(st, in, com, args, k)
	case "copy":
		d, s := args[0].(*Term), args[1].(*Term)
		el := com.Args[0].Type().Underlying().(*types.Slice).Elem()
		es := w.sortOf(el)
		mn := elemMem(w, el)
		sl := c.Int(0)
		if s.sort == "Bytes" {
			sl = c.BLen(s)
		} else {
			sl = c.Len(s)
		}
		do := func(n *Term) func(st *State) {
			return func(st *State) {
				m := st.get(mn, es)
				src, so := v.srcOf(m, s)
				v.roCount = n
				v.viewWrite(st, mn, c.Arr(d), v.posOf(in))
				v.roCount = nil
				st.set(mn, c.Store(m, c.Arr(d), c.CopyArr(c.Select(m, c.Arr(d)), c.Off(d), src, so, n)))
				k(st, []Val{n})
			}
		}
		v.branch(st, c.Le(c.Len(d), sl), do(c.Len(d)), do(sl), v.posOf(in)+" copy shorter")
	case "close":
		v.closeChan(st, in, args[0].(*Term))
		k(st, nil)
	case "ssa:wrapnilchk":
		v.nonNil(st, args[0], in)
		k(st, args[:1])
	case "print", "println":
		k(st, nil)
	case "min", "max":
		x := args[0].(*Term)
		for _, a := range args[1:] {
			y := a.(*Term)
			if name == "min" {
				x = c.Ite(c.Le(x, y), x, y)
			} else {
				x = c.Ite(c.Le(x, y), y, x)
			}
		}
		one(x)
	case "delete":
		mp, key := args[0].(*Term), args[1].(*Term)
		dom := st.ghost("mdom", mp)
		v.branch(st, c.Select(dom, key), func(st *State) {
			st.setGhost("mlen", mp, c.AddI(st.ghost("mlen", mp), -1))
			st.setGhost("mdom", mp, c.Store(dom, key, c.tFalse))
			k(st, nil)
		}, func(st *State) { k(st, nil) }, v.posOf(in))
	default:
		panic(unsup("builtin %s", name))
	}
}

func (v *Verifier) srcOf(m, s *Term) (arr, off *Term) {
	c := v.c
	if s.sort == "Bytes" {
		return c.ArrOf(s), c.Int(0)
	}
	return c.Select(m, c.Arr(s)), c.Off(s)
}

func (v *Verifier) append_(st *State, in ssa.Instruction, com *ssa.CallCommon, args []Val, k cont) {
	c := v.c
	w := v.w
	s, t := args[0].(*Term), args[1].(*Term)
	el := com.Args[0].Type().Underlying().(*types.Slice).Elem()
	es := w.sortOf(el)
	mn := elemMem(w, el)
	n := c.Int(0)
	if t.sort == "Bytes" {
		n = c.BLen(t)
	} else {
		n = c.Len(t)
	}
	if n.op == OInt && n.val.Sign() == 0 {
		k(st, []Val{s})
		return
	}
	nl := c.Add(c.Len(s), n)
	v.branch(st, c.Le(nl, c.Cap(s)), func(st *State) {
		m := st.get(mn, es)
		src, so := v.srcOf(m, t)
		a := c.CopyArr(c.Select(m, c.Arr(s)), c.Add(c.Off(s), c.Len(s)), src, so, n)
		v.roCount = n
		v.viewWrite(st, mn, c.Arr(s), v.posOf(in))
		v.roCount = nil
		st.set(mn, c.Store(m, c.Arr(s), a))
		k(st, []Val{c.Slice(c.Arr(s), c.Off(s), nl, c.Cap(s))})
	}, func(st *State) {
		m := st.get(mn, es)
		src, so := v.srcOf(m, t)
		old := c.Select(m, c.Arr(s))
		ref := v.newRef(st)
		cp := c.Fresh("cap", "Int")
		st.assume(c.Ge(cp, nl))
		st.assume(c.Le(cp, c.Int(maxLen)))
		z := c.ConstArr(arrSort(es), v.zero(el).(*Term))
		a := c.CopyArr(z, c.Int(0), old, c.Off(s), c.Len(s))
		a = c.CopyArr(a, c.Len(s), src, so, n)
		st.set(mn, c.Store(m, ref, a))
		k(st, []Val{c.Slice(ref, c.Int(0), nl, cp)})
	}, v.posOf(in)+" append in place")
}

// ---------------------------------------------------------------- channels

func (v *Verifier) recv(st *State, x *ssa.UnOp, k func(st *State)) {
	c := v.c
	ch := v.term(st, x.X)
	v.safety(st, "receive from nil channel blocks forever", x, c.Neq(ch, c.Int(0)))
	rest := st.ghost("chrest", ch)
	et := x.X.Type().Underlying().(*types.Chan).Elem()
	fin := func(st *State, val Val, ok *Term) {
		if x.CommaOk {
			st.env()[x] = &TupleV{[]Val{val, ok}}
		} else {
			st.env()[x] = val
		}
		k(st)
	}
	v.branch(st, c.Is("vs_cons", rest), func(st *State) {
		h := c.Sel("vs_hd", rest)
		v.typeInv(st, h, et)
		st.setGhost("chrest", ch, c.Sel("vs_tl", rest))
		fin(st, h, c.tTrue)
	}, func(st *State) {
		fin(st, v.zero(et), c.tFalse)
	}, v.posOf(x)+" receive")
}

func (v *Verifier) send(st *State, x *ssa.Send) {
	c := v.c
	ch := v.term(st, x.Chan)
	v.safety(st, "send on nil channel blocks forever", x, c.Neq(ch, c.Int(0)))
	v.safety(st, "send on closed channel", x, c.Not(st.ghost("chclosed", ch)))
	val := v.val(st, x.X)
	vt, ok := val.(*Term)
	if !ok {
		panic(unsup("send of %T", val))
	}
	st.setGhost("chseq", ch, c.App("vs_snoc", "VS", st.ghost("chseq", ch), vt))
}

func (v *Verifier) closeChan(st *State, in ssa.Instruction, ch *Term) {
	c := v.c
	v.safety(st, "close of nil channel", in, c.Neq(ch, c.Int(0)))
	v.safety(st, "close of closed channel", in, c.Not(st.ghost("chclosed", ch)))
	st.setGhost("chclosed", ch, c.tTrue)
}

// ---------------------------------------------------------------- maps

func (v *Verifier) mapGhost(t types.Type) (dom, val string, keySort, valSort string) {
	m := t.Underlying().(*types.Map)
	ks, vs := v.w.sortOf(m.Key()), v.w.sortOf(m.Elem())
	switch {
	case ks == "Bytes" && vs == "Iface":
		return "mdom", "mval", ks, vs
	case ks == "Int" && vs == "Int":
		return "imdom", "imval", ks, vs
	}
	panic(unsup("map type %s", t))
}

func (v *Verifier) makeMap(st *State, x *ssa.MakeMap) {
	c := v.c
	ref := v.newRef(st)
	dom, _, ks, _ := v.mapGhost(x.Type())
	st.setGhost(dom, ref, c.ConstArr("(Array "+ks+" Bool)", c.tFalse))
	st.setGhost("mlen", ref, c.Int(0))
	st.env()[x] = ref
}

func (v *Verifier) lookup(st *State, x *ssa.Lookup) {
	c := v.c
	if s, ok := v.val(st, x.X).(*Term); ok && s.sort == "Bytes" {
		i := v.term(st, x.Index)
		v.safety(st, "index in range", x, c.And(c.Ge(i, c.Int(0)), c.Lt(i, c.BLen(s))))
		st.env()[x] = c.At(s, i)
		return
	}
	m, key := v.term(st, x.X), v.term(st, x.Index)
	dom, val, _, _ := v.mapGhost(x.X.Type())
	et := x.X.Type().Underlying().(*types.Map).Elem()
	in := c.And(c.Neq(m, c.Int(0)), c.Select(st.ghost(dom, m), key))
	got := c.Select(st.ghost(val, m), key)
	v.typeInv(st, got, et)
	r := c.Ite(in, got, v.zero(et).(*Term))
	if x.CommaOk {
		st.env()[x] = &TupleV{[]Val{r, in}}
	} else {
		st.env()[x] = r
	}
}

func (v *Verifier) mapUpdate(st *State, x *ssa.MapUpdate) {
	c := v.c
	m, key, val := v.term(st, x.Map), v.term(st, x.Key), v.term(st, x.Value)
	dn, vn, _, _ := v.mapGhost(x.Map.Type())
	v.safety(st, "assignment to nil map", x, c.Neq(m, c.Int(0)))
	dom := st.ghost(dn, m)
	n := st.ghost("mlen", m)
	st.setGhost("mlen", m, c.Ite(c.Select(dom, key), n, c.AddI(n, 1)))
	st.setGhost(dn, m, c.Store(dom, key, c.tTrue))
	st.setGhost(vn, m, c.Store(st.ghost(vn, m), key, val))
}

func (v *Verifier) rangeStart(st *State, x *ssa.Range) {
	c := v.c
	if t, ok := v.val(st, x.X).(*Term); ok && t.sort == "Bytes" {
		panic(unsup("range over string"))
	}
	it := v.newRef(st)
	_, _, ks, _ := v.mapGhost(x.X.Type())
	if ks != "Bytes" {
		panic(unsup("range over %s", x.X.Type()))
	}
	st.setGhost("rvis", it, c.ConstArr("(Array Bytes Bool)", c.tFalse))
	st.setGhost("rcnt", it, c.Int(0))
	st.env()[x] = it
}

func (v *Verifier) rangeNext(st *State, x *ssa.Next) {
	// (ok, k, v): forked by the header's branch on ok; the result is a fresh unknown
	c := v.c
	if x.IsString {
		panic(unsup("range over string"))
	}
	rg := x.Iter.(*ssa.Range)
	it := v.term(st, rg)
	m := v.term(st, rg.X)
	vis := st.ghost("rvis", it)
	cnt := st.ghost("rcnt", it)
	dom := c.Ite(c.Eq(m, c.Int(0)), c.ConstArr("(Array Bytes Bool)", c.tFalse), st.ghost("mdom", m))
	n := c.Ite(c.Eq(m, c.Int(0)), c.Int(0), st.ghost("mlen", m))
	ok := c.Fresh("rok", "Bool")
	key := c.Fresh("rkey", "Bytes")
	val := c.Select(st.ghost("mval", m), key)
	c.lt[val] = nil
	v.typeInv(st, val, rg.X.Type().Underlying().(*types.Map).Elem())
	st.assume(c.Ge(cnt, c.Int(0)))
	st.assume(c.Implies(ok, c.And(c.Select(dom, key), c.Not(c.Select(vis, key)), c.Lt(cnt, n))))
	b := c.BVar("k", "Bytes")
	st.assume(c.Or(ok, c.And(c.Eq(cnt, n), c.Forall([]*Term{b}, c.Eq(c.Select(vis, b), c.Select(dom, b)), [][]*Term{{c.Select(vis, b)}, {c.Select(dom, b)}}))))
	st.setGhost("rvis", it, c.Ite(ok, c.Store(vis, key, c.tTrue), vis))
	st.setGhost("rcnt", it, c.Ite(ok, c.AddI(cnt, 1), cnt))
	st.env()[x] = &TupleV{[]Val{ok, key, val}}
}

// ---------------------------------------------------------------- scopes

func (v *Verifier) scopeAt(st *State) *Scope {
	names := map[string]EV{}
	for i := range v.cons {
		for k, x := range v.conNames[i] {
			names[k] = x
		}
	}
	return &Scope{v: v, st: st, old: v.entry, names: names}
}
