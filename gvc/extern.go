package main

import (
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)


// ---------------------------------------------------------------- models of functions outside the package
//
// Every model is part of the trusted base; the evidence lists those used.

func (v *Verifier) bytesOf(st *State, s *Term) *Term {
	c := v.c
	if s.sort == "Bytes" {
		return s
	}
	return c.Mkb(c.Select(st.get("E:byte", "Int"), c.Arr(s)), c.Off(s), c.Len(s))
}

// the content of a byte array
func (v *Verifier) arrayBytes(st *State, r *Term, n int) *Term {
	return v.c.Mkb(v.c.Select(st.get("E:byte", "Int"), r), v.c.Int(0), v.c.Int(int64(n)))
}

// errors: any non-nil value of a type outside the package
func (v *Verifier) freshErr(st *State, name string) *Term {
	c := v.c
	id := c.Fresh(name, "Int")
	c.SetRange(id, bigI(1000000), nil)
	tag := c.Fresh(name+"tag", "Int")
	return c.Ctor("i_other", tag, id)
}

// buffers and builders accept every write
func (v *Verifier) infallible(w *Term) *Term {
	c := v.c
	var or []*Term
	for _, ic := range v.w.Ifaces {
		if n := ic.Ctor.Name; strings.HasSuffix(n, "bytes_Buffer") || strings.HasSuffix(n, "strings_Builder") {
			or = append(or, c.Is(n, w))
		}
	}
	return c.Or(or...)
}

func (v *Verifier) writeTo(st *State, in ssa.Instruction, w *Term, b *Term, canFail bool, k func(st *State, failed bool)) {
	c := v.c
	id := w
	if w.sort == "Iface" {
		id = v.objid(w)
	}
	if canFail && (v.prop == "C05" || v.prop == "") {
		v.oblige(st, "io", "nothing is written after a failed write", v.posOf(in), []string{"C05"}, c.Not(st.ghost("wfail", id)))
	}
	out := st.ghost("wout", id)
	if !canFail {
		st.setGhost("wout", id, c.Cat(out, b))
		k(st, false)
		return
	}
	okT := c.Fresh("wok", "Bool")
	ok := okT
	if w.sort == "Iface" {
		ok = c.Or(v.infallible(w), okT)
	}
	v.branch(st, ok, func(st *State) {
		st.setGhost("wout", id, c.Cat(out, b))
		k(st, false)
	}, func(st *State) {
		st.setGhost("wout", id, c.Fresh("wlost", "Bytes"))
		st.setGhost("wfail", id, c.tTrue)
		k(st, true)
	}, v.posOf(in)+" write succeeds")
}

func (v *Verifier) extern(st *State, in ssa.Instruction, fn *ssa.Function, args []Val, k cont) {
	c := v.c
	T := func(i int) *Term {
		t, ok := args[i].(*Term)
		if !ok {
			panic(unsup("argument of %s: %T", fn, args[i]))
		}
		return t
	}
	one := func(x Val) { k(st, []Val{x}) }
	nilE := c.Ctor("i_nil")
	name := fn.String()
	put := func(n int) {
		b, x := T(len(args)-2), T(len(args)-1)
		v.safety(st, "slice long enough", in, c.Ge(c.Len(b), c.Int(int64(n))))
		m := st.get("E:byte", "Int")
		a := c.Select(m, c.Arr(b))
		for i := 0; i < n; i++ {
			a = c.Store(a, c.AddI(c.Off(b), int64(i)), c.ModK(c.DivK(x, new(big.Int).Lsh(bone, uint(8*(n-1-i)))), bigI(256)))
		}
		v.viewWrite(st, "E:byte", c.Arr(b), v.posOf(in))
		st.set("E:byte", c.Store(m, c.Arr(b), a))
		k(st, nil)
	}
	get := func(n int) {
		b := T(len(args) - 1)
		v.safety(st, "slice long enough", in, c.Ge(c.Len(b), c.Int(int64(n))))
		a := c.Select(st.get("E:byte", "Int"), c.Arr(b))
		var ts []*Term
		for i := 0; i < n; i++ {
			e := c.Select(a, c.AddI(c.Off(b), int64(i)))
			v.typeInv(st, e, types.Typ[types.Uint8])
			ts = append(ts, c.MulK(e, new(big.Int).Lsh(bone, uint(8*(n-1-i)))))
		}
		one(c.Add(ts...))
	}
	if v.pureExtern(st, in, fn, args, k) {
		return
	}
	switch name {
	case "(*math/big.Float).Int":
		v.bigFloatInt(st, in, args, k)
		return
	case "encoding/json.NewEncoder":
		ref := v.newRef(st)
		st.setGhost("jenc", ref, T(0))
		st.setGhost("jesc", ref, c.tTrue)
		one(ref)
		return
	case "(*encoding/json.Encoder).SetEscapeHTML":
		v.safety(st, "nil pointer", in, c.Gt(T(0), c.Int(0)))
		st.setGhost("jesc", T(0), T(1))
		k(st, nil)
		return
	case "(*encoding/json.Encoder).Encode":
		v.safety(st, "nil pointer", in, c.Gt(T(0), c.Int(0)))
		x := T(1)
		if x.op != OCtor || x.name != "i_string" {
			panic(unsup("JSON encoding of anything but a string"))
		}
		b := c.Cat(c.App("jsonq", "Bytes", x.args[0], st.ghost("jesc", T(0))), c.Blit("\n"))
		v.writeTo(st, in, st.ghost("jenc", T(0)), b, true, func(st *State, failed bool) {
			if failed {
				k(st, []Val{v.freshErr(st, "werr")})
				return
			}
			k(st, []Val{nilE})
		})
		return
	case "(crypto.Hash).New":
		v.safety(st, "the hash function is linked in", in, c.App("hashavail", "Bool", T(0)))
		x := c.Ctor("i_other", c.Int(typeHash("hash.Hash")), v.newRef(st))
		st.setGhost("wout", v.objid(x), c.Blit(""))
		st.setGhost("halg", v.objid(x), T(0))
		one(x)
		return
	case "reflect.TypeOf":
		// some reflection type; nothing is known of it
		one(c.Ctor("i_other", c.Int(typeHash("*reflect.rtype")), c.App("rtype", "Int", c.App("dyntype", "Int", T(0)))))
		return
	case "(crypto.Hash).Available":
		one(c.App("hashavail", "Bool", T(0)))
		return
	case "sort.Sort":
		v.sortSort(st, in, T(0), k)
		return
	case "sort.Search":
		v.sortSearch(st, in, args, k)
		return
	case "(encoding/binary.bigEndian).PutUint16":
		put(2)
		return
	case "(encoding/binary.bigEndian).PutUint32":
		put(4)
		return
	case "(encoding/binary.bigEndian).PutUint64":
		put(8)
		return
	case "(encoding/binary.bigEndian).Uint16":
		get(2)
		return
	case "(encoding/binary.bigEndian).Uint32":
		get(4)
		return
	case "(encoding/binary.bigEndian).Uint64":
		get(8)
		return
	case "io.ReadFull":
		v.readFull(st, in, T(0), T(1), k)
		return
	case "golang.org/x/crypto/nacl/box.Seal":
		for i := 2; i < 5; i++ {
			v.safety(st, "nonce or key is not nil", in, c.Neq(T(i), c.Int(0)))
		}
		out := T(0)
		v.safety(st, "Seal appends to a slice without spare capacity", in, c.Eq(c.Len(out), c.Cap(out)))
		b := c.App("boxseal", "Bytes", v.bytesOf(st, T(1)), v.arrayBytes(st, T(2), 24), v.arrayBytes(st, T(3), 32), v.arrayBytes(st, T(4), 32))
		one(v.bytesSlice(st, c.Cat(v.bytesOf(st, out), b)))
		return
	case "golang.org/x/crypto/nacl/box.Open":
		for i := 2; i < 5; i++ {
			v.safety(st, "nonce or key is not nil", in, c.Neq(T(i), c.Int(0)))
		}
		out := T(0)
		v.safety(st, "Open appends to a slice without spare capacity", in, c.Eq(c.Len(out), c.Cap(out)))
		args := []*Term{v.bytesOf(st, T(1)), v.arrayBytes(st, T(2), 24), v.arrayBytes(st, T(3), 32), v.arrayBytes(st, T(4), 32)}
		v.branch(st, c.App("boxok", "Bool", args...), func(st *State) {
			k(st, []Val{v.bytesSlice(st, c.Cat(v.bytesOf(st, out), c.App("boxopen", "Bytes", args...))), c.tTrue})
		}, func(st *State) { k(st, []Val{v.zero(types.NewSlice(types.Typ[types.Byte])), c.tFalse}) }, v.posOf(in)+" box opens")
		return
	case "io.LimitReader":
		x := c.Ctor("i_other", c.Int(typeHash("*io.LimitedReader")), v.newRef(st))
		st.setGhost("rlim", v.objid(x), T(1))
		v.limited[x] = T(0)
		one(x)
		return
	case "io.ReadAll", "io/ioutil.ReadAll":
		base, lim := T(0), (*Term)(nil)
		if b, ok := v.limited[base]; ok {
			lim = st.ghost("rlim", v.objid(base))
			base = b
		}
		v.safety(st, "reader is not nil", in, c.Not(c.Is("i_nil", base)))
		id := v.objid(base)
		rest := st.ghost("rrest", id)
		n := c.BLen(rest)
		take := n
		if lim != nil {
			take = c.Ite(c.Ge(lim, n), n, c.Ite(c.Ge(lim, c.Int(0)), lim, c.Int(0)))
		}
		st.setGhost("rrest", id, c.BSub(rest, take, n))
		b := v.bytesSlice(st, c.BSub(rest, c.Int(0), take))
		clean := st.ghost("rclean", id)
		if lim != nil {
			clean = c.Or(clean, c.Ge(n, lim))
		}
		v.branch(st, clean, func(st *State) { k(st, []Val{b, nilE}) }, func(st *State) { k(st, []Val{b, v.freshErr(st, "rerr")}) }, v.posOf(in)+" reader does not fail")
		return
	case "github.com/pkg/errors.Errorf", "github.com/pkg/errors.New", "errors.New", "fmt.Errorf":
		one(v.freshErr(st, "err"))
		return
	case "(*math/big.Int).GobDecode":
		b := v.bytesOf(st, T(1))
		v.viewWrite(st, "G:big", T(0), v.posOf(in))
		v.branch(st, c.App("gobok", "Bool", b), func(st *State) {
			st.setGhost("big", T(0), c.App("gobdec", "Int", b))
			k(st, []Val{nilE})
		}, func(st *State) {
			st.setGhost("big", T(0), c.Fresh("bigx", "Int"))
			k(st, []Val{v.freshErr(st, "goberr")})
		}, v.posOf(in)+" gob is well-formed")
		return
	case "(*github.com/shopspring/decimal.Decimal).UnmarshalBinary":
		b := v.bytesOf(st, T(1))
		dt := fn.Signature.Recv().Type().(*types.Pointer).Elem()
		v.branch(st, c.App("decok", "Bool", b), func(st *State) {
			v.store(st, args[0], c.App("decdec", "Dec", b), dt)
			k(st, []Val{nilE})
		}, func(st *State) {
			v.store(st, args[0], c.Fresh("decx", "Dec"), dt)
			k(st, []Val{v.freshErr(st, "decerr")})
		}, v.posOf(in)+" decimal is well-formed")
		return
	case "(*bytes.Buffer).Write", "(*strings.Builder).Write", "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString":
		b := v.bytesOf(st, T(1))
		v.writeTo(st, in, T(0), b, false, func(st *State, _ bool) { k(st, []Val{c.BLen(b), nilE}) })
		return
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte":
		v.writeTo(st, in, T(0), c.Unit(T(1)), false, func(st *State, _ bool) { k(st, []Val{nilE}) })
		return
	case "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		r := T(1)
		b := c.App("runestr", "Bytes", r)
		if r.op == OInt && r.val.IsInt64() {
			b = c.Blit(string(rune(r.val.Int64())))
		}
		v.writeTo(st, in, T(0), b, false, func(st *State, _ bool) { k(st, []Val{c.BLen(b), nilE}) })
		return
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		one(st.ghost("wout", T(0)))
		return
	case "(*strings.Builder).Len", "(*bytes.Buffer).Len":
		one(c.BLen(st.ghost("wout", T(0))))
		return
	case "(*strings.Builder).Grow", "(*bytes.Buffer).Grow":
		v.safety(st, "Grow of a negative count", in, c.Ge(T(1), c.Int(0)))
		k(st, nil)
		return
	case "(*bytes.Buffer).Bytes":
		one(v.bytesSlice(st, st.ghost("wout", T(0))))
		return
	}
	panic(unsup("external function %s", fn))
}

func (v *Verifier) externInvoke(st *State, in ssa.Instruction, com *ssa.CallCommon, recv *Term, args []Val, k cont) bool {
	c := v.c
	it := v.w.tname(com.Value.Type())
	switch it + "." + com.Method.Name() {
	case "io.Writer.Write":
		v.externs["io.Writer.Write"] = true
		v.safety(st, "method call on nil interface", in, c.Not(c.Is("i_nil", recv)))
		b := v.bytesOf(st, args[0].(*Term))
		v.writeTo(st, in, recv, b, true, func(st *State, failed bool) {
			if failed {
				n := c.Fresh("wn", "Int")
				v.typeInv(st, n, types.Typ[types.Int])
				k(st, []Val{n, v.freshErr(st, "werr")})
				return
			}
			k(st, []Val{c.BLen(b), c.Ctor("i_nil")})
		})
		return true
	}
	switch it + "." + com.Method.Name() {
	case "reflect.Type.Elem":
		v.externs["reflect.Type.Elem"] = true
		k(st, []Val{c.Ctor("i_other", c.Int(typeHash("*reflect.rtype")), c.App("rtype", "Int", c.App("dyntype", "Int", recv)))})
		return true
	case "hash.Hash.Write", "hash.Hash.Sum", "hash.Hash.Reset":
		v.externs[it+"."+com.Method.Name()] = true
		v.safety(st, "method call on nil interface", in, c.Not(c.Is("i_nil", recv)))
		id := v.objid(recv)
		switch com.Method.Name() {
		case "Write":
			b := v.bytesOf(st, args[0].(*Term))
			v.writeTo(st, in, recv, b, false, func(st *State, _ bool) { k(st, []Val{c.BLen(b), c.Ctor("i_nil")}) })
		case "Reset":
			st.setGhost("wout", id, c.Blit(""))
			k(st, nil)
		default:
			b := args[0].(*Term)
			v.safety(st, "Sum appends to a slice without spare capacity", in, c.Eq(c.Len(b), c.Cap(b)))
			k(st, []Val{v.bytesSlice(st, c.Cat(v.bytesOf(st, b), c.App("digest", "Bytes", st.ghost("halg", id), st.ghost("wout", id))))})
		}
		return true
	case "io.ByteReader.ReadByte":
		v.externs["io.ByteReader.ReadByte"] = true
		v.safety(st, "method call on nil interface", in, c.Not(c.Is("i_nil", recv)))
		id := v.objid(recv)
		rest := st.ghost("rrest", id)
		v.branch(st, c.Gt(c.BLen(rest), c.Int(0)), func(st *State) {
			x := c.At(rest, c.Int(0))
			v.typeInv(st, x, types.Typ[types.Uint8])
			st.setGhost("rrest", id, c.BSub(rest, c.Int(1), c.BLen(rest)))
			k(st, []Val{x, c.Ctor("i_nil")})
		}, func(st *State) {
			x := c.Fresh("rb", "Int")
			v.typeInv(st, x, types.Typ[types.Uint8])
			v.atEnd(st, id, in, func(st *State, e *Term) { k(st, []Val{x, e}) })
		}, v.posOf(in)+" a byte is left")
		return true
	}
	return false
}

// the error of a reader without data: end of input, or whatever made it fail
func (v *Verifier) atEnd(st *State, id *Term, in ssa.Instruction, k func(st *State, e *Term)) {
	v.branch(st, st.ghost("rclean", id), func(st *State) { k(st, v.extVar("io", "EOF")) }, func(st *State) { k(st, v.freshErr(st, "rerr")) }, v.posOf(in)+" reader ends cleanly")
}

func (v *Verifier) extVar(pkg, name string) *Term {
	return v.readGlobal(v.entryOr(), v.w.Prog.ImportedPackage(pkg).Var(name)).(*Term)
}

func (v *Verifier) readFull(st *State, in ssa.Instruction, r, b *Term, k cont) {
	c := v.c
	if _, ok := v.limited[r]; ok {
		panic(unsup("ReadFull from a limited reader"))
	}
	v.safety(st, "reader is not nil", in, c.Not(c.Is("i_nil", r)))
	id := v.objid(r)
	rest := st.ghost("rrest", id)
	n := c.Len(b)
	fill := func(st *State, content *Term) {
		m := st.get("E:byte", "Int")
		v.viewWrite(st, "E:byte", c.Arr(b), v.posOf(in))
		st.set("E:byte", c.Store(m, c.Arr(b), c.CopyArr(c.Select(m, c.Arr(b)), c.Off(b), content, c.Int(0), n)))
	}
	v.branch(st, c.Ge(c.BLen(rest), n), func(st *State) {
		fill(st, c.ArrOf(c.BSub(rest, c.Int(0), n)))
		st.setGhost("rrest", id, c.BSub(rest, n, c.BLen(rest)))
		k(st, []Val{n, c.Ctor("i_nil")})
	}, func(st *State) {
		got := c.BLen(rest)
		fill(st, c.ArrOf(c.Fresh("partial", "Bytes")))
		st.setGhost("rrest", id, c.Blit(""))
		v.branch(st, c.Eq(got, c.Int(0)), func(st *State) {
			v.atEnd(st, id, in, func(st *State, e *Term) { k(st, []Val{got, e}) })
		}, func(st *State) {
			v.branch(st, st.ghost("rclean", id), func(st *State) { k(st, []Val{got, v.extVar("io", "ErrUnexpectedEOF")}) }, func(st *State) { k(st, []Val{got, v.freshErr(st, "rerr")}) }, v.posOf(in)+" reader ends cleanly")
		}, v.posOf(in)+" nothing is left")
	}, v.posOf(in)+" enough bytes are left")
}

// the result of a pure closure as a term over its arguments
func (v *Verifier) pureClosure(st *State, in ssa.Instruction, fv *FuncV, silent bool, args ...Val) *Term {
	c := v.c
	mark := c.n
	type out struct {
		cond []*Term
		r    *Term
	}
	var outs []out
	s2 := st.clone()
	s2.conds = nil
	if silent {
		v.mute++
	}
	memBefore := map[string]*Term{}
	for k, m := range s2.mem {
		memBefore[k] = m
	}
	v.callFn(s2, in, fv.fn, args, fv.bind, func(st *State, rets []Val) {
		for k, m := range st.mem {
			if o, ok := memBefore[k]; ok && o != m && k != "G:frz" {
				panic(unsup("predicate closure writes %s", k))
			}
		}
		outs = append(outs, out{append([]*Term{}, st.conds...), rets[0].(*Term)})
	})
	if silent {
		v.mute--
	}
	if len(outs) == 0 {
		return c.tFalse
	}
	r := outs[len(outs)-1].r
	for i := len(outs) - 2; i >= 0; i-- {
		r = c.Ite(c.And(outs[i].cond...), outs[i].r, r)
	}
	// the value must be a function of the argument and of what existed before
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OConst && t.id >= mark && len(t.fv) == 0 && !strings.Contains(t.name, "@0") && !strings.HasPrefix(t.name, "g") && !strings.HasPrefix(t.name, "f64:") {
			panic(unsup("predicate closure result depends on %s", t.name))
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(r)
	return r
}

func (v *Verifier) sortSearch(st *State, in ssa.Instruction, args []Val, k cont) {
	c := v.c
	n := args[0].(*Term)
	fv := args[1].(*FuncV)
	j := c.Fresh("sj", "Int")
	s2 := st.clone()
	s2.assume(c.Ge(j, c.Int(0)))
	s2.assume(c.Lt(j, n))
	p := v.pureClosure(s2, in, fv, false, j)
	at := func(x *Term) *Term { return c.Subst(p, map[*Term]*Term{j: x}) }
	r := c.Fresh("search", "Int")
	v.typeInv(st, r, types.Typ[types.Int])
	st.assume(c.Ge(r, c.Int(0)))
	// sort.Search returns 0 for n <= 0
	st.assume(c.Ite(c.Ge(n, c.Int(0)), c.Le(r, n), c.Eq(r, c.Int(0))))
	st.assume(c.Implies(c.Lt(r, n), at(r)))
	st.assume(c.Implies(c.Gt(r, c.Int(0)), c.Not(at(c.AddI(r, -1)))))
	k(st, []Val{r})
}

// sort.Sort of a slice: its Len, Swap and Less must be the length, the exchange of two elements and a strict weak
// order (obligations); then the slice holds a permutation of what it held, in ascending order. Elements that compare
// equal come in an order that is a function of the sequence that was there (the algorithm is deterministic).
func (v *Verifier) sortSort(st *State, in ssa.Instruction, x *Term, k cont) {
	c := v.c
	if x.op != OCtor || len(x.args) != 1 || x.args[0].sort != "Slice" {
		panic(unsup("sort.Sort of anything but a slice type"))
	}
	var ic *IfaceCtor
	for _, i := range v.w.Ifaces {
		if i.Ctor.Name == x.name {
			ic = i
		}
	}
	s := x.args[0]
	el := ic.T.Underlying().(*types.Slice).Elem()
	mn, es := elemMem(v.w, el), v.w.sortOf(el)
	method := func(name string) *ssa.Function {
		sel := v.w.Prog.MethodSets.MethodSet(ic.T).Lookup(v.w.TPkg, name)
		if sel == nil {
			panic(unsup("%s has no %s", ic.T, name))
		}
		return v.w.Prog.MethodValue(sel)
	}
	pos := v.posOf(in)
	ar, off, n := c.Arr(s), c.Off(s), c.Len(s)
	fresh := func(s2 *State, name string) *Term {
		i := c.Fresh(name, "Int")
		s2.assume(c.Ge(i, c.Int(0)))
		s2.assume(c.Lt(i, n))
		return i
	}
	v.runFunc(st.clone(), method("Len"), []Val{s}, nil, func(s2 *State, r []Val) {
		v.oblige(s2, "sort", "Len is the length", pos, nil, c.Eq(r[0].(*Term), n))
	})
	// Swap
	s2 := st.clone()
	i, j := fresh(s2, "si"), fresh(s2, "sj")
	vm := v.viewMode
	v.viewMode = false
	before := map[string]*Term{}
	for q, m := range s2.mem {
		before[q] = m
	}
	v.callFn(s2, in, method("Swap"), []Val{s, i, j}, nil, func(s3 *State, _ []Val) {
		a := c.Select(st.get(mn, es), ar)
		want := c.Store(c.Store(a, c.Add(off, i), c.Select(a, c.Add(off, j))), c.Add(off, j), c.Select(a, c.Add(off, i)))
		v.oblige(s3, "sort", "Swap exchanges the two elements", pos, nil, c.Eq(c.Select(s3.get(mn, es), ar), want))
		for q, m := range s3.mem {
			o, ok := before[q]
			if !ok {
				o = v.m0[q]
			}
			if o == m || o == nil || q == "G:frz" {
				continue
			}
			if q == mn {
				o = c.Store(o, ar, c.Select(m, ar))
			}
			v.oblige(s3, "sort", "Swap changes nothing else ("+q+")", pos, nil, c.Eq(m, o))
		}
	})
	v.viewMode = vm
	// Less
	s2 = st.clone()
	i, j = fresh(s2, "si"), fresh(s2, "sj")
	less := method("Less")
	p := v.pureClosure(s2, in, &FuncV{fn: less}, false, s, i, j)
	P := func(p, i, j, a, b *Term) *Term { return c.Subst(p, map[*Term]*Term{i: a, j: b}) }
	l := fresh(s2, "sl")
	v.oblige(s2, "sort", "Less is irreflexive", pos, nil, c.Not(P(p, i, j, i, i)))
	v.oblige(s2, "sort", "Less is transitive", pos, nil, c.Implies(c.And(p, P(p, i, j, j, l)), P(p, i, j, i, l)))
	v.oblige(s2, "sort", "what Less does not tell apart is an equivalence", pos, nil, c.Implies(c.And(c.Not(p), c.Not(P(p, i, j, j, l))), c.Not(P(p, i, j, i, l))))
	// effect
	m := st.get(mn, es)
	a := c.Select(m, ar)
	if a.op != OConst && a.op != OSelect {
		u := c.Fresh("unsorted", a.sort)
		st.assume(c.mk(&Term{op: OEq, sort: "Bool", args: []*Term{u, a}}))
		a = u
	}
	hi := c.Add(off, n)
	seq := map[string][3]string{"MapEntry": {"kseq", "ksort", "KL"}, "ListItem": {"iseq", "isort", "IL"}}[v.w.tname(el)]
	if v.viewMode && seq[0] != "" {
		key := "fekey"
		if seq[0] == "iseq" {
			key = "fikey"
		}
		ks := v.w.Pre.Funs[key].Ret
		ki, kj := c.App(key, ks, c.Select(a, c.Add(off, i))), c.App(key, ks, c.Select(a, c.Add(off, j)))
		lt := c.Lt(ki, kj)
		if ks == "Bytes" {
			lt = c.App("blt", "Bool", ki, kj)
		}
		v.oblige(s2, "sort", "Less compares the keys", pos, nil, c.Eq(p, lt))
	}
	// nothing is written when there is nothing to sort
	if t := c.Le(n, c.Int(1)); t.op != OFalse {
		s1 := st.clone()
		s1.assume(t)
		if v.viewMode && seq[0] != "" {
			whole := c.App(seq[0], seq[2], a, off, n)
			s1.assume(c.Eq(whole, c.App(seq[1], seq[2], whole)))
		}
		k(s1, nil)
		if t.op == OTrue {
			return
		}
		st.assume(c.Lt(c.Int(1), n))
	}
	v.viewWrite(st, mn, ar, pos)
	b := c.Fresh("sorted", a.sort)
	pm, qm := c.Fresh("perm", "(Array Int Int)"), c.Fresh("permi", "(Array Int Int)")
	q := c.BVar("j", "Int")
	in2 := func(q *Term) *Term { return c.And(c.Le(off, q), c.Lt(q, hi)) }
	bq, aq, pq, qq := rawSelect(c, b, q), rawSelect(c, a, q), rawSelect(c, pm, q), rawSelect(c, qm, q)
	// the permutations are total: the identity outside the slice
	st.assume(c.Forall([]*Term{q}, c.And(c.Eq(bq, rawSelect(c, a, pq)), c.Eq(in2(q), in2(pq)), c.Eq(rawSelect(c, qm, pq), q), c.Or(in2(q), c.Eq(pq, q))), [][]*Term{{bq}}))
	st.assume(c.Forall([]*Term{q}, c.And(c.Eq(aq, rawSelect(c, b, qq)), c.Eq(in2(q), in2(qq)), c.Eq(rawSelect(c, pm, qq), q), c.Or(in2(q), c.Eq(qq, q))), [][]*Term{{aq}}))
	st.set(mn, c.Store(m, ar, b))
	s3 := st.clone()
	i, j = fresh(s3, "si"), fresh(s3, "sj")
	p = v.pureClosure(s3, in, &FuncV{fn: less}, true, s, i, j)
	q2 := c.BVar("i", "Int")
	body := P(p, i, j, c.Sub(q, off), c.Sub(q2, off))
	st.assume(c.Forall([]*Term{q2, q}, c.Implies(c.And(c.Le(off, q2), c.Lt(q2, q), c.Lt(q, hi)), c.Not(body)), [][]*Term{{rawSelect(c, b, q2), bq}}))
	if v.viewMode && seq[0] != "" {
		st.assume(c.Eq(c.App(seq[0], seq[2], b, off, n), c.App(seq[1], seq[2], c.App(seq[0], seq[2], a, off, n))))
	}
	k(st, nil)
}
