package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the program under verification: /repo's current source as go/ssa.
type World struct {
	Prog    *ssa.Program
	Pkg     *ssa.Package
	TPkg    *types.Package
	Funcs   map[string]*ssa.Function // by canonical name
	Ifaces  []*IfaceCtor             // closed world of dynamic types
	byType  map[string]*IfaceCtor
	Ctors   map[string]*CtorInfo
	Pre     *Prelude
	Cons    *Contracts
	Globals map[*ssa.Global]*ssa.Const // never reassigned package variables with a constant initial value
	GInit   map[*ssa.Global]ssa.Value  // never reassigned package variables: the initialising value
	written map[*ssa.Global]bool
	structF map[string][]FieldInfo
	smu     sync.Mutex
	recMu   sync.Mutex
	rec     map[*ssa.Function]bool
	NFiles  int
	readOnlyGlobalArrays bool
}

type IfaceCtor struct {
	T     types.Type
	Ctor  *CtorInfo
	Sorts []string
	// only nil pointers of the type are made interfaces, for reflection
	nilOnly bool
}

func loadWorld(dir string) (*World, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{
		Dir: dir, Env: env,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile,
	}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(ps) != 1 {
		return nil, fmt.Errorf("expected one package, got %d", len(ps))
	}
	for _, e := range ps[0].Errors {
		return nil, fmt.Errorf("load: %v", e)
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	if sp[0] == nil {
		return nil, fmt.Errorf("no ssa package")
	}
	prog.Build()
	w := &World{Prog: prog, Pkg: sp[0], TPkg: sp[0].Pkg, Funcs: map[string]*ssa.Function{}, byType: map[string]*IfaceCtor{}, Ctors: map[string]*CtorInfo{},
		Globals: map[*ssa.Global]*ssa.Const{}, GInit: map[*ssa.Global]ssa.Value{}, written: map[*ssa.Global]bool{}, structF: map[string][]FieldInfo{}}
	w.NFiles = len(ps[0].CompiledGoFiles)
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == w.Pkg && fn.Synthetic == "" && fn.Parent() == nil {
			w.Funcs[funcName(fn)] = fn
		}
	}
	// methods not reached by AllFunctions
	sc := w.TPkg.Scope()
	for _, n := range sc.Names() {
		switch o := sc.Lookup(n).(type) {
		case *types.Func:
			if f := prog.FuncValue(o); f != nil {
				w.Funcs[funcName(f)] = f
			}
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok {
				for i := 0; i < nt.NumMethods(); i++ {
					if f := prog.FuncValue(nt.Method(i)); f != nil && f.Blocks != nil {
						w.Funcs[funcName(f)] = f
					}
				}
			}
		}
	}
	w.collectIfaces()
	w.collectGlobals()
	return w, nil
}

// canonical name: "Name", "(T).Name", "(*T).Name"
func funcName(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		star := ""
		if p, ok := t.(*types.Pointer); ok {
			star = "*"
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return "(" + star + n.Obj().Name() + ")." + fn.Name()
		}
	}
	return fn.Name()
}

func (w *World) tname(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == w.TPkg {
			return ""
		}
		return p.Name()
	})
}

func mangle(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r == '*':
			b.WriteString("p_")
		case r == '[' || r == ']':
			b.WriteString("_l")
		case r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_':
			b.WriteRune(r)
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

func isOpaque(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "github.com/shopspring/decimal.Decimal":
			return "Dec"
		case "math/big.Int":
			return "Bigs"
		case "math/big.Float":
			return "Bigf"
		case "bytes.Buffer", "strings.Builder":
			return "Ghost"
		case "reflect.Value":
			return "RV"
		case "sync.Map":
			return "Ghost"
		}
	}
	// defined over an opaque struct (type decimalNumber decimal.Decimal): same underlying struct
	if n, ok := t.(*types.Named); ok {
		if st, ok := n.Underlying().(*types.Struct); ok && st.NumFields() == 2 && st.Field(0).Name() == "value" && st.Field(1).Name() == "exp" {
			return "Dec"
		}
	}
	return ""
}

// sorts of the flattened value
func (w *World) flat(t types.Type) []string {
	if o := isOpaque(t); o != "" && o != "Ghost" && o != "Bigs" && o != "Bigf" {
		return []string{o}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var r []string
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, w.flat(u.Field(i).Type())...)
		}
		return r
	case *types.Array:
		return []string{arrSort(w.sortOf(u.Elem()))}
	}
	return []string{w.sortOf(t)}
}

func (w *World) sortOf(t types.Type) string {
	if o := isOpaque(t); o != "" {
		return o
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return "Bool"
		case i&types.IsInteger != 0:
			return "Int"
		case i&types.IsFloat != 0:
			return "F64"
		case i&types.IsString != 0:
			return "Bytes"
		}
		if u.Kind() == types.UntypedNil {
			return "Iface"
		}
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Interface:
		return "Iface"
	case *types.Array:
		return arrSort(w.sortOf(u.Elem()))
	case *types.Struct:
		return "Struct"
	}
	return "Int"
}

func (w *World) addIface(t types.Type) *IfaceCtor {
	n := mangle(w.tname(t))
	if c := w.byType[n]; c != nil {
		return c
	}
	ci := &CtorInfo{Name: "i_" + n, Sort: "Iface"}
	fs := w.flat(t)
	for i, s := range fs {
		ci.Sels = append(ci.Sels, fmt.Sprintf("pl_%s_%d", n, i))
		ci.Sorts = append(ci.Sorts, s)
	}
	c := &IfaceCtor{T: t, Ctor: ci, Sorts: fs}
	w.byType[n] = c
	w.Ifaces = append(w.Ifaces, c)
	return c
}

func (w *World) ifaceFor(t types.Type) *IfaceCtor { return w.byType[mangle(w.tname(t))] }

func (w *World) collectIfaces() {
	seen := map[string]types.Type{}
	real := map[string]bool{}
	add := func(t types.Type) {
		if _, ok := t.Underlying().(*types.Interface); ok {
			return
		}
		if _, ok := t.(*types.Tuple); ok {
			return
		}
		seen[mangle(w.tname(t))] = t
	}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MakeInterface:
					add(x.X.Type())
					// (*T)(nil), as in reflect.TypeOf((*T)(nil)), makes no value of type *T
					if k, isC := x.X.(*ssa.Const); !isC || !k.IsNil() {
						real[mangle(w.tname(x.X.Type()))] = true
					}
				case *ssa.TypeAssert:
					add(x.AssertedType)
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	for _, fn := range w.Funcs {
		visit(fn)
	}
	// exported scalars and every named type that implements an interface of the package
	sc := w.TPkg.Scope()
	var ifs []*types.Interface
	for _, n := range []string{"Value", "ListItem", "MapEntry", "Packer", "Unpacker", "Parser", "Writer", "Updater"} {
		if o := sc.Lookup(n); o != nil {
			if it, ok := o.Type().Underlying().(*types.Interface); ok {
				ifs = append(ifs, it)
			}
		}
	}
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		if _, ok := tn.Type().Underlying().(*types.Interface); ok {
			continue
		}
		for _, it := range ifs {
			if types.Implements(tn.Type(), it) {
				// a struct implementing an item interface by value is only ever handed out by pointer
				if _, isSt := tn.Type().Underlying().(*types.Struct); isSt && seen[mangle(w.tname(types.NewPointer(tn.Type())))] != nil {
					continue
				}
				add(tn.Type())
			} else if p := types.NewPointer(tn.Type()); types.Implements(p, it) {
				add(p)
			}
		}
	}
	for _, t := range []string{"string", "int", "int64", "float64", "bool"} {
		_ = t
	}
	var names []string
	for n := range seen {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		c := w.addIface(seen[n])
		if p, isP := seen[n].(*types.Pointer); isP && !real[n] {
			_, isSt := p.Elem().Underlying().(*types.Struct)
			c.nilOnly = !isSt
		}
	}
	w.Ctors["mkslice"] = &CtorInfo{"mkslice", "Slice", []string{"s_arr", "s_off", "s_len", "s_cap"}, []string{"Int", "Int", "Int", "Int"}}
	w.Ctors["i_nil"] = &CtorInfo{"i_nil", "Iface", nil, nil}
	w.Ctors["i_other"] = &CtorInfo{"i_other", "Iface", []string{"o_tag", "o_id"}, []string{"Int", "Int"}}
	for _, i := range w.Ifaces {
		w.Ctors[i.Ctor.Name] = i.Ctor
	}
}

func (w *World) newCtx() *Ctx {
	c := NewCtx()
	for _, ci := range w.Ctors {
		c.AddCtor(ci)
	}
	c.pre = w.Pre
	return c
}

// package variables that no function of the package assigns after initialisation
func (w *World) collectGlobals() {
	initFn := w.Pkg.Func("init")
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						if fn == initFn {
							if _, dup := w.GInit[g]; dup {
								w.written[g] = true
							}
							w.GInit[g] = s.Val
							continue
						}
						w.written[g] = true
					}
				}
				// address escapes
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg == w.Pkg {
						switch y := in.(type) {
						case *ssa.UnOp:
						case *ssa.Store:
							if y.Val == g {
								w.written[g] = true
							}
						default:
							if fn != initFn {
								w.written[g] = true
							}
						}
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a)
		}
	}
	visit(initFn)
	for _, fn := range w.Funcs {
		if fn != initFn {
			visit(fn)
		}
	}
}

// structs
type FieldInfo struct {
	Path string // memory name suffix
	T    types.Type
	Drv  int // derived reference number for embedded arrays and opaque ghost objects (-1 otherwise)
	Idx  []int
}

// the flattened leaf fields of a struct type
func (w *World) leaves(t types.Type) []FieldInfo {
	key := w.tname(t)
	w.smu.Lock()
	defer w.smu.Unlock()
	if f, ok := w.structF[key]; ok {
		return f
	}
	var out []FieldInfo
	drv := 0
	var rec func(prefix string, t types.Type, idx []int)
	rec = func(prefix string, t types.Type, idx []int) {
		if o := isOpaque(t); o == "" {
			if st, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					rec(prefix+"."+st.Field(i).Name(), st.Field(i).Type(), append(append([]int{}, idx...), i))
				}
				return
			}
		}
		fi := FieldInfo{Path: prefix, T: t, Drv: -1, Idx: idx}
		_, isArr := t.Underlying().(*types.Array)
		if o := isOpaque(t); isArr || o == "Ghost" || o == "Bigs" {
			fi.Drv = drv
			drv++
		}
		out = append(out, fi)
	}
	if isOpaque(t) == "" {
		rec("F:"+mangle(key), t, nil)
	}
	w.structF[key] = out
	return out
}

func (w *World) leafAt(t types.Type, idx []int) (FieldInfo, bool) {
	for _, l := range w.leaves(t) {
		if len(l.Idx) == len(idx) {
			same := true
			for i := range idx {
				if idx[i] != l.Idx[i] {
					same = false
				}
			}
			if same {
				return l, true
			}
		}
	}
	return FieldInfo{}, false
}

func elemMem(w *World, t types.Type) string {
	n := mangle(w.tname(t))
	if n == "uint8" {
		n = "byte"
	}
	return "E:" + n
}

// implementers of an interface among the closed world
func (w *World) impls(it types.Type) []*IfaceCtor {
	i, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r []*IfaceCtor
	for _, c := range w.Ifaces {
		if !c.nilOnly && types.Implements(c.T, i) {
			r = append(r, c)
		}
	}
	return r
}

func (w *World) lookupType(name string) types.Type {
	if strings.HasPrefix(name, "*") {
		t := w.lookupType(name[1:])
		if t == nil {
			return nil
		}
		return types.NewPointer(t)
	}
	if strings.HasPrefix(name, "[]") {
		t := w.lookupType(name[2:])
		if t == nil {
			return nil
		}
		return types.NewSlice(t)
	}
	if o := w.TPkg.Scope().Lookup(name); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if o := types.Universe.Lookup(name); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if i := strings.IndexByte(name, '.'); i > 0 {
		pk, tn := name[:i], name[i+1:]
		for _, imp := range w.TPkg.Imports() {
			if imp.Name() == pk {
				if o := imp.Scope().Lookup(tn); o != nil {
					return o.Type()
				}
			}
		}
	}
	return nil
}

func repoDir() string {
	if d := os.Getenv("GVC_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func verifDir() string {
	if d := os.Getenv("GVC_HOME"); d != "" {
		return d
	}
	e, err := os.Executable()
	if err == nil {
		return filepath.Dir(filepath.Dir(e))
	}
	return "/verif"
}

func (w *World) fieldSort(typ, field string) string {
	t := w.lookupType(typ)
	if t == nil {
		panic(specErr("unknown type " + typ))
	}
	for _, l := range w.leaves(t) {
		if l.Path == "F:"+typ+"."+field {
			return w.sortOf(l.T)
		}
	}
	panic(specErr("no field " + typ + "." + field))
}
