package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Program struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	mu      sync.Mutex
	typesBy map[string]types.Type
}

// Interp executes one path of one harness.
type Interp struct {
	contracts map[*ssa.Function]*ssa.Function
	trk       *track // footprint of the running concurrent operation
	fk        *forks
	locked    int // locks held
	syn       map[synKey]*synState
	nMsg      int
	P         *Program
	globals   map[*ssa.Global]*Obj
	inited    map[*ssa.Package]int
	sizes     map[types.Type]int
	fieldOff  map[*types.Struct][]int
	steps     int64
	maxSteps  int64
	depth     int
	objID     int
	mapOrder  int
	touched   map[string]int64 // functions encoded -> instructions executed
	constC    map[*ssa.Const]Value
	S         *SymCtx
	H         *HCtx
	host      *hostState
	trace     bool
	thorough  bool
	panicAt   string
	spec      int // nesting of if-conversion
	slog      []undoCell
	specEnd   int64
	pdom      map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
	stack     []*ssa.Function
	curIn     []ssa.Instruction
}

func NewInterp(p *Program) *Interp {
	it := &Interp{P: p, globals: map[*ssa.Global]*Obj{}, inited: map[*ssa.Package]int{}, sizes: map[types.Type]int{},
		fieldOff: map[*types.Struct][]int{}, maxSteps: 4_000_000_000, touched: map[string]int64{}, constC: map[*ssa.Const]Value{}}
	it.S = newSymCtx(it)
	it.host = newHostState(it)
	it.trace = os.Getenv("SYMGO_TRACE") != ""
	return it
}

func isHostType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "math/big.Int", "math/big.Float", "math/big.Rat", "strings.Builder", "bytes.Buffer", "math/rand.Rand", "sync.Mutex", "sync.RWMutex", "sync.WaitGroup", "sync.Once", "sync.Map":
		return true
	}
	return false
}

func (it *Interp) sizeof(t types.Type) int {
	if s, ok := it.sizes[t]; ok {
		return s
	}
	var s int
	if isHostType(t) {
		s = 1
	} else {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				s += it.sizeof(u.Field(i).Type())
			}
		case *types.Array:
			s = int(u.Len()) * it.sizeof(u.Elem())
		case *types.Tuple:
			s = 1
		default:
			s = 1
		}
	}
	it.sizes[t] = s
	return s
}

func isAggT(t types.Type) bool {
	if isHostType(t) {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (it *Interp) foff(st *types.Struct, i int) int {
	o, ok := it.fieldOff[st]
	if !ok {
		o = make([]int, st.NumFields()+1)
		for k := 0; k < st.NumFields(); k++ {
			o[k+1] = o[k] + it.sizeof(st.Field(k).Type())
		}
		it.fieldOff[st] = o
	}
	return o[i]
}

func (it *Interp) newObj(n int) *Obj {
	it.objID++
	return &Obj{cells: make([]Value, n), id: it.objID}
}

func (it *Interp) zero(t types.Type) Value {
	if isAggT(t) {
		return Value{P: make(Agg, it.sizeof(t))}
	}
	return Value{}
}

func ptr(o *Obj, off int) Value { return Value{P: o, U: uint64(off)} }

func (it *Interp) rtPanic(f string, a ...any) {
	msg := "runtime error: " + fmt.Sprintf(f, a...)
	panic(targetPanic{v: Value{P: &Iface{t: types.Typ[types.String], v: vStr(msg)}}, msg: msg})
}

func (it *Interp) load(p Value, t types.Type) Value {
	if p.P == nil {
		it.rtPanic("invalid memory address or nil pointer dereference")
	}
	if sp, ok := p.P.(*symPtr); ok {
		return sp.load(it)
	}
	o := p.P.(*Obj)
	off := int(p.U)
	if isAggT(t) {
		n := it.sizeof(t)
		a := make(Agg, n)
		if off+n > len(o.cells) {
			unsupported("load outside object")
		}
		if it.trk != nil {
			it.mark(o, off, n, 1)
		}
		copy(a, o.cells[off:off+n])
		return Value{P: a}
	}
	if off >= len(o.cells) {
		unsupported("load outside object")
	}
	if it.trk != nil {
		it.mark(o, off, 1, 1)
	}
	return o.cells[off]
}

func (it *Interp) store(p Value, v Value) {
	if p.P == nil {
		it.rtPanic("invalid memory address or nil pointer dereference")
	}
	o, ok := p.P.(*Obj)
	if !ok {
		unsupported("store through symbolic pointer")
	}
	off := int(p.U)
	if a, ok := v.P.(Agg); ok {
		if off+len(a) > len(o.cells) {
			unsupported("store outside object")
		}
		if it.trk != nil {
			it.mark(o, off, len(a), 2)
		}
		if it.spec > 0 {
			for i := range a {
				it.logCell(o, off+i)
			}
		}
		copy(o.cells[off:off+len(a)], a)
		return
	}
	if off >= len(o.cells) {
		unsupported("store outside object")
	}
	if it.trk != nil {
		it.mark(o, off, 1, 2)
	}
	it.logCell(o, off)
	o.cells[off] = v
}

type frame struct {
	it        *Interp
	fn        *ssa.Function
	locals    map[ssa.Value]Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []deferred
	result    Value
	panicking bool
	pv        any
	recovered bool
	caller    *frame
	skipPhi   *ssa.BasicBlock
}

type deferred struct {
	fn     Value
	args   []Value
	common *ssa.CallCommon
}

func (it *Interp) global(g *ssa.Global) *Obj {
	if o, ok := it.globals[g]; ok {
		return o
	}
	t := g.Type().(*types.Pointer).Elem()
	o := it.newObj(it.sizeof(t))
	it.globals[g] = o
	it.ensureInit(g.Pkg)
	return o
}

func (it *Interp) ensureInit(p *ssa.Package) {
	if p == nil || it.inited[p] != 0 {
		return
	}
	it.inited[p] = 1
	p.Build()
	if f := p.Func("init"); f != nil && f.Blocks != nil {
		if !skipInit(p.Pkg.Path()) {
			it.callSSA(f, nil, nil, nil)
		}
	}
	it.inited[p] = 2
}

func normalisePkg(p string) bool {
	return p == "github.com/ldsec/lattigo/v2/ring" || p == "mk-lattigo/mkrlwe"
}

func skipInit(path string) bool {
	switch path {
	case "runtime", "unsafe", "os", "syscall", "time", "reflect", "sync", "internal/poll", "crypto/rand", "math/rand", "unicode", "fmt", "math", "math/cmplx", "math/big", "math/bits", "strings", "strconv", "bytes", "sort", "io", "vharness/vsym", "encoding/binary", "errors":
		return true
	}
	return strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "crypto") || strings.HasPrefix(path, "golang.org/x/crypto")
}

func (it *Interp) constVal(c *ssa.Const) Value {
	if v, ok := it.constC[c]; ok {
		if a, ok := v.P.(Agg); ok {
			return Value{P: append(Agg(nil), a...)}
		}
		return v
	}
	v := it.constVal0(c)
	it.constC[c] = v
	return v
}

func (it *Interp) constVal0(c *ssa.Const) Value {
	if c.Value == nil {
		return it.zero(c.Type())
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		unsupported("const of type %s", c.Type())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return vBool(constant.BoolVal(c.Value))
	case b.Info()&types.IsUnsigned != 0:
		return truncInt(Value{U: c.Uint64()}, b)
	case b.Info()&types.IsInteger != 0:
		return vInt(c.Int64())
	case b.Info()&types.IsFloat != 0:
		f := c.Float64()
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return vFloat(f)
	case b.Info()&types.IsComplex != 0:
		return Value{P: c.Complex128()}
	case b.Info()&types.IsString != 0:
		return vStr(constant.StringVal(c.Value))
	}
	unsupported("const %s", c)
	return Value{}
}

func (fr *frame) get(v ssa.Value) Value {
	switch v := v.(type) {
	case nil:
		return Value{}
	case *ssa.Const:
		return fr.it.constVal(v)
	case *ssa.Global:
		return ptr(fr.it.global(v), 0)
	case *ssa.Function:
		return Value{P: &FuncV{fn: v}}
	case *ssa.Builtin:
		return Value{P: v}
	}
	r, ok := fr.locals[v]
	if !ok {
		unsupported("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

// callSSA runs fn with args.
func (it *Interp) callSSA(fn *ssa.Function, args []Value, env []Value, caller *frame) Value {
	if it.spec > 0 && fn.Pkg != nil && it.inited[fn.Pkg] != 2 {
		it.specGuard()
	}
	if fn.Pkg != nil && it.inited[fn.Pkg] == 0 && !(fn.Name() == "init" && fn.Synthetic != "") {
		it.ensureInit(fn.Pkg)
	}
	name := fn.String()
	if c, ok := it.contracts[fn]; ok {
		if c == nil {
			unsupported("no contract for %s", name)
		}
		if c.Signature.Params().Len() != len(args) {
			unsupported("the contract for %s has another signature", name)
		}
		it.touched["contract:"+name]++
		fn = c
	}
	if f, ok := lookupIntrinsic(fn, name); ok {
		if !pureIntr[name] {
			it.specGuard()
		}
		it.touched["contract:"+name]++
		return f(it, fn, args)
	}
	if fn.Synthetic != "" && fn.Name() == "init" && fn.Pkg != nil {
		if it.inited[fn.Pkg] == 0 {
			return Value{} // lazily initialised
		}
		if it.inited[fn.Pkg] == 2 {
			return Value{}
		}
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil {
		unsupported("external function %s", name)
	}
	if strings.HasPrefix(name, "fmt.") || strings.HasPrefix(name, "(*fmt.") || strings.HasPrefix(name, "reflect.") || strings.HasPrefix(name, "crypto") || strings.HasPrefix(name, "runtime.") {
		unsupported("call to %s", name)
	}
	it.depth++
	if it.depth > 500 {
		unsupported("call depth")
	}
	if it.trace {
		fmt.Fprintln(os.Stderr, strings.Repeat(" ", it.depth), name)
	}
	it.stack = append(it.stack[:it.depth-1], fn)
	defer func() { it.depth-- }()
	if it.spec == 0 && fn.Pkg != nil && normalisePkg(fn.Pkg.Pkg.Path()) {
		it.normaliseArgs(fn, args)
	}
	fr := &frame{it: it, fn: fn, locals: make(map[ssa.Value]Value, 64), caller: caller}
	for i, p := range fn.Params {
		fr.locals[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.locals[fv] = env[i]
	}
	for _, l := range fn.Locals {
		fr.locals[l] = ptr(it.newObj(it.sizeof(l.Type().(*types.Pointer).Elem())), 0)
	}
	fr.block = fn.Blocks[0]
	s0 := it.steps
	for fr.block != nil {
		it.runFrame(fr)
	}
	it.touched[name] += it.steps - s0
	return fr.result
}

func (it *Interp) runFrame(fr *frame) {
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(targetPanic); !ok {
			panic(r) // Unsupported or host bug
		}
		fr.panicking = true
		fr.pv = r
		fr.runDefers()
		// recovered
		fr.block = fr.fn.Recover
		if fr.block == nil {
			fr.result = it.zeroResults(fr.fn)
		}
	}()
	for fr.block != nil {
		it.stepBlock(fr)
	}
}

// stepBlock executes one block of the frame.
func (it *Interp) stepBlock(fr *frame) {
	{
		b := fr.block
		// phis first
		np := 0
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				break
			}
			np++
		}
		if np > 0 && fr.skipPhi != b {
			vals := make([]Value, np)
			pi := -1
			for i, p := range b.Preds {
				if p == fr.prev {
					pi = i
					break
				}
			}
			for i := 0; i < np; i++ {
				vals[i] = fr.get(b.Instrs[i].(*ssa.Phi).Edges[pi])
			}
			for i := 0; i < np; i++ {
				fr.locals[b.Instrs[i].(*ssa.Phi)] = vals[i]
			}
		}
		fr.skipPhi = nil
		jumped := false
		for _, in := range b.Instrs[np:] {
			it.steps++
			switch in := in.(type) {
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
				case 1:
					fr.result = fr.get(in.Results[0])
				default:
					t := make(Tuple, len(in.Results))
					for i, r := range in.Results {
						t[i] = fr.get(r)
					}
					fr.result = Value{P: t}
				}
				fr.block = nil
				return
			case *ssa.Jump:
				fr.prev, fr.block = b, b.Succs[0]
				jumped = true
			case *ssa.If:
				c := fr.get(in.Cond)
				succ := 1
				if c.P != nil {
					sb, ok := c.P.(*SymBool)
					if !ok {
						unsupported("branch on %T", c.P)
					}
					if it.ifConvert(fr, b, sb) {
						return
					}
					if it.S.decide(sb) {
						succ = 0
					}
				} else if c.U != 0 {
					succ = 0
				}
				fr.prev, fr.block = b, b.Succs[succ]
				jumped = true
			default:
				it.exec(fr, in)
			}
			if jumped {
				break
			}
		}
		if it.steps > it.maxSteps {
			unsupported("step budget exhausted")
		}
		if !jumped {
			unsupported("fell off block")
		}
	}
}

func (it *Interp) zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return Value{}
	case 1:
		return it.zero(r.At(0).Type())
	}
	t := make(Tuple, r.Len())
	for i := range t {
		t[i] = it.zero(r.At(i).Type())
	}
	return Value{P: t}
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				if _, ok := r.(targetPanic); !ok {
					panic(r)
				}
				fr.panicking = true
				fr.pv = r
				fr.recovered = false
			}()
			fr.it.callDeferred(fr, d)
		}()
		if fr.recovered {
			fr.panicking = false
			fr.recovered = false
		}
	}
	if fr.panicking {
		panic(fr.pv)
	}
}

func (it *Interp) callDeferred(fr *frame, d deferred) {
	it.callValue(d.fn, d.args, fr)
}

// callValue calls a function value.
func (it *Interp) callValue(f Value, args []Value, caller *frame) Value {
	switch fv := f.P.(type) {
	case nil:
		it.rtPanic("invalid memory address or nil pointer dereference")
	case *FuncV:
		if fv.native != nil {
			it.specGuard()
			return fv.native(it, args)
		}
		return it.callSSA(fv.fn, args, fv.env, caller)
	case *ssa.Builtin:
		return it.builtin(caller, fv, args, nil)
	}
	unsupported("call of %T", f.P)
	return Value{}
}

func (it *Interp) doCall(fr *frame, c *ssa.CallCommon) Value {
	fn, args := it.prepCall(fr, c)
	if b, ok := fn.P.(*ssa.Builtin); ok {
		return it.builtin(fr, b, args, c)
	}
	return it.callValue(fn, args, fr)
}

func (it *Interp) prepCall(fr *frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	var fn Value
	if c.IsInvoke() {
		recv := fr.get(c.Value)
		if recv.P == nil {
			it.rtPanic("invalid memory address or nil pointer dereference")
		}
		itf := recv.P.(*Iface)
		m := it.findMethod(itf.t, c.Method)
		if m == nil {
			unsupported("method %s of %s", c.Method, itf.t)
		}
		fn = Value{P: &FuncV{fn: m}}
		args = append(args, itf.v)
	} else {
		fn = fr.get(c.Value)
	}
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	return fn, args
}

func (it *Interp) findMethod(t types.Type, m *types.Func) *ssa.Function {
	return it.P.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (it *Interp) exec(fr *frame, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		n := it.sizeof(in.Type().(*types.Pointer).Elem())
		if in.Heap {
			fr.locals[in] = ptr(it.newObj(n), 0)
		} else {
			o := fr.locals[in].P.(*Obj)
			for i := range o.cells {
				it.logCell(o, i)
				o.cells[i] = Value{}
			}
		}
	case *ssa.UnOp:
		fr.locals[in] = it.unop(fr, in)
	case *ssa.BinOp:
		fr.locals[in] = it.binop(in.Op, in.X.Type(), fr.get(in.X), fr.get(in.Y), in.Y.Type())
	case *ssa.Call:
		fr.locals[in] = it.doCall(fr, &in.Call)
	case *ssa.ChangeInterface:
		fr.locals[in] = fr.get(in.X)
	case *ssa.ChangeType:
		fr.locals[in] = fr.get(in.X)
	case *ssa.Convert:
		fr.locals[in] = it.convert(fr.get(in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		unsupported("multiconvert")
	case *ssa.SliceToArrayPointer:
		v := fr.get(in.X)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		s := v.slice()
		if s == nil {
			if n != 0 {
				it.rtPanic("cannot convert slice with length 0 to array")
			}
			fr.locals[in] = Value{}
			return
		}
		if s.len < n {
			it.rtPanic("cannot convert slice with length %d to array of length %d", s.len, n)
		}
		fr.locals[in] = ptr(s.obj, s.off)
	case *ssa.MakeInterface:
		v := fr.get(in.X)
		if a, ok := v.P.(Agg); ok {
			v = Value{P: append(Agg(nil), a...)}
		}
		fr.locals[in] = Value{P: &Iface{t: in.X.Type(), v: v}}
	case *ssa.Extract:
		fr.locals[in] = fr.get(in.Tuple).P.(Tuple)[in.Index]
	case *ssa.Slice:
		fr.locals[in] = it.slice(fr, in)
	case *ssa.MakeSlice:
		n := fr.get(in.Len).int()
		c := fr.get(in.Cap).int()
		if n < 0 || n > 1<<30 {
			it.rtPanic("makeslice: len out of range")
		}
		if c < n {
			it.rtPanic("makeslice: cap out of range")
		}
		es := it.sizeof(in.Type().Underlying().(*types.Slice).Elem())
		fr.locals[in] = Value{P: &SliceV{obj: it.newObj(c * es), len: n, cap: c, esz: es}}
	case *ssa.MakeMap:
		fr.locals[in] = Value{P: it.newMap()}
	case *ssa.MakeClosure:
		env := make([]Value, len(in.Bindings))
		for i, b := range in.Bindings {
			env[i] = fr.get(b)
		}
		fr.locals[in] = Value{P: &FuncV{fn: in.Fn.(*ssa.Function), env: env}}
	case *ssa.MapUpdate:
		it.specGuard()
		m := fr.get(in.Map)
		if m.P == nil {
			panic(targetPanic{msg: "assignment to entry in nil map", v: Value{P: &Iface{t: types.Typ[types.String], v: vStr("assignment to entry in nil map")}}})
		}
		k := fr.get(in.Key)
		it.markMap(m.P.(*MapV), 2)
		m.P.(*MapV).set(it.mapKey(k, in.Map.Type().Underlying().(*types.Map).Key()), k, fr.get(in.Value))
	case *ssa.Lookup:
		fr.locals[in] = it.lookup(fr, in)
	case *ssa.FieldAddr:
		p := fr.get(in.X)
		if p.P == nil {
			it.rtPanic("invalid memory address or nil pointer dereference")
		}
		st := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		fr.locals[in] = Value{P: p.P, U: p.U + uint64(it.foff(st, in.Field))}
	case *ssa.Field:
		a := fr.get(in.X).P.(Agg)
		st := in.X.Type().Underlying().(*types.Struct)
		o := it.foff(st, in.Field)
		ft := st.Field(in.Field).Type()
		fr.locals[in] = it.sub(a, o, ft)
	case *ssa.IndexAddr:
		fr.locals[in] = it.indexAddr(fr, in)
	case *ssa.Index:
		x := fr.get(in.X)
		i := fr.get(in.Index)
		if i.P != nil {
			unsupported("symbolic array index")
		}
		if a, ok := x.P.(Agg); ok {
			et := in.Type()
			es := it.sizeof(et)
			if int64(i.U) < 0 || int(i.U)*es >= len(a) {
				it.rtPanic("index out of range [%d]", int64(i.U))
			}
			fr.locals[in] = it.sub(a, int(i.U)*es, et)
			return
		}
		s := x.str()
		if int64(i.U) < 0 || int(i.U) >= len(s) {
			it.rtPanic("index out of range [%d] with length %d", int64(i.U), len(s))
		}
		fr.locals[in] = vUint(uint64(s[i.U]))
	case *ssa.Store:
		it.store(fr.get(in.Addr), fr.get(in.Val))
	case *ssa.TypeAssert:
		fr.locals[in] = it.typeAssert(in, fr.get(in.X))
	case *ssa.Range:
		it.specGuard()
		x := fr.get(in.X)
		switch m := x.P.(type) {
		case nil:
			_, isS := in.X.Type().Underlying().(*types.Basic)
			fr.locals[in] = Value{P: &mapIter{isS: isS}}
		case *MapV:
			it.markMap(m, 1)
			fr.locals[in] = Value{P: &mapIter{m: m, keys: it.orderKeys(m)}}
		case string:
			fr.locals[in] = Value{P: &mapIter{str: m, isS: true}}
		default:
			unsupported("range over %T", x.P)
		}
	case *ssa.Next:
		it.specGuard()
		fr.locals[in] = it.next(in, fr.get(in.Iter).P.(*mapIter))
	case *ssa.Panic:
		it.specGuard()
		v := fr.get(in.X)
		panic(targetPanic{v: v, msg: it.ifaceString(v)})
	case *ssa.Defer:
		it.specGuard()
		fn, args := it.prepCall(fr, &in.Call)
		fr.defers = append(fr.defers, deferred{fn: fn, args: args, common: &in.Call})
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Go:
		it.specGuard()
		fn, args := it.prepCall(fr, &in.Call)
		it.spawn(fn, args, fr, "the goroutine started in "+in.Parent().String())
	case *ssa.Select, *ssa.Send, *ssa.MakeChan:
		unsupported("concurrency: %s", in)
	default:
		unsupported("instruction %T", in)
	}
}

func (it *Interp) newMap() *MapV {
	it.objID++
	return &MapV{kv: map[any]Value{}, vals: map[any]Value{}, id: it.objID}
}

func (it *Interp) sub(a Agg, off int, t types.Type) Value {
	if isAggT(t) {
		n := it.sizeof(t)
		return Value{P: append(Agg(nil), a[off:off+n]...)}
	}
	return a[off]
}

func (it *Interp) ifaceString(v Value) string {
	if v.P == nil {
		return "nil"
	}
	i := v.P.(*Iface)
	if s, ok := i.v.P.(string); ok {
		return s
	}
	if b, ok := i.t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return fmt.Sprint(int64(i.v.U))
	}
	// error values
	if types.Implements(i.t, errorIface) {
		if m := it.P.prog.LookupMethod(i.t, nil, "Error"); m != nil {
			r := it.callSSA(m, []Value{i.v}, nil, nil)
			return r.str()
		}
	}
	return i.t.String()
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func (it *Interp) orderKeys(m *MapV) []any {
	ks := append([]any(nil), m.keys...)
	// permutation number mapOrder (mod len!) of the insertion order
	k := it.mapOrder
	for n := len(ks); n > 1; n-- {
		i := k % n
		k /= n
		x := ks[len(ks)-n+i]
		copy(ks[len(ks)-n+1:len(ks)-n+i+1], ks[len(ks)-n:len(ks)-n+i])
		ks[len(ks)-n] = x
	}
	return ks
}

func (it *Interp) next(in *ssa.Next, mi *mapIter) Value {
	if mi.isS {
		if mi.i >= len(mi.str) {
			return Value{P: Tuple{vBool(false), {}, {}}}
		}
		for _, r := range mi.str[mi.i:] {
			idx := mi.i
			mi.i += len(string(r))
			return Value{P: Tuple{vBool(true), vInt(int64(idx)), vInt(int64(r))}}
		}
	}
	for mi.i < len(mi.keys) {
		k := mi.keys[mi.i]
		mi.i++
		if v, ok := mi.m.vals[k]; ok {
			return Value{P: Tuple{vBool(true), mi.m.kv[k], v}}
		}
	}
	tt := in.Type().(*types.Tuple)
	z := func(t types.Type) Value {
		if t == nil || t == types.Typ[types.Invalid] {
			return Value{}
		}
		return it.zero(t)
	}
	return Value{P: Tuple{vBool(false), z(tt.At(1).Type()), z(tt.At(2).Type())}}
}

func (it *Interp) mapKey(k Value, t types.Type) any {
	switch p := k.P.(type) {
	case nil:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return ""
		}
		return k.U
	case string:
		return p
	case *Obj:
		return [2]any{p, k.U}
	case *Iface:
		return [2]any{p.t.String(), it.mapKey(p.v, p.t)}
	case Agg:
		s := ""
		for _, c := range p {
			s += fmt.Sprint(it.mapKey(c, types.Typ[types.Uint64])) + "|"
		}
		return "agg:" + s
	}
	unsupported("map key %T", k.P)
	return nil
}

func (it *Interp) lookup(fr *frame, in *ssa.Lookup) Value {
	x := fr.get(in.X)
	idx := fr.get(in.Index)
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := x.str()
		i := idx.int()
		if i < 0 || i >= len(s) {
			it.rtPanic("index out of range [%d] with length %d", i, len(s))
		}
		return vUint(uint64(s[i]))
	}
	mt := in.X.Type().Underlying().(*types.Map)
	var v Value
	ok := false
	if x.P != nil {
		it.markMap(x.P.(*MapV), 1)
		v, ok = x.P.(*MapV).vals[it.mapKey(idx, mt.Key())]
	}
	if !ok {
		v = it.zero(mt.Elem())
	} else if a, isA := v.P.(Agg); isA {
		v = Value{P: append(Agg(nil), a...)}
	}
	if in.CommaOk {
		return Value{P: Tuple{v, vBool(ok)}}
	}
	return v
}

func (it *Interp) indexAddr(fr *frame, in *ssa.IndexAddr) Value {
	x := fr.get(in.X)
	i := fr.get(in.Index)
	var es, n int
	var o *Obj
	var off int
	switch t := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.slice()
		if s == nil {
			if i.P == nil {
				it.rtPanic("index out of range [%d] with length 0", int64(i.U))
			}
			unsupported("symbolic index into nil slice")
		}
		es, n, o, off = it.sizeof(t.Elem()), s.len, s.obj, s.off
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		if x.P == nil {
			it.rtPanic("invalid memory address or nil pointer dereference")
		}
		es, n = it.sizeof(at.Elem()), int(at.Len())
		o, off = x.P.(*Obj), int(x.U)
	default:
		unsupported("indexaddr on %s", in.X.Type())
	}
	if i.P != nil {
		if es != 1 {
			unsupported("symbolic index into aggregate elements")
		}
		sw, ok := i.P.(*Sym)
		if !ok {
			unsupported("symbolic index %T", i.P)
		}
		return Value{P: &symPtr{obj: o, off: off, n: n, idx: sw}}
	}
	if int64(i.U) < 0 || int64(i.U) >= int64(n) {
		it.rtPanic("index out of range [%d] with length %d", int64(i.U), n)
	}
	return ptr(o, off+int(i.U)*es)
}

func (it *Interp) slice(fr *frame, in *ssa.Slice) Value {
	x := fr.get(in.X)
	lo, hi, mx := 0, -1, -1
	if in.Low != nil {
		lo = fr.get(in.Low).int()
	}
	if in.High != nil {
		hi = fr.get(in.High).int()
	}
	if in.Max != nil {
		mx = fr.get(in.Max).int()
	}
	switch t := in.X.Type().Underlying().(type) {
	case *types.Basic:
		s := x.str()
		if hi < 0 && in.High == nil {
			hi = len(s)
		}
		if lo < 0 || hi < lo || hi > len(s) {
			it.rtPanic("slice bounds out of range [%d:%d] with length %d", lo, hi, len(s))
		}
		return vStr(s[lo:hi])
	case *types.Slice:
		s := x.slice()
		if s == nil {
			if lo != 0 || hi > 0 || mx > 0 {
				it.rtPanic("slice bounds out of range [%d:%d] with capacity 0", lo, hi)
			}
			return Value{}
		}
		if in.High == nil {
			hi = s.len
		}
		if in.Max == nil {
			mx = s.cap
		}
		if lo < 0 || hi < lo || mx < hi || mx > s.cap {
			it.rtPanic("slice bounds out of range [%d:%d] with capacity %d", lo, hi, s.cap)
		}
		return Value{P: &SliceV{obj: s.obj, off: s.off + lo*s.esz, len: hi - lo, cap: mx - lo, esz: s.esz}}
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		if x.P == nil {
			it.rtPanic("invalid memory address or nil pointer dereference")
		}
		n := int(at.Len())
		if in.High == nil {
			hi = n
		}
		if in.Max == nil {
			mx = n
		}
		if lo < 0 || hi < lo || mx < hi || mx > n {
			it.rtPanic("slice bounds out of range [%d:%d] with capacity %d", lo, hi, n)
		}
		es := it.sizeof(at.Elem())
		return Value{P: &SliceV{obj: x.P.(*Obj), off: int(x.U) + lo*es, len: hi - lo, cap: mx - lo, esz: es}}
	}
	unsupported("slice of %s", in.X.Type())
	return Value{}
}

func (it *Interp) typeAssert(in *ssa.TypeAssert, x Value) Value {
	var ok bool
	var v Value
	if x.P != nil {
		i := x.P.(*Iface)
		if ai, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(i.t, ai)
			v = x
		} else {
			ok = types.Identical(i.t, in.AssertedType)
			v = i.v
		}
	}
	if !ok {
		if in.CommaOk {
			return Value{P: Tuple{it.zero(in.AssertedType), vBool(false)}}
		}
		it.rtPanic("interface conversion to %s", in.AssertedType)
	}
	if a, isA := v.P.(Agg); isA {
		v = Value{P: append(Agg(nil), a...)}
	}
	if in.CommaOk {
		return Value{P: Tuple{v, vBool(true)}}
	}
	return v
}

func (it *Interp) builtin(fr *frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "len", "cap", "min", "max":
	default:
		it.specGuard()
	}
	switch b.Name() {
	case "len":
		switch p := args[0].P.(type) {
		case nil:
			return vInt(0)
		case *SliceV:
			return vInt(int64(p.len))
		case string:
			return vInt(int64(len(p)))
		case *MapV:
			it.markMap(p, 1)
			return vInt(int64(len(p.vals)))
		case Agg, *Obj:
			t := c.Args[0].Type().Underlying()
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem().Underlying()
			}
			return vInt(t.(*types.Array).Len())
		}
	case "cap":
		switch p := args[0].P.(type) {
		case nil:
			return vInt(0)
		case *SliceV:
			return vInt(int64(p.cap))
		}
	case "append":
		s := args[0].slice()
		var src []Value
		n := 0
		es := 1
		if c != nil {
			es = it.sizeof(c.Args[0].Type().Underlying().(*types.Slice).Elem())
		}
		switch p := args[1].P.(type) {
		case nil:
		case *SliceV:
			it.rd(p, p.len)
			src = append([]Value(nil), p.obj.cells[p.off:p.off+p.len*p.esz]...)
			n = p.len
		case string:
			for i := 0; i < len(p); i++ {
				src = append(src, vUint(uint64(p[i])))
			}
			n = len(p)
		}
		if s == nil {
			if n == 0 {
				return args[0]
			}
			o := it.newObj(n * es)
			copy(o.cells, src)
			return Value{P: &SliceV{obj: o, len: n, cap: n, esz: es}}
		}
		if s.len+n <= s.cap {
			it.mark(s.obj, s.off+s.len*es, n*es, 2)
			copy(s.obj.cells[s.off+s.len*es:], src)
			return Value{P: &SliceV{obj: s.obj, off: s.off, len: s.len + n, cap: s.cap, esz: es}}
		}
		nc := 2*s.cap + n
		it.rd(s, s.len)
		o := it.newObj(nc * es)
		copy(o.cells, s.obj.cells[s.off:s.off+s.len*es])
		copy(o.cells[s.len*es:], src)
		return Value{P: &SliceV{obj: o, len: s.len + n, cap: nc, esz: es}}
	case "copy":
		d := args[0].slice()
		if d == nil {
			return vInt(0)
		}
		var src []Value
		n := 0
		switch p := args[1].P.(type) {
		case nil:
		case *SliceV:
			n = p.len
			src = p.obj.cells[p.off : p.off+p.len*p.esz]
		case string:
			n = len(p)
			for i := 0; i < n; i++ {
				src = append(src, vUint(uint64(p[i])))
			}
		}
		if d.len < n {
			n = d.len
		}
		it.wr(d, n)
		if p, ok := args[1].P.(*SliceV); ok {
			it.rd(p, n)
		}
		copy(d.obj.cells[d.off:d.off+n*d.esz], src[:n*d.esz])
		return vInt(int64(n))
	case "delete":
		if args[0].P != nil {
			it.markMap(args[0].P.(*MapV), 2)
			args[0].P.(*MapV).del(it.mapKey(args[1], c.Args[0].Type().Underlying().(*types.Map).Key()))
		}
		return Value{}
	case "clear":
		if m, ok := args[0].P.(*MapV); ok {
			it.markMap(m, 2)
			id := m.id
			*m = *it.newMap()
			m.id = id
		} else if s := args[0].slice(); s != nil {
			it.wr(s, s.len)
			for i := s.off; i < s.off+s.len*s.esz; i++ {
				s.obj.cells[i] = Value{}
			}
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "recover":
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			fr.caller.recovered = true
			pv := fr.caller.pv.(targetPanic)
			if pv.v.P == nil {
				return Value{P: &Iface{t: types.Typ[types.String], v: vStr(pv.msg)}}
			}
			return pv.v
		}
		return Value{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			if it.binop(op, c.Args[0].Type(), a, r, c.Args[0].Type()).bool() {
				r = a
			}
		}
		return r
	case "real":
		return vFloat(real(args[0].P.(complex128)))
	case "imag":
		return vFloat(imag(args[0].P.(complex128)))
	case "complex":
		return Value{P: complex(args[0].f64(), args[1].f64())}
	case "ssa:wrapnilchk":
		if args[0].P == nil {
			it.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return Value{}
	}
	unsupported("builtin %s", b.Name())
	return Value{}
}

func cplx(v Value) complex128 {
	if v.P == nil {
		return 0
	}
	return v.P.(complex128)
}

func truncInt(v Value, b *types.Basic) Value {
	if v.P != nil {
		return v
	}
	switch b.Kind() {
	case types.Int8:
		v.U = uint64(int64(int8(v.U)))
	case types.Int16:
		v.U = uint64(int64(int16(v.U)))
	case types.Int32, types.UntypedRune:
		v.U = uint64(int64(int32(v.U)))
	case types.Uint8:
		v.U = uint64(uint8(v.U))
	case types.Uint16:
		v.U = uint64(uint16(v.U))
	case types.Uint32:
		v.U = uint64(uint32(v.U))
	}
	return v
}

func (it *Interp) unop(fr *frame, in *ssa.UnOp) Value {
	x := fr.get(in.X)
	switch in.Op {
	case token.MUL:
		return it.load(x, in.Type())
	case token.NOT:
		if x.P != nil {
			return Value{P: x.P.(*SymBool).not()}
		}
		return vBool(x.U == 0)
	case token.SUB:
		b := in.Type().Underlying().(*types.Basic)
		if b.Info()&types.IsComplex != 0 {
			return Value{P: -cplx(x)}
		}
		if b.Info()&types.IsFloat != 0 {
			if x.P != nil {
				unsupported("symbolic float negation")
			}
			return vFloat(-x.f64())
		}
		if x.P != nil {
			return it.S.symArith(token.SUB, Value{}, x)
		}
		return truncInt(Value{U: -x.U}, b)
	case token.XOR:
		if x.P != nil {
			return it.S.symArith(token.SUB, Value{U: ^uint64(0)}, x)
		}
		return truncInt(Value{U: ^x.U}, in.Type().Underlying().(*types.Basic))
	}
	unsupported("unop %s", in.Op)
	return Value{}
}

func (it *Interp) eq(t types.Type, x, y Value) Value {
	if isAggT(t) {
		a, b := x.P.(Agg), y.P.(Agg)
		for i := range a {
			if !sameCell(a[i], b[i]) {
				return vBool(false)
			}
		}
		return vBool(true)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return vBool(x.str() == y.str())
		}
		if u.Info()&types.IsFloat != 0 {
			return vBool(x.f64() == y.f64())
		}
		if u.Info()&types.IsComplex != 0 {
			return vBool(cplx(x) == cplx(y))
		}
		if x.P != nil || y.P != nil {
			if _, ok := x.P.(*Obj); !ok {
				if _, ok := y.P.(*Obj); !ok {
					return it.S.symCmp(token.EQL, x, y)
				}
			}
		}
		return vBool(x.U == y.U && x.P == y.P)
	case *types.Interface:
		if x.P == nil || y.P == nil {
			return vBool(x.P == nil && y.P == nil)
		}
		a, b := x.P.(*Iface), y.P.(*Iface)
		if !types.Identical(a.t, b.t) {
			return vBool(false)
		}
		return it.eq(a.t, a.v, b.v)
	case *types.Pointer, *types.Chan:
		return vBool(x.P == y.P && (x.P == nil || x.U == y.U))
	case *types.Slice, *types.Map, *types.Signature:
		return vBool(x.P == nil && y.P == nil)
	}
	unsupported("== on %s", t)
	return Value{}
}

func sameCell(a, b Value) bool {
	if a.U != b.U {
		return false
	}
	if a.P == nil && b.P == nil {
		return true
	}
	switch a.P.(type) {
	case string, *Obj, *Sym, nil:
		return a.P == b.P
	}
	return a.P == b.P
}

func (it *Interp) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	switch op {
	case token.EQL:
		return it.eqV(t, x, y, yt)
	case token.NEQ:
		r := it.eqV(t, x, y, yt)
		if r.P != nil {
			return Value{P: r.P.(*SymBool).not()}
		}
		return vBool(r.U == 0)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		unsupported("binop %s on %s", op, t)
	}
	info := b.Info()
	if info&types.IsString != 0 {
		a, c := x.str(), y.str()
		switch op {
		case token.ADD:
			return vStr(a + c)
		case token.LSS:
			return vBool(a < c)
		case token.LEQ:
			return vBool(a <= c)
		case token.GTR:
			return vBool(a > c)
		case token.GEQ:
			return vBool(a >= c)
		}
	}
	if info&types.IsComplex != 0 {
		a, c := cplx(x), cplx(y)
		switch op {
		case token.ADD:
			return Value{P: a + c}
		case token.SUB:
			return Value{P: a - c}
		case token.MUL:
			return Value{P: a * c}
		case token.QUO:
			return Value{P: a / c}
		}
	}
	if info&types.IsFloat != 0 {
		if x.P != nil || y.P != nil {
			return it.S.floatArith(op, x, y)
		}
		a, c := x.f64(), y.f64()
		var r float64
		switch op {
		case token.ADD:
			r = a + c
		case token.SUB:
			r = a - c
		case token.MUL:
			r = a * c
		case token.QUO:
			r = a / c
		case token.LSS:
			return vBool(a < c)
		case token.LEQ:
			return vBool(a <= c)
		case token.GTR:
			return vBool(a > c)
		case token.GEQ:
			return vBool(a >= c)
		}
		if b.Kind() == types.Float32 {
			r = float64(float32(r))
		}
		return vFloat(r)
	}
	if info&types.IsBoolean != 0 {
		unsupported("bool binop %s", op)
	}
	if x.P != nil || y.P != nil {
		if info&types.IsUnsigned == 0 {
			return it.S.signedArith(op, x, y)
		}
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return it.S.symCmp(op, x, y)
		}
		return it.S.symArith(op, x, y)
	}
	uns := info&types.IsUnsigned != 0
	a, c := x.U, y.U
	var r uint64
	switch op {
	case token.ADD:
		r = a + c
	case token.SUB:
		r = a - c
	case token.MUL:
		r = a * c
	case token.QUO, token.REM:
		if c == 0 {
			it.rtPanic("integer divide by zero")
		}
		if uns {
			if op == token.QUO {
				r = a / c
			} else {
				r = a % c
			}
		} else {
			if int64(c) == -1 {
				if op == token.QUO {
					r = -a
				}
			} else if op == token.QUO {
				r = uint64(int64(a) / int64(c))
			} else {
				r = uint64(int64(a) % int64(c))
			}
		}
	case token.AND:
		r = a & c
	case token.OR:
		r = a | c
	case token.XOR:
		r = a ^ c
	case token.AND_NOT:
		r = a &^ c
	case token.SHL, token.SHR:
		if yb := yt.Underlying().(*types.Basic); yb.Info()&types.IsUnsigned == 0 && int64(c) < 0 {
			it.rtPanic("negative shift amount")
		}
		if op == token.SHL {
			if c >= 64 {
				r = 0
			} else {
				r = a << c
			}
		} else if uns {
			if c >= 64 {
				r = 0
			} else {
				r = a >> c
			}
		} else {
			if c > 63 {
				c = 63
			}
			r = uint64(int64(a) >> c)
		}
	case token.LSS:
		if uns {
			return vBool(a < c)
		}
		return vBool(int64(a) < int64(c))
	case token.LEQ:
		if uns {
			return vBool(a <= c)
		}
		return vBool(int64(a) <= int64(c))
	case token.GTR:
		if uns {
			return vBool(a > c)
		}
		return vBool(int64(a) > int64(c))
	case token.GEQ:
		if uns {
			return vBool(a >= c)
		}
		return vBool(int64(a) >= int64(c))
	default:
		unsupported("binop %s", op)
	}
	return truncInt(Value{U: r}, b)
}

func (it *Interp) eqV(t types.Type, x, y Value, yt types.Type) Value {
	// interface vs concrete comparison is lowered to MakeInterface by go/ssa
	return it.eq(t, x, y)
}

func (it *Interp) convert(x Value, from, to types.Type) Value {
	ft, tt := from.Underlying(), to.Underlying()
	switch f := ft.(type) {
	case *types.Pointer:
		return x // to unsafe.Pointer
	case *types.Slice: // []byte / []rune -> string
		s := x.slice()
		if s == nil {
			return Value{}
		}
		if f.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
			bs := make([]byte, s.len)
			for i := range bs {
				bs[i] = byte(s.obj.cells[s.off+i].U)
			}
			return vStr(string(bs))
		}
		rs := make([]rune, s.len)
		for i := range rs {
			rs[i] = rune(s.obj.cells[s.off+i].U)
		}
		return vStr(string(rs))
	case *types.Basic:
		if f.Kind() == types.UnsafePointer {
			return x
		}
		if f.Info()&types.IsString != 0 {
			switch t := tt.(type) {
			case *types.Slice:
				if t.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
					o := it.newObj(len(x.str()))
					for i, c := range []byte(x.str()) {
						o.cells[i] = vUint(uint64(c))
					}
					return Value{P: &SliceV{obj: o, len: len(x.str()), cap: len(x.str()), esz: 1}}
				}
				rs := []rune(x.str())
				o := it.newObj(len(rs))
				for i, c := range rs {
					o.cells[i] = vInt(int64(c))
				}
				return Value{P: &SliceV{obj: o, len: len(rs), cap: len(rs), esz: 1}}
			}
			return x
		}
		t, ok := tt.(*types.Basic)
		if !ok {
			unsupported("convert %s to %s", from, to)
		}
		if t.Info()&types.IsString != 0 { // rune -> string
			return vStr(string(rune(x.U)))
		}
		fi, ti := f.Info(), t.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			if x.P != nil {
				return it.S.symConvInt(x, f, t)
			}
			return truncInt(x, t)
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			if x.P != nil {
				return it.S.toFloat(x, fi&types.IsUnsigned != 0)
			}
			var r float64
			if fi&types.IsUnsigned != 0 {
				r = float64(x.U)
			} else {
				r = float64(int64(x.U))
			}
			if t.Kind() == types.Float32 {
				r = float64(float32(r))
			}
			return vFloat(r)
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			if x.P != nil {
				return it.S.floatToInt(x, t)
			}
			v := x.f64()
			if ti&types.IsUnsigned != 0 {
				return truncInt(vUint(f2u(v)), t)
			}
			return truncInt(vInt(int64(v)), t)
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if t.Kind() == types.Float32 {
				return vFloat(float64(float32(x.f64())))
			}
			return x
		case fi&types.IsComplex != 0:
			return x
		}
	}
	unsupported("convert %s to %s", from, to)
	return Value{}
}

func f2u(v float64) uint64 { return uint64(v) }

var _ = math.Abs
var _ = big.NewInt
