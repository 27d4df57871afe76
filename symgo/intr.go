package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/cmplx"
	"math/bits"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"github.com/ldsec/lattigo/v2/ring"
	"golang.org/x/tools/go/ssa"
)

type intrFn func(it *Interp, fn *ssa.Function, a []Value) Value

const ringPath = "github.com/ldsec/lattigo/v2/ring."
const ringMeth = "(*github.com/ldsec/lattigo/v2/ring."

type hostState struct {
	rings  map[*Obj]*ring.Ring
	prngs  int
	nttQ   map[string]*nttInfo
	encLog []*encRec
}

type nttInfo struct {
	q          uint64
	n          int
	psi, psiIn []uint64
	nInv       uint64
	r          *ring.Ring
}

func newHostState(it *Interp) *hostState {
	return &hostState{rings: map[*Obj]*ring.Ring{}, nttQ: map[string]*nttInfo{}}
}

var intrTab = map[string]intrFn{}

func reg(name string, f intrFn) { intrTab[name] = f }

func lookupIntrinsic(fn *ssa.Function, name string) (intrFn, bool) {
	if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
		return nil, false
	}
	if f, ok := intrTab[name]; ok {
		return f, true
	}
	if strings.HasPrefix(name, "(*math/big.") || strings.HasPrefix(name, "math/big.") {
		return hostCall, true
	}
	if strings.HasPrefix(name, "math.") || strings.HasPrefix(name, "math/cmplx.") || strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "(*strings.Builder") || strings.HasPrefix(name, "strconv.") {
		return hostCall, true
	}
	return nil, false
}

// ---- native bridging ------------------------------------------------------------------------

var hostFuncs = map[string]any{
	"math/big.NewInt": big.NewInt, "math/big.NewFloat": big.NewFloat, "math/big.NewRat": big.NewRat,
	"math.Abs": math.Abs, "math.Ceil": math.Ceil, "math.Floor": math.Floor, "math.Log2": math.Log2, "math.Log": math.Log, "math.Pow": math.Pow,
	"math.Round": math.Round, "math.Sqrt": math.Sqrt, "math.Exp": math.Exp, "math.Exp2": math.Exp2, "math.Cos": math.Cos, "math.Sin": math.Sin,
	"math.Max": math.Max, "math.Min": math.Min, "math.Float64bits": math.Float64bits, "math.Float64frombits": math.Float64frombits,
	"math.Float32bits": math.Float32bits, "math.Float32frombits": math.Float32frombits, "math.IsNaN": math.IsNaN, "math.IsInf": math.IsInf, "math.Inf": math.Inf,
	"math.Mod": math.Mod, "math.Trunc": math.Trunc, "math.Modf": math.Modf, "math.NaN": math.NaN, "math.Signbit": math.Signbit,
	"strings.Contains": strings.Contains, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Join": strings.Join,
	"strings.Repeat": strings.Repeat, "strings.ToLower": strings.ToLower, "strings.TrimSpace": strings.TrimSpace, "strings.Split": strings.Split,
	"strings.Compare": strings.Compare, "strings.Index": strings.Index, "strings.LastIndex": strings.LastIndex, "strings.Count": strings.Count,
	"strings.ToUpper": strings.ToUpper, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Trim": strings.Trim,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.EqualFold": strings.EqualFold, "strings.Fields": strings.Fields, "strings.SplitN": strings.SplitN, "strings.Title": strings.Title,
	"strings.ContainsRune": strings.ContainsRune, "strings.IndexByte": strings.IndexByte, "strings.ContainsAny": strings.ContainsAny,
	"strconv.Itoa": strconv.Itoa, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint, "strconv.Quote": strconv.Quote,
	"strconv.FormatFloat": strconv.FormatFloat, "strconv.FormatBool": strconv.FormatBool,
	"math.Hypot": math.Hypot, "math.RoundToEven": math.RoundToEven, "math.Ldexp": math.Ldexp, "math.Frexp": math.Frexp, "math.Log10": math.Log10,
	"math.Log1p": math.Log1p, "math.Cbrt": math.Cbrt, "math.Remainder": math.Remainder, "math.Copysign": math.Copysign, "math.Atan2": math.Atan2,
	"math.Tan": math.Tan, "math.Nextafter": math.Nextafter, "math.FMA": math.FMA, "math.Dim": math.Dim, "math.Ilogb": math.Ilogb, "math.Logb": math.Logb,
	"math/cmplx.Abs": cmplx.Abs, "math/cmplx.Conj": cmplx.Conj, "math/cmplx.IsNaN": cmplx.IsNaN, "math/cmplx.Phase": cmplx.Phase, "math/cmplx.Exp": cmplx.Exp, "math/cmplx.Polar": cmplx.Polar,
}

func hostCall(it *Interp, fn *ssa.Function, args []Value) Value {
	name := fn.String()
	var f reflect.Value
	sig := fn.Signature
	if recv := sig.Recv(); recv != nil {
		rt := hostReflectType(recv.Type())
		if rt == nil {
			unsupported("host method %s", name)
		}
		m, ok := rt.MethodByName(fn.Name())
		if !ok {
			unsupported("host method %s", name)
		}
		f = m.Func
	} else {
		h, ok := hostFuncs[name]
		if !ok {
			unsupported("host function %s", name)
		}
		f = reflect.ValueOf(h)
	}
	ft := f.Type()
	in := make([]reflect.Value, len(args))
	back := map[uintptr]Value{}
	for i, a := range args {
		pt := ft.In(i)
		in[i] = it.toHost(a, pt)
		if pt.Kind() == reflect.Ptr && a.P != nil {
			back[in[i].Pointer()] = a
			it.markPtr(a, 1)
		}
	}
	var out []reflect.Value
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(Unsupported); ok {
					panic(u)
				}
				it.rtPanic("%v", r)
			}
		}()
		if ft.IsVariadic() {
			out = f.CallSlice(in)
		} else {
			out = f.Call(in)
		}
	}()
	res := make(Tuple, len(out))
	for i, o := range out {
		if o.Kind() == reflect.Ptr && !o.IsNil() {
			if v, ok := back[o.Pointer()]; ok {
				it.markPtr(v, 2)
				res[i] = v
				continue
			}
		}
		res[i] = it.fromHost(o, sig.Results().At(i).Type())
	}
	switch len(res) {
	case 0:
		return Value{}
	case 1:
		return res[0]
	}
	return Value{P: res}
}

func hostReflectType(t types.Type) reflect.Type {
	switch t.String() {
	case "*math/big.Int":
		return reflect.TypeOf((*big.Int)(nil))
	case "*math/big.Float":
		return reflect.TypeOf((*big.Float)(nil))
	case "*math/big.Rat":
		return reflect.TypeOf((*big.Rat)(nil))
	case "*strings.Builder":
		return reflect.TypeOf((*strings.Builder)(nil))
	}
	return nil
}

func (it *Interp) toHost(v Value, t reflect.Type) reflect.Value {
	switch v.P.(type) {
	case *Sym, *SymF, *SymBool:
		unsupported("symbolic value passed to host code")
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		r := reflect.New(t).Elem()
		r.SetInt(int64(v.U))
		return r
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		r := reflect.New(t).Elem()
		r.SetUint(v.U)
		return r
	case reflect.Float64, reflect.Float32:
		r := reflect.New(t).Elem()
		r.SetFloat(v.f64())
		return r
	case reflect.Bool:
		return reflect.ValueOf(v.U != 0)
	case reflect.String:
		return reflect.ValueOf(v.str())
	case reflect.Ptr:
		if v.P == nil {
			return reflect.Zero(t)
		}
		o, ok := v.P.(*Obj)
		if !ok {
			unsupported("host pointer %T", v.P)
		}
		c := &o.cells[v.U]
		if c.P == nil {
			c.P = reflect.New(t.Elem()).Interface()
		}
		r := reflect.ValueOf(c.P)
		if r.Type() != t {
			unsupported("host pointer type %s", r.Type())
		}
		return r
	case reflect.Slice:
		s := v.slice()
		if s == nil {
			return reflect.Zero(t)
		}
		r := reflect.MakeSlice(t, s.len, s.len)
		for i := 0; i < s.len; i++ {
			r.Index(i).Set(it.toHost(s.obj.cells[s.off+i], t.Elem()))
		}
		return r
	}
	unsupported("host argument of type %s", t)
	return reflect.Value{}
}

func (it *Interp) fromHost(o reflect.Value, t types.Type) Value {
	switch o.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return vInt(o.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return vUint(o.Uint())
	case reflect.Float64, reflect.Float32:
		return vFloat(o.Float())
	case reflect.Bool:
		return vBool(o.Bool())
	case reflect.String:
		return vStr(o.String())
	case reflect.Complex128:
		return Value{P: o.Complex()}
	case reflect.Ptr:
		if o.IsNil() {
			return Value{}
		}
		ob := it.newObj(1)
		ob.cells[0] = Value{P: o.Interface()}
		return ptr(ob, 0)
	case reflect.Slice:
		if o.IsNil() {
			return Value{}
		}
		st := t.Underlying().(*types.Slice)
		es := it.sizeof(st.Elem())
		ob := it.newObj(es * o.Len())
		for i := 0; i < o.Len(); i++ {
			ob.cells[i] = it.fromHost(o.Index(i), st.Elem())
		}
		return Value{P: &SliceV{obj: ob, len: o.Len(), cap: o.Len(), esz: es}}
	case reflect.Interface:
		if o.IsNil() {
			return Value{}
		}
	}
	unsupported("host result of type %s", o.Type())
	return Value{}
}

// importValue copies a native value (lattigo ring.Ring) into interpreter memory.
func (it *Interp) importValue(rv reflect.Value, t types.Type, dst []Value, memo map[uintptr]Value) {
	if isHostType(t) {
		unsupported("import of host struct")
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := rv.FieldByName(u.Field(i).Name())
			if !f.CanInterface() && f.CanAddr() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			o := it.foff(u, i)
			it.importValue(f, u.Field(i).Type(), dst[o:o+it.sizeof(u.Field(i).Type())], memo)
		}
	case *types.Slice:
		if rv.IsNil() {
			dst[0] = Value{}
			return
		}
		es := it.sizeof(u.Elem())
		ob := it.newObj(es * rv.Len())
		for i := 0; i < rv.Len(); i++ {
			it.importValue(rv.Index(i), u.Elem(), ob.cells[i*es:(i+1)*es], memo)
		}
		dst[0] = Value{P: &SliceV{obj: ob, len: rv.Len(), cap: rv.Len(), esz: es}}
	case *types.Pointer:
		if rv.IsNil() {
			dst[0] = Value{}
			return
		}
		if v, ok := memo[rv.Pointer()]; ok {
			dst[0] = v
			return
		}
		if isHostType(u.Elem()) {
			ob := it.newObj(1)
			ob.cells[0] = Value{P: rv.Interface()}
			dst[0] = ptr(ob, 0)
			return
		}
		ob := it.newObj(it.sizeof(u.Elem()))
		v := ptr(ob, 0)
		memo[rv.Pointer()] = v
		it.importValue(rv.Elem(), u.Elem(), ob.cells, memo)
		dst[0] = v
	case *types.Basic:
		dst[0] = it.fromHost(rv, t)
	default:
		unsupported("import of %s", t)
	}
}

// ---- words and rows ---------------------------------------------------------------------------

func (it *Interp) sliceCells(v Value) []Value {
	s := v.slice()
	if s == nil {
		return nil
	}
	it.rd(s, s.len)
	return s.obj.cells[s.off : s.off+s.len*s.esz]
}

func (it *Interp) conU64(v Value) []uint64 {
	c := it.sliceCells(v)
	r := make([]uint64, len(c))
	for i, x := range c {
		if x.P != nil {
			unsupported("symbolic constant table")
		}
		r[i] = x.U
	}
	return r
}

func allConc(ws []Value) bool {
	for _, w := range ws {
		if w.P != nil {
			return false
		}
	}
	return true
}

// fastRow recognises a vector that is exactly one row.
func fastRow(ws []Value) *Row {
	var r *Row
	for j, w := range ws {
		y, ok := w.P.(*Sym)
		if !ok || len(y.t) != 1 || len(y.t[0].w) != 1 || y.k.n.Sign() != 0 {
			return nil
		}
		a := y.t[0].w[0]
		if a.row == nil || a.idx != j || y.t[0].c.e != 0 || y.t[0].c.n.Cmp(bOne) != 0 {
			return nil
		}
		if j == 0 {
			r = a.row
		} else if a.row != r {
			return nil
		}
	}
	return r
}

// liftRow reads a vector of words as a row modulo q.
func (s *SymCtx) liftRow(ws []Value, q uint64, defDom int) *Row {
	if len(ws) != s.N {
		unsupported("row of %d words in a ring of degree %d", len(ws), s.N)
	}
	if r := fastRow(ws); r != nil {
		if r.m == q {
			return r
		}
		return s.crossRow(r, q)
	}
	if allConc(ws) {
		c := make([]uint64, len(ws))
		canon := true
		hi := uint64(0)
		for i, w := range ws {
			c[i] = w.U
			if w.U >= q {
				canon = false
			}
			if w.U > hi {
				hi = w.U
			}
		}
		var nf *NF
		if defDom == domNTT {
			nf = s.nfPoly(q, s.it.invNTTConc(c, q))
		} else {
			nf = s.nfPoly(q, c)
		}
		if canon {
			return s.canonRow(nf, defDom)
		}
		return s.lazyRow(nf, defDom, fmt.Sprintf("conc%v", c), bZero, bu(hi))
	}
	// general pointwise form
	var key strings.Builder
	fmt.Fprintf(&key, "L%x|%d|", q, defDom)
	syms := make([]*Sym, len(ws))
	lo, hi := (*big.Int)(nil), (*big.Int)(nil)
	for j, w := range ws {
		syms[j] = s.exact(s.toSym(w))
		key.WriteString(syms[j].Key())
		key.WriteByte(';')
		if lo == nil || syms[j].lo.Cmp(lo) < 0 {
			lo = syms[j].lo
		}
		if hi == nil || syms[j].hi.Cmp(hi) > 0 {
			hi = syms[j].hi
		}
	}
	if r, ok := s.rowOps[key.String()]; ok {
		return r
	}
	nf, dom, why := s.liftGeneral(syms, q, defDom)
	var r *Row
	if nf == nil && why == "unreduced word" {
		// words reduced (lazily) modulo another prime: read them there, then as integers modulo q
		if m := s.ownMod(syms); m != 0 && m != q {
			if r0 := s.liftRow(ws, m, domCoef); r0.m == m && r0.dom == domCoef && r0.nf != nil {
				r = s.crossRow(r0, q)
				s.rowOps[key.String()] = r
				return r
			}
		}
	}
	if nf == nil {
		r = s.opaqueRow(q, defDom, "row:"+why)
	} else if hi.Cmp(bu(q)) < 0 {
		r = s.canonRow(nf, dom)
	} else {
		r = s.lazyRow(nf, dom, key.String(), lo, hi)
	}
	s.rowOps[key.String()] = r
	return r
}

// ownMod is the prime modulo which the words have no unreduced part, if there is one.
func (s *SymCtx) ownMod(syms []*Sym) uint64 {
	g := new(big.Int)
	for _, w := range syms {
		for _, t := range w.t {
			for _, a := range t.w {
				if a.row == nil {
					g.GCD(nil, nil, g, new(big.Int).Abs(t.c.n))
				}
			}
		}
	}
	if g.Sign() == 0 {
		return 0
	}
	for g.Bit(0) == 0 {
		g.Rsh(g, 1)
	}
	if g.IsUint64() && g.BitLen() > 20 && g.ProbablyPrime(10) {
		return g.Uint64()
	}
	return 0
}

func (s *SymCtx) crossRow(r *Row, q uint64) *Row {
	if r.dom != domCoef {
		return s.opaqueRow(q, r.dom, "NTT words used across moduli")
	}
	nf := s.atomNF(s.intAtom(r), q)
	if r.hi.Cmp(bu(q)) < 0 {
		return s.canonRow(nf, domCoef)
	}
	return s.lazyRow(nf, domCoef, fmt.Sprintf("x|%d", r.id), r.lo, r.hi)
}

func (s *SymCtx) liftGeneral(syms []*Sym, q uint64, defDom int) (*NF, int, string) {
	nf, dom, why := s.liftGeneral0(syms, q, defDom, false)
	if nf == nil {
		if nf, dom, why2 := s.liftGeneral0(syms, q, defDom, true); nf != nil {
			return nf, dom, why2
		}
	}
	return nf, dom, why
}

// liftGeneral0: with group, the words of rows whose polynomials are multiples of one another (x and
// its canonical negation, say) count as words of one row.
func (s *SymCtx) liftGeneral0(syms []*Sym, q uint64, defDom int, group bool) (*NF, int, string) {
	dom := 0
	for _, w := range syms {
		for _, t := range w.t {
			for _, a := range t.w {
				if a.row == nil {
					if t.c.mod(q) == 0 {
						continue
					}
					return nil, 0, "unreduced word"
				}
				if dom == 0 {
					dom = a.row.dom
				} else if dom != a.row.dom {
					return nil, 0, "mixed domains"
				}
			}
		}
	}
	if dom == 0 {
		dom = defDom
	}
	n := s.N
	type tk struct {
		rows []*Row
		nf   *NF // the one row's polynomial, with group
		perm []int
		c    []uint64
		seen []bool
	}
	tabs := map[string]*tk{}
	var order []string
	konst := make([]uint64, n)
	for j, w := range syms {
		konst[j] = w.k.mod(q)
		for _, t := range w.t {
			c := t.c.mod(q)
			if c == 0 {
				continue
			}
			rows := make([]*Row, len(t.w))
			idx := -1
			k := ""
			for i, a := range t.w {
				rows[i] = a.row
				k += fmt.Sprintf("%d,", a.row.id)
				if idx >= 0 && idx != a.idx {
					return nil, 0, "product of words of several indices"
				}
				idx = a.idx
			}
			var gnf *NF
			if r := rows[0]; group && len(rows) == 1 && r.m == q && len(r.nf.t) > 0 {
				l := r.nf.t[0].c
				gnf = s.nfScale(r.nf, invmod(l, q))
				c = mulmod(c, l, q)
				k = gnf.Key()
			}
			x, ok := tabs[k]
			if !ok {
				x = &tk{rows: rows, nf: gnf, perm: make([]int, n), c: make([]uint64, n), seen: make([]bool, n)}
				for i := range x.perm {
					x.perm[i] = -1
				}
				tabs[k] = x
				order = append(order, k)
			}
			if x.seen[j] {
				return s.liftSame(syms, q, "one word uses a row twice")
			}
			x.seen[j] = true
			x.perm[j] = idx
			x.c[j] = c
		}
	}
	acc := &NF{m: q}
	constVec := func(c []uint64) (*NF, bool) {
		same := true
		for _, x := range c {
			if x != c[0] {
				same = false
			}
		}
		if same && dom == domNTT {
			return s.nfConst(q, c[0]), true
		}
		if dom == domNTT {
			return s.nfPoly(q, s.it.invNTTConc(c, q)), true
		}
		return s.nfPoly(q, c), true
	}
	for _, k := range order {
		x := tabs[k]
		base := s.nfConst(q, 1)
		for i, r := range x.rows {
			if i > 0 && dom == domCoef {
				return nil, 0, "coefficient-wise product"
			}
			f := r.nf
			if x.nf != nil {
				f = x.nf
			} else if r.m != q {
				if dom != domCoef {
					return nil, 0, "NTT words across moduli"
				}
				f = s.atomNF(s.intAtom(r), q)
			}
			base = s.nfMul(base, f)
		}
		ident := true
		for j := range x.perm {
			if x.perm[j] >= 0 && x.perm[j] != j {
				ident = false
			}
		}
		if dom == domNTT {
			if !ident {
				g := s.findNTTPerm(x.perm)
				if g == 0 {
					return nil, 0, "NTT slots permuted by no automorphism"
				}
				base = s.nfAut(base, g)
			}
			cv, _ := constVec(x.c)
			acc = s.nfAdd(acc, s.nfMul(base, cv))
			continue
		}
		if ident {
			same := true
			for _, c := range x.c {
				if c != x.c[0] {
					same = false
				}
			}
			if same {
				acc = s.nfAdd(acc, s.nfScale(base, x.c[0]))
				continue
			}
		}
		g, sh, c, ok := s.findCoefPerm(x.perm, x.c, q)
		if !ok {
			return s.liftSame(syms, q, "coefficients combined by no ring operation")
		}
		acc = s.nfAdd(acc, s.nfScale(s.nfShift(s.nfAut(base, g), sh), c))
	}
	nz := false
	for _, c := range konst {
		if c != 0 {
			nz = true
		}
	}
	if nz {
		kv, _ := constVec(konst)
		acc = s.nfAdd(acc, kv)
	}
	return acc, dom, ""
}

// liftSame: words that are coefficients 0..N-1 of one and the same polynomial.
func (s *SymCtx) liftSame(syms []*Sym, q uint64, why string) (*NF, int, string) {
	var nf *NF
	for j, w := range syms {
		x := s.liftAt(w, j, q)
		if x == nil || nf != nil && x.Key() != nf.Key() {
			return nil, 0, why
		}
		nf = x
	}
	return nf, domCoef, ""
}

func (s *SymCtx) findNTTPerm(perm []int) int {
	for g := 3; g < 2*s.N; g += 2 {
		idx := ring.PermuteNTTIndex(uint64(g), uint64(s.N))
		ok := true
		for j := range perm {
			if perm[j] != int(idx[j]) {
				ok = false
				break
			}
		}
		if ok {
			return g
		}
	}
	return 0
}

// findCoefPerm: out[j] = c_j * in[perm_j] is c * X^sh * in(X^g).
func (s *SymCtx) findCoefPerm(perm []int, cs []uint64, q uint64) (g, sh int, c uint64, ok bool) {
	n := s.N
	for _, p := range perm {
		if p < 0 {
			return
		}
	}
	for g = 1; g < 2*n; g += 2 {
		// position of in[0] gives the shift
		p0 := -1
		for j, p := range perm {
			if p == 0 {
				p0 = j
			}
		}
		if p0 < 0 {
			return
		}
		sh = p0
		c = cs[p0]
		good := true
		for j, i := range perm {
			e := (i*g + sh) % (2 * n)
			neg := e >= n
			if neg {
				e -= n
			}
			want := c
			if neg {
				want = submod(0, c, q)
			}
			if e != j || cs[j] != want {
				good = false
				break
			}
		}
		if good {
			return g, sh, c, true
		}
	}
	return 0, 0, 0, false
}

func (s *SymCtx) writeRow(dst []Value, r *Row) {
	if r.nf != nil && r.nf.isZero() && r.canon {
		for j := range dst {
			dst[j] = Value{}
		}
		return
	}
	if r.canon && r.nf != nil && r.dom == domCoef {
		// constant polynomials are concrete
		conc := true
		for _, t := range r.nf.t {
			if len(t.m.f) > 0 {
				conc = false
				break
			}
		}
		if conc {
			for j := range dst {
				dst[j] = Value{}
			}
			for _, t := range r.nf.t {
				dst[t.m.x] = vUint(t.c)
			}
			return
		}
	}
	if r.canon && r.nf != nil && r.dom == domNTT {
		conc := true
		for _, t := range r.nf.t {
			if len(t.m.f) > 0 {
				conc = false
				break
			}
		}
		if conc {
			c := make([]uint64, s.N)
			for _, t := range r.nf.t {
				c[t.m.x] = t.c
			}
			for j, x := range s.it.nttConc(c, r.m) {
				dst[j] = vUint(x)
			}
			return
		}
	}
	for j := range dst {
		dst[j] = Value{P: s.word(r, j)}
	}
}

// normalise rewrites a vector of N words so that it is a row, without changing any word's value.
func (it *Interp) normalise(ws []Value) {
	s := it.S
	if len(ws) != s.N || s.N == 0 || ws[0].P == nil && allConc(ws) {
		return
	}
	if fastRow(ws) != nil {
		return
	}
	var m uint64
	for _, w := range ws {
		y, ok := w.P.(*Sym)
		if !ok {
			if w.P != nil {
				return
			}
			continue
		}
		for _, t := range y.t {
			for _, a := range t.w {
				if a.row == nil || a.row.m == 0 {
					return
				}
				if m == 0 {
					m = a.row.m
				} else if m != a.row.m {
					return
				}
			}
		}
	}
	if m == 0 {
		return
	}
	r := s.liftRow(ws, m, domCoef)
	for j := range ws {
		ws[j] = Value{P: s.word(r, j)}
	}
}

var polyPtr = map[string]bool{"*github.com/ldsec/lattigo/v2/ring.Poly": true}

func (it *Interp) normaliseArgs(fn *ssa.Function, args []Value) {
	for i, p := range fn.Params {
		if i >= len(args) {
			break
		}
		ts := p.Type().String()
		switch ts {
		case "*github.com/ldsec/lattigo/v2/ring.Poly":
			it.normalisePoly(args[i])
		case "github.com/ldsec/lattigo/v2/rlwe.PolyQP":
			if a, ok := args[i].P.(Agg); ok {
				for _, c := range a {
					it.normalisePoly(c)
				}
			}
		case "[]uint64":
			if s := args[i].slice(); s != nil {
				it.normalise(s.obj.cells[s.off : s.off+s.len])
			}
		}
	}
}

func (it *Interp) normalisePoly(p Value) {
	if p.P == nil {
		return
	}
	o, ok := p.P.(*Obj)
	if !ok || int(p.U) >= len(o.cells) {
		return
	}
	rows, ok := o.cells[p.U].P.(*SliceV)
	if !ok {
		return
	}
	for i := 0; i < rows.len; i++ {
		if r, ok := rows.obj.cells[rows.off+i].P.(*SliceV); ok {
			it.normalise(r.obj.cells[r.off : r.off+r.len])
		}
	}
}

// ---- NTT ------------------------------------------------------------------------------------

func (it *Interp) ringFor(n int, q uint64) *ring.Ring {
	k := fmt.Sprintf("%d/%d", n, q)
	if x, ok := it.host.nttQ[k]; ok {
		return x.r
	}
	r, err := ring.NewRing(n, []uint64{q})
	if err != nil {
		unsupported("no NTT modulo %d", q)
	}
	it.host.nttQ[k] = &nttInfo{q: q, n: n, r: r}
	return r
}

func (it *Interp) invNTTConc(c []uint64, q uint64) []uint64 {
	r := it.ringFor(it.S.N, q)
	out := make([]uint64, len(c))
	ring.InvNTT(c, out, r.N, r.NttPsiInv[0], r.NttNInv[0], q, r.MredParams[0])
	return out
}
func (it *Interp) nttConc(c []uint64, q uint64) []uint64 {
	r := it.ringFor(it.S.N, q)
	out := make([]uint64, len(c))
	ring.NTT(c, out, r.N, r.NttPsi[0], q, r.MredParams[0], r.BredParams[0])
	return out
}

func eqU(a, b []uint64) bool {
	if len(a) < len(b) {
		return false
	}
	for i := range b {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func doNTT(lazy bool) intrFn {
	return func(it *Interp, fn *ssa.Function, a []Value) Value {
		s := it.S
		in, out := a[0].slice(), a[1].slice()
		n, q := a[2].int(), a[4].U
		if in == nil || out == nil || in.len < n || out.len < n {
			it.rtPanic("index out of range in NTT")
		}
		s.setN(n)
		src := in.obj.cells[in.off : in.off+n]
		dst := out.obj.cells[out.off : out.off+n]
		it.rd(in, n)
		it.wr(out, n)
		r := it.ringFor(n, q)
		if !eqU(it.conU64(a[3]), r.NttPsi[0]) || a[5].U != r.MredParams[0] || !eqU(it.conU64(a[6]), r.BredParams[0]) {
			s.writeRow(dst, s.opaqueRow(q, domNTT, "NTT tables of another modulus"))
			return Value{}
		}
		if allConc(src) {
			c := make([]uint64, n)
			for i := range c {
				c[i] = src[i].U
			}
			o := make([]uint64, n)
			if lazy {
				ring.NTTLazy(c, o, n, r.NttPsi[0], q, r.MredParams[0], r.BredParams[0])
			} else {
				ring.NTT(c, o, n, r.NttPsi[0], q, r.MredParams[0], r.BredParams[0])
			}
			for i := range o {
				dst[i] = vUint(o[i])
			}
			return Value{}
		}
		row := s.liftRow(src, q, domCoef)
		if row.dom != domCoef {
			s.writeRow(dst, s.opaqueUF(row, q, "NTT of NTT values"))
			return Value{}
		}
		// inputs grow by at most four times q, or stay below eight times q; the output is that of a
		// butterfly with reduction: below six times q
		lim := new(big.Int).Sub(two64, new(big.Int).Lsh(bu(q), 2))
		if row.hi.Cmp(lim) >= 0 || q >= 1<<61 {
			s.writeRow(dst, s.opaqueUF(row, q, "NTT input range"))
			return Value{}
		}
		if lazy {
			s.writeRow(dst, s.lazyRow(row.nf, domNTT, fmt.Sprintf("nttl%d", row.id), bZero, new(big.Int).Sub(bu(6*q), bOne)))
		} else {
			s.writeRow(dst, s.canonRow(row.nf, domNTT))
		}
		return Value{}
	}
}

func doInvNTT(lazy bool) intrFn {
	return func(it *Interp, fn *ssa.Function, a []Value) Value {
		s := it.S
		in, out := a[0].slice(), a[1].slice()
		n, q := a[2].int(), a[5].U
		if in == nil || out == nil || in.len < n || out.len < n {
			it.rtPanic("index out of range in InvNTT")
		}
		s.setN(n)
		src := in.obj.cells[in.off : in.off+n]
		dst := out.obj.cells[out.off : out.off+n]
		it.rd(in, n)
		it.wr(out, n)
		r := it.ringFor(n, q)
		if !eqU(it.conU64(a[3]), r.NttPsiInv[0]) || a[6].U != r.MredParams[0] || a[4].U != r.NttNInv[0] {
			s.writeRow(dst, s.opaqueRow(q, domCoef, "InvNTT tables of another modulus"))
			return Value{}
		}
		if allConc(src) {
			c := make([]uint64, n)
			for i := range c {
				c[i] = src[i].U
			}
			o := make([]uint64, n)
			if lazy {
				ring.InvNTTLazy(c, o, n, r.NttPsiInv[0], r.NttNInv[0], q, r.MredParams[0])
			} else {
				ring.InvNTT(c, o, n, r.NttPsiInv[0], r.NttNInv[0], q, r.MredParams[0])
			}
			for i := range o {
				dst[i] = vUint(o[i])
			}
			return Value{}
		}
		row := s.liftRow(src, q, domNTT)
		if row.dom != domNTT {
			s.writeRow(dst, s.opaqueUF(row, q, "InvNTT of coefficients"))
			return Value{}
		}
		// beyond twice q, the differences of the later rounds can become negative
		if row.hi.Cmp(bu(2*q)) > 0 || q >= 1<<61 {
			s.writeRow(dst, s.opaqueUF(row, q, "InvNTT input range"))
			return Value{}
		}
		if lazy {
			s.writeRow(dst, s.lazyRow(row.nf, domCoef, fmt.Sprintf("inttl%d", row.id), bZero, new(big.Int).Sub(bu(2*q), bOne)))
		} else {
			s.writeRow(dst, s.canonRow(row.nf, domCoef))
		}
		return Value{}
	}
}

// opaqueUF is an uninterpreted function of one row.
func (s *SymCtx) opaqueUF(r *Row, q uint64, why string) *Row {
	k := fmt.Sprintf("uf|%s|%x|%d", why, q, r.id)
	if o, ok := s.vrows[k]; ok {
		return o
	}
	dom := domNTT
	if strings.HasPrefix(why, "InvNTT") {
		dom = domCoef
	}
	o := s.opaqueRow(q, dom, why)
	s.vrows[k] = o
	return o
}

// ---- modular word operations ------------------------------------------------------------------

func redc(kind string) intrFn {
	return func(it *Interp, fn *ssa.Function, a []Value) Value {
		s := it.S
		var w *Sym
		var q uint64
		mulc := uint64(1)
		lazy := strings.HasSuffix(kind, "Constant")
		base := strings.TrimSuffix(kind, "Constant")
		sym := false
		for _, v := range a {
			switch v.P.(type) {
			case *Sym:
				sym = true
			}
		}
		if !sym {
			return concRedc(it, kind, a)
		}
		okParams := true
		switch base {
		case "MRed":
			if a[2].P != nil || a[3].P != nil {
				unsupported("symbolic modulus")
			}
			q = a[2].U
			okParams = q&1 == 1 && a[3].U == ring.MRedParams(q)
			x, y := s.exact(s.toSym(a[0])), s.exact(s.toSym(a[1]))
			w = s.mul(x, y)
			if okParams {
				mulc = invmod(powmod(2, 64, q), q)
			}
		case "BRed":
			q = a[2].U
			okParams = eqU(it.conU64(a[3]), ring.BRedParams(q))
			w = s.mul(s.exact(s.toSym(a[0])), s.exact(s.toSym(a[1])))
		case "BRedAdd":
			q = a[1].U
			okParams = eqU(it.conU64(a[2]), ring.BRedParams(q))
			w = s.exact(s.toSym(a[0]))
		case "MForm":
			q = a[1].U
			okParams = eqU(it.conU64(a[2]), ring.BRedParams(q))
			w = s.exact(s.toSym(a[0]))
			mulc = powmod(2, 64, q)
		case "InvMForm":
			q = a[1].U
			okParams = q&1 == 1 && a[2].U == ring.MRedParams(q)
			w = s.exact(s.toSym(a[0]))
			if okParams {
				mulc = invmod(powmod(2, 64, q), q)
			}
		case "CRed":
			q = a[1].U
			w = s.exact(s.toSym(a[0]))
			if w.hi.Cmp(bu(q)) < 0 {
				return s.fromSym(w)
			}
			hi := new(big.Int).Sub(w.hi, bu(q))
			if hi.Cmp(bu(q)) < 0 {
				return s.canonOf(w, 1, q, "cred")
			}
			return s.lazyOf(w, 1, q, "credl", bZero, hi)
		}
		if !okParams {
			return s.opaqueAny(w, kind+" with foreign parameters", max64)
		}
		if base == "MRed" {
			lim := new(big.Int).Lsh(bu(q), 64)
			if w.hi.Cmp(lim) >= 0 {
				// (xy - mq)/2^64 + q with at most one subtraction
				hi := new(big.Int).Rsh(w.hi, 64)
				hi.Add(hi, bu(q))
				if hi.Cmp(max64) > 0 {
					return s.opaqueAny(w, "MRed overflow", max64)
				}
				if lazy {
					return s.lazyOf(w, mulc, q, "mredcL", bZero, hi)
				}
				h2 := new(big.Int).Sub(hi, bu(q))
				if h2.Cmp(bu(q)) < 0 {
					h2 = bu(q - 1)
				}
				return s.lazyOf(w, mulc, q, "mredL", bZero, h2)
			}
		}
		if lazy {
			return s.lazyOf(w, mulc, q, kind, bZero, new(big.Int).Sub(new(big.Int).Lsh(bu(q), 1), bOne))
		}
		return s.canonOf(w, mulc, q, kind)
	}
}

func (s *SymCtx) opaqueAny(w *Sym, why string, hi *big.Int) Value {
	if _, ok := s.commonIdx(w); ok {
		return s.opaqueWord(w, why, hi)
	}
	return s.multiIdx(w, 1, 0, why, nil, nil)
}

func concRedc(it *Interp, kind string, a []Value) Value {
	u := func(i int) uint64 { return a[i].U }
	switch kind {
	case "MRed":
		return vUint(ring.MRed(u(0), u(1), u(2), u(3)))
	case "MRedConstant":
		return vUint(ring.MRedConstant(u(0), u(1), u(2), u(3)))
	case "BRed":
		return vUint(ring.BRed(u(0), u(1), u(2), it.conU64(a[3])))
	case "BRedConstant":
		return vUint(ring.BRedConstant(u(0), u(1), u(2), it.conU64(a[3])))
	case "BRedAdd":
		return vUint(ring.BRedAdd(u(0), u(1), it.conU64(a[2])))
	case "BRedAddConstant":
		return vUint(ring.BRedAddConstant(u(0), u(1), it.conU64(a[2])))
	case "MForm":
		return vUint(ring.MForm(u(0), u(1), it.conU64(a[2])))
	case "MFormConstant":
		return vUint(ring.MFormConstant(u(0), u(1), it.conU64(a[2])))
	case "InvMForm":
		return vUint(ring.InvMForm(u(0), u(1), u(2)))
	case "InvMFormConstant":
		return vUint(ring.InvMFormConstant(u(0), u(1), u(2)))
	case "CRed":
		return vUint(ring.CRed(u(0), u(1)))
	}
	panic(kind)
}

func init() {
	for _, k := range []string{"MRed", "MRedConstant", "BRed", "BRedConstant", "BRedAdd", "BRedAddConstant", "MForm", "MFormConstant", "InvMForm", "InvMFormConstant", "CRed"} {
		reg(ringPath+k, redc(k))
	}
	reg(ringPath+"NTT", doNTT(false))
	reg(ringPath+"NTTLazy", doNTT(true))
	reg(ringPath+"InvNTT", doInvNTT(false))
	reg(ringPath+"InvNTTLazy", doInvNTT(true))
	reg(ringPath+"MRedParams", func(it *Interp, fn *ssa.Function, a []Value) Value { return vUint(ring.MRedParams(a[0].U)) })
	reg(ringPath+"BRedParams", func(it *Interp, fn *ssa.Function, a []Value) Value {
		if a[0].U == 0 {
			it.rtPanic("division by zero")
		}
		return it.fromHost(reflect.ValueOf(ring.BRedParams(a[0].U)), fn.Signature.Results().At(0).Type())
	})
	reg(ringPath+"IsPrime", func(it *Interp, fn *ssa.Function, a []Value) Value { return vBool(ring.IsPrime(a[0].U)) })
	reg(ringPath+"ModExp", func(it *Interp, fn *ssa.Function, a []Value) Value { return vUint(ring.ModExp(a[0].U, a[1].U, a[2].U)) })
	reg(ringPath+"PermuteNTTIndex", func(it *Interp, fn *ssa.Function, a []Value) Value {
		return it.fromHost(reflect.ValueOf(ring.PermuteNTTIndex(a[0].U, a[1].U)), fn.Signature.Results().At(0).Type())
	})
	genPrimes := func(f func(int, int, int) []uint64) intrFn {
		return func(it *Interp, fn *ssa.Function, a []Value) Value {
			return it.fromHost(reflect.ValueOf(f(a[0].int(), a[1].int(), a[2].int())), fn.Signature.Results().At(0).Type())
		}
	}
	reg(ringPath+"GenerateNTTPrimes", genPrimes(ring.GenerateNTTPrimes))
	reg(ringPath+"GenerateNTTPrimesP", genPrimes(ring.GenerateNTTPrimesP))
	reg(ringPath+"NewRing", func(it *Interp, fn *ssa.Function, a []Value) Value {
		n := a[0].int()
		mods := it.conU64(a[1])
		r, err := ring.NewRing(n, mods)
		if err != nil {
			return Value{P: Tuple{{}, it.mkError(err.Error())}}
		}
		it.S.setN(n)
		for _, q := range mods {
			it.S.mods[q] = true
		}
		pt := fn.Signature.Results().At(0).Type().(*types.Pointer)
		o := it.newObj(it.sizeof(pt.Elem()))
		it.importValue(reflect.ValueOf(r).Elem(), pt.Elem(), o.cells, map[uintptr]Value{})
		return Value{P: Tuple{ptr(o, 0), {}}}
	})
	// bit operations
	reg("math/bits.Mul64", func(it *Interp, fn *ssa.Function, a []Value) Value {
		if a[0].P == nil && a[1].P == nil {
			h, l := bits.Mul64(a[0].U, a[1].U)
			return Value{P: Tuple{vUint(h), vUint(l)}}
		}
		s := it.S
		p := s.mul(s.exact(s.toSym(a[0])), s.exact(s.toSym(a[1])))
		l := s.lo64(p)
		h := s.divPow64(s.add(p, l, true))
		return Value{P: Tuple{s.fromSym(h), s.fromSym(l)}}
	})
	reg("math/bits.Add64", func(it *Interp, fn *ssa.Function, a []Value) Value {
		if a[0].P == nil && a[1].P == nil && a[2].P == nil {
			h, l := bits.Add64(a[0].U, a[1].U, a[2].U)
			return Value{P: Tuple{vUint(h), vUint(l)}}
		}
		s := it.S
		p := s.add(s.add(s.exact(s.toSym(a[0])), s.exact(s.toSym(a[1])), false), s.exact(s.toSym(a[2])), false)
		l := s.lo64(p)
		h := s.divPow64(s.add(p, l, true))
		return Value{P: Tuple{s.fromSym(l), s.fromSym(h)}}
	})
	reg("math/bits.Sub64", func(it *Interp, fn *ssa.Function, a []Value) Value {
		if a[0].P == nil && a[1].P == nil && a[2].P == nil {
			h, l := bits.Sub64(a[0].U, a[1].U, a[2].U)
			return Value{P: Tuple{vUint(h), vUint(l)}}
		}
		unsupported("symbolic Sub64")
		return Value{}
	})
	bitU := func(f func(uint64) int) intrFn {
		return func(it *Interp, fn *ssa.Function, a []Value) Value {
			if a[0].P != nil {
				unsupported("symbolic bit operation")
			}
			return vInt(int64(f(a[0].U)))
		}
	}
	reg("math/bits.Len64", bitU(bits.Len64))
	reg("math/bits.Len", bitU(bits.Len64))
	reg("math/bits.OnesCount64", bitU(bits.OnesCount64))
	reg("math/bits.TrailingZeros64", bitU(bits.TrailingZeros64))
	reg("math/bits.LeadingZeros64", bitU(bits.LeadingZeros64))
	reg("math/bits.Reverse64", func(it *Interp, fn *ssa.Function, a []Value) Value { return vUint(bits.Reverse64(a[0].U)) })

	// fmt
	reg("fmt.Errorf", func(it *Interp, fn *ssa.Function, a []Value) Value { return it.mkError(a[0].str()) })
	reg("fmt.Sprintf", func(it *Interp, fn *ssa.Function, a []Value) Value { return vStr(it.sprintf(a[0].str(), a[1])) })
	reg("fmt.Sprint", func(it *Interp, fn *ssa.Function, a []Value) Value { return vStr(it.sprintf("", a[0])) })
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		reg(n, func(it *Interp, fn *ssa.Function, a []Value) Value { return Value{P: Tuple{{}, {}}} })
	}
	reg("runtime.GC", func(it *Interp, fn *ssa.Function, a []Value) Value { return Value{} })
	reg("runtime.KeepAlive", func(it *Interp, fn *ssa.Function, a []Value) Value { return Value{} })

	// randomness
	up := "github.com/ldsec/lattigo/v2/utils."
	newPRNG := func(keyed bool) intrFn {
		return func(it *Interp, fn *ssa.Function, a []Value) Value {
			pt := fn.Signature.Results().At(0).Type().(*types.Pointer)
			o := it.newObj(it.sizeof(pt.Elem()))
			it.host.prngs++
			st := &prngState{id: it.host.prngs}
			if keyed {
				st.key = fmt.Sprintf("key:%v", it.conU64(a[0]))
			}
			o.tag = st
			return Value{P: Tuple{ptr(o, 0), {}}}
		}
	}
	reg(up+"NewPRNG", newPRNG(false))
	reg(up+"NewKeyedPRNG", newPRNG(true))

	for _, sfx := range []string{"Read", "ReadLvl", "ReadNew", "ReadLvlNew"} {
		reg(ringMeth+"UniformSampler)."+sfx, sampler("uniform", sfx))
		reg(ringMeth+"GaussianSampler)."+sfx, sampler("gauss", sfx))
		reg(ringMeth+"TernarySampler)."+sfx, sampler("ternary", sfx))
	}
	reg(ringMeth+"GaussianSampler).ReadFromDistLvl", sampler("gauss", "ReadFromDistLvl"))
	reg(ringMeth+"GaussianSampler).ReadAndAddLvl", sampler("gauss", "ReadAndAddLvl"))
	reg(ringMeth+"GaussianSampler).ReadAndAddFromDistLvl", sampler("gauss", "ReadAndAddFromDistLvl"))
	reg(ringMeth+"TernarySampler).computeMatrixTernary", func(it *Interp, fn *ssa.Function, a []Value) Value { return Value{} })

	reg("(*github.com/ldsec/lattigo/v2/rlwe.RingQP).ExtendBasisSmallNormAndCenter", extendSmall)
}

type prngState struct {
	id  int
	key string
	pos int
}

func (s *SymCtx) divPow64(w *Sym) *Sym {
	inv := dy{bOne, 64}
	ts := make([]sterm, len(w.t))
	for i, t := range w.t {
		ts[i] = sterm{t.w, dyMul(t.c, inv)}
	}
	lo := ceilShift(w.lo, 64)
	hi := new(big.Int).Rsh(w.hi, 64)
	return s.mkSym(ts, dyMul(w.k, inv), lo, hi)
}

func ceilShift(a *big.Int, n uint) *big.Int {
	t := new(big.Int).Sub(new(big.Int).Lsh(bOne, n), bOne)
	t.Add(t, a)
	return t.Rsh(t, n)
}

func (it *Interp) mkError(msg string) Value {
	p := it.P.prog.ImportedPackage("errors")
	if p == nil {
		unsupported("errors package")
	}
	return it.callSSA(p.Func("New"), []Value{vStr(msg)}, nil, nil)
}

func (it *Interp) sprintf(f string, args Value) string {
	var as []any
	for _, c := range it.sliceCells(args) {
		if c.P == nil {
			as = append(as, nil)
			continue
		}
		i := c.P.(*Iface)
		switch b := i.t.Underlying().(type) {
		case *types.Basic:
			switch {
			case i.v.P != nil && b.Info()&types.IsString == 0:
				as = append(as, "<sym>")
			case b.Info()&types.IsString != 0:
				as = append(as, i.v.str())
			case b.Info()&types.IsFloat != 0:
				as = append(as, i.v.f64())
			case b.Info()&types.IsUnsigned != 0:
				as = append(as, i.v.U)
			case b.Info()&types.IsBoolean != 0:
				as = append(as, i.v.U != 0)
			default:
				as = append(as, int64(i.v.U))
			}
		default:
			as = append(as, i.t.String())
		}
	}
	if f == "" {
		return fmt.Sprint(as...)
	}
	return fmt.Sprintf(f, as...)
}

// ---- struct access helpers ---------------------------------------------------------------------

func (it *Interp) field(p Value, t types.Type, path ...string) (Value, types.Type) {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	o := p.P.(*Obj)
	off := int(p.U)
	for k, name := range path {
		st := t.Underlying().(*types.Struct)
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				off += it.foff(st, i)
				t = st.Field(i).Type()
				found = true
				break
			}
		}
		if !found {
			unsupported("field %s", name)
		}
		if k < len(path)-1 {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				it.mark(o, off, 1, 1)
				v := o.cells[off]
				if v.P == nil {
					it.rtPanic("nil pointer dereference")
				}
				o, off, t = v.P.(*Obj), int(v.U), pt.Elem()
			}
		}
	}
	return it.load(ptr(o, off), t), t
}

// polyRows returns the row slices of a *ring.Poly.
func (it *Interp) polyRows(p Value) []*SliceV {
	if p.P == nil {
		it.rtPanic("invalid memory address or nil pointer dereference")
	}
	o := p.P.(*Obj)
	it.mark(o, int(p.U), 1, 1)
	rs := o.cells[p.U].slice()
	if rs == nil {
		return nil
	}
	it.rd(rs, rs.len)
	out := make([]*SliceV, rs.len)
	for i := range out {
		out[i] = rs.obj.cells[rs.off+i].slice()
	}
	return out
}

func (r *SliceV) ws() []Value { return r.obj.cells[r.off : r.off+r.len] }

func (it *Interp) ringMods(v Value, t types.Type) ([]uint64, int) {
	m, _ := it.field(v, t, "Modulus")
	n, _ := it.field(v, t, "N")
	return it.conU64(m), n.int()
}

func sampler(kind, meth string) intrFn {
	return func(it *Interp, fn *ssa.Function, a []Value) Value {
		s := it.S
		rt := fn.Params[0].Type()
		if a[0].P == nil {
			it.rtPanic("invalid memory address or nil pointer dereference")
		}
		prngV, _ := it.field(a[0], rt, "baseSampler", "prng")
		ringV, ringT := it.field(a[0], rt, "baseSampler", "baseRing")
		if prngV.P == nil {
			it.rtPanic("nil prng")
		}
		st, ok := prngV.P.(*Iface).v.P.(*Obj).tag.(*prngState)
		if !ok {
			unsupported("unknown prng")
		}
		// samplers keep a buffer and consume their generator
		it.markPtr(a[0], 2)
		it.markPtr(prngV, 2)
		pol := Value{}
		if len(a) > 1 {
			pol = a[1]
		}
		lvl := -1
		var sigma, bound Value
		switch meth {
		case "ReadLvl", "ReadAndAddLvl":
			lvl, pol = a[1].int(), a[2]
		case "ReadFromDistLvl", "ReadAndAddFromDistLvl":
			lvl, pol, ringV, sigma, bound = a[1].int(), a[2], a[3], a[4], a[5]
		case "ReadLvlNew":
			lvl = a[1].int()
		}
		mods, n := it.ringMods(ringV, ringT)
		s.setN(n)
		if kind == "uniform" && meth == "Read" {
			lvl = len(it.polyRows(pol)) - 1
		}
		if lvl < 0 {
			lvl = len(mods) - 1
		}
		if lvl >= len(mods) {
			it.rtPanic("slice bounds out of range")
		}
		if strings.HasSuffix(meth, "New") {
			f := it.P.prog.LookupMethod(ringT, nil, "NewPolyLvl")
			pol = it.callSSA(f, []Value{ringV, vInt(int64(lvl))}, nil, nil)
		}
		rows := it.polyRows(pol)
		if len(rows) <= lvl {
			it.rtPanic("index out of range [%d] with length %d", lvl, len(rows))
		}
		add := strings.Contains(meth, "AndAdd")
		if kind == "gauss" && sigma.P == nil && meth != "ReadFromDistLvl" && meth != "ReadAndAddFromDistLvl" {
			sigma, _ = it.field(a[0], rt, "sigma")
			bound, _ = it.field(a[0], rt, "bound")
		}
		st.pos++
		key := ""
		if st.key != "" {
			key = fmt.Sprintf("%s|%d|%s|%d", st.key, st.pos, kind, lvl)
		}
		mk := func() *Atom {
			switch kind {
			case "uniform":
				Q := big.NewInt(1)
				for _, q := range mods[:lvl+1] {
					Q.Mul(Q, bu(q))
				}
				return s.newAtom("uniform", "unif", bZero, Q.Sub(Q, bOne))
			case "gauss":
				b := big.NewInt(int64(bound.int()))
				at := s.newAtom("gauss", fmt.Sprintf("gauss(%.3g)", sigma.f64()), new(big.Int).Neg(b), b)
				at.dist[0] = sigma.f64()
				return at
			default:
				at := s.newAtom("ternary", "tern", big.NewInt(-1), bOne)
				pr, _ := it.field(a[0], rt, "p")
				hw, _ := it.field(a[0], rt, "hw")
				at.dist[1], at.dist[2] = pr.f64(), float64(hw.int())
				return at
			}
		}
		var at *Atom
		if key != "" {
			if x, ok := s.resAt[key]; ok {
				at = x
			} else {
				at = mk()
				s.resAt[key] = at
			}
		} else {
			at = mk()
		}
		at.prng = fmt.Sprint(st.id)
		// ternary Montgomery form and zero-probability are read off the sampler
		for j := 0; j <= lvl; j++ {
			q := mods[j]
			nf := s.atomNF(at, q)
			dst := rows[j].ws()
			it.wr(rows[j], n)
			if len(dst) < n {
				it.rtPanic("index out of range in sampler")
			}
			dst = dst[:n]
			switch kind {
			case "uniform":
				s.writeRow(dst, s.canonRow(nf, domNTT))
			case "ternary":
				mv, _ := it.field(a[0], rt, "matrixValues")
				sl := mv.slice()
				one := sl.obj.cells[sl.off+j*sl.esz+1]
				s.writeRow(dst, s.canonRow(s.nfScale(nf, one.U), domCoef))
			case "gauss":
				r := s.lazyRow(nf, domCoef, "gauss", bZero, bu(q))
				if add {
					cur := s.liftRow(dst, q, domCoef)
					sum := make([]Value, n)
					for k := range sum {
						sum[k] = concOrCRed(it, s.add(s.exact(s.word(cur, k)), s.word(r, k), false), q)
					}
					copy(dst, sum)
				} else {
					s.writeRow(dst, r)
				}
			}
		}
		if strings.HasSuffix(meth, "New") {
			return pol
		}
		return Value{}
	}
}

func concOrCRed(it *Interp, w *Sym, q uint64) Value {
	s := it.S
	hi := new(big.Int).Sub(w.hi, bu(q))
	if hi.Cmp(bu(q)) < 0 {
		return s.canonOf(w, 1, q, "cred")
	}
	return s.lazyOf(w, 1, q, "credl", bZero, hi)
}

// extendSmall: contract of lattigo's ExtendBasisSmallNormAndCenter.
func extendSmall(it *Interp, fn *ssa.Function, a []Value) Value {
	s := it.S
	rq, rqT := it.field(a[0], fn.Params[0].Type(), "RingQ")
	rp, rpT := it.field(a[0], fn.Params[0].Type(), "RingP")
	qm, n := it.ringMods(rq, rqT)
	pm, _ := it.ringMods(rp, rpT)
	in := it.polyRows(a[1])
	lvlP := a[2].int()
	if a[3].P != nil && a[3] != a[1] {
		unsupported("ExtendBasisSmallNormAndCenter with an output in Q")
	}
	out := it.polyRows(a[4])
	if lvlP+1 > len(pm) || lvlP >= len(out) {
		it.rtPanic("index out of range in ExtendBasisSmallNormAndCenter")
	}
	src := in[0].ws()[:n]
	it.rd(in[0], n)
	for _, r := range out {
		it.wr(r, n)
	}
	if allConc(src) {
		for i, p := range pm[:lvlP+1] {
			for j := range src {
				c, neg := src[j].U, false
				if c > qm[0]>>1 {
					c, neg = qm[0]-c, true
				}
				if neg {
					c = p - c
				}
				out[i].ws()[j] = vUint(c)
			}
		}
		return Value{}
	}
	r := s.liftRow(src, qm[0], domCoef)
	if r.dom != domCoef {
		for i, p := range pm[:lvlP+1] {
			s.writeRow(out[i].ws()[:n], s.opaqueUF(r, p, "centering NTT values"))
		}
		return Value{}
	}
	at := s.centeredRes(r.nf)
	for i, p := range pm[:lvlP+1] {
		s.writeRow(out[i].ws()[:n], s.canonRow(s.atomNF(at, p), domCoef))
	}
	return Value{}
}

func sortedMods(m map[uint64]bool) []uint64 {
	r := make([]uint64, 0, len(m))
	for q := range m {
		r = append(r, q)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}
