package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- harness context ---------------------------------------------------------------------------

const vs = "vharness/vsym."

type Point struct {
	Name string
	N    int
}

// Obl is one proof obligation: an SMT-LIB script that must be unsat.
type Obl struct {
	Kind   string
	Name   string
	SMT    string
	Expect string
	Note   string   // human-readable residual
	Inputs []string // forced input words worth replaying: "name/row/idx"
	Broken string   // set when the obligation could not be formulated (treated as not proven)

	result string
}

// HCtx is the state of one path of a harness.
type HCtx struct {
	choices []int
	pos     int
	points  []Point
	obls    []*Obl
	fills   map[*Atom]string
	notes   []string
	lemma   map[string]bool
}

type abandonT struct{}

func (h *HCtx) choose(name string, n int) int {
	v := 0
	if h.pos < len(h.choices) {
		v = h.choices[h.pos]
	}
	h.pos++
	h.points = append(h.points, Point{name, n})
	return v
}

// branch forks on a data-dependent condition: both outcomes are explored (the path condition is
// not used by the obligations, which is sound for proofs).
func (h *HCtx) branch(b *SymBool) bool { return h.choose("?branch", 2) == 1 }

func (h *HCtx) addObl(o *Obl) { h.obls = append(h.obls, o) }

func smtInt(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}
func smtU(u uint64) string { return fmt.Sprint(u) }
func smtRat(r *big.Rat) string {
	n, d := smtInt(r.Num()), r.Denom().String()
	if r.Num().Sign() < 0 {
		return fmt.Sprintf("(- (/ %s.0 %s.0))", new(big.Int).Neg(r.Num()), d)
	}
	return fmt.Sprintf("(/ %s.0 %s.0)", n, d)
}

// ---- symbolic ring elements ----------------------------------------------------------------------

type symElem struct {
	mods []uint64
	nf   []*NF
}

func (it *Interp) mkElem(e *symElem) Value {
	o := it.newObj(2)
	o.tag = e
	return ptr(o, 0)
}

func (it *Interp) elem(v Value) *symElem {
	if v.P == nil {
		it.rtPanic("invalid memory address or nil pointer dereference")
	}
	e, ok := v.P.(*Obj).tag.(*symElem)
	if !ok {
		unsupported("not a ring element")
	}
	return e
}

func (it *Interp) sameMods(a, b *symElem) {
	if len(a.mods) != len(b.mods) {
		it.rtPanic("vsym: elements over %d and %d moduli", len(a.mods), len(b.mods))
	}
	for i := range a.mods {
		if a.mods[i] != b.mods[i] {
			it.rtPanic("vsym: elements over different moduli")
		}
	}
}

func (it *Interp) map1(a *symElem, f func(*NF) *NF) *symElem {
	r := &symElem{mods: a.mods, nf: make([]*NF, len(a.nf))}
	for i := range a.nf {
		r.nf[i] = f(a.nf[i])
	}
	return r
}
func (it *Interp) map2(a, b *symElem, f func(x, y *NF) *NF) *symElem {
	it.sameMods(a, b)
	r := &symElem{mods: a.mods, nf: make([]*NF, len(a.nf))}
	for i := range a.nf {
		r.nf[i] = f(a.nf[i], b.nf[i])
	}
	return r
}

func (it *Interp) ofRows(rows []*SliceV, mods []uint64, n int, lvl int, ntt, mont bool) *symElem {
	s := it.S
	e := &symElem{}
	for i := 0; i <= lvl; i++ {
		if i >= len(rows) || i >= len(mods) {
			it.rtPanic("index out of range [%d] with length %d", i, len(rows))
		}
		ws := rows[i].ws()
		it.rd(rows[i], n)
		if len(ws) < n {
			it.rtPanic("index out of range [%d] with length %d", n-1, len(ws))
		}
		dom := domCoef
		if ntt {
			dom = domNTT
		}
		r := s.liftRow(ws[:n], mods[i], dom)
		nf := r.nf
		if r.dom != dom && !nf.isZero() {
			nf = s.opaqueUF(r, mods[i], map[bool]string{true: "NTT of", false: "InvNTT of"}[!ntt]+" the wrong domain").nf
		}
		if mont {
			nf = s.nfScale(nf, invmod(powmod(2, 64, mods[i]), mods[i]))
		}
		e.mods = append(e.mods, mods[i])
		e.nf = append(e.nf, nf)
	}
	return e
}

func logPow2(l float64) *big.Int {
	if l < 0 {
		return new(big.Int)
	}
	f := new(big.Float).SetFloat64(math.Exp2(l - math.Floor(l)))
	f.SetMantExp(f, int(math.Floor(l)))
	r, _ := f.Int(nil)
	return r
}

// shiftPow2 is floor(x * 2^l).
func shiftPow2(x *big.Int, l float64) *big.Int {
	f := new(big.Float).SetPrec(2000).SetInt(x)
	f.Mul(f, new(big.Float).SetFloat64(math.Exp2(l-math.Floor(l))))
	f.SetMantExp(f, int(math.Floor(l)))
	r, _ := f.Int(nil)
	return r
}

func (it *Interp) fieldPtr(p Value, t types.Type, name string) Value {
	st := t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return ptr(p.P.(*Obj), int(p.U)+it.foff(st, i))
		}
	}
	unsupported("field %s", name)
	return Value{}
}

type symC struct { // one slot of a symbolic message
	a   *Atom
	idx int
}
type decC struct { // one slot of a decoded message
	rec *decRec
	idx int
}
type decRec struct {
	mods  []uint64
	nf    []*NF
	scale float64
	slots int
	t     uint64
}
type encRec struct{}

func (s *SymCtx) encAtom(cells []Value, key string, bound *big.Int, signed bool) *Atom {
	var sb strings.Builder
	fmt.Fprintf(&sb, "enc|%s|", key)
	zero := true
	for _, c := range cells {
		switch x := c.P.(type) {
		case nil:
			fmt.Fprintf(&sb, "%x,", c.U)
			if c.U != 0 {
				zero = false
			}
		case complex128:
			fmt.Fprintf(&sb, "%v,", x)
			if x != 0 {
				zero = false
			}
		case symC:
			fmt.Fprintf(&sb, "s%d.%d,", x.a.id, x.idx)
			zero = false
		case decC:
			fmt.Fprintf(&sb, "d%p.%d,", x.rec, x.idx)
			zero = false
		default:
			unsupported("encoding of %T", c.P)
		}
	}
	if zero {
		return nil
	}
	k := sb.String()
	if a, ok := s.resAt[k]; ok {
		return a
	}
	lo := bZero
	if signed {
		lo = new(big.Int).Neg(bound)
	}
	a := s.newAtom("enc", "Enc", lo, bound)
	s.resAt[k] = a
	return a
}

func (it *Interp) panicStr(msg string) {
	panic(targetPanic{v: Value{P: &Iface{t: types.Typ[types.String], v: vStr(msg)}}, msg: msg})
}

func (it *Interp) conc(f Value) func() {
	return func() { it.callValue(f, nil, nil) }
}

// catch runs f, turning a target panic into its message.
func (it *Interp) catch(f Value) (msg string, panicked bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		panicked = true
		msg = tp.msg
		if msg == "" && tp.v.P != nil {
			if i, ok := tp.v.P.(*Iface); ok {
				if s, ok := i.v.P.(string); ok {
					msg = s
				} else {
					msg = "panic of type " + i.t.String()
				}
			}
		}
		if msg == "" {
			msg = "panic"
		}
	}()
	d := it.depth
	defer func() { it.depth = d }()
	it.callValue(f, nil, nil)
	return
}

func init() {
	hreg := func(n string, f func(it *Interp, fn *ssa.Function, a []Value) Value) { reg(vs+n, f) }
	hreg("Choose", func(it *Interp, fn *ssa.Function, a []Value) Value {
		return vInt(int64(it.H.choose(a[0].str(), a[1].int())))
	})
	hreg("Assert", func(it *Interp, fn *ssa.Function, a []Value) Value {
		it.H.addObl(it.boolObl("assert", a[0].str(), a[1]))
		return Value{}
	})
	hreg("Assume", func(it *Interp, fn *ssa.Function, a []Value) Value {
		if a[0].P == nil && a[0].U == 0 {
			panic(abandonT{})
		}
		return Value{}
	})
	hreg("MapOrder", func(it *Interp, fn *ssa.Function, a []Value) Value { it.mapOrder = a[0].int(); return Value{} })
	hreg("PanicMsg", func(it *Interp, fn *ssa.Function, a []Value) Value {
		m, _ := it.catch(a[0])
		return vStr(m)
	})
	hreg("NoPanic", func(it *Interp, fn *ssa.Function, a []Value) Value {
		m, p := it.catch(a[1])
		o := it.boolObl("no-panic", a[0].str(), vBool(!p))
		o.Note = m
		it.H.addObl(o)
		return vBool(!p)
	})
	hreg("Refuses", func(it *Interp, fn *ssa.Function, a []Value) Value {
		_, p := it.catch(a[1])
		o := it.boolObl("refuses", a[0].str(), vBool(p))
		if !p {
			o.Note = "returned instead of refusing"
		}
		it.H.addObl(o)
		return Value{}
	})
	fill := func(it *Interp, fn *ssa.Function, a []Value, loose uint64) Value {
		s := it.S
		mods, n := it.ringMods(a[1], fn.Params[1].Type())
		lvl := a[2].int()
		rows := it.polyRows(a[3])
		Q := big.NewInt(1)
		if lvl >= len(rows) || lvl >= len(mods) {
			it.rtPanic("index out of range [%d] with length %d", lvl, len(rows))
		}
		for _, q := range mods[:lvl+1] {
			Q.Mul(Q, bu(q))
		}
		s.setN(n)
		at := s.newAtom("fill", a[0].str(), bZero, Q.Sub(Q, bOne))
		at.name = a[0].str()
		it.H.fills[at] = a[0].str()
		dom := domCoef
		if a[4].bool() {
			dom = domNTT
		}
		for i := 0; i <= lvl; i++ {
			s.mods[mods[i]] = true
			if loose > 0 {
				s.writeRow(rows[i].ws(), s.lazyRow(s.atomNF(at, mods[i]), dom, "in", bZero, new(big.Int).Mul(bu(mods[i]), bu(loose))))
			} else {
				s.writeRow(rows[i].ws(), s.canonRow(s.atomNF(at, mods[i]), dom))
			}
		}
		it.store(it.fieldPtr(a[3], fn.Params[3].Type(), "IsNTT"), a[4])
		return Value{}
	}
	hreg("Fill", func(it *Interp, fn *ssa.Function, a []Value) Value { return fill(it, fn, a, 0) })
	hreg("FillLoose", func(it *Interp, fn *ssa.Function, a []Value) Value { return fill(it, fn, a, 1) })
	hreg("FillUpTo", func(it *Interp, fn *ssa.Function, a []Value) Value { return fill(it, fn, a, a[5].U) })
	hreg("FillSmall", func(it *Interp, fn *ssa.Function, a []Value) Value {
		s := it.S
		mods, n := it.ringMods(a[1], fn.Params[1].Type())
		lvl := a[2].int()
		rows := it.polyRows(a[3])
		s.setN(n)
		b := big.NewInt(int64(a[4].U))
		at := s.newAtom("small", a[0].str(), new(big.Int).Neg(b), b)
		at.name = a[0].str()
		it.H.fills[at] = a[0].str()
		for i := 0; i <= lvl; i++ {
			s.mods[mods[i]] = true
			s.writeRow(rows[i].ws(), s.canonRow(s.atomNF(at, mods[i]), domCoef))
		}
		return Value{}
	})
	hreg("Of", func(it *Interp, fn *ssa.Function, a []Value) Value {
		mods, n := it.ringMods(a[0], fn.Params[0].Type())
		return it.mkElem(it.ofRows(it.polyRows(a[2]), mods, n, a[1].int(), a[3].bool(), a[4].bool()))
	})
	hreg("Add", func(it *Interp, fn *ssa.Function, a []Value) Value {
		return it.mkElem(it.map2(it.elem(a[0]), it.elem(a[1]), it.S.nfAdd))
	})
	hreg("Sub", func(it *Interp, fn *ssa.Function, a []Value) Value {
		return it.mkElem(it.map2(it.elem(a[0]), it.elem(a[1]), it.S.nfSub))
	})
	hreg("Mul", func(it *Interp, fn *ssa.Function, a []Value) Value {
		return it.mkElem(it.map2(it.elem(a[0]), it.elem(a[1]), it.S.nfMul))
	})
	hreg("Aut", func(it *Interp, fn *ssa.Function, a []Value) Value {
		g := a[1].U
		return it.mkElem(it.map1(it.elem(a[0]), func(x *NF) *NF { return it.S.nfAut(x, int(g%uint64(2*it.S.N))) }))
	})
	hreg("MulMods", func(it *Interp, fn *ssa.Function, a []Value) Value {
		ms := it.conU64(a[1])
		return it.mkElem(it.map1(it.elem(a[0]), func(x *NF) *NF {
			for _, m := range ms {
				x = it.S.nfScale(x, m%x.m)
			}
			return x
		}))
	})
	hreg("MulRes", func(it *Interp, fn *ssa.Function, a []Value) Value {
		x, res := it.elem(a[0]), it.conU64(a[1])
		if len(res) != len(x.mods) {
			it.rtPanic("vsym: MulRes: number of residues")
		}
		i := -1
		return it.mkElem(it.map1(x, func(x *NF) *NF {
			i++
			return it.S.nfScale(x, res[i]%x.m)
		}))
	})
	hreg("MulInt", func(it *Interp, fn *ssa.Function, a []Value) Value {
		k := big.NewInt(int64(a[1].U))
		return it.mkElem(it.map1(it.elem(a[0]), func(x *NF) *NF { return it.S.nfScale(x, bigmod(k, x.m)) }))
	})
	hreg("Restrict", func(it *Interp, fn *ssa.Function, a []Value) Value {
		e := it.elem(a[0])
		r := &symElem{}
		for _, q := range it.conU64(a[1]) {
			for i := range e.mods {
				if e.mods[i] == q {
					r.mods = append(r.mods, q)
					r.nf = append(r.nf, e.nf[i])
					break
				}
			}
		}
		if len(r.mods) != a[1].slice().len {
			it.panicStr("vsym: Restrict to foreign moduli")
		}
		return it.mkElem(r)
	})
	join := func(a, b *symElem) *symElem {
		return &symElem{mods: append(append([]uint64{}, a.mods...), b.mods...), nf: append(append([]*NF{}, a.nf...), b.nf...)}
	}
	hreg("Join", func(it *Interp, fn *ssa.Function, a []Value) Value {
		return it.mkElem(join(it.elem(a[0]), it.elem(a[1])))
	})
	hreg("ZeroE", func(it *Interp, fn *ssa.Function, a []Value) Value {
		r := &symElem{mods: it.conU64(a[1])}
		for _, q := range r.mods {
			r.nf = append(r.nf, &NF{m: q})
		}
		return it.mkElem(r)
	})
	hreg("ConstE", func(it *Interp, fn *ssa.Function, a []Value) Value {
		r := &symElem{mods: it.conU64(a[1])}
		for _, q := range r.mods {
			r.nf = append(r.nf, it.S.nfShift(it.S.nfConst(q, bigmod(big.NewInt(int64(a[2].U)), q)), a[3].int()))
		}
		return it.mkElem(r)
	})
	lift := func(it *Interp, e *symElem, R []uint64) *symElem {
		x := it.map1(e, func(x *NF) *NF {
			for _, m := range R {
				x = it.S.nfScale(x, m%x.m)
			}
			return x
		})
		z := &symElem{mods: R}
		for _, q := range R {
			z.nf = append(z.nf, &NF{m: q})
		}
		return join(x, z)
	}
	hreg("Lift", func(it *Interp, fn *ssa.Function, a []Value) Value {
		return it.mkElem(lift(it, it.elem(a[0]), it.conU64(a[1])))
	})
	hreg("Near", func(it *Interp, fn *ssa.Function, a []Value) Value {
		R := it.conU64(a[2])
		lim := new(big.Int).Lsh(bOne, 52) // fractional bounds: scale after multiplying by prod(R)
		if lb := a[4].f64(); lb < 52 {
			for _, r := range R {
				lim.Mul(lim, bu(r))
			}
			lim = shiftPow2(lim, lb-52)
		} else {
			lim = logPow2(lb)
			for _, r := range R {
				lim.Mul(lim, bu(r))
			}
		}
		it.near(a[0].str(), lift(it, it.elem(a[1]), R), it.elem(a[3]), R, lim)
		return Value{}
	})
	hreg("Equal", func(it *Interp, fn *ssa.Function, a []Value) Value {
		x, y := it.elem(a[1]), it.elem(a[2])
		it.sameMods(x, y)
		it.equalObl(a[0].str(), x, y)
		return Value{}
	})
	hreg("EqPoly", func(it *Interp, fn *ssa.Function, a []Value) Value {
		it.eqPoly(a[0].str(), a[1], a[2], fn.Params[1].Type())
		return Value{}
	})
	hreg("EqRow", func(it *Interp, fn *ssa.Function, a []Value) Value {
		x, y, i := it.polyRows(a[1]), it.polyRows(a[2]), a[3].int()
		if i >= len(x) || i >= len(y) {
			it.rtPanic("index out of range [%d] with length %d", i, len(x))
		}
		it.eqRows(a[0].str(), x[i:i+1], y[i:i+1])
		return Value{}
	})
	hreg("Small", func(it *Interp, fn *ssa.Function, a []Value) Value {
		e := it.elem(a[1])
		it.near(a[0].str(), e, it.map1(e, func(x *NF) *NF { return &NF{m: x.m} }), nil, logPow2(a[2].f64()))
		return Value{}
	})
	hreg("ScaledBy", func(it *Interp, fn *ssa.Function, a []Value) Value {
		it.scaledBy(a[0].str(), it.elem(a[1]), it.elem(a[2]), a[3].f64(), a[4].f64(), a[5].f64(), a[6].f64())
		return Value{}
	})
	rangeCheck := func(it *Interp, name string, ringV Value, rt types.Type, lvl int, p Value, k uint64, incl bool) {
		mods, _ := it.ringMods(ringV, rt)
		rows := it.polyRows(p)
		seen := map[string]bool{}
		for i := 0; i <= lvl; i++ {
			if i >= len(rows) {
				it.rtPanic("index out of range [%d] with length %d", i, len(rows))
			}
			lim := new(big.Int).Mul(bu(mods[i]), bu(k))
			if !incl {
				lim.Sub(lim, bOne)
			}
			for j, w := range rows[i].ws() {
				if w.P == nil {
					if bu(w.U).Cmp(lim) > 0 {
						o := it.boolObl("range", name, vBool(false))
						o.Note = fmt.Sprintf("row %d word %d is %d", i, j, w.U)
						it.H.addObl(o)
						return
					}
					continue
				}
				y := it.S.exact(it.S.toSym(w))
				tk := fmt.Sprintf("%d|%s", i, it.S.tkey(y))
				if seen[tk] {
					continue
				}
				seen[tk] = true
				smt, ins := it.wordSMT(map[string]*Sym{"w": y})
				it.H.addObl(&Obl{Kind: "range", Name: name, Expect: "unsat", Inputs: ins, Note: fmt.Sprintf("row %d word %d in [%s,%s], allowed up to %s", i, j, y.lo, y.hi, lim),
					SMT: smt + fmt.Sprintf("(assert (not (and (<= 0 w) (<= w %s))))\n", lim)})
			}
		}
		if len(seen) == 0 {
			it.H.addObl(it.boolObl("range", name, vBool(true)))
		}
	}
	hreg("Canonical", func(it *Interp, fn *ssa.Function, a []Value) Value {
		rangeCheck(it, a[0].str(), a[1], fn.Params[1].Type(), a[2].int(), a[3], 1, false)
		return Value{}
	})
	hreg("WithinQ", func(it *Interp, fn *ssa.Function, a []Value) Value {
		rangeCheck(it, a[0].str(), a[1], fn.Params[1].Type(), a[2].int(), a[3], a[4].U, true)
		return Value{}
	})
	hreg("Concurrent", func(it *Interp, fn *ssa.Function, a []Value) Value {
		var labels []string
		for _, c := range it.sliceCells(a[1]) {
			labels = append(labels, c.str())
		}
		it.concurrent(a[0].str(), labels, append([]Value(nil), it.sliceCells(a[2])...))
		return Value{}
	})
	hreg("Disjoint", func(it *Interp, fn *ssa.Function, a []Value) Value {
		ok := !(a[1].P == a[2].P && a[1].U == a[2].U)
		x, y := it.polyRows(a[1]), it.polyRows(a[2])
		for _, r := range x {
			for _, t := range y {
				if r != nil && t != nil && r.obj == t.obj && r.off < t.off+t.len && t.off < r.off+r.len {
					ok = false
				}
			}
		}
		o := it.boolObl("disjoint", a[0].str(), vBool(ok))
		if !ok {
			o.Note = "the two polynomials share memory"
		}
		it.H.addObl(o)
		return Value{}
	})
	// footprint adds the memory of polynomials to a table of intervals per object
	type ival struct{ lo, hi, k int }
	footprint := func(it *Interp, v Value, t map[*Obj][]ival) (bad bool) {
		seen := map[string]bool{}
		for k, c := range it.sliceCells(v) {
			id := fmt.Sprintf("%p/%v", c.P, c.U)
			if seen[id] {
				bad = true
			}
			seen[id] = true
			for _, r := range it.polyRows(c) {
				if r != nil && r.len > 0 {
					for _, o := range t[r.obj] {
						if o.k != k && o.lo < r.off+r.len && r.off < o.hi {
							bad = true
						}
					}
					t[r.obj] = append(t[r.obj], ival{r.off, r.off + r.len, k})
				}
			}
		}
		return
	}
	hreg("Separate", func(it *Interp, fn *ssa.Function, a []Value) Value {
		bad := footprint(it, a[1], map[*Obj][]ival{})
		o := it.boolObl("disjoint", a[0].str(), vBool(!bad))
		if bad {
			o.Note = "two of the polynomials share memory"
		}
		it.H.addObl(o)
		return Value{}
	})
	hreg("DisjointAll", func(it *Interp, fn *ssa.Function, a []Value) Value {
		x, y := map[*Obj][]ival{}, map[*Obj][]ival{}
		footprint(it, a[1], x)
		footprint(it, a[2], y)
		bad := false
		for ob, is := range x {
			for _, i := range is {
				for _, j := range y[ob] {
					if i.lo < j.hi && j.lo < i.hi {
						bad = true
					}
				}
			}
		}
		o := it.boolObl("disjoint", a[0].str(), vBool(!bad))
		if bad {
			o.Note = "two of the polynomials share memory"
		}
		it.H.addObl(o)
		return Value{}
	})
	hreg("Fresh", func(it *Interp, fn *ssa.Function, a []Value) Value {
		var es []*symElem
		for _, c := range it.sliceCells(a[1]) {
			es = append(es, it.elem(c))
		}
		it.fresh(a[0].str(), es)
		return Value{}
	})
	elems := func(it *Interp, v Value) (es []*symElem) {
		for _, c := range it.sliceCells(v) {
			es = append(es, it.elem(c))
		}
		return
	}
	hreg("Gauss", func(it *Interp, fn *ssa.Function, a []Value) Value {
		it.sampled(a[0].str(), "gauss", [3]float64{a[1].f64(), 0, 0}, elems(it, a[2]))
		return Value{}
	})
	hreg("Tern", func(it *Interp, fn *ssa.Function, a []Value) Value {
		it.sampled(a[0].str(), "ternary", [3]float64{0, a[1].f64(), float64(a[2].int())}, elems(it, a[3]))
		return Value{}
	})
	hreg("Masks", func(it *Interp, fn *ssa.Function, a []Value) Value {
		it.masks(a[0].str(), a[1].int(), a[2].int(), a[3].f64(), a[4].f64(), elems(it, a[5]))
		return Value{}
	})
	hreg("Reps", func(it *Interp, fn *ssa.Function, a []Value) Value { return a[0] })
	hreg("Uniform", func(it *Interp, fn *ssa.Function, a []Value) Value {
		var es []*symElem
		for _, c := range it.sliceCells(a[1]) {
			es = append(es, it.elem(c))
		}
		it.uniform(a[0].str(), es)
		return Value{}
	})
	hreg("SmallNonzero", func(it *Interp, fn *ssa.Function, a []Value) Value {
		e := it.elem(a[1])
		z := it.map1(e, func(x *NF) *NF { return &NF{m: x.m} })
		it.near(a[0].str(), e, z, nil, logPow2(a[2].f64()))
		nz := false
		for _, x := range e.nf {
			if !x.isZero() {
				nz = true
			}
		}
		o := it.boolObl("nonzero", a[0].str(), vBool(nz))
		if !nz {
			o.Note = "identically zero"
		}
		it.H.addObl(o)
		return Value{}
	})
	hreg("CMsg", func(it *Interp, fn *ssa.Function, a []Value) Value {
		at := it.S.newAtom("msg", a[0].str(), bZero, bOne)
		for i := range it.sliceCells(a[1]) {
			s := a[1].slice()
			s.obj.cells[s.off+i] = Value{P: symC{at, i}}
		}
		return Value{}
	})
	hreg("IMsg", func(it *Interp, fn *ssa.Function, a []Value) Value {
		at := it.S.newAtom("msg", a[0].str(), bZero, bOne)
		for i := range it.sliceCells(a[1]) {
			s := a[1].slice()
			s.obj.cells[s.off+i] = Value{P: symC{at, i}}
		}
		return Value{}
	})
	decodes := func(it *Interp, name string, out, in Value, cplx bool, logB float64, t uint64) {
		oc, ic := it.sliceCells(out), it.sliceCells(in)
		bad := func(f string, x ...any) {
			o := it.boolObl("decodes", name, vBool(false))
			o.Note = fmt.Sprintf(f, x...)
			it.H.addObl(o)
		}
		if len(oc) != len(ic) || len(oc) == 0 {
			bad("%d slots decoded, %d encoded", len(oc), len(ic))
			return
		}
		d0, ok := oc[0].P.(decC)
		if !ok {
			bad("the output is not a decoded message")
			return
		}
		for i, c := range oc {
			if d, ok := c.P.(decC); !ok || d.rec != d0.rec || d.idx != i {
				bad("slot %d is not slot %d of the decoded message", i, i)
				return
			}
		}
		rec := d0.rec
		key := ""
		var bound *big.Int
		if cplx {
			key, bound = ckksEncKey(it, rec.scale, rec.slots)
		} else {
			key = fmt.Sprintf("bfv%d", t)
			bound = bOne
			if rec.t != t {
				bad("decoded modulo %d", rec.t)
				return
			}
		}
		if a := it.S.encAtomPeek(ic, key); a != nil {
			bound = a.hi
		}
		at := it.S.encAtom(ic, key, bound, cplx)
		got := &symElem{mods: rec.mods, nf: rec.nf}
		want := &symElem{mods: rec.mods}
		for _, q := range rec.mods {
			if at == nil {
				want.nf = append(want.nf, &NF{m: q})
			} else {
				want.nf = append(want.nf, it.S.atomNF(at, q))
			}
		}
		lim := logPow2(logB)
		if !cplx { // correct decoding needs an error below Q/(2t)
			lim = big.NewInt(1)
			for _, q := range rec.mods {
				lim.Mul(lim, bu(q))
			}
			lim.Div(lim, bu(2*t))
			lim.Sub(lim, big.NewInt(2))
		}
		it.near(name, got, want, nil, lim)
	}
	hreg("CDecodes", func(it *Interp, fn *ssa.Function, a []Value) Value {
		decodes(it, a[0].str(), a[1], a[2], true, a[4].f64(), 0)
		return Value{}
	})
	hreg("IDecodes", func(it *Interp, fn *ssa.Function, a []Value) Value {
		decodes(it, a[0].str(), a[1], a[2], false, 0, a[3].U)
		return Value{}
	})
	hreg("EqI", func(it *Interp, fn *ssa.Function, a []Value) Value {
		x, y := it.sliceCells(a[1]), it.sliceCells(a[2])
		ok := len(x) == len(y)
		for i := 0; ok && i < len(x); i++ {
			ok = x[i] == y[i]
		}
		it.H.addObl(it.boolObl("equal-message", a[0].str(), vBool(ok)))
		return Value{}
	})
	hreg("SameDecoded", func(it *Interp, fn *ssa.Function, a []Value) Value {
		x, y := it.sliceCells(a[1]), it.sliceCells(a[2])
		name := a[0].str()
		bad := func(f string, x ...any) {
			o := it.boolObl("decodes", name, vBool(false))
			o.Note = fmt.Sprintf(f, x...)
			it.H.addObl(o)
		}
		if len(x) != len(y) {
			bad("%d and %d slots", len(x), len(y))
			return Value{}
		}
		for i := range x {
			d, ok1 := x[i].P.(decC)
			e, ok2 := y[i].P.(decC)
			if !ok1 || !ok2 || d.idx != e.idx || d.rec.scale != e.rec.scale || d.rec.slots != e.rec.slots || d.rec.t != e.rec.t || len(d.rec.mods) != len(e.rec.mods) {
				bad("slot %d is not the same slot decoded at the same scale, size and level", i)
				return Value{}
			}
			if i == 0 {
				for k := range d.rec.mods {
					if d.rec.mods[k] != e.rec.mods[k] {
						bad("decoded over different moduli")
						return Value{}
					}
				}
				it.equalObl(name, &symElem{mods: d.rec.mods, nf: d.rec.nf}, &symElem{mods: e.rec.mods, nf: e.rec.nf})
			} else if d.rec != x[0].P.(decC).rec || e.rec != y[0].P.(decC).rec {
				bad("slot %d comes from another decoding", i)
				return Value{}
			}
		}
		return Value{}
	})
	hreg("Note", func(it *Interp, fn *ssa.Function, a []Value) Value {
		it.H.notes = append(it.H.notes, a[0].str())
		return Value{}
	})

	// encoders: contracts of lattigo's ckks and bfv encoders
	ck := "(*github.com/ldsec/lattigo/v2/ckks.encoderComplex128)."
	reg("github.com/ldsec/lattigo/v2/ckks.NewEncoder", func(it *Interp, fn *ssa.Function, a []Value) Value {
		p := it.P.prog.ImportedPackage("github.com/ldsec/lattigo/v2/ckks")
		t := p.Type("encoderComplex128").Type()
		o := it.newObj(it.sizeof(t))
		o.tag = a[0]
		return Value{P: &Iface{t: types.NewPointer(t), v: ptr(o, 0)}}
	})
	plainInfo := func(it *Interp, fn *ssa.Function, i int, v Value) (rows []*SliceV, mods []uint64, n int, scale float64, ntt bool) {
		pt := fn.Params[i].Type()
		pv, pvt := it.field(v, pt, "Plaintext", "Value")
		sc, _ := it.field(v, pt, "Scale")
		scale = sc.f64()
		rows = it.polyRows(pv)
		nt, _ := it.field(pv, pvt, "IsNTT")
		ntt = nt.bool()
		return
	}
	encMods := func(it *Interp, encV Value, pkg string) ([]uint64, int, Value, types.Type) {
		prm := encV.P.(*Obj).tag.(Value)
		ag := prm.P.(Agg)
		o := &Obj{cells: []Value(ag)}
		p := it.P.prog.ImportedPackage("github.com/ldsec/lattigo/v2/" + pkg)
		t := types.NewPointer(p.Type("Parameters").Type())
		rq, rt := it.field(ptr(o, 0), t, "Parameters", "ringQ")
		mods, n := it.ringMods(rq, rt)
		return mods, n, ptr(o, 0), t
	}
	reg(ck+"Encode", func(it *Interp, fn *ssa.Function, a []Value) Value {
		it.markPtr(a[0], 2) // encoders own scratch memory
		s := it.S
		mods, n, _, _ := encMods(it, a[0], "ckks")
		rows, _, _, scale, _ := plainInfo(it, fn, 1, a[1])
		logSlots := a[3].int()
		cells := it.sliceCells(a[2])
		if len(cells) > n/2 || len(cells) > 1<<uint(logSlots) || 1<<uint(logSlots) > n/2 {
			it.panicStr("cannot Encode: too many values/slots for the given ring degree")
		}
		key, b := ckksEncKey(it, scale, 1<<uint(logSlots))
		at := s.encAtom(cells, key, b, true)
		if len(rows) > len(mods) {
			it.rtPanic("slice bounds out of range")
		}
		for i, r := range rows {
			nf := &NF{m: mods[i]}
			if at != nil {
				nf = s.atomNF(at, mods[i])
			}
			it.wr(r, r.len)
			s.writeRow(r.ws(), s.canonRow(nf, domCoef))
		}
		pv, pvt := it.field(a[1], fn.Params[1].Type(), "Plaintext", "Value")
		it.store(it.fieldPtr(pv, pvt, "IsNTT"), vBool(false))
		return Value{}
	})
	reg(ck+"Decode", func(it *Interp, fn *ssa.Function, a []Value) Value {
		it.markPtr(a[0], 2)
		mods, n, _, _ := encMods(it, a[0], "ckks")
		rows, _, _, scale, ntt := plainInfo(it, fn, 1, a[1])
		slots := 1 << uint(a[2].int())
		if slots > n/2 {
			it.panicStr("cannot Decode: too many slots for the given ring degree")
		}
		e := it.ofRows(rows, mods, n, len(rows)-1, ntt, false)
		rec := &decRec{mods: e.mods, nf: e.nf, scale: scale, slots: slots}
		o := it.newObj(slots)
		for i := range o.cells {
			o.cells[i] = Value{P: decC{rec, i}}
		}
		return Value{P: &SliceV{obj: o, len: slots, cap: slots, esz: 1}}
	})
	reg("github.com/ldsec/lattigo/v2/bfv.NewEncoder", func(it *Interp, fn *ssa.Function, a []Value) Value {
		p := it.P.prog.ImportedPackage("github.com/ldsec/lattigo/v2/bfv")
		t := p.Type("encoder").Type()
		o := it.newObj(it.sizeof(t))
		o.tag = a[0]
		return Value{P: &Iface{t: types.NewPointer(t), v: ptr(o, 0)}}
	})
	bf := "(*github.com/ldsec/lattigo/v2/bfv.encoder)."
	bfvPlain := func(it *Interp, fn *ssa.Function, i int, v Value) (rows []*SliceV) {
		pt := fn.Params[i].Type()
		if _, ok := pt.Underlying().(*types.Interface); ok {
			f := v.P.(*Iface)
			if !strings.HasSuffix(f.t.String(), "bfv.Plaintext") {
				unsupported("decoding %s", f.t)
			}
			v, pt = f.v, f.t
		}
		pv, _ := it.field(v, pt, "Plaintext", "Value")
		return it.polyRows(pv)
	}
	bfvT := func(it *Interp, pv Value, pt types.Type) uint64 {
		rt, rtt := it.field(pv, pt, "ringT")
		m, _ := it.ringMods(rt, rtt)
		return m[0]
	}
	reg(bf+"EncodeInt", func(it *Interp, fn *ssa.Function, a []Value) Value {
		it.markPtr(a[0], 2)
		s := it.S
		mods, n, pv, pt := encMods(it, a[0], "bfv")
		rows := bfvPlain(it, fn, 2, a[2])
		cells := it.sliceCells(a[1])
		if len(cells) > n {
			it.panicStr("invalid input to encode: number of coefficients must be smaller or equal to the ring degree")
		}
		Q := big.NewInt(1)
		for _, q := range mods {
			Q.Mul(Q, bu(q))
		}
		at := s.encAtom(cells, fmt.Sprintf("bfv%d", bfvT(it, pv, pt)), new(big.Int).Sub(Q, bOne), false)
		if len(rows) > len(mods) {
			it.rtPanic("index out of range")
		}
		for i, r := range rows {
			nf := &NF{m: mods[i]}
			if at != nil {
				nf = s.atomNF(at, mods[i])
			}
			it.wr(r, r.len)
			s.writeRow(r.ws(), s.canonRow(nf, domCoef))
		}
		return Value{}
	})
	reg(bf+"DecodeInt", func(it *Interp, fn *ssa.Function, a []Value) Value {
		it.markPtr(a[0], 2)
		mods, n, pv, pt := encMods(it, a[0], "bfv")
		rows := bfvPlain(it, fn, 1, a[1])
		out := a[2].slice()
		if len(rows) < len(mods) || out == nil || out.len < n {
			it.rtPanic("index out of range in DecodeInt")
		}
		e := it.ofRows(rows, mods, n, len(mods)-1, false, false)
		rec := &decRec{mods: e.mods, nf: e.nf, t: bfvT(it, pv, pt)}
		for i := 0; i < n; i++ {
			it.mark(out.obj, out.off+i, 1, 2)
			out.obj.cells[out.off+i] = Value{P: decC{rec, i}}
		}
		return Value{}
	})
}

func (s *SymCtx) encAtomPeek(cells []Value, key string) *Atom {
	return nil
}

func ckksEncKey(it *Interp, scale float64, slots int) (string, *big.Int) {
	b := logPow2(math.Log2(scale) + 1.6)
	return fmt.Sprintf("ckks%v/%d", scale, slots), b
}

// boolObl states a boolean (usually decided by the concrete control structure of the path).
func (it *Interp) boolObl(kind, name string, v Value) *Obl {
	o := &Obl{Kind: kind, Name: name, Expect: "unsat"}
	if v.P == nil {
		o.SMT = fmt.Sprintf("(assert (not %v))\n", v.U != 0)
		return o
	}
	b, ok := v.P.(*SymBool)
	if !ok {
		o.Broken = "assertion on an uninterpreted value"
		return o
	}
	smt, ins := it.wordSMT(map[string]*Sym{"x": b.x, "y": b.y})
	op := map[string]string{"<": "<", "<=": "<=", ">": ">", ">=": ">=", "==": "="}[b.op.String()]
	e := fmt.Sprintf("(%s x y)", op)
	if b.ng {
		e = "(not " + e + ")"
	}
	o.SMT = smt + "(assert (not " + e + "))\n"
	o.Inputs = ins
	return o
}

// wordSMT declares the named machine words as integer polynomials over word atoms.
func (it *Interp) wordSMT(ws map[string]*Sym) (string, []string) {
	var sb strings.Builder
	seen := map[*WAtom]string{}
	var ins []string
	var decl func(a *WAtom) string
	var expr func(w *Sym) string
	expr = func(w *Sym) string {
		e := w.k.e
		for _, t := range w.t {
			if t.c.e > e {
				e = t.c.e
			}
		}
		parts := []string{smtInt(new(big.Int).Lsh(w.k.n, e-w.k.e))}
		for _, t := range w.t {
			p := []string{smtInt(new(big.Int).Lsh(t.c.n, e-t.c.e))}
			for _, a := range t.w {
				p = append(p, decl(a))
			}
			parts = append(parts, "(* "+strings.Join(p, " ")+")")
		}
		x := parts[0]
		if len(parts) > 1 {
			x = "(+ " + strings.Join(parts, " ") + ")"
		}
		if e > 0 {
			x = fmt.Sprintf("(div %s %s)", x, new(big.Int).Lsh(bOne, e))
		}
		return x
	}
	decl = func(a *WAtom) string {
		if n, ok := seen[a]; ok {
			return n
		}
		n := fmt.Sprintf("a%d", a.id)
		seen[a] = n
		if a.def != nil {
			d := expr(a.def)
			fmt.Fprintf(&sb, "(define-fun %s () Int (mod %s %s))\n", n, d, two64)
			return n
		}
		if a.row != nil && a.row.nf != nil && len(a.row.nf.t) == 1 && len(a.row.nf.t[0].m.f) == 1 {
			if f, ok := it.H.fills[a.row.nf.t[0].m.f[0].a]; ok {
				ins = append(ins, fmt.Sprintf("%s=%s/%d/%d", n, f, a.row.m, a.idx))
			}
		}
		fmt.Fprintf(&sb, "(declare-const %s Int)(assert (and (<= %s %s) (<= %s %s)))\n", n, smtInt(a.lo), n, n, smtInt(a.hi))
		return n
	}
	var names []string
	for n := range ws {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		d := expr(ws[n])
		fmt.Fprintf(&sb, "(define-fun %s () Int %s)\n", n, d)
	}
	return sb.String(), ins
}

func (it *Interp) eqPoly(name string, a, b Value, t types.Type) {
	x, y := it.polyRows(a), it.polyRows(b)
	if len(x) != len(y) {
		o := it.boolObl("equal-words", name, vBool(false))
		o.Note = fmt.Sprintf("%d and %d rows", len(x), len(y))
		it.H.addObl(o)
		return
	}
	fa := it.load(it.fieldPtr(a, t, "IsNTT"), types.Typ[types.Bool])
	fb := it.load(it.fieldPtr(b, t, "IsNTT"), types.Typ[types.Bool])
	ma := it.load(it.fieldPtr(a, t, "IsMForm"), types.Typ[types.Bool])
	mb := it.load(it.fieldPtr(b, t, "IsMForm"), types.Typ[types.Bool])
	if fa.U != fb.U || ma.U != mb.U {
		o := it.boolObl("equal-words", name, vBool(false))
		o.Note = "domain flags differ"
		it.H.addObl(o)
		return
	}
	it.eqRows(name, x, y)
}

func (it *Interp) eqRows(name string, x, y []*SliceV) {
	s := it.S
	for i := range x {
		u, v := x[i].ws(), y[i].ws()
		if len(u) != len(v) {
			o := it.boolObl("equal-words", name, vBool(false))
			o.Note = fmt.Sprintf("row %d has %d and %d words", i, len(u), len(v))
			it.H.addObl(o)
			return
		}
		var diff []int
		for j := range u {
			if !sameWord(u[j], v[j]) {
				diff = append(diff, j)
			}
		}
		if len(diff) == 0 {
			it.H.addObl(&Obl{Kind: "equal-words", Name: name, Expect: "unsat", SMT: "(declare-const w Int)(assert (not (= w w)))\n", Note: "identical words"})
			continue
		}
		// same residues and both canonical: equal
		ru, rv := s.rowOfAny(u), s.rowOfAny(v)
		if ru != nil && rv != nil && ru.m == rv.m && ru.m != 0 && ru.dom == rv.dom {
			d := s.nfSub(ru.nf, rv.nf)
			if !ru.canon || !rv.canon {
				if d.isZero() {
					o := it.boolObl("equal-words", name, vBool(false))
					o.Note = fmt.Sprintf("row %d: congruent but not canonically reduced", i)
					it.H.addObl(o)
					continue
				}
			}
			it.modObl("equal-words", name, ru.m, fmt.Sprintf("row %d", i), []*NF{ru.nf}, []*NF{rv.nf})
			continue
		}
		for _, j := range diff {
			smt, ins := it.wordSMT(map[string]*Sym{"x": s.exact(s.toSym(u[j])), "y": s.exact(s.toSym(v[j]))})
			it.H.addObl(&Obl{Kind: "equal-words", Name: name, Expect: "unsat", SMT: smt + "(assert (not (= x y)))\n", Inputs: ins, Note: fmt.Sprintf("row %d word %d", i, j)})
		}
	}
}

func sameWord(a, b Value) bool {
	if a.P == nil && b.P == nil {
		return a.U == b.U
	}
	x, ok1 := a.P.(*Sym)
	y, ok2 := b.P.(*Sym)
	if ok1 && ok2 {
		return x == y || x.Key() == y.Key()
	}
	return false
}

// rowOfAny reads a vector as a row of its own modulus.
func (s *SymCtx) rowOfAny(ws []Value) *Row {
	if r := fastRow(ws); r != nil {
		return r
	}
	var m uint64
	dom := domCoef
	for _, w := range ws {
		y, ok := w.P.(*Sym)
		if !ok {
			continue
		}
		for _, t := range y.t {
			for _, a := range t.w {
				if a.row == nil || a.row.m == 0 {
					return nil
				}
				if m == 0 {
					m, dom = a.row.m, a.row.dom
				} else if m != a.row.m {
					return nil
				}
			}
		}
	}
	if m == 0 || len(ws) != s.N {
		return nil
	}
	return s.liftRow(ws, m, dom)
}

// where describes the interpreted call stack.
func (it *Interp) where() string {
	var sb strings.Builder
	for i := len(it.stack) - 1; i >= 0 && i > len(it.stack)-12; i-- {
		sb.WriteString("      in " + it.stack[i].String() + "\n")
	}
	return sb.String()
}

func init() {
	reg(vs+"Thorough", func(it *Interp, fn *ssa.Function, a []Value) Value { return vBool(it.thorough) })
}

// scaledBy: out = (k + l*X^(N/2))*in modulo every prime, with k and l close to re*scale and im*scale.
func (it *Interp) scaledBy(name string, out, in *symElem, re, im, scale, rel float64) {
	it.sameMods(out, in)
	s := it.S
	xh := s.mono(nil, s.N/2)
	var ks, ls []uint64
	for i, q := range in.mods {
		var m0, m1 *Mono
		var c0 uint64
		neg := false
		for _, t := range in.nf[i].t {
			m, ng := s.monoMul(t.m, xh)
			if coefOf(in.nf[i], m) == 0 {
				m0, m1, c0, neg = t.m, m, t.c, ng
				break
			}
		}
		if m0 == nil {
			if in.nf[i].isZero() {
				it.modObl("scaled", name, q, "zero times a constant", []*NF{out.nf[i]}, []*NF{{m: q}})
				return
			}
			unsupported("ScaledBy: no monomial to read the multiplier from")
		}
		ci := invmod(c0, q)
		k := mulmod(coefOf(out.nf[i], m0), ci, q)
		l := mulmod(coefOf(out.nf[i], m1), ci, q)
		if neg {
			l = submod(0, l, q)
		}
		want := s.nfAdd(s.nfScale(in.nf[i], k), s.nfScale(s.nfMul(in.nf[i], &NF{m: q, t: []term{{xh, 1}}}), l))
		it.modObl("scaled", name, q, "", []*NF{out.nf[i]}, []*NF{want})
		ks, ls = append(ks, k), append(ls, l)
	}
	for w, rs := range [][]uint64{ks, ls} {
		t := new(big.Rat).Mul(new(big.Rat).SetFloat64([]float64{re, im}[w]), new(big.Rat).SetFloat64(scale))
		tol := new(big.Rat).Mul(new(big.Rat).Abs(t), new(big.Rat).SetFloat64(rel))
		tol.Add(tol, big.NewRat(1, 2))
		// the representative closest to t
		K, M := new(big.Int), big.NewInt(1)
		for i, q := range in.mods {
			d := submod(rs[i], bigmod(K, q), q)
			d = mulmod(d, invmod(bigmod(M, q), q), q)
			K.Add(K, new(big.Int).Mul(M, bu(d)))
			M.Mul(M, bu(q))
		}
		near := new(big.Int).Div(t.Num(), t.Denom())
		f := new(big.Int).Sub(near, K)
		f.Add(f, new(big.Int).Rsh(M, 1)).Div(f, M)
		K.Add(K, f.Mul(f, M))
		var sb strings.Builder
		fmt.Fprintf(&sb, "(define-fun K () Int %s)\n(define-fun d () Real (- (to_real K) %s))\n(define-fun tol () Real (/ %s.0 %s.0))\n", smtInt(K), smtRat(t), tol.Num(), tol.Denom())
		sb.WriteString("(assert (not (and (<= d tol) (<= (- d) tol)")
		for i, q := range in.mods {
			fmt.Fprintf(&sb, " (= (mod K %d) %d)", q, rs[i])
		}
		sb.WriteString(")))\n")
		o := &Obl{Kind: "multiplier", Name: name, Expect: "unsat", SMT: sb.String()}
		o.Note = fmt.Sprintf("multiplier %v, want %v*%v", K, []float64{re, im}[w], scale)
		it.H.addObl(o)
	}
}
