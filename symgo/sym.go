package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"

)

// ---- rows: vectors of N machine words ------------------------------------------------------

const (
	domCoef = 1
	domNTT  = 2
)

// Row is a symbolic vector of N words, word j congruent mod m to coefficient (or NTT slot) j of nf.
type Row struct {
	id    int
	m     uint64 // 0 for plain integer rows (then ia is the value)
	nf    *NF
	dom   int
	canon bool
	hi    *big.Int // upper bound of every word (lower bound is >= 0)
	lo    *big.Int
	ia    *Atom
	words []*Sym
	atoms []*WAtom
}

type WAtom struct {
	id     int
	row    *Row
	idx    int
	lo, hi *big.Int
	def    *Sym // for Lo atoms: value = def mod 2^64
	opaque bool
}

// dy is the dyadic rational n / 2^e.
type dy struct {
	n *big.Int
	e uint
}

func (a dy) norm() dy {
	if a.e == 0 {
		return a
	}
	if a.n.Sign() == 0 {
		return dy{a.n, 0}
	}
	tz := a.n.TrailingZeroBits()
	if tz > a.e {
		tz = a.e
	}
	if tz == 0 {
		return a
	}
	return dy{new(big.Int).Rsh(a.n, tz), a.e - tz}
}
func dyAdd(a, b dy) dy {
	if a.e == b.e {
		return dy{new(big.Int).Add(a.n, b.n), a.e}.norm()
	}
	if a.e < b.e {
		a, b = b, a
	}
	t := new(big.Int).Lsh(b.n, a.e-b.e)
	return dy{t.Add(t, a.n), a.e}.norm()
}
func dyMul(a, b dy) dy { return dy{new(big.Int).Mul(a.n, b.n), a.e + b.e}.norm() }
func (a dy) mod(m uint64) uint64 {
	r := bigmod(a.n, m)
	if a.e > 0 {
		r = mulmod(r, invmod(powmod(2, uint64(a.e), m), m), m)
	}
	return r
}
func dyI(n *big.Int) dy { return dy{n, 0} }

type sterm struct {
	w []*WAtom // sorted by id
	c dy
}

// Sym is a machine word (or, before reduction, an integer congruent to it mod 2^64):
// k + sum c_i * prod(words), with bounds [lo,hi] on the integer.
type Sym struct {
	t      []sterm
	k      dy
	lo, hi *big.Int
	key    string
}

type SymBool struct {
	op token.Token // LSS LEQ EQL ... on x ? y
	x  *Sym
	y  *Sym
	ng bool

	rx, ry *Sym // the operands before reduction to words
}

func (b *SymBool) not() *SymBool {
	c := *b
	c.ng = !b.ng
	return &c
}

type SymF struct {
	lin    map[*WAtom]*big.Rat
	k      *big.Rat
	err    *big.Rat
	lo, hi *big.Rat
}

type symPtr struct {
	obj    *Obj
	off, n int
	idx    *Sym
}

type SymCtx struct {
	it      *Interp
	N       int
	nAtoms  int
	atoms   []*Atom
	monos   map[string]*Mono
	mmCache map[monoKey]mmRes
	nRows   int
	rows    map[string]*Row
	resAt   map[string]*Atom
	nW      int
	loAt    map[string]*WAtom
	lift    map[string]*liftRes
	mods    map[uint64]bool // registry of ring moduli
	rowOps  map[string]*Row
	obl     func(kind, name, smt string, ok bool)
	vrows   map[string]*Row
	stats   map[string]int
	forks   int
	facts   []fact
	pcond   []string
	inited  bool
	others  map[int]*degTabs // the tables of the other ring degrees of this path
}

// degTabs are the tables whose entries mean something for one ring degree only.
type degTabs struct {
	monos   map[string]*Mono
	mmCache map[monoKey]mmRes
	rows    map[string]*Row
	resAt   map[string]*Atom
	loAt    map[string]*WAtom
	lift    map[string]*liftRes
	rowOps  map[string]*Row
	vrows   map[string]*Row
}

func newSymCtx(it *Interp) *SymCtx {
	return &SymCtx{it: it, monos: map[string]*Mono{}, mmCache: map[monoKey]mmRes{}, rows: map[string]*Row{}, resAt: map[string]*Atom{},
		loAt: map[string]*WAtom{}, lift: map[string]*liftRes{}, mods: map[uint64]bool{}, rowOps: map[string]*Row{}, vrows: map[string]*Row{}, stats: map[string]int{}}
}

var (
	two64  = new(big.Int).Lsh(big.NewInt(1), 64)
	max64  = new(big.Int).Sub(two64, big.NewInt(1))
	bZero  = big.NewInt(0)
	bOne   = big.NewInt(1)
	rat0   = new(big.Rat)
	rat1   = big.NewRat(1, 1)
	eps53  = new(big.Rat).SetFrac(bOne, new(big.Int).Lsh(bOne, 53))
	two53  = new(big.Int).Lsh(bOne, 53)
	dyZero = dy{bZero, 0}
)

// setN takes n as the ring degree. A path that works over several has tables for each; rows of another
// degree than the current one are not understood by the operations on rows.
func (s *SymCtx) setN(n int) {
	if s.N == n {
		return
	}
	if s.N == 0 {
		s.N = n
		return
	}
	if s.others == nil {
		s.others = map[int]*degTabs{}
	}
	s.others[s.N] = &degTabs{s.monos, s.mmCache, s.rows, s.resAt, s.loAt, s.lift, s.rowOps, s.vrows}
	t := s.others[n]
	if t == nil {
		t = &degTabs{map[string]*Mono{}, map[monoKey]mmRes{}, map[string]*Row{}, map[string]*Atom{}, map[string]*WAtom{}, map[string]*liftRes{}, map[string]*Row{}, map[string]*Row{}}
	}
	s.N, s.monos, s.mmCache, s.rows, s.resAt, s.loAt, s.lift, s.rowOps, s.vrows = n, t.monos, t.mmCache, t.rows, t.resAt, t.loAt, t.lift, t.rowOps, t.vrows
}

// ---- rows -------------------------------------------------------------------------------

func (s *SymCtx) canonRow(nf *NF, dom int) *Row {
	k := fmt.Sprintf("c%d|%s", dom, nf.Key())
	if r, ok := s.rows[k]; ok {
		return r
	}
	r := s.mkRow(nf.m, nf, dom, true, bZero, bu(nf.m-1))
	s.rows[k] = r
	return r
}

func (s *SymCtx) mkRow(m uint64, nf *NF, dom int, canon bool, lo, hi *big.Int) *Row {
	s.nRows++
	return &Row{id: s.nRows, m: m, nf: nf, dom: dom, canon: canon, lo: lo, hi: hi}
}

func (s *SymCtx) lazyRow(nf *NF, dom int, tag string, lo, hi *big.Int) *Row {
	k := fmt.Sprintf("l%d|%x,%x|%s|%s", dom, lo, hi, tag, nf.Key())
	if r, ok := s.rows[k]; ok {
		return r
	}
	r := s.mkRow(nf.m, nf, dom, false, lo, hi)
	s.rows[k] = r
	return r
}

func (s *SymCtx) opaqueRow(m uint64, dom int, why string) *Row {
	a := s.newAtom("opaque", "OPAQUE["+why+"]", bZero, bu(m-1))
	a.opaque = true
	s.stats["opaque:"+why]++
	return s.canonRow(s.atomNF(a, m), dom)
}

func (s *SymCtx) word(r *Row, j int) *Sym {
	if r.words == nil {
		r.words = make([]*Sym, s.N)
		r.atoms = make([]*WAtom, s.N)
	}
	if w := r.words[j]; w != nil {
		return w
	}
	s.nW++
	a := &WAtom{id: s.nW, row: r, idx: j, lo: r.lo, hi: r.hi}
	w := &Sym{t: []sterm{{[]*WAtom{a}, dyI(bOne)}}, k: dyZero, lo: r.lo, hi: r.hi}
	r.words[j], r.atoms[j] = w, a
	return w
}

// intAtom is the integer polynomial whose coefficients are the words of r (coefficient domain).
func (s *SymCtx) intAtom(r *Row) *Atom {
	if r.ia != nil {
		return r.ia
	}
	if r.dom != domCoef {
		a := s.newAtom("opaque", "OPAQUE[NTT words used across moduli]", r.lo, r.hi)
		a.opaque = true
		s.stats["opaque:ntt-cross"]++
		r.ia = a
		return a
	}
	if r.canon {
		// the canonical residue of an atom already in range is that atom
		if len(r.nf.t) == 1 && r.nf.t[0].c == 1 && r.nf.t[0].m.x == 0 && len(r.nf.t[0].m.f) == 1 && r.nf.t[0].m.f[0].g == 1 {
			a := r.nf.t[0].m.f[0].a
			if a.lo.Sign() >= 0 && a.hi.Cmp(bu(r.m)) < 0 {
				r.ia = a
				return a
			}
		}
		k := "res|" + r.nf.Key()
		if a, ok := s.resAt[k]; ok {
			r.ia = a
			return a
		}
		a := s.newAtom("res", fmt.Sprintf("Res_%d", r.m), bZero, bu(r.m-1))
		a.coll[r.m] = r.nf
		if h := s.onesCoef(r.nf); h != 0 {
			hb := bu(h)
			b := s.newAtom("res", fmt.Sprintf("ResC_%d", r.m), new(big.Int).Neg(hb), new(big.Int).Sub(bu(r.m-1), hb))
			b.coll[r.m] = s.nfSub(r.nf, s.nfOnes(r.m, h))
			b.rawQ = r.m
			a.sh, a.shH = b, h
		}
		a.rawQ = r.m
		s.resAt[k] = a
		r.ia = a
		return a
	}
	a := s.newAtom("lazy", fmt.Sprintf("Lazy_%d", r.m), r.lo, r.hi)
	a.coll[r.m] = r.nf
	a.rawQ = r.m
	r.ia = a
	return a
}

// onesCoef is h when the constant part of nf is h*(1+X+...+X^(N-1)), else 0. The integer residue of
// such a row is written as a shifted atom plus h*(1+X+...), so that centring constants cancel.
func (s *SymCtx) onesCoef(nf *NF) uint64 {
	h, n := uint64(0), 0
	for _, t := range nf.t {
		if len(t.m.f) == 0 {
			if n > 0 && t.c != h {
				return 0
			}
			h = t.c
			n++
		}
	}
	if n != s.N {
		return 0
	}
	return h
}

// centeredRes is the integer polynomial with coefficients in (-m/2, m/2] congruent to nf.
func (s *SymCtx) centeredRes(nf *NF) *Atom {
	if len(nf.t) == 1 && nf.t[0].c == 1 && nf.t[0].m.x == 0 && len(nf.t[0].m.f) == 1 && nf.t[0].m.f[0].g == 1 {
		a := nf.t[0].m.f[0].a
		h := bu(nf.m / 2)
		if a.hi.Cmp(h) <= 0 && new(big.Int).Neg(a.lo).Cmp(h) <= 0 {
			return a
		}
	}
	k := "cres|" + nf.Key()
	if a, ok := s.resAt[k]; ok {
		return a
	}
	h := bu(nf.m / 2)
	a := s.newAtom("cres", fmt.Sprintf("CRes_%d", nf.m), new(big.Int).Neg(h), h)
	a.coll[nf.m] = nf
	a.rawQ = nf.m
	s.resAt[k] = a
	return a
}

// ---- words -------------------------------------------------------------------------------

func constSym(u uint64) *Sym {
	b := bu(u)
	return &Sym{k: dyI(b), lo: b, hi: b}
}

func (s *SymCtx) toSym(v Value) *Sym {
	if v.P == nil {
		return constSym(v.U)
	}
	w, ok := v.P.(*Sym)
	if !ok {
		unsupported("integer operation on %T", v.P)
	}
	return w
}

func (s *SymCtx) fromSym(w *Sym) Value {
	if len(w.t) == 0 && w.k.e == 0 {
		return vUint(new(big.Int).And(w.k.n, max64).Uint64())
	}
	return Value{P: w}
}

func wkey(w []*WAtom) string {
	var sb strings.Builder
	for _, a := range w {
		fmt.Fprintf(&sb, "%d,", a.id)
	}
	return sb.String()
}

func cmpW(a, b []*WAtom) int {
	if len(a) != len(b) {
		return len(a) - len(b)
	}
	for i := range a {
		if a[i].id != b[i].id {
			return a[i].id - b[i].id
		}
	}
	return 0
}

func (s *SymCtx) mkSym(ts []sterm, k dy, lo, hi *big.Int) *Sym {
	sort.Slice(ts, func(i, j int) bool { return cmpW(ts[i].w, ts[j].w) < 0 })
	out := ts[:0]
	for _, t := range ts {
		if n := len(out); n > 0 && cmpW(out[n-1].w, t.w) == 0 {
			out[n-1].c = dyAdd(out[n-1].c, t.c)
			if out[n-1].c.n.Sign() == 0 {
				out = out[:n-1]
			}
			continue
		}
		if t.c.n.Sign() != 0 {
			out = append(out, t)
		}
	}
	r := &Sym{t: out, k: k}
	// intersect the operation's interval with the interval of the normal form
	l2, h2 := s.rangeOf(r)
	if lo == nil || l2.Cmp(lo) > 0 {
		lo = l2
	}
	if hi == nil || h2.Cmp(hi) < 0 {
		hi = h2
	}
	r.lo, r.hi = lo, hi
	return r
}

// rangeOf bounds an expression by interval arithmetic over its atoms.
func (s *SymCtx) rangeOf(r *Sym) (*big.Int, *big.Int) {
	// common denominator
	e := r.k.e
	for _, t := range r.t {
		if t.c.e > e {
			e = t.c.e
		}
	}
	lo := new(big.Int).Lsh(r.k.n, e-r.k.e)
	hi := new(big.Int).Set(lo)
	for _, t := range r.t {
		pl, ph := big.NewInt(1), big.NewInt(1)
		for _, a := range t.w { // words are >= 0
			pl = new(big.Int).Mul(pl, a.lo)
			ph = new(big.Int).Mul(ph, a.hi)
		}
		c := new(big.Int).Lsh(t.c.n, e-t.c.e)
		if c.Sign() > 0 {
			lo.Add(lo, pl.Mul(pl, c))
			hi.Add(hi, ph.Mul(ph, c))
		} else {
			lo.Add(lo, ph.Mul(ph, c))
			hi.Add(hi, pl.Mul(pl, c))
		}
	}
	if e > 0 { // the expression is integer valued: ceil / floor
		d := new(big.Int).Lsh(bOne, e)
		lo.Add(lo, new(big.Int).Sub(d, bOne))
		lo.Rsh(lo, e)
		hi.Rsh(hi, e)
	}
	return lo, hi
}

func (s *SymCtx) add(a, b *Sym, neg bool) *Sym {
	ts := make([]sterm, 0, len(a.t)+len(b.t))
	ts = append(ts, a.t...)
	var lo, hi *big.Int
	kb := b.k
	if neg {
		m1 := dyI(big.NewInt(-1))
		for _, t := range b.t {
			ts = append(ts, sterm{t.w, dyMul(t.c, m1)})
		}
		kb = dyMul(kb, m1)
		lo = new(big.Int).Sub(a.lo, b.hi)
		hi = new(big.Int).Sub(a.hi, b.lo)
	} else {
		ts = append(ts, b.t...)
		lo = new(big.Int).Add(a.lo, b.lo)
		hi = new(big.Int).Add(a.hi, b.hi)
	}
	return s.mkSym(ts, dyAdd(a.k, kb), lo, hi)
}

func (s *SymCtx) mul(a, b *Sym) *Sym {
	var ts []sterm
	for _, x := range a.t {
		for _, y := range b.t {
			w := append(append([]*WAtom{}, x.w...), y.w...)
			sort.Slice(w, func(i, j int) bool { return w[i].id < w[j].id })
			ts = append(ts, sterm{w, dyMul(x.c, y.c)})
		}
		if b.k.n.Sign() != 0 {
			ts = append(ts, sterm{x.w, dyMul(x.c, b.k)})
		}
	}
	if a.k.n.Sign() != 0 {
		for _, y := range b.t {
			ts = append(ts, sterm{y.w, dyMul(y.c, a.k)})
		}
	}
	if len(ts) > 4000 {
		unsupported("word expression too large")
	}
	c := []*big.Int{new(big.Int).Mul(a.lo, b.lo), new(big.Int).Mul(a.lo, b.hi), new(big.Int).Mul(a.hi, b.lo), new(big.Int).Mul(a.hi, b.hi)}
	lo, hi := c[0], c[0]
	for _, x := range c[1:] {
		if x.Cmp(lo) < 0 {
			lo = x
		}
		if x.Cmp(hi) > 0 {
			hi = x
		}
	}
	return s.mkSym(ts, dyMul(a.k, b.k), lo, hi)
}

func (w *Sym) Key() string {
	if w.key == "" {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%x/%d", w.k.n, w.k.e)
		for _, t := range w.t {
			fmt.Fprintf(&sb, "+%x/%d*%s", t.c.n, t.c.e, wkey(t.w))
		}
		w.key = sb.String()
	}
	return w.key
}

func inWord(lo, hi *big.Int) bool { return lo.Sign() >= 0 && hi.Cmp(max64) <= 0 }

// exact returns an expression whose integer value is exactly the machine word.
func (s *SymCtx) exact(w *Sym) *Sym {
	if len(s.facts) > 0 {
		w = s.narrowed(w)
	}
	if inWord(w.lo, w.hi) {
		return w
	}
	return s.lo64(w)
}

// lo64 is w mod 2^64, canonicalised: Lo atoms inside are expanded to their definitions.
func (s *SymCtx) lo64(w *Sym) *Sym {
	if inWord(w.lo, w.hi) {
		return w
	}
	c := s.mod64(w)
	if c != nil {
		if inWord(c.lo, c.hi) {
			return c
		}
		w = c
	}
	k := w.Key()
	a, ok := s.loAt[k]
	if !ok {
		s.nW++
		a = &WAtom{id: s.nW, lo: bZero, hi: max64, def: w}
		// a template index, when all the words share one
		s.loAt[k] = a
	}
	return &Sym{t: []sterm{{[]*WAtom{a}, dyI(bOne)}}, k: dyZero, lo: bZero, hi: max64}
}

// mod64 rewrites an expression with integer coefficients modulo 2^64, expanding Lo atoms.
func (s *SymCtx) mod64(w *Sym) *Sym {
	for iter := 0; iter < 8; iter++ {
		has := false
		for _, t := range w.t {
			if t.c.e > 0 {
				return nil
			}
			for _, a := range t.w {
				if a.def != nil && allInt(a.def) {
					has = true
				}
			}
		}
		if w.k.e > 0 {
			return nil
		}
		if !has {
			break
		}
		acc := &Sym{k: w.k, lo: w.k.n, hi: w.k.n}
		for _, t := range w.t {
			p := &Sym{k: t.c, lo: t.c.n, hi: t.c.n}
			for _, a := range t.w {
				x := &Sym{t: []sterm{{[]*WAtom{a}, dyI(bOne)}}, k: dyZero, lo: a.lo, hi: a.hi}
				if a.def != nil && allInt(a.def) {
					x = a.def
				}
				p = s.mul(p, x)
			}
			acc = s.add(acc, p, false)
		}
		w = acc
	}
	var ts []sterm
	for _, t := range w.t {
		c := new(big.Int).And(t.c.n, max64)
		if c.Sign() != 0 {
			ts = append(ts, sterm{t.w, dyI(c)})
		}
	}
	return s.mkSym(ts, dyI(new(big.Int).And(w.k.n, max64)), nil, nil)
}

func allInt(w *Sym) bool {
	if w.k.e > 0 {
		return false
	}
	for _, t := range w.t {
		if t.c.e > 0 {
			return false
		}
	}
	return true
}

func (s *SymCtx) symArith(op token.Token, x, y Value) Value {
	a, b := s.toSym(x), s.toSym(y)
	switch op {
	case token.ADD:
		return s.fromSym(s.add(a, b, false))
	case token.SUB:
		return s.fromSym(s.add(a, b, true))
	case token.MUL:
		return s.fromSym(s.mul(a, b))
	case token.OR, token.XOR:
		if x.P == nil && x.U == 0 {
			return y
		}
		if y.P == nil && y.U == 0 {
			return x
		}
	case token.AND:
		if x.P == nil && x.U == 0 || y.P == nil && y.U == 0 {
			return Value{}
		}
		if x.P == nil && x.U == ^uint64(0) {
			return y
		}
		if y.P == nil && y.U == ^uint64(0) {
			return x
		}
		if y.P == nil && y.U&(y.U+1) == 0 {
			if e := s.exact(a); e.hi.Cmp(bu(y.U)) <= 0 {
				return s.fromSym(e)
			}
		}
	case token.SHL:
		if y.P == nil && y.U < 64 {
			return s.fromSym(s.mul(a, constSym(1<<y.U)))
		}
	case token.SHR:
		if y.P == nil {
			e := s.exact(a)
			if y.U >= 64 || new(big.Int).Rsh(e.hi, uint(y.U)).Sign() == 0 {
				return Value{}
			}
			return s.opaqueWord(e, fmt.Sprintf("shr%d", y.U), new(big.Int).Rsh(e.hi, uint(y.U)))
		}
	case token.REM:
		if y.P == nil && y.U != 0 {
			e := s.exact(a)
			if e.hi.Cmp(bu(y.U)) < 0 {
				return s.fromSym(e)
			}
			return s.canonOf(e, 1, y.U, "rem")
		}
	case token.QUO:
		if y.P == nil && y.U != 0 {
			e := s.exact(a)
			if e.hi.Cmp(bu(y.U)) < 0 {
				return Value{}
			}
			return s.opaqueWord(e, fmt.Sprintf("quo%d", y.U), new(big.Int).Div(e.hi, bu(y.U)))
		}
	}
	unsupported("symbolic integer operation %s", op)
	return Value{}
}

// opaqueWord is an uninterpreted function of one word.
func (s *SymCtx) opaqueWord(w *Sym, fn string, hi *big.Int) Value {
	idx, ok := s.commonIdx(w)
	if !ok {
		unsupported("%s of a multi-index word", fn)
	}
	k := fmt.Sprintf("uf|%s|%x|%s", fn, hi, s.tkey(w))
	r, found := s.vrows[k]
	if !found {
		a := s.newAtom("opaque", "OPAQUE["+fn+"]", bZero, hi)
		a.opaque = true
		r = s.mkRow(0, nil, domCoef, false, bZero, hi)
		r.ia = a
		s.vrows[k] = r
		s.stats["opaque:"+fn]++
	}
	return Value{P: s.word(r, idx)}
}

func (s *SymCtx) symConvInt(x Value, f, t *types.Basic) Value {
	signed := func(b *types.Basic) bool { return b.Kind() == types.Int || b.Kind() == types.Int64 }
	if signed(f) && signed(t) {
		return x
	}
	w := s.exact(s.toSym(x))
	lim := max64
	switch t.Kind() {
	case types.Int, types.Int64:
		lim = new(big.Int).Rsh(max64, 1)
	case types.Uint32:
		lim = big.NewInt(1<<32 - 1)
	case types.Int32:
		lim = big.NewInt(1<<31 - 1)
	case types.Uint8:
		lim = big.NewInt(255)
	case types.Int8:
		lim = big.NewInt(127)
	case types.Uint16:
		lim = big.NewInt(1<<16 - 1)
	case types.Int16:
		lim = big.NewInt(1<<15 - 1)
	}
	if w.hi.Cmp(lim) > 0 {
		unsupported("symbolic integer conversion to %s", t)
	}
	return s.fromSym(w)
}

// commonIdx: all row words of w share one index.
func (s *SymCtx) commonIdx(w *Sym) (int, bool) {
	idx := -1
	for _, t := range w.t {
		for _, a := range t.w {
			i := a.idx
			if a.def != nil {
				j, ok := s.commonIdx(a.def)
				if !ok {
					return 0, false
				}
				i = j
			} else if a.row == nil {
				return 0, false
			}
			if idx == -1 {
				idx = i
			} else if idx != i {
				return 0, false
			}
		}
	}
	if idx == -1 {
		return 0, false
	}
	return idx, true
}

// tkey is the key of a word with its index abstracted.
func (s *SymCtx) tkey(w *Sym) string {
	var sb strings.Builder
	if len(w.t) == 1 && len(w.t[0].w) == 1 && w.t[0].w[0].row != nil && w.k.n.Sign() == 0 && w.t[0].c.e == 0 && w.t[0].c.n.Cmp(bOne) == 0 {
		return fmt.Sprintf("r%d", w.t[0].w[0].row.id)
	}
	fmt.Fprintf(&sb, "%x/%d", w.k.n, w.k.e)
	var parts []string
	for _, t := range w.t {
		var as []string
		for _, a := range t.w {
			as = append(as, s.atkey(a))
		}
		sort.Strings(as)
		parts = append(parts, fmt.Sprintf("+%x/%d*%s", t.c.n, t.c.e, strings.Join(as, ",")))
	}
	sort.Strings(parts)
	for _, p := range parts {
		sb.WriteString(p)
	}
	return sb.String()
}

func (s *SymCtx) atkey(a *WAtom) string {
	if a.row != nil {
		return fmt.Sprintf("r%d", a.row.id)
	}
	if a.def != nil {
		return "lo(" + s.tkey(a.def) + ")"
	}
	return fmt.Sprintf("w%d", a.id)
}

type liftRes struct {
	nf  *NF
	dom int
	why string
}

// liftWord reads the word as a pointwise function of rows, modulo m.
func (s *SymCtx) liftWord(w *Sym, m uint64) *liftRes {
	k := fmt.Sprintf("%x|%s", m, s.tkey(w))
	if r, ok := s.lift[k]; ok {
		return r
	}
	r := s.liftWord0(w, m)
	s.lift[k] = r
	return r
}

func (s *SymCtx) liftWord0(w *Sym, m uint64) *liftRes {
	dom := 0
	acc := &NF{m: m}
	setDom := func(d int) bool {
		if dom == 0 {
			dom = d
		}
		return dom == d
	}
	for _, t := range w.t {
		c := t.c.mod(m)
		if c == 0 {
			continue
		}
		p := s.nfConst(m, 1)
		for i, a := range t.w {
			if a.row == nil {
				return &liftRes{why: "unreduced word"}
			}
			var f *NF
			r := a.row
			switch {
			case r.m == m:
				f = r.nf
				if !setDom(r.dom) {
					return &liftRes{why: "mixed coefficient and NTT domains"}
				}
			default:
				if r.dom != domCoef {
					return &liftRes{why: "NTT words across moduli"}
				}
				if !setDom(domCoef) {
					return &liftRes{why: "mixed coefficient and NTT domains"}
				}
				f = s.atomNF(s.intAtom(r), m)
			}
			if i > 0 && r.dom == domCoef {
				return &liftRes{why: "coefficient-wise product"}
			}
			p = s.nfMul(p, f)
		}
		acc = s.nfAdd(acc, s.nfScale(p, c))
	}
	if kc := w.k.mod(m); kc != 0 {
		switch dom {
		case domNTT:
			acc = s.nfAdd(acc, s.nfConst(m, kc))
		case domCoef:
			acc = s.nfAdd(acc, s.nfOnes(m, kc))
		default:
			return &liftRes{why: "constant"}
		}
	}
	return &liftRes{nf: acc, dom: dom}
}

// canonOf is (w*mulc) mod m in [0,m).
func (s *SymCtx) canonOf(w *Sym, mulc uint64, m uint64, tag string) Value {
	if len(w.t) == 0 {
		return vUint(mulmod(w.k.mod(m), mulc%m, m))
	}
	idx, ok := s.commonIdx(w)
	if !ok {
		return s.multiIdx(w, mulc, m, tag, nil, nil)
	}
	l := s.liftWord(w, m)
	if l.nf == nil {
		return s.opaqueCanon(w, idx, m, tag+":"+l.why, mulc)
	}
	dom := l.dom
	if dom == 0 {
		dom = domCoef
		for _, t := range w.t {
			for _, a := range t.w {
				if a.row != nil {
					dom = a.row.dom
				}
			}
		}
	}
	nf := s.nfScale(l.nf, mulc)
	if nf.isZero() {
		return Value{} // identically zero
	}
	return Value{P: s.word(s.canonRow(nf, dom), idx)}
}

func (s *SymCtx) opaqueCanon(w *Sym, idx int, m uint64, why string, mulc uint64) Value {
	k := fmt.Sprintf("oc|%s|%x|%x|%s", why, m, mulc, s.tkey(w))
	r, ok := s.vrows[k]
	if !ok {
		r = s.opaqueRow(m, s.domOf(w), why)
		s.vrows[k] = r
	}
	return Value{P: s.word(r, idx)}
}

func (s *SymCtx) domOf(w *Sym) int {
	for _, t := range w.t {
		for _, a := range t.w {
			if a.row != nil {
				return a.row.dom
			}
		}
	}
	return domCoef
}

// liftAt reads a linear word of coefficients (of any indices) as coefficient j of a polynomial: word i of a
// row is coefficient j of X^(j-i) times that row's polynomial.
func (s *SymCtx) liftAt(w *Sym, j int, m uint64) *NF {
	acc := s.nfOnes(m, w.k.mod(m))
	if w.k.mod(m) == 0 {
		acc = &NF{m: m}
	}
	for _, t := range w.t {
		c := t.c.mod(m)
		if c == 0 {
			continue
		}
		if len(t.w) != 1 || t.w[0].row == nil || t.w[0].row.dom != domCoef {
			return nil
		}
		a := t.w[0]
		f := a.row.nf
		if a.row.m != m {
			f = s.atomNF(s.intAtom(a.row), m)
		}
		acc = s.nfAdd(acc, s.nfScale(s.nfShift(f, j-a.idx), c))
	}
	return acc
}

// multiIdx: a word mixing several indices; a linear one of coefficients is a coefficient of a polynomial,
// any other gets its own opaque row. lo, hi nil: canonical.
func (s *SymCtx) multiIdx(w *Sym, mulc uint64, m uint64, tag string, lo, hi *big.Int) Value {
	k := fmt.Sprintf("mi|%x|%x|%s|%s|%v,%v", m, mulc, tag, w.Key(), lo, hi)
	if m != 0 {
		j := -1
		for _, t := range w.t {
			if len(t.w) == 1 && t.w[0].row != nil {
				j = t.w[0].idx
				break
			}
		}
		if j >= 0 {
			if nf := s.liftAt(w, j, m); nf != nil {
				nf = s.nfScale(nf, mulc)
				if hi == nil {
					if nf.isZero() {
						return Value{}
					}
					return Value{P: s.word(s.canonRow(nf, domCoef), j)}
				}
				return Value{P: s.word(s.lazyRow(nf, domCoef, k, lo, hi), j)}
			}
		}
	}
	r, ok := s.vrows[k]
	if !ok {
		r = s.opaqueRow(m, domCoef, tag+":words of several indices")
		s.vrows[k] = r
	}
	return Value{P: s.word(r, 0)}
}

// lazyOf: some word in [lo,hi] congruent to w*mulc mod m, determined by (tag, w).
func (s *SymCtx) lazyOf(w *Sym, mulc uint64, m uint64, tag string, lo, hi *big.Int) Value {
	idx, ok := s.commonIdx(w)
	if !ok {
		return s.multiIdx(w, mulc, m, tag, lo, hi)
	}
	l := s.liftWord(w, m)
	if l.nf == nil {
		return s.opaqueCanon(w, idx, m, tag+":"+l.why, mulc)
	}
	dom := l.dom
	if dom == 0 {
		dom = s.domOf(w)
	}
	r := s.lazyRow(s.nfScale(l.nf, mulc), dom, tag+"|"+s.tkey(w), lo, hi)
	return Value{P: s.word(r, idx)}
}

// ---- comparisons and branches ---------------------------------------------------------------

func (s *SymCtx) symCmp(op token.Token, x, y Value) Value {
	rx, ry := s.toSym(x), s.toSym(y)
	v := s.cmpSym(op, s.exact(rx), s.exact(ry))
	if b, ok := v.P.(*SymBool); ok {
		b.rx, b.ry = rx, ry
	}
	return v
}

func (s *SymCtx) cmpSym(op token.Token, a, b *Sym) Value {
	d := s.narrowed(s.add(a, b, true))
	ans := 0 // 1 true, 2 false
	switch op {
	case token.LSS:
		if d.hi.Sign() < 0 {
			ans = 1
		} else if d.lo.Sign() >= 0 {
			ans = 2
		}
	case token.LEQ:
		if d.hi.Sign() <= 0 {
			ans = 1
		} else if d.lo.Sign() > 0 {
			ans = 2
		}
	case token.GTR:
		if d.lo.Sign() > 0 {
			ans = 1
		} else if d.hi.Sign() <= 0 {
			ans = 2
		}
	case token.GEQ:
		if d.lo.Sign() >= 0 {
			ans = 1
		} else if d.hi.Sign() < 0 {
			ans = 2
		}
	case token.EQL:
		if d.lo.Sign() > 0 || d.hi.Sign() < 0 {
			ans = 2
		} else if len(d.t) == 0 {
			ans = 1
		}
	}
	if ans != 0 {
		return vBool(ans == 1)
	}
	return Value{P: &SymBool{op: op, x: a, y: b}}
}

// signedArith: signed integers are kept as mathematical integers; an operation that depends on the
// representation needs the operands to be in range.
func (s *SymCtx) signedArith(op token.Token, x, y Value) Value {
	conv := func(v Value) *Sym {
		if v.P == nil {
			k := big.NewInt(int64(v.U))
			return &Sym{k: dyI(k), lo: k, hi: k}
		}
		w := s.toSym(v)
		if n := s.narrowed(w); n != w {
			w = n
		}
		if w.hi.Cmp(max63) > 0 || w.lo.Cmp(min63) < 0 {
			unsupported("symbolic signed overflow")
		}
		return w
	}
	a := conv(x)
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return s.cmpSym(op, a, conv(y))
	case token.ADD, token.SUB, token.MUL:
		b := conv(y)
		var r *Sym
		if op == token.MUL {
			r = s.mul(a, b)
		} else {
			r = s.add(a, b, op == token.SUB)
		}
		if r.hi.Cmp(max63) > 0 || r.lo.Cmp(min63) < 0 {
			unsupported("symbolic signed overflow")
		}
		return s.fromSym(r)
	}
	if a.lo.Sign() < 0 || op != token.SHL && op != token.SHR && conv(y).lo.Sign() < 0 {
		unsupported("symbolic signed operation %s", op)
	}
	return s.symArith(op, x, y)
}

var max63 = new(big.Int).Rsh(max64, 1)
var min63 = new(big.Int).Sub(bOne, new(big.Int).Add(max63, big.NewInt(2)))

// decide forks the path on a symbolic condition.
func (s *SymCtx) decide(b *SymBool) bool {
	s.it.specGuard()
	if os.Getenv("SYMGO_FORKS") != "" {
		fmt.Fprintf(os.Stderr, "fork: %s %s %s ng=%v in %s | %s in [%s,%s]\n", b.x.Key(), b.op, b.y.Key(), b.ng, s.it.where(), s.add(b.x, b.y, true).Key(), b.x.lo, b.x.hi)
	}
	s.forks++
	if s.forks > 10 {
		unsupported("too many data-dependent branches")
	}
	if s.it.H == nil {
		unsupported("data-dependent branch")
	}
	v := s.it.H.branch(b)
	s.assume(b, v)
	return v
}

// ---- floats -------------------------------------------------------------------------------

func (s *SymCtx) toFloat(x Value, uns bool) Value {
	w := s.exact(s.toSym(x))
	f := &SymF{lin: map[*WAtom]*big.Rat{}, k: new(big.Rat), err: new(big.Rat)}
	for _, t := range w.t {
		if len(t.w) != 1 {
			unsupported("non-linear float conversion")
		}
		f.lin[t.w[0]] = new(big.Rat).SetFrac(t.c.n, new(big.Int).Lsh(bOne, t.c.e))
	}
	f.k.SetFrac(w.k.n, new(big.Int).Lsh(bOne, w.k.e))
	if !uns && w.hi.BitLen() > 63 {
		unsupported("signed symbolic float conversion")
	}
	f.lo, f.hi = new(big.Rat).SetInt(w.lo), new(big.Rat).SetInt(w.hi)
	if w.hi.Cmp(two53) > 0 {
		f.err.Mul(f.hi, eps53)
	}
	return Value{P: f}
}

func (f *SymF) rounded() *SymF {
	// one rounding: |result| * 2^-53
	m := new(big.Rat).Abs(f.hi)
	if l := new(big.Rat).Abs(f.lo); l.Cmp(m) > 0 {
		m = l
	}
	m.Add(m, f.err)
	f.err = new(big.Rat).Add(f.err, m.Mul(m, eps53))
	return f
}

func (s *SymCtx) floatArith(op token.Token, x, y Value) Value {
	toF := func(v Value) (*SymF, bool) {
		if v.P != nil {
			f, ok := v.P.(*SymF)
			if !ok {
				unsupported("float operation on %T", v.P)
			}
			return f, false
		}
		c := v.f64()
		if math.IsInf(c, 0) || math.IsNaN(c) {
			unsupported("non-finite float")
		}
		r := new(big.Rat).SetFloat64(c)
		return &SymF{lin: map[*WAtom]*big.Rat{}, k: r, err: new(big.Rat), lo: r, hi: r}, true
	}
	a, ca := toF(x)
	b, cb := toF(y)
	lin := map[*WAtom]*big.Rat{}
	switch op {
	case token.ADD, token.SUB:
		sg := int64(1)
		if op == token.SUB {
			sg = -1
		}
		for w, c := range a.lin {
			lin[w] = c
		}
		for w, c := range b.lin {
			d := new(big.Rat).Mul(c, big.NewRat(sg, 1))
			if o, ok := lin[w]; ok {
				d.Add(d, o)
			}
			lin[w] = d
		}
		k := new(big.Rat).Add(a.k, new(big.Rat).Mul(b.k, big.NewRat(sg, 1)))
		f := &SymF{lin: lin, k: k, err: new(big.Rat).Add(a.err, b.err)}
		if sg == 1 {
			f.lo, f.hi = new(big.Rat).Add(a.lo, b.lo), new(big.Rat).Add(a.hi, b.hi)
		} else {
			f.lo, f.hi = new(big.Rat).Sub(a.lo, b.hi), new(big.Rat).Sub(a.hi, b.lo)
		}
		if (ca && a.k.Sign() == 0 && sg == 1) || (cb && b.k.Sign() == 0) {
			return Value{P: f} // x+0 is exact
		}
		return Value{P: f.rounded()}
	case token.QUO, token.MUL:
		if op == token.MUL && ca {
			a, b, ca, cb = b, a, cb, ca
		}
		if !cb || b.k.Sign() <= 0 {
			break
		}
		c := new(big.Rat).Set(b.k)
		extra := new(big.Rat)
		if op == token.QUO {
			// a float that is the rounding of a known modulus stands for that modulus
			fv, _ := c.Float64()
			if q, ok := s.modForFloat(fv, a); ok {
				cq := new(big.Rat).SetInt(bu(q))
				e := new(big.Rat).Sub(new(big.Rat).Inv(cq), new(big.Rat).Inv(c))
				e.Abs(e)
				extra.Mul(e, a.hi)
				c = cq
			}
			c = c.Inv(c)
		}
		f := &SymF{lin: lin, k: new(big.Rat).Mul(a.k, c), err: new(big.Rat).Mul(a.err, c)}
		f.err.Add(f.err, extra)
		for w, d := range a.lin {
			lin[w] = new(big.Rat).Mul(d, c)
		}
		f.lo, f.hi = new(big.Rat).Mul(a.lo, c), new(big.Rat).Mul(a.hi, c)
		return Value{P: f.rounded()}
	}
	unsupported("symbolic float operation %s", op)
	return Value{}
}

func (s *SymCtx) modForFloat(f float64, a *SymF) (uint64, bool) {
	// prefer the modulus of the row being divided
	for w := range a.lin {
		if w.row != nil && w.row.m != 0 && float64(w.row.m) == f {
			return w.row.m, true
		}
	}
	var best uint64
	for m := range s.mods {
		if float64(m) == f && (best == 0 || m < best) {
			best = m
		}
	}
	return best, best != 0
}

// floatToInt truncates a non-negative symbolic float.
func (s *SymCtx) floatToInt(x Value, t *types.Basic) Value {
	f := x.P.(*SymF)
	lo := new(big.Rat).Sub(f.lo, f.err)
	hi := new(big.Rat).Add(f.hi, f.err)
	if f.lo.Sign() < 0 {
		unsupported("truncation of a possibly negative float")
	}
	if f.lo.Sign() == 0 || lo.Sign() < 0 {
		lo = new(big.Rat) // float arithmetic on non-negative values never goes below zero
	}
	flo, fhi := ratFloor(lo), ratFloor(hi)
	if flo.Cmp(fhi) == 0 {
		return vUint(flo.Uint64())
	}
	idx := -1
	type lt struct {
		w *WAtom
		c *big.Rat
	}
	var ls []lt
	for w, c := range f.lin {
		if w.row == nil {
			unsupported("float of an unreduced word")
		}
		if idx >= 0 && idx != w.idx {
			unsupported("float of words of several indices")
		}
		idx = w.idx
		ls = append(ls, lt{w, c})
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i].w.row.id < ls[j].w.row.id })
	key := "V|" + f.k.String()
	for _, l := range ls {
		key += fmt.Sprintf("|r%d*%s", l.w.row.id, l.c)
	}
	r, ok := s.vrows[key]
	if !ok {
		if f.k.Sign() != 0 {
			unsupported("float with offset")
		}
		va := s.newAtom("vfloor", "V", flo, fhi)
		den := big.NewInt(1)
		for _, l := range ls {
			g := new(big.Int).GCD(nil, nil, den, l.c.Denom())
			den.Mul(den, new(big.Int).Div(l.c.Denom(), g))
		}
		var lin []linTerm
		var qs []uint64
		for m := range s.mods {
			if bigmod(den, m) == 0 {
				qs = append(qs, m)
			}
		}
		sort.Slice(qs, func(i, j int) bool { return qs[i] < qs[j] })
		for _, l := range ls {
			c := new(big.Rat).Mul(l.c, new(big.Rat).SetInt(den))
			lin = append(lin, linTerm{s.intAtom(l.w.row), c.Num()})
		}
		// D = sum lin - V*den, in (-err*den, den*(1+err))
		ed := new(big.Rat).Mul(f.err, new(big.Rat).SetInt(den))
		eh := new(big.Int).Add(ratFloor(ed), bOne)
		D := s.newAtom("crt", "D", new(big.Int).Neg(eh), new(big.Int).Add(den, eh))
		for _, q := range qs {
			acc := &NF{m: q}
			for _, l := range lin {
				acc = s.nfAdd(acc, s.nfScale(s.atomNF(l.a, q), bigmod(l.c, q)))
			}
			D.coll[q] = acc
		}
		va.vd = &vDef{D: D, Q: den, qs: qs, lin: lin}
		s.vObligation(f, va, D, lin, den)
		r = s.mkRow(0, nil, domCoef, false, flo, fhi)
		r.ia = va
		s.vrows[key] = r
	}
	return Value{P: s.word(r, idx)}
}

// vObligation: the companion integer D stays within its stated range whatever the rounding.
func (s *SymCtx) vObligation(f *SymF, va, D *Atom, lin []linTerm, den *big.Int) {
	if s.it.H == nil {
		return
	}
	var sb strings.Builder
	sum := "0"
	for i, l := range lin {
		fmt.Fprintf(&sb, "(declare-const y%d Int)(assert (<= %s y%d %s))\n", i, smtInt(l.a.lo), i, smtInt(l.a.hi))
		sum = fmt.Sprintf("(+ %s (* %s y%d))", sum, smtInt(l.c), i)
	}
	// den*Ffloat in [sum - err*den, sum + err*den]; V = floor(Ffloat)
	ed := new(big.Rat).Mul(f.err, new(big.Rat).SetInt(den))
	fmt.Fprintf(&sb, "(declare-const F Real)(declare-const V Int)(assert (<= (- (to_real %s) %s) F (+ (to_real %s) %s)))\n", sum, smtRat(ed), sum, smtRat(ed))
	fmt.Fprintf(&sb, "(assert (<= 0.0 F))(assert (<= (* (to_real V) %s) F))(assert (< F (* (+ 1.0 (to_real V)) %s)))\n", smtRat(new(big.Rat).SetInt(den)), smtRat(new(big.Rat).SetInt(den)))
	fmt.Fprintf(&sb, "(assert (not (and (<= %s (- %s (* V %s)) %s) (<= %s V %s))))\n", smtInt(D.lo), sum, smtInt(den), smtInt(D.hi), smtInt(va.lo), smtInt(va.hi))
	s.it.H.addObl(&Obl{Kind: "float-quotient", Name: "rounded CRT quotient within one of the exact one", SMT: sb.String(), Expect: "unsat"})
}

func ratFloor(r *big.Rat) *big.Int {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(r.Num(), r.Denom(), m)
	return q
}

// ---- table loads with symbolic index ----------------------------------------------------------

func (p *symPtr) load(it *Interp) Value {
	s := it.S
	w := s.exact(p.idx)
	if w.lo.Sign() < 0 || w.hi.Cmp(big.NewInt(int64(p.n))) >= 0 {
		// the index may leave the table
		if it.H != nil {
			it.H.addObl(&Obl{Kind: "index-in-range", Name: fmt.Sprintf("table of %d entries indexed by a value in [%s,%s]", p.n, w.lo, w.hi), Expect: "unsat",
				SMT: fmt.Sprintf("(declare-const V Int)(assert (<= %s V %s))(assert (not (and (<= 0 V) (< V %d))))", smtInt(w.lo), smtInt(w.hi), p.n)})
		}
		if p.n == 0 {
			it.rtPanic("index out of range with length 0")
		}
	} else if it.H != nil {
		it.H.addObl(&Obl{Kind: "index-in-range", Name: "correction table index", Expect: "unsat",
			SMT: fmt.Sprintf("(declare-const V Int)(assert (<= %s V %s))(assert (not (and (<= 0 V) (< V %d))))", smtInt(w.lo), smtInt(w.hi), p.n)})
	}
	hi := int(w.hi.Int64())
	if !w.hi.IsInt64() || hi >= p.n {
		hi = p.n - 1
	}
	t := make([]uint64, hi+1)
	it.mark(p.obj, p.off, hi+1, 1)
	for i := range t {
		c := p.obj.cells[p.off+i]
		if c.P != nil {
			unsupported("symbolic table")
		}
		t[i] = c.U
	}
	if t[0] != 0 && hi >= 1 {
		unsupported("table with non-zero origin")
	}
	if hi == 0 {
		return vUint(t[0])
	}
	// exactly linear?
	lin := true
	for v := 2; v <= hi; v++ {
		d := new(big.Int).Mul(bu(t[1]), big.NewInt(int64(v)))
		if d.Cmp(bu(t[v])) != 0 {
			lin = false
		}
	}
	if lin {
		return s.fromSym(s.mul(w, constSym(t[1])))
	}
	var mods []uint64
	for m := range s.mods {
		mods = append(mods, m)
	}
	sort.Slice(mods, func(i, j int) bool { return mods[i] < mods[j] })
	for _, m := range mods {
		ok := true
		for v := range t {
			if t[v] >= m || mulmod(t[1], uint64(v), m) != t[v] {
				ok = false
				break
			}
		}
		if ok {
			return s.canonOf(s.mul(w, constSym(t[1])), 1, m, "table")
		}
	}
	mx := uint64(0)
	for _, x := range t {
		if x > mx {
			mx = x
		}
	}
	return s.opaqueWord(w, fmt.Sprintf("table%v", t), bu(mx))
}
