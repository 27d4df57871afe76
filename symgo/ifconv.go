package main

import (
	"fmt"
	"go/token"
	"math/big"
	"os"

	"golang.org/x/tools/go/ssa"
)

// If-conversion. A branch on symbolic data is not forked when both sides can be executed up to the
// point where they meet again (the immediate postdominator of the branch, or the return of the
// function) using only word arithmetic, stores to known places and calls of such code: the two outcomes are then
// merged cell by cell into one value ("x if c else y"), see ite. Anything else: the path forks.

type specFailT struct{}

func (it *Interp) specGuard() {
	if it.spec > 0 {
		panic(specFailT{})
	}
}

type cellRef struct {
	o   *Obj
	off int
}
type undoCell struct {
	c cellRef
	v Value
}

func (it *Interp) logCell(o *Obj, off int) {
	if it.spec > 0 {
		it.slog = append(it.slog, undoCell{cellRef{o, off}, o.cells[off]})
	}
}

// rollback restores the memory to the mark and returns what had changed: the present values, in
// order of first change.
func (it *Interp) rollback(mark int) (order []cellRef, now map[cellRef]Value) {
	now = map[cellRef]Value{}
	for _, u := range it.slog[mark:] {
		if _, ok := now[u.c]; !ok {
			order = append(order, u.c)
			now[u.c] = u.c.o.cells[u.c.off]
		}
	}
	for i := len(it.slog) - 1; i >= mark; i-- {
		u := it.slog[i]
		u.c.o.cells[u.c.off] = u.v
	}
	it.slog = it.slog[:mark]
	return
}

// postdom: immediate postdominators of fn's blocks, over the paths that return (nil: the exit).
func (it *Interp) postdom(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	if m, ok := it.pdom[fn]; ok {
		return m
	}
	n := len(fn.Blocks)
	full := make([]map[int]bool, n+1) // n is the exit
	exit := make([]bool, n)
	for i, b := range fn.Blocks {
		if len(b.Instrs) > 0 {
			_, exit[i] = b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		}
	}
	full[n] = map[int]bool{n: true}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			var in map[int]bool
			meet := func(x map[int]bool) {
				if x == nil { // not yet known, or never returns
					return
				}
				if in == nil {
					in = map[int]bool{}
					for k := range x {
						in[k] = true
					}
					return
				}
				for k := range in {
					if !x[k] {
						delete(in, k)
					}
				}
			}
			if exit[i] {
				meet(full[n])
			}
			for _, s := range fn.Blocks[i].Succs {
				meet(full[s.Index])
			}
			if in == nil {
				continue
			}
			in[i] = true
			if len(in) != len(full[i]) {
				full[i] = in
				ch = true
			}
		}
	}
	m := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i, b := range fn.Blocks {
		// the closest strict postdominator is the one with the most postdominators itself
		best := -1
		for k := range full[i] {
			if k != i && k != n && (best < 0 || len(full[k]) > len(full[best])) {
				best = k
			}
		}
		if best >= 0 {
			m[b] = fn.Blocks[best]
		}
	}
	if it.pdom == nil {
		it.pdom = map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}
	}
	it.pdom[fn] = m
	return m
}

type sideRes struct {
	locals map[ssa.Value]Value
	order  []cellRef
	now    map[cellRef]Value
	ret    bool
	result Value
	prev   *ssa.BasicBlock
	skip   bool
}

// ifConvert executes both sides of the branch at the end of b; false: nothing has changed.
func (it *Interp) ifConvert(fr *frame, b *ssa.BasicBlock, c *SymBool) (done bool) {
	if len(fr.defers) > 0 || it.spec >= 12 || fr.panicking {
		return false
	}
	J := it.postdom(fr.fn)[b]
	if it.spec == 0 {
		it.slog = it.slog[:0]
		it.specEnd = it.steps + 40000
	}
	mark, nf, depth := len(it.slog), len(it.S.facts), it.depth
	saved := *fr
	it.spec++
	start := it.objID
	defer func() {
		it.spec--
		it.S.facts = it.S.facts[:nf]
		if done {
			return
		}
		r := recover()
		if r != nil && os.Getenv("SYMGO_FORKS") != "" {
			fmt.Fprintln(os.Stderr, "not converted:", r)
		}
		it.rollback(mark)
		it.depth = depth
		*fr = saved
		switch r.(type) {
		case nil, specFailT, Unsupported, targetPanic:
		default:
			panic(r)
		}
	}()
	side := func(succ int) sideRes {
		it.S.assume(c, succ == 0)
		l := make(map[ssa.Value]Value, len(saved.locals)+8)
		for k, v := range saved.locals {
			l[k] = v
		}
		*fr = saved
		fr.locals = l
		fr.prev, fr.block = b, b.Succs[succ]
		fr.skipPhi = nil
		it.runTo(fr, J)
		r := sideRes{locals: fr.locals, prev: fr.prev, ret: fr.block == nil, result: fr.result, skip: J != nil && fr.skipPhi == J}
		r.order, r.now = it.rollback(mark)
		it.S.facts = it.S.facts[:nf]
		return r
	}
	T, F := side(0), side(1)
	if T.ret != F.ret {
		return false
	}
	if T.ret {
		v, ok := it.iteV(c, T.result, F.result)
		if !ok {
			return false
		}
		saved.result = v
	}
	// memory
	type upd struct {
		c cellRef
		v Value
	}
	var ups []upd
	seen := map[cellRef]bool{}
	for _, o := range [][]cellRef{T.order, F.order} {
		for _, x := range o {
			if seen[x] || x.o.id > start {
				continue
			}
			seen[x] = true
			tv, ok := T.now[x]
			if !ok {
				tv = x.o.cells[x.off]
			}
			fv, ok := F.now[x]
			if !ok {
				fv = x.o.cells[x.off]
			}
			v, ok := it.iteV(c, tv, fv)
			if !ok {
				return false
			}
			ups = append(ups, upd{x, v})
		}
	}
	// registers
	locals := saved.locals
	type reg struct {
		k   ssa.Value
		v   Value
		del bool
	}
	var regs []reg
	if !T.ret {
		phi := func(s sideRes, p *ssa.Phi) Value {
			if s.skip {
				return s.locals[p]
			}
			for i, pr := range J.Preds {
				if pr == s.prev {
					f := frame{it: it, fn: fr.fn, locals: s.locals}
					return f.get(p.Edges[i])
				}
			}
			panic(specFailT{})
		}
		phis := map[ssa.Value]bool{}
		for _, in := range J.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis[p] = true
			v, ok := it.iteV(c, phi(T, p), phi(F, p))
			if !ok {
				return false
			}
			regs = append(regs, reg{k: p, v: v})
		}
		for k, tv := range T.locals {
			fv, both := F.locals[k]
			if phis[k] {
				continue
			}
			if both && sameVal(tv, fv) {
				if old, ok := locals[k]; !ok || !sameVal(old, tv) {
					regs = append(regs, reg{k: k, v: tv})
				}
				continue
			}
			in, isIn := k.(ssa.Instruction)
			if !isIn {
				return false
			}
			if both && in.Block() != nil && in.Block().Dominates(J) && liveAt(k, in.Block(), J) {
				v, ok := it.iteV(c, tv, fv)
				if !ok {
					return false
				}
				regs = append(regs, reg{k: k, v: v})
				continue
			}
			regs = append(regs, reg{k: k, del: true})
		}
	}
	// commit
	*fr = saved
	fr.locals = locals
	for _, r := range regs {
		if r.del {
			delete(locals, r.k)
		} else {
			locals[r.k] = r.v
		}
	}
	for _, u := range ups {
		it.logCell(u.c.o, u.c.off)
		u.c.o.cells[u.c.off] = u.v
	}
	if T.ret {
		fr.block = nil
	} else {
		fr.prev, fr.block, fr.skipPhi = T.prev, J, J
	}
	it.S.stats["merged branches"]++
	return true
}

// liveAt: some path from J uses k before passing its definition in block def again.
func liveAt(k ssa.Value, def, J *ssa.BasicBlock) bool {
	refs := k.Referrers()
	if refs == nil {
		return true
	}
	reach := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{J}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if reach[x] || x == def {
			continue
		}
		reach[x] = true
		st = append(st, x.Succs...)
	}
	for _, r := range *refs {
		if p, ok := r.(*ssa.Phi); ok {
			for i, e := range p.Edges {
				if e == k && reach[p.Block().Preds[i]] {
					return true
				}
			}
			continue
		}
		if reach[r.Block()] {
			return true
		}
	}
	return false
}

func sameVal(a, b Value) bool {
	if a.U != b.U {
		return false
	}
	if a.P == nil || b.P == nil {
		return a.P == nil && b.P == nil
	}
	switch x := a.P.(type) {
	case Agg:
		y, ok := b.P.(Agg)
		return ok && sameVals(x, y)
	case Tuple:
		y, ok := b.P.(Tuple)
		return ok && sameVals(x, y)
	case *SliceV:
		y, ok := b.P.(*SliceV)
		return ok && *x == *y
	case *Sym:
		y, ok := b.P.(*Sym)
		return ok && (x == y || x.Key() == y.Key() && x.lo.Cmp(y.lo) == 0 && x.hi.Cmp(y.hi) == 0)
	case string:
		y, ok := b.P.(string)
		return ok && x == y
	case *FuncV:
		y, ok := b.P.(*FuncV)
		return ok && (x == y || x.fn != nil && x.fn == y.fn && x.native == nil && y.native == nil && x.recv == nil && y.recv == nil && sameVals(x.env, y.env))
	case *Obj:
		y, ok := b.P.(*Obj)
		return ok && x == y
	}
	return comparable_(a.P) && comparable_(b.P) && a.P == b.P
}

func comparable_(x any) bool {
	switch x.(type) {
	case *Iface, *MapV, *ssa.Function, *ssa.Builtin, *SymBool, *SymF, *mapIter:
		return true
	}
	return false
}

func sameVals(x, y []Value) bool {
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !sameVal(x[i], y[i]) {
			return false
		}
	}
	return true
}

// iteV merges two values of one type.
func (it *Interp) iteV(c *SymBool, tv, fv Value) (Value, bool) {
	if sameVal(tv, fv) {
		return tv, true
	}
	merge := func(x, y []Value) ([]Value, bool) {
		if len(x) != len(y) {
			return nil, false
		}
		o := make([]Value, len(x))
		for i := range x {
			v, ok := it.iteV(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			o[i] = v
		}
		return o, true
	}
	switch x := tv.P.(type) {
	case Agg:
		if y, ok := fv.P.(Agg); ok {
			o, ok := merge(x, y)
			return Value{P: Agg(o)}, ok
		}
		return Value{}, false
	case Tuple:
		if y, ok := fv.P.(Tuple); ok {
			o, ok := merge(x, y)
			return Value{P: Tuple(o)}, ok
		}
		return Value{}, false
	}
	return it.S.ite(c, tv, fv)
}

// runTo runs the frame until it reaches block J (before its phis) or returns.
func (it *Interp) runTo(fr *frame, J *ssa.BasicBlock) {
	for fr.block != nil && (J == nil || fr.block != J) {
		it.stepBlock(fr)
		if it.steps > it.specEnd {
			panic(specFailT{})
		}
	}
}

var pureIntr = map[string]bool{
	"math/bits.Mul64": true, "math/bits.Add64": true, "math/bits.Sub64": true, "math/bits.Len64": true, "math/bits.Len": true,
	"math/bits.OnesCount64": true, "math/bits.TrailingZeros64": true, "math/bits.LeadingZeros64": true, "math/bits.Reverse64": true,
}

func init() {
	for _, k := range []string{"MRed", "MRedConstant", "BRed", "BRedConstant", "BRedAdd", "BRedAddConstant", "MForm", "MFormConstant", "InvMForm", "InvMFormConstant", "CRed", "MRedParams"} {
		pureIntr[ringPath+k] = true
	}
}

// ---- facts: what the taken side of a branch says about words -----------------------------------

type fact struct {
	e      *Sym
	lo, hi *big.Int // nil: unbounded
}

func (s *SymCtx) assume(c *SymBool, val bool) {
	if c.ng {
		val = !val
	}
	d := s.add(c.x, c.y, true) // integer difference of two words
	f := fact{e: d}
	op := c.op
	if !val {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		case token.EQL:
			op = token.NEQ
		}
	}
	m1 := big.NewInt(-1)
	switch op {
	case token.LSS:
		f.hi = m1
	case token.LEQ:
		f.hi = bZero
	case token.GTR:
		f.lo = bOne
	case token.GEQ:
		f.lo = bZero
	case token.EQL:
		f.lo, f.hi = bZero, bZero
	case token.NEQ:
		switch lo, hi := s.refine(d); {
		case lo.Sign() >= 0:
			f.lo = bOne
		case hi.Sign() <= 0:
			f.hi = m1
		default:
			return
		}
	default:
		return
	}
	s.facts = append(s.facts, f)
}

// refine is the interval of w under the facts.
func (s *SymCtx) refine(w *Sym) (lo, hi *big.Int) {
	lo, hi = w.lo, w.hi
	for _, f := range s.facts {
		if len(f.e.t) == 0 || len(w.t) != len(f.e.t) {
			continue
		}
		a, b := w.t[0].c, f.e.t[0].c
		if b.n.Sign() == 0 {
			continue
		}
		l, r := new(big.Int).QuoRem(new(big.Int).Lsh(a.n, uint(b.e)), new(big.Int).Lsh(b.n, uint(a.e)), new(big.Int))
		if r.Sign() != 0 {
			continue
		}
		k := s.add(w, s.mul(f.e, &Sym{k: dyI(l), lo: l, hi: l}), true)
		if len(k.t) != 0 || k.k.e != 0 {
			continue
		}
		fl, fh := f.lo, f.hi
		if l.Sign() < 0 {
			fl, fh = fh, fl
		}
		if fl != nil {
			if x := new(big.Int).Add(k.k.n, new(big.Int).Mul(l, fl)); x.Cmp(lo) > 0 {
				lo = x
			}
		}
		if fh != nil {
			if x := new(big.Int).Add(k.k.n, new(big.Int).Mul(l, fh)); x.Cmp(hi) < 0 {
				hi = x
			}
		}
	}
	return
}

// narrowed is w with its interval under the facts.
func (s *SymCtx) narrowed(w *Sym) *Sym {
	if len(s.facts) == 0 || len(w.t) == 0 {
		return w
	}
	lo, hi := s.refine(w)
	if lo.Cmp(w.lo) == 0 && hi.Cmp(w.hi) == 0 || lo.Cmp(hi) > 0 {
		return w
	}
	return &Sym{t: w.t, k: w.k, lo: lo, hi: hi, key: w.key}
}

// armNF reads a word as a residue mod m, in domain dom when it is a constant.
func (s *SymCtx) armNF(w *Sym, m uint64, dom int) (*NF, int) {
	if len(w.t) == 0 {
		c := w.k.mod(m)
		if c == 0 {
			return &NF{m: m}, dom
		}
		if dom == domNTT {
			return s.nfConst(m, c), dom
		}
		return s.nfOnes(m, c), dom
	}
	l := s.liftWord(w, m)
	if l.nf == nil {
		return nil, 0
	}
	return l.nf, l.dom
}

// ite merges two words under a condition: "a if c else b".
func (s *SymCtx) ite(c *SymBool, tv, fv Value) (Value, bool) {
	if tv.P == nil && fv.P == nil { // two constants (of any type)
		if tv.U == fv.U {
			return tv, true
		}
		return Value{}, false
	}
	word := func(v Value) *Sym {
		switch x := v.P.(type) {
		case nil:
			return constSym(v.U)
		case *Sym:
			return x
		}
		return nil
	}
	a, b := word(tv), word(fv)
	if a == nil || b == nil {
		return Value{}, false
	}
	if a.Key() == b.Key() {
		return Value{P: s.mkSym(append([]sterm(nil), a.t...), a.k, nil, nil)}, true
	}
	if v, ok := s.iteResidue(c, a, b); ok {
		return v, true
	}
	// an addition's carry: lo < y (or lo < x) for lo = (x+y) mod 2^64, adds a constant
	if k := s.add(a, b, true); len(k.t) == 0 && k.k.e == 0 {
		if v, ok := s.iteCarry(c, a, b, k); ok {
			return v, true
		}
	}
	return Value{}, false
}

// iteResidue merges words that agree modulo a modulus (or are centred representatives).
func (s *SymCtx) iteResidue(c *SymBool, a, b *Sym) (Value, bool) {
	// the interval of each arm where it is taken
	nf := len(s.facts)
	rng := func(w *Sym, val bool) (lo, hi *big.Int) {
		s.assume(c, val)
		defer func() { s.facts = s.facts[:nf] }()
		return s.refine(w)
	}
	alo, ahi := rng(a, true)
	blo, bhi := rng(b, false)
	if alo.Cmp(ahi) > 0 || blo.Cmp(bhi) > 0 {
		return Value{}, false
	}
	lo, hi := alo, ahi
	if blo.Cmp(lo) < 0 {
		lo = blo
	}
	if bhi.Cmp(hi) > 0 {
		hi = bhi
	}
	if !inWord(lo, hi) {
		return Value{}, false
	}
	// the merged word, as a residue of w
	eq := c.op == token.EQL
	if eq && c.ng {
		a, b = b, a // a is the arm taken when x == y
	}
	tag := func() string {
		ng := ""
		if c.ng {
			ng = "!"
		}
		return fmt.Sprintf("ite%s%s|%s|%s|%s", ng, c.op, s.tkey(c.x), s.tkey(c.y), s.tkey(a))
	}
	merged := func(w *Sym, m uint64) (Value, bool) {
		if hi.Cmp(bu(m)) < 0 {
			return s.canonOf(w, 1, m, "ite"), true
		}
		// which word it is depends on the condition: by template when all indices agree
		tg := tag()
		i, ok := s.commonIdx(w)
		for _, x := range []*Sym{a, b, c.x, c.y} {
			if len(x.t) == 0 {
				continue
			}
			j, okj := s.commonIdx(x)
			ok = ok && okj && i == j
		}
		if !ok {
			tg += "|" + c.x.Key() + "|" + c.y.Key() + "|" + a.Key() + "|" + b.Key()
		}
		return s.lazyOf(w, 1, m, tg, lo, hi), true
	}
	own := map[uint64]bool{}
	for _, w := range []*Sym{a, b} {
		for _, t := range w.t {
			for _, x := range t.w {
				if x.row != nil && x.row.m != 0 {
					own[x.row.m] = true
				}
			}
		}
	}
	ms := sortedMods(s.mods)
	d := s.add(a, b, true)
	dc := len(d.t) == 0 && d.k.e == 0
	cd := s.add(c.x, c.y, true)
	base := b
	if len(b.t) == 0 && !eq {
		base = a // a constant says nothing about the row; the arms are congruent
	}
	for pass := 0; pass < 2; pass++ {
		for i := len(ms) - 1; i >= 0; i-- {
			m := ms[i]
			if own[m] != (pass == 0) {
				continue
			}
			if dc && d.k.mod(m) == 0 {
				return merged(base, m)
			}
			if pass == 1 && hi.Cmp(bu(m)) >= 0 {
				continue
			}
			if len(b.t) == 0 && len(a.t) == 0 {
				continue
			}
			ia, oka := s.commonIdx(a)
			ib, okb := s.commonIdx(b)
			if len(a.t) > 0 && !oka || len(b.t) > 0 && !okb || oka && okb && ia != ib {
				continue
			}
			na, da := s.armNF(a, m, domCoef)
			nb, db := s.armNF(b, m, domCoef)
			if len(a.t) == 0 && db != 0 {
				na, da = s.armNF(a, m, db)
			}
			if len(b.t) == 0 && da != 0 {
				nb, db = s.armNF(b, m, da)
			}
			if na == nil || nb == nil || da != 0 && db != 0 && da != db {
				continue
			}
			df := s.nfSub(na, nb)
			if df.isZero() {
				return merged(base, m)
			}
			if eq && len(cd.t) > 0 {
				if ic, ok := s.commonIdx(cd); !ok || oka && ic != ia || okb && ic != ib {
					continue
				}
				l := s.liftWord(cd, m)
				if l.nf == nil || l.nf.isZero() || l.dom != 0 && (da != 0 && l.dom != da || db != 0 && l.dom != db) {
					continue
				}
				t0 := l.nf.t[0]
				for _, t := range df.t {
					if t.m == t0.m && s.isPrimeMod(m) {
						lam := mulmod(t.c, invmod(t0.c, m), m)
						if s.nfSub(df, s.nfScale(l.nf, lam)).isZero() {
							if len(b.t) == 0 {
								return Value{}, false
							}
							return merged(b, m)
						}
					}
				}
			}
		}
	}
	if v, ok := s.iteCentred(c, a, b, ms, lo, hi); ok {
		return v, true
	}
	return Value{}, false
}

func (s *SymCtx) isPrimeMod(m uint64) bool { return s.mods[m] }

// iteCentred: "x - Q + p if x > Q/2 else x", the residue mod p of the centred representative of x mod Q.
func (s *SymCtx) iteCentred(c *SymBool, a, b *Sym, ms []uint64, lo, hi *big.Int) (Value, bool) {
	x, y, op := c.x, c.y, c.op
	if c.ng {
		a, b = b, a
	}
	// bring the condition into the form x >= thr ? a : b
	if len(x.t) == 0 {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.LEQ:
			op = token.GEQ
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		}
	}
	switch op {
	case token.LSS:
		op, a, b = token.GEQ, b, a
	case token.LEQ:
		op, a, b = token.GTR, b, a
	}
	if op != token.GEQ && op != token.GTR || len(y.t) != 0 || y.k.e != 0 {
		return Value{}, false
	}
	thr := y.k.n
	if op == token.GTR {
		thr = new(big.Int).Add(thr, bOne)
	}
	if len(x.t) != 1 || len(x.t[0].w) != 1 || x.k.n.Sign() != 0 || x.t[0].c.e != 0 || x.t[0].c.n.Cmp(bOne) != 0 {
		return Value{}, false
	}
	at := x.t[0].w[0]
	r := at.row
	if r == nil || !r.canon || r.dom != domCoef || r.m == 0 || thr.Cmp(bu(r.m/2+1)) != 0 {
		return Value{}, false
	}
	for i := len(ms) - 1; i >= 0; i-- {
		p := ms[i]
		if p == r.m || hi.Cmp(bu(p)) >= 0 {
			continue
		}
		na, da := s.armNF(a, p, domCoef)
		nb, db := s.armNF(b, p, domCoef)
		if na == nil || nb == nil || da == domNTT || db == domNTT {
			continue
		}
		X := s.atomNF(s.intAtom(r), p)
		if !s.nfSub(nb, X).isZero() || !s.nfSub(s.nfAdd(na, s.nfOnes(p, r.m%p)), X).isZero() {
			continue
		}
		if j, ok := s.commonIdx(a); !ok || j != at.idx {
			continue
		}
		if j, ok := s.commonIdx(b); !ok || j != at.idx {
			continue
		}
		return Value{P: s.word(s.canonRow(s.atomNF(s.centeredRes(r.nf), p), domCoef), at.idx)}, true
	}
	return Value{}, false
}

// iteCarry: "b + k if lo(E) < y else b": the condition is the carry of the addition lo(E-y) + y.
func (s *SymCtx) iteCarry(c *SymBool, a, b, k *Sym) (Value, bool) {
	E, x, y, ng := c.rx, c.x, c.y, c.ng
	switch c.op {
	case token.LSS:
	case token.GTR:
		E, x, y = c.ry, c.y, c.x
	case token.GEQ:
		ng = !ng
	case token.LEQ:
		E, x, y, ng = c.ry, c.y, c.x, !ng
	default:
		return Value{}, false
	}
	if E == nil {
		return Value{}, false
	}
	if ng {
		m1 := big.NewInt(-1)
		b, k = a, s.mul(k, &Sym{k: dyI(m1), lo: m1, hi: m1})
	}
	// lo(E) = (D + y) mod 2^64 for the word D = lo(E - y)
	E = s.add(s.exact(s.add(E, y, true)), y, false)
	if s.exact(E).Key() != x.Key() {
		return Value{}, false
	}
	carry := s.divPow64(s.add(E, x, true))
	return s.fromSym(s.add(b, s.mul(k, carry), false)), true
}
