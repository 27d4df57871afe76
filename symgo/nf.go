package main

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

// ---- atoms: integer polynomials of degree < N -------------------------------------------

type Atom struct {
	id     int
	name   string
	kind   string   // uniform gauss ternary sparse fill enc res cres crt vfloor opaque ...
	lo, hi *big.Int // bounds on every coefficient
	coll   map[uint64]*NF
	vd     *vDef // for vfloor atoms
	sh     *Atom // this atom is sh + shH*(1+X+...+X^(N-1))
	shH    uint64
	src    string
	rawQ   uint64 // for res atoms: modulus; coll[rawQ] is the definition
	prng   string
	opaque bool
	dist   [3]float64 // sampled atoms: sigma, probability of zero, hamming weight
}

type vDef struct {
	D   *Atom    // companion: sum y_i*c_i*Q - V*Q
	Q   *big.Int // product
	qs  []uint64
	lin []linTerm // Q*F = sum coef * atom
}

type linTerm struct {
	a *Atom
	c *big.Int
}

type Factor struct {
	a *Atom
	g int // automorphism X -> X^g
}

type Mono struct {
	id int
	f  []Factor
	x  int // power of X, 0 <= x < N
}

type term struct {
	m *Mono
	c uint64
}

// NF is an element of Z_m[X]/(X^N+1) written over atoms.
type NF struct {
	m   uint64
	t   []term // sorted by mono id, no zero coefficients
	key string
}

func (n *NF) Key() string {
	if n.key == "" {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%x:", n.m)
		for _, t := range n.t {
			fmt.Fprintf(&sb, "%x,%x;", t.m.id, t.c)
		}
		n.key = sb.String()
	}
	return n.key
}

func (n *NF) isZero() bool { return len(n.t) == 0 }

func mulmod(a, b, m uint64) uint64 {
	hi, lo := bits.Mul64(a, b)
	if hi == 0 {
		return lo % m
	}
	_, r := bits.Div64(hi%m, lo, m)
	return r
}
func addmod(a, b, m uint64) uint64 {
	s, c := bits.Add64(a, b, 0)
	if c != 0 || s >= m {
		s -= m
	}
	return s
}
func submod(a, b, m uint64) uint64 {
	if a >= b {
		return a - b
	}
	return a + (m - b)
}
func powmod(a, e, m uint64) uint64 {
	r := uint64(1) % m
	a %= m
	for e > 0 {
		if e&1 == 1 {
			r = mulmod(r, a, m)
		}
		a = mulmod(a, a, m)
		e >>= 1
	}
	return r
}
func invmod(a, m uint64) uint64 {
	r := new(big.Int).ModInverse(new(big.Int).SetUint64(a%m), new(big.Int).SetUint64(m))
	if r == nil {
		unsupported("no inverse of %d mod %d", a, m)
	}
	return r.Uint64()
}
func bigmod(a *big.Int, m uint64) uint64 {
	return new(big.Int).Mod(a, new(big.Int).SetUint64(m)).Uint64()
}
func bu(u uint64) *big.Int { return new(big.Int).SetUint64(u) }

// ---- context -----------------------------------------------------------------------------

type monoKey [2]int

func (s *SymCtx) newAtom(kind, name string, lo, hi *big.Int) *Atom {
	s.nAtoms++
	a := &Atom{id: s.nAtoms, name: fmt.Sprintf("%s#%d", name, s.nAtoms), kind: kind, lo: lo, hi: hi, coll: map[uint64]*NF{}}
	s.atoms = append(s.atoms, a)
	return a
}

func (s *SymCtx) mono(f []Factor, x int) *Mono {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", x)
	for _, q := range f {
		fmt.Fprintf(&sb, ",%d.%d", q.a.id, q.g)
	}
	k := sb.String()
	if m, ok := s.monos[k]; ok {
		return m
	}
	m := &Mono{id: len(s.monos) + 1, f: f, x: x}
	s.monos[k] = m
	return m
}

func (s *SymCtx) nf(m uint64, ts []term) *NF {
	sort.Slice(ts, func(i, j int) bool { return ts[i].m.id < ts[j].m.id })
	out := ts[:0]
	for _, t := range ts {
		if n := len(out); n > 0 && out[n-1].m == t.m {
			out[n-1].c = addmod(out[n-1].c, t.c, m)
			if out[n-1].c == 0 {
				out = out[:n-1]
			}
			continue
		}
		if t.c != 0 {
			out = append(out, t)
		}
	}
	return &NF{m: m, t: out}
}

func (s *SymCtx) nfConst(m uint64, c uint64) *NF {
	c %= m
	if c == 0 {
		return &NF{m: m}
	}
	return &NF{m: m, t: []term{{s.mono(nil, 0), c}}}
}

// nfOnes is c*(1+X+...+X^(N-1)).
func (s *SymCtx) nfOnes(m uint64, c uint64) *NF {
	c %= m
	if c == 0 {
		return &NF{m: m}
	}
	ts := make([]term, s.N)
	for i := range ts {
		ts[i] = term{s.mono(nil, i), c}
	}
	return s.nf(m, ts)
}

func (s *SymCtx) nfPoly(m uint64, c []uint64) *NF {
	var ts []term
	for i, x := range c {
		if x%m != 0 {
			ts = append(ts, term{s.mono(nil, i), x % m})
		}
	}
	return s.nf(m, ts)
}

// atomNF is the image of the integer polynomial a in Z_m[X]/(X^N+1).
func (s *SymCtx) atomNF(a *Atom, m uint64) *NF {
	if c, ok := a.coll[m]; ok {
		return c
	}
	if a.sh != nil {
		return s.nfAdd(s.atomNF(a.sh, m), s.nfOnes(m, a.shH%m))
	}
	if a.vd != nil && bigmod(a.vd.Q, m) != 0 {
		// V = (sum - D)/Q
		qi := invmod(bigmod(a.vd.Q, m), m)
		r := s.nfScale(s.atomNF(a.vd.D, m), submod(0, qi, m))
		for _, l := range a.vd.lin {
			r = s.nfAdd(r, s.nfScale(s.atomNF(l.a, m), mulmod(bigmod(l.c, m), qi, m)))
		}
		return r
	}
	return &NF{m: m, t: []term{{s.mono([]Factor{{a, 1}}, 0), 1 % m}}}
}

func (s *SymCtx) nfAdd(a, b *NF) *NF {
	if a.m != b.m {
		panic("nfAdd moduli")
	}
	if len(a.t) == 0 {
		return b
	}
	if len(b.t) == 0 {
		return a
	}
	out := make([]term, 0, len(a.t)+len(b.t))
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || (i < len(a.t) && a.t[i].m.id < b.t[j].m.id):
			out = append(out, a.t[i])
			i++
		case i >= len(a.t) || a.t[i].m.id > b.t[j].m.id:
			out = append(out, b.t[j])
			j++
		default:
			if c := addmod(a.t[i].c, b.t[j].c, a.m); c != 0 {
				out = append(out, term{a.t[i].m, c})
			}
			i++
			j++
		}
	}
	return &NF{m: a.m, t: out}
}

func (s *SymCtx) nfScale(a *NF, c uint64) *NF {
	c %= a.m
	if c == 0 {
		return &NF{m: a.m}
	}
	if c == 1 {
		return a
	}
	out := make([]term, 0, len(a.t))
	for _, t := range a.t {
		if d := mulmod(t.c, c, a.m); d != 0 {
			out = append(out, term{t.m, d})
		}
	}
	return &NF{m: a.m, t: out}
}

func (s *SymCtx) nfNeg(a *NF) *NF    { return s.nfScale(a, a.m-1) }
func (s *SymCtx) nfSub(a, b *NF) *NF { return s.nfAdd(a, s.nfNeg(b)) }

const maxTerms = 60000

func (s *SymCtx) nfMul(a, b *NF) *NF {
	if a.m != b.m {
		panic("nfMul moduli")
	}
	if len(a.t) == 0 || len(b.t) == 0 {
		return &NF{m: a.m}
	}
	if len(a.t) > len(b.t) {
		a, b = b, a
	}
	if len(a.t) == 1 && len(a.t[0].m.f) == 0 && a.t[0].m.x == 0 {
		return s.nfScale(b, a.t[0].c)
	}
	acc := make(map[*Mono]uint64, len(a.t)*len(b.t))
	for _, ta := range a.t {
		for _, tb := range b.t {
			m, neg := s.monoMul(ta.m, tb.m)
			c := mulmod(ta.c, tb.c, a.m)
			if neg {
				c = submod(0, c, a.m)
			}
			acc[m] = addmod(acc[m], c, a.m)
		}
	}
	if len(acc) > maxTerms {
		unsupported("normal form too large (%d terms)", len(acc))
	}
	ts := make([]term, 0, len(acc))
	for m, c := range acc {
		if c != 0 {
			ts = append(ts, term{m, c})
		}
	}
	return s.nf(a.m, ts)
}

type mmRes struct {
	m   *Mono
	neg bool
}

func (s *SymCtx) monoMul(a, b *Mono) (*Mono, bool) {
	if len(a.f) == 0 && a.x == 0 {
		return b, false
	}
	if len(b.f) == 0 && b.x == 0 {
		return a, false
	}
	if a.id > b.id {
		a, b = b, a
	}
	k := monoKey{a.id, b.id}
	if r, ok := s.mmCache[k]; ok {
		return r.m, r.neg
	}
	f := make([]Factor, 0, len(a.f)+len(b.f))
	f = append(append(f, a.f...), b.f...)
	sortFactors(f)
	x := a.x + b.x
	neg := false
	if x >= s.N {
		x -= s.N
		neg = true
	}
	r := mmRes{s.mono(f, x), neg}
	s.mmCache[k] = r
	return r.m, r.neg
}

func sortFactors(f []Factor) {
	sort.Slice(f, func(i, j int) bool {
		if f[i].a.id != f[j].a.id {
			return f[i].a.id < f[j].a.id
		}
		return f[i].g < f[j].g
	})
}

// nfAut applies X -> X^g (g odd).
func (s *SymCtx) nfAut(a *NF, g int) *NF {
	M := 2 * s.N
	g = ((g % M) + M) % M
	if g == 1 || len(a.t) == 0 {
		return a
	}
	ts := make([]term, 0, len(a.t))
	for _, t := range a.t {
		f := make([]Factor, len(t.m.f))
		for i, q := range t.m.f {
			f[i] = Factor{q.a, (q.g * g) % M}
		}
		sortFactors(f)
		x := (t.m.x * g) % M
		c := t.c
		if x >= s.N {
			x -= s.N
			c = submod(0, c, a.m)
		}
		ts = append(ts, term{s.mono(f, x), c})
	}
	return s.nf(a.m, ts)
}

// nfShift multiplies by X^k.
func (s *SymCtx) nfShift(a *NF, k int) *NF {
	k = ((k % (2 * s.N)) + 2*s.N) % (2 * s.N)
	neg := k >= s.N
	if neg {
		k -= s.N
	}
	c := uint64(1)
	if neg {
		c = a.m - 1
	}
	return s.nfMul(a, &NF{m: a.m, t: []term{{s.mono(nil, k), c}}})
}

// recollapse re-reads an NF after atoms may have collapsed (identity for well-formed NFs) or
// evaluates an integer polynomial (given as signed terms) mod m.
func (s *SymCtx) evalInt(T map[*Mono]*big.Int, m uint64) *NF {
	r := &NF{m: m}
	ids := make([]*Mono, 0, len(T))
	for k := range T {
		ids = append(ids, k)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i].id < ids[j].id })
	var plain []term
	for _, mo := range ids {
		c := bigmod(T[mo], m)
		if c == 0 {
			continue
		}
		simple := true
		for _, f := range mo.f {
			if !s.plainMod(f.a, m) {
				simple = false
			}
		}
		if simple {
			plain = append(plain, term{mo, c})
			continue
		}
		x := &NF{m: m, t: []term{{s.mono(nil, mo.x), c}}}
		for _, f := range mo.f {
			x = s.nfMul(x, s.nfAut(s.atomNF(f.a, m), f.g))
		}
		r = s.nfAdd(r, x)
	}
	return s.nfAdd(r, s.nf(m, plain))
}

func (s *SymCtx) plainMod(a *Atom, m uint64) bool {
	if _, ok := a.coll[m]; ok {
		return false
	}
	if a.vd != nil && bigmod(a.vd.Q, m) != 0 {
		return false
	}
	return true
}

func (s *SymCtx) nfString(a *NF) string {
	var sb strings.Builder
	for i, t := range a.t {
		if i > 30 {
			fmt.Fprintf(&sb, " ... (%d terms)", len(a.t))
			break
		}
		c := new(big.Int).SetUint64(t.c)
		if t.c > a.m/2 {
			c.Sub(c, new(big.Int).SetUint64(a.m))
		}
		fmt.Fprintf(&sb, " %+d", c)
		if t.m.x > 0 {
			fmt.Fprintf(&sb, "*X^%d", t.m.x)
		}
		for _, f := range t.m.f {
			if f.g == 1 {
				fmt.Fprintf(&sb, "*%s", f.a.name)
			} else {
				fmt.Fprintf(&sb, "*%s^(%d)", f.a.name, f.g)
			}
		}
	}
	if len(a.t) == 0 {
		return "0"
	}
	return sb.String()
}
