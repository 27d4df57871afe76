package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// monoSMT names monomials as SMT integers (the coefficient at one position: the obligations are
// linear in the monomials, so one generic position stands for all).
type monoSMT struct {
	decl strings.Builder
	seen map[*Mono]bool
	s    *SymCtx
}

func (m *monoSMT) name(x *Mono) string {
	n := fmt.Sprintf("m%d", x.id)
	if !m.seen[x] {
		m.seen[x] = true
		if len(x.f) == 0 && x.x == 0 {
			fmt.Fprintf(&m.decl, "(declare-const %s Int)\n", n)
		} else {
			fmt.Fprintf(&m.decl, "(declare-const %s Int)\n", n)
		}
	}
	return n
}

func (m *monoSMT) sum(nfs []*NF) string {
	var ps []string
	for _, f := range nfs {
		for _, t := range f.t {
			c := smtU(t.c)
			if t.c > f.m/2 {
				c = "(- " + smtU(f.m-t.c) + ")"
			}
			ps = append(ps, fmt.Sprintf("(* %s %s)", c, m.name(t.m)))
		}
	}
	switch len(ps) {
	case 0:
		return "0"
	case 1:
		return ps[0]
	}
	return "(+ " + strings.Join(ps, " ") + ")"
}

// modObl: sum(got) - sum(want) == 0 mod m for every value of the monomials.
func (it *Interp) modObl(kind, name string, m uint64, where string, got, want []*NF) {
	ms := &monoSMT{seen: map[*Mono]bool{}, s: it.S}
	g, w := ms.sum(got), ms.sum(want)
	acc := &NF{m: m}
	for _, x := range got {
		acc = it.S.nfAdd(acc, x)
	}
	for _, x := range want {
		acc = it.S.nfSub(acc, x)
	}
	o := &Obl{Kind: kind, Name: name, Expect: "unsat"}
	o.SMT = ms.decl.String() + fmt.Sprintf("(assert (not (= (mod (- %s %s) %d) 0)))\n", g, w, m)
	if !acc.isZero() {
		o.Note = fmt.Sprintf("%s mod %d: residue%s", where, m, it.S.nfString(acc))
	}
	it.H.addObl(o)
}

func (it *Interp) equalObl(name string, x, y *symElem) {
	for i := range x.mods {
		it.modObl("equal", name, x.mods[i], "", []*NF{x.nf[i]}, []*NF{y.nf[i]})
	}
	if len(x.mods) == 0 {
		it.H.addObl(it.boolObl("equal", name, vBool(true)))
	}
}

// monoNorm bounds the coefficients of a product of atoms.
func (s *SymCtx) monoNorm(m *Mono) *big.Int {
	r := big.NewInt(1)
	for i, f := range m.f {
		b := new(big.Int).Abs(f.a.hi)
		if l := new(big.Int).Abs(f.a.lo); l.Cmp(b) > 0 {
			b = l
		}
		r.Mul(r, b)
		if i > 0 {
			r.Mul(r, big.NewInt(int64(s.N)))
		}
	}
	return r
}

// near: got - want (over the moduli of want) is the image of an integer polynomial with
// coefficients at most B.
func (it *Interp) near(name string, got, want *symElem, R []uint64, B *big.Int) {
	it.sameMods(got, want)
	s := it.S
	lim := new(big.Int).Set(B)
	nm := len(got.mods)
	v := make([]*NF, nm)
	all := big.NewInt(1)
	for i := range v {
		v[i] = s.nfSub(got.nf[i], want.nf[i])
		all.Mul(all, bu(got.mods[i]))
	}
	T := map[*Mono]*big.Int{}
	res := v
	for round := 0; round < 12; round++ {
		cand := map[*Mono]bool{}
		for _, x := range res {
			for _, t := range x.t {
				cand[t.m] = true
			}
		}
		if len(cand) == 0 {
			break
		}
		ids := make([]*Mono, 0, len(cand))
		for k := range cand {
			ids = append(ids, k)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i].id < ids[j].id })
		type pick struct {
			m   *Mono
			c   *big.Int
			n   int
			sig bool
		}
		var picks []pick
		for _, mo := range ids {
			M := big.NewInt(1)
			acc := new(big.Int)
			n := 0
			for i, q := range got.mods {
				plain := true
				for _, f := range mo.f {
					if !s.plainMod(f.a, q) {
						plain = false
					}
				}
				if !plain {
					continue
				}
				n++
				c := coefOf(res[i], mo)
				// CRT: acc mod M, c mod q
				t := submod(c, bigmod(acc, q), q)
				t = mulmod(t, invmod(bigmod(M, q), q), q)
				acc.Add(acc, new(big.Int).Mul(M, bu(t)))
				M.Mul(M, bu(q))
			}
			if n == 0 {
				continue
			}
			if new(big.Int).Lsh(acc, 1).Cmp(M) > 0 {
				acc.Sub(acc, M)
			}
			if acc.Sign() == 0 {
				continue
			}
			sz := new(big.Int).Mul(new(big.Int).Abs(acc), s.monoNorm(mo))
			if sz.Cmp(lim) > 0 {
				continue
			}
			// a coefficient much smaller than the modulus it was recovered from is no coincidence
			sig := new(big.Int).Lsh(new(big.Int).Abs(acc), 20).Cmp(M) < 0
			picks = append(picks, pick{mo, acc, n, sig})
		}
		if len(picks) == 0 {
			break
		}
		// prefer significant coefficients, then monomials visible modulo more of the moduli
		anySig := false
		for _, p := range picks {
			anySig = anySig || p.sig
		}
		if anySig {
			var keep []pick
			for _, p := range picks {
				if p.sig {
					keep = append(keep, pick{p.m, p.c, 0, true})
				}
			}
			picks = keep
		}
		mx := 0
		for _, p := range picks {
			if p.n > mx {
				mx = p.n
			}
		}
		for _, p := range picks {
			if p.n < mx {
				continue
			}
			if o, ok := T[p.m]; ok {
				p.c = new(big.Int).Add(o, p.c)
			}
			T[p.m] = p.c
			if p.c.Sign() == 0 {
				delete(T, p.m)
			}
		}
		res = make([]*NF, nm)
		for i, q := range got.mods {
			res[i] = s.nfSub(v[i], s.evalInt(T, q))
		}
	}
	// the solver's part: (a) congruence modulo every prime, (b) the bound
	for i, q := range got.mods {
		it.modObl("near-congruence", name, q, "", []*NF{got.nf[i]}, []*NF{want.nf[i], s.evalInt(T, q)})
	}
	var sb strings.Builder
	ps := []string{"0.0"}
	ids := make([]*Mono, 0, len(T))
	for k := range T {
		ids = append(ids, k)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i].id < ids[j].id })
	// monomials with one coefficient and one range are summed into one variable: the sum of k
	// numbers in [lo, hi] is a number in [k lo, k hi]
	type group struct {
		c, lo, hi *big.Int
		k         int64
	}
	groups := map[string]*group{}
	var order []*group
	for _, mo := range ids {
		b := s.monoNorm(mo)
		lo, hi := new(big.Int).Neg(b), b
		if len(mo.f) == 1 && mo.x == 0 && mo.f[0].g == 1 {
			lo, hi = mo.f[0].a.lo, mo.f[0].a.hi
		}
		c := T[mo]
		if c.Sign() < 0 && new(big.Int).Add(lo, hi).Sign() == 0 {
			c = new(big.Int).Neg(c) // a symmetric range: the variable stands for the negated monomial
		}
		key := c.String() + " " + lo.String() + " " + hi.String()
		g := groups[key]
		if g == nil {
			g = &group{c: c, lo: lo, hi: hi}
			groups[key] = g
			order = append(order, g)
		}
		g.k++
	}
	for i, g := range order {
		k := big.NewInt(g.k)
		lo, hi := new(big.Int).Mul(g.lo, k), new(big.Int).Mul(g.hi, k)
		n := fmt.Sprintf("m%d", i)
		fmt.Fprintf(&sb, "(declare-const %s Real)(assert (and (<= %s %s) (<= %s %s)))\n", n, smtInt(lo), n, n, smtInt(hi))
		ps = append(ps, fmt.Sprintf("(* %s %s)", smtInt(g.c), n))
	}
	fmt.Fprintf(&sb, "(define-fun T () Real (+ %s 0.0))\n(assert (not (and (<= %s T) (<= T %s))))\n", strings.Join(ps, " "), smtInt(new(big.Int).Neg(lim)), smtInt(lim))
	it.H.addObl(&Obl{Kind: "near-bound", Name: name, Expect: "unsat", SMT: sb.String()})
}

func coefOf(n *NF, m *Mono) uint64 {
	i := sort.Search(len(n.t), func(i int) bool { return n.t[i].m.id >= m.id })
	if i < len(n.t) && n.t[i].m == m {
		return n.t[i].c
	}
	return 0
}

// fresh: every element has a sampled noise atom of its own.
func (it *Interp) fresh(name string, es []*symElem) {
	s := it.S
	lin := make([]map[*Atom]uint64, len(es))
	any := make([]map[*Atom]bool, len(es))
	for i, e := range es {
		lin[i], any[i] = map[*Atom]uint64{}, map[*Atom]bool{}
		for _, x := range e.nf {
			for _, t := range x.t {
				for _, f := range t.m.f {
					any[i][f.a] = true
				}
				if len(t.m.f) == 1 && (t.m.f[0].a.kind == "gauss" || t.m.f[0].a.kind == "ternary" || t.m.f[0].a.kind == "uniform") {
					lin[i][t.m.f[0].a]++
				}
			}
		}
	}
	for i, e := range es {
		var own *Atom
		var as []*Atom
		for a := range lin[i] {
			as = append(as, a)
		}
		sort.Slice(as, func(x, y int) bool { return as[x].id < as[y].id })
		for _, a := range as {
			excl := true
			for k := range es {
				if k != i && any[k][a] {
					excl = false
				}
			}
			if excl && a.kind != "uniform" {
				own = a
				break
			}
		}
		if own == nil {
			o := it.boolObl("fresh", name, vBool(false))
			o.Note = fmt.Sprintf("element %d carries no noise of its own", i)
			it.H.addObl(o)
			continue
		}
		// changing the noise by one unit always changes the element, and changes no other
		for k, q := range e.mods {
			ms := &monoSMT{seen: map[*Mono]bool{}, s: s}
			full := ms.sum([]*NF{e.nf[k]})
			// with the noise replaced: only monomials containing it change
			c := uint64(0)
			for _, t := range e.nf[k].t {
				if len(t.m.f) == 1 && t.m.f[0].a == own && t.m.f[0].g == 1 && t.m.x == 0 {
					c = t.c
				}
			}
			if c == 0 {
				it.H.addObl(&Obl{Kind: "fresh", Name: name, Expect: "unsat", SMT: "(assert true)\n", Note: fmt.Sprintf("element %d: noise missing modulo %d", i, q)})
				continue
			}
			it.H.addObl(&Obl{Kind: "fresh", Name: name, Expect: "unsat", SMT: ms.decl.String() + fmt.Sprintf("(define-fun e0 () Int %s)(define-fun e1 () Int (+ e0 %d))(assert (= (mod e0 %d) (mod e1 %d)))\n", full, c, q, q)})
		}
	}
}

// uniform: every residue of every element is a unit times a uniform sample of its own; one sample serves the
// residues of one element only, and only as many primes as its range covers.
func (it *Interp) uniform(name string, es []*symElem) {
	s := it.S
	bad := func(f string, a ...any) {
		o := it.boolObl("uniform", name, vBool(false))
		o.Note = fmt.Sprintf(f, a...)
		it.H.addObl(o)
	}
	owner := map[*Atom]int{}
	used := map[*Atom]*big.Int{}
	for i, e := range es {
		for k, q := range e.mods {
			x := e.nf[k]
			if len(x.t) != 1 || len(x.t[0].m.f) != 1 || x.t[0].m.f[0].a.kind != "uniform" {
				bad("element %d is not a uniform sample modulo %d", i, q)
				return
			}
			a := x.t[0].m.f[0].a
			if o, ok := owner[a]; ok && o != i {
				bad("elements %d and %d are made from one sample", o, i)
				return
			}
			owner[a] = i
			if used[a] == nil {
				used[a] = big.NewInt(1)
			}
			used[a].Mul(used[a], bu(q))
			full := new(big.Int).Add(a.hi, bOne)
			if a.lo.Sign() != 0 || new(big.Int).Mod(full, used[a]).Sign() != 0 {
				bad("the sample of element %d does not cover modulo %d", i, q)
				return
			}
			// distinct samples give distinct values
			it.H.addObl(&Obl{Kind: "uniform", Name: name, Expect: "unsat", SMT: fmt.Sprintf("(declare-const u Int)(declare-const v Int)(assert (and (<= 0 u) (< u v) (< v %d)))(assert (= (mod (* %d u) %d) (mod (* %d v) %d)))\n", q, x.t[0].c, q, x.t[0].c, q)})
		}
	}
	_ = s
}

// sampled: every element is exactly a unit (+-1) times a sample of the kind and distribution, occurring in no other.
func (it *Interp) sampled(name, kind string, dist [3]float64, es []*symElem) {
	bad := func(f string, a ...any) {
		o := it.boolObl("sampled", name, vBool(false))
		o.Note = fmt.Sprintf(f, a...)
		it.H.addObl(o)
	}
	owner := map[*Atom]int{}
	for i, e := range es {
		var own *Atom
		for k, q := range e.mods {
			x := e.nf[k]
			if len(x.t) != 1 || len(x.t[0].m.f) != 1 || x.t[0].m.f[0].a.kind != kind || x.t[0].m.f[0].a.dist != dist {
				bad("element %d is not exactly one %s sample of the parameters' distribution modulo %d", i, kind, q)
				return
			}
			a := x.t[0].m.f[0].a
			if own != nil && own != a {
				bad("element %d is made from different samples modulo different primes", i)
				return
			}
			own = a
			it.H.addObl(&Obl{Kind: "sampled", Name: name, Expect: "unsat", SMT: fmt.Sprintf("(assert (not (or (= (mod %d %d) 1) (= (mod %d %d) %d))))\n", x.t[0].c, q, x.t[0].c, q, q-1)})
		}
		if j, ok := owner[own]; ok {
			bad("elements %d and %d are the same sample", j, i)
			return
		}
		owner[own] = i
	}
}

// masks: element i is 2^logK times a ternary sample (own to its group of per consecutive elements) plus a Gaussian
// sample of its own.
func (it *Interp) masks(name string, logK, per int, sigma, p float64, es []*symElem) {
	bad := func(f string, a ...any) {
		o := it.boolObl("masks", name, vBool(false))
		o.Note = fmt.Sprintf(f, a...)
		it.H.addObl(o)
	}
	us, gs := map[*Atom]int{}, map[*Atom]int{}
	for i, e := range es {
		for k, q := range e.mods {
			x := e.nf[k]
			var u, g *Atom
			K := new(big.Int).Mod(new(big.Int).Lsh(bOne, uint(logK)), bu(q))
			for _, t := range x.t {
				if len(t.m.f) != 1 {
					bad("element %d contains more than a mask and a noise modulo %d", i, q)
					return
				}
				a := t.m.f[0].a
				want := bOne
				switch {
				case a.kind == "ternary" && a.dist == [3]float64{0, p, 0} && u == nil:
					u, want = a, K
				case a.kind == "gauss" && a.dist == [3]float64{sigma, 0, 0} && g == nil:
					g = a
				default:
					bad("element %d contains more than a mask and a noise modulo %d", i, q)
					return
				}
				it.H.addObl(&Obl{Kind: "masks", Name: name, Expect: "unsat", SMT: fmt.Sprintf("(assert (not (or (= (mod %d %d) %v) (= (mod (+ %d %v) %d) 0))))\n", t.c, q, want, t.c, want, q)})
			}
			if u == nil || g == nil {
				bad("element %d carries no mask or no noise of the parameters' distribution modulo %d", i, q)
				return
			}
			if j, ok := us[u]; ok && j/per != i/per {
				bad("elements %d and %d share the mask", j, i)
				return
			}
			if j, ok := gs[g]; ok && j != i {
				bad("elements %d and %d share the noise", j, i)
				return
			}
			us[u], gs[g] = i, i
		}
	}
}
