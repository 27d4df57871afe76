package h

import (
	"math/big"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"

	. "vharness/vsym"
)

// digitE reads digit i of a decomposition at a level (NTT domain), over Q_lvl and P.
func digitE(p mkrlwe.Parameters, d *mkrlwe.SwitchingKey, i, lvl int) *Elem {
	return Join(Of(p.RingQ(), lvl, d.Value[i].Q, true, false), Of(p.RingP(), p.PCount()-1, d.Value[i].P, true, false))
}

// gadgetResLvl: residues of the i-th gadget element over Q_lvl and P.
func gadgetResLvl(p mkrlwe.Parameters, i, lvl int) []uint64 {
	r := gadgetRes(p, i)
	return append(append([]uint64{}, r[:lvl+1]...), r[p.QCount():]...)
}

// C06_Decompose: recomposition, digit sizes, both domains, every level.
func C06_Decompose() { decomposeOver(keyCfg("cfg")) }

func decomposeOver(c cfg) { decomposeAt(c, opt("level", c.nQ)) }

func decomposeAt(c cfg, lvl int) {
	p := rlweParams(c)
	used := opt("used-before", 2) == 1
	ks := mkrlwe.NewKeySwitcher(p)
	rQ := p.RingQ()
	a, ad := rQ.NewPoly(), mkrlwe.NewSwitchingKey(p)
	if used { // both the switcher and the receiver have been used at another level
		o := rQ.NewPoly()
		Fill("other", rQ, c.nQ-1, o, true)
		ks.Decompose(c.nQ-1, o, ad)
	}
	loose := opt("words", 2) == 1
	if loose {
		FillLoose("a", rQ, lvl, a, false)
	} else {
		Fill("a", rQ, lvl, a, false)
	}
	snap := a.CopyNew()
	if !NoPanic("decomposition is accepted", func() { ks.Decompose(lvl, a, ad) }) {
		return
	}
	EqPoly("the input is not changed", a, snap)
	alpha := len(p.RingP().Modulus) / p.Gamma()
	A := Of(rQ, lvl, a, false, false)
	P := p.RingP().Modulus
	var sum *Elem
	for i := 0; i < nDigits(p, lvl); i++ {
		hi := (i + 1) * alpha
		if hi > lvl+1 {
			hi = lvl + 1
		}
		block := rQ.Modulus[i*alpha : hi]
		e := digitE(p, ad, i, lvl)
		Equal("digit congruent to the input on its block", Restrict(e, block), Restrict(A, block))
		Small("digit bounded by its block", e, lgProd(block)+0.02)
		g := MulRes(e, gadgetResLvl(p, i, lvl))
		if sum == nil {
			sum = g
		} else {
			sum = Add(sum, g)
		}
		WithinQ("digit reduced", rQ, lvl, ad.Value[i].Q, 1)
		WithinQ("digit reduced modulo P", p.RingP(), len(P)-1, ad.Value[i].P, 1)
	}
	Equal("sum of digits times gadget is P times the input", sum, Lift(A, P))
	if loose {
		return
	}
	// the same from the NTT domain
	b := rQ.NewPoly()
	rQ.NTTLvl(lvl, a, b)
	b.IsNTT = true
	bsnap := b.CopyNew()
	bd := mkrlwe.NewSwitchingKey(p)
	if !NoPanic("decomposition in the NTT domain is accepted", func() { ks.Decompose(lvl, b, bd) }) {
		return
	}
	EqPoly("the input is not changed", b, bsnap)
	for i := 0; i < nDigits(p, lvl); i++ {
		for j := 0; j <= lvl; j++ {
			EqRow("same digits from either domain", ad.Value[i].Q, bd.Value[i].Q, j)
		}
		for j := range P {
			EqRow("same digits from either domain modulo P", ad.Value[i].P, bd.Value[i].P, j)
		}
	}
}

func bfvCfg(name string) cfg {
	if Thorough() {
		return pick(name, cfg{1, 2}, cfg{2, 2}, cfg{3, 2}, cfg{4, 2}, cfg{2, 3}, cfg{2, 4}, cfg{4, 4}, cfg{4, 5}, cfg{3, 6}, cfg{6, 6})
	}
	return pick(name, cfg{1, 2}, cfg{2, 2}, cfg{3, 2}, cfg{2, 4}, cfg{4, 4}, cfg{3, 6}, cfg{6, 6})
}

// rMods: Q then P then QMul
func bfvJoin(p mkbfv.Parameters, r *ring.Poly, ntt bool, k *big.Int) *Elem {
	c := p.QCount()
	a := Of(p.RingR(), 2*c-1, r, ntt, false)
	res := func(ms []uint64) (o []uint64) {
		for _, m := range ms {
			o = append(o, new(big.Int).Mod(k, new(big.Int).SetUint64(m)).Uint64())
		}
		return
	}
	Q, M, P := p.RingQ().Modulus, p.RingQMul().Modulus, p.RingP().Modulus
	return Join(Join(MulRes(Restrict(a, Q), res(Q)), ZeroE(n, P)), MulRes(Restrict(a, M), res(M)))
}

// C06_BFV: the decomposition over Q and QMul recomposes to t*P/QMul times the input.
func C06_BFV() {
	c := bfvCfg("cfg")
	p := bfvParams(c)
	lvl := c.nQ - 1
	ks := mkbfv.NewKeySwitcher(p)
	rR := p.RingR()
	a := rR.NewPoly()
	d1, d2 := mkrlwe.NewSwitchingKey(p.Parameters), mkrlwe.NewSwitchingKey(p.Parameters)
	if opt("used-before", 2) == 1 {
		o := rR.NewPoly()
		Fill("other", rR, 2*c.nQ-1, o, false)
		ks.DecomposeBFV(lvl, o, d1, d2)
	}
	FillLoose("a", rR, 2*c.nQ-1, a, false)
	snap := a.CopyNew()
	if !NoPanic("decomposition is accepted", func() { ks.DecomposeBFV(lvl, a, d1, d2) }) {
		return
	}
	EqPoly("the input is not changed", a, snap)
	alpha := len(p.RingP().Modulus) / p.Gamma()
	var sum *Elem
	logB := 0.0
	for half, d := range []*mkrlwe.SwitchingKey{d1, d2} {
		src := p.RingQ().Modulus
		if half == 1 {
			src = p.RingQMul().Modulus
		}
		for i := 0; i < nDigits(p.Parameters, lvl); i++ {
			hi := (i + 1) * alpha
			if hi > len(src) {
				hi = len(src)
			}
			e := digitE(p.Parameters, d, i, lvl)
			Small("digit bounded by its block", e, lgProd(src[i*alpha:hi])+0.02)
			if half == 0 {
				Equal("digit congruent to the input on its block", Restrict(e, src[i*alpha:hi]), Restrict(Of(rR, 2*c.nQ-1, a, false, false), src[i*alpha:hi]))
			}
			g := MulRes(e, bfvGadget(p, half, i))
			if sum == nil {
				sum = g
			} else {
				sum = Add(sum, g)
			}
			if b := lgProd(src[i*alpha : hi]); b > logB {
				logB = b
			}
		}
	}
	k := new(big.Int).Mul(prod(p.RingP().Modulus), new(big.Int).SetUint64(p.T()))
	// the gadget elements are rounded down, each digit contributes at most its size
	Near("recomposition", sum, p.RingQMul().Modulus, bfvJoin(p, a, false, k), logB+lg(float64(2*nDigits(p.Parameters, lvl)))+0.1)
}
