package h

import (
	"math"
	"math/big"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"

	. "vharness/vsym"
)

func swLvl(p mkrlwe.Parameters, x rlwe.PolyQP, lvl int) *Elem {
	return Join(Of(p.RingQ(), lvl, x.Q, true, true), Of(p.RingP(), p.PCount()-1, x.P, true, true))
}

// fillSwk: arbitrary vector of ring elements in NTT and Montgomery form, words in [0,q].
func fillSwk(name string, p mkrlwe.Parameters) *mkrlwe.SwitchingKey {
	k := mkrlwe.NewSwitchingKey(p)
	for i := range k.Value {
		FillLoose(str("%s.%d.Q", name, i), p.RingQ(), p.QCount()-1, k.Value[i].Q, true)
		FillLoose(str("%s.%d.P", name, i), p.RingP(), p.PCount()-1, k.Value[i].P, true)
	}
	return k
}

func copySwk(k *mkrlwe.SwitchingKey) *mkrlwe.SwitchingKey {
	r := &mkrlwe.SwitchingKey{}
	for i := range k.Value {
		r.Value = append(r.Value, k.Value[i].CopyNew())
	}
	return r
}

func sameSwk(name string, a, b *mkrlwe.SwitchingKey) {
	if len(a.Value) != len(b.Value) {
		Assert(name, false)
		return
	}
	for i := range a.Value {
		EqPoly(name, a.Value[i].Q, b.Value[i].Q)
		EqPoly(name, a.Value[i].P, b.Value[i].P)
	}
}

// the rounding of a division by P: at most one unit and a bit
const divB = 0.02

// C07_External: P*c is the sum of the digits times the vector, up to the rounding of the division.
func C07_External() {
	c := keyCfg("cfg")
	externalOver(c, opt("level", c.nQ))
}

func externalOver(c cfg, lvl int) {
	p := rlweParams(c)
	ntt := opt("ntt", 2) == 1
	used := opt("used-before", 2) == 1
	ks := mkrlwe.NewKeySwitcher(p)
	rQ := p.RingQ()
	bg := fillSwk("bg", p)
	snapBg := copySwk(bg)
	if used {
		o, oc := rQ.NewPoly(), rQ.NewPoly()
		Fill("other", rQ, c.nQ-1, o, false)
		ks.ExternalProduct(c.nQ-1, o, fillSwk("otherbg", p), oc)
	}
	a := rQ.NewPoly()
	FillLoose("a", rQ, lvl, a, ntt)
	snap := a.CopyNew()
	out := ring.NewPoly(n, lvl+1)
	if !NoPanic("external product is accepted", func() { ks.ExternalProduct(lvl, a, bg, out) }) {
		return
	}
	EqPoly("the polynomial is not changed", a, snap)
	sameSwk("the gadget vector is not changed", bg, snapBg)
	WithinQ("reduced", rQ, lvl, out, 1)
	Assert("coefficient domain", !out.IsNTT)
	ad := mkrlwe.NewSwitchingKey(p)
	ks.Decompose(lvl, a, ad)
	var sum *Elem
	for i := 0; i < nDigits(p, lvl); i++ {
		t := Mul(digitE(p, ad, i, lvl), swLvl(p, bg.Value[i], lvl))
		if sum == nil {
			sum = t
		} else {
			sum = Add(sum, t)
		}
	}
	Near("sum of digits times vector, divided by P", Of(rQ, lvl, out, false, false), p.RingP().Modulus, sum, divB)
	// hoisted
	adSnap := copySwk(ad)
	out2 := ring.NewPoly(n, lvl+1)
	if !NoPanic("hoisted external product is accepted", func() { ks.ExternalProductHoisted(lvl, ad, bg, out2) }) {
		return
	}
	sameSwk("the decomposition is not changed", ad, adSnap)
	sameSwk("the gadget vector is not changed by the hoisted form", bg, snapBg)
	WithinQ("reduced", rQ, lvl, out2, 1)
	Near("hoisted form", Of(rQ, lvl, out2, false, false), p.RingP().Modulus, sum, divB)
}

// C07_Gadget: with a gadget encryption of a secret the external product multiplies by the secret.
func C07_Gadget() {
	c := keyCfg("cfg")
	p := rlweParams(c)
	lvl := opt("level", c.nQ)
	ks := mkrlwe.NewKeySwitcher(p)
	kg := mkrlwe.NewKeyGenerator(p)
	rQ := p.RingQ()
	sk, _ := genSK(kg, opt("secret", 2), "alice")
	swk := mkrlwe.NewSwitchingKey(p)
	kg.GenSwitchingKey(sk, swk)
	a := rQ.NewPoly()
	FillLoose("a", rQ, lvl, a, false)
	out := ring.NewPoly(n, lvl+1)
	if !NoPanic("external product is accepted", func() { ks.ExternalProduct(lvl, a, swk, out) }) {
		return
	}
	P := p.RingP().Modulus
	want := Mul(Of(rQ, lvl, a, false, false), skE(p, sk, lvl))
	Near("polynomial times the secret", Of(rQ, lvl, out, false, false), P, Lift(want, P), ksNoise(p, lvl))
}

// C07_BFV: the double external product.
func C07_BFV() { bfvExternalOver(bfvCfg("cfg")) }

func bfvExternalOver(c cfg) {
	p := bfvParams(c)
	lvl := c.nQ - 1
	mp := p.Parameters
	ks := mkbfv.NewKeySwitcher(p)
	rQ, rR := p.RingQ(), p.RingR()
	b1, b2 := fillSwk("b1", mp), fillSwk("b2", mp)
	s1, s2 := copySwk(b1), copySwk(b2)
	a := rR.NewPoly()
	if opt("used-before", 2) == 1 {
		Fill("other", rR, 2*c.nQ-1, a, false)
		ks.ExternalProductBFV(lvl, a, b2, b1, rQ.NewPoly())
		a = rR.NewPoly()
	}
	FillLoose("a", rR, 2*c.nQ-1, a, false)
	snap := a.CopyNew()
	out := rQ.NewPoly()
	if !NoPanic("external product is accepted", func() { ks.ExternalProductBFV(lvl, a, b1, b2, out) }) {
		return
	}
	EqPoly("the polynomial is not changed", a, snap)
	sameSwk("the gadget vector is not changed", b1, s1)
	sameSwk("the gadget vector is not changed", b2, s2)
	WithinQ("reduced", rQ, lvl, out, 1)
	d1, d2 := mkrlwe.NewSwitchingKey(mp), mkrlwe.NewSwitchingKey(mp)
	ks.DecomposeBFV(lvl, a, d1, d2)
	sum := ZeroE(n, qpMods(mp))
	for i := 0; i < nDigits(mp, lvl); i++ {
		sum = Add(sum, Mul(digitE(mp, d1, i, lvl), swLvl(mp, b1.Value[i], lvl)))
		sum = Add(sum, Mul(digitE(mp, d2, i, lvl), swLvl(mp, b2.Value[i], lvl)))
	}
	P := p.RingP().Modulus
	Near("sum of digits times vector, divided by P", Of(rQ, lvl, out, false, false), P, sum, divB)
	e1, e2 := copySwk(d1), copySwk(d2)
	out2 := rQ.NewPoly()
	if !NoPanic("hoisted external product is accepted", func() { ks.ExternalProductBFVHoisted(lvl, d1, d2, b1, b2, out2) }) {
		return
	}
	sameSwk("the decomposition is not changed", d1, e1)
	sameSwk("the decomposition is not changed", d2, e2)
	WithinQ("reduced", rQ, lvl, out2, 1)
	Near("hoisted form", Of(rQ, lvl, out2, false, false), P, sum, divB)
}

// bfvNoise bounds (log2) the noise of one BFV external product.
func bfvNoise(p mkbfv.Parameters) float64 {
	mp := p.Parameters
	alpha := p.Alpha()
	lp := lgProd(p.RingP().Modulus)
	sum := 0.0
	for _, src := range [][]uint64{p.RingQ().Modulus, p.RingQMul().Modulus} {
		for i := 0; i < nDigits(mp, p.QCount()-1); i++ {
			hi := (i + 1) * alpha
			if hi > len(src) {
				hi = len(src)
			}
			// noise and the rounding of the gadget element, each times a digit
			sum += math.Exp2(lgProd(src[i*alpha:hi])+0.02-lp) * nf() * (sigma6 + nf())
		}
	}
	return lg(sum + 2)
}

// C07_BFVGadget: with the BFV gadget encryption of a secret: t/QMul times polynomial times secret.
func C07_BFVGadget() {
	c := bfvCfg("cfg")
	p := bfvParams(c)
	lvl := c.nQ - 1
	mp := p.Parameters
	ks := mkbfv.NewKeySwitcher(p)
	kg := mkbfv.NewKeyGenerator(p)
	sk, sE := smallSecret("s", p, "alice")
	b1, b2 := mkrlwe.NewSwitchingKey(mp), mkrlwe.NewSwitchingKey(mp)
	kg.GenBFVSwitchingKey(sk, b1, b2)
	rQ, rR := p.RingQ(), p.RingR()
	a := rR.NewPoly()
	FillLoose("a", rR, 2*c.nQ-1, a, false)
	out := rQ.NewPoly()
	if !NoPanic("external product is accepted", func() { ks.ExternalProductBFV(lvl, a, b1, b2, out) }) {
		return
	}
	// QMul*c - t*a*s small over Q and QMul (and P): the secret over QMul is the same small polynomial
	P, M := p.RingP().Modulus, p.RingQMul().Modulus
	k := new(big.Int).Mul(prod(P), new(big.Int).SetUint64(p.T()))
	want := Mul(bfvJoin(p, a, false, k), Restrict(sE, append(qpMods(mp), M...)))
	Near("t/QMul times polynomial times the secret", Of(rQ, lvl, out, false, false), append(append([]uint64{}, P...), M...), want, bfvNoise(p))
}

// smallSecret is an arbitrary secret with coefficients in [-1,1], as a key and as an element over Q, P
// and QMul.
func smallSecret(name string, p mkbfv.Parameters, id string) (*mkrlwe.SecretKey, *Elem) {
	all := append(qpMods(p.Parameters), p.RingQMul().Modulus...)
	r := newRing(all)
	x := r.NewPoly()
	FillSmall(name, r, len(all)-1, x, 1)
	e := Of(r, len(all)-1, x, false, false)
	sk := mkrlwe.NewSecretKey(p.Parameters, id)
	nQ, nP := p.QCount(), p.PCount()
	for i := 0; i < nQ; i++ {
		copy(sk.Value.Q.Coeffs[i], x.Coeffs[i])
	}
	for i := 0; i < nP; i++ {
		copy(sk.Value.P.Coeffs[i], x.Coeffs[nQ+i])
	}
	p.RingQP().NTTLvl(nQ-1, nP-1, sk.Value, sk.Value)
	p.RingQP().MFormLvl(nQ-1, nP-1, sk.Value, sk.Value)
	return sk, e
}
