package h

import (
	"math"

	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	. "vharness/vsym"
)

// mulNoise bounds (log2) the noise of one relinearised product of operands of n0 and n1 parties: for
// every pair of parties the double digit sums times one Gaussian and one secret, divided by P, the
// rounding of the divisions (times a secret), and one key switch per party of the first operand.
func mulNoise(p mkrlwe.Parameters, lvl, n0, n1 int) float64 {
	alpha := p.Alpha()
	lp := lgProd(p.RingP().Modulus)
	dd, sw := 0.0, 0.0
	for i := 0; i < nDigits(p, lvl); i++ {
		hi := (i + 1) * alpha
		if hi > p.QCount() {
			hi = p.QCount()
		}
		ld := lgProd(p.RingQ().Modulus[i*alpha:hi]) + 0.1
		// digit * digit * noise * secret
		dd += math.Exp2(2*ld-lp) * nf() * nf() * nf() * sigma6
		sw += math.Exp2(ld-lp) * nf() * sigma6
	}
	a, b := float64(n0), float64(n1)
	const r = 1.02 // rounding of one division
	return lg(2*a*b*dd + b*nf()*r + a*nf()*r + a*(sw+r+nf()*r))
}

// rescNoise bounds the phase error of dividing every component with rounding, k parties, nb primes.
func rescNoise(k, nb int) float64 { return float64(nb) * 0.51 * float64(1+k*n) }

func rlkSetOf(p mkckks.Parameters, kg *mkrlwe.KeyGenerator, sks map[string]*mkrlwe.SecretKey, ids []string) *mkrlwe.RelinearizationKeySet {
	set := mkrlwe.NewRelinearizationKeyKeySet(p.Parameters)
	for _, id := range ids {
		set.AddRelinearizationKey(kg.GenRelinearizationKey(sks[id], kg.GenSecretKey(id)))
	}
	return set
}

// checkScaled asserts that the phase of out, at level lo, is want (over the primes of level hi) divided
// by the dropped primes, up to noise (before the division) plus the rounding.
func checkScaled(name string, p mkrlwe.Parameters, out *mkrlwe.Ciphertext, ids []string, lo, hi int, want *Elem, sks map[string]*mkrlwe.SecretKey, logNoise float64) {
	Q, P := p.RingQ().Modulus, p.RingP().Modulus
	R := append(append([]uint64{}, Q[lo+1:hi+1]...), P...)
	b := math.Exp2(logNoise - lgProd(Q[lo+1:hi+1]))
	if hi > lo {
		b += rescNoise(len(ids), hi-lo)
	}
	Near(name, phase(p, out, sks, ids, lo), R, Lift(want, P), lg(b)+0.01)
}

// C10_Mul: the phase of the product is the product of the phases, divided by the dropped primes.
func C10_Mul() {
	c := pick("cfg", cfg{1, 2}, cfg{3, 2}, cfg{4, 4})
	p := ckksParams(c)
	np := 2
	if Thorough() {
		np = 3
	}
	ids0, ids1 := twoSets("ids", names(np))
	l0, l1 := opt("level0", c.nQ), opt("level1", c.nQ)
	MapOrder(opt("order", 2))
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, names(np))
	rlk := rlkSetOf(p, kg, sks, names(np))
	a := fillCK("a", p, ids0, l0, p.Scale())
	b := fillCK("b", p, ids1, l1, p.Scale())
	ev := mkckks.NewEvaluator(p)
	var out *mkckks.Ciphertext
	if !NoPanic("the product is accepted", func() { out = ev.MulRelinNew(a, b, rlk) }) {
		return
	}
	checkProduct("product", p, out, a, b, ids0, ids1, l0, l1, sks)
}

func checkProduct(name string, p mkckks.Parameters, out, a, b *mkckks.Ciphertext, ids0, ids1 []string, l0, l1 int, sks map[string]*mkrlwe.SecretKey) {
	hi := min(l0, l1)
	lo, sc := rescaleTo(p, hi, a.Scale*b.Scale, p.Scale())
	ids := union(ids0, ids1)
	if !checkShape(name, p.Parameters, out.Ciphertext, ids, lo) {
		return
	}
	Assert(name+": recorded scale", math.Abs(out.Scale/sc-1) < 1e-12)
	want := Mul(phase(p.Parameters, a.Ciphertext, sks, ids0, hi), phase(p.Parameters, b.Ciphertext, sks, ids1, hi))
	checkScaled(name+": product of the plaintexts", p.Parameters, out.Ciphertext, ids, lo, hi, want, sks, mulNoise(p.Parameters, hi, atLeast1(len(ids0)), atLeast1(len(ids1))))
}

// rescaleTo is the level and scale a rescaling must end at: primes are dropped while the scale stays
// at least half the requested one, never below level zero.
func rescaleTo(p mkckks.Parameters, lvl int, scale, min float64) (int, float64) {
	for lvl > 0 && scale/float64(p.RingQ().Modulus[lvl]) >= min/2 {
		scale /= float64(p.RingQ().Modulus[lvl])
		lvl--
	}
	return lvl, scale
}

// C10_Square: an operand multiplied with itself.
func C10_Square() {
	c := pick("cfg", cfg{3, 2}, cfg{4, 4})
	p := ckksParams(c)
	np := 2
	ids := subset(names(np), opt("ids", 3)+1)
	lvl := opt("level", c.nQ)
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, names(np))
	rlk := rlkSetOf(p, kg, sks, names(np))
	a := fillCK("a", p, ids, lvl, p.Scale())
	ev := mkckks.NewEvaluator(p)
	var out *mkckks.Ciphertext
	if !NoPanic("the product is accepted", func() { out = ev.MulRelinNew(a, a, rlk) }) {
		return
	}
	checkProduct("square", p, out, a, a, ids, ids, lvl, lvl, sks)
}

// C10_MulAndRelin: the unscaled product of the key switcher, both forms.
func C10_MulAndRelin() {
	c := pick("cfg", cfg{1, 2}, cfg{3, 2}, cfg{4, 4})
	p := ckksParams(c)
	np := 2
	if Thorough() {
		np = 3
	}
	ids0, ids1 := twoSets("ids", names(np))
	lvl := opt("level", c.nQ)
	form := opt("form", 2)
	MapOrder(opt("order", 2))
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, names(np))
	rlk := rlkSetOf(p, kg, sks, names(np))
	a := fillCt("a", p.Parameters, ids0, lvl)
	b := fillCt("b", p.Parameters, ids1, lvl)
	ks := mkrlwe.NewKeySwitcher(p.Parameters)
	ids := union(ids0, ids1)
	out := mkrlwe.NewCiphertext(p.Parameters, idset(ids), lvl)
	if !NoPanic("the product is accepted", func() {
		if form == 0 {
			ks.MulAndRelin(a, b, rlk, out)
		} else {
			ks.MulAndRelinHoisted(a, b, nil, nil, rlk, out)
		}
	}) {
		return
	}
	if !checkShape("product", p.Parameters, out, ids, lvl) {
		return
	}
	want := Mul(phase(p.Parameters, a, sks, ids0, lvl), phase(p.Parameters, b, sks, ids1, lvl))
	checkScaled("product of the plaintexts", p.Parameters, out, ids, lvl, lvl, want, sks, mulNoise(p.Parameters, lvl, len(ids0), len(ids1)))
}
