package h

import (
	"math"

	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	. "vharness/vsym"
)

func copyHoisted(h *mkrlwe.HoistedCiphertext, ids []string) map[string]*mkrlwe.SwitchingKey {
	m := map[string]*mkrlwe.SwitchingKey{}
	for _, id := range ids {
		m[id] = copySwk(h.Value[id])
	}
	return m
}

func sameHoisted(name string, h *mkrlwe.HoistedCiphertext, ids []string, snap map[string]*mkrlwe.SwitchingKey) {
	Assert(name, len(h.Value) == len(ids))
	for _, id := range ids {
		if h.Value[id] == nil {
			Assert(name, false)
			return
		}
		sameSwk(name, h.Value[id], snap[id])
	}
}

// C11_Mul: a product with precomputed forms (both, one or none given; one form shared by both
// operands; a second call with the same forms in swapped roles) is the product of the plaintexts.
func C11_Mul() {
	c := pick("cfg", cfg{3, 2}, cfg{4, 4})
	p := ckksParams(c)
	ids0, ids1 := twoSets("ids", names(2))
	l0, l1 := opt("level0", c.nQ), opt("level1", c.nQ)
	given := opt("precomputed", 6) // none, first, second, both, one ciphertext and one form for both, one form for ciphertexts that differ in the body
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, names(2))
	rlk := rlkSetOf(p, kg, sks, names(2))
	a := fillCK("a", p, ids0, l0, p.Scale())
	b := fillCK("b", p, ids1, l1, p.Scale())
	ev := mkckks.NewEvaluator(p)
	if given == 4 {
		b, ids1, l1 = a, ids0, l0
	}
	if given == 5 { // the forms cover the parties' components only
		ids1, l1 = ids0, l0
		b = &mkckks.Ciphertext{Ciphertext: copyCt(a.Ciphertext), Scale: p.Scale() * 2}
		Fill("b.body", p.RingQ(), l0, b.Value["0"], false)
	}
	sa, sb := copyCt(a.Ciphertext), copyCt(b.Ciphertext)
	ha := ev.HoistedForm(a)
	hb := ha
	if given < 4 {
		hb = ev.HoistedForm(b)
	}
	snapA, snapB := copyHoisted(ha, ids0), copyHoisted(hb, ids1)
	g0, g1 := ha, hb
	if given == 0 || given == 2 {
		g0 = nil
	}
	if given == 0 || given == 1 {
		g1 = nil
	}
	var out, out2 *mkckks.Ciphertext
	if !NoPanic("the product is accepted", func() { out = ev.MulRelinHoistedNew(a, b, g0, g1, rlk) }) {
		return
	}
	checkProduct("hoisted product", p, out, a, b, ids0, ids1, l0, l1, sks)
	sameHoisted("the first precomputation is not changed", ha, ids0, snapA)
	sameHoisted("the second precomputation is not changed", hb, ids1, snapB)
	sameCt("the operands are not changed", a.Ciphertext, sa)
	sameCt("the operands are not changed", b.Ciphertext, sb)
	// the same forms again, roles swapped
	if !NoPanic("the second product is accepted", func() { out2 = ev.MulRelinHoistedNew(b, a, g1, g0, rlk) }) {
		return
	}
	checkProduct("second hoisted product", p, out2, b, a, ids1, ids0, l1, l0, sks)
	sameHoisted("the first precomputation is not changed by a second use", ha, ids0, snapA)
	sameHoisted("the second precomputation is not changed by a second use", hb, ids1, snapB)
}

// C11_Rotate: several rotations and a product from one precomputation.
func C11_Rotate() {
	c := pick("cfg", cfg{3, 2}, cfg{4, 4})
	p := ckksParams(c)
	lvl := opt("level", c.nQ)
	ids := subset(names(2), opt("ids", 3)+1)
	MapOrder(opt("order", 2))
	rots := [][]int{{1, 2}, {4, 1}, {-n / 4, 0}, {2, 2}, {n / 2, n/2 + 1}, {1 - n/2, n / 4}, {-n, n}}[opt("rotations", 7)]
	between := opt("product-between", 2) == 1
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, ids)
	rtk := rotKeys(p, kg, sks, ids, powers())
	ev := mkckks.NewEvaluator(p)
	ct := fillCK("ct", p, ids, lvl, p.Scale())
	snap := copyCt(ct.Ciphertext)
	hf := ev.HoistedForm(ct)
	hs := copyHoisted(hf, ids)
	for k, rot := range rots {
		var out *mkckks.Ciphertext
		if !NoPanic("hoisted rotation is accepted", func() { out = ev.RotateHoistedNew(ct, rot, hf, rtk) }) {
			return
		}
		checkRotated(str("hoisted rotation %d", k), p.Parameters, out.Ciphertext, ct.Ciphertext, ids, lvl, galEl(rot), sks, 1)
		Assert("the recorded scale is not changed", out.Scale == ct.Scale)
		sameHoisted("the precomputation is not changed", hf, ids, hs)
		sameCt("the operand is not changed", ct.Ciphertext, snap)
		if between && k == 0 {
			rlk := rlkSetOf(p, kg, sks, ids)
			var pr *mkckks.Ciphertext
			if !NoPanic("the product is accepted", func() { pr = ev.MulRelinHoistedNew(ct, out, hf, nil, rlk) }) {
				return
			}
			checkProduct("product with the rotated ciphertext", p, pr, ct, out, ids, ids, lvl, lvl, sks)
			sameHoisted("the precomputation is not changed by the product", hf, ids, hs)
		}
	}
}

func rotKeys(p mkckks.Parameters, kg *mkrlwe.KeyGenerator, sks map[string]*mkrlwe.SecretKey, ids []string, rots []int) *mkrlwe.RotationKeySet {
	rtk := mkrlwe.NewRotationKeySet()
	for _, id := range ids {
		for _, r := range rots {
			rtk.AddRotationKey(kg.GenRotationKey(r, sks[id]))
		}
	}
	return rtk
}

// switchNoise bounds (log2) the phase noise of switching the components of k parties once.
func switchNoise(p mkrlwe.Parameters, lvl, k int) float64 {
	alpha := p.Alpha()
	sw := 0.0
	for i := 0; i < nDigits(p, lvl); i++ {
		hi := (i + 1) * alpha
		if hi > p.QCount() {
			hi = p.QCount()
		}
		sw += math.Exp2(lgProd(p.RingQ().Modulus[i*alpha:hi])+0.1-lgProd(p.RingP().Modulus)) * nf() * sigma6
	}
	return lg(math.Max(float64(k), 1) * (sw + 1.02*(1+nf())))
}

// checkRotated: the phase of out is the automorphism of the phase of in, after `steps` key switches.
func checkRotated(name string, p mkrlwe.Parameters, out, in *mkrlwe.Ciphertext, ids []string, lvl int, gal uint64, sks map[string]*mkrlwe.SecretKey, steps int) {
	if !checkShape(name, p, out, ids, lvl) {
		return
	}
	want := Aut(phase(p, in, sks, ids, lvl), gal)
	if gal == 1 && steps <= 1 {
		Equal(name+": the same plaintext", phase(p, out, sks, ids, lvl), want)
		return
	}
	P := p.RingP().Modulus
	Near(name+": the permuted plaintext", phase(p, out, sks, ids, lvl), P, Lift(want, P), switchNoise(p, lvl, len(ids))+lg(float64(steps))+0.01)
}
