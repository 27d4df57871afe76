package h

import (
	"math"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ckks"

	. "vharness/vsym"
)

// Ciphertexts that involve no party: a body alone, as a public value is brought among ciphertexts.

// nobody: which operands involve no party.
func nobody() ([]string, []string) {
	none := []string{}
	switch opt("without parties", 3) {
	case 0:
		return none, names(2)
	case 1:
		return names(2), none
	}
	return none, none
}

func C09_Nobody() {
	p := ckksParams(pick("cfg", cfg{3, 2}))
	ids0, ids1 := nobody()
	l0, l1 := opt("level0", 3), opt("level1", 3)
	sub := opt("sub", 2) == 1
	s0, s1, r0, r1 := p.Scale(), p.Scale(), int64(1), int64(1)
	switch opt("scales", 3) {
	case 1:
		s0, r1 = 4*s0, 4
	case 2:
		s1, r0 = 8*s1, 8
	}
	sks := secrets(mkrlwe.NewKeyGenerator(p.Parameters), names(2))
	a, b := fillCK("a", p, ids0, l0, s0), fillCK("b", p, ids1, l1, s1)
	ev := mkckks.NewEvaluator(p)
	var out *mkckks.Ciphertext
	if !NoPanic("the operation is accepted", func() {
		if sub {
			out = ev.SubNew(a, b)
		} else {
			out = ev.AddNew(a, b)
		}
	}) {
		return
	}
	checkAddSub("sum", p, out, a.Ciphertext, b.Ciphertext, ids0, ids1, min(l0, l1), r0, r1, sub, sks)
	Assert("the recorded scale is the larger one", out.Scale == math.Max(s0, s1))
}

func C10_Nobody() {
	p := ckksParams(pick("cfg", cfg{3, 2}, cfg{4, 4}))
	ids0, ids1 := nobody()
	l0, l1 := opt("level0", 3), opt("level1", 3)
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, names(2))
	rlk := rlkSetOf(p, kg, sks, names(2))
	a, b := fillCK("a", p, ids0, l0, p.Scale()), fillCK("b", p, ids1, l1, p.Scale())
	ev := mkckks.NewEvaluator(p)
	if len(ids0) == len(ids1) && opt("square", 2) == 1 {
		b, l1 = a, l0
	}
	var out *mkckks.Ciphertext
	if !NoPanic("the product is accepted", func() { out = ev.MulRelinNew(a, b, rlk) }) {
		return
	}
	checkProduct("product", p, out, a, b, ids0, ids1, l0, l1, sks)
}

func C11_Nobody() {
	p := ckksParams(pick("cfg", cfg{3, 2}, cfg{4, 4}))
	ids0, ids1 := nobody()
	lvl := opt("level", 3)
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, names(2))
	rlk := rlkSetOf(p, kg, sks, names(2))
	rtk := rotKeys(p, kg, sks, names(2), []int{2})
	a, b := fillCK("a", p, ids0, lvl, p.Scale()), fillCK("b", p, ids1, lvl, p.Scale())
	ev := mkckks.NewEvaluator(p)
	var out, rot *mkckks.Ciphertext
	if !NoPanic("the operations are accepted", func() {
		ha, hb := ev.HoistedForm(a), ev.HoistedForm(b)
		out = ev.MulRelinHoistedNew(a, b, ha, hb, rlk)
		rot = ev.RotateHoistedNew(a, 2, ha, rtk)
	}) {
		return
	}
	checkProduct("hoisted product", p, out, a, b, ids0, ids1, lvl, lvl, sks)
	checkRotated("hoisted rotation", p.Parameters, rot.Ciphertext, a.Ciphertext, ids0, lvl, galEl(2), sks, 1)
}

func C12_Nobody() {
	p := ckksParams(pick("cfg", cfg{3, 2}))
	lvl := opt("level", 3)
	rot := []int{1, 3, 0, -1, 8}[opt("rotation", 5)]
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, names(1))
	rtk := rotKeys(p, kg, sks, names(1)[:opt("keys", 2)], powers())
	ct := fillCK("ct", p, nil, lvl, p.Scale())
	var out *mkckks.Ciphertext
	if !NoPanic("rotation is accepted", func() { out = mkckks.NewEvaluator(p).RotateNew(ct, rot, rtk) }) {
		return
	}
	checkRotated("rotated", p.Parameters, out.Ciphertext, ct.Ciphertext, nil, lvl, galEl(rot), sks, rotSteps(rot))
}

func C13_Nobody() {
	p := ckksParams(pick("cfg", cfg{3, 2}))
	lvl := opt("level", 3)
	ct := fillCK("ct", p, nil, lvl, p.Scale())
	var out *mkckks.Ciphertext
	if !NoPanic("conjugation is accepted", func() {
		out = mkckks.NewEvaluator(p).ConjugateNew(ct, mkrlwe.NewConjugationKeySet())
	}) {
		return
	}
	checkRotated("conjugated", p.Parameters, out.Ciphertext, ct.Ciphertext, nil, lvl, uint64(2*n-1), nil, 1)
}

func C14_Nobody() {
	p := ckksParams(pick("cfg", cfg{3, 2}))
	lvl := opt("level", 3)
	ct := fillCK("ct", p, nil, lvl, p.Scale())
	pt := ckks.NewPlaintext(plainParams(p), p.QCount()-1, p.Scale())
	ntt := opt("plaintext-ntt", 2) == 1
	Fill("pt", p.RingQ(), p.QCount()-1, pt.Value, ntt)
	want := Mul(phase(p.Parameters, ct.Ciphertext, nil, nil, lvl), Of(p.RingQ(), lvl, pt.Value, ntt, false))
	ev := mkckks.NewEvaluator(p)
	var out *mkckks.Ciphertext
	if !NoPanic("the product is accepted", func() { out = ev.MulPtxtNew(ct, pt) }) {
		return
	}
	lo, ws := rescaleTo(p, lvl, ct.Scale*pt.Scale, p.Scale())
	if !checkShape("product", p.Parameters, out.Ciphertext, nil, lo) {
		return
	}
	Assert("the recorded scale", math.Abs(out.Scale/ws-1) < 1e-12)
	got := phase(p.Parameters, out.Ciphertext, nil, nil, lo)
	if lo == lvl {
		Equal("the plaintext is multiplied", got, want)
	} else {
		Near("the plaintext is multiplied and divided by the dropped primes", got, p.RingQ().Modulus[lo+1:lvl+1], want, lg(rescNoise(0, lvl-lo))+0.01)
	}
}

func C16_Nobody() {
	p := bfvParams(pick("cfg", cfg{2, 2}))
	ids0, ids1 := nobody()
	sub := opt("sub", 2) == 1
	sks := secrets(mkrlwe.NewKeyGenerator(p.Parameters), names(2))
	a, b := fillBV("a", p, ids0), fillBV("b", p, ids1)
	ev := mkbfv.NewEvaluator(p)
	var out *mkbfv.Ciphertext
	if !NoPanic("the operation is accepted", func() {
		if sub {
			out = ev.SubNew(a, b)
		} else {
			out = ev.AddNew(a, b)
		}
	}) {
		return
	}
	checkBFVAddSub("sum", p, out, a.Ciphertext, b.Ciphertext, ids0, ids1, sub, sks)
}

func C17_Nobody() {
	p := bfvParams(pick("cfg", cfg{2, 2}, cfg{4, 4}))
	ids0, ids1 := nobody()
	kg := mkbfv.NewKeyGenerator(p)
	sks, secs := smallSecrets(p, names(2))
	rlk := bfvRlkSet(p, kg, sks, names(2))
	a, b := fillBV("a", p, ids0), fillBV("b", p, ids1)
	var out *mkbfv.Ciphertext
	if !NoPanic("the product is accepted", func() { out = mkbfv.NewEvaluator(p).MulRelinNew(a, b, rlk) }) {
		return
	}
	x, z := bfvOperands(p, a.Ciphertext, b.Ciphertext)
	checkBFVProduct("product", p, out.Ciphertext, x, z, ids0, ids1, sks, secs)
}

func C18_Nobody() {
	p := bfvParams(pick("cfg", cfg{2, 2}))
	rot := []int{1, 3, 0, -1, 8}[opt("rotation", 5)]
	kg := mkbfv.NewKeyGenerator(p)
	sks := secrets(kg.KeyGenerator, names(1))
	rtk := bfvRotKeys(kg, sks, names(1), powers())
	ct := fillBV("ct", p, nil)
	var out, conj *mkbfv.Ciphertext
	if !NoPanic("rotation is accepted", func() {
		out = mkbfv.NewEvaluator(p).RotateNew(ct, rot, rtk)
		conj = mkbfv.NewEvaluator(p).ConjugateNew(ct, mkrlwe.NewConjugationKeySet())
	}) {
		return
	}
	checkRotated("rotated", p.Parameters, out.Ciphertext, ct.Ciphertext, nil, p.QCount()-1, galEl(rot), sks, rotSteps(rot))
	checkRotated("conjugated", p.Parameters, conj.Ciphertext, ct.Ciphertext, nil, p.QCount()-1, uint64(2*n-1), nil, 1)
}

func atLeast1(k int) int {
	if k < 1 {
		return 1
	}
	return k
}
