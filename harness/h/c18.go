package h

import (
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"

	. "vharness/vsym"
)

func bfvRotKeys(kg *mkbfv.KeyGenerator, sks map[string]*mkrlwe.SecretKey, ids []string, rots []int) *mkrlwe.RotationKeySet {
	rtk := mkrlwe.NewRotationKeySet()
	for _, id := range ids {
		for _, r := range rots {
			rtk.AddRotationKey(kg.GenRotationKey(r, sks[id]))
		}
	}
	return rtk
}

// C18_Rotate: the phase of the rotated ciphertext is the automorphism of the phase, for every index.
func C18_Rotate() {
	c := pick("cfg", cfg{1, 2}, cfg{3, 2}, cfg{4, 4})
	p := bfvParams(c)
	rot := opt("rotation+N", 2*n+1) - n
	np := 2
	if Thorough() {
		np = 3
	}
	ids := subset(names(np), opt("ids", 1<<uint(np)-1)+1)
	MapOrder(opt("order", 2))
	kg := mkbfv.NewKeyGenerator(p)
	sks := secrets(kg.KeyGenerator, ids)
	rtk := bfvRotKeys(kg, sks, ids, powers())
	ev := mkbfv.NewEvaluator(p)
	ct := fillBV("ct", p, ids)
	snap := copyCt(ct.Ciphertext)
	var out *mkbfv.Ciphertext
	if !NoPanic("rotation is accepted", func() { out = ev.RotateNew(ct, rot, rtk) }) {
		return
	}
	checkRotated("rotated", p.Parameters, out.Ciphertext, ct.Ciphertext, ids, c.nQ-1, galEl(rot), sks, rotSteps(rot))
	sameCt("the operand is not changed", ct.Ciphertext, snap)
	disjointCts("the result shares no memory with the operand", out.Ciphertext, ct.Ciphertext)
}

// C18_Direct: an index with a reference string and a key of its own needs only that key.
func C18_Direct() {
	c := pick("cfg", cfg{2, 2}, cfg{4, 4})
	p := bfvParams(c)
	k := opt("index", n/2-1) + 1
	shift := []int{0, -n / 2, n / 2, n}[opt("shift", 4)]
	ids := subset(names(2), opt("ids", 3)+1)
	p.AddCRS(k)
	kg := mkbfv.NewKeyGenerator(p)
	sks := secrets(kg.KeyGenerator, ids)
	rtk := bfvRotKeys(kg, sks, ids, []int{k})
	ev := mkbfv.NewEvaluator(p)
	ct := fillBV("ct", p, ids)
	var out *mkbfv.Ciphertext
	if !NoPanic("rotation is accepted", func() { out = ev.RotateNew(ct, k+shift, rtk) }) {
		return
	}
	checkRotated("rotated", p.Parameters, out.Ciphertext, ct.Ciphertext, ids, c.nQ-1, galEl(k), sks, 1)
	rtk.DelRotationKey(ids[0], uint(k))
	Refuses("missing rotation key", func() { ev.RotateNew(ct, k, rtk) })
}

// C18_Conjugate: the image under X -> X^-1.
func C18_Conjugate() {
	c := pick("cfg", cfg{1, 2}, cfg{3, 2}, cfg{4, 4})
	p := bfvParams(c)
	ids := subset(names(3), opt("ids", 7)+1)
	MapOrder(opt("order", 6))
	kg := mkbfv.NewKeyGenerator(p)
	sks := secrets(kg.KeyGenerator, ids)
	cks := mkrlwe.NewConjugationKeySet()
	for _, id := range ids {
		cks.AddConjugationKey(kg.GenConjugationKey(sks[id]))
	}
	ev := mkbfv.NewEvaluator(p)
	ct := fillBV("ct", p, ids)
	snap := copyCt(ct.Ciphertext)
	var out *mkbfv.Ciphertext
	if !NoPanic("conjugation is accepted", func() { out = ev.ConjugateNew(ct, cks) }) {
		return
	}
	checkRotated("conjugated", p.Parameters, out.Ciphertext, ct.Ciphertext, ids, c.nQ-1, uint64(2*n-1), sks, 1)
	sameCt("the operand is not changed", ct.Ciphertext, snap)
	cks.DelConjugationKey(ids[0])
	Refuses("missing conjugation key", func() { ev.ConjugateNew(ct, cks) })
}

// C18_Twice: two rotations compose.
func C18_Twice() {
	p := bfvParams(cfg{3, 2})
	k0, k1 := opt("first", n/2), opt("second", n/2)
	ids := subset(names(2), opt("ids", 3)+1)
	kg := mkbfv.NewKeyGenerator(p)
	sks := secrets(kg.KeyGenerator, ids)
	rtk := bfvRotKeys(kg, sks, ids, powers())
	ev := mkbfv.NewEvaluator(p)
	ct := fillBV("ct", p, ids)
	var out *mkbfv.Ciphertext
	if !NoPanic("rotations are accepted", func() { out = ev.RotateNew(ev.RotateNew(ct, k0, rtk), k1, rtk) }) {
		return
	}
	checkRotated("rotated twice", p.Parameters, out.Ciphertext, ct.Ciphertext, ids, 2, galEl(k0+k1), sks, rotSteps(k0)+rotSteps(k1))
}
