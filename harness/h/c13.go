package h

import (
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	. "vharness/vsym"
)

// C13_Conjugate: the phase of the conjugated ciphertext is the image of the phase under X -> X^-1.
func C13_Conjugate() {
	c := pick("cfg", cfg{1, 2}, cfg{3, 2}, cfg{4, 4}, cfg{5, 4})
	p := ckksParams(c)
	lvl := opt("level", c.nQ)
	ids := subset(names(3), opt("ids", 7)+1)
	MapOrder(opt("order", 6))
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, ids)
	cks := mkrlwe.NewConjugationKeySet()
	for _, id := range ids {
		cks.AddConjugationKey(kg.GenConjugationKey(sks[id]))
	}
	ev := mkckks.NewEvaluator(p)
	ct := fillCK("ct", p, ids, lvl, 3*p.Scale())
	snap := copyCt(ct.Ciphertext)
	var out *mkckks.Ciphertext
	if !NoPanic("conjugation is accepted", func() { out = ev.ConjugateNew(ct, cks) }) {
		return
	}
	checkRotated("conjugated", p.Parameters, out.Ciphertext, ct.Ciphertext, ids, lvl, uint64(2*n-1), sks, 1)
	Assert("the recorded scale is the operand's", out.Scale == 3*p.Scale() && ct.Scale == 3*p.Scale())
	sameCt("the operand is not changed", ct.Ciphertext, snap)
	cks.DelConjugationKey(ids[0])
	Refuses("missing conjugation key", func() { ev.ConjugateNew(ct, cks) })
}
