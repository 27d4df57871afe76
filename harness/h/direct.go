package h

import (
	"mk-lattigo/mkrlwe"

	. "vharness/vsym"
)

// The key switcher used directly: the result goes to a ciphertext of the caller's, which may be of a lower
// level than the operand and holds anything beforehand.

// fullCt: a result ciphertext with previous contents.
func fullCt(p mkrlwe.Parameters, ids []string, lvl int) *mkrlwe.Ciphertext {
	return fillCt("previous", p, ids, lvl)
}

func keyZero(k int) int {
	if k == 0 {
		return 1
	}
	return 0
}

// hoistedOf decomposes the parts of the parties at a level.
func hoistedOf(ks *mkrlwe.KeySwitcher, p mkrlwe.Parameters, ct *mkrlwe.Ciphertext, lvl int) *mkrlwe.HoistedCiphertext {
	h := mkrlwe.NewHoistedCiphertext()
	for _, id := range sortedIDs(ct) {
		if id != "0" {
			h.Value[id] = mkrlwe.NewSwitchingKey(p)
			ks.Decompose(lvl, ct.Value[id], h.Value[id])
		}
	}
	return h
}

// C12_Switcher: Rotate and RotateHoisted, the index as the caller gives it (negative ones included).
func C12_Switcher() {
	c := pick("cfg", cfg{3, 2}, cfg{4, 4})
	p := ckksParams(c)
	lvl := opt("level", c.nQ)
	out := opt("result-level", lvl+1)
	hoisted := opt("form", 2)
	k := []int{1, 2, 4, 0}[opt("key", 4)] // index 0 by a key of its own is a key switch as any other
	rot := k - n/2*opt("wraps", 3)
	ids := subset(names(2), opt("ids", 3)+1)
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, ids)
	rtk := rotKeys(p, kg, sks, ids, []int{k})
	ks := mkrlwe.NewKeySwitcher(p.Parameters)
	ct := fillCt("ct", p.Parameters, ids, lvl)
	snap := copyCt(ct)
	res := fullCt(p.Parameters, ids, out)
	if !NoPanic("rotation is accepted", func() {
		if hoisted == 0 {
			ks.Rotate(ct, rot, rtk, res)
		} else {
			ks.RotateHoisted(ct, rot, hoistedOf(ks, p.Parameters, ct, out), rtk, res)
		}
	}) {
		return
	}
	checkRotated("rotated", p.Parameters, res, ct, ids, out, galEl(k), sks, 1+keyZero(k))
	sameCt("the operand is not changed", ct, snap)
	if out < p.MaxLevel() && lvl < p.MaxLevel() {
		Refuses("result of a higher level", func() {
			ks.Rotate(ct, rot, rtk, fullCt(p.Parameters, ids, lvl+1))
		})
	}
}

// C13_Switcher: Conjugate.
func C13_Switcher() {
	c := pick("cfg", cfg{3, 2}, cfg{4, 4})
	p := ckksParams(c)
	lvl := opt("level", c.nQ)
	out := opt("result-level", lvl+1)
	ids := subset(names(2), opt("ids", 3)+1)
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, ids)
	cks := mkrlwe.NewConjugationKeySet()
	for _, id := range ids {
		cks.AddConjugationKey(kg.GenConjugationKey(sks[id]))
	}
	ks := mkrlwe.NewKeySwitcher(p.Parameters)
	ct := fillCt("ct", p.Parameters, ids, lvl)
	snap := copyCt(ct)
	res := fullCt(p.Parameters, ids, out)
	if !NoPanic("conjugation is accepted", func() { ks.Conjugate(ct, cks, res) }) {
		return
	}
	checkRotated("conjugated", p.Parameters, res, ct, ids, out, uint64(2*n-1), sks, 1)
	sameCt("the operand is not changed", ct, snap)
}

// C10_Switcher: the products.
func C10_Switcher() {
	c := pick("cfg", cfg{3, 2}, cfg{4, 4})
	p := ckksParams(c)
	ids0, ids1 := twoSets("ids", names(2))
	lvl := opt("level", c.nQ)
	out := opt("result-level", lvl+1)
	form := opt("form", 3)
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, names(2))
	rlk := rlkSetOf(p, kg, sks, names(2))
	a := fillCt("a", p.Parameters, ids0, lvl)
	b := fillCt("b", p.Parameters, ids1, lvl)
	ks := mkrlwe.NewKeySwitcher(p.Parameters)
	ids := union(ids0, ids1)
	res := fullCt(p.Parameters, ids, out)
	if !NoPanic("the product is accepted", func() {
		switch form {
		case 0:
			ks.MulAndRelin(a, b, rlk, res)
		case 1:
			ks.MulAndRelinHoisted(a, b, nil, nil, rlk, res)
		case 2:
			ha, hb := hoistedOf(ks, p.Parameters, a, out), hoistedOf(ks, p.Parameters, b, out)
			ks.MulAndRelinHoisted(a, b, ha, hb, rlk, res)
		}
	}) {
		return
	}
	if !checkShape("product", p.Parameters, res, ids, out) {
		return
	}
	want := Mul(phase(p.Parameters, a, sks, ids0, out), phase(p.Parameters, b, sks, ids1, out))
	checkScaled("product of the plaintexts", p.Parameters, res, ids, out, out, want, sks, mulNoise(p.Parameters, out, len(ids0), len(ids1)))
}
