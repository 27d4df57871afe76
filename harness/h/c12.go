package h

import (
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	. "vharness/vsym"
)

// galois element of a left rotation by k slots
func galEl(k int) uint64 {
	k = ((k % (n / 2)) + n/2) % (n / 2)
	g := uint64(1)
	for i := 0; i < k; i++ {
		g = g * 5 % uint64(2*n)
	}
	return g
}

// number of key switches of a rotation composed from powers of two
func rotSteps(k int) int {
	k = ((k % (n / 2)) + n/2) % (n / 2)
	s := 0
	for ; k > 0; k /= 2 {
		s += k % 2
	}
	return s
}

// C12_Rotate: the phase of the rotated ciphertext is the rotation of the phase, for every index.
func C12_Rotate() {
	c := pick("cfg", cfg{1, 2}, cfg{3, 2}, cfg{4, 4})
	p := ckksParams(c)
	lvl := opt("level", c.nQ)
	rot := opt("rotation+N", 2*n+1) - n
	np := 2
	if Thorough() {
		np = 3
	}
	ids := subset(names(np), opt("ids", 1<<uint(np)-1)+1)
	MapOrder(opt("order", 2))
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, ids)
	rtk := rotKeys(p, kg, sks, ids, powers())
	ev := mkckks.NewEvaluator(p)
	ct := fillCK("ct", p, ids, lvl, 3*p.Scale())
	snap := copyCt(ct.Ciphertext)
	var out *mkckks.Ciphertext
	if !NoPanic("rotation is accepted", func() { out = ev.RotateNew(ct, rot, rtk) }) {
		return
	}
	steps := rotSteps(rot)
	checkRotated("rotated", p.Parameters, out.Ciphertext, ct.Ciphertext, ids, lvl, galEl(rot), sks, steps)
	Assert("the recorded scale is the operand's", out.Scale == 3*p.Scale() && ct.Scale == 3*p.Scale())
	sameCt("the operand is not changed", ct.Ciphertext, snap)
}

// C12_Direct: an index with a reference string and a key of its own needs only that key; the same key
// serves every index congruent to it.
func C12_Direct() {
	c := pick("cfg", cfg{3, 2}, cfg{4, 4})
	p := ckksParams(c)
	lvl := opt("level", c.nQ)
	k := opt("index", n/2-1) + 1
	shift := []int{0, -n / 2, n / 2, n}[opt("shift", 4)]
	ids := subset(names(2), opt("ids", 3)+1)
	p.AddCRS(k)
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, ids)
	rtk := rotKeys(p, kg, sks, ids, []int{k})
	ev := mkckks.NewEvaluator(p)
	ct := fillCK("ct", p, ids, lvl, p.Scale())
	var out *mkckks.Ciphertext
	if !NoPanic("rotation is accepted", func() { out = ev.RotateNew(ct, k+shift, rtk) }) {
		return
	}
	checkRotated("rotated", p.Parameters, out.Ciphertext, ct.Ciphertext, ids, lvl, galEl(k), sks, 1)
	hf := ev.HoistedForm(ct)
	if !NoPanic("hoisted rotation is accepted", func() { out = ev.RotateHoistedNew(ct, k+shift, hf, rtk) }) {
		return
	}
	checkRotated("hoisted rotation", p.Parameters, out.Ciphertext, ct.Ciphertext, ids, lvl, galEl(k), sks, 1)
	// a party without the key is refused
	rtk.DelRotationKey(ids[0], uint(k))
	Refuses("missing rotation key", func() { ev.RotateNew(ct, k, rtk) })
}
