package h

import (
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/rlwe"

	. "vharness/vsym"
)

// The harnesses of this file go through the operations with crowds: sums over the parties exceed 64 bits
// unless they are reduced (sixteen terms modulo primes of 60 bits, thirty-two modulo 59 bits; of random ones twice as many).

const crowd = 72

// C02_Crowd: decryption of a ciphertext of a crowd.
func C02_Crowd() {
	p := rlweParams(pick("cfg", cfg{2, 2}))
	ids := names(crowd)
	lvl := opt("level", 2)
	ntt := opt("ntt", 2) == 1
	MapOrder(opt("order", 2))
	sks := secrets(mkrlwe.NewKeyGenerator(p), ids)
	ct := mkrlwe.NewCiphertext(p, idset(ids), lvl)
	Fill("ct.0", p.RingQ(), lvl, ct.Value["0"], ntt)
	for _, id := range ids {
		Fill("ct."+id, p.RingQ(), lvl, ct.Value[id], ntt)
	}
	out := rlwe.NewPlaintext(p.Parameters, lvl)
	out.Value.IsNTT = ntt
	want := Of(p.RingQ(), lvl, ct.Value["0"], ntt, false)
	for _, id := range ids {
		want = Add(want, Mul(Of(p.RingQ(), lvl, ct.Value[id], ntt, false), skE(p, sks[id], lvl)))
	}
	if !NoPanic("decryption is accepted", func() { mkrlwe.NewDecryptor(p).Decrypt(ct, skSet(sks, ids), out) }) {
		return
	}
	Equal("body plus components times secrets", Of(p.RingQ(), lvl, out.Value, out.Value.IsNTT, false), want)
	WithinQ("reduced", p.RingQ(), lvl, out.Value, 1)
}

// C09_Crowd: sums of ciphertexts of crowds.
func C09_Crowd() {
	p := ckksParams(pick("cfg", cfg{2, 2}))
	k := crowd
	ids0, ids1 := names(k), names(k)[k/2:]
	if opt("which", 2) == 1 {
		ids0, ids1 = names(k)[:k/2+3], names(k)[k/2-2:]
	}
	sub := opt("sub", 2) == 1
	MapOrder(opt("order", 2))
	sks := secrets(mkrlwe.NewKeyGenerator(p.Parameters), names(k))
	a, b := fillCK("a", p, ids0, 1, p.Scale()), fillCK("b", p, ids1, 1, p.Scale())
	ev := mkckks.NewEvaluator(p)
	var out *mkckks.Ciphertext
	if !NoPanic("the operation is accepted", func() {
		if sub {
			out = ev.SubNew(a, b)
		} else {
			out = ev.AddNew(a, b)
		}
	}) {
		return
	}
	checkAddSub("sum", p, out, a.Ciphertext, b.Ciphertext, ids0, ids1, 1, 1, 1, sub, sks)
}

// crowdOps: the operands of a product of crowds: k parties and one, one and k, both overlapping crowds.
func crowdOps(k, both int) (ids0, ids1 []string) {
	switch opt("which", 3) {
	case 0:
		return names(k), []string{"bob"}
	case 1:
		return []string{"bob"}, names(k)
	}
	return names(both)[:both-2], names(both)[both-6:]
}

// C10_Crowd: products of ciphertexts of crowds.
func C10_Crowd() {
	p := ckksParams(pick("cfg", cfg{2, 2}))
	k := crowd
	ids0, ids1 := crowdOps(k, k)
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, names(k))
	rlk := rlkSetOf(p, kg, sks, names(k))
	a, b := fillCK("a", p, ids0, 1, p.Scale()), fillCK("b", p, ids1, 1, p.Scale())
	ev := mkckks.NewEvaluator(p)
	var out *mkckks.Ciphertext
	if !NoPanic("the product is accepted", func() { out = ev.MulRelinNew(a, b, rlk) }) {
		return
	}
	checkProduct("product", p, out, a, b, ids0, ids1, 1, 1, sks)
}

// C11_Crowd: the same with precomputed forms.
func C11_Crowd() {
	p := ckksParams(pick("cfg", cfg{2, 2}))
	k := crowd
	ids0, ids1 := crowdOps(k, k)
	given := opt("precomputed", 2)
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, names(k))
	rlk := rlkSetOf(p, kg, sks, names(k))
	rtk := rotKeys(p, kg, sks, names(k), []int{2})
	a, b := fillCK("a", p, ids0, 1, p.Scale()), fillCK("b", p, ids1, 1, p.Scale())
	ev := mkckks.NewEvaluator(p)
	ha, hb := ev.HoistedForm(a), ev.HoistedForm(b)
	var out, rot *mkckks.Ciphertext
	if !NoPanic("the operations are accepted", func() {
		if given == 1 {
			out = ev.MulRelinHoistedNew(a, b, ha, hb, rlk)
		} else {
			out = ev.MulRelinHoistedNew(a, b, nil, nil, rlk)
		}
		rot = ev.RotateHoistedNew(a, 2, ha, rtk)
	}) {
		return
	}
	checkProduct("hoisted product", p, out, a, b, ids0, ids1, 1, 1, sks)
	checkRotated("hoisted rotation", p.Parameters, rot.Ciphertext, a.Ciphertext, ids0, 1, galEl(2), sks, 1)
}

// C12_Crowd: rotations of the ciphertext of a crowd.
func C12_Crowd() {
	p := ckksParams(pick("cfg", cfg{2, 2}))
	ids := names(crowd)
	rot := []int{1, 3}[opt("rotation", 2)]
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, ids)
	rtk := rotKeys(p, kg, sks, ids, powers())
	ct := fillCK("ct", p, ids, 1, p.Scale())
	var out *mkckks.Ciphertext
	if !NoPanic("rotation is accepted", func() { out = mkckks.NewEvaluator(p).RotateNew(ct, rot, rtk) }) {
		return
	}
	checkRotated("rotated", p.Parameters, out.Ciphertext, ct.Ciphertext, ids, 1, galEl(rot), sks, rotSteps(rot))
}

// C13_Crowd: conjugation of the ciphertext of a crowd.
func C13_Crowd() {
	p := ckksParams(pick("cfg", cfg{2, 2}))
	ids := names(crowd)
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, ids)
	cks := mkrlwe.NewConjugationKeySet()
	for _, id := range ids {
		cks.AddConjugationKey(kg.GenConjugationKey(sks[id]))
	}
	ct := fillCK("ct", p, ids, 1, p.Scale())
	var out *mkckks.Ciphertext
	if !NoPanic("conjugation is accepted", func() { out = mkckks.NewEvaluator(p).ConjugateNew(ct, cks) }) {
		return
	}
	checkRotated("conjugated", p.Parameters, out.Ciphertext, ct.Ciphertext, ids, 1, uint64(2*n-1), sks, 1)
}

// C16_Crowd: sums of BFV ciphertexts of crowds.
func C16_Crowd() {
	p := bfvParams(pick("cfg", cfg{2, 2}))
	k := crowd
	ids0, ids1 := crowdOps(k, k)
	sub := opt("sub", 2) == 1
	MapOrder(opt("order", 2))
	sks := secrets(mkrlwe.NewKeyGenerator(p.Parameters), names(k))
	a, b := fillBV("a", p, ids0), fillBV("b", p, ids1)
	ev := mkbfv.NewEvaluator(p)
	var out *mkbfv.Ciphertext
	if !NoPanic("the operation is accepted", func() {
		if sub {
			out = ev.SubNew(a, b)
		} else {
			out = ev.AddNew(a, b)
		}
	}) {
		return
	}
	checkBFVAddSub("sum", p, out, a.Ciphertext, b.Ciphertext, ids0, ids1, sub, sks)
}

// C17_Crowd: BFV products of ciphertexts of crowds.
func C17_Crowd() {
	p := bfvParams(pick("cfg", cfg{2, 2}))
	k := crowd
	ids0, ids1 := crowdOps(k, 20)
	kg := mkbfv.NewKeyGenerator(p)
	sks, secs := smallSecrets(p, names(k))
	rlk := bfvRlkSet(p, kg, sks, names(k))
	a, b := fillBV("a", p, ids0), fillBV("b", p, ids1)
	var out *mkbfv.Ciphertext
	if !NoPanic("the product is accepted", func() { out = mkbfv.NewEvaluator(p).MulRelinNew(a, b, rlk) }) {
		return
	}
	x, z := bfvOperands(p, a.Ciphertext, b.Ciphertext)
	checkBFVProduct("product", p, out.Ciphertext, x, z, ids0, ids1, sks, secs)
}

// C18_Crowd: BFV rotations of the ciphertext of a crowd.
func C18_Crowd() {
	p := bfvParams(pick("cfg", cfg{2, 2}))
	ids := names(crowd)
	rot := []int{1, 3}[opt("rotation", 2)]
	kg := mkbfv.NewKeyGenerator(p)
	sks := secrets(kg.KeyGenerator, ids)
	rtk := bfvRotKeys(kg, sks, ids, powers())
	ct := fillBV("ct", p, ids)
	var out *mkbfv.Ciphertext
	if !NoPanic("rotation is accepted", func() { out = mkbfv.NewEvaluator(p).RotateNew(ct, rot, rtk) }) {
		return
	}
	checkRotated("rotated", p.Parameters, out.Ciphertext, ct.Ciphertext, ids, 1, galEl(rot), sks, rotSteps(rot))
}
