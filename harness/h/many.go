package h

import (
	"math"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ckks"

	. "vharness/vsym"
)

// The harnesses of this file go through the evaluators with more parties and longer prime chains than
// the exhaustive ones of their property, over fewer combinations of levels.

// manySets: operands of up to four parties: disjoint, nested, overlapping, equal.
func manySets(name string) ([]string, []string) {
	m := [][2]int{{7, 15}, {15, 15}, {1, 14}, {15, 4}, {14, 1}, {6, 9}, {11, 7}, {8, 8}}[opt(name, 8)]
	return subset(names(4), m[0]), subset(names(4), m[1])
}

// manyIDs: the sets of one operand.
func manyIDs(name string) int {
	if Thorough() {
		return []int{7, 15, 13, 8, 10}[opt(name, 5)]
	}
	return []int{15, 13}[opt(name, 2)]
}

func orders() int {
	if Thorough() {
		return 4
	}
	return 2
}

// longCfg: many blocks, blocks of two or three primes with a partial last one.
func longCfg(name string) cfg {
	if Thorough() {
		return pick(name, cfg{6, 2}, cfg{9, 2}, cfg{7, 6}, cfg{14, 2}, cfg{9, 4}, cfg{14, 6}, cfg{10, 8}, cfg{30, 2}, cfg{24, 4})
	}
	return pick(name, cfg{6, 2}, cfg{9, 2}, cfg{7, 6}, cfg{30, 2})
}

// someLevel: the top two levels, the middle, a block boundary, zero.
func someLevel(name string, c cfg) int {
	ls := []int{c.nQ - 1, c.nQ - 2, c.nQ / 2, c.alpha(), 0}
	if !Thorough() {
		ls = []int{c.nQ - 1, c.nQ / 2, c.alpha()}
	}
	return ls[opt(name, len(ls))]
}

// veryLong: chains of more than sixteen primes (sums of digits exceed 64 bits when they are not reduced); in
// the quick tier the products and rotations go over them with one pair of party sets at the top level.
func veryLong(c cfg) bool { return c.nQ > 16 && !Thorough() }

// C06_Long: decomposition over long chains.
func C06_Long() {
	if c := longCfg("cfg"); veryLong(c) {
		decomposeAt(c, []int{c.nQ - 1, c.nQ - 2, 16}[opt("level", 3)])
	} else {
		decomposeOver(c)
	}
}

// C07_Long: external products over long chains.
func C07_Long() {
	c := longCfg("cfg")
	externalOver(c, someLevel("level", c))
}

// C07_BFVLong: double external products over a long chain.
func C07_BFVLong() {
	c := cfg{16, 2}
	if Thorough() {
		c = pick("cfg", cfg{16, 2}, cfg{16, 4}, cfg{9, 2})
	}
	bfvExternalOver(c)
}

// C09_Many: sums and differences of ciphertexts of up to four parties.
func C09_Many() {
	c := pick("cfg", cfg{3, 2}, cfg{9, 2})
	p := ckksParams(c)
	ids0, ids1 := manySets("ids")
	var l0, l1 int
	if Thorough() {
		l0, l1 = someLevel("level0", c), someLevel("level1", c)
	} else {
		l := [][2]int{{c.nQ - 1, c.nQ - 1}, {c.nQ - 2, c.nQ - 1}, {c.nQ - 1, 1}, {0, c.nQ / 2}}[opt("levels", 4)]
		l0, l1 = l[0], l[1]
	}
	sub := opt("sub", 2) == 1
	MapOrder(opt("order", orders()))
	r0, r1 := int64(1), int64(1)
	s0, s1 := p.Scale(), p.Scale()
	switch opt("scales", 3) {
	case 1:
		s0, r1 = 4*s0, 4
	case 2:
		s1, r0 = s1*(1<<30), 1<<30
	}
	sks := secrets(mkrlwe.NewKeyGenerator(p.Parameters), names(4))
	a := fillCK("a", p, ids0, l0, s0)
	b := fillCK("b", p, ids1, l1, s1)
	sa, sb := copyCt(a.Ciphertext), copyCt(b.Ciphertext)
	ev := mkckks.NewEvaluator(p)
	var out *mkckks.Ciphertext
	if !NoPanic("the operation is accepted", func() {
		if sub {
			out = ev.SubNew(a, b)
		} else {
			out = ev.AddNew(a, b)
		}
	}) {
		return
	}
	checkAddSub("sum", p, out, sa, sb, ids0, ids1, min(l0, l1), r0, r1, sub, sks)
	Assert("the recorded scale is the larger one", out.Scale == s0*float64(r0) && out.Scale == s1*float64(r1))
	sameCt("first operand is not changed", a.Ciphertext, sa)
	sameCt("second operand is not changed", b.Ciphertext, sb)
}

// C10_Many: products of ciphertexts of up to four parties over longer chains.
func C10_Many() {
	c := longCfg("cfg")
	p := ckksParams(c)
	ids0, ids1, k, order := names(2), []string{"bob"}, 0, 0
	if !veryLong(c) {
		ids0, ids1 = manySets("ids")
		k, order = opt("levels", 4), opt("order", 2)
	}
	l0, l1 := c.nQ-1, c.nQ-1
	switch k {
	case 1:
		l0 = c.nQ / 2
	case 2:
		l1 = c.alpha()
	case 3:
		l0, l1 = c.nQ-2, c.nQ-3
	}
	MapOrder(order)
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, names(4))
	rlk := rlkSetOf(p, kg, sks, names(4))
	a := fillCK("a", p, ids0, l0, p.Scale())
	b := fillCK("b", p, ids1, l1, p.Scale())
	ev := mkckks.NewEvaluator(p)
	var out *mkckks.Ciphertext
	if !NoPanic("the product is accepted", func() { out = ev.MulRelinNew(a, b, rlk) }) {
		return
	}
	checkProduct("product", p, out, a, b, ids0, ids1, l0, l1, sks)
}

// C11_Many: the same with precomputed forms.
func C11_Many() {
	c := longCfg("cfg")
	p := ckksParams(c)
	ids0, ids1, given, k := names(2), []string{"bob"}, 0, 0
	if veryLong(c) {
		given = 3 * opt("precomputed", 2)
	} else {
		ids0, ids1 = manySets("ids")
		given, k = opt("precomputed", 4), opt("levels", 3)
	}
	l0, l1 := c.nQ-1, c.nQ-1
	switch k {
	case 1:
		l0 = c.nQ / 2
	case 2:
		l1 = c.alpha()
	}
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, names(4))
	rlk := rlkSetOf(p, kg, sks, names(4))
	a := fillCK("a", p, ids0, l0, p.Scale())
	b := fillCK("b", p, ids1, l1, p.Scale())
	ev := mkckks.NewEvaluator(p)
	ha, hb := ev.HoistedForm(a), ev.HoistedForm(b)
	g0, g1 := ha, hb
	if given&1 == 0 {
		g0 = nil
	}
	if given&2 == 0 {
		g1 = nil
	}
	snapA, snapB := copyHoisted(ha, ids0), copyHoisted(hb, ids1)
	var out *mkckks.Ciphertext
	if !NoPanic("the product is accepted", func() { out = ev.MulRelinHoistedNew(a, b, g0, g1, rlk) }) {
		return
	}
	checkProduct("hoisted product", p, out, a, b, ids0, ids1, l0, l1, sks)
	sameHoisted("the first precomputation is not changed", ha, ids0, snapA)
	sameHoisted("the second precomputation is not changed", hb, ids1, snapB)
	// the precomputation of the first operand still serves rotations
	rtk := rotKeys(p, kg, sks, names(4), powers())
	if !NoPanic("hoisted rotation is accepted", func() { out = ev.RotateHoistedNew(a, 4, ha, rtk) }) {
		return
	}
	checkRotated("hoisted rotation", p.Parameters, out.Ciphertext, a.Ciphertext, ids0, l0, galEl(4), sks, 1)
}

// C12_Many: rotations of ciphertexts of up to four parties over longer chains.
func C12_Many() {
	c := longCfg("cfg")
	p := ckksParams(c)
	lvl, rot, ids := c.nQ-1, 3, names(2)
	if !veryLong(c) {
		lvl = someLevel("level", c)
		rot = []int{1, 3, 7, -1, 5, 12, -9}[opt("rotation", 7)]
		ids = subset(names(4), manyIDs("ids"))
		MapOrder(opt("order", orders()))
	}
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, ids)
	rtk := rotKeys(p, kg, sks, ids, powers())
	ev := mkckks.NewEvaluator(p)
	ct := fillCK("ct", p, ids, lvl, p.Scale())
	var out *mkckks.Ciphertext
	if !NoPanic("rotation is accepted", func() { out = ev.RotateNew(ct, rot, rtk) }) {
		return
	}
	checkRotated("rotated", p.Parameters, out.Ciphertext, ct.Ciphertext, ids, lvl, galEl(rot), sks, rotSteps(rot))
}

// C13_Many: conjugation of ciphertexts of up to four parties over longer chains.
func C13_Many() {
	c := longCfg("cfg")
	p := ckksParams(c)
	lvl := someLevel("level", c)
	ids := subset(names(4), []int{7, 15, 13, 8}[opt("ids", 4)])
	MapOrder(opt("order", orders()))
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, ids)
	cks := mkrlwe.NewConjugationKeySet()
	for _, id := range ids {
		cks.AddConjugationKey(kg.GenConjugationKey(sks[id]))
	}
	ev := mkckks.NewEvaluator(p)
	ct := fillCK("ct", p, ids, lvl, p.Scale())
	var out, back *mkckks.Ciphertext
	if !NoPanic("conjugation is accepted", func() { out = ev.ConjugateNew(ct, cks); back = ev.ConjugateNew(out, cks) }) {
		return
	}
	checkRotated("conjugated", p.Parameters, out.Ciphertext, ct.Ciphertext, ids, lvl, uint64(2*n-1), sks, 1)
	checkRotated("conjugated twice", p.Parameters, back.Ciphertext, ct.Ciphertext, ids, lvl, 1, sks, 2)
}

// C14_Many: plaintext products of ciphertexts of up to four parties over longer chains.
func C14_Many() {
	c := longCfg("cfg")
	p := ckksParams(c)
	lvl := someLevel("level", c)
	ids := subset(names(4), []int{7, 15, 13, 8}[opt("ids", 4)])
	ntt := opt("plaintext-ntt", 2) == 1
	MapOrder(opt("order", orders()))
	ct := fillCK("ct", p, ids, lvl, p.Scale())
	pt := ckks.NewPlaintext(plainParams(p), c.nQ-1, p.Scale())
	Fill("pt", p.RingQ(), c.nQ-1, pt.Value, ntt)
	sks := secrets(mkrlwe.NewKeyGenerator(p.Parameters), ids)
	want := Mul(phase(p.Parameters, ct.Ciphertext, sks, ids, lvl), Of(p.RingQ(), lvl, pt.Value, ntt, false))
	ev := mkckks.NewEvaluator(p)
	var out *mkckks.Ciphertext
	if !NoPanic("the product is accepted", func() { out = ev.MulPtxtNew(ct, pt) }) {
		return
	}
	lo, ws := rescaleTo(p, lvl, ct.Scale*pt.Scale, p.Scale())
	if !checkShape("product", p.Parameters, out.Ciphertext, ids, lo) {
		return
	}
	Assert("the recorded scale", math.Abs(out.Scale/ws-1) < 1e-12)
	got := phase(p.Parameters, out.Ciphertext, sks, ids, lo)
	if lo == lvl {
		Equal("the plaintext is multiplied", got, want)
	} else {
		Near("the plaintext is multiplied and divided by the dropped primes", got, p.RingQ().Modulus[lo+1:lvl+1], want, lg(rescNoise(len(ids), lvl-lo))+0.01)
	}
	// a constant
	if !NoPanic("the constant is accepted", func() { ev.MultByConst(ct, -5, out) }) {
		return
	}
	if !checkShape("constant", p.Parameters, out.Ciphertext, ids, lo) {
		return
	}
	Equal("times a constant", phase(p.Parameters, out.Ciphertext, sks, ids, lo), MulInt(phase(p.Parameters, ct.Ciphertext, sks, ids, lo), -5))
}

// C15_Many: rescaling by several primes of longer chains.
func C15_Many() {
	c := longCfg("cfg")
	p := ckksParams(c)
	lvl := someLevel("level", c)
	ids := subset(names(4), []int{7, 15, 13, 8}[opt("ids", 4)])
	MapOrder(opt("order", 2))
	sc := math.Exp2([]float64{52, 104, 208, 416}[opt("scale", 4)])
	sks := secrets(mkrlwe.NewKeyGenerator(p.Parameters), ids)
	ct := fillCK("ct", p, ids, lvl, sc)
	in := phase(p.Parameters, ct.Ciphertext, sks, ids, lvl)
	ev := mkckks.NewEvaluator(p)
	var out *mkckks.Ciphertext
	var err error
	if !NoPanic("rescaling is accepted", func() { out, err = ev.RescaleNew(ct, p.Scale()) }) {
		return
	}
	Assert("an error exactly at level zero", (err != nil) == (lvl == 0))
	if err != nil {
		return
	}
	lo, ws := rescaleTo(p, lvl, sc, p.Scale())
	if !checkShape("rescaled", p.Parameters, out.Ciphertext, ids, lo) {
		return
	}
	Assert("the recorded scale", math.Abs(out.Scale/ws-1) < 1e-12)
	got := phase(p.Parameters, out.Ciphertext, sks, ids, lo)
	if lo == lvl {
		Equal("the plaintext is kept", got, in)
	} else {
		Near("the plaintext divided by the dropped primes", got, p.RingQ().Modulus[lo+1:lvl+1], in, lg(rescNoise(len(ids), lvl-lo))+0.01)
	}
}

// C17_Many: BFV products of ciphertexts of up to four parties, more primes.
func C17_Many() {
	c := pick("cfg", cfg{2, 2}, cfg{6, 2}, cfg{6, 6}, cfg{16, 2})
	p := bfvParams(c)
	ids0, ids1 := names(2), []string{"bob"}
	if c.nQ < 16 {
		ids0, ids1 = manySets("ids")
		MapOrder(opt("order", 2))
	}
	kg := mkbfv.NewKeyGenerator(p)
	sks, secs := smallSecrets(p, names(4))
	rlk := bfvRlkSet(p, kg, sks, names(4))
	a, b := fillBV("a", p, ids0), fillBV("b", p, ids1)
	ev := mkbfv.NewEvaluator(p)
	var out *mkbfv.Ciphertext
	if !NoPanic("the product is accepted", func() { out = ev.MulRelinNew(a, b, rlk) }) {
		return
	}
	x, z := bfvOperands(p, a.Ciphertext, b.Ciphertext)
	checkBFVProduct("product", p, out.Ciphertext, x, z, ids0, ids1, sks, secs)
}

// C18_Many: BFV rotations of ciphertexts of up to four parties, more primes.
func C18_Many() {
	c := pick("cfg", cfg{2, 2}, cfg{6, 2}, cfg{6, 6}, cfg{17, 2})
	p := bfvParams(c)
	rot, ids := 3, names(2)
	if c.nQ < 16 {
		rot = []int{1, 3, 7, -1, 5, 12, -9}[opt("rotation", 7)]
		ids = subset(names(4), manyIDs("ids"))
		MapOrder(opt("order", orders()))
	}
	kg := mkbfv.NewKeyGenerator(p)
	sks := secrets(kg.KeyGenerator, ids)
	rtk := bfvRotKeys(kg, sks, ids, powers())
	ev := mkbfv.NewEvaluator(p)
	ct := fillBV("ct", p, ids)
	var out *mkbfv.Ciphertext
	if !NoPanic("rotation is accepted", func() { out = ev.RotateNew(ct, rot, rtk) }) {
		return
	}
	checkRotated("rotated", p.Parameters, out.Ciphertext, ct.Ciphertext, ids, c.nQ-1, galEl(rot), sks, rotSteps(rot))
}
