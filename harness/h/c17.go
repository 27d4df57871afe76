package h

import (
	"math"
	"math/big"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"

	. "vharness/vsym"
)

// bfvMulNoise bounds (log2) the noise of one relinearised BFV product of operands of n0 and n1 parties:
// for every pair of parties the double digit sums of both halves times the noise and the rounding of
// the gadget and one secret, divided by P, the roundings, and one key switch per party of the first.
func bfvMulNoise(p mkbfv.Parameters, n0, n1 int) float64 {
	alpha := p.Alpha()
	lp := lgProd(p.RingP().Modulus)
	dd, sw := 0.0, 0.0
	for half, src := range [][]uint64{p.RingQ().Modulus, p.RingQMul().Modulus} {
		for i := 0; i < nDigits(p.Parameters, p.QCount()-1); i++ {
			hi := (i + 1) * alpha
			if hi > len(src) {
				hi = len(src)
			}
			ld := lgProd(src[i*alpha:hi]) + 1.6 // digits of lifted operands may be three blocks large
			dd += math.Exp2(2*ld-lp) * nf() * nf() * nf() * (2*sigma6 + nf())
			if half == 0 {
				sw += math.Exp2(ld-lp) * nf() * sigma6
			}
		}
	}
	a, b := float64(n0), float64(n1)
	const r = 1.02 // rounding of one division
	return lg(a*b*dd + r + (a+b)*nf()*r + b*nf()*r + a*nf()*r + a*(sw+r+nf()*r))
}

// bfvOperands lifts the operands of a product to Q*QMul the way the scheme does: the first operand
// itself, the second times QMul/Q.
func bfvOperands(p mkbfv.Parameters, a, b *mkrlwe.Ciphertext) (x, z *mkrlwe.Ciphertext) {
	conv := mkbfv.NewFastBasisExtender(p.RingP(), p.RingQ(), p.RingQMul(), p.RingR())
	x, z = &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}, &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}
	for _, id := range sortedIDs(a) {
		x.Value[id] = p.RingR().NewPoly()
		conv.ModUpQtoR(a.Value[id], x.Value[id])
	}
	for _, id := range sortedIDs(b) {
		z.Value[id] = p.RingR().NewPoly()
		conv.Rescale(b.Value[id], z.Value[id])
	}
	return
}

// phaseR is the phase of a lifted ciphertext times k, over Q, P and QMul.
func phaseR(p mkbfv.Parameters, ct *mkrlwe.Ciphertext, ids []string, secs map[string]*Elem, k *big.Int) *Elem {
	e := bfvJoin(p, ct.Value["0"], false, k)
	for _, id := range ids {
		e = Add(e, Mul(bfvJoin(p, ct.Value[id], false, k), secs[id]))
	}
	return e
}

func smallSecrets(p mkbfv.Parameters, ids []string) (map[string]*mkrlwe.SecretKey, map[string]*Elem) {
	sks, secs := map[string]*mkrlwe.SecretKey{}, map[string]*Elem{}
	for _, id := range ids {
		sks[id], secs[id] = smallSecret("s."+id, p, id)
	}
	return sks, secs
}

func bfvRlkSet(p mkbfv.Parameters, kg *mkbfv.KeyGenerator, sks map[string]*mkrlwe.SecretKey, ids []string) *mkbfv.RelinearizationKeySet {
	set := mkbfv.NewRelinearizationKeyKeySet(p)
	for _, id := range ids {
		set.AddRelinearizationKey(kg.GenRelinearizationKey(sks[id], kg.GenSecretKey(id)))
	}
	return set
}

// checkBFVProduct: the phase of out is t/QMul times the product of the phases of the lifted operands.
func checkBFVProduct(name string, p mkbfv.Parameters, out, x, z *mkrlwe.Ciphertext, ids0, ids1 []string, sks map[string]*mkrlwe.SecretKey, secs map[string]*Elem) {
	ids, lvl := union(ids0, ids1), p.QCount()-1
	if !checkShape(name, p.Parameters, out, ids, lvl) {
		return
	}
	P, M := p.RingP().Modulus, p.RingQMul().Modulus
	k := new(big.Int).Mul(prod(P), new(big.Int).SetUint64(p.T()))
	want := Mul(phaseR(p, x, ids0, secs, k), phaseR(p, z, ids1, secs, big.NewInt(1)))
	R := append(append([]uint64{}, P...), M...)
	Near(name+": t/QMul times the product of the plaintexts", phase(p.Parameters, out, sks, ids, lvl), R, want, bfvMulNoise(p, len(ids0), len(ids1)))
}

// checkLifts ties the lifted operands to the operands: the first is congruent modulo Q and bounded by Q,
// the second is QMul/Q times the operand and bounded by QMul.
func checkLifts(p mkbfv.Parameters, a, b, x, z *mkrlwe.Ciphertext) {
	rQ, rM, rR := p.RingQ(), p.RingQMul(), p.RingR()
	top := p.QCount() - 1
	for _, id := range sortedIDs(x) {
		e := Of(rR, 2*top+1, x.Value[id], false, false)
		Equal("the first operand is lifted", Restrict(e, rQ.Modulus), Of(rQ, top, a.Value[id], false, false))
		Small("the first operand is lifted to one integer polynomial", e, lgProd(rQ.Modulus)+0.01)
	}
	for _, id := range sortedIDs(z) {
		e := Of(rR, 2*top+1, z.Value[id], false, false)
		Small("the second operand is lifted to one integer polynomial", e, lgProd(rM.Modulus)+0.01)
		in := Of(rQ, top, b.Value[id], false, false)
		Near("the second operand is scaled by QMul/Q", Restrict(e, rM.Modulus), rQ.Modulus, Join(ZeroE(n, rM.Modulus), MulMods(in, rM.Modulus)), 0.02)
	}
}

// C17_Mul: the evaluator's product.
func C17_Mul() {
	c := pick("cfg", cfg{1, 2}, cfg{2, 2}, cfg{3, 2}, cfg{2, 4}, cfg{4, 4})
	p := bfvParams(c)
	np := 2
	if Thorough() {
		np = 3
	}
	ids0, ids1 := twoSets("ids", names(np))
	MapOrder(opt("order", 2))
	kg := mkbfv.NewKeyGenerator(p)
	sks, secs := smallSecrets(p, names(np))
	rlk := bfvRlkSet(p, kg, sks, names(np))
	a, b := fillBV("a", p, ids0), fillBV("b", p, ids1)
	sa, sb := copyCt(a.Ciphertext), copyCt(b.Ciphertext)
	ev := mkbfv.NewEvaluator(p)
	var out *mkbfv.Ciphertext
	if !NoPanic("the product is accepted", func() { out = ev.MulRelinNew(a, b, rlk) }) {
		return
	}
	x, z := bfvOperands(p, sa, sb)
	checkLifts(p, sa, sb, x, z)
	checkBFVProduct("product", p, out.Ciphertext, x, z, ids0, ids1, sks, secs)
	sameCt("first operand is not changed", a.Ciphertext, sa)
	sameCt("second operand is not changed", b.Ciphertext, sb)
	disjointCts("the result shares no memory with its operands", out.Ciphertext, a.Ciphertext)
	disjointCts("the result shares no memory with its operands", out.Ciphertext, b.Ciphertext)
	rlk.DelRelinearizationKey(ids1[0])
	Refuses("missing relinearisation key", func() { ev.MulRelinNew(a, b, rlk) })
}

// C17_Square: an operand multiplied with itself, and the square multiplied again.
func C17_Square() {
	p := bfvParams(pick("cfg", cfg{2, 2}, cfg{2, 4}))
	ids, ids1 := twoSets("ids", names(2))
	kg := mkbfv.NewKeyGenerator(p)
	sks, secs := smallSecrets(p, names(2))
	rlk := bfvRlkSet(p, kg, sks, names(2))
	a := fillBV("a", p, ids)
	sa := copyCt(a.Ciphertext)
	ev := mkbfv.NewEvaluator(p)
	var out, out2 *mkbfv.Ciphertext
	if !NoPanic("the product is accepted", func() { out = ev.MulRelinNew(a, a, rlk) }) {
		return
	}
	x, z := bfvOperands(p, sa, sa)
	checkBFVProduct("square", p, out.Ciphertext, x, z, ids, ids, sks, secs)
	sameCt("the operand is not changed", a.Ciphertext, sa)
	// another product with the same evaluator and keys
	b := fillBV("b", p, ids1)
	so := copyCt(out.Ciphertext)
	if !NoPanic("the second product is accepted", func() { out2 = ev.MulRelinNew(b, a, rlk) }) {
		return
	}
	x, z = bfvOperands(p, b.Ciphertext, sa)
	checkBFVProduct("second product", p, out2.Ciphertext, x, z, ids1, ids, sks, secs)
	sameCt("the first result is not changed", out.Ciphertext, so)
}

// C17_Forms: the key switcher's products of arbitrary lifted operands: direct, without precomputation,
// with one or both operands decomposed beforehand.
func C17_Forms() {
	p := bfvParams(pick("cfg", cfg{1, 2}, cfg{2, 2}, cfg{4, 4}))
	mp := p.Parameters
	lvl := p.QCount() - 1
	ids0, ids1 := twoSets("ids", names(2))
	form := opt("form", 5)
	kg := mkbfv.NewKeyGenerator(p)
	sks, secs := smallSecrets(p, names(2))
	rlk := bfvRlkSet(p, kg, sks, names(2))
	a, b := fillBV("a", p, ids0), fillBV("b", p, ids1)
	x, z := bfvOperands(p, a.Ciphertext, b.Ciphertext)
	ks := mkbfv.NewKeySwitcher(p)
	hoist := func(ct *mkrlwe.Ciphertext, ids []string) (h1, h2 *mkrlwe.HoistedCiphertext) {
		h1, h2 = mkrlwe.NewHoistedCiphertext(), mkrlwe.NewHoistedCiphertext()
		for _, id := range ids {
			h1.Value[id], h2.Value[id] = mkrlwe.NewSwitchingKey(mp), mkrlwe.NewSwitchingKey(mp)
			ks.DecomposeBFV(lvl, ct.Value[id], h1.Value[id], h2.Value[id])
		}
		return
	}
	var h01, h02, h11, h12 *mkrlwe.HoistedCiphertext
	if form == 2 || form == 4 {
		h01, h02 = hoist(x, ids0)
	}
	if form == 3 || form == 4 {
		h11, h12 = hoist(z, ids1)
	}
	sx, sz := copyCt(x), copyCt(z)
	out := fullCt(mp, union(ids0, ids1), lvl)
	if !NoPanic("the product is accepted", func() {
		if form == 0 {
			ks.MulAndRelinBFV(x, z, rlk, out)
		} else {
			ks.MulAndRelinBFVHoisted(x, z, h01, h02, h11, h12, rlk, out)
		}
	}) {
		return
	}
	checkBFVProduct("product", p, out, sx, sz, ids0, ids1, sks, secs)
	sameCt("first operand is not changed", x, sx)
	sameCt("second operand is not changed", z, sz)
}
