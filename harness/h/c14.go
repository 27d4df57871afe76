package h

import (
	"math"

	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ckks"

	. "vharness/vsym"
)

func plainParams(p mkckks.Parameters) ckks.Parameters {
	cp, err := ckks.NewParameters(p.Parameters.Parameters, p.LogSlots(), p.Scale())
	if err != nil {
		panic(err)
	}
	return cp
}

// C14_Plain: the phase is multiplied by the plaintext and divided by the dropped primes.
func C14_Plain() {
	c := pick("cfg", cfg{1, 2}, cfg{3, 2}, cfg{4, 4})
	p := ckksParams(c)
	lvl := opt("level", c.nQ)
	pl := lvl + opt("plaintext-level-above", c.nQ-lvl)
	ids := subset(names(2), opt("ids", 3)+1)
	sc := []float64{1 << 52, 1, 1 << 54, math.Exp2(105)}[opt("plaintext-scale", 4)]
	ntt := opt("plaintext-ntt", 2) == 1
	MapOrder(opt("order", 2))
	ct := fillCK("ct", p, ids, lvl, p.Scale())
	pt := ckks.NewPlaintext(plainParams(p), pl, sc)
	Fill("pt", p.RingQ(), pl, pt.Value, ntt)
	snap, ps := copyCt(ct.Ciphertext), pt.Value.CopyNew()
	sks := secrets(mkrlwe.NewKeyGenerator(p.Parameters), ids)
	want := Mul(phase(p.Parameters, ct.Ciphertext, sks, ids, lvl), Of(p.RingQ(), lvl, pt.Value, ntt, false))
	ev := mkckks.NewEvaluator(p)
	if opt("used-before", 2) == 1 {
		o := fillCK("other", p, names(2), c.nQ-1, p.Scale())
		op := ckks.NewPlaintext(plainParams(p), c.nQ-1, p.Scale())
		Fill("otherpt", p.RingQ(), c.nQ-1, op.Value, false)
		ev.MulPtxtNew(o, op)
	}
	var out *mkckks.Ciphertext
	if !NoPanic("the product is accepted", func() { out = ev.MulPtxtNew(ct, pt) }) {
		return
	}
	sameCt("the ciphertext is not changed", ct.Ciphertext, snap)
	EqPoly("the plaintext is not changed", pt.Value, ps)
	Assert("the scales of the operands are not changed", ct.Scale == p.Scale() && pt.Scale == sc)
	lo, ws := rescaleTo(p, lvl, ct.Scale*sc, p.Scale())
	Assert("the level", out.Level() == lo)
	if out.Level() != lo || !checkShape("product", p.Parameters, out.Ciphertext, ids, lo) {
		return
	}
	Assert("the recorded scale", math.Abs(out.Scale/ws-1) < 1e-12)
	got := phase(p.Parameters, out.Ciphertext, sks, ids, lo)
	if lo == lvl {
		Equal("the plaintext is multiplied", got, want)
	} else {
		Near("the plaintext is multiplied and divided by the dropped primes", got, p.RingQ().Modulus[lo+1:lvl+1], want, lg(rescNoise(len(ids), lvl-lo))+0.01)
	}
	disjointCts("the result shares no memory with the operand", out.Ciphertext, ct.Ciphertext)
}

type constant struct {
	v      interface{}
	re, im float64
}

var constants = []constant{
	{0, 0, 0}, {1, 1, 0}, {-1, -1, 0}, {int(-70000), -70000, 0}, {int(1 << 53), 1 << 53, 0},
	{int64(5), 5, 0}, {int64(-3), -3, 0}, {int64(1) << 62, 1 << 62, 0}, {int64(math.MinInt64), -(1 << 63), 0}, {int64(-(1<<53 - 1)), -(1<<53 - 1), 0},
	{uint64(7), 7, 0}, {uint64(1)<<63 + 1<<11, 1<<63 + 1<<11, 0}, {uint64(0x7ffffffffcc0001), 0x7ffffffffcc0001, 0}, {uint64(0), 0, 0},
	{float64(0), 0, 0}, {2.0, 2, 0}, {-3.0, -3, 0}, {0.5, 0.5, 0}, {-0.25, -0.25, 0}, {math.Pi, math.Pi, 0}, {-1e-9, -1e-9, 0}, {1e-300, 1e-300, 0}, {1e15 + 0.5, 1e15 + 0.5, 0}, {-1e19, -1e19, 0}, {math.Exp2(70), math.Exp2(70), 0}, {0.1, 0.1, 0},
	{complex(0, 0), 0, 0}, {complex(1, 0), 1, 0}, {complex(0, 1), 0, 1}, {complex(0, -1), 0, -1}, {complex(2, -3), 2, -3}, {complex(0.5, 4), 0.5, 4}, {complex(3, 0.125), 3, 0.125}, {complex(-0.3, 0.7), -0.3, 0.7}, {complex(-7, -1.5), -7, -1.5}, {complex(1e10, 1e-10), 1e10, 1e-10},
}

// C14_Const: every component is multiplied by the rounding of constant times the scale factor recorded
// in the result.
func C14_Const() {
	c := pick("cfg", cfg{1, 2}, cfg{3, 2})
	p := ckksParams(c)
	lvl := opt("level", c.nQ)
	ids := subset(names(2), opt("ids", 3)+1)
	k := constants[opt("constant", len(constants))]
	inPlace := opt("in-place", 2) == 1
	ct := fillCK("ct", p, ids, lvl, p.Scale())
	snap := copyCt(ct.Ciphertext)
	ev := mkckks.NewEvaluator(p)
	out := ct
	lo := lvl
	if !inPlace {
		lo = opt("result-level", lvl+1)
		out = mkckks.NewCiphertext(p, idset(ids), lo, 1)
	}
	if !NoPanic("the constant is accepted", func() { ev.MultByConst(ct, k.v, out) }) {
		return
	}
	if !inPlace {
		sameCt("the ciphertext is not changed", ct.Ciphertext, snap)
	}
	if !checkShape("product", p.Parameters, out.Ciphertext, ids, lo) {
		return
	}
	S := out.Scale / p.Scale()
	exact := k.re == math.Trunc(k.re) && k.im == math.Trunc(k.im)
	big := math.Max(math.Abs(k.re), math.Abs(k.im))
	Assert("an integer constant needs no scale", !exact || big >= math.Exp2(62) || S == 1)
	// a fractional constant keeps the precision of one prime
	Assert("a fractional constant is scaled up", exact || math.Abs(S/float64(p.RingQ().Modulus[lo])-1) < 1e-9)
	rel := math.Exp2(-51)
	for _, id := range append([]string{"0"}, ids...) {
		ScaledBy("the plaintext is multiplied by the constant", ctE(p.Parameters, out.Ciphertext, id, lo), ctE(p.Parameters, &mkrlwe.Ciphertext{Value: snap.Value}, id, lo), k.re, k.im, S, rel)
	}
}
