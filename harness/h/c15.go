package h

import (
	"math"

	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	. "vharness/vsym"
)

// C15_Rescale: the plaintext is divided by the dropped primes, exactly as many as the scales demand.
func C15_Rescale() {
	c := pick("cfg", cfg{1, 2}, cfg{3, 2}, cfg{5, 4})
	p := ckksParams(c)
	lvl := opt("level", c.nQ)
	ids := subset(names(2), opt("ids", 3)+1)
	q := float64(q52[0])
	sc := []float64{1 << 52, q * (1 << 52), q * q * (1 << 52), q * q * q * (1 << 52), 0.4 * q * (1 << 52), 0.6 * q * (1 << 52), 1 << 30, 3 * (1 << 60), math.Exp2(400)}[opt("scale", 9)]
	min := []float64{1 << 52, 1 << 30, 1, 1 << 53}[opt("min-scale", 4)]
	form := opt("form", 3) // new, in place, into another ciphertext
	sks := secrets(mkrlwe.NewKeyGenerator(p.Parameters), ids)
	ct := fillCK("ct", p, ids, lvl, sc)
	snap := copyCt(ct.Ciphertext)
	in := phase(p.Parameters, ct.Ciphertext, sks, ids, lvl)
	ev := mkckks.NewEvaluator(p)
	var out *mkckks.Ciphertext
	var err error
	if !NoPanic("rescaling is accepted", func() {
		switch form {
		case 0:
			out, err = ev.RescaleNew(ct, min)
		case 1:
			out = ct
			err = ev.Rescale(ct, min, ct)
		case 2:
			out = fillCK("out", p, ids, lvl, 7)
			err = ev.Rescale(ct, min, out)
		}
	}) {
		return
	}
	if form != 1 {
		sameCt("the operand is not changed", ct.Ciphertext, snap)
		Assert("the operand's scale is not changed", ct.Scale == sc)
	}
	if lvl == 0 {
		Assert("nothing can be dropped at level zero: an error is reported", err != nil)
		if form == 1 {
			sameCt("nothing is done", ct.Ciphertext, snap)
			Assert("nothing is done to the scale", ct.Scale == sc)
		}
		return
	}
	Assert("no error is reported", err == nil)
	lo, want := rescaleTo(p, lvl, sc, min)
	Assert("the level", out.Level() == lo)
	if out.Level() != lo || !checkShape("rescaled", p.Parameters, out.Ciphertext, ids, lo) {
		return
	}
	Assert("the recorded scale", math.Abs(out.Scale/want-1) < 1e-12)
	if lo == lvl {
		Equal("the plaintext is kept", phase(p.Parameters, out.Ciphertext, sks, ids, lo), in)
	} else {
		Near("the plaintext divided by the dropped primes", phase(p.Parameters, out.Ciphertext, sks, ids, lo), p.RingQ().Modulus[lo+1:lvl+1], in, lg(rescNoise(len(ids), lvl-lo))+0.01)
	}
	if form != 1 {
		disjointCts("the result shares no memory with the operand", out.Ciphertext, ct.Ciphertext)
	}
}

// C15_Refused: meaningless scales are reported and nothing is changed.
func C15_Refused() {
	p := ckksParams(cfg{3, 2})
	k := opt("case", 3)
	lvl := opt("level", 3)
	sc, min := p.Scale()*p.Scale(), p.Scale()
	switch k {
	case 0:
		sc = 0
	case 1:
		min = 0
	case 2:
		min = -1
	}
	ct := fillCK("ct", p, names(2), lvl, sc)
	snap := copyCt(ct.Ciphertext)
	ev := mkckks.NewEvaluator(p)
	var err error
	if !NoPanic("an error is reported", func() {
		if opt("form", 2) == 0 {
			_, err = ev.RescaleNew(ct, min)
		} else {
			err = ev.Rescale(ct, min, ct)
		}
	}) {
		return
	}
	Assert("an error is reported", err != nil)
	sameCt("the operand is not changed", ct.Ciphertext, snap)
	Assert("the scale is not changed", ct.Scale == sc)
}

// C15_Drop: dropping levels keeps the plaintext modulo the remaining primes.
func C15_Drop() {
	p := ckksParams(cfg{4, 4})
	lvl := opt("level", 4)
	k := opt("levels", lvl+1)
	ids := subset(names(2), opt("ids", 3)+1)
	inPlace := opt("in-place", 2) == 1
	ct := fillCK("ct", p, ids, lvl, p.Scale())
	snap := copyCt(ct.Ciphertext)
	sks := secrets(mkrlwe.NewKeyGenerator(p.Parameters), ids)
	in := phase(p.Parameters, ct.Ciphertext, sks, ids, lvl-k)
	ev := mkckks.NewEvaluator(p)
	var out *mkckks.Ciphertext
	if !NoPanic("dropping levels is accepted", func() {
		if inPlace {
			ev.DropLevel(ct, k)
			out = ct
		} else {
			out = ev.DropLevelNew(ct, k)
		}
	}) {
		return
	}
	Assert("the level", out.Level() == lvl-k)
	if out.Level() != lvl-k || !checkShape("dropped", p.Parameters, out.Ciphertext, ids, lvl-k) {
		return
	}
	Assert("the recorded scale is kept", out.Scale == p.Scale())
	Equal("the plaintext is kept", phase(p.Parameters, out.Ciphertext, sks, ids, lvl-k), in)
	if !inPlace {
		sameCt("the operand is not changed", ct.Ciphertext, snap)
		disjointCts("the result shares no memory with the operand", out.Ciphertext, ct.Ciphertext)
	}
	Refuses("dropping below level zero", func() { ev.DropLevelNew(ct, lvl+2) })
}
