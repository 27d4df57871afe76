package h

import (
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"

	. "vharness/vsym"
)

func newRing(m []uint64) *ring.Ring {
	r, err := ring.NewRing(n, m)
	if err != nil {
		panic(err)
	}
	return r
}

func lgProd(ms []uint64) float64 {
	s := 0.0
	for _, m := range ms {
		s += lg(float64(m))
	}
	return s
}

func extender() (rQ, rP *ring.Ring, be *mkrlwe.FastBasisExtender) {
	shapes := [][2]int{{1, 1}, {3, 2}, {4, 4}, {2, 5}, {7, 8}, {18, 2}}
	if forced != nil {
		shapes = nil
		for _, c := range forced {
			shapes = append(shapes, [2]int{c.nQ, c.nP})
		}
	}
	s := shapes[opt("shape", len(shapes))]
	Q := qChain(s[0])
	rQ, rP = newRing(Q), newRing(append([]uint64{}, q60[:s[1]]...))
	be = mkrlwe.NewFastBasisExtender(rQ, rP)
	if opt("copy", 2) == 1 { // a shallow copy works like the original, also while that one is used
		o := be
		be = be.ShallowCopy()
		x, y := rQ.NewPoly(), rP.NewPoly()
		Fill("other", rQ, s[0]-1, x, false)
		o.ModUpQtoP(s[0]-1, s[1]-1, x, y)
		o.ModDownQPtoQ(s[0]-1, s[1]-1, x, y, x)
	}
	return
}

// C08_ModUp: extension in both directions, all levels.
func C08_ModUp() {
	rQ, rP, be := extender()
	lq, lp := opt("levelQ", len(rQ.Modulus)), opt("levelP", len(rP.Modulus))
	a, b, la, lb := rQ, rP, lq, lp
	back := opt("direction", 2) == 1
	if back {
		a, b, la, lb = rP, rQ, lp, lq
	}
	x, y := a.NewPoly(), b.NewPoly()
	FillUpTo("x", a, la, x, false, 2)
	Fill("old", b, len(b.Modulus)-1, y, false)
	snap, ysnap := x.CopyNew(), y.CopyNew()
	if back {
		be.ModUpPtoQ(lp, lq, x, y)
	} else {
		be.ModUpQtoP(lq, lp, x, y)
	}
	EqPoly("the input is not changed", x, snap)
	for i := lb + 1; i < len(b.Modulus); i++ {
		EqRow("rows above the level are not touched", y, ysnap, i)
	}
	WithinQ("output below 3q", b, lb, y, 3)
	e := Join(Of(a, la, x, false, false), Of(b, lb, y, false, false))
	Small("one integer polynomial bounded by the source basis", e, lgProd(a.Modulus[:la+1])+0.01)
}

// C08_ModDown: division by either basis, in both domains.
func C08_ModDown() {
	rQ, rP, be := extender()
	lq, lp := opt("levelQ", len(rQ.Modulus)), opt("levelP", len(rP.Modulus))
	kind := opt("kind", 3) // QPtoQ, QPtoQ in NTT, QPtoP
	inPlace := opt("in-place", 2) == 1
	xQ, xP := rQ.NewPoly(), rP.NewPoly()
	ntt := kind == 1
	FillUpTo("xQ", rQ, lq, xQ, ntt, 2)
	FillUpTo("xP", rP, lp, xP, ntt, 2)
	inQ, inP := Of(rQ, lq, xQ, ntt, false), Of(rP, lp, xP, ntt, false)
	sQ, sP := xQ.CopyNew(), xP.CopyNew()
	const bound = 0.02
	if kind < 2 {
		out := rQ.NewPoly()
		if inPlace {
			out = xQ
		}
		if kind == 0 {
			be.ModDownQPtoQ(lq, lp, xQ, xP, out)
			EqPoly("the input is not changed", xP, sP)
		} else {
			be.ModDownQPtoQNTT(lq, lp, xQ, xP, out)
		}
		if !inPlace {
			EqPoly("the input is not changed", xQ, sQ)
		}
		WithinQ("reduced", rQ, lq, out, 1)
		Near("quotient by P", Of(rQ, lq, out, ntt, false), rP.Modulus[:lp+1], Join(inQ, inP), bound)
		return
	}
	out := rP.NewPoly()
	if inPlace {
		out = xP
	}
	be.ModDownQPtoP(lq, lp, xQ, xP, out)
	EqPoly("the input is not changed", xQ, sQ)
	if !inPlace {
		EqPoly("the input is not changed", xP, sP)
	}
	WithinQ("reduced", rP, lp, out, 1)
	Near("quotient by Q", Of(rP, lp, out, false, false), rQ.Modulus[:lq+1], Join(inP, inQ), bound)
}

// C08_BFV: the three conversions of the BFV basis extender.
func C08_BFV() {
	c := pick("cfg", cfg{1, 2}, cfg{2, 2}, cfg{3, 2}, cfg{4, 4}, cfg{9, 2}, cfg{17, 2})
	p := bfvParams(c)
	rQ, rM, rR := p.RingQ(), p.RingQMul(), p.RingR()
	top := c.nQ - 1
	conv := mkbfv.NewFastBasisExtender(p.RingP(), rQ, rM, rR)
	if opt("used-before", 2) == 1 {
		x, y := rQ.NewPoly(), rR.NewPoly()
		Fill("other", rQ, top, x, false)
		conv.Rescale(x, y)
		conv.ModUpQtoR(x, y)
	}
	switch opt("op", 3) {
	case 0:
		x, y := rQ.NewPoly(), rR.NewPoly()
		FillLoose("x", rQ, top, x, false)
		snap := x.CopyNew()
		conv.ModUpQtoR(x, y)
		EqPoly("the input is not changed", x, snap)
		e := Of(rR, 2*c.nQ-1, y, false, false)
		Equal("congruent modulo Q", Restrict(e, rQ.Modulus), Of(rQ, top, x, false, false))
		Small("one integer polynomial bounded by Q", e, lgProd(rQ.Modulus)+0.01)
		Disjoint("own memory", x, y)
	case 1:
		x, y := rQ.NewPoly(), rR.NewPoly()
		FillLoose("x", rQ, top, x, false)
		snap := x.CopyNew()
		conv.Rescale(x, y)
		EqPoly("the input is not changed", x, snap)
		e := Of(rR, 2*c.nQ-1, y, false, false)
		Small("one integer polynomial bounded by QMul", e, lgProd(rM.Modulus)+0.01)
		in := Of(rQ, top, x, false, false)
		Near("QMul/Q times the input", Restrict(e, rM.Modulus), rQ.Modulus, Join(ZeroE(n, rM.Modulus), MulMods(in, rM.Modulus)), 0.02)
	case 2:
		x, y := rR.NewPoly(), rQ.NewPoly()
		FillLoose("x", rR, 2*c.nQ-1, x, true)
		snap := x.CopyNew()
		conv.Quantize(x, y, p.T())
		EqPoly("the input is not changed", x, snap)
		WithinQ("reduced", rQ, top, y, 1)
		Near("t/QMul times the input", Of(rQ, top, y, false, false), rM.Modulus, MulInt(Of(rR, 2*c.nQ-1, x, true, false), int64(p.T())), 0.02)
	}
}
