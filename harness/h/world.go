package h

import (
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"

	. "vharness/vsym"
)

// swkPolys lists the polynomials of a switching key.
func swkPolys(k *mkrlwe.SwitchingKey) (r []*ring.Poly) {
	for _, v := range k.Value {
		r = append(r, v.Q, v.P)
	}
	return
}

func ctPolys(ct *mkrlwe.Ciphertext) (r []*ring.Poly) {
	for _, id := range sortedIDs(ct) {
		r = append(r, ct.Value[id])
	}
	return
}

func hoistPolys(h *mkrlwe.HoistedCiphertext) (r []*ring.Poly) {
	for _, id := range allNames {
		if h.Value[id] != nil {
			r = append(r, swkPolys(h.Value[id])...)
		}
	}
	return
}

func copyPolys(ps []*ring.Poly) (r []*ring.Poly) {
	for _, p := range ps {
		r = append(r, p.CopyNew())
	}
	return
}

// samePolys asserts that every polynomial of a still is its snapshot.
func samePolys(name string, a, snap []*ring.Poly) {
	for i := range a {
		EqPoly(name, a[i], snap[i])
	}
}

func disjointPolys(name string, a, b []*ring.Poly) { DisjointAll(name, a, b) }

// ckWorld is everything a CKKS party hands to an evaluator.
type ckWorld struct {
	p    mkckks.Parameters
	kg   *mkrlwe.KeyGenerator
	ids  []string
	sks  map[string]*mkrlwe.SecretKey
	rlk  *mkrlwe.RelinearizationKeySet
	rtk  *mkrlwe.RotationKeySet
	cks  *mkrlwe.ConjugationKeySet
	keys []*ring.Poly // all evaluation keys
}

func newCkWorld(c cfg) *ckWorld {
	w := &ckWorld{p: ckksParams(c), ids: names(2)}
	w.kg = mkrlwe.NewKeyGenerator(w.p.Parameters)
	w.sks = secrets(w.kg, w.ids)
	w.rlk = rlkSetOf(w.p, w.kg, w.sks, w.ids)
	w.rtk = rotKeys(w.p, w.kg, w.sks, w.ids, powers())
	w.cks = mkrlwe.NewConjugationKeySet()
	for _, id := range w.ids {
		w.keys = append(w.keys, w.sks[id].Value.Q, w.sks[id].Value.P)
		w.cks.AddConjugationKey(w.kg.GenConjugationKey(w.sks[id]))
		for _, s := range w.rlk.Value[id].Value {
			w.keys = append(w.keys, swkPolys(s)...)
		}
		for _, r := range []uint{1, 2, 4} {
			w.keys = append(w.keys, swkPolys(w.rtk.GetRotationKey(id, r).Value)...)
		}
		w.keys = append(w.keys, swkPolys(w.cks.GetConjugationKey(id).Value)...)
	}
	for i := -4; i <= 4; i++ {
		if s, ok := w.p.CRS[i]; ok {
			w.keys = append(w.keys, swkPolys(s)...)
		}
	}
	return w
}

// otherRlk is a second relinearisation key set with the same keys.
func (w *ckWorld) otherRlk() *ckWorld {
	v := *w
	v.rlk = mkrlwe.NewRelinearizationKeyKeySet(w.p.Parameters)
	for _, id := range w.ids {
		v.rlk.AddRelinearizationKey(w.rlk.Value[id])
	}
	return &v
}

// ckIn is one set of operands: two ciphertexts, a plaintext, and the precomputed forms.
type ckIn struct {
	a, b   *mkckks.Ciphertext
	pt     *ckks.Plaintext
	ha, hb *mkrlwe.HoistedCiphertext
	snap   []*ring.Poly
	sc     [3]float64
}

func (in *ckIn) polys() []*ring.Poly {
	r := append(ctPolys(in.a.Ciphertext), ctPolys(in.b.Ciphertext)...)
	r = append(r, in.pt.Value)
	if in.ha != nil {
		r = append(r, hoistPolys(in.ha)...)
		r = append(r, hoistPolys(in.hb)...)
	}
	return r
}

func (w *ckWorld) input(name string, ids0, ids1 []string, l0, l1 int, ntt bool) *ckIn {
	in := &ckIn{a: fillCK(name+".a", w.p, ids0, l0, w.p.Scale()), b: fillCK(name+".b", w.p, ids1, l1, w.p.Scale()*2)}
	in.pt = ckks.NewPlaintext(plainParams(w.p), w.p.QCount()-1, w.p.Scale())
	Fill(name+".pt", w.p.RingQ(), w.p.QCount()-1, in.pt.Value, ntt)
	return in
}

// hoist precomputes the forms with an evaluator of their own.
func (w *ckWorld) hoist(in *ckIn) {
	ev := mkckks.NewEvaluator(w.p)
	in.ha, in.hb = ev.HoistedForm(in.a), ev.HoistedForm(in.b)
}

func (in *ckIn) keep() {
	in.snap = copyPolys(in.polys())
	in.sc = [3]float64{in.a.Scale, in.b.Scale, in.pt.Scale}
}

// intact asserts that no operand, key or precomputed form changed.
func (in *ckIn) intact(name string, w *ckWorld, keys []*ring.Poly) {
	Assert(name+": the operands keep their components", len(in.polys()) == len(in.snap))
	if len(in.polys()) != len(in.snap) {
		return
	}
	samePolys(name+": the operands are not changed", in.polys(), in.snap)
	Assert(name+": the recorded scales are not changed", in.sc == [3]float64{in.a.Scale, in.b.Scale, in.pt.Scale})
	if keys != nil {
		samePolys(name+": the keys are not changed", w.keys, keys)
	}
}

// ckRes is the outcome of one operation.
type ckRes struct {
	ct *mkckks.Ciphertext
	hf *mkrlwe.HoistedCiphertext
}

func (r *ckRes) polys() []*ring.Poly {
	if r.hf != nil {
		return hoistPolys(r.hf)
	}
	return ctPolys(r.ct.Ciphertext)
}

const nCkOps = 14

var ckOpNames = []string{"AddNew", "SubNew", "MulRelinNew", "MulPtxtNew", "RotateNew", "RotateNew(3)", "ConjugateNew", "HoistedForm", "MulRelinHoistedNew", "RotateHoistedNew", "RescaleNew", "DropLevelNew", "MultByConst", "CopyNew"}

// do runs operation k.
func (w *ckWorld) do(ev *mkckks.Evaluator, k int, in *ckIn) *ckRes {
	r := &ckRes{}
	NoPanic(ckOpNames[k]+" is accepted", func() {
		switch k {
		case 0:
			r.ct = ev.AddNew(in.a, in.b)
		case 1:
			r.ct = ev.SubNew(in.a, in.b)
		case 2:
			r.ct = ev.MulRelinNew(in.a, in.b, w.rlk)
		case 3:
			r.ct = ev.MulPtxtNew(in.a, in.pt)
		case 4:
			r.ct = ev.RotateNew(in.a, 1, w.rtk)
		case 5:
			r.ct = ev.RotateNew(in.a, 3, w.rtk)
		case 6:
			r.ct = ev.ConjugateNew(in.a, w.cks)
		case 7:
			r.hf = ev.HoistedForm(in.a)
		case 8:
			r.ct = ev.MulRelinHoistedNew(in.a, in.b, in.ha, in.hb, w.rlk)
		case 9:
			r.ct = ev.RotateHoistedNew(in.a, 2, in.ha, w.rtk)
		case 10:
			x := &mkckks.Ciphertext{Ciphertext: in.a.Ciphertext, Scale: in.a.Scale}
			var err error
			r.ct, err = ev.RescaleNew(x, x.Scale/float64(uint64(1)<<52))
			Assert("rescaling is accepted above level zero and reported there", (err == nil) == (x.Level() > 0))
			if err != nil {
				r.ct = nil
			}
		case 11:
			d := 0
			if in.a.Level() > 0 {
				d = 1
			}
			r.ct = ev.DropLevelNew(in.a, d)
		case 12:
			r.ct = mkckks.NewCiphertext(w.p, in.a.IDSet(), in.a.Level(), 1)
			ev.MultByConst(in.a, complex(3, -2), r.ct)
		case 13:
			r.ct = in.a.CopyNew()
		}
	})
	if r.ct == nil && r.hf == nil {
		return nil
	}
	return r
}

// sameRes asserts that two outcomes are the same values at the same level and scale.
func (w *ckWorld) sameRes(name string, x, y *ckRes) {
	if (x.ct == nil) != (y.ct == nil) {
		Assert(name, false)
		return
	}
	if x.ct != nil {
		Assert(name+": same level and scale", x.ct.Level() == y.ct.Level() && x.ct.Scale == y.ct.Scale)
	}
	w.sameVals(name, x, y.polys())
}

func (w *ckWorld) sameVals(name string, x *ckRes, b []*ring.Poly) {
	a := x.polys()
	Assert(name+": same components", len(a) == len(b))
	if len(a) != len(b) {
		return
	}
	for i := range a {
		eqVals(name, w.p.Parameters, a[i], b[i], x.hf != nil && i%2 == 1)
	}
}

// eqVals: the same residues (modulo Q or P) and the same domain flags.
func eqVals(name string, p mkrlwe.Parameters, a, b *ring.Poly, inP bool) {
	r := p.RingQ()
	if inP {
		r = p.RingP()
	}
	ok := len(a.Coeffs) == len(b.Coeffs) && a.IsNTT == b.IsNTT && a.IsMForm == b.IsMForm && len(a.Coeffs) <= len(r.Modulus)
	Assert(name+": same shape", ok)
	if ok {
		Equal(name, Of(r, len(a.Coeffs)-1, a, a.IsNTT, a.IsMForm), Of(r, len(b.Coeffs)-1, b, b.IsNTT, b.IsMForm))
	}
}

// junk overwrites every word of the outcome.
func (w *ckWorld) junk(name string, r *ckRes) {
	for i, p := range r.polys() {
		rg := w.p.RingQ()
		if r.hf != nil && i%2 == 1 {
			rg = w.p.RingP()
		}
		Fill(str("%s.%d", name, i), rg, len(p.Coeffs)-1, p, p.IsNTT)
	}
}

// bvWorld is the same for BFV.
type bvWorld struct {
	p    mkbfv.Parameters
	kg   *mkbfv.KeyGenerator
	ids  []string
	sks  map[string]*mkrlwe.SecretKey
	rlk  *mkbfv.RelinearizationKeySet
	rtk  *mkrlwe.RotationKeySet
	cks  *mkrlwe.ConjugationKeySet
	keys []*ring.Poly
}

func newBvWorld(c cfg) *bvWorld {
	w := &bvWorld{p: bfvParams(c), ids: names(2)}
	w.kg = mkbfv.NewKeyGenerator(w.p)
	w.sks = secrets(w.kg.KeyGenerator, w.ids)
	w.rlk = bfvRlkSet(w.p, w.kg, w.sks, w.ids)
	w.rtk = bfvRotKeys(w.kg, w.sks, w.ids, powers())
	w.cks = mkrlwe.NewConjugationKeySet()
	for _, id := range w.ids {
		w.keys = append(w.keys, w.sks[id].Value.Q, w.sks[id].Value.P)
		w.cks.AddConjugationKey(w.kg.GenConjugationKey(w.sks[id]))
		for _, h := range w.rlk.Value[id].Value {
			for _, s := range h.Value {
				w.keys = append(w.keys, swkPolys(s)...)
			}
		}
		for _, r := range []uint{1, 2, 4} {
			w.keys = append(w.keys, swkPolys(w.rtk.GetRotationKey(id, r).Value)...)
		}
		w.keys = append(w.keys, swkPolys(w.cks.GetConjugationKey(id).Value)...)
	}
	for i := -4; i <= 4; i++ {
		if s, ok := w.p.CRS[i]; ok {
			w.keys = append(w.keys, swkPolys(s)...)
		}
	}
	return w
}

func (w *bvWorld) otherRlk() *bvWorld {
	v := *w
	v.rlk = mkbfv.NewRelinearizationKeyKeySet(w.p)
	for _, id := range w.ids {
		v.rlk.AddRelinearizationKey(w.rlk.Value[id])
	}
	return &v
}

type bvIn struct {
	a, b *mkbfv.Ciphertext
	snap []*ring.Poly
}

func (in *bvIn) polys() []*ring.Poly {
	return append(ctPolys(in.a.Ciphertext), ctPolys(in.b.Ciphertext)...)
}

func (w *bvWorld) input(name string, ids0, ids1 []string) *bvIn {
	return &bvIn{a: fillBV(name+".a", w.p, ids0), b: fillBV(name+".b", w.p, ids1)}
}

func (in *bvIn) keep() { in.snap = copyPolys(in.polys()) }

func (in *bvIn) intact(name string, w *bvWorld, keys []*ring.Poly) {
	Assert(name+": the operands keep their components", len(in.polys()) == len(in.snap))
	if len(in.polys()) != len(in.snap) {
		return
	}
	samePolys(name+": the operands are not changed", in.polys(), in.snap)
	if keys != nil {
		samePolys(name+": the keys are not changed", w.keys, keys)
	}
}

const nBvOps = 7

var bvOpNames = []string{"AddNew", "SubNew", "MulRelinNew", "RotateNew", "RotateNew(3)", "ConjugateNew", "CopyNew"}

func (w *bvWorld) do(ev *mkbfv.Evaluator, k int, in *bvIn) (r *mkbfv.Ciphertext) {
	NoPanic(bvOpNames[k]+" is accepted", func() {
		switch k {
		case 0:
			r = ev.AddNew(in.a, in.b)
		case 1:
			r = ev.SubNew(in.a, in.b)
		case 2:
			r = ev.MulRelinNew(in.a, in.b, w.rlk)
		case 3:
			r = ev.RotateNew(in.a, 1, w.rtk)
		case 4:
			r = ev.RotateNew(in.a, 3, w.rtk)
		case 5:
			r = ev.ConjugateNew(in.a, w.cks)
		case 6:
			r = in.a.CopyNew()
		}
	})
	return
}

func (w *bvWorld) sameVals(name string, x *mkbfv.Ciphertext, b []*ring.Poly) {
	a := ctPolys(x.Ciphertext)
	Assert(name+": same components", len(a) == len(b))
	if len(a) != len(b) {
		return
	}
	for i := range a {
		eqVals(name, w.p.Parameters, a[i], b[i], false)
	}
}

func (w *bvWorld) junk(name string, r *mkbfv.Ciphertext) {
	for i, p := range ctPolys(r.Ciphertext) {
		Fill(str("%s.%d", name, i), w.p.RingQ(), len(p.Coeffs)-1, p, p.IsNTT)
	}
}
