package h

import (
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/rlwe"

	. "vharness/vsym"
)

// ops collects operations that are to run at the same time.
type ops struct {
	labels []string
	fs     []func()
}

func (o *ops) add(label string, f func()) {
	o.labels = append(o.labels, label)
	o.fs = append(o.fs, f)
}

// C25_CKKS: evaluators, encryptors, decryptors and key generators of their own, made from the same
// parameters, work on the same ciphertexts, plaintexts, precomputed forms and keys at the same time.
// (Relinearisation key sets own scratch memory, so every evaluator has its own set of the same keys.)
func C25_CKKS() {
	c := pick("cfg", cfg{3, 2}, cfg{4, 4})
	w := newCkWorld(c)
	pat := idPatterns[opt("parties", len(idPatterns))]
	lv := [][2]int{{c.nQ - 1, c.nQ - 1}, {c.nQ - 1, 1}, {0, c.nQ - 1}}[opt("levels", 3)]
	in := w.input("in", pat[0], pat[1], lv[0], lv[1], lv[0] == lv[1])
	w.hoist(in)
	pk := w.kg.GenPublicKey(w.sks["alice"])
	set := skSet(w.sks, w.ids)
	msg := mkckks.NewMessage(w.p)
	CMsg("msg", msg.Value)
	o := &ops{}
	for i := 0; i < 2*nCkOps; i++ {
		k := i % nCkOps
		v, ev := w.otherRlk(), mkckks.NewEvaluator(w.p)
		o.add(ckOpNames[k], func() { v.run(ev, k, in) })
	}
	for i := 0; i < 2; i++ {
		enc, dec, kg := mkckks.NewEncryptor(w.p), mkckks.NewDecryptor(w.p), mkrlwe.NewKeyGenerator(w.p.Parameters)
		o.add("encryption", func() { enc.EncryptMsgNew(msg, pk) })
		o.add("decryption", func() { dec.Decrypt(in.a, set) })
		o.add("key generation", func() {
			s := kg.GenSecretKey("carol")
			kg.GenPublicKey(s)
			kg.GenRelinearizationKey(w.sks["alice"], s)
			kg.GenRotationKey(2, w.sks["bob"])
			kg.GenConjugationKey(w.sks["alice"])
		})
		o.add("a new evaluator", func() { mkckks.NewEvaluator(w.p).AddNew(in.a, in.b) })
		o.add("a new encryptor", func() { mkckks.NewEncryptor(w.p) })
		o.add("a new decryptor", func() { mkckks.NewDecryptor(w.p) })
		o.add("a new key generator", func() { mkrlwe.NewKeyGenerator(w.p.Parameters) })
		o.add("copies", func() { in.a.CopyNew(); w.sks["alice"].CopyNew(); pk.CopyNew(); in.b.IDSet() })
	}
	Concurrent("independent objects", o.labels, o.fs)
}

// run is do without assertions.
func (w *ckWorld) run(ev *mkckks.Evaluator, k int, in *ckIn) {
	switch k {
	case 0:
		ev.AddNew(in.a, in.b)
	case 1:
		ev.SubNew(in.a, in.b)
	case 2:
		ev.MulRelinNew(in.a, in.b, w.rlk)
	case 3:
		ev.MulPtxtNew(in.a, in.pt)
	case 4:
		ev.RotateNew(in.a, 1, w.rtk)
	case 5:
		ev.RotateNew(in.a, 3, w.rtk)
	case 6:
		ev.ConjugateNew(in.a, w.cks)
	case 7:
		ev.HoistedForm(in.a)
	case 8:
		ev.MulRelinHoistedNew(in.a, in.b, in.ha, in.hb, w.rlk)
	case 9:
		ev.RotateHoistedNew(in.a, 2, in.ha, w.rtk)
	case 10:
		ev.RescaleNew(in.a, in.a.Scale/float64(uint64(1)<<52))
	case 11:
		ev.DropLevelNew(in.a, 0)
	case 12:
		out := mkckks.NewCiphertext(w.p, in.a.IDSet(), in.a.Level(), 1)
		ev.MultByConst(in.a, complex(3, -2), out)
	case 13:
		in.a.CopyNew()
	}
}

// C25_BFV: the same for BFV.
func C25_BFV() {
	c := pick("cfg", cfg{2, 2}, cfg{4, 4})
	w := newBvWorld(c)
	pat := idPatterns[opt("parties", len(idPatterns))]
	in := w.input("in", pat[0], pat[1])
	pk := w.kg.GenPublicKey(w.sks["alice"])
	set := skSet(w.sks, w.ids)
	msg := mkbfv.NewMessage(w.p)
	IMsg("msg", msg.Value, w.p.T())
	o := &ops{}
	for i := 0; i < 2*nBvOps; i++ {
		k := i % nBvOps
		v, ev := w.otherRlk(), mkbfv.NewEvaluator(w.p)
		o.add(bvOpNames[k], func() { v.run(ev, k, in) })
	}
	for i := 0; i < 2; i++ {
		enc, dec, kg := mkbfv.NewEncryptor(w.p), mkbfv.NewDecryptor(w.p), mkbfv.NewKeyGenerator(w.p)
		o.add("encryption", func() { enc.EncryptMsgNew(msg, pk) })
		o.add("decryption", func() { dec.Decrypt(in.a, set) })
		o.add("key generation", func() {
			s := kg.GenSecretKey("carol")
			kg.GenPublicKey(s)
			kg.GenRelinearizationKey(w.sks["alice"], s)
			kg.GenRotationKey(2, w.sks["bob"])
			kg.GenConjugationKey(w.sks["alice"])
		})
		o.add("a new evaluator", func() { mkbfv.NewEvaluator(w.p).AddNew(in.a, in.b) })
		o.add("a new encryptor", func() { mkbfv.NewEncryptor(w.p) })
		o.add("a new decryptor", func() { mkbfv.NewDecryptor(w.p) })
		o.add("a new key generator", func() { mkbfv.NewKeyGenerator(w.p) })
		o.add("copies", func() { in.a.CopyNew(); in.b.IDSet() })
	}
	Concurrent("independent objects", o.labels, o.fs)
}

func (w *bvWorld) run(ev *mkbfv.Evaluator, k int, in *bvIn) {
	switch k {
	case 0:
		ev.AddNew(in.a, in.b)
	case 1:
		ev.SubNew(in.a, in.b)
	case 2:
		ev.MulRelinNew(in.a, in.b, w.rlk)
	case 3:
		ev.RotateNew(in.a, 1, w.rtk)
	case 4:
		ev.RotateNew(in.a, 3, w.rtk)
	case 5:
		ev.ConjugateNew(in.a, w.cks)
	case 6:
		in.a.CopyNew()
	}
}

// C25_RLWE: key switchers, basis extenders (also shallow copies), encryptors and decryptors of the
// generic layer.
func C25_RLWE() {
	c := pick("cfg", cfg{3, 2}, cfg{4, 4}, cfg{4, 5})
	p := rlweParams(c)
	lvl := opt("level", c.nQ)
	kg := mkrlwe.NewKeyGenerator(p)
	sks := secrets(kg, names(2))
	pk := kg.GenPublicKey(sks["alice"])
	set := skSet(sks, names(2))
	bg := fillSwk("bg", p)
	rQ, rP := p.RingQ(), p.RingP()
	a, x := rQ.NewPoly(), rP.NewPoly()
	FillLoose("a", rQ, lvl, a, false)
	Fill("x", rP, c.nP-1, x, false)
	ct := fillCt("ct", p, names(2), lvl)
	pt := rlwe.NewPlaintext(p.Parameters, lvl)
	Fill("pt", rQ, lvl, pt.Value, false)
	dg := mkrlwe.NewSwitchingKey(p)
	mkrlwe.NewKeySwitcher(p).Decompose(lvl, a, dg)
	be := mkrlwe.NewFastBasisExtender(rQ, rP)
	ext := []*mkrlwe.FastBasisExtender{be, be.ShallowCopy(), be.ShallowCopy().ShallowCopy()}
	o := &ops{}
	for i := 0; i < 3; i++ {
		ks, enc, dec, b := mkrlwe.NewKeySwitcher(p), mkrlwe.NewEncryptor(p), mkrlwe.NewDecryptor(p), ext[i]
		o.add("external product", func() { ks.ExternalProduct(lvl, a, bg, rQ.NewPoly()) })
		ks2 := mkrlwe.NewKeySwitcher(p)
		o.add("hoisted external product", func() {
			ks2.ExternalProductHoisted(lvl, dg, bg, rQ.NewPoly())
			ks2.Decompose(lvl, a, mkrlwe.NewSwitchingKey(p))
		})
		o.add("basis extension", func() {
			y, z := rP.NewPoly(), rQ.NewPoly()
			b.ModUpQtoP(lvl, c.nP-1, a, y)
			b.ModUpPtoQ(c.nP-1, lvl, x, z)
			b.ModDownQPtoQ(lvl, c.nP-1, a, x, z)
			b.ModDownQPtoQNTT(lvl, c.nP-1, a.CopyNew(), x.CopyNew(), z)
			b.ModDownQPtoP(lvl, c.nP-1, a, x, y)
		})
		o.add("encryption", func() { enc.Encrypt(pt, pk, mkrlwe.NewCiphertext(p, idset([]string{"alice"}), lvl)) })
		o.add("decryption", func() { dec.Decrypt(ct, set, rlwe.NewPlaintext(p.Parameters, lvl)) })
	}
	Concurrent("independent objects", o.labels, o.fs)
}
