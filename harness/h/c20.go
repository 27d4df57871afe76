package h

import (
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"

	. "vharness/vsym"
)

// C20_CKKS: an evaluator and key set that did other work give what fresh ones give.
func C20_CKKS() {
	c := pick("cfg", cfg{3, 2})
	if Thorough() {
		c = pick("cfg2", cfg{3, 2}, cfg{4, 4})
	}
	h, k := opt("before", nCkOps), opt("operation", nCkOps)
	lv := [][3]int{{c.nQ - 1, c.nQ - 1, 0}, {0, c.nQ - 1, c.nQ - 1}, {1, c.nQ - 1, 1}}[opt("levels", 3)] // before, a, b
	w := newCkWorld(c)
	in0 := w.input("before", []string{"alice", "bob"}, []string{"bob"}, lv[0], lv[0], true)
	in0.a.Scale, in0.b.Scale = 1<<60, 1<<40
	in := w.input("in", []string{"alice"}, []string{"bob", "alice"}, lv[1], lv[2], false)
	w.hoist(in0)
	w.hoist(in)
	used := mkckks.NewEvaluator(w.p)
	w.do(used, h, in0)
	if Thorough() {
		w.do(used, []int{2, 3, 5, 8, 10}[opt("before2", 5)], in0)
	}
	x := w.do(used, k, in)
	v := w.otherRlk()
	y := v.do(mkckks.NewEvaluator(w.p), k, in)
	if x == nil || y == nil {
		Assert("both are accepted or both are refused", x == nil && y == nil)
		return
	}
	w.sameRes("the result is that of a fresh evaluator", x, y)
}

// C20_CKKSKeys: a relinearisation key set whose members were removed and added again gives what a fresh one gives.
func C20_CKKSKeys() {
	c := pick("cfg", cfg{3, 2}, cfg{4, 4})
	k := []int{2, 8}[opt("operation", 2)]
	what := opt("history", 4)
	ids := idPatterns[opt("parties", len(idPatterns))]
	w := newCkWorld(c)
	in0 := w.input("before", []string{"alice", "bob"}, []string{"bob"}, c.nQ-1, c.nQ-1, true)
	in := w.input("in", ids[0], ids[1], c.nQ-1, c.nQ-2, false)
	w.hoist(in)
	ev := mkckks.NewEvaluator(w.p)
	w.hoist(in0)
	if what != 3 {
		w.do(ev, 2, in0)
	}
	key := w.rlk.Value["alice"]
	switch what {
	case 0:
		w.rlk.DelRelinearizationKey("alice")
		Refuses("a removed key is refused", func() { ev.MulRelinNew(in0.a, in0.b, w.rlk) })
		w.rlk.AddRelinearizationKey(key)
	case 1: // replaced by another key and back
		w.rlk.AddRelinearizationKey(w.kg.GenRelinearizationKey(w.sks["alice"], w.kg.GenSecretKey("alice")))
		w.do(ev, 2, in0)
		w.rlk.AddRelinearizationKey(key)
	case 2: // another party comes and goes
		s := w.kg.GenSecretKey("carol")
		w.rlk.AddRelinearizationKey(w.kg.GenRelinearizationKey(s, w.kg.GenSecretKey("carol")))
		o := w.input("o", []string{"carol"}, []string{"alice", "carol"}, c.nQ-1, 0, false)
		w.do(ev, 2, o)
		w.rlk.DelRelinearizationKey("carol")
	}
	x := w.do(ev, k, in)
	y := w.otherRlk().do(mkckks.NewEvaluator(w.p), k, in)
	if x == nil || y == nil {
		return
	}
	w.sameRes("the result is that of a fresh key set", x, y)
}

// C20_BFV: as C20_CKKS for BFV.
func C20_BFV() {
	c := cfg{2, 2}
	if Thorough() {
		c = pick("cfg", cfg{2, 2}, cfg{4, 4})
	}
	h, k := opt("before", nBvOps), opt("operation", nBvOps)
	pat := opt("parties", len(idPatterns))
	w := newBvWorld(c)
	in0 := w.input("before", []string{"alice", "bob"}, []string{"bob", "alice"})
	in := w.input("in", idPatterns[pat][0], idPatterns[pat][1])
	used := mkbfv.NewEvaluator(w.p)
	w.do(used, h, in0)
	if Thorough() {
		w.do(used, 2+opt("before2", 4), in0)
	}
	if k <= 2 && opt("same-operand", 2) == 1 {
		in.b = in.a
	}
	x := w.do(used, k, in)
	y := w.otherRlk().do(mkbfv.NewEvaluator(w.p), k, in)
	if x == nil || y == nil {
		return
	}
	w.sameVals("the result is that of a fresh evaluator", x, ctPolys(y.Ciphertext))
}

// C20_BFVKeys: as C20_CKKSKeys for BFV.
func C20_BFVKeys() {
	c := pick("cfg", cfg{2, 2}, cfg{4, 4})
	what := opt("history", 4)
	ids := idPatterns[opt("parties", len(idPatterns))]
	w := newBvWorld(c)
	in0 := w.input("before", []string{"alice", "bob"}, []string{"bob"})
	in := w.input("in", ids[0], ids[1])
	ev := mkbfv.NewEvaluator(w.p)
	if what != 3 {
		w.do(ev, 2, in0)
	}
	key := w.rlk.Value["alice"]
	switch what {
	case 0:
		w.rlk.DelRelinearizationKey("alice")
		Refuses("a removed key is refused", func() { ev.MulRelinNew(in0.a, in0.b, w.rlk) })
		w.rlk.AddRelinearizationKey(key)
	case 1:
		w.rlk.AddRelinearizationKey(w.kg.GenRelinearizationKey(w.sks["alice"], w.kg.GenSecretKey("alice")))
		w.do(ev, 2, in0)
		w.rlk.AddRelinearizationKey(key)
	case 2:
		s := w.kg.GenSecretKey("carol")
		w.rlk.AddRelinearizationKey(w.kg.GenRelinearizationKey(s, w.kg.GenSecretKey("carol")))
		o := w.input("o", []string{"carol"}, []string{"alice", "carol"})
		w.do(ev, 2, o)
		w.rlk.DelRelinearizationKey("carol")
	}
	x := w.do(ev, 2, in)
	y := w.otherRlk().do(mkbfv.NewEvaluator(w.p), 2, in)
	if x == nil || y == nil {
		return
	}
	w.sameVals("the result is that of a fresh key set", x, ctPolys(y.Ciphertext))
}

// C20_Crypt: encryptors and decryptors that processed other levels, domains and parties still are correct.
func C20_Crypt() {
	c := pick("cfg", cfg{3, 2}, cfg{4, 4})
	p := rlweParams(c)
	kg := mkrlwe.NewKeyGenerator(p)
	sks := secrets(kg, names(2))
	pks := map[string]*mkrlwe.PublicKey{}
	for _, id := range names(2) {
		pks[id] = kg.GenPublicKey(sks[id])
	}
	set := skSet(sks, names(2))
	enc, dec := mkrlwe.NewEncryptor(p), mkrlwe.NewDecryptor(p)
	run := func(name, id string, lvl int, ptNTT, ctNTT, outNTT, check bool) {
		pt := plain(name, p, lvl, ptNTT)
		m := Of(p.RingQ(), lvl, pt.Value, ptNTT, false)
		ct := mkrlwe.NewCiphertext(p, idset([]string{id}), lvl)
		if ctNTT {
			ct = mkrlwe.NewCiphertextNTT(p, idset([]string{id}), lvl)
		}
		if !NoPanic("encryption is accepted", func() { enc.Encrypt(pt, pks[id], ct) }) {
			return
		}
		if check {
			Assert("domain is the requested one", ct.Value["0"].IsNTT == ctNTT && ct.Value[id].IsNTT == ctNTT)
			ph := Add(Of(p.RingQ(), lvl, ct.Value["0"], ctNTT, false), Mul(Of(p.RingQ(), lvl, ct.Value[id], ctNTT, false), skE(p, sks[id], lvl)))
			Near("the ciphertext decrypts to the plaintext", ph, nil, m, encNoise())
		}
		out := rlwe.NewPlaintext(p.Parameters, lvl)
		out.Value.IsNTT = outNTT
		if !NoPanic("decryption is accepted", func() { dec.Decrypt(ct, set, out) }) {
			return
		}
		if check {
			Assert("output domain is the requested one", out.Value.IsNTT == outNTT)
			Near("decryption returns the plaintext", Of(p.RingQ(), lvl, out.Value, out.Value.IsNTT, false), nil, m, encNoise())
		}
	}
	hb, b := opt("before", 8), opt("now", 8)
	hl := []int{0, c.nQ - 1}[opt("level-before", 2)]
	l := []int{0, 1, c.nQ - 1}[opt("level", 3)]
	run("before", "alice", hl, hb&1 == 1, hb&2 == 2, hb&4 == 4, false)
	run("now", names(2)[opt("party", 2)], l, b&1 == 1, b&2 == 2, b&4 == 4, true)
}

// C20_Schemes: the same through messages, for both schemes.
func C20_Schemes() {
	MapOrder(opt("order", 2))
	if opt("scheme", 2) == 0 {
		c := pick("cfg", cfg{3, 2}, cfg{4, 4})
		p := ckksParams(c)
		kg := mkckks.NewKeyGenerator(p)
		sks := secrets(kg, names(2))
		set := skSet(sks, names(2))
		enc, dec := mkckks.NewEncryptor(p), mkckks.NewDecryptor(p)
		lv := []int{0, 1, c.nQ - 1}
		var msgs [3]*mkckks.Message
		var outs [3]*mkckks.Message
		for i := range msgs {
			msgs[i] = mkckks.NewMessage(p)
			CMsg(str("msg%d", i), msgs[i].Value)
			id := names(2)[opt(str("party%d", i), 2)]
			ct := mkckks.NewCiphertext(p, idset([]string{id}), lv[opt(str("level%d", i), 3)], 1)
			pk := kg.GenPublicKey(sks[id])
			if !NoPanic("encryption is accepted", func() { enc.EncryptMsg(msgs[i], pk, ct) }) {
				return
			}
			if !NoPanic("decryption is accepted", func() { outs[i] = dec.Decrypt(ct, set) }) {
				return
			}
		}
		for i := range msgs {
			CDecodes("each decryption returns its message", outs[i].Value, msgs[i].Value, lg(p.Scale()), encNoise())
		}
		return
	}
	c := pick("cfg", cfg{2, 2}, cfg{4, 4})
	p := bfvParams(c)
	kg := mkbfv.NewKeyGenerator(p)
	sks := secrets(kg.KeyGenerator, names(2))
	set := skSet(sks, names(2))
	enc, dec := mkbfv.NewEncryptor(p), mkbfv.NewDecryptor(p)
	var msgs [3]*mkbfv.Message
	var outs [3]*mkbfv.Message
	for i := range msgs {
		msgs[i] = mkbfv.NewMessage(p)
		IMsg(str("msg%d", i), msgs[i].Value, p.T())
		id := names(2)[opt(str("party%d", i), 2)]
		ct := mkbfv.NewCiphertext(p, idset([]string{id}))
		pk := kg.GenPublicKey(sks[id])
		if !NoPanic("encryption is accepted", func() { enc.EncryptMsg(msgs[i], pk, ct) }) {
			return
		}
		if !NoPanic("decryption is accepted", func() { outs[i] = dec.Decrypt(ct, set) }) {
			return
		}
	}
	for i := range msgs {
		IDecodes("each decryption returns its message", outs[i].Value, msgs[i].Value, p.T())
	}
}

// C20_Keys: keys made after other keys satisfy their equations with noise of their own.
func C20_Keys() {
	c := pick("cfg", cfg{3, 2}, cfg{4, 4})
	h1, h2, k := opt("before", 5), opt("before2", 5), opt("now", 5)
	bfv := opt("scheme", 2) == 1
	var p mkrlwe.Parameters
	var kg *mkrlwe.KeyGenerator
	var bk *mkbfv.KeyGenerator
	var bp mkbfv.Parameters
	if bfv {
		bp = bfvParams(c)
		bk = mkbfv.NewKeyGenerator(bp)
		p, kg = bp.Parameters, bk.KeyGenerator
	} else {
		p = rlweParams(c)
		kg = mkrlwe.NewKeyGenerator(p)
	}
	make1 := func(k int, id string, check bool) {
		NoPanic("key generation is accepted", func() {
			sk := kg.GenSecretKey(id)
			if check {
				checkSK("secret key", p, sk, id, 1)
			}
			switch k {
			case 0:
				pk := kg.GenPublicKey(sk)
				if check {
					checkPK("public key", p, pk, sk, id)
				}
			case 1:
				r := kg.GenSecretKey(id)
				if bfv {
					rlk := bk.GenRelinearizationKey(sk, r)
					if check {
						for h := 0; h < 2; h++ {
							h := h
							v := rlk.Value[h].Value
							if h == 1 {
								v[2] = nil
							}
							checkNoise(str("half %d", h), rlkNoise(p, v, sk, r, []int{0, -3}[h], -1, func(i int) []uint64 { return bfvGadget(bp, h, i) }))
						}
					}
				} else {
					rlk := kg.GenRelinearizationKey(sk, r)
					if check {
						checkNoise("relinearisation key", rlkNoise(p, rlk.Value, sk, r, 0, -1, func(i int) []uint64 { return gadgetRes(p, i) }))
					}
				}
			case 2:
				rk := kg.GenRotationKey(2, sk)
				if check {
					checkRK("rotation key", p, rk, sk, 2)
				}
			case 3:
				ck := kg.GenConjugationKey(sk)
				if check {
					checkCK("conjugation key", p, ck, sk)
				}
			case 4:
				g := kg.GenSecretKeyGaussian(id)
				s := kg.GenSecretKeySparse(4, id)
				if check {
					checkSK("gaussian secret key", p, g, id, sigma6)
					checkSK("sparse secret key", p, s, id, 1)
				}
			}
		})
	}
	make1(h1, "alice", false)
	make1(h2, "bob", false)
	make1(k, "carol", true)
}

const nKsOps, nBksOps = 9, 7

// ksDo applies an operation of a key switcher at a level to operands a (two parties) and b, into fresh receivers.
func (w *ckWorld) ksDo(ks *mkrlwe.KeySwitcher, k, lvl int, a, b *mkrlwe.Ciphertext, vec *mkrlwe.SwitchingKey) (q, inP []*ring.Poly) {
	p := w.p.Parameters
	dg := func(x *ring.Poly) *mkrlwe.SwitchingKey {
		d := mkrlwe.NewSwitchingKey(p)
		ks.Decompose(lvl, x, d)
		return d
	}
	forms := func(ct *mkrlwe.Ciphertext) *mkrlwe.HoistedCiphertext {
		h := mkrlwe.NewHoistedCiphertext()
		for _, id := range sortedIDs(ct) {
			if id != "0" {
				h.Value[id] = dg(ct.Value[id])
			}
		}
		return h
	}
	NoPanic("the operation is accepted", func() {
		var out *mkrlwe.Ciphertext
		both := mkrlwe.NewCiphertext(p, a.IDSet().Union(b.IDSet()), lvl)
		one := mkrlwe.NewCiphertext(p, a.IDSet(), lvl)
		switch k {
		case 0:
			d := dg(a.Value["0"])
			for i := 0; i < nDigits(p, lvl); i++ {
				q = append(q, &ring.Poly{Coeffs: d.Value[i].Q.Coeffs[:lvl+1], IsNTT: true})
				inP = append(inP, d.Value[i].P)
			}
		case 1:
			q = []*ring.Poly{ring.NewPoly(n, lvl+1)}
			ks.ExternalProduct(lvl, a.Value["0"], vec, q[0])
		case 2:
			x := p.RingQ().NewPoly()
			p.RingQ().NTTLvl(lvl, a.Value["0"], x)
			x.IsNTT = true
			q = []*ring.Poly{ring.NewPoly(n, lvl+1)}
			ks.ExternalProduct(lvl, x, vec, q[0])
		case 3:
			out = both
			ks.MulAndRelin(a, b, w.rlk, out)
		case 4:
			out = both
			ks.MulAndRelinHoisted(a, b, nil, nil, w.rlk, out)
		case 5:
			out = both
			ks.MulAndRelinHoisted(a, b, forms(a), forms(b), w.rlk, out)
		case 6:
			out = one
			ks.Rotate(a, 2, w.rtk, out)
		case 7:
			out = one
			ks.RotateHoisted(a, 2, forms(a), w.rtk, out)
		case 8:
			out = one
			ks.Conjugate(a, w.cks, out)
		}
		if out != nil {
			q = ctPolys(out)
		}
	})
	return
}

// C20_Switchers: a key switcher that did other work gives what a fresh one gives.
func C20_Switchers() {
	c := cfg{3, 2}
	if Thorough() {
		c = pick("cfg", cfg{3, 2}, cfg{4, 4})
	}
	h, k := opt("before", nKsOps), opt("operation", nKsOps)
	lv := [][2]int{{c.nQ - 1, c.nQ - 1}, {0, c.nQ - 1}, {c.nQ - 1, 1}}[opt("levels", 3)]
	MapOrder(opt("order", 2))
	w := newCkWorld(c)
	p := w.p.Parameters
	vec := fillSwk("vector", p)
	a, b := fillCt("a", p, names(2), lv[1]), fillCt("b", p, []string{"bob"}, lv[1])
	ks := mkrlwe.NewKeySwitcher(p)
	w.ksDo(ks, h, lv[0], fillCt("a0", p, []string{"bob"}, lv[0]), fillCt("b0", p, names(2), lv[0]), vec)
	if Thorough() {
		w.ksDo(ks, []int{0, 3, 5, 6}[opt("before2", 4)], lv[1], fillCt("a1", p, names(2), lv[1]), fillCt("b1", p, names(2), lv[1]), vec)
	}
	q, inP := w.ksDo(ks, k, lv[1], a, b, vec)
	v := w.otherRlk()
	q2, inP2 := v.ksDo(mkrlwe.NewKeySwitcher(p), k, lv[1], a, b, vec)
	sameLists("the result is that of a fresh key switcher", p, q, q2, inP, inP2)
}

func sameLists(name string, p mkrlwe.Parameters, q, q2, inP, inP2 []*ring.Poly) {
	ok := len(q) == len(q2) && len(inP) == len(inP2)
	Assert(name+": same components", ok)
	if !ok {
		return
	}
	for i := range q {
		eqVals(name, p, q[i], q2[i], false)
	}
	for i := range inP {
		eqVals(name, p, inP[i], inP2[i], true)
	}
}

// ksDo for BFV: a and b over Q; the products take them lifted to R.
func (w *bvWorld) ksDo(ks *mkbfv.KeySwitcher, k int, a, b, x, z *mkrlwe.Ciphertext, v1, v2 *mkrlwe.SwitchingKey) (q, inP []*ring.Poly) {
	p := w.p.Parameters
	lvl := p.QCount() - 1
	dg := func(x *ring.Poly) (d1, d2 *mkrlwe.SwitchingKey) {
		d1, d2 = mkrlwe.NewSwitchingKey(p), mkrlwe.NewSwitchingKey(p)
		ks.DecomposeBFV(lvl, x, d1, d2)
		return
	}
	forms := func(ct *mkrlwe.Ciphertext) (h1, h2 *mkrlwe.HoistedCiphertext) {
		h1, h2 = mkrlwe.NewHoistedCiphertext(), mkrlwe.NewHoistedCiphertext()
		for _, id := range sortedIDs(ct) {
			if id != "0" {
				h1.Value[id], h2.Value[id] = dg(ct.Value[id])
			}
		}
		return
	}
	NoPanic("the operation is accepted", func() {
		var out *mkrlwe.Ciphertext
		both := mkrlwe.NewCiphertext(p, a.IDSet().Union(b.IDSet()), lvl)
		one := mkrlwe.NewCiphertext(p, a.IDSet(), lvl)
		switch k {
		case 0:
			d1, d2 := dg(x.Value["0"])
			for i := 0; i < nDigits(p, lvl); i++ {
				q = append(q, d1.Value[i].Q, d2.Value[i].Q)
				inP = append(inP, d1.Value[i].P, d2.Value[i].P)
			}
		case 1:
			q = []*ring.Poly{ring.NewPoly(n, lvl+1)}
			ks.ExternalProductBFV(lvl, x.Value["0"], v1, v2, q[0])
		case 2:
			out = both
			ks.MulAndRelinBFV(x, z, w.rlk, out)
		case 3:
			out = both
			ks.MulAndRelinBFVHoisted(x, z, nil, nil, nil, nil, w.rlk, out)
		case 4:
			h1, h2 := forms(x)
			g1, g2 := forms(z)
			out = both
			ks.MulAndRelinBFVHoisted(x, z, h1, h2, g1, g2, w.rlk, out)
		case 5:
			out = one
			ks.Rotate(a, 2, w.rtk, out)
		case 6:
			out = one
			ks.Conjugate(a, w.cks, out)
		}
		if out != nil {
			q = ctPolys(out)
		}
	})
	return
}

// C20_BFVSwitchers: the same for BFV key switchers.
func C20_BFVSwitchers() {
	c := cfg{2, 2}
	if Thorough() {
		c = pick("cfg", cfg{2, 2}, cfg{4, 4})
	}
	h, k := opt("before", nBksOps), opt("operation", nBksOps)
	MapOrder(opt("order", 2))
	w := newBvWorld(c)
	p := w.p.Parameters
	lvl := c.nQ - 1
	v1, v2 := fillSwk("vector1", p), fillSwk("vector2", p)
	a, b := fillCt("a", p, names(2), lvl), fillCt("b", p, []string{"bob"}, lvl)
	x, z := bfvOperands(w.p, a, b)
	ks := mkbfv.NewKeySwitcher(w.p)
	hist := func(name string, h int, ids0, ids1 []string) {
		a0, b0 := fillCt(name+".a", p, ids0, lvl), fillCt(name+".b", p, ids1, lvl)
		x0, z0 := bfvOperands(w.p, a0, b0)
		w.ksDo(ks, h, a0, b0, x0, z0, v2, v1)
	}
	hist("before", h, []string{"bob"}, names(2))
	if Thorough() {
		hist("before2", []int{0, 2, 4, 5}[opt("before2", 4)], names(2), names(2))
	}
	q, inP := w.ksDo(ks, k, a, b, x, z, v1, v2)
	v := w.otherRlk()
	q2, inP2 := v.ksDo(mkbfv.NewKeySwitcher(w.p), k, a, b, x, z, v1, v2)
	sameLists("the result is that of a fresh key switcher", p, q, q2, inP, inP2)
}

// fresh is a deep copy of the operands.
func (in *ckIn) fresh() *ckIn {
	pt := *in.pt
	lit := *in.pt.Plaintext
	lit.Value = in.pt.Value.CopyNew()
	pt.Plaintext = &lit
	c := &ckIn{a: in.a.CopyNew(), b: in.b.CopyNew(), pt: &pt}
	if in.ha != nil {
		c.ha, c.hb = mkrlwe.NewHoistedCiphertext(), mkrlwe.NewHoistedCiphertext()
		c.ha.Value, c.hb.Value = copyHoisted(in.ha, sortedIDs(in.a.Ciphertext)[1:]), copyHoisted(in.hb, sortedIDs(in.b.Ciphertext)[1:])
	}
	return c
}

// C20_InPlace: an evaluator that saw an operand, whose contents are then changed in place, uses the new contents.
func C20_InPlace() {
	c := cfg{3, 2}
	if Thorough() {
		c = pick("cfg", cfg{3, 2}, cfg{4, 4})
	}
	k := opt("operation", nCkOps)
	h := []int{k, 2, 3, 5, 6, 8, 9}[opt("before", 7)]
	change := opt("change", 9)
	w := newCkWorld(c)
	l := c.nQ - 1
	in := w.input("in", []string{"alice", "bob"}, []string{"bob"}, l, l, true)
	w.hoist(in)
	ev := mkckks.NewEvaluator(w.p)
	w.do(ev, h, in)
	NoPanic("the changes are accepted", func() {
		switch change {
		case 0:
			in.a.Ciphertext.Copy(fillCK("a2", w.p, names(2), l, 1).Ciphertext)
		case 1:
			ev.DropLevel(in.a, 1)
		case 2:
			Assert("rescaling in place is accepted", ev.Rescale(in.a, in.a.Scale/float64(uint64(1)<<52), in.a) == nil)
		case 3:
			in.a.Ciphertext.Value = fillCK("a2", w.p, names(2), l, 1).Value
		case 4:
			in.b.Ciphertext.Copy(fillCK("b2", w.p, []string{"bob"}, l, 1).Ciphertext)
			Fill("pt2", w.p.RingQ(), l, in.pt.Value, true)
		case 5:
			o := w.input("o", []string{"alice", "bob"}, []string{"bob"}, l, l, true)
			w.hoist(o)
			in.ha.Value, in.hb.Value = o.ha.Value, o.hb.Value
		case 6:
			in.a.Scale, in.b.Scale, in.pt.Scale = 1<<30, 1<<57, 1<<20
		case 7: // keys whose contents are replaced
			r := w.kg.GenRelinearizationKey(w.sks["alice"], w.kg.GenSecretKey("alice"))
			w.rlk.Value["alice"].Value = r.Value
			w.rtk.GetRotationKey("bob", 2).Value = w.kg.GenRotationKey(2, w.sks["bob"]).Value
			w.cks.GetConjugationKey("alice").Value = w.kg.GenConjugationKey(w.sks["alice"]).Value
		case 8: // keys replaced by others in the sets
			w.rlk.AddRelinearizationKey(w.kg.GenRelinearizationKey(w.sks["bob"], w.kg.GenSecretKey("bob")))
			w.rtk.AddRotationKey(w.kg.GenRotationKey(1, w.sks["alice"]))
			w.cks.AddConjugationKey(w.kg.GenConjugationKey(w.sks["bob"]))
		}
	})
	x := w.do(ev, k, in)
	y := w.otherRlk().do(mkckks.NewEvaluator(w.p), k, in.fresh())
	if x == nil || y == nil {
		Assert("both are accepted or both are refused", x == nil && y == nil)
		return
	}
	w.sameRes("the result is that of a fresh evaluator", x, y)
}

// C20_BFVInPlace: the same for BFV.
func C20_BFVInPlace() {
	c := cfg{2, 2}
	if Thorough() {
		c = pick("cfg", cfg{2, 2}, cfg{4, 4})
	}
	h, k := opt("before", nBvOps), opt("operation", nBvOps)
	change := opt("change", 5)
	w := newBvWorld(c)
	in := w.input("in", []string{"alice", "bob"}, []string{"bob"})
	ev := mkbfv.NewEvaluator(w.p)
	w.do(ev, h, in)
	NoPanic("the changes are accepted", func() {
		switch change {
		case 0:
			in.a.Ciphertext.Copy(fillBV("a2", w.p, names(2)).Ciphertext)
		case 1:
			in.a.Ciphertext.Value = fillBV("a2", w.p, names(2)).Value
		case 2:
			in.b.Ciphertext.Copy(fillBV("b2", w.p, []string{"bob"}).Ciphertext)
		case 3:
			r := w.kg.GenRelinearizationKey(w.sks["alice"], w.kg.GenSecretKey("alice"))
			w.rlk.Value["alice"].Value = r.Value
			w.rtk.GetRotationKey("bob", 2).Value = w.kg.GenRotationKey(2, w.sks["bob"]).Value
			w.cks.GetConjugationKey("alice").Value = w.kg.GenConjugationKey(w.sks["alice"]).Value
		case 4:
			w.rlk.AddRelinearizationKey(w.kg.GenRelinearizationKey(w.sks["bob"], w.kg.GenSecretKey("bob")))
			w.rtk.AddRotationKey(w.kg.GenRotationKey(1, w.sks["alice"]))
			w.cks.AddConjugationKey(w.kg.GenConjugationKey(w.sks["bob"]))
		}
	})
	x := w.do(ev, k, in)
	y := w.otherRlk().do(mkbfv.NewEvaluator(w.p), k, &bvIn{a: in.a.CopyNew(), b: in.b.CopyNew()})
	if x == nil || y == nil {
		Assert("both are accepted or both are refused", x == nil && y == nil)
		return
	}
	w.sameVals("the result is that of a fresh evaluator", x, ctPolys(y.Ciphertext))
}

// C20_Reuse: one message, plaintext, receiver or secret key refilled in place and used again.
func C20_Reuse() {
	if opt("scheme", 2) == 0 {
		c := pick("cfg", cfg{3, 2}, cfg{4, 4})
		p := ckksParams(c)
		kg := mkckks.NewKeyGenerator(p)
		sks := secrets(kg, names(2))
		set := skSet(sks, names(2))
		enc, dec := mkckks.NewEncryptor(p), mkckks.NewDecryptor(p)
		msg := mkckks.NewMessage(p)
		CMsg("first", msg.Value)
		how, two := opt("how", 3), opt("two parties", 2) == 1
		lvl := []int{0, c.nQ - 1}[opt("level", 2)]
		ct := mkckks.NewCiphertext(p, idset(names(1)), lvl, 1)
		pk := kg.GenPublicKey(sks["alice"])
		run := func() *mkckks.Message {
			var out *mkckks.Message
			NoPanic("encryption and decryption are accepted", func() {
				switch how {
				case 0:
					enc.EncryptMsg(msg, pk, ct)
				case 1:
					*ct = *enc.EncryptMsgNew(msg, pk)
				case 2:
					enc.EncryptPtxt(enc.EncodeMsgNew(msg), pk, ct)
				}
				out = dec.Decrypt(ct, set)
			})
			return out
		}
		o1 := run()
		first := append([]complex128{}, msg.Value...)
		CMsg("second", msg.Value)
		if two { // the public key now is another party's
			pk2 := kg.GenPublicKey(sks["bob"])
			pk.Value, pk.ID = pk2.Value, "bob"
			ct = mkckks.NewCiphertext(p, idset([]string{"bob"}), lvl, 1)
		}
		o2 := run()
		if o1 == nil || o2 == nil {
			return
		}
		CDecodes("the second decryption returns the new message", o2.Value, msg.Value, lg(p.Scale()), encNoise())
		CDecodes("the first result still is the first message", o1.Value, first, lg(p.Scale()), encNoise())
		return
	}
	c := pick("cfg", cfg{2, 2}, cfg{4, 4})
	p := bfvParams(c)
	kg := mkbfv.NewKeyGenerator(p)
	sks := secrets(kg.KeyGenerator, names(2))
	set := skSet(sks, names(2))
	enc, dec := mkbfv.NewEncryptor(p), mkbfv.NewDecryptor(p)
	msg := mkbfv.NewMessage(p)
	IMsg("first", msg.Value, p.T())
	two := opt("two parties", 2) == 1
	ct := mkbfv.NewCiphertext(p, idset(names(1)))
	pk := kg.GenPublicKey(sks["alice"])
	run := func() *mkbfv.Message {
		var out *mkbfv.Message
		NoPanic("encryption and decryption are accepted", func() {
			enc.EncryptMsg(msg, pk, ct)
			out = dec.Decrypt(ct, set)
		})
		return out
	}
	o1 := run()
	first := append(msg.Value[:0:0], msg.Value...)
	IMsg("second", msg.Value, p.T())
	if two {
		pk2 := kg.GenPublicKey(sks["bob"])
		pk.Value, pk.ID = pk2.Value, "bob"
		ct = mkbfv.NewCiphertext(p, idset([]string{"bob"}))
	}
	o2 := run()
	if o1 == nil || o2 == nil {
		return
	}
	IDecodes("the second decryption returns the new message", o2.Value, msg.Value, p.T())
	IDecodes("the first result still is the first message", o1.Value, first, p.T())
}

// C20_Long: after a long history of every operation, at changing levels, the evaluator still is as good as new.
func C20_Long() {
	c := pick("cfg", cfg{3, 2})
	k := opt("operation", nCkOps)
	w := newCkWorld(c)
	ev := mkckks.NewEvaluator(w.p)
	for i := 0; i < 4; i++ {
		l := []int{2, 0, 1, 2}[i]
		in0 := w.input(str("before%d", i), []string{"alice", "bob"}[i%2:], []string{"bob"}, l, 2-l%2, i%2 == 0)
		w.hoist(in0)
		for j := 0; j < nCkOps; j++ {
			w.do(ev, (j*5+k)%nCkOps, in0)
		}
	}
	in := w.input("in", []string{"alice"}, []string{"bob", "alice"}, 2, 1, false)
	w.hoist(in)
	x := w.do(ev, k, in)
	y := w.otherRlk().do(mkckks.NewEvaluator(w.p), k, in)
	if x == nil || y == nil {
		Assert("both are accepted or both are refused", x == nil && y == nil)
		return
	}
	w.sameRes("the result is that of a fresh evaluator", x, y)
}

// C20_BFVLong: the same for BFV.
func C20_BFVLong() {
	c := pick("cfg", cfg{2, 2})
	k := opt("operation", nBvOps)
	w := newBvWorld(c)
	ev := mkbfv.NewEvaluator(w.p)
	for i := 0; i < 4; i++ {
		in0 := w.input(str("before%d", i), []string{"alice", "bob"}[i%2:], names(2)[i/2:])
		for j := 0; j < nBvOps; j++ {
			w.do(ev, (j*3+k)%nBvOps, in0)
		}
	}
	in := w.input("in", []string{"alice"}, []string{"bob", "alice"})
	x := w.do(ev, k, in)
	y := w.otherRlk().do(mkbfv.NewEvaluator(w.p), k, in)
	if x == nil || y == nil {
		Assert("both are accepted or both are refused", x == nil && y == nil)
		return
	}
	w.sameVals("the result is that of a fresh evaluator", x, ctPolys(y.Ciphertext))
}

// C20_Count: an evaluator that has performed an operation very often.
func C20_Count() {
	times := 270
	if Thorough() {
		times = 1030
	}
	if opt("scheme", 2) == 0 {
		k := opt("operation", nCkOps)
		w := newCkWorld(cfg{2, 2})
		ev := mkckks.NewEvaluator(w.p)
		in0 := w.input("before", []string{"alice"}, []string{"alice"}, 1, 1, false)
		w.hoist(in0)
		first := w.otherRlk().do(mkckks.NewEvaluator(w.p), k, in0)
		for i := 0; i < times; i++ {
			if r := w.do(ev, k, in0); r != nil && first != nil {
				w.sameRes("every result is that of a fresh evaluator", r, first)
			}
		}
		in := w.input("in", []string{"alice"}, []string{"bob", "alice"}, 1, 1, false)
		w.hoist(in)
		x := w.do(ev, k, in)
		y := w.otherRlk().do(mkckks.NewEvaluator(w.p), k, in)
		if x == nil || y == nil {
			Assert("both are accepted or both are refused", x == nil && y == nil)
			return
		}
		w.sameRes("the result is that of a fresh evaluator", x, y)
		return
	}
	k := opt("operation", nBvOps)
	w := newBvWorld(cfg{2, 2})
	ev := mkbfv.NewEvaluator(w.p)
	in0 := w.input("before", []string{"alice"}, []string{"alice"})
	first := w.otherRlk().do(mkbfv.NewEvaluator(w.p), k, in0)
	for i := 0; i < times; i++ {
		if r := w.do(ev, k, in0); r != nil && first != nil {
			w.sameVals("every result is that of a fresh evaluator", r, ctPolys(first.Ciphertext))
		}
	}
	in := w.input("in", []string{"alice"}, []string{"bob", "alice"})
	x := w.do(ev, k, in)
	y := w.otherRlk().do(mkbfv.NewEvaluator(w.p), k, in)
	if x == nil || y == nil {
		Assert("both are accepted or both are refused", x == nil && y == nil)
		return
	}
	w.sameVals("the result is that of a fresh evaluator", x, ctPolys(y.Ciphertext))
}

// C20_OtherParams: work over other parameters, of the same degree, leaves no traces in what is built later.
func C20_OtherParams() {
	c0 := []cfg{{3, 2}, {4, 4}, {1, 2}}[opt("before", 3)]
	what := opt("what", 8)
	c := pick("cfg", cfg{3, 2}, cfg{4, 4})
	otherBefore(c0, c, what)
	defer func() { otherQ = 0 }()
	otherQ = 1 + opt("primes", 2)
	otherAfter(c, what)
}

// C20_OtherDegree: likewise, over the same primes with another degree, or with another standard deviation, scale,
// packing and plaintext modulus.
func C20_OtherDegree() {
	what := opt("what", 8)
	c := pick("cfg", cfg{3, 2}, cfg{4, 4})
	before, after := 4, 4
	d := opt("degrees", 3)
	if d < 2 {
		before, after = before+d, after+1-d
	}
	at(before, nil, func() {
		if d == 2 {
			logSlots, ckScale, plainT, sigma = 1, 1<<45, 257, 1.5
		}
		otherBefore(c, c, what)
	})
	at(after, nil, func() { otherAfter(c, what) })
}

func otherBefore(c0, c cfg, what int) {
	ids := names(2)
	bfv := what >= 5
	if bfv && c0.nQ > 1 || !bfv && opt("other scheme before", 2) == 1 {
		b := newBvWorld(cfg{c0.nP, c0.nP})
		in0 := b.input("before", ids, []string{"bob"})
		for k := 0; k < nBvOps; k++ {
			b.do(mkbfv.NewEvaluator(b.p), k, in0)
		}
	} else {
		a := newCkWorld(c0)
		l := c0.nQ - 1
		in0 := a.input("before", ids, []string{"bob"}, l, l, true)
		a.hoist(in0)
		for k := 0; k < nCkOps; k++ {
			a.do(mkckks.NewEvaluator(a.p), k, in0)
		}
	}
}

func otherAfter(c cfg, what int) {
	ids := names(2)
	bfv := what >= 5
	if bfv {
		c.nQ = c.nP
		p := bfvParams(c)
		kg := mkbfv.NewKeyGenerator(p)
		sks, secs := smallSecrets(p, ids)
		ev := mkbfv.NewEvaluator(p)
		a, b := fillBV("a", p, ids), fillBV("b", p, []string{"bob"})
		var out *mkbfv.Ciphertext
		switch what {
		case 5:
			rlk := bfvRlkSet(p, kg, sks, ids)
			if NoPanic("the product is accepted", func() { out = ev.MulRelinNew(a, b, rlk) }) {
				x, z := bfvOperands(p, a.Ciphertext, b.Ciphertext)
				checkBFVProduct("product", p, out.Ciphertext, x, z, ids, []string{"bob"}, sks, secs)
			}
		case 6:
			rtk := bfvRotKeys(kg, sks, ids, powers())
			if NoPanic("rotation is accepted", func() { out = ev.RotateNew(a, 3, rtk) }) {
				checkRotated("rotated", p.Parameters, out.Ciphertext, a.Ciphertext, ids, c.nQ-1, galEl(3), sks, 2)
			}
		case 7:
			msg := mkbfv.NewMessage(p)
			IMsg("msg", msg.Value, p.T())
			var back *mkbfv.Message
			if NoPanic("encryption and decryption are accepted", func() {
				back = mkbfv.NewDecryptor(p).Decrypt(mkbfv.NewEncryptor(p).EncryptMsgNew(msg, kg.GenPublicKey(sks["bob"])), skSet(sks, ids))
			}) {
				IDecodes("decryption returns the message", back.Value, msg.Value, p.T())
			}
		}
		return
	}
	p := ckksParams(c)
	lvl := c.nQ - 1
	kg := mkrlwe.NewKeyGenerator(p.Parameters)
	sks := secrets(kg, ids)
	ev := mkckks.NewEvaluator(p)
	a, b := fillCK("a", p, ids, lvl, p.Scale()), fillCK("b", p, []string{"bob"}, lvl, p.Scale())
	var out *mkckks.Ciphertext
	switch what {
	case 0:
		rlk := rlkSetOf(p, kg, sks, ids)
		if NoPanic("the product is accepted", func() { out = ev.MulRelinNew(a, b, rlk) }) {
			checkProduct("product", p, out, a, b, ids, []string{"bob"}, lvl, lvl, sks)
		}
	case 1:
		rtk := rotKeys(p, kg, sks, ids, powers())
		if NoPanic("rotation is accepted", func() { out = ev.RotateNew(a, 3, rtk) }) {
			checkRotated("rotated", p.Parameters, out.Ciphertext, a.Ciphertext, ids, lvl, galEl(3), sks, 2)
		}
	case 2:
		cks := mkrlwe.NewConjugationKeySet()
		for _, id := range ids {
			cks.AddConjugationKey(kg.GenConjugationKey(sks[id]))
		}
		if NoPanic("conjugation is accepted", func() { out = ev.ConjugateNew(a, cks) }) {
			checkRotated("conjugated", p.Parameters, out.Ciphertext, a.Ciphertext, ids, lvl, uint64(2*n-1), sks, 1)
		}
	case 3:
		msg := mkckks.NewMessage(p)
		CMsg("msg", msg.Value)
		var back *mkckks.Message
		if NoPanic("encryption and decryption are accepted", func() {
			back = mkckks.NewDecryptor(p).Decrypt(mkckks.NewEncryptor(p).EncryptMsgNew(msg, kg.GenPublicKey(sks["bob"])), skSet(sks, ids))
		}) {
			CDecodes("decryption returns the message", back.Value, msg.Value, lg(p.Scale()), encNoise())
		}
	case 4:
		b.Scale *= 4
		sa, sb := copyCt(a.Ciphertext), copyCt(b.Ciphertext)
		if NoPanic("the difference is accepted", func() { out = ev.SubNew(a, b) }) {
			checkAddSub("difference", p, out, sa, sb, ids, []string{"bob"}, lvl, 4, 1, true, sks)
		}
	}
}
