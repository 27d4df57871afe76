package h

import (
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"

	. "vharness/vsym"
)

// patterns of parties of the two operands
var idPatterns = [][2][]string{
	{{"alice"}, {"bob"}}, {{"alice", "bob"}, {"alice"}}, {{"bob"}, {"alice", "bob"}}, {{"alice"}, {"alice"}}, {{"alice", "bob"}, {"alice", "bob"}},
}

// C19_CKKS: one operation leaves operands, keys and precomputed forms as they were and returns fresh memory.
func C19_CKKS() {
	c := pick("cfg", cfg{3, 2}, cfg{4, 4})
	k := opt("operation", nCkOps)
	ids := idPatterns[opt("parties", len(idPatterns))]
	lv := [][2]int{{c.nQ - 1, c.nQ - 1}, {c.nQ - 2, c.nQ - 1}, {c.nQ - 1, 0}}[opt("levels", 3)]
	if Thorough() {
		MapOrder(opt("order", 2))
	}
	w := newCkWorld(c)
	in := w.input("in", ids[0], ids[1], lv[0], lv[1], k == 3 && opt("plaintext-ntt", 2) == 1)
	if (k <= 2 || k == 8) && opt("same-operand", 2) == 1 {
		in.b = in.a
	}
	w.hoist(in)
	in.keep()
	keys := copyPolys(w.keys)
	ev := mkckks.NewEvaluator(w.p)
	r := w.do(ev, k, in)
	if r == nil {
		return
	}
	in.intact(ckOpNames[k], w, keys)
	disjointPolys("the result shares no memory with the operands", r.polys(), in.polys())
	disjointPolys("the result shares no memory with the keys", r.polys(), w.keys)
	if r.ct != nil {
		disjointPolys("the result shares no memory with the precomputations inside the key set", r.polys(), append(hoistPolys(w.rlk.HoistPool[0]), hoistPolys(w.rlk.HoistPool[1])...))
		Assert("the result is an object of its own", r.ct != in.a && r.ct.Ciphertext != in.a.Ciphertext && r.ct != in.b)
	}
	ps := r.polys()
	Separate("the components of the result share no memory", ps)
}

// C19_CKKSLater: a result is not changed by another operation of the same evaluator; overwriting it changes no later result.
func C19_CKKSLater() {
	c := pick("cfg", cfg{3, 2})
	if Thorough() {
		c = pick("cfg2", cfg{3, 2}, cfg{4, 4})
	}
	k1, k2 := opt("first", nCkOps), opt("second", nCkOps)
	chained := opt("second-uses-first", 2) == 1
	w := newCkWorld(c)
	in := w.input("in", []string{"alice"}, []string{"alice", "bob"}, c.nQ-1, c.nQ-2, false)
	in2 := w.input("in2", []string{"alice", "bob"}, []string{"bob"}, c.nQ-1, c.nQ-1, true)
	w.hoist(in)
	w.hoist(in2)
	ev := mkckks.NewEvaluator(w.p)
	r1 := w.do(ev, k1, in)
	if r1 == nil {
		return
	}
	if chained {
		// the first result is an operand of the second operation
		if r1.ct == nil {
			in2.a, in2.ha = in.a, r1.hf
		} else {
			in2.a = r1.ct
			w.hoist(in2)
		}
	}
	in2.keep()
	snap := copyPolys(r1.polys())
	r2 := w.do(ev, k2, in2)
	if r2 == nil {
		return
	}
	samePolys("the first result is not changed by the second operation", r1.polys(), snap)
	in2.intact("second operation", w, nil)
	disjointPolys("two results share no memory", r1.polys(), r2.polys())
	if chained {
		return
	}
	w.junk("junk1", r1)
	w.junk("junk2", r2)
	r3 := w.do(ev, k1, in)
	if r3 == nil {
		return
	}
	w.sameVals("overwriting results does not change a later result", r3, snap)
}

// C19_BFV: as C19_CKKS for BFV.
func C19_BFV() {
	c := pick("cfg", cfg{2, 2}, cfg{4, 4})
	k := opt("operation", nBvOps)
	ids := idPatterns[opt("parties", len(idPatterns))]
	MapOrder(opt("order", 2))
	w := newBvWorld(c)
	in := w.input("in", ids[0], ids[1])
	if k <= 2 && opt("same-operand", 2) == 1 {
		in.b = in.a
	}
	in.keep()
	keys := copyPolys(w.keys)
	ev := mkbfv.NewEvaluator(w.p)
	r := w.do(ev, k, in)
	if r == nil {
		return
	}
	in.intact(bvOpNames[k], w, keys)
	ps := ctPolys(r.Ciphertext)
	disjointPolys("the result shares no memory with the operands", ps, in.polys())
	disjointPolys("the result shares no memory with the keys", ps, w.keys)
	var pools []*ring.Poly
	for _, h := range []*mkrlwe.HoistedCiphertext{w.rlk.HoistPool1[0], w.rlk.HoistPool1[1], w.rlk.HoistPool2[0], w.rlk.HoistPool2[1]} {
		pools = append(pools, hoistPolys(h)...)
	}
	for _, id := range append([]string{"0"}, w.ids...) {
		pools = append(pools, w.rlk.PolyRPool1[id], w.rlk.PolyRPool2[id])
	}
	disjointPolys("the result shares no memory with the pools of the key set", ps, pools)
	Separate("the components of the result share no memory", ps)
}

// C19_BFVLater: as C19_CKKSLater for BFV.
func C19_BFVLater() {
	c := pick("cfg", cfg{2, 2})
	if Thorough() {
		c = pick("cfg2", cfg{2, 2}, cfg{4, 4})
	}
	k1, k2 := opt("first", nBvOps), opt("second", nBvOps)
	chained := opt("second-uses-first", 2) == 1
	w := newBvWorld(c)
	in := w.input("in", []string{"alice"}, []string{"alice", "bob"})
	in2 := w.input("in2", []string{"alice", "bob"}, []string{"bob"})
	ev := mkbfv.NewEvaluator(w.p)
	r1 := w.do(ev, k1, in)
	if r1 == nil {
		return
	}
	if chained {
		in2.a = r1
	}
	in2.keep()
	snap := copyPolys(ctPolys(r1.Ciphertext))
	r2 := w.do(ev, k2, in2)
	if r2 == nil {
		return
	}
	samePolys("the first result is not changed by the second operation", ctPolys(r1.Ciphertext), snap)
	in2.intact("second operation", w, nil)
	disjointPolys("two results share no memory", ctPolys(r1.Ciphertext), ctPolys(r2.Ciphertext))
	if chained {
		return
	}
	w.junk("junk1", r1)
	w.junk("junk2", r2)
	r3 := w.do(ev, k1, in)
	if r3 == nil {
		return
	}
	w.sameVals("overwriting results does not change a later result", r3, snap)
}

// C19_Crypt: encryption and decryption change neither keys nor operands, and their results are their own.
func C19_Crypt() {
	scheme := opt("scheme", 3)
	switch scheme {
	case 0:
		c := pick("cfg", cfg{3, 2}, cfg{4, 4})
		p := rlweParams(c)
		kg := mkrlwe.NewKeyGenerator(p)
		sk, pk := kg.GenKeyPair("alice")
		keyPolys := []*ring.Poly{sk.Value.Q, sk.Value.P, pk.Value[0].Q, pk.Value[0].P, pk.Value[1].Q, pk.Value[1].P}
		snap := copyPolys(keyPolys)
		lvl, ntt := opt("level", c.nQ), opt("ntt", 2) == 1
		pl := lvl + opt("plaintext-level-above", c.nQ-lvl)
		pt := rlwe.NewPlaintext(p.Parameters, pl)
		Fill("pt", p.RingQ(), pl, pt.Value, ntt)
		ps := pt.Value.CopyNew()
		enc, dec := mkrlwe.NewEncryptor(p), mkrlwe.NewDecryptor(p)
		c1, c2 := mkrlwe.NewCiphertext(p, idset([]string{"alice"}), lvl), mkrlwe.NewCiphertext(p, idset([]string{"alice"}), lvl)
		if opt("ciphertext-ntt", 2) == 1 {
			c1, c2 = mkrlwe.NewCiphertextNTT(p, idset([]string{"alice"}), lvl), mkrlwe.NewCiphertextNTT(p, idset([]string{"alice"}), lvl)
		}
		if !NoPanic("encryption is accepted", func() { enc.Encrypt(pt, pk, c1) }) {
			return
		}
		s1 := copyPolys(ctPolys(c1))
		if !NoPanic("encryption is accepted", func() { enc.Encrypt(pt, pk, c2) }) {
			return
		}
		samePolys("the first ciphertext is not changed by the second encryption", ctPolys(c1), s1)
		EqPoly("the plaintext is not changed", pt.Value, ps)
		s2 := copyPolys(ctPolys(c2))
		set := mkrlwe.NewSecretKeySet()
		set.AddSecretKey(sk)
		o1, o2 := rlwe.NewPlaintext(p.Parameters, lvl), rlwe.NewPlaintext(p.Parameters, lvl)
		if !NoPanic("decryption is accepted", func() { dec.Decrypt(c1, set, o1) }) {
			return
		}
		so := o1.Value.CopyNew()
		if !NoPanic("decryption is accepted", func() { dec.Decrypt(c2, set, o2) }) {
			return
		}
		EqPoly("the first plaintext is not changed by the second decryption", o1.Value, so)
		Disjoint("two plaintexts share no memory", o1.Value, o2.Value)
		samePolys("the ciphertexts are not changed", append(ctPolys(c1), ctPolys(c2)...), append(s1, s2...))
		samePolys("the keys are not changed", keyPolys, snap)
		disjointPolys("plaintexts share no memory with ciphertexts", []*ring.Poly{o1.Value, o2.Value, pt.Value}, append(ctPolys(c1), ctPolys(c2)...))
		disjointPolys("results share no memory with keys", append([]*ring.Poly{o1.Value, o2.Value}, append(ctPolys(c1), ctPolys(c2)...)...), keyPolys)
	case 1:
		c := pick("cfg", cfg{3, 2}, cfg{4, 4})
		p := ckksParams(c)
		kg := mkckks.NewKeyGenerator(p)
		sk, pk := kg.GenKeyPair("alice")
		keyPolys := []*ring.Poly{sk.Value.Q, sk.Value.P, pk.Value[0].Q, pk.Value[0].P, pk.Value[1].Q, pk.Value[1].P}
		snap := copyPolys(keyPolys)
		enc, dec := mkckks.NewEncryptor(p), mkckks.NewDecryptor(p)
		m1, m2 := mkckks.NewMessage(p), mkckks.NewMessage(p)
		CMsg("m1", m1.Value)
		CMsg("m2", m2.Value)
		k1 := append([]complex128{}, m1.Value...)
		e1 := enc.EncodeMsgNew(m1)
		se := e1.Value.CopyNew()
		c1 := enc.EncryptMsgNew(m1, pk)
		s1 := copyPolys(ctPolys(c1.Ciphertext))
		e2 := enc.EncodeMsgNew(m2)
		c2 := enc.EncryptMsgNew(m2, pk)
		EqPoly("an encoding is not changed later", e1.Value, se)
		Disjoint("two encodings share no memory", e1.Value, e2.Value)
		samePolys("the first ciphertext is not changed by the second encryption", ctPolys(c1.Ciphertext), s1)
		s2 := copyPolys(ctPolys(c2.Ciphertext))
		set := mkrlwe.NewSecretKeySet()
		set.AddSecretKey(sk)
		d1 := dec.Decrypt(c1, set)
		kd := append([]complex128{}, d1.Value...)
		d2 := dec.Decrypt(c2, set)
		SameDecoded("the first message is not changed by the second decryption", d1.Value, kd)
		CDecodes("the second message is the second one", d2.Value, m2.Value, lg(p.Scale()), encNoise())
		CDecodes("the first message is the first one", d1.Value, k1, lg(p.Scale()), encNoise())
		samePolys("the ciphertexts are not changed", append(ctPolys(c1.Ciphertext), ctPolys(c2.Ciphertext)...), append(s1, s2...))
		samePolys("the keys are not changed", keyPolys, snap)
		cts := append(ctPolys(c1.Ciphertext), ctPolys(c2.Ciphertext)...)
		disjointPolys("ciphertexts share no memory with encodings", cts, []*ring.Poly{e1.Value, e2.Value})
		disjointPolys("results share no memory with keys", cts, keyPolys)
		disjointPolys("two ciphertexts share no memory", ctPolys(c1.Ciphertext), ctPolys(c2.Ciphertext))
	case 2:
		c := pick("cfg", cfg{2, 2}, cfg{4, 4})
		p := bfvParams(c)
		kg := mkbfv.NewKeyGenerator(p)
		sk, pk := kg.GenKeyPair("alice")
		keyPolys := []*ring.Poly{sk.Value.Q, sk.Value.P, pk.Value[0].Q, pk.Value[0].P, pk.Value[1].Q, pk.Value[1].P}
		snap := copyPolys(keyPolys)
		enc, dec := mkbfv.NewEncryptor(p), mkbfv.NewDecryptor(p)
		m1, m2 := mkbfv.NewMessage(p), mkbfv.NewMessage(p)
		IMsg("m1", m1.Value, p.T())
		IMsg("m2", m2.Value, p.T())
		k1 := append([]int64{}, m1.Value...)
		c1 := enc.EncryptMsgNew(m1, pk)
		s1 := copyPolys(ctPolys(c1.Ciphertext))
		c2 := enc.EncryptMsgNew(m2, pk)
		EqI("the message is not changed", m1.Value, k1)
		samePolys("the first ciphertext is not changed by the second encryption", ctPolys(c1.Ciphertext), s1)
		s2 := copyPolys(ctPolys(c2.Ciphertext))
		set := mkrlwe.NewSecretKeySet()
		set.AddSecretKey(sk)
		d1 := dec.Decrypt(c1, set)
		d2 := dec.Decrypt(c2, set)
		IDecodes("the second message is the second one", d2.Value, m2.Value, p.T())
		IDecodes("the first message is the first one", d1.Value, k1, p.T())
		cts := append(ctPolys(c1.Ciphertext), ctPolys(c2.Ciphertext)...)
		samePolys("the ciphertexts are not changed", cts, append(s1, s2...))
		samePolys("the keys are not changed", keyPolys, snap)
		disjointPolys("results share no memory with keys", cts, keyPolys)
		disjointPolys("two ciphertexts share no memory", ctPolys(c1.Ciphertext), ctPolys(c2.Ciphertext))
	}
}

// C19_Keys: key generation changes neither the secrets nor the reference strings it uses; keys share no memory.
func C19_Keys() {
	bfv := opt("scheme", 2) == 1
	c := pick("cfg", cfg{2, 2}, cfg{4, 4})
	MapOrder(opt("order", 2))
	var p mkrlwe.Parameters
	var kg *mkrlwe.KeyGenerator
	var bk *mkbfv.KeyGenerator
	if bfv {
		bp := bfvParams(c)
		bk = mkbfv.NewKeyGenerator(bp)
		p, kg = bp.Parameters, bk.KeyGenerator
	} else {
		p = rlweParams(c)
		kg = mkrlwe.NewKeyGenerator(p)
	}
	sk, r := kg.GenSecretKey("alice"), kg.GenSecretKey("alice")
	base := []*ring.Poly{sk.Value.Q, sk.Value.P, r.Value.Q, r.Value.P}
	for i := -4; i <= 4; i++ {
		if s, ok := p.CRS[i]; ok {
			base = append(base, swkPolys(s)...)
		}
	}
	snap := copyPolys(base)
	gen := func(k int) (ps []*ring.Poly) {
		switch k {
		case 0:
			s := kg.GenSecretKey("bob")
			ps = []*ring.Poly{s.Value.Q, s.Value.P}
		case 1:
			pk := kg.GenPublicKey(sk)
			ps = []*ring.Poly{pk.Value[0].Q, pk.Value[0].P, pk.Value[1].Q, pk.Value[1].P}
		case 2:
			if bfv {
				for _, h := range bk.GenRelinearizationKey(sk, r).Value {
					for _, s := range h.Value {
						ps = append(ps, swkPolys(s)...)
					}
				}
			} else {
				for _, s := range kg.GenRelinearizationKey(sk, r).Value {
					ps = append(ps, swkPolys(s)...)
				}
			}
		case 3:
			ps = swkPolys(kg.GenRotationKey(2, sk).Value)
		case 4:
			ps = swkPolys(kg.GenConjugationKey(sk).Value)
		case 5:
			s := sk.CopyNew()
			ps = []*ring.Poly{s.Value.Q, s.Value.P}
			Assert("a copy keeps the identity", s.ID == sk.ID)
			EqPoly("a copy has the same contents", s.Value.Q, sk.Value.Q)
			EqPoly("a copy has the same contents", s.Value.P, sk.Value.P)
		case 6:
			pk := kg.GenPublicKey(sk)
			q := pk.CopyNew()
			ps = []*ring.Poly{q.Value[0].Q, q.Value[0].P, q.Value[1].Q, q.Value[1].P}
			o := []*ring.Poly{pk.Value[0].Q, pk.Value[0].P, pk.Value[1].Q, pk.Value[1].P}
			Assert("a copy keeps the identity", q.ID == pk.ID)
			samePolys("a copy has the same contents", ps, o)
			disjointPolys("a copy shares no memory", ps, o)
		}
		return
	}
	k1, k2 := opt("first", 7), opt("second", 7)
	var x, y []*ring.Poly
	if !NoPanic("key generation is accepted", func() { x = gen(k1) }) {
		return
	}
	sx := copyPolys(x)
	if !NoPanic("key generation is accepted", func() { y = gen(k2) }) {
		return
	}
	samePolys("the first key is not changed by the second generation", x, sx)
	samePolys("secrets and reference strings are not changed", base, snap)
	disjointPolys("two keys share no memory", x, y)
	disjointPolys("a key shares no memory with the secrets and reference strings", append(append([]*ring.Poly{}, x...), y...), base)
	Separate("the parts of a key share no memory", x)
}
