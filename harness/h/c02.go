package h

import (
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/rlwe"

	. "vharness/vsym"
)

// C02_Decrypt: body plus components times secrets, any key subset, any map order, either domain.
func C02_Decrypt() {
	c := pick("cfg", cfg{1, 2}, cfg{3, 2})
	p := rlweParams(c)
	nIDs := opt("parties", 4)
	ids := names(nIDs)
	lvl := opt("level", c.nQ)
	lp := opt("plaintext-level", c.nQ)
	ntt := opt("ntt", 2) == 1
	missing := opt("missing", nIDs+1) // nIDs: none
	extra := opt("extra", 2) == 1
	MapOrder(opt("order", 6))
	kg := mkrlwe.NewKeyGenerator(p)
	all := names(4)
	sks := secrets(kg, all)
	ct := mkrlwe.NewCiphertext(p, idset(ids), lvl)
	Fill("ct.0", p.RingQ(), lvl, ct.Value["0"], ntt)
	for _, id := range ids {
		Fill("ct."+id, p.RingQ(), lvl, ct.Value[id], ntt)
	}
	set := mkrlwe.NewSecretKeySet()
	if extra {
		set.AddSecretKey(sks["dave"])
	}
	for i, id := range ids {
		if i != missing {
			set.AddSecretKey(sks[id])
		}
	}
	snap := copyCt(ct)
	skSnap := sks["alice"].CopyNew()
	nKeys := len(set.Value)
	out := rlwe.NewPlaintext(p.Parameters, lp)
	outNTT := ntt
	if lp == lvl {
		outNTT = opt("output-ntt", 2) == 1
	}
	out.Value.IsNTT = outNTT
	dec := mkrlwe.NewDecryptor(p)
	if missing < nIDs {
		Refuses("missing secret key", func() { dec.Decrypt(ct, set, out) })
		sameCt("the ciphertext is not changed by a refused decryption", ct, snap)
		return
	}
	if !NoPanic("decryption is accepted", func() { dec.Decrypt(ct, set, out) }) {
		return
	}
	lo := lvl
	if lp < lo {
		lo = lp
	}
	want := Of(p.RingQ(), lo, snap.Value["0"], ntt, false)
	for _, id := range ids {
		want = Add(want, Mul(Of(p.RingQ(), lo, snap.Value[id], ntt, false), skE(p, sks[id], lo)))
	}
	Assert("level of the plaintext", len(out.Value.Coeffs) == lo+1)
	if len(out.Value.Coeffs) != lo+1 {
		return
	}
	Assert("output domain is the requested one", out.Value.IsNTT == outNTT)
	Equal("body plus components times secrets", Of(p.RingQ(), lo, out.Value, out.Value.IsNTT, false), want)
	WithinQ("reduced", p.RingQ(), lo, out.Value, 1)
	sameCt("the ciphertext is not changed", ct, snap)
	EqPoly("the secret key is not changed", sks["alice"].Value.Q, skSnap.Value.Q)
	Assert("the key set is not changed", len(set.Value) == nKeys)
	for _, id := range ids {
		Assert("the key set is not changed", set.Value[id] == sks[id])
	}
}

// C02_Partial: partial decryptions in any order.
func C02_Partial() {
	c := pick("cfg", cfg{2, 2})
	p := rlweParams(c)
	ids := names(3)
	scheme := opt("scheme", 3)
	var dec func(ct *mkrlwe.Ciphertext, sk *mkrlwe.SecretKey)
	lvl, ntt := c.nQ-1, false
	switch scheme {
	case 0:
		dec = mkrlwe.NewDecryptor(p).PartialDecrypt
	case 1:
		cp := ckksParams(c)
		p = cp.Parameters
		d := mkckks.NewDecryptor(cp)
		dec = func(ct *mkrlwe.Ciphertext, sk *mkrlwe.SecretKey) {
			d.PartialDecrypt(&mkckks.Ciphertext{Ciphertext: ct, Scale: cp.Scale()}, sk)
		}
	case 2:
		bp := bfvParams(c)
		p = bp.Parameters
		d := mkbfv.NewDecryptor(bp)
		dec = func(ct *mkrlwe.Ciphertext, sk *mkrlwe.SecretKey) {
			d.PartialDecrypt(&mkbfv.Ciphertext{Ciphertext: ct}, sk)
		}
	}
	if scheme < 2 {
		lvl, ntt = opt("level", c.nQ), opt("ntt", 2) == 1
	}
	kg := mkrlwe.NewKeyGenerator(p)
	sks := secrets(kg, ids)
	ct := mkrlwe.NewCiphertext(p, idset(ids), lvl)
	Fill("ct.0", p.RingQ(), lvl, ct.Value["0"], ntt)
	for _, id := range ids {
		Fill("ct."+id, p.RingQ(), lvl, ct.Value[id], ntt)
	}
	snap := copyCt(ct)
	perm := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[opt("perm", 6)]
	done := []string{}
	for _, k := range perm {
		id := ids[k]
		if !NoPanic("partial decryption is accepted", func() { dec(ct, sks[id]) }) {
			return
		}
		done = append(done, id)
		_, still := ct.Value[id]
		Assert("the party's component is consumed", !still && len(ct.Value) == 4-len(done))
		want := Of(p.RingQ(), lvl, snap.Value["0"], ntt, false)
		for _, d := range done {
			want = Add(want, Mul(Of(p.RingQ(), lvl, snap.Value[d], ntt, false), skE(p, sks[d], lvl)))
		}
		Equal("partial phase", Of(p.RingQ(), lvl, ct.Value["0"], ntt, false), want)
		for _, o := range ids {
			if !has(done, o) {
				EqPoly("other components are untouched", ct.Value[o], snap.Value[o])
			}
		}
	}
}

// C02_CKKS: the CKKS decryptor decodes exactly the phase, with the ciphertext's scale, and refuses
// missing keys; also after decrypting at another level.
func C02_CKKS() {
	c := pick("cfg", cfg{3, 2})
	p := ckksParams(c)
	ids := subset(names(2), opt("ids", 3)+1)
	lvl := opt("level", c.nQ)
	before := opt("decrypted-before", 3) // 0: nothing, 1: level 0, 2: top level
	kg := mkckks.NewKeyGenerator(p)
	sks := secrets(kg, names(2))
	dec := mkckks.NewDecryptor(p)
	set := skSet(sks, names(2))
	if before > 0 {
		l := []int{0, 0, c.nQ - 1}[before]
		o := fillCK("other", p, names(1), l, p.Scale())
		NoPanic("decryption is accepted", func() { dec.Decrypt(o, set) })
	}
	sc := []float64{1 << 52, 1 << 30}[opt("scale", 2)]
	ct := fillCK("ct", p, ids, lvl, sc)
	snap := copyCt(ct.Ciphertext)
	var out *mkckks.Message
	if !NoPanic("decryption is accepted", func() { out = dec.Decrypt(ct, set) }) {
		return
	}
	sameCt("the ciphertext is not changed", ct.Ciphertext, snap)
	Assert("the recorded scale is not changed", ct.Scale == sc)
	// reference: decode the phase
	ref := rlwe.NewPlaintext(p.Parameters.Parameters, lvl)
	mkrlwe.NewDecryptor(p.Parameters).Decrypt(ct.Ciphertext, set, ref)
	cp, _ := ckks.NewParameters(p.Parameters.Parameters, p.LogSlots(), p.Scale())
	pt := ckks.NewPlaintext(cp, lvl, sc)
	pt.Value = ref.Value
	SameDecoded("decodes the phase at the ciphertext's scale and level", out.Value, ckks.NewEncoder(cp).Decode(pt, p.LogSlots()))
	set.DelSecretKey(ids[0])
	Refuses("missing secret key", func() { dec.Decrypt(ct, set) })
}

// C02_BFV: as C02_CKKS for BFV.
func C02_BFV() {
	c := pick("cfg", cfg{2, 2})
	p := bfvParams(c)
	ids := subset(names(2), opt("ids", 3)+1)
	MapOrder(opt("order", 2))
	kg := mkbfv.NewKeyGenerator(p)
	sks := secrets(kg.KeyGenerator, names(2))
	enc := mkbfv.NewEncryptor(p)
	dec := mkbfv.NewDecryptor(p)
	set := skSet(sks, names(2))
	// an arbitrary ciphertext with a given phase: components arbitrary, body = encoding - sum
	msg := mkbfv.NewMessage(p)
	IMsg("msg", msg.Value, p.T())
	ct := mkbfv.NewCiphertext(p, idset(ids))
	lvl := c.nQ - 1
	pks := kg.GenPublicKey(sks[ids[0]])
	enc.EncryptMsg(msg, pks, ct)
	if len(ids) > 1 {
		// add an encryption of zero under the other party
		z := mkbfv.NewMessage(p)
		ct2 := enc.EncryptMsgNew(z, kg.GenPublicKey(sks[ids[1]]))
		ct = mkbfv.NewEvaluator(p).AddNew(ct, ct2)
	}
	snap := copyCt(ct.Ciphertext)
	var out *mkbfv.Message
	if !NoPanic("decryption is accepted", func() { out = dec.Decrypt(ct, set) }) {
		return
	}
	IDecodes("decryption returns the message", out.Value, msg.Value, p.T())
	sameCt("the ciphertext is not changed", ct.Ciphertext, snap)
	var out2 *mkbfv.Message
	if !NoPanic("decryption is accepted again", func() { out2 = dec.Decrypt(ct, set) }) {
		return
	}
	IDecodes("second decryption returns the message", out2.Value, msg.Value, p.T())
	IDecodes("first decryption still is the message", out.Value, msg.Value, p.T())
	_ = lvl
	set.DelSecretKey(ids[0])
	Refuses("missing secret key", func() { dec.Decrypt(ct, set) })
}
