package h

import (
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/bfv"
	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/rlwe"

	. "vharness/vsym"
)

const logK = 30

// craftedPK is a public key whose parts are constants (2^30 and 2^30 X), so that mask and noise of an
// encryption can be read off its components.
func craftedPK(p mkrlwe.Parameters, id string) *mkrlwe.PublicKey {
	pk := mkrlwe.NewPublicKey(p, id)
	r := p.RingQ()
	for k := 0; k < 2; k++ {
		q := pk.Value[k].Q
		for i := range q.Coeffs {
			q.Coeffs[i][k] = 1 << logK
		}
		r.NTT(q, q)
		q.IsNTT = true
	}
	return pk
}

// C24_Encrypt: every encryption has a mask and two noises of its own.
func C24_Encrypt() {
	c := pick("cfg", cfg{1, 2}, cfg{3, 2}, cfg{4, 4})
	p := rlweParams(c)
	lc := opt("ciphertext-level", c.nQ)
	lp := lc + opt("plaintext-level-above", c.nQ-lc)
	ptNTT, ctNTT := opt("plaintext-ntt", 2) == 1, opt("ciphertext-ntt", 2) == 1
	alt := opt("alternate-domain", 2) == 1
	pks := []*mkrlwe.PublicKey{craftedPK(p, "alice"), craftedPK(p, "bob")}
	encs := []*mkrlwe.Encryptor{mkrlwe.NewEncryptor(p), mkrlwe.NewEncryptor(p)}
	pt := rlwe.NewPlaintext(p.Parameters, lp)
	Fill("pt", p.RingQ(), lp, pt.Value, ptNTT)
	m := Of(p.RingQ(), lc, pt.Value, ptNTT, false)
	var es []*Elem
	for i := 0; i < Reps(6, 60); i++ {
		pk := pks[i%3%2]
		ntt := ctNTT != (alt && i%2 == 1)
		ct := mkrlwe.NewCiphertext(p, idset([]string{pk.ID}), lc)
		if ntt {
			ct = mkrlwe.NewCiphertextNTT(p, idset([]string{pk.ID}), lc)
		}
		if !NoPanic("encryption is accepted", func() { encs[i/2%2].Encrypt(pt, pk, ct) }) {
			return
		}
		es = append(es, Sub(Of(p.RingQ(), lc, ct.Value["0"], ntt, false), m), Of(p.RingQ(), lc, ct.Value[pk.ID], ntt, false))
	}
	Masks("every encryption has a mask and noises of its own", logK, 2, sigma, 0.5, es...)
}

// C24_Schemes: the same for the encryptors of the schemes.
func C24_Schemes() {
	how := opt("how", 3)
	if opt("scheme", 2) == 0 {
		p := ckksParams(pick("cfg", cfg{1, 2}, cfg{3, 2}, cfg{4, 4}))
		enc := mkckks.NewEncryptor(p)
		enc2 := mkckks.NewEncryptor(p)
		msg := mkckks.NewMessage(p)
		CMsg("msg", msg.Value)
		lvl := p.MaxLevel()
		if how > 0 {
			lvl = opt("level", p.QCount())
		}
		var es []*Elem
		for i := 0; i < Reps(4, 40); i++ {
			id := names(2)[i%2]
			pk := craftedPK(p.Parameters, id)
			e := enc
			if i%4 > 1 {
				e = enc2
			}
			var pt *ckks.Plaintext
			var ct *mkckks.Ciphertext
			if !NoPanic("encryption is accepted", func() {
				pt = mkckks.NewEncryptor(p).EncodeMsgNew(msg)
				if how > 0 {
					ct = mkckks.NewCiphertext(p, idset([]string{id}), lvl, 1)
				}
				switch how {
				case 0:
					ct = e.EncryptMsgNew(msg, pk)
				case 1:
					e.EncryptMsg(msg, pk, ct)
				case 2:
					e.EncryptPtxt(pt, pk, ct)
				}
			}) {
				return
			}
			m := Of(p.RingQ(), lvl, pt.Value, pt.Value.IsNTT, false)
			es = append(es, Sub(ctE(p.Parameters, ct.Ciphertext, "0", lvl), m), ctE(p.Parameters, ct.Ciphertext, id, lvl))
		}
		Masks("every encryption has a mask and noises of its own", logK, 2, sigma, 0.5, es...)
		return
	}
	p := bfvParams(pick("cfg", cfg{2, 2}, cfg{4, 4}))
	enc := mkbfv.NewEncryptor(p)
	enc2 := mkbfv.NewEncryptor(p)
	msg := mkbfv.NewMessage(p)
	IMsg("msg", msg.Value, p.T())
	lvl := p.MaxLevel()
	bp, err := bfv.NewParameters(p.Parameters.Parameters, p.T())
	Assert("parameters", err == nil)
	var es []*Elem
	for i := 0; i < Reps(4, 40); i++ {
		id := names(2)[i%2]
		pk := craftedPK(p.Parameters, id)
		e := enc
		if i%4 > 1 {
			e = enc2
		}
		var ct *mkbfv.Ciphertext
		pt := bfv.NewPlaintext(bp)
		if !NoPanic("encryption is accepted", func() {
			bfv.NewEncoder(bp).EncodeInt(msg.Value, pt)
			switch how {
			case 0:
				ct = e.EncryptMsgNew(msg, pk)
			case 1:
				ct = mkbfv.NewCiphertext(p, idset([]string{id}))
				e.EncryptMsg(msg, pk, ct)
			case 2:
				ct = mkbfv.NewCiphertext(p, idset([]string{id}))
				e.EncryptPtxt(pt, pk, ct)
			}
		}) {
			return
		}
		m := Of(p.RingQ(), lvl, pt.Value, pt.Value.IsNTT, false)
		es = append(es, Sub(ctE(p.Parameters, ct.Ciphertext, "0", lvl), m), ctE(p.Parameters, ct.Ciphertext, id, lvl))
	}
	Masks("every encryption has a mask and noises of its own", logK, 2, sigma, 0.5, es...)
}

// C24_Keys: every part of every key has one noise sample of its own, over histories of generations by two generators.
func C24_Keys() {
	p := rlweParams(keyCfg("cfg"))
	kgs := []*mkrlwe.KeyGenerator{mkrlwe.NewKeyGenerator(p), mkrlwe.NewKeyGenerator(p)}
	first := opt("first", 5)
	sk := []*mkrlwe.SecretKey{kgs[0].GenSecretKey("alice"), kgs[0].GenSecretKey("bob"), kgs[1].GenSecretKey("alice")}
	r := kgs[0].GenSecretKey("alice")
	var es []*Elem
	for t := 0; t < Reps(10, 15); t++ {
		kg, s := kgs[t/5%2], sk[t%3]
		switch (first + t) % 5 {
		case 0:
			es = append(es, pkNoise(p, kg.GenPublicKey(s), s))
		case 1:
			for _, e := range rlkNoise(p, kg.GenRelinearizationKey(s, r).Value, s, r, 0, -1, func(i int) []uint64 { return gadgetRes(p, i) }) {
				es = append(es, e...)
			}
		case 2:
			es = append(es, checkRK("rotation key", p, kg.GenRotationKey(2, s), s, 2)...)
		case 3:
			es = append(es, checkCK("conjugation key", p, kg.GenConjugationKey(s), s)...)
		case 4:
			k := mkrlwe.NewSwitchingKey(p)
			kg.GenSwitchingKey(s, k)
			for i := range k.Value {
				es = append(es, Sub(swDigit(p, k, i), gadget(p, fullE(p, s), i)))
			}
		}
	}
	Gauss("every part of every key has a noise of its own", sigma, es...)
}

// C24_BFVKeys: the same for the BFV generator.
func C24_BFVKeys() {
	p := bfvParams(bfvCfg("cfg"))
	kgs := []*mkbfv.KeyGenerator{mkbfv.NewKeyGenerator(p), mkbfv.NewKeyGenerator(p)}
	first := opt("first", 4)
	sk := []*mkrlwe.SecretKey{kgs[0].GenSecretKey("alice"), kgs[0].GenSecretKey("bob"), kgs[1].GenSecretKey("alice")}
	r := kgs[0].GenSecretKey("alice")
	var es []*Elem
	for t := 0; t < Reps(8, 12); t++ {
		kg, s := kgs[t/4%2], sk[t%3]
		switch (first + t) % 4 {
		case 0:
			es = append(es, pkNoise(p.Parameters, kg.GenPublicKey(s), s))
		case 1:
			rlk := kg.GenRelinearizationKey(s, r)
			for h := 0; h < 2; h++ {
				h := h
				v := rlk.Value[h].Value
				if h == 1 {
					v[2] = nil
				}
				for _, e := range rlkNoise(p.Parameters, v, s, r, []int{0, -3}[h], -1, func(i int) []uint64 { return bfvGadget(p, h, i) }) {
					es = append(es, e...)
				}
			}
		case 2:
			es = append(es, checkRK("rotation key", p.Parameters, kg.GenRotationKey(2, s), s, 2)...)
		case 3:
			es = append(es, checkCK("conjugation key", p.Parameters, kg.GenConjugationKey(s), s)...)
		}
	}
	Gauss("every part of every key has a noise of its own", sigma, es...)
}

// C24_Secrets: every secret is a sample of its own, of the requested distribution.
func C24_Secrets() {
	p := rlweParams(keyCfg("cfg"))
	kgs := []*mkrlwe.KeyGenerator{mkrlwe.NewKeyGenerator(p), mkrlwe.NewKeyGenerator(p)}
	if opt("scheme", 2) == 1 {
		b := bfvParams(cfg{2, 2})
		p = b.Parameters
		kgs = []*mkrlwe.KeyGenerator{mkbfv.NewKeyGenerator(b).KeyGenerator, mkbfv.NewKeyGenerator(b).KeyGenerator}
	}
	kind := opt("kind", 5)
	var es []*Elem
	for t := 0; t < Reps(6, 40); t++ {
		kg := kgs[t/2%2]
		id := names(3)[t%3]
		var s *mkrlwe.SecretKey
		switch kind {
		case 0:
			s = kg.GenSecretKey(id)
		case 1:
			s = kg.GenSecretKeyGaussian(id)
		case 2:
			s = kg.GenSecretKeyWithDistrib(0.25, id)
		case 3:
			s = kg.GenSecretKeySparse(5, id)
		case 4:
			s, _ = kg.GenKeyPair(id)
		}
		es = append(es, fullE(p, s))
	}
	switch kind {
	case 0, 4:
		Tern("every secret is a sample of its own", 0.5, 0, es...)
	case 1:
		Gauss("every secret is a sample of its own", sigma, es...)
	case 2:
		Tern("every secret is a sample of its own", 0.25, 0, es...)
	case 3:
		Tern("every secret is a sample of its own", 0, 5, es...)
	}
}

// C24_Long: long histories of one object: no randomness comes back after many uses.
func C24_Long() {
	p := rlweParams(cfg{1, 2})
	kg := mkrlwe.NewKeyGenerator(p)
	const reps = 1100
	switch opt("what", 3) {
	case 0:
		pk, enc := craftedPK(p, "alice"), mkrlwe.NewEncryptor(p)
		pt := rlwe.NewPlaintext(p.Parameters, 0)
		Fill("pt", p.RingQ(), 0, pt.Value, false)
		m := Of(p.RingQ(), 0, pt.Value, false, false)
		var es []*Elem
		for i := 0; i < reps; i++ {
			ct := mkrlwe.NewCiphertext(p, idset(names(1)), 0)
			if !NoPanic("encryption is accepted", func() { enc.Encrypt(pt, pk, ct) }) {
				return
			}
			es = append(es, Sub(ctE(p, ct, "0", 0), m), ctE(p, ct, "alice", 0))
		}
		Masks("every encryption has a mask and noises of its own", logK, 2, sigma, 0.5, es...)
	case 1:
		var es []*Elem
		for i := 0; i < reps; i++ {
			es = append(es, fullE(p, kg.GenSecretKey("alice")))
		}
		Tern("every secret is a sample of its own", 0.5, 0, es...)
	case 2:
		s := kg.GenSecretKey("alice")
		var es []*Elem
		for i := 0; i < reps; i++ {
			es = append(es, pkNoise(p, kg.GenPublicKey(s), s))
		}
		Gauss("every public key has a noise of its own", sigma, es...)
	}
}
