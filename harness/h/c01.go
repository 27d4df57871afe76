package h

import (
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/bfv"
	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/rlwe"

	. "vharness/vsym"
)

// noise of a fresh encryption: v*e + e0 + e1*s
func encNoise() float64 { return lg(sigma6*float64(2*n+1) + 0.5) }

func plain(name string, p mkrlwe.Parameters, lvl int, ntt bool) *rlwe.Plaintext {
	pt := rlwe.NewPlaintext(p.Parameters, lvl)
	Fill(name, p.RingQ(), lvl, pt.Value, ntt)
	return pt
}

// C01_RLWE: encryption of any plaintext polynomial, either domain on either side, any levels.
func C01_RLWE() {
	c := pick("cfg", cfg{1, 2}, cfg{3, 2}, cfg{3, 3}, cfg{4, 4})
	p := rlweParams(c)
	lp := opt("plaintext-level", c.nQ)
	lc := opt("ciphertext-level", c.nQ)
	ptNTT, ctNTT := opt("plaintext-ntt", 2) == 1, opt("ciphertext-ntt", 2) == 1
	kg := mkrlwe.NewKeyGenerator(p)
	sk, pk := kg.GenKeyPair("alice")
	pt := plain("pt", p, lp, ptNTT)
	snap := pt.Value.CopyNew()
	enc := mkrlwe.NewEncryptor(p)
	var ct *mkrlwe.Ciphertext
	if ctNTT {
		ct = mkrlwe.NewCiphertextNTT(p, idset([]string{"alice"}), lc)
	} else {
		ct = mkrlwe.NewCiphertext(p, idset([]string{"alice"}), lc)
	}
	if !NoPanic("encryption is accepted", func() { enc.Encrypt(pt, pk, ct) }) {
		return
	}
	lvl := lp
	if lc < lvl {
		lvl = lc
	}
	EqPoly("the plaintext is not changed", pt.Value, snap)
	Assert("components are the body and the party", len(ct.Value) == 2 && ct.Value["0"] != nil && ct.Value["alice"] != nil)
	if ct.Value["alice"] == nil {
		return
	}
	Assert("level is the lower one", len(ct.Value["0"].Coeffs) == lvl+1 && len(ct.Value["alice"].Coeffs) == lvl+1)
	if len(ct.Value["0"].Coeffs) != lvl+1 || len(ct.Value["alice"].Coeffs) != lvl+1 {
		return
	}
	Assert("domain is the requested one", ct.Value["0"].IsNTT == ctNTT && ct.Value["alice"].IsNTT == ctNTT)
	WithinQ("reduced coefficients", p.RingQ(), lvl, ct.Value["0"], 1)
	WithinQ("reduced coefficients", p.RingQ(), lvl, ct.Value["alice"], 1)
	m := Of(p.RingQ(), lvl, pt.Value, ptNTT, false)
	ph := Add(Of(p.RingQ(), lvl, ct.Value["0"], ctNTT, false), Mul(Of(p.RingQ(), lvl, ct.Value["alice"], ctNTT, false), skE(p, sk, lvl)))
	Near("the ciphertext decrypts to the plaintext", ph, nil, m, encNoise())

	dec := mkrlwe.NewDecryptor(p)
	out := rlwe.NewPlaintext(p.Parameters, lvl)
	outNTT := opt("output-ntt", 2) == 1
	out.Value.IsNTT = outNTT
	set := mkrlwe.NewSecretKeySet()
	set.AddSecretKey(sk)
	if !NoPanic("decryption is accepted", func() { dec.Decrypt(ct, set, out) }) {
		return
	}
	Assert("output domain is the requested one", out.Value.IsNTT == outNTT)
	Near("decryption returns the plaintext", Of(p.RingQ(), lvl, out.Value, out.Value.IsNTT, false), nil, m, encNoise())
}

// C01_CKKS: encode, encrypt, decrypt, decode; every message; ciphertext at any level.
func C01_CKKS() {
	c := pick("cfg", cfg{1, 2}, cfg{2, 2}, cfg{3, 3}, cfg{4, 4})
	p := ckksParams(c)
	kg := mkckks.NewKeyGenerator(p)
	id := names(2)[opt("id", 2)]
	sk, pk := kg.GenKeyPair(id)
	enc := mkckks.NewEncryptor(p)
	dec := mkckks.NewDecryptor(p)
	msg := mkckks.NewMessage(p)
	CMsg("msg", msg.Value)
	keep := append([]complex128{}, msg.Value...)
	lvl := c.nQ - 1
	var ct *mkckks.Ciphertext
	how := opt("how", 3)
	ok := NoPanic("encryption is accepted", func() {
		switch how {
		case 0:
			ct = enc.EncryptMsgNew(msg, pk)
		case 1:
			lvl = opt("level", c.nQ)
			ct = mkckks.NewCiphertext(p, idset([]string{id}), lvl, 1)
			enc.EncryptMsg(msg, pk, ct)
		case 2:
			var pt *ckks.Plaintext = enc.EncodeMsgNew(msg)
			lvl = opt("level", c.nQ)
			ct = mkckks.NewCiphertext(p, idset([]string{id}), lvl, 1)
			enc.EncryptPtxt(pt, pk, ct)
		}
	})
	if !ok {
		return
	}
	if !checkShape("ciphertext", p.Parameters, ct.Ciphertext, []string{id}, lvl) {
		return
	}
	Assert("recorded scale is the encoding's", ct.Scale == p.Scale())
	set := mkrlwe.NewSecretKeySet()
	set.AddSecretKey(sk)
	var out *mkckks.Message
	if !NoPanic("decryption is accepted", func() { out = dec.Decrypt(ct, set) }) {
		return
	}
	CDecodes("decryption returns the message", out.Value, keep, lg(p.Scale()), encNoise())
	CDecodes("the message is not changed", dec2(p, enc, msg), keep, lg(p.Scale()), 0)
}

// dec2 decodes the encoding of msg (no encryption).
func dec2(p mkckks.Parameters, enc *mkckks.Encryptor, msg *mkckks.Message) []complex128 {
	pt := enc.EncodeMsgNew(msg)
	cp, _ := ckks.NewParameters(p.Parameters.Parameters, p.LogSlots(), p.Scale())
	return ckks.NewEncoder(cp).Decode(pt, p.LogSlots())
}

// C01_BFV: encode, encrypt, decrypt, decode: exact.
func C01_BFV() {
	c := pick("cfg", cfg{2, 2}, cfg{3, 3}, cfg{4, 4})
	p := bfvParams(c)
	kg := mkbfv.NewKeyGenerator(p)
	id := names(2)[opt("id", 2)]
	sk, pk := kg.GenKeyPair(id)
	enc := mkbfv.NewEncryptor(p)
	dec := mkbfv.NewDecryptor(p)
	msg := mkbfv.NewMessage(p)
	IMsg("msg", msg.Value, p.T())
	keep := append([]int64{}, msg.Value...)
	var ct *mkbfv.Ciphertext
	how := opt("how", 3)
	ok := NoPanic("encryption is accepted", func() {
		switch how {
		case 0:
			ct = enc.EncryptMsgNew(msg, pk)
		case 1:
			ct = mkbfv.NewCiphertext(p, idset([]string{id}))
			enc.EncryptMsg(msg, pk, ct)
		case 2:
			bp, _ := bfv.NewParameters(p.Parameters.Parameters, p.T())
			pt := bfv.NewPlaintext(bp)
			bfv.NewEncoder(bp).EncodeInt(msg.Value, pt)
			ct = mkbfv.NewCiphertext(p, idset([]string{id}))
			enc.EncryptPtxt(pt, pk, ct)
		}
	})
	if !ok {
		return
	}
	if !checkShape("ciphertext", p.Parameters, ct.Ciphertext, []string{id}, c.nQ-1) {
		return
	}
	set := mkrlwe.NewSecretKeySet()
	set.AddSecretKey(sk)
	var out *mkbfv.Message
	if !NoPanic("decryption is accepted", func() { out = dec.Decrypt(ct, set) }) {
		return
	}
	IDecodes("decryption returns the message", out.Value, keep, p.T())
	if how == 0 {
		EqI("the message is not changed", msg.Value, keep)
	}
}
