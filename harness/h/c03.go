package h

import (
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/rlwe"

	. "vharness/vsym"
)

// shapes of Q and P the key harnesses run over: one block per prime, blocks of two, a partial last
// block, an odd number of special primes.
func keyCfg(name string) cfg {
	if Thorough() {
		return pick(name, cfg{1, 2}, cfg{3, 2}, cfg{4, 4}, cfg{3, 4}, cfg{2, 3}, cfg{5, 4}, cfg{5, 6}, cfg{4, 5}, cfg{7, 6}, cfg{7, 8}, cfg{9, 2}, cfg{14, 2}, cfg{14, 4})
	}
	return pick(name, cfg{1, 2}, cfg{3, 2}, cfg{4, 4}, cfg{3, 4}, cfg{4, 5}, cfg{5, 6})
}

// qpE reads a full-level element of Q and P.
func qpE(p mkrlwe.Parameters, x rlwe.PolyQP, ntt, mont bool) *Elem {
	return Join(Of(p.RingQ(), p.QCount()-1, x.Q, ntt, mont), Of(p.RingP(), p.PCount()-1, x.P, ntt, mont))
}

func qpMods(p mkrlwe.Parameters) []uint64 {
	return append(append([]uint64{}, p.RingQ().Modulus...), p.RingP().Modulus...)
}

func fullE(p mkrlwe.Parameters, sk *mkrlwe.SecretKey) *Elem { return qpE(p, sk.Value, true, true) }

// checkSK: a small polynomial, the same modulo every prime, labelled id, in canonical form.
func checkSK(name string, p mkrlwe.Parameters, sk *mkrlwe.SecretKey, id string, bound float64) bool {
	Assert(name+": labelled with its identity", sk != nil && sk.ID == id)
	if sk == nil {
		return false
	}
	ok := sk.Value.Q != nil && sk.Value.P != nil && len(sk.Value.Q.Coeffs) == p.QCount() && len(sk.Value.P.Coeffs) == p.PCount()
	Assert(name+": has a residue for every prime", ok)
	if !ok {
		return false
	}
	SmallNonzero(name+": one small polynomial modulo every prime", fullE(p, sk), lg(bound)+0.001)
	WithinQ(name+": reduced", p.RingQ(), p.QCount()-1, sk.Value.Q, 1)
	WithinQ(name+": reduced modulo P", p.RingP(), p.PCount()-1, sk.Value.P, 1)
	return true
}

// pkNoise returns b + a*s.
func pkNoise(p mkrlwe.Parameters, pk *mkrlwe.PublicKey, sk *mkrlwe.SecretKey) *Elem {
	return Add(qpE(p, pk.Value[0], true, false), Mul(qpE(p, pk.Value[1], true, false), fullE(p, sk)))
}

func checkPK(name string, p mkrlwe.Parameters, pk *mkrlwe.PublicKey, sk *mkrlwe.SecretKey, id string) bool {
	Assert(name+": labelled with its identity", pk != nil && pk.ID == id)
	if pk == nil {
		return false
	}
	EqPoly(name+": shares the common reference element", pk.Value[1].Q, p.CRS[0].Value[0].Q)
	EqPoly(name+": shares the common reference element modulo P", pk.Value[1].P, p.CRS[0].Value[0].P)
	Disjoint(name+": has its own copy of the reference element", pk.Value[1].Q, p.CRS[0].Value[0].Q)
	Disjoint(name+": has its own copy of the reference element modulo P", pk.Value[1].P, p.CRS[0].Value[0].P)
	SmallNonzero(name+": b + a*s is small and not zero", pkNoise(p, pk, sk), lg(sigma6)+0.001)
	WithinQ(name+": reduced", p.RingQ(), p.QCount()-1, pk.Value[0].Q, 1)
	WithinQ(name+": reduced modulo P", p.RingP(), p.PCount()-1, pk.Value[0].P, 1)
	return true
}

func genSK(kg *mkrlwe.KeyGenerator, kind int, id string) (*mkrlwe.SecretKey, float64) {
	switch kind {
	case 1:
		return kg.GenSecretKeyGaussian(id), sigma6
	case 2:
		return kg.GenSecretKeyWithDistrib(0.25, id), 1
	case 3:
		return kg.GenSecretKeySparse(4, id), 1
	}
	return kg.GenSecretKey(id), 1
}

// C03_Keys: every kind of secret key, and public keys of several parties.
func C03_Keys() {
	p := rlweParams(keyCfg("cfg"))
	kind := opt("kind", 4)
	kg := mkrlwe.NewKeyGenerator(p)
	ids := names(3)
	if opt("used-before", 2) == 1 { // an earlier key does not matter
		s, _ := genSK(kg, kind, "dave")
		kg.GenPublicKey(s)
	}
	var noise []*Elem
	var sks []*mkrlwe.SecretKey
	var pks []*mkrlwe.PublicKey
	for _, id := range ids {
		var sk *mkrlwe.SecretKey
		var b float64
		if !NoPanic("secret key", func() { sk, b = genSK(kg, kind, id) }) || !checkSK("secret key", p, sk, id, b) {
			return
		}
		snap := sk.CopyNew()
		var pk *mkrlwe.PublicKey
		if !NoPanic("public key", func() { pk = kg.GenPublicKey(sk) }) || !checkPK("public key", p, pk, sk, id) {
			return
		}
		EqPoly("the secret key is not changed", sk.Value.Q, snap.Value.Q)
		EqPoly("the secret key is not changed", sk.Value.P, snap.Value.P)
		noise = append(noise, pkNoise(p, pk, sk))
		sks = append(sks, sk)
		pks = append(pks, pk)
	}
	Fresh("every party's secret is its own", fullE(p, sks[0]), fullE(p, sks[1]), fullE(p, sks[2]))
	Fresh("every public key has its own noise", noise...)
	// earlier keys survive later ones
	for i := range ids {
		checkPK("public key after generating others", p, pks[i], sks[i], ids[i])
	}
}

// C03_Pairs: the pair generators.
func C03_Pairs() {
	p := rlweParams(keyCfg("cfg"))
	sparse := opt("sparse", 2) == 1
	kg := mkrlwe.NewKeyGenerator(p)
	var sk *mkrlwe.SecretKey
	var pk *mkrlwe.PublicKey
	id := "alice"
	if sparse {
		if !NoPanic("sparse pair", func() { sk, pk = kg.GenKeyPairSparse(4, id) }) {
			return
		}
		if sk != nil {
			id = sk.ID
		}
	} else if !NoPanic("pair", func() { sk, pk = kg.GenKeyPair(id) }) {
		return
	}
	if checkSK("secret key", p, sk, id, 1) && checkPK("public key", p, pk, sk, id) {
		sk2 := kg.GenSecretKey("bob")
		pk2 := kg.GenPublicKey(sk2)
		Fresh("noise of two public keys", pkNoise(p, pk, sk), pkNoise(p, pk2, sk2))
	}
}

// C03_Schemes: the CKKS and BFV key generators make the same keys.
func C03_Schemes() {
	c := pick("cfg", cfg{3, 2}, cfg{4, 4})
	ids := names(2)
	var p mkrlwe.Parameters
	var kg *mkrlwe.KeyGenerator
	if opt("scheme", 2) == 0 {
		q := ckksParams(c)
		p, kg = q.Parameters, mkckks.NewKeyGenerator(q)
	} else {
		q := bfvParams(c)
		p, kg = q.Parameters, mkbfv.NewKeyGenerator(q).KeyGenerator
	}
	for _, id := range ids {
		sk, pk := kg.GenKeyPair(id)
		if !checkSK("secret key", p, sk, id, 1) || !checkPK("public key", p, pk, sk, id) {
			return
		}
	}
	_ = rlwe.DefaultSigma
}
