package h

import (
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	. "vharness/vsym"
)

func pow2idx(k int) bool { return k > 0 && k&(k-1) == 0 }

// checkRK asserts the gadget equations of a rotation key for left rotation by k (already reduced).
func checkRK(name string, p mkrlwe.Parameters, rk *mkrlwe.RotationKey, sk *mkrlwe.SecretKey, k int) []*Elem {
	Assert(name+": identity and index", rk != nil && rk.ID == sk.ID && rk.RotIdx == uint(k))
	if rk == nil || !checkSwk(name, p, rk.Value) {
		return nil
	}
	s := fullE(p, sk)
	s2 := Aut(s, galEl(-k))
	var es []*Elem
	for i := range rk.Value.Value {
		// -s'a + P s g + e
		e := Sub(Add(swDigit(p, rk.Value, i), Mul(s2, crsE(p, k, i))), gadget(p, s, i))
		SmallNonzero(name+": gadget equation", e, eB)
		es = append(es, e)
	}
	return es
}

func checkCK(name string, p mkrlwe.Parameters, ck *mkrlwe.ConjugationKey, sk *mkrlwe.SecretKey) []*Elem {
	Assert(name+": identity", ck != nil && ck.ID == sk.ID)
	if ck == nil || !checkSwk(name, p, ck.Value) {
		return nil
	}
	s := fullE(p, sk)
	s2 := Aut(s, uint64(2*n-1))
	var es []*Elem
	for i := range ck.Value.Value {
		// -s a + P s' g + e
		e := Sub(Add(swDigit(p, ck.Value, i), Mul(s, crsE(p, -2, i))), gadget(p, s2, i))
		SmallNonzero(name+": gadget equation", e, eB)
		es = append(es, e)
	}
	return es
}

// C05_Rotation: one key for every index.
func C05_Rotation() {
	p := rlweParams(keyCfg("cfg"))
	k := opt("rot", n-1) - (n/2 - 1)
	Assume(k != 0)
	kr := ((k % (n / 2)) + n/2) % (n / 2)
	kg := mkrlwe.NewKeyGenerator(p)
	gaussian := opt("secret", 2)
	sk, _ := genSK(kg, gaussian, "alice")
	snap := sk.CopyNew()
	if !pow2idx(kr) {
		Refuses("no reference vector for the index", func() { kg.GenRotationKey(k, sk) })
		p.AddCRS(kr)
	}
	var rk *mkrlwe.RotationKey
	if !NoPanic("index with a reference vector is accepted", func() { rk = kg.GenRotationKey(k, sk) }) {
		return
	}
	es := checkRK("rotation key", p, rk, sk, kr)
	EqPoly("the secret is not changed", sk.Value.Q, snap.Value.Q)
	EqPoly("the secret is not changed modulo P", sk.Value.P, snap.Value.P)
	// a second key, and a key of another party, have noise of their own
	sk2 := kg.GenSecretKey("bob")
	es = append(es, checkRK("second key", p, kg.GenRotationKey(k, sk), sk, kr)...)
	es = append(es, checkRK("other party's key", p, kg.GenRotationKey(k, sk2), sk2, kr)...)
	Fresh("every digit has its own noise", es...)
}

// C05_Conj: conjugation keys of two parties.
func C05_Conj() {
	p := rlweParams(keyCfg("cfg"))
	kg := mkrlwe.NewKeyGenerator(p)
	var all []*Elem
	for i, id := range names(2) {
		sk, _ := genSK(kg, i, id)
		snap := sk.CopyNew()
		var ck *mkrlwe.ConjugationKey
		if !NoPanic("conjugation key", func() { ck = kg.GenConjugationKey(sk) }) {
			return
		}
		all = append(all, checkCK("conjugation key", p, ck, sk)...)
		EqPoly("the secret is not changed", sk.Value.Q, snap.Value.Q)
		EqPoly("the secret is not changed modulo P", sk.Value.P, snap.Value.P)
	}
	Fresh("every digit has its own noise", all...)
}

// C05_Default: the default key set, for each scheme's parameters.
func C05_Default() {
	c := pick("cfg", cfg{3, 2}, cfg{4, 4})
	var p mkrlwe.Parameters
	var kg *mkrlwe.KeyGenerator
	switch opt("scheme", 3) {
	case 0:
		p = rlweParams(c)
		kg = mkrlwe.NewKeyGenerator(p)
	case 1:
		q := ckksParams(c)
		p, kg = q.Parameters, mkckks.NewKeyGenerator(q)
	case 2:
		q := bfvParams(c)
		p, kg = q.Parameters, mkbfv.NewKeyGenerator(q).KeyGenerator
	}
	set := mkrlwe.NewRotationKeySet()
	var all []*Elem
	for _, id := range names(2) {
		sk := kg.GenSecretKey(id)
		if !NoPanic("default rotation keys", func() { kg.GenDefaultRotationKeys(sk, set) }) {
			return
		}
		cnt := 0
		for k := 1; k < n/2; k *= 2 {
			kk := k
			var rk *mkrlwe.RotationKey
			if !NoPanic("the default set has a key for every power of two", func() { rk = set.GetRotationKey(id, uint(kk)) }) {
				return
			}
			all = append(all, checkRK("default rotation key", p, rk, sk, k)...)
			cnt++
		}
		Assert("the default set has no other key", len(set.Value[id]) == cnt)
	}
	Fresh("every digit has its own noise", all...)
}
