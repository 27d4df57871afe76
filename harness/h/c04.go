package h

import (
	"math/big"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/rlwe"

	. "vharness/vsym"
)

// gadget multiplies e (over Q and P) by the i-th gadget element: P on the primes of block i, zero
// elsewhere.
func gadget(p mkrlwe.Parameters, e *Elem, i int) *Elem { return MulRes(e, gadgetRes(p, i)) }

func gadgetRes(p mkrlwe.Parameters, i int) []uint64 {
	Q, P := p.RingQ().Modulus, p.RingP().Modulus
	alpha := len(P) / p.Gamma()
	var res []uint64
	for j, q := range Q {
		r := uint64(0)
		if j/alpha == i {
			x := big.NewInt(1)
			for _, m := range P {
				x.Mul(x, new(big.Int).SetUint64(m))
			}
			r = x.Mod(x, new(big.Int).SetUint64(q)).Uint64()
		}
		res = append(res, r)
	}
	for range P {
		res = append(res, 0)
	}
	return res
}

// number of digits: blocks of alpha primes that cover lvl+1 primes
func nDigits(p mkrlwe.Parameters, lvl int) int {
	alpha := len(p.RingP().Modulus) / p.Gamma()
	return (lvl + alpha) / alpha
}

func prod(ms []uint64) *big.Int {
	x := big.NewInt(1)
	for _, m := range ms {
		x.Mul(x, new(big.Int).SetUint64(m))
	}
	return x
}

// bfvGadget returns the residues (over Q and P) of the BFV gadget element of block i of Q (half 0) or
// of QMul (half 1): floor(P*t*(R/B)*[(R/B)^-1]_B / QMul), with R = Q*QMul and B the block's product.
func bfvGadget(p mkbfv.Parameters, half, i int) []uint64 {
	Q, M, P := p.RingQ().Modulus, p.RingQMul().Modulus, p.RingP().Modulus
	alpha := len(P) / p.Gamma()
	src := Q
	if half == 1 {
		src = M
	}
	hi := (i + 1) * alpha
	if hi > len(src) {
		hi = len(src)
	}
	B := prod(src[i*alpha : hi])
	R := new(big.Int).Mul(prod(Q), prod(M))
	g := new(big.Int).Div(R, B)
	inv := new(big.Int).ModInverse(new(big.Int).Mod(g, B), B)
	g.Mul(g, inv)
	g.Mul(g, prod(P))
	g.Mul(g, new(big.Int).SetUint64(p.T()))
	g.Div(g, prod(M))
	var res []uint64
	for _, q := range Q {
		res = append(res, new(big.Int).Mod(g, new(big.Int).SetUint64(q)).Uint64())
	}
	for _, q := range P {
		res = append(res, new(big.Int).Mod(g, new(big.Int).SetUint64(q)).Uint64())
	}
	return res
}

func swDigit(p mkrlwe.Parameters, k *mkrlwe.SwitchingKey, i int) *Elem {
	return qpE(p, k.Value[i], true, true)
}

func crsE(p mkrlwe.Parameters, idx, i int) *Elem { return qpE(p, p.CRS[idx].Value[i], true, true) }

// checkSwk asserts that a switching key has the right number of digits over all primes, reduced.
func checkSwk(name string, p mkrlwe.Parameters, k *mkrlwe.SwitchingKey) bool {
	if k == nil || len(k.Value) != nDigits(p, p.QCount()-1) {
		Assert(name+": number of digits", false)
		return false
	}
	Assert(name+": number of digits", true)
	for i := range k.Value {
		d := k.Value[i]
		ok := d.Q != nil && d.P != nil && len(d.Q.Coeffs) == p.QCount() && len(d.P.Coeffs) == p.PCount()
		Assert(name+": residues for every prime", ok)
		if !ok {
			return false
		}
		WithinQ(name+": reduced", p.RingQ(), p.QCount()-1, d.Q, 1)
		WithinQ(name+": reduced modulo P", p.RingP(), p.PCount()-1, d.P, 1)
	}
	return true
}

var eB = 4.2481 // just above lg(19)

// rlkNoise returns the noises of b, d and v of every digit of one triple.
func rlkNoise(p mkrlwe.Parameters, v [3]*mkrlwe.SwitchingKey, sk, r *mkrlwe.SecretKey, aIdx, uIdx int, gres func(i int) []uint64) [][]*Elem {
	s, re := fullE(p, sk), fullE(p, r)
	out := make([][]*Elem, 3)
	for i := range v[0].Value {
		a, u := crsE(p, aIdx, i), crsE(p, uIdx, i)
		out[0] = append(out[0], Add(swDigit(p, v[0], i), Mul(s, a)))
		out[1] = append(out[1], Sub(Add(swDigit(p, v[1], i), Mul(re, a)), MulRes(s, gres(i))))
		if v[2] != nil {
			out[2] = append(out[2], Add(Add(swDigit(p, v[2], i), Mul(s, u)), gadget(p, re, i)))
		}
	}
	return out
}

func checkNoise(name string, es [][]*Elem) []*Elem {
	var all []*Elem
	for k, part := range []string{"b", "d", "v"} {
		for _, e := range es[k] {
			SmallNonzero(name+": equation of "+part, e, eB)
			all = append(all, e)
		}
	}
	return all
}

// C04_RLK: relinearisation keys of two parties.
func C04_RLK() {
	p := rlweParams(keyCfg("cfg"))
	kg := mkrlwe.NewKeyGenerator(p)
	same := opt("key-generators", 2) == 0
	ids := names(2)
	var all []*Elem
	for _, id := range ids {
		if !same {
			kg = mkrlwe.NewKeyGenerator(p)
		}
		sk, r := kg.GenSecretKey(id), kg.GenSecretKey(id)
		snap := sk.CopyNew()
		var rlk *mkrlwe.RelinearizationKey
		if !NoPanic("relinearisation key", func() { rlk = kg.GenRelinearizationKey(sk, r) }) {
			return
		}
		Assert("labelled with its identity", rlk.ID == id)
		for k := 0; k < 3; k++ {
			if !checkSwk("relinearisation key", p, rlk.Value[k]) {
				return
			}
		}
		gr := func(i int) []uint64 { return gadgetRes(p, i) }
		all = append(all, checkNoise("relinearisation key", rlkNoise(p, rlk.Value, sk, r, 0, -1, gr))...)
		EqPoly("the secret is not changed", sk.Value.Q, snap.Value.Q)
		EqPoly("the secret is not changed modulo P", sk.Value.P, snap.Value.P)
	}
	Fresh("every digit of every part has its own noise", all...)
}

// C04_Switch: the generic switching key holds the gadget times the secret plus noise.
func C04_Switch() {
	p := rlweParams(keyCfg("cfg"))
	kg := mkrlwe.NewKeyGenerator(p)
	s1, s2 := kg.GenSecretKeyGaussian("alice"), kg.GenSecretKey("bob")
	k1, k2 := mkrlwe.NewSwitchingKey(p), mkrlwe.NewSwitchingKey(p)
	kg.GenSwitchingKey(s1, k1)
	kg.GenSwitchingKey(s2, k2)
	var all []*Elem
	for j, k := range []*mkrlwe.SwitchingKey{k1, k2} {
		if !checkSwk("switching key", p, k) {
			return
		}
		s := []*mkrlwe.SecretKey{s1, s2}[j]
		for i := range k.Value {
			e := Sub(swDigit(p, k, i), gadget(p, fullE(p, s), i))
			SmallNonzero("gadget times secret plus noise", e, eB)
			all = append(all, e)
		}
	}
	Fresh("every digit has its own noise", all...)
}

// C04_BFV: both halves of the BFV relinearisation key.
func C04_BFV() {
	p := bfvParams(pick("cfg", cfg{1, 2}, cfg{2, 2}, cfg{3, 2}, cfg{2, 4}, cfg{4, 4}))
	kg := mkbfv.NewKeyGenerator(p)
	same := opt("key-generators", 2) == 0
	var all []*Elem
	for _, id := range names(2) {
		if !same {
			kg = mkbfv.NewKeyGenerator(p)
		}
		sk, r := kg.GenSecretKey(id), kg.GenSecretKey(id)
		snap := sk.CopyNew()
		var rlk *mkbfv.RelinearizationKey
		if !NoPanic("relinearisation key", func() { rlk = kg.GenRelinearizationKey(sk, r) }) {
			return
		}
		Assert("labelled with its identity", rlk.ID == id)
		for half := 0; half < 2; half++ {
			h := half
			v := rlk.Value[h].Value
			if h == 1 {
				v[2] = nil // only one v is used
			}
			for k := 0; k < 3-h; k++ {
				if !checkSwk("relinearisation key", p.Parameters, v[k]) {
					return
				}
			}
			gr := func(i int) []uint64 { return bfvGadget(p, h, i) }
			all = append(all, checkNoise(str("half %d", h), rlkNoise(p.Parameters, v, sk, r, []int{0, -3}[h], -1, gr))...)
		}
		EqPoly("the secret is not changed", sk.Value.Q, snap.Value.Q)
		EqPoly("the secret is not changed modulo P", sk.Value.P, snap.Value.P)
	}
	Fresh("every digit of every part has its own noise", all...)
	_ = rlwe.DefaultSigma
}
