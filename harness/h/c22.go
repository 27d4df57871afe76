package h

import (
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"

	. "vharness/vsym"
)

// defaultIdx are the indices every parameter set has a reference string for.
func defaultIdx() []int {
	r := []int{0, -1, -2, -3, -4}
	for i := 1; i < n/2; i <<= 1 {
		r = append(r, i)
	}
	return r
}

// crsShape: one polynomial per digit at the top level, with every prime.
func crsShape(name string, p mkrlwe.Parameters, idx, alpha int) bool {
	s, ok := p.CRS[idx]
	ok = ok && s != nil && len(s.Value) == (p.QCount()+alpha-1)/alpha
	if ok {
		for _, v := range s.Value {
			ok = ok && v.Q != nil && v.P != nil && len(v.Q.Coeffs) == p.QCount() && len(v.P.Coeffs) == p.PCount()
		}
	}
	Assert(name+": one vector per digit, over every prime", ok)
	return ok
}

func crsAll(p mkrlwe.Parameters, idxs []int) (es []*Elem) {
	for _, k := range idxs {
		for i := range p.CRS[k].Value {
			es = append(es, crsE(p, k, i))
		}
	}
	return
}

func crsPolys(p mkrlwe.Parameters, idxs []int) (ps []*ring.Poly) {
	for _, k := range idxs {
		ps = append(ps, swkPolys(p.CRS[k])...)
	}
	return
}

// checkDigits: block size and digit count cover every level exactly.
func checkDigits(p mkrlwe.Parameters, gamma int) {
	alpha := p.PCount() / gamma
	Assert("the block size", p.Alpha() == alpha && p.Gamma() == gamma)
	for l := 0; l < p.QCount(); l++ {
		b := p.Beta(l)
		Assert("the digits of every level cover its primes, none is empty", b*alpha >= l+1 && (b-1)*alpha < l+1)
	}
	k := mkrlwe.NewSwitchingKey(p)
	Assert("switching keys have a digit for every block", len(k.Value) == p.Beta(p.MaxLevel()))
}

func genericParams(c cfg, gamma int) mkrlwe.Parameters {
	Q := append([]uint64{q59[0]}, q54[:c.nQ-1]...)
	p, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: logN, Q: Q, P: append([]uint64{}, q60[:c.nP]...), Sigma: rlwe.DefaultSigma})
	if err != nil {
		panic(err)
	}
	return mkrlwe.NewParameters(p, gamma)
}

// C22_Default: default reference strings and digit counts for many shapes.
func C22_Default() {
	gamma := opt("gamma", 3) + 1
	c := cfg{opt("Q", 8) + 1, 0}
	c.nP = gamma + opt("P", 8-gamma+1)
	p := genericParams(c, gamma)
	checkDigits(p, gamma)
	for _, k := range defaultIdx() {
		if !crsShape("reference string", p, k, c.nP/gamma) {
			return
		}
	}
	Uniform("independent uniform reference strings", crsAll(p, defaultIdx())...)
	Separate("reference strings share no memory", crsPolys(p, defaultIdx()))
}

// C22_Schemes: the same for the CKKS and BFV parameters.
func C22_Schemes() {
	var p mkrlwe.Parameters
	var c cfg
	if opt("scheme", 2) == 0 {
		c = pick("cfg", cfg{1, 2}, cfg{3, 2}, cfg{4, 4}, cfg{5, 4}, cfg{5, 6}, cfg{7, 3})
		p = ckksParams(c).Parameters
	} else {
		c = pick("cfg", cfg{1, 2}, cfg{3, 2}, cfg{4, 4}, cfg{3, 6}, cfg{6, 6}, cfg{4, 5})
		p = bfvParams(c).Parameters
	}
	checkDigits(p, 2)
	for _, k := range defaultIdx() {
		if !crsShape("reference string", p, k, c.nP/2) {
			return
		}
	}
	Uniform("independent uniform reference strings", crsAll(p, defaultIdx())...)
	Separate("reference strings share no memory", crsPolys(p, defaultIdx()))
}

// C22_Add: strings added later are independent of all others and visible to every holder of the parameters.
func C22_Add() {
	c := pick("cfg", cfg{1, 2}, cfg{3, 2}, cfg{4, 4}, cfg{3, 5})
	pairs := [][]int{{3, 5}, {5, 3}, {3, 259}, {3, 65539}, {3, 1<<32 + 3}, {7, 7 + 256*256*256}, {5, -5}, {-1 << 40, 6}, {-6, 250}, {16, 9}, {-257, -1000}, {4096, -4096}, {1 << 62, 12}}
	idx := append([]int{}, pairs[opt("indices", len(pairs))]...)
	scheme := opt("scheme", 3)
	var ck mkckks.Parameters
	var bf mkbfv.Parameters
	var p, q mkrlwe.Parameters
	switch scheme {
	case 0:
		p = rlweParams(c)
		q = p
	case 1:
		ck = ckksParams(c)
		p, q = ck.Parameters, ck.Parameters
	case 2:
		if c.nP >= 4 && c.nQ%2 == 1 {
			c = cfg{4, 4}
		}
		bf = bfvParams(c)
		p, q = bf.Parameters, bf.Parameters
	}
	kg := mkrlwe.NewKeyGenerator(q)
	base := crsPolys(p, defaultIdx())
	snap := copyPolys(base)
	before := make(map[int]bool)
	for _, k := range defaultIdx() {
		before[k] = true
	}
	var mine []*ring.Poly
	var keep []*ring.Poly
	all := defaultIdx()
	for _, k := range idx {
		if !NoPanic("an index is accepted", func() {
			switch scheme {
			case 0:
				p.AddCRS(k)
			case 1:
				ck.AddCRS(k)
			case 2:
				bf.AddCRS(k)
			}
		}) {
			return
		}
		if !crsShape("added reference string", p, k, c.nP/2) || !crsShape("added reference string, seen by another holder", q, k, c.nP/2) {
			return
		}
		for i := range p.CRS[k].Value {
			EqPoly("every holder has the same string", p.CRS[k].Value[i].Q, q.CRS[k].Value[i].Q)
			EqPoly("every holder has the same string", p.CRS[k].Value[i].P, q.CRS[k].Value[i].P)
		}
		if mine != nil {
			samePolys("earlier additions are kept", mine, keep)
		}
		all = append(all, k)
		before[k] = true
		mine = append(mine, crsPolys(p, []int{k})...)
		keep = copyPolys(mine)
	}
	samePolys("default strings are kept", crsPolys(p, defaultIdx()), snap)
	Assert("no other index appears", len(p.CRS) == len(before))
	Uniform("independent uniform reference strings", crsAll(p, all)...)
	Separate("reference strings share no memory", crsPolys(p, all))
	// a generator made before the addition uses the string for its index
	if k := idx[0]; k > 0 && k < n/2 {
		sk := kg.GenSecretKey("alice")
		var rk *mkrlwe.RotationKey
		if NoPanic("a rotation key for the added index", func() { rk = kg.GenRotationKey(k, sk) }) {
			checkRK("rotation key for the added index", p, rk, sk, k)
		}
	}
}
