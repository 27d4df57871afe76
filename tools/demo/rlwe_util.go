package mkrlwe_test

import (
	"math/big"

	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
)

var qs = []uint64{0x7ffffffffcc0001, 0xffffffff00001, 0xfffffffe40001, 0xfffffffe20001, 0xfffffffbe0001, 0xfffffffa60001}
var ps = []uint64{0xffffffffffc0001, 0xfffffffff840001, 0xfffffffff6a0001, 0xfffffffff5a0001, 0x10000000006e0001, 0x1000000000860001}

func params(logN, nQ, nP int) mkrlwe.Parameters {
	p, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: logN, Q: qs[:nQ], P: ps[:nP], Sigma: rlwe.DefaultSigma})
	if err != nil {
		panic(err)
	}
	return mkrlwe.NewParameters(p, 2)
}

func ids(names ...string) *mkrlwe.IDSet {
	s := mkrlwe.NewIDSet()
	for _, n := range names {
		s.Add(n)
	}
	return s
}

// maxBits is the size of the largest centred coefficient of a coefficient-domain polynomial.
func maxBits(r *ring.Ring, lvl int, p *ring.Poly) int {
	v := make([]*big.Int, r.N)
	for i := range v {
		v[i] = new(big.Int)
	}
	q := &ring.Poly{Coeffs: p.Coeffs[:lvl+1]}
	r.PolyToBigintLvl(lvl, q, v)
	M := big.NewInt(1)
	for _, m := range r.Modulus[:lvl+1] {
		M.Mul(M, new(big.Int).SetUint64(m))
	}
	h := new(big.Int).Rsh(M, 1)
	b := 0
	for _, x := range v {
		if x.Cmp(h) > 0 {
			x.Sub(x, M)
		}
		if x.BitLen() > b {
			b = x.BitLen()
		}
	}
	return b
}

// phase is c_0 + sum c_i s_i in the coefficient domain.
func phase(p mkrlwe.Parameters, ct *mkrlwe.Ciphertext, sks *mkrlwe.SecretKeySet) *ring.Poly {
	d := mkrlwe.NewDecryptor(p)
	pt := rlwe.NewPlaintext(p.Parameters, ct.Level())
	pt.Value.IsNTT = false
	d.Decrypt(ct.CopyNew(), sks, pt)
	return pt.Value
}
