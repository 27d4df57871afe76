package mkckks_test

import (
	"math"
	"math/cmplx"
	"testing"

	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/rlwe"
)

// ctx is a small context: N = 2^logN, nQ primes in Q (59 + 52 bits each), nP 60-bit primes in P.
type ctx struct {
	p    mkckks.Parameters
	kg   *mkrlwe.KeyGenerator
	sks  *mkrlwe.SecretKeySet
	pks  *mkrlwe.PublicKeySet
	rlk  *mkrlwe.RelinearizationKeySet
	rks  *mkrlwe.RotationKeySet
	cks  *mkrlwe.ConjugationKeySet
	enc  *mkckks.Encryptor
	dec  *mkckks.Decryptor
	eval *mkckks.Evaluator
}

var qs = []uint64{0x7ffffffffcc0001, 0xffffffff00001, 0xfffffffe40001, 0xfffffffe20001, 0xfffffffbe0001, 0xfffffffa60001}
var ps = []uint64{0xffffffffffc0001, 0xfffffffff840001, 0xfffffffff6a0001, 0xfffffffff5a0001}

func newCtx(logN, nQ, nP int, ids []string, rots []int) *ctx {
	lit := ckks.ParametersLiteral{LogN: logN, LogSlots: logN - 1, Q: qs[:nQ], P: ps[:nP], Scale: 1 << 52, Sigma: rlwe.DefaultSigma}
	cp, err := ckks.NewParametersFromLiteral(lit)
	if err != nil {
		panic(err)
	}
	c := &ctx{p: mkckks.NewParameters(cp)}
	c.kg = mkckks.NewKeyGenerator(c.p)
	c.sks, c.pks = mkrlwe.NewSecretKeySet(), mkrlwe.NewPublicKeyKeySet()
	c.rlk = mkrlwe.NewRelinearizationKeyKeySet(c.p.Parameters)
	c.rks, c.cks = mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
	for _, r := range rots {
		if _, in := c.p.CRS[r]; !in {
			c.p.AddCRS(r)
		}
	}
	for _, id := range ids {
		sk, pk := c.kg.GenKeyPair(id)
		c.sks.AddSecretKey(sk)
		c.pks.AddPublicKey(pk)
		c.rlk.AddRelinearizationKey(c.kg.GenRelinearizationKey(sk, c.kg.GenSecretKey(id)))
		c.cks.AddConjugationKey(c.kg.GenConjugationKey(sk))
		for k := 1; k < c.p.N()/2; k *= 2 {
			c.rks.AddRotationKey(c.kg.GenRotationKey(k, sk))
		}
		for _, r := range rots {
			if r&(r-1) != 0 {
				c.rks.AddRotationKey(c.kg.GenRotationKey(r, sk))
			}
		}
	}
	c.enc, c.dec, c.eval = mkckks.NewEncryptor(c.p), mkckks.NewDecryptor(c.p), mkckks.NewEvaluator(c.p)
	return c
}

func (c *ctx) vals(seed int) []complex128 {
	v := make([]complex128, 1<<uint(c.p.LogSlots()))
	for i := range v {
		a := float64((i*37+seed*101)%64)/64 - 0.5
		b := float64((i*53+seed*29)%32)/32 - 0.5
		v[i] = complex(a, b)
	}
	return v
}

func (c *ctx) encrypt(v []complex128, id string) *mkckks.Ciphertext {
	m := mkckks.NewMessage(c.p)
	copy(m.Value, v)
	return c.enc.EncryptMsgNew(m, c.pks.GetPublicKey(id))
}

func (c *ctx) same(t *testing.T, what string, ct *mkckks.Ciphertext, want []complex128) {
	t.Helper()
	got := c.dec.Decrypt(ct, c.sks).Value
	worst := 0.0
	for i := range want {
		worst = math.Max(worst, cmplx.Abs(got[i]-want[i]))
	}
	if !(worst < 1e-5) {
		t.Fatalf("%s: off by %g", what, worst)
	}
}

func zip(a, b []complex128, f func(x, y complex128) complex128) []complex128 {
	r := make([]complex128, len(a))
	for i := range a {
		r[i] = f(a[i], b[i])
	}
	return r
}

func rot(a []complex128, k int) []complex128 {
	n := len(a)
	r := make([]complex128, n)
	for i := range a {
		r[i] = a[((i+k)%n+n)%n]
	}
	return r
}

func add(x, y complex128) complex128 { return x + y }
func sub(x, y complex128) complex128 { return x - y }
func mul(x, y complex128) complex128 { return x * y }

func sum(v []complex128, w []complex128) []complex128 { return zip(v, w, add) }

func (c *ctx) msg(v []complex128) *mkckks.Message {
	m := mkckks.NewMessage(c.p)
	copy(m.Value, v)
	return m
}
