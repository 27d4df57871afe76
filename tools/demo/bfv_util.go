package mkbfv_test

import (
	"testing"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/rlwe"
)

type ctx struct {
	p    mkbfv.Parameters
	kg   *mkbfv.KeyGenerator
	sks  *mkrlwe.SecretKeySet
	pks  *mkrlwe.PublicKeySet
	rlk  *mkbfv.RelinearizationKeySet
	rks  *mkrlwe.RotationKeySet
	cks  *mkrlwe.ConjugationKeySet
	enc  *mkbfv.Encryptor
	dec  *mkbfv.Decryptor
	eval *mkbfv.Evaluator
}

var q54 = []uint64{0x3fffffffd60001, 0x3fffffffca0001, 0x3fffffff360001, 0x40000000120001, 0x400000002c0001, 0x40000000480001}
var q53 = []uint64{0x1fffffffd80001, 0x1fffffffb60001, 0x1fffffff920001, 0x1fffffff900001, 0x1fffffff8c0001, 0x200000000e0001}
var ps = []uint64{0xffffffffffc0001, 0xfffffffff840001, 0xfffffffff6a0001, 0xfffffffff5a0001}

func newCtx(logN, nQ, nP int, ids []string, rots []int) *ctx {
	c := &ctx{p: mkbfv.NewParametersFromLiteral(mkbfv.ParametersLiteral{LogN: logN, Q: q54[:nQ], QMul: q53[:nQ],
		P: []uint64{0xffffffffffc0001, 0xfffffffff840001, 0xfffffffff6a0001, 0xfffffffff5a0001}[:nP], T: 65537, Sigma: rlwe.DefaultSigma})}
	c.kg = mkbfv.NewKeyGenerator(c.p)
	c.sks, c.pks = mkrlwe.NewSecretKeySet(), mkrlwe.NewPublicKeyKeySet()
	c.rlk = mkbfv.NewRelinearizationKeyKeySet(c.p)
	c.rks, c.cks = mkrlwe.NewRotationKeySet(), mkrlwe.NewConjugationKeySet()
	for _, r := range rots {
		if _, in := c.p.CRS[r]; !in {
			c.p.AddCRS(r)
		}
	}
	for _, id := range ids {
		sk, pk := c.kg.GenKeyPair(id)
		c.sks.AddSecretKey(sk)
		c.pks.AddPublicKey(pk)
		c.rlk.AddRelinearizationKey(c.kg.GenRelinearizationKey(sk, c.kg.GenSecretKey(id)))
		c.cks.AddConjugationKey(c.kg.GenConjugationKey(sk))
		for k := 1; k < c.p.N()/2; k *= 2 {
			c.rks.AddRotationKey(c.kg.GenRotationKey(k, sk))
		}
		for _, r := range rots {
			if r&(r-1) != 0 {
				c.rks.AddRotationKey(c.kg.GenRotationKey(r, sk))
			}
		}
	}
	c.enc, c.dec, c.eval = mkbfv.NewEncryptor(c.p), mkbfv.NewDecryptor(c.p), mkbfv.NewEvaluator(c.p)
	return c
}

func (c *ctx) vals(seed int) []int64 {
	v := make([]int64, c.p.N())
	for i := range v {
		v[i] = int64((i*3761+seed*20011)%65537) - 32768
	}
	return v
}

func (c *ctx) encrypt(v []int64, id string) *mkbfv.Ciphertext {
	m := mkbfv.NewMessage(c.p)
	copy(m.Value, v)
	return c.enc.EncryptMsgNew(m, c.pks.GetPublicKey(id))
}

func modT(x int64) int64 { return (x%65537 + 65537) % 65537 }

func (c *ctx) same(t *testing.T, what string, ct *mkbfv.Ciphertext, want []int64) {
	t.Helper()
	got := c.dec.Decrypt(ct, c.sks).Value
	for i := range want {
		if modT(got[i]) != modT(want[i]) {
			t.Fatalf("%s: slot %d is %d, not %d", what, i, got[i], want[i])
		}
	}
}

func zip(a, b []int64, f func(x, y int64) int64) []int64 {
	r := make([]int64, len(a))
	for i := range a {
		r[i] = f(a[i], b[i])
	}
	return r
}

func add(x, y int64) int64 { return x + y }
func sub(x, y int64) int64 { return x - y }
func mul(x, y int64) int64 { return modT(x) * modT(y) }

// rot rotates both rows by k.
func rot(a []int64, k int) []int64 {
	n := len(a) / 2
	r := make([]int64, len(a))
	for i := 0; i < n; i++ {
		r[i] = a[((i+k)%n+n)%n]
		r[n+i] = a[n+((i+k)%n+n)%n]
	}
	return r
}
