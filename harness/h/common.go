// Package h holds the property harnesses: functions named Cnn_Xxx over the exported API of the
// code under test. The symbolic engine runs them with every coefficient symbolic; natively they
// run on concrete values.
package h

import (
	"fmt"
	"math"

	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"

	. "vharness/vsym"
)

// the ring degree, number of slots, default scale and plaintext modulus of the parameters (see at)
var (
	logN     = 4
	n        = 1 << logN
	logSlots = 3
	ckScale  = float64(1 << 52)
	plainT   = uint64(65537)
	sigma    = rlwe.DefaultSigma
	forced   []cfg // pick's alternatives, if not nil
	otherQ   int   // 1: take other primes than usual, 2: but for the first and last of each chain, 3: of very different sizes, 4: of 59 and 60 bits
)

// at runs f with another ring degree, over the given parameter shapes.
func at(lgN int, cs []cfg, f func()) {
	defer func(a, b, c int, d float64, t uint64, e []cfg, s, b6 float64) {
		logN, n, logSlots, ckScale, plainT, forced, sigma, eB = a, b, c, d, t, e, s, b6
	}(logN, n, logSlots, ckScale, plainT, forced, sigma, eB)
	logN, n, logSlots, forced = lgN, 1<<uint(lgN), lgN-1, cs
	f()
}

// moduli of the repository's own parameter sizes
var (
	q60 = []uint64{0xffffffffffc0001, 0xfffffffff840001, 0xfffffffff6a0001, 0xfffffffff5a0001, 0xfffffffff2a0001, 0x10000000006e0001, 0x1000000000860001, 0x1000000000980001}
	q59 = []uint64{0x7ffffffffcc0001, 0x7ffffffffba0001, 0x7ffffffffb00001, 0x7ffffffff320001}
	q54 = []uint64{0x3fffffffd60001, 0x3fffffffca0001, 0x3fffffff360001, 0x40000000120001, 0x400000002c0001, 0x40000000480001, 0x40000000540001, 0x400000005c0001,
		0x400000006c0001, 0x40000000b00001, 0x40000000e40001, 0x40000000f60001, 0x400000010a0001, 0x400000011a0001, 0x40000001200001, 0x40000001340001, 0x400000017a0001, 0x40000001c40001, 0x40000001ca0001, 0x40000001d00001}
	q53 = []uint64{0x1fffffffd80001, 0x1fffffffb60001, 0x1fffffff920001, 0x1fffffff900001, 0x1fffffff8c0001, 0x200000000e0001, 0x20000000140001, 0x20000000280001, 0x20000000640001, 0x200000007c0001,
		0x20000000820001, 0x200000010c0001, 0x20000001180001, 0x20000001360001, 0x20000001460001, 0x20000001520001, 0x200000015e0001, 0x20000001940001, 0x20000001a00001, 0x20000001c00001}
	q52 = []uint64{0xffffffff00001, 0xfffffffe40001, 0xfffffffe20001, 0xfffffffbe0001, 0xfffffffa60001, 0x10000000060001, 0x10000000180001}
)

// qChain is a chain of k primes: a 59-bit base prime, 52-bit primes, then 53-bit and 54-bit ones (the
// longest the repository uses has 14).
func qChain(k int) []uint64 {
	switch otherQ {
	case 1:
		return append([]uint64{q59[1]}, rev(q52)...)[:k]
	case 3:
		return append([]uint64{}, 0x7fffffff380001, 0x1fffff980001, 0xffffe80001, 0x3ffc0001)[:k]
	case 4:
		return append([]uint64{q59[0]}, q60[5:]...)[:k]
	}
	all := append(append(append(append([]uint64{}, q59[0]), q52...), q53...), q54...)
	return middle(append([]uint64{}, all[:k]...), q52[3:])
}

// cfg is one parameter shape: nQ primes in Q, nP in P (alpha = nP/2).
type cfg struct{ nQ, nP int }

func (c cfg) alpha() int { return c.nP / 2 }

// middle replaces all but the first and last primes of a chain, if asked for.
func middle(c, by []uint64) []uint64 {
	for i := 1; i+1 < len(c) && otherQ == 2; i++ {
		c[i] = by[i-1]
	}
	return c
}

func pChain(k int) []uint64 {
	switch otherQ {
	case 1:
		return rev(q60)[:k]
	case 3:
		return append([]uint64{}, 0xfffffff00001, 0xffffff280001, 0xfffffebc0001, 0xfffffe5c0001)[:k]
	}
	return middle(append([]uint64{}, q60[:k]...), q60[4:])
}

func rev(a []uint64) (r []uint64) {
	for i := range a {
		r = append(r, a[len(a)-1-i])
	}
	return
}

// ckksParams: Q = 59-bit base prime and 52-bit primes, P = 60-bit primes.
func ckksParams(c cfg) mkckks.Parameters {
	Q := qChain(c.nQ)
	lit := ckks.ParametersLiteral{LogN: logN, LogSlots: logSlots, Q: Q, P: pChain(c.nP), Scale: ckScale, Sigma: sigma}
	p, err := ckks.NewParametersFromLiteral(lit)
	if err != nil {
		panic(err)
	}
	return mkckks.NewParameters(p)
}

// rlweParams: the same shapes as plain MKRLWE parameters.
func rlweParams(c cfg) mkrlwe.Parameters {
	Q := qChain(c.nQ)
	p, err := rlwe.NewParametersFromLiteral(rlwe.ParametersLiteral{LogN: logN, Q: Q, P: pChain(c.nP), Sigma: sigma})
	if err != nil {
		panic(err)
	}
	return mkrlwe.NewParameters(p, 2)
}

// bfvParams: nQ 54-bit primes, as many 53-bit ones for QMul.
func bfvParams(c cfg) mkbfv.Parameters {
	q, m := q54, q53
	switch otherQ {
	case 1:
		q, m = rev(q54), rev(q53)
	case 3:
		q, m = []uint64{0x1fffff980001, 0xffffe80001, 0xffffc40001, 0x3ffc0001}, []uint64{0x1ffffeb40001, 0xffff940001, 0xffff780001, 0x3ffffffff040001}
	case 4:
		q, m = q59, q60[4:]
	}
	q, m = append([]uint64{}, q[:c.nQ]...), append([]uint64{}, m[:c.nQ]...)
	return mkbfv.NewParametersFromLiteral(mkbfv.ParametersLiteral{LogN: logN, Q: middle(q, q54[8:]), QMul: middle(m, q53[8:]),
		P: pChain(c.nP), T: plainT, Sigma: sigma})
}

// spread, if not negative, stands for a selection among the choices: opt then takes one of them.
var spread, asked = -1, 0

// opt is a choice among k, all of which are explored.
func opt(name string, k int) int {
	if spread < 0 || k < 2 {
		return Choose(name, k)
	}
	asked++
	return (k - 1 + spread*(2*asked+1)) % k
}

func pick(name string, cs ...cfg) cfg {
	if forced != nil {
		cs = forced
	}
	return cs[opt(name, len(cs))]
}

func nf() float64 { return float64(n) }

// powers are the indices of the default rotation keys.
func powers() (r []int) {
	for k := 1; k < n/2; k *= 2 {
		r = append(r, k)
	}
	return
}

// allNames: the identities of the harnesses, in the order of their letters.
var allNames = func() []string {
	r := []string{"alice", "bob", "carol", "dave"}
	for i := 5; i <= 72; i++ {
		r = append(r, fmt.Sprintf("party%02d", i))
	}
	return r
}()

func names(n int) []string { return append([]string{}, allNames[:n]...) }

func idset(ids []string) *mkrlwe.IDSet {
	s := mkrlwe.NewIDSet()
	for _, id := range ids {
		s.Add(id)
	}
	return s
}

// bit masks over names(n)
func subset(ns []string, mask int) []string {
	var r []string
	for i, n := range ns {
		if mask>>uint(i)&1 == 1 {
			r = append(r, n)
		}
	}
	return r
}

func has(ids []string, id string) bool {
	for _, x := range ids {
		if x == id {
			return true
		}
	}
	return false
}

func union(a, b []string) []string {
	r := append([]string{}, a...)
	for _, x := range b {
		if !has(r, x) {
			r = append(r, x)
		}
	}
	return r
}

// fillCt returns an arbitrary ciphertext body: every component any coefficient vector with words in
// [0,q] (the operations of the library themselves may leave q for zero).
func fillCt(name string, p mkrlwe.Parameters, ids []string, lvl int) *mkrlwe.Ciphertext {
	ct := mkrlwe.NewCiphertext(p, idset(ids), lvl)
	FillLoose(name+".0", p.RingQ(), lvl, ct.Value["0"], false)
	for _, id := range ids {
		FillLoose(name+"."+id, p.RingQ(), lvl, ct.Value[id], false)
	}
	return ct
}

func fillCK(name string, p mkckks.Parameters, ids []string, lvl int, scale float64) *mkckks.Ciphertext {
	return &mkckks.Ciphertext{Ciphertext: fillCt(name, p.Parameters, ids, lvl), Scale: scale}
}

// skE is the secret key as a ring element modulo the first lvl+1 primes of Q.
func skE(p mkrlwe.Parameters, sk *mkrlwe.SecretKey, lvl int) *Elem {
	return Of(p.RingQ(), lvl, sk.Value.Q, true, true)
}

// skP is the secret key modulo P.
func skP(p mkrlwe.Parameters, sk *mkrlwe.SecretKey) *Elem {
	return Of(p.RingP(), p.PCount()-1, sk.Value.P, true, true)
}

// skEP is the secret key modulo the first lvl+1 primes of Q and P.
func skEP(p mkrlwe.Parameters, sk *mkrlwe.SecretKey, lvl int) *Elem {
	return Join(skE(p, sk, lvl), skP(p, sk))
}

func ctE(p mkrlwe.Parameters, ct *mkrlwe.Ciphertext, id string, lvl int) *Elem {
	return Of(p.RingQ(), lvl, ct.Value[id], false, false)
}

// phase is body + sum of components times secrets.
func phase(p mkrlwe.Parameters, ct *mkrlwe.Ciphertext, sks map[string]*mkrlwe.SecretKey, ids []string, lvl int) *Elem {
	e := ctE(p, ct, "0", lvl)
	for _, id := range ids {
		e = Add(e, Mul(ctE(p, ct, id, lvl), skE(p, sks[id], lvl)))
	}
	return e
}

func secrets(kg *mkrlwe.KeyGenerator, ids []string) map[string]*mkrlwe.SecretKey {
	m := map[string]*mkrlwe.SecretKey{}
	for _, id := range ids {
		m[id] = kg.GenSecretKey(id)
	}
	return m
}

func skSet(sks map[string]*mkrlwe.SecretKey, ids []string) *mkrlwe.SecretKeySet {
	s := mkrlwe.NewSecretKeySet()
	for _, id := range ids {
		s.AddSecretKey(sks[id])
	}
	return s
}

// checkShape asserts that ct holds exactly the body and the listed components, all at level lvl,
// with coefficients in [0,q] and in the coefficient domain.
func checkShape(name string, p mkrlwe.Parameters, ct *mkrlwe.Ciphertext, ids []string, lvl int) bool {
	ok := len(ct.Value) == len(ids)+1
	if ct.Value["0"] == nil {
		ok = false
	}
	for _, id := range ids {
		if ct.Value[id] == nil {
			ok = false
		}
	}
	Assert(name+": components are the body and the involved parties", ok)
	if !ok {
		return false
	}
	for _, id := range append([]string{"0"}, ids...) {
		if len(ct.Value[id].Coeffs) != lvl+1 {
			Assert(name+": level of every component", false)
			return false
		}
	}
	Assert(name+": level of every component", true)
	for _, id := range append([]string{"0"}, ids...) {
		WithinQ(name+": reduced coefficients", p.RingQ(), lvl, ct.Value[id], 1)
		Assert(name+": coefficient domain", !ct.Value[id].IsNTT)
	}
	return true
}

func mods(r *ring.Ring, lvl int) []uint64 { return r.Modulus[:lvl+1] }

func lg(x float64) float64 { return math.Log2(x) }

const (
	sigma6  = 19.0 // bound of one Gaussian sample (6*3.2)
	logTern = 0
)

// ksNoise bounds (log2) the noise of one key switch: beta digits, each below (in absolute value) the
// product of alpha primes times a small constant, times a Gaussian, divided by P, plus rounding.
func ksNoise(p mkrlwe.Parameters, lvl int) float64 {
	alpha := p.Alpha()
	lp := 0.0
	for _, m := range p.RingP().Modulus {
		lp += lg(float64(m))
	}
	sum := 0.0
	for i := 0; i < p.Beta(lvl); i++ {
		ld := 0.0
		for k := i * alpha; k < (i+1)*alpha && k <= lvl; k++ {
			ld += lg(float64(p.RingQ().Modulus[k]))
		}
		sum += math.Exp2(ld+2-lp) * nf() * sigma6
	}
	// rounding: at most (alpha+2)/2 per component, times (1 + N) for the secret
	sum += float64(len(p.RingP().Modulus)+2) * (1 + nf())
	return lg(sum) + 1
}

// copyCt is a snapshot of a ciphertext.
func copyCt(ct *mkrlwe.Ciphertext) *mkrlwe.Ciphertext {
	r := &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}
	for id := range ct.Value {
		r.Value[id] = ct.Value[id].CopyNew()
	}
	return r
}

// sameCt asserts that ct still is snap.
func sameCt(name string, ct, snap *mkrlwe.Ciphertext) {
	if len(ct.Value) != len(snap.Value) {
		Assert(name+": same components", false)
		return
	}
	for _, id := range sortedIDs(snap) {
		if ct.Value[id] == nil {
			Assert(name+": same components", false)
			return
		}
		EqPoly(name, ct.Value[id], snap.Value[id])
	}
}

func sortedIDs(ct *mkrlwe.Ciphertext) []string {
	r := []string{"0"}
	for _, id := range allNames {
		if _, ok := ct.Value[id]; ok {
			r = append(r, id)
		}
	}
	return r
}

// disjointCts asserts that no polynomial of a shares memory with one of b.
func disjointCts(name string, a, b *mkrlwe.Ciphertext) {
	for _, x := range sortedIDs(a) {
		for _, y := range sortedIDs(b) {
			Disjoint(name, a.Value[x], b.Value[y])
		}
	}
}

func str(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }
