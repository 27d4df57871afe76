// Package vsym is the vocabulary of the property harnesses. Compiled natively (this file) it
// executes a harness on concrete values and checks every assertion with big-integer
// arithmetic: that is the replay. The symbolic engine (/verif/symgo) intercepts every
// function of this package and gives it the corresponding symbolic meaning.
package vsym

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"sync"
	"unsafe"

	"github.com/ldsec/lattigo/v2/ring"
)

// ---- replay state (native only) ---------------------------------------------------------------

type State struct {
	Choices  []int
	Pos      int
	Mode     int // how Fill chooses values
	Rnd      *rand.Rand
	Fails    []string
	Checks   int
	Points   []Point           // choice points met
	Force    map[string]uint64 // "name/index" -> value
	Log      func(string)
	Thorough bool
}

type Point struct {
	Name string
	N    int
}

// Abandon is raised by Assume(false).
type Abandon struct{}

var St = &State{Rnd: rand.New(rand.NewSource(1))}

func (s *State) fail(name, f string, a ...any) {
	s.Fails = append(s.Fails, name+": "+fmt.Sprintf(f, a...))
}

// Choose returns a value in [0,n); every value is explored.
func Choose(name string, n int) int {
	v := 0
	if St.Pos < len(St.Choices) {
		v = St.Choices[St.Pos]
	}
	St.Pos++
	St.Points = append(St.Points, Point{name, n})
	return v
}

func Assert(name string, ok bool) {
	St.Checks++
	if !ok {
		St.fail(name, "assertion false")
	}
}

// Assume abandons the path unless ok.
func Assume(ok bool) {
	if !ok {
		panic(Abandon{})
	}
}

// MapOrder selects the iteration order of maps (symbolic only; natively the runtime chooses).
func MapOrder(k int) {}

// PanicMsg runs f and returns how it panicked ("" when it returned).
func PanicMsg(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(Abandon); ok {
				panic(a)
			}
			msg = fmt.Sprint(r)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

// NoPanic asserts that f returns.
func NoPanic(name string, f func()) bool {
	m := PanicMsg(f)
	St.Checks++
	if m != "" {
		St.fail(name, "panicked: %s", m)
	}
	return m == ""
}

// Refuses asserts that f panics.
func Refuses(name string, f func()) {
	St.Checks++
	if PanicMsg(f) == "" {
		St.fail(name, "returned instead of refusing")
	}
}

// Concurrent asserts that the operations do not interfere however their steps are interleaved.
// Natively they run in goroutines of their own, under the race detector.
func Concurrent(name string, labels []string, fs []func()) {
	St.Checks++
	msgs := make([]string, len(fs))
	var wg sync.WaitGroup
	for i := range fs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			msgs[i] = PanicMsg(fs[i])
		}(i)
	}
	wg.Wait()
	for i, m := range msgs {
		if m != "" {
			St.fail(name, "%s panicked: %s", labels[i], m)
		}
	}
}

// ---- inputs -------------------------------------------------------------------------------------

func edge(mode int, i, j int, q uint64, r *rand.Rand) uint64 {
	switch mode {
	case 1:
		return 0
	case 2:
		return q - 1
	case 3:
		return q / 2
	case 4:
		return 1 % q
	case 5:
		if r.Intn(2) == 0 {
			return q - 1
		}
		return 0
	case 6:
		return q/2 + 1
	case 7: // sparse
		if r.Intn(4) == 0 {
			return r.Uint64() % q
		}
		return 0
	}
	return r.Uint64() % q
}

// Fill sets rows 0..lvl of p to arbitrary canonical residues.
func Fill(name string, r *ring.Ring, lvl int, p *ring.Poly, ntt bool) {
	for i := 0; i <= lvl; i++ {
		for j := range p.Coeffs[i] {
			p.Coeffs[i][j] = edge(St.Mode, i, j, r.Modulus[i], St.Rnd)
			if v, ok := St.Force[fmt.Sprintf("%s/%d/%d", name, i, j)]; ok {
				p.Coeffs[i][j] = v % r.Modulus[i]
			}
		}
	}
	p.IsNTT = ntt
}

// FillLoose is Fill with residues anywhere in [0,q].
func FillLoose(name string, r *ring.Ring, lvl int, p *ring.Poly, ntt bool) {
	Fill(name, r, lvl, p, ntt)
	for i := 0; i <= lvl; i++ {
		for j := range p.Coeffs[i] {
			if p.Coeffs[i][j] == 0 && St.Rnd.Intn(2) == 0 {
				p.Coeffs[i][j] = r.Modulus[i]
			}
			if v, ok := St.Force[fmt.Sprintf("%s/%d/%d", name, i, j)]; ok && v <= r.Modulus[i] {
				p.Coeffs[i][j] = v
			}
		}
	}
}

// FillUpTo is Fill with words anywhere in [0,k*q].
func FillUpTo(name string, r *ring.Ring, lvl int, p *ring.Poly, ntt bool, k uint64) {
	Fill(name, r, lvl, p, ntt)
	for i := 0; i <= lvl; i++ {
		for j := range p.Coeffs[i] {
			x := p.Coeffs[i][j] + uint64(St.Rnd.Intn(int(k)+1))*r.Modulus[i]
			if x <= k*r.Modulus[i] {
				p.Coeffs[i][j] = x
			}
			if v, ok := St.Force[fmt.Sprintf("%s/%d/%d", name, i, j)]; ok && v <= k*r.Modulus[i] {
				p.Coeffs[i][j] = v
			}
		}
	}
}

// FillSmall sets p to an arbitrary integer polynomial with coefficients in [-b,b].
func FillSmall(name string, r *ring.Ring, lvl int, p *ring.Poly, b int64) {
	n := len(p.Coeffs[0])
	for j := 0; j < n; j++ {
		v := int64(0)
		switch St.Mode {
		case 1:
		case 2:
			v = b
		case 3:
			v = -b
		case 5:
			v = b
			if St.Rnd.Intn(2) == 0 {
				v = -b
			}
		default:
			v = St.Rnd.Int63n(2*b+1) - b
		}
		if x, ok := St.Force[fmt.Sprintf("%s/0/%d", name, j)]; ok {
			v = int64(x)
		}
		for i := 0; i <= lvl; i++ {
			q := int64(r.Modulus[i])
			p.Coeffs[i][j] = uint64(((v % q) + q) % q)
		}
	}
}

// ---- ring elements -------------------------------------------------------------------------------

// Elem is an element of prod Z_q[X]/(X^N+1), one component per modulus.
type Elem struct {
	Q []uint64
	C [][]*big.Int
}

// Of reads rows 0..lvl of p; ntt and mont say how p is represented.
func Of(r *ring.Ring, lvl int, p *ring.Poly, ntt, mont bool) *Elem {
	return ofMods(r, 0, lvl+1, p, ntt, mont)
}

func ofMods(r *ring.Ring, lo, hi int, p *ring.Poly, ntt, mont bool) *Elem {
	e := &Elem{}
	for i := lo; i < hi; i++ {
		q := r.Modulus[i]
		c := make([]uint64, r.N)
		for j := range c {
			c[j] = p.Coeffs[i][j] % q
		}
		if ntt {
			o := make([]uint64, r.N)
			ring.InvNTT(c, o, r.N, r.NttPsiInv[i], r.NttNInv[i], q, r.MredParams[i])
			c = o
		}
		bq := new(big.Int).SetUint64(q)
		f := big.NewInt(1)
		if mont {
			f.ModInverse(new(big.Int).Lsh(big.NewInt(1), 64), bq)
		}
		row := make([]*big.Int, r.N)
		for j := range c {
			x := new(big.Int).SetUint64(c[j])
			row[j] = x.Mod(x.Mul(x, f), bq)
		}
		e.Q = append(e.Q, q)
		e.C = append(e.C, row)
	}
	return e
}

func same(a, b *Elem) {
	if len(a.Q) != len(b.Q) {
		panic(fmt.Sprintf("vsym: elements over %d and %d moduli", len(a.Q), len(b.Q)))
	}
	for i := range a.Q {
		if a.Q[i] != b.Q[i] {
			panic("vsym: elements over different moduli")
		}
	}
}

func lin(a, b *Elem, s int64) *Elem {
	same(a, b)
	e := &Elem{Q: a.Q}
	k := big.NewInt(s)
	for i, q := range a.Q {
		bq := new(big.Int).SetUint64(q)
		row := make([]*big.Int, len(a.C[i]))
		for j := range row {
			x := new(big.Int).Mul(b.C[i][j], k)
			x.Add(x, a.C[i][j])
			row[j] = x.Mod(x, bq)
		}
		e.C = append(e.C, row)
	}
	return e
}

func Add(a, b *Elem) *Elem { return lin(a, b, 1) }
func Sub(a, b *Elem) *Elem { return lin(a, b, -1) }

// Mul is the product in the negacyclic ring.
func Mul(a, b *Elem) *Elem {
	same(a, b)
	e := &Elem{Q: a.Q}
	for i, q := range a.Q {
		bq := new(big.Int).SetUint64(q)
		n := len(a.C[i])
		row := make([]*big.Int, n)
		for j := range row {
			row[j] = new(big.Int)
		}
		t := new(big.Int)
		for x := 0; x < n; x++ {
			if a.C[i][x].Sign() == 0 {
				continue
			}
			for y := 0; y < n; y++ {
				t.Mul(a.C[i][x], b.C[i][y])
				if x+y >= n {
					row[x+y-n].Sub(row[x+y-n], t)
				} else {
					row[x+y].Add(row[x+y], t)
				}
			}
		}
		for j := range row {
			row[j].Mod(row[j], bq)
		}
		e.C = append(e.C, row)
	}
	return e
}

// Aut applies X -> X^g.
func Aut(a *Elem, g uint64) *Elem {
	e := &Elem{Q: a.Q}
	for i, q := range a.Q {
		n := uint64(len(a.C[i]))
		bq := new(big.Int).SetUint64(q)
		row := make([]*big.Int, n)
		for j := uint64(0); j < n; j++ {
			k := (j * g) % (2 * n)
			x := new(big.Int).Set(a.C[i][j])
			if k >= n {
				k -= n
				x.Neg(x)
				x.Mod(x, bq)
			}
			row[k] = x
		}
		e.C = append(e.C, row)
	}
	return e
}

// MulMods multiplies by the product of ms.
func MulMods(a *Elem, ms []uint64) *Elem {
	p := big.NewInt(1)
	for _, m := range ms {
		p.Mul(p, new(big.Int).SetUint64(m))
	}
	return scale(a, p)
}

// MulInt multiplies by an integer.
func MulInt(a *Elem, k int64) *Elem { return scale(a, big.NewInt(k)) }

func scale(a *Elem, k *big.Int) *Elem {
	e := &Elem{Q: a.Q}
	for i, q := range a.Q {
		bq := new(big.Int).SetUint64(q)
		row := make([]*big.Int, len(a.C[i]))
		for j := range row {
			x := new(big.Int).Mul(a.C[i][j], k)
			row[j] = x.Mod(x, bq)
		}
		e.C = append(e.C, row)
	}
	return e
}

// Restrict keeps the components modulo qs (which must be among a's moduli).
func Restrict(a *Elem, qs []uint64) *Elem {
	e := &Elem{}
	for _, q := range qs {
		for i := range a.Q {
			if a.Q[i] == q {
				e.Q = append(e.Q, q)
				e.C = append(e.C, a.C[i])
				break
			}
		}
	}
	if len(e.Q) != len(qs) {
		panic("vsym: Restrict to foreign moduli")
	}
	return e
}

// Join puts together components over disjoint moduli.
func Join(a, b *Elem) *Elem {
	return &Elem{Q: append(append([]uint64{}, a.Q...), b.Q...), C: append(append([][]*big.Int{}, a.C...), b.C...)}
}

// ZeroE is zero modulo qs.
func ZeroE(n int, qs []uint64) *Elem {
	e := &Elem{Q: append([]uint64{}, qs...)}
	for range qs {
		row := make([]*big.Int, n)
		for j := range row {
			row[j] = new(big.Int)
		}
		e.C = append(e.C, row)
	}
	return e
}

// ConstE is the polynomial X^deg * k modulo qs.
func ConstE(n int, qs []uint64, k int64, deg int) *Elem {
	e := ZeroE(n, qs)
	for i, q := range qs {
		e.C[i][deg].Mod(big.NewInt(k), new(big.Int).SetUint64(q))
	}
	return e
}

// Lift extends a (over Q) to Q and R: the element R*a.
func Lift(a *Elem, R []uint64) *Elem {
	return Join(MulMods(a, R), ZeroE(len(a.C[0]), R))
}

// centred reconstructs the integer polynomial of e, centred modulo the product of its moduli.
func centred(e *Elem) []*big.Int {
	Q := big.NewInt(1)
	for _, q := range e.Q {
		Q.Mul(Q, new(big.Int).SetUint64(q))
	}
	n := len(e.C[0])
	out := make([]*big.Int, n)
	for j := range out {
		out[j] = new(big.Int)
	}
	for i, q := range e.Q {
		bq := new(big.Int).SetUint64(q)
		h := new(big.Int).Div(Q, bq)
		inv := new(big.Int).ModInverse(new(big.Int).Mod(h, bq), bq)
		h.Mul(h, inv)
		for j := range out {
			out[j].Add(out[j], new(big.Int).Mul(e.C[i][j], h))
		}
	}
	half := new(big.Int).Rsh(Q, 1)
	for j := range out {
		out[j].Mod(out[j], Q)
		if out[j].Cmp(half) > 0 {
			out[j].Sub(out[j], Q)
		}
	}
	return out
}

// Near asserts: R*got - want is, over Q and R together (got is over Q, want over Q and R, and
// R*got is zero modulo R), the image of one integer polynomial with coefficients at most
// R*2^logB in absolute value. With want = Lift(w,R) it says |got - w| <= 2^logB.
func Near(name string, got *Elem, R []uint64, want *Elem, logB float64) {
	St.Checks++
	d := Sub(Lift(got, R), want)
	pr := big.NewInt(1)
	for _, m := range R {
		pr.Mul(pr, new(big.Int).SetUint64(m))
	}
	lim := pow2(logB)
	lim.Mul(lim, pr)
	if logB < 52 {
		f := new(big.Float).SetPrec(2000).SetInt(pr)
		f.Mul(f, new(big.Float).SetFloat64(math.Exp2(logB)))
		lim, _ = f.Int(nil)
	}
	for j, x := range centred(d) {
		if x.CmpAbs(lim) > 0 {
			St.fail(name, "coefficient %d is off by 2^%.1f, allowed 2^%.1f", j, log2(x), log2(lim))
			return
		}
	}
}

// Equal asserts equality of ring elements.
func Equal(name string, a, b *Elem) {
	St.Checks++
	d := Sub(a, b)
	for i := range d.C {
		for j := range d.C[i] {
			if d.C[i][j].Sign() != 0 {
				St.fail(name, "differs modulo %d at coefficient %d", d.Q[i], j)
				return
			}
		}
	}
}

func pow2(l float64) *big.Int {
	if l < 0 {
		return new(big.Int)
	}
	f := new(big.Float).SetFloat64(math.Exp2(l - math.Floor(l)))
	f.SetMantExp(f, int(math.Floor(l)))
	r, _ := f.Int(nil)
	return r
}

func log2(x *big.Int) float64 {
	f := new(big.Float).SetInt(new(big.Int).Abs(x))
	if f.Sign() == 0 {
		return -1
	}
	m := new(big.Float)
	e := f.MantExp(m)
	v, _ := m.Float64()
	return math.Log2(v) + float64(e)
}

// EqPoly asserts that two polynomials hold the same words on the same number of rows.
func EqPoly(name string, a, b *ring.Poly) {
	St.Checks++
	if len(a.Coeffs) != len(b.Coeffs) {
		St.fail(name, "%d and %d rows", len(a.Coeffs), len(b.Coeffs))
		return
	}
	for i := range a.Coeffs {
		for j := range a.Coeffs[i] {
			if a.Coeffs[i][j] != b.Coeffs[i][j] {
				St.fail(name, "row %d word %d: %d and %d", i, j, a.Coeffs[i][j], b.Coeffs[i][j])
				return
			}
		}
	}
	if a.IsNTT != b.IsNTT || a.IsMForm != b.IsMForm {
		St.fail(name, "domain flags differ")
	}
}

// Canonical asserts that every word of rows 0..lvl lies in [0,q).
func Canonical(name string, r *ring.Ring, lvl int, p *ring.Poly) {
	St.Checks++
	for i := 0; i <= lvl; i++ {
		for j, x := range p.Coeffs[i] {
			if x >= r.Modulus[i] {
				St.fail(name, "row %d word %d not reduced", i, j)
				return
			}
		}
	}
}

// WithinQ asserts that every word of rows 0..lvl lies in [0, k*q].
func WithinQ(name string, r *ring.Ring, lvl int, p *ring.Poly, k uint64) {
	St.Checks++
	for i := 0; i <= lvl; i++ {
		for j, x := range p.Coeffs[i] {
			if x > k*r.Modulus[i] {
				St.fail(name, "row %d word %d exceeds %d*q", i, j, k)
				return
			}
		}
	}
}

// Disjoint asserts that two polynomials share no memory.
func Disjoint(name string, a, b *ring.Poly) {
	St.Checks++
	if a == b {
		St.fail(name, "same polynomial")
		return
	}
	for i := range a.Coeffs {
		for k := range b.Coeffs {
			x, y := a.Coeffs[i], b.Coeffs[k]
			if len(x) == 0 || len(y) == 0 {
				continue
			}
			x0, y0 := uintptr(unsafe.Pointer(&x[0])), uintptr(unsafe.Pointer(&y[0]))
			if x0 < y0+uintptr(len(y))*8 && y0 < x0+uintptr(len(x))*8 {
				St.fail(name, "row %d shares memory with row %d", i, k)
				return
			}
		}
	}
}

// DisjointAll asserts that no polynomial of a shares memory with one of b; Separate that no two of a do.
func DisjointAll(name string, a, b []*ring.Poly) {
	for _, x := range a {
		for _, y := range b {
			Disjoint(name, x, y)
		}
	}
}

func Separate(name string, a []*ring.Poly) {
	for i := range a {
		for j := 0; j < i; j++ {
			Disjoint(name, a[i], a[j])
		}
	}
}

// Fresh asserts that every element carries noise of its own: symbolically, a sampled small
// polynomial occurring linearly in that element and in no other (nor in hidden); natively, that the
// elements are pairwise different.
func Fresh(name string, es ...*Elem) {
	St.Checks++
	for i := range es {
		for j := 0; j < i; j++ {
			if reflect.DeepEqual(str(es[i]), str(es[j])) {
				St.fail(name, "elements %d and %d are equal", j, i)
			}
		}
		zero := true
		for _, c := range es[i].C {
			for _, x := range c {
				if x.Sign() != 0 {
					zero = false
				}
			}
		}
		if zero {
			St.fail(name, "element %d is zero", i)
		}
	}
}

// Uniform asserts that the elements are independent uniform samples modulo each of their primes;
// natively, that their residues spread over the whole range and no two elements agree modulo a prime.
func Uniform(name string, es ...*Elem) {
	St.Checks++
	rows := map[string]int{}
	for i, e := range es {
		for k, q := range e.Q {
			lo, hi := new(big.Int).SetUint64(q), new(big.Int)
			for _, x := range e.C[k] {
				if x.Cmp(lo) < 0 {
					lo = x
				}
				if x.Cmp(hi) > 0 {
					hi = x
				}
			}
			b := new(big.Int).SetUint64(q)
			if new(big.Int).Lsh(hi, 3).Cmp(b) < 0 || new(big.Int).Lsh(new(big.Int).Sub(b, lo), 3).Cmp(b) < 0 {
				St.fail(name, "element %d does not spread over the range modulo %d", i, q)
				return
			}
			s := fmt.Sprint(q, e.C[k])
			if j, ok := rows[s]; ok {
				St.fail(name, "elements %d and %d agree modulo %d", j, i, q)
				return
			}
			rows[s] = i
		}
	}
}

// Reps is the number of repetitions: sym under the engine, native on the real code (for statistics).
func Reps(sym, native int) int { return native }

// small reads an element as one small integer polynomial (nil when it is not the same modulo every prime).
func small(e *Elem, lim int64) []int64 {
	r := make([]int64, len(e.C[0]))
	for k, q := range e.Q {
		b := new(big.Int).SetUint64(q)
		for j, x := range e.C[k] {
			y := new(big.Int).Mod(x, b)
			if new(big.Int).Lsh(y, 1).Cmp(b) > 0 {
				y.Sub(y, b)
			}
			if !y.IsInt64() || y.Int64() > lim || y.Int64() < -lim || k > 0 && r[j] != y.Int64() {
				return nil
			}
			r[j] = y.Int64()
		}
	}
	return r
}

// stats checks samples: pairwise different, not zero, of about the deviation sigma (or, for sigma 0, ternary
// with about the probability p of zero, or exactly hw non-zero coefficients).
func stats(name string, vs [][]int64, sigma, p float64, hw int) bool {
	seen := map[string]int{}
	n, sq, zeros := 0, 0.0, 0
	for i, v := range vs {
		if v == nil {
			St.fail(name, "element %d is not a small polynomial", i)
			return false
		}
		s := fmt.Sprint(v)
		// ternary samples of sixteen coefficients do coincide now and then
		if j, ok := seen[s]; ok && (sigma > 0 || len(vs) < 8) {
			St.fail(name, "elements %d and %d are the same sample", j, i)
			return false
		}
		seen[s] = i
		nz := 0
		for _, x := range v {
			n++
			sq += float64(x) * float64(x)
			if x == 0 {
				zeros++
			} else {
				nz++
			}
			if sigma == 0 && (x > 1 || x < -1) {
				St.fail(name, "element %d is not ternary", i)
				return false
			}
		}
		if hw > 0 && nz != hw {
			St.fail(name, "element %d has %d non-zero coefficients", i, nz)
			return false
		}
		if nz == 0 && (sigma > 0 || len(vs) < 8) {
			St.fail(name, "element %d is zero", i)
			return false
		}
	}
	if sigma == 0 && len(seen) < len(vs)/2 {
		St.fail(name, "most samples are equal")
		return false
	}
	N := float64(n)
	if sigma > 0 && N >= 64 {
		sd, tol := math.Sqrt(sq/N), 6/math.Sqrt(2*N)+0.03
		if sd > sigma*(1+tol) || sd < sigma*(1-tol) {
			St.fail(name, "deviation %.3f instead of %.3f over %d samples", sd, sigma, n)
			return false
		}
	}
	if sigma == 0 && hw == 0 && N >= 300 {
		z := float64(zeros) / N
		if math.Abs(z-p) > 6*math.Sqrt(p*(1-p)/N)+0.02 {
			St.fail(name, "fraction of zeros %.3f instead of %.3f over %d samples", z, p, n)
			return false
		}
	}
	return true
}

// Gauss asserts that every element is exactly one Gaussian sample of deviation sigma, its own.
func Gauss(name string, sigma float64, es ...*Elem) {
	St.Checks++
	var vs [][]int64
	for _, e := range es {
		vs = append(vs, small(e, 1<<20))
	}
	stats(name, vs, sigma, 0, 0)
}

// Tern asserts that every element is exactly one ternary sample (zero with probability p, or of weight hw), its own.
func Tern(name string, p float64, hw int, es ...*Elem) {
	St.Checks++
	var vs [][]int64
	for _, e := range es {
		vs = append(vs, small(e, 1<<20))
	}
	stats(name, vs, 0, p, hw)
}

// Masks asserts that element i is 2^logK times a ternary sample, own to its group of per consecutive elements, plus
// a Gaussian sample of its own.
func Masks(name string, logK, per int, sigma, p float64, es ...*Elem) {
	St.Checks++
	var us, gs [][]int64
	for i, e := range es {
		v := small(e, 1<<(uint(logK)+8))
		if v == nil {
			St.fail(name, "element %d is not a mask and a noise", i)
			return
		}
		u, g := make([]int64, len(v)), make([]int64, len(v))
		for j, x := range v {
			u[j] = (x + 1<<uint(logK-1)) >> uint(logK)
			g[j] = x - u[j]<<uint(logK)
		}
		if i%per == 0 {
			us = append(us, u)
		}
		gs = append(gs, g)
	}
	if stats(name+" (noise)", gs, sigma, 0, 0) {
		stats(name+" (mask)", us, 0, p, 0)
	}
}

func str(e *Elem) string { return fmt.Sprint(e.C) }

// SmallNonzero asserts that e is a non-zero polynomial with coefficients at most 2^logB.
func SmallNonzero(name string, e *Elem, logB float64) {
	St.Checks++
	lim := pow2(logB)
	nz := false
	for j, x := range centred(e) {
		if x.CmpAbs(lim) > 0 {
			St.fail(name, "coefficient %d is 2^%.1f, allowed 2^%.1f", j, log2(x), logB)
			return
		}
		if x.Sign() != 0 {
			nz = true
		}
	}
	if !nz {
		St.fail(name, "identically zero")
	}
}

// Message values. A symbolic message stands for every message; natively values are random.

// CMsg fills a slot vector.
func CMsg(name string, v []complex128) {
	for i := range v {
		v[i] = complex(St.Rnd.Float64()*2-1, St.Rnd.Float64()*2-1)
		if St.Mode == 1 {
			v[i] = 0
		}
		if St.Mode == 2 {
			v[i] = complex(1, -1)
		}
	}
}

// IMsg fills an integer vector with values in (-t/2, t/2).
func IMsg(name string, v []int64, t uint64) {
	for i := range v {
		h := int64(t-1) / 2
		v[i] = St.Rnd.Int63n(2*h+1) - h
		switch St.Mode {
		case 1:
			v[i] = 0
		case 2:
			v[i] = h
		case 3:
			v[i] = -h
		}
	}
}

// CDecodes asserts that out is the decoding of something within 2^logB (per coefficient, at scale
// 2^logScale) of the encoding of in.
func CDecodes(name string, out, in []complex128, logScale, logB float64) {
	St.Checks++
	if len(out) != len(in) {
		St.fail(name, "%d slots decoded, %d encoded", len(out), len(in))
		return
	}
	// a coefficient error of B moves a slot by at most N*B/scale
	tol := math.Exp2(logB-logScale)*float64(2*len(in))*2 + 1e-6
	for i := range in {
		if math.Abs(real(out[i])-real(in[i])) > tol || math.Abs(imag(out[i])-imag(in[i])) > tol || out[i] != out[i] {
			St.fail(name, "slot %d decodes to %v, want %v", i, out[i], in[i])
			return
		}
	}
}

// IDecodes asserts that out decodes to in.
func IDecodes(name string, out, in []int64, t uint64) {
	St.Checks++
	if len(out) != len(in) {
		St.fail(name, "%d slots decoded, %d encoded", len(out), len(in))
		return
	}
	for i := range in {
		d := (out[i] - in[i]) % int64(t)
		if d != 0 {
			St.fail(name, "slot %d decodes to %d, want %d", i, out[i], in[i])
			return
		}
	}
}

// Note records a remark in the replay log.
func Note(s string) {
	if St.Log != nil {
		St.Log(s)
	}
}

// Thorough tells which tier runs.
func Thorough() bool { return St.Thorough }

// EqI asserts that two messages are equal.
func EqI(name string, a, b []int64) {
	St.Checks++
	if !reflect.DeepEqual(a, b) {
		St.fail(name, "messages differ")
	}
}

// SameDecoded asserts that a and b decode the same polynomial in the same way.
func SameDecoded(name string, a, b []complex128) {
	St.Checks++
	if len(a) != len(b) {
		St.fail(name, "%d and %d slots", len(a), len(b))
		return
	}
	for i := range a {
		d := a[i] - b[i]
		m := math.Max(1, math.Max(math.Abs(real(b[i])), math.Abs(imag(b[i]))))
		if math.Abs(real(d)) > 1e-9*m || math.Abs(imag(d)) > 1e-9*m || d != d {
			St.fail(name, "slot %d: %v and %v", i, a[i], b[i])
			return
		}
	}
}

// MulRes multiplies by the integer whose residues modulo the element's moduli are res.
func MulRes(a *Elem, res []uint64) *Elem {
	if len(res) != len(a.Q) {
		panic("vsym: MulRes: number of residues")
	}
	e := &Elem{Q: a.Q}
	for i, q := range a.Q {
		bq, k := new(big.Int).SetUint64(q), new(big.Int).SetUint64(res[i])
		row := make([]*big.Int, len(a.C[i]))
		for j := range row {
			x := new(big.Int).Mul(a.C[i][j], k)
			row[j] = x.Mod(x, bq)
		}
		e.C = append(e.C, row)
	}
	return e
}

// Small asserts that e is the image of one integer polynomial with coefficients at most 2^logB.
func Small(name string, e *Elem, logB float64) {
	St.Checks++
	lim := pow2(logB)
	for j, x := range centred(e) {
		if x.CmpAbs(lim) > 0 {
			St.fail(name, "coefficient %d is 2^%.1f, allowed 2^%.1f", j, log2(x), logB)
			return
		}
	}
}

// EqRow asserts that row i of two polynomials holds the same words.
func EqRow(name string, a, b *ring.Poly, i int) {
	St.Checks++
	for j := range a.Coeffs[i] {
		if a.Coeffs[i][j] != b.Coeffs[i][j] {
			St.fail(name, "row %d word %d: %d and %d", i, j, a.Coeffs[i][j], b.Coeffs[i][j])
			return
		}
	}
}

// ScaledBy asserts that out is (k + l*X^(N/2))*in for integers k and l within 1/2 + rel*|c*scale| of
// re*scale and im*scale.
func ScaledBy(name string, out, in *Elem, re, im, scale, rel float64) {
	St.Checks++
	same(out, in)
	n := len(in.C[0])
	h := n / 2
	kk, ll := ZeroE(1, in.Q), ZeroE(1, in.Q)
	for i, q := range in.Q {
		bq := new(big.Int).SetUint64(q)
		found := false
		for j := 0; j < h && !found; j++ {
			// out[j] = k in[j] - l in[j+h], out[j+h] = k in[j+h] + l in[j]
			a, b := in.C[i][j], in.C[i][j+h]
			det := new(big.Int).Add(new(big.Int).Mul(a, a), new(big.Int).Mul(b, b))
			det.Mod(det, bq)
			if det.Sign() == 0 {
				continue
			}
			found = true
			det.ModInverse(det, bq)
			x, y := out.C[i][j], out.C[i][j+h]
			k := new(big.Int).Add(new(big.Int).Mul(a, x), new(big.Int).Mul(b, y))
			l := new(big.Int).Sub(new(big.Int).Mul(a, y), new(big.Int).Mul(b, x))
			kk.C[i][0].Mod(k.Mul(k, det), bq)
			ll.C[i][0].Mod(l.Mul(l, det), bq)
		}
		if !found { // no coefficient to tell: only zero is checked
			for j := range out.C[i] {
				if out.C[i][j].Sign() != 0 && allZero(in.C[i]) {
					St.fail(name, "zero is multiplied to something else modulo %d", q)
					return
				}
			}
			return
		}
		for j := 0; j < h; j++ {
			k, l := kk.C[i][0], ll.C[i][0]
			a, b := in.C[i][j], in.C[i][j+h]
			x := new(big.Int).Sub(new(big.Int).Mul(k, a), new(big.Int).Mul(l, b))
			y := new(big.Int).Add(new(big.Int).Mul(k, b), new(big.Int).Mul(l, a))
			if x.Mod(x, bq).Cmp(out.C[i][j]) != 0 || y.Mod(y, bq).Cmp(out.C[i][j+h]) != 0 {
				St.fail(name, "not a multiple of the input modulo %d", q)
				return
			}
		}
	}
	for w, e := range []*Elem{kk, ll} {
		c := []float64{re, im}[w]
		k := centred(e)[0]
		if !closeTo(k, e.Q, c, scale, rel) {
			St.fail(name, "the multiplier is %v, want %v * %v", k, c, scale)
			return
		}
	}
}

func allZero(c []*big.Int) bool {
	for _, x := range c {
		if x.Sign() != 0 {
			return false
		}
	}
	return true
}

// closeTo: some representative of k modulo the product of qs lies within 1/2 + rel*|c*scale| of c*scale.
func closeTo(k *big.Int, qs []uint64, c, scale, rel float64) bool {
	t := new(big.Rat).Mul(new(big.Rat).SetFloat64(c), new(big.Rat).SetFloat64(scale))
	tol := new(big.Rat).Mul(new(big.Rat).Abs(t), new(big.Rat).SetFloat64(rel))
	tol.Add(tol, big.NewRat(1, 2))
	Q := big.NewInt(1)
	for _, q := range qs {
		Q.Mul(Q, new(big.Int).SetUint64(q))
	}
	d := new(big.Rat).Sub(new(big.Rat).SetInt(k), t)
	// d modulo Q, centred
	f := new(big.Int).Div(d.Num(), d.Denom())
	f.Div(f, Q)
	d.Sub(d, new(big.Rat).SetInt(f.Mul(f, Q)))
	e := new(big.Rat).Sub(d, new(big.Rat).SetInt(Q))
	return d.Cmp(tol) <= 0 || e.Neg(e).Cmp(tol) <= 0
}

// Slot vectors. A symbolic Msg stands for every vector of the given length; natively values are random.

type Msg struct {
	v []complex128
	_ [1]int
}

// Symbolic is true in the symbolic engine and false natively: natively ciphertexts are real ones,
// symbolically the homomorphic operations are taken by contract.
func Symbolic() bool { return false }

// VarMsg is any slot vector; natively its slots are at most amp in each part.
func VarMsg(name string, slots int, amp float64) *Msg {
	m := &Msg{v: make([]complex128, slots)}
	CMsg(name, m.v)
	for i := range m.v {
		m.v[i] *= complex(amp, 0)
	}
	return m
}
func FromSlots(v []complex128) *Msg { return &Msg{v: append([]complex128{}, v...)} }
func Slots(m *Msg) []complex128     { return append([]complex128{}, m.v...) }

func zipMsg(a, b *Msg, f func(x, y complex128) complex128) *Msg {
	r := &Msg{v: make([]complex128, len(a.v))}
	for i := range r.v {
		r.v[i] = f(a.v[i], b.v[i])
	}
	return r
}
func MsgAdd(a, b *Msg) *Msg { return zipMsg(a, b, func(x, y complex128) complex128 { return x + y }) }
func MsgSub(a, b *Msg) *Msg { return zipMsg(a, b, func(x, y complex128) complex128 { return x - y }) }
func MsgMul(a, b *Msg) *Msg { return zipMsg(a, b, func(x, y complex128) complex128 { return x * y }) }

// MsgRot rotates to the left: slot j of the result is slot j+k.
func MsgRot(a *Msg, k int) *Msg {
	n := len(a.v)
	r := &Msg{v: make([]complex128, n)}
	for i := range r.v {
		r.v[i] = a.v[((i+k)%n+n)%n]
	}
	return r
}
func MsgConj(a *Msg) *Msg {
	return zipMsg(a, a, func(x, y complex128) complex128 { return complex(real(x), -imag(x)) })
}

// EqMsg asserts that two slot vectors agree (natively: up to tol relative to the largest slot).
func EqMsg(name string, got, want *Msg, tol float64) {
	St.Checks++
	if len(got.v) != len(want.v) {
		St.fail(name, "%d slots, want %d", len(got.v), len(want.v))
		return
	}
	mx := 1.0
	for _, x := range want.v {
		mx = math.Max(mx, math.Max(math.Abs(real(x)), math.Abs(imag(x))))
	}
	for i, x := range want.v {
		d := got.v[i] - x
		if !(math.Abs(real(d)) <= tol*mx && math.Abs(imag(d)) <= tol*mx) {
			St.fail(name, "slot %d decrypts to %v, want %v", i, got.v[i], x)
			return
		}
	}
}
