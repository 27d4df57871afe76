package h

import (
	"math"

	. "vharness/vsym"
)

// Other ring degrees, numbers of slots, scales and plaintext moduli than the usual ones.

func deg() int {
	if Thorough() {
		return []int{5, 6}[opt("degree", 2)]
	}
	return 5
}

// C01_Shapes: sparse packing, other degrees and scales.
func C01_Shapes() {
	type sh struct {
		logN, logSlots int
		scale          float64
	}
	s := []sh{{4, 2, 1 << 52}, {4, 0, 1 << 52}, {4, 1, 1 << 40}, {5, 4, 1 << 52}, {5, 2, 1 << 45}, {4, 3, 1 << 30}}[opt("shape", 6)]
	at(s.logN, []cfg{{1, 2}, {3, 2}}, func() {
		logSlots, ckScale = s.logSlots, s.scale
		C01_CKKS()
	})
}

// C01_BFVShapes: other plaintext moduli and degrees.
func C01_BFVShapes() {
	l := opt("degree", 2) + 4
	t := []uint64{257, 193, 786433}[opt("T", 3)]
	at(l, []cfg{{2, 2}, {3, 3}}, func() {
		plainT = t
		C01_BFV()
	})
}

// C02_Shapes: sparse packing and other plaintext moduli.
func C02_Shapes() {
	at(4+opt("degree", 2), []cfg{{2, 2}}, func() {
		if opt("scheme", 2) == 0 {
			logSlots -= 1 + opt("sparse", 2)
			C02_CKKS()
		} else {
			plainT = 257
			C02_BFV()
		}
	})
}

func C05_Degree() {
	at(deg(), []cfg{{3, 2}}, func() {
		switch opt("keys", 3) {
		case 0:
			C05_Rotation()
		case 1:
			C05_Conj()
		case 2:
			C05_Default()
		}
	})
}

func C12_Degree()  { at(deg(), []cfg{{2, 2}}, C12_Rotate) }
func C12_Degree2() { at(deg(), []cfg{{2, 2}}, C12_Direct) }
func C13_Degree()  { at(deg(), []cfg{{2, 2}}, C13_Conjugate) }
func C18_Degree()  { at(deg(), []cfg{{2, 2}}, C18_Rotate) }
func C18_Degree2() { at(deg(), []cfg{{2, 2}}, C18_Direct) }
func C22_Degree()  { at(deg(), []cfg{{3, 2}}, C22_Schemes) }

func C03_Degree()  { at(deg(), []cfg{{3, 2}}, C03_Keys) }
func C04_Degree()  { at(deg(), []cfg{{3, 2}}, C04_RLK) }
func C04_Degree2() { at(deg(), []cfg{{2, 2}}, C04_BFV) }
func C06_Degree()  { at(deg(), []cfg{{3, 2}}, C06_Decompose) }
func C06_Degree2() { at(deg(), []cfg{{2, 2}}, C06_BFV) }
func C07_Degree()  { at(deg(), []cfg{{3, 2}}, C07_External) }
func C07_Degree2() { at(deg(), []cfg{{2, 2}}, C07_BFV) }
func C08_Degree()  { at(deg(), []cfg{{3, 2}}, C08_ModUp) }
func C08_Degree2() { at(deg(), []cfg{{3, 2}}, C08_ModDown) }
func C08_Degree3() { at(deg(), []cfg{{3, 2}}, C08_BFV) }
func C09_Degree()  { at(deg(), []cfg{{2, 2}}, C09_AddSub) }
func C10_Degree()  { at(deg(), []cfg{{2, 2}}, C10_Mul) }
func C11_Degree()  { at(deg(), []cfg{{2, 2}}, C11_Rotate) }
func C14_Degree()  { at(deg(), []cfg{{2, 2}}, C14_Plain) }
func C14_Degree2() { at(deg(), []cfg{{2, 2}}, C14_Const) }
func C15_Degree()  { at(deg(), []cfg{{3, 2}}, C15_Rescale) }
func C16_Degree()  { at(deg(), []cfg{{2, 2}}, C16_AddSub) }
func C17_Degree()  { at(deg(), []cfg{{2, 2}}, C17_Mul) }
func C11_Degree2() { at(deg(), []cfg{{2, 2}}, C11_Mul) }
func C24_Degree()  { at(deg(), []cfg{{2, 2}}, C24_Keys) }

// C24_Sigma: parameters with another standard deviation.
func C24_Sigma() {
	at(4, []cfg{{2, 2}}, func() {
		sigma = []float64{1.5, 40}[opt("sigma", 2)]
		eB = 1e-3 + math.Log2(6*sigma)
		switch opt("what", 4) {
		case 0:
			C24_Keys()
		case 1:
			C24_BFVKeys()
		case 2:
			C24_Schemes()
		case 3:
			C24_Encrypt()
		}
	})
}

// sizes runs f with chains whose primes have other sizes: of 55 down to 30 bits over special primes of 48
// bits (so that digits are larger than special primes), and of 60 bits throughout.
func sizes(cs []cfg, f func()) {
	defer func(k int) { otherQ = k }(otherQ)
	otherQ = 3 + opt("sizes", 2)
	at(logN, cs, f)
}

func C03_Sizes()  { sizes([]cfg{{3, 2}}, C03_Keys) }
func C04_Sizes()  { sizes([]cfg{{3, 2}}, C04_RLK) }
func C04_Sizes2() { sizes([]cfg{{2, 2}}, C04_BFV) }
func C05_Sizes()  { sizes([]cfg{{3, 2}}, C05_Rotation) }
func C06_Sizes()  { sizes([]cfg{{4, 2}, {4, 4}}, C06_Decompose) }
func C06_Sizes2() { sizes([]cfg{{2, 2}, {4, 4}}, C06_BFV) }
func C07_Sizes()  { sizes([]cfg{{4, 2}, {4, 4}}, C07_External) }
func C07_Sizes2() { sizes([]cfg{{2, 2}, {4, 4}}, C07_BFV) }
func C08_Sizes()  { sizes([]cfg{{4, 2}, {4, 4}}, C08_ModUp) }
func C08_Sizes2() { sizes([]cfg{{4, 2}, {4, 4}}, C08_ModDown) }
func C08_Sizes3() { sizes([]cfg{{2, 2}, {4, 4}}, C08_BFV) }
func C10_Sizes()  { sizes([]cfg{{3, 2}}, C10_Mul) }
func C11_Sizes()  { sizes([]cfg{{3, 2}}, C11_Rotate) }
func C12_Sizes()  { sizes([]cfg{{3, 2}}, C12_Direct) }
func C13_Sizes()  { sizes([]cfg{{3, 2}}, C13_Conjugate) }
func C14_Sizes()  { sizes([]cfg{{3, 2}}, C14_Const) }
func C14_Sizes2() { sizes([]cfg{{3, 2}}, C14_Plain) }
func C15_Sizes()  { sizes([]cfg{{3, 2}}, C15_Rescale) }
func C16_Sizes()  { sizes([]cfg{{2, 2}}, C16_AddSub) }
func C17_Sizes()  { sizes([]cfg{{2, 2}, {4, 4}}, C17_Mul) }
func C18_Sizes()  { sizes([]cfg{{2, 2}}, C18_Direct) }

// large runs f at a ring degree of practical use, for `of` selections among its choices.
func large(of int, cs []cfg, f func()) {
	defer func(a, b int) { spread, asked = a, b }(spread, asked)
	v := Choose("selection", of)
	lg := 11
	if Thorough() {
		lg = 13
	}
	spread, asked = v, 0
	at(lg, cs, f)
}

func C03_Large()  { large(2, []cfg{{3, 2}}, C03_Keys) }
func C04_Large()  { large(1, []cfg{{2, 2}}, C04_RLK) }
func C04_Large2() { large(1, []cfg{{2, 2}}, C04_BFV) }
func C05_Large()  { large(4, []cfg{{2, 2}}, C05_Rotation) }
func C05_Large2() { large(1, []cfg{{2, 2}}, C05_Conj) }
func C06_Large()  { large(4, []cfg{{3, 2}}, C06_Decompose) }
func C06_Large2() { large(2, []cfg{{2, 2}}, C06_BFV) }
func C07_Large()  { large(3, []cfg{{3, 2}}, C07_External) }
func C07_Large2() { large(2, []cfg{{2, 2}}, C07_BFV) }
func C08_Large()  { large(4, []cfg{{3, 2}}, C08_ModUp) }
func C08_Large2() { large(4, []cfg{{3, 2}}, C08_ModDown) }
func C08_Large3() { large(3, []cfg{{2, 2}}, C08_BFV) }
func C09_Large()  { large(4, []cfg{{2, 2}}, C09_AddSub) }
func C10_Large()  { large(2, []cfg{{2, 2}}, C10_Mul) }
func C11_Large()  { large(2, []cfg{{2, 2}}, C11_Rotate) }
func C11_Large2() { large(2, []cfg{{2, 2}}, C11_Mul) }
func C12_Large()  { large(3, []cfg{{2, 2}}, C12_Direct) }
func C13_Large()  { large(2, []cfg{{2, 2}}, C13_Conjugate) }
func C14_Large()  { large(3, []cfg{{2, 2}}, C14_Const) }
func C14_Large2() { large(2, []cfg{{2, 2}}, C14_Plain) }
func C15_Large()  { large(3, []cfg{{3, 2}}, C15_Rescale) }
func C16_Large()  { large(3, []cfg{{2, 2}}, C16_AddSub) }
func C17_Large()  { large(2, []cfg{{2, 2}}, C17_Mul) }
func C18_Large()  { large(3, []cfg{{2, 2}}, C18_Direct) }
func C24_Large()  { large(1, []cfg{{2, 2}}, C24_Keys) }
func C01_Large()  { large(4, []cfg{{3, 2}}, C01_RLWE) }
func C01_Large2() { large(2, []cfg{{3, 2}}, C01_CKKS) }
func C01_Large3() { large(2, []cfg{{2, 2}}, C01_BFV) }
