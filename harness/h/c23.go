package h

import (
	"mk-lattigo/cnn"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"

	. "vharness/vsym"
)

// The layers of the cnn package are compositions of evaluator operations on vectors of 8192 slots.
// Symbolically, a ciphertext is a token for its slot vector and the operations are their contracts
// (ckStub_*: what C04 and C10 to C14 establish for the operations); natively, everything is real.

const (
	cnnLogN  = 14
	cnnSlots = 1 << (cnnLogN - 1)
	cnnScale = 1 << 47
	cnnAmp   = 1.0 / 16 // natively: no sum of the layers may reach q0/2
)

// cnnW is one world of keys.
type cnnW struct {
	ids  []string
	nQ   int
	rots map[int]bool
	p    mkckks.Parameters
	ev   *mkckks.Evaluator
	enc  *mkckks.Encryptor
	dec  *mkckks.Decryptor
	rlk  *mkrlwe.RelinearizationKeySet
	rtk  *mkrlwe.RotationKeySet
	sks  *mkrlwe.SecretKeySet
	pks  map[string]*mkrlwe.PublicKey

	base  uint64    // symbolically: the tokens of this world come after this one
	cells []cnnCell // symbolically: the slot vectors, by token
	forms []cnnForm // precomputed forms
	plain []cnnPlain
}

type cnnCell struct {
	m   *Msg
	ids []string
}
type cnnForm struct {
	h        *mkrlwe.HoistedCiphertext
	tok, lvl int
}
type cnnPlain struct {
	pt *ckks.Plaintext
	m  *Msg
}

var cnnCur *cnnW
var cnnWorlds uint64
var cnnReal = map[string]*cnnW{} // natively: worlds by their rotations

func newCnn(nQ int, name string, rots []int) *cnnW {
	if w := cnnReal[str("%s%d", name, nQ)]; w != nil {
		return w
	}
	w := &cnnW{ids: names(3), nQ: nQ, rots: map[int]bool{}, base: cnnWorlds << 20}
	cnnWorlds++
	for i := 1; i < cnnSlots; i <<= 1 {
		w.rots[i] = true
	}
	for _, r := range rots {
		w.rots[r] = true
	}
	w.rtk = mkrlwe.NewRotationKeySet()
	w.sks = mkrlwe.NewSecretKeySet()
	cnnCur = w
	if Symbolic() {
		w.ev = new(mkckks.Evaluator)
		w.rlk = new(mkrlwe.RelinearizationKeySet)
		return w
	}
	Q := []uint64{0x2000000002b0001, 0x800000020001, 0x800000280001, 0x800000520001, 0x800000770001, 0x800000aa0001, 0x800000ad0001}[:nQ]
	p, err := ckks.NewParametersFromLiteral(ckks.ParametersLiteral{LogN: cnnLogN, LogSlots: cnnLogN - 1, Q: Q,
		P: []uint64{0x800000df0001, 0x800000f80001}, Scale: cnnScale, Sigma: rlwe.DefaultSigma})
	if err != nil {
		panic(err)
	}
	w.p = mkckks.NewParameters(p)
	for _, r := range rots {
		w.p.AddCRS(r)
	}
	w.rlk = mkrlwe.NewRelinearizationKeyKeySet(w.p.Parameters)
	w.pks = map[string]*mkrlwe.PublicKey{}
	kg := mkckks.NewKeyGenerator(w.p)
	for _, id := range w.ids {
		sk, pk := kg.GenKeyPair(id)
		w.sks.AddSecretKey(sk)
		w.pks[id] = pk
		w.rlk.AddRelinearizationKey(kg.GenRelinearizationKey(sk, kg.GenSecretKey(id)))
		for r := range w.rots {
			w.rtk.AddRotationKey(kg.GenRotationKey(r, sk))
		}
	}
	w.ev = mkckks.NewEvaluator(w.p)
	w.enc = mkckks.NewEncryptor(w.p)
	w.dec = mkckks.NewDecryptor(w.p)
	cnnReal[str("%s%d", name, nQ)] = w
	return w
}

// cell makes a token ciphertext.
func (w *cnnW) cell(m *Msg, ids []string, lvl int, scale float64) *mkckks.Ciphertext {
	tok := w.base + uint64(len(w.cells)+1)
	w.cells = append(w.cells, cnnCell{m, ids})
	ct := &mkrlwe.Ciphertext{Value: map[string]*ring.Poly{}}
	for _, id := range append([]string{"0"}, ids...) {
		q := &ring.Poly{}
		for i := 0; i <= lvl; i++ {
			q.Coeffs = append(q.Coeffs, []uint64{tok})
		}
		ct.Value[id] = q
	}
	return &mkckks.Ciphertext{Ciphertext: ct, Scale: scale}
}

// tok reads a token: every component must still be one of the same ciphertext.
func (w *cnnW) tok(ct *mkckks.Ciphertext) int {
	if ct == nil || ct.Ciphertext == nil || ct.Value["0"] == nil || len(ct.Value["0"].Coeffs) == 0 {
		panic("no ciphertext")
	}
	t := ct.Value["0"].Coeffs[0][0]
	ok := t > w.base && t <= w.base+uint64(len(w.cells))
	if ok {
		c := w.cells[t-w.base-1]
		ok = len(ct.Value) == len(c.ids)+1
		for _, id := range append([]string{"0"}, c.ids...) {
			v := ct.Value[id]
			if v == nil || len(v.Coeffs) != len(ct.Value["0"].Coeffs) {
				ok = false
				continue
			}
			for i := range v.Coeffs {
				ok = ok && v.Coeffs[i][0] == t
			}
		}
	}
	if !ok {
		panic("not a ciphertext of the evaluator")
	}
	return int(t-w.base) - 1
}

func lvlOf(ct *mkckks.Ciphertext) int { return len(ct.Value["0"].Coeffs) - 1 }

// input encrypts m under the keys of ids (natively: at the top level, then dropped to lvl).
func (w *cnnW) input(m *Msg, ids []string, lvl int) *mkckks.Ciphertext {
	if Symbolic() {
		return w.cell(m, ids, lvl, cnnScale)
	}
	msg := mkckks.NewMessage(w.p)
	copy(msg.Value, Slots(m))
	ct := w.enc.EncryptMsgNew(msg, w.pks[ids[0]])
	for _, id := range ids[1:] {
		ct = w.ev.AddNew(ct, w.enc.EncryptMsgNew(mkckks.NewMessage(w.p), w.pks[id]))
	}
	return w.ev.DropLevelNew(ct, ct.Level()-lvl)
}

func (w *cnnW) plaintext(m *Msg) *ckks.Plaintext {
	if Symbolic() {
		pt := &ckks.Plaintext{}
		w.plain = append(w.plain, cnnPlain{pt, m})
		return pt
	}
	msg := mkckks.NewMessage(w.p)
	copy(msg.Value, Slots(m))
	return w.enc.EncodeMsgNew(msg)
}

// value is the slot vector of a ciphertext.
func (w *cnnW) value(ct *mkckks.Ciphertext) *Msg {
	if Symbolic() {
		return w.cells[w.tok(ct)].m
	}
	c := &mkckks.Ciphertext{Ciphertext: copyCt(ct.Ciphertext), Scale: ct.Scale}
	return FromSlots(w.dec.Decrypt(c, w.sks).Value)
}

// check compares the outcome of a layer.
func (w *cnnW) check(name string, out *mkckks.Ciphertext, ids []string, lvl int, want *Msg) {
	if out == nil {
		Assert(name+": there is a result", false)
		return
	}
	ok := len(out.Value) == len(ids)+1 && out.Value["0"] != nil
	for _, id := range ids {
		ok = ok && out.Value[id] != nil
	}
	Assert(name+": the parties of the result", ok)
	if !ok {
		return
	}
	Assert(name+": the level of the result", lvlOf(out) == lvl)
	Assert(name+": the scale of the result", out.Scale/cnnScale > 0.9999 && out.Scale/cnnScale < 1.0001)
	EqMsg(name+": the formula of the layer", w.value(out), want, 1e-5)
}

// same asserts that an operand was not changed.
func (w *cnnW) same(name string, ct *mkckks.Ciphertext, snap *mkckks.Ciphertext) {
	sameCt(name, ct.Ciphertext, snap.Ciphertext)
	Assert(name, ct.Scale == snap.Scale)
}

func snapCt(ct *mkckks.Ciphertext) *mkckks.Ciphertext {
	return &mkckks.Ciphertext{Ciphertext: copyCt(ct.Ciphertext), Scale: ct.Scale}
}

// ---- contracts of the evaluator's operations ------------------------------------------------

func ckStub_AddNew(ev *mkckks.Evaluator, a, b *mkckks.Ciphertext) *mkckks.Ciphertext {
	w := cnnCur
	x, y := w.cells[w.tok(a)], w.cells[w.tok(b)]
	if r := a.Scale / b.Scale; r < 0.9999 || r > 1.0001 {
		panic("scales differ")
	}
	return w.cell(MsgAdd(x.m, y.m), union(x.ids, y.ids), min(lvlOf(a), lvlOf(b)), a.Scale)
}

func ckStub_SubNew(ev *mkckks.Evaluator, a, b *mkckks.Ciphertext) *mkckks.Ciphertext {
	w := cnnCur
	x, y := w.cells[w.tok(a)], w.cells[w.tok(b)]
	if r := a.Scale / b.Scale; r < 0.9999 || r > 1.0001 {
		panic("scales differ")
	}
	return w.cell(MsgSub(x.m, y.m), union(x.ids, y.ids), min(lvlOf(a), lvlOf(b)), a.Scale)
}

// resc: a product is rescaled once while there is a level.
func (w *cnnW) resc(lvl int) (int, float64) {
	if lvl == 0 {
		panic("no level left for a product")
	}
	return lvl - 1, cnnScale
}

func ckStub_MulRelinNew(ev *mkckks.Evaluator, a, b *mkckks.Ciphertext, rlk *mkrlwe.RelinearizationKeySet) *mkckks.Ciphertext {
	w := cnnCur
	x, y := w.cells[w.tok(a)], w.cells[w.tok(b)]
	if rlk != w.rlk {
		panic("other keys than the caller's")
	}
	l, s := w.resc(min(lvlOf(a), lvlOf(b)))
	return w.cell(MsgMul(x.m, y.m), union(x.ids, y.ids), l, s*(a.Scale/cnnScale)*(b.Scale/cnnScale))
}

func (w *cnnW) form(h *mkrlwe.HoistedCiphertext, ct *mkckks.Ciphertext) {
	for _, f := range w.forms {
		if f.h == h {
			if f.tok != w.tok(ct) || f.lvl < lvlOf(ct) {
				panic("a precomputed form of another ciphertext")
			}
			return
		}
	}
	panic("not a precomputed form")
}

func ckStub_HoistedForm(ev *mkckks.Evaluator, ct *mkckks.Ciphertext) *mkrlwe.HoistedCiphertext {
	w := cnnCur
	h := &mkrlwe.HoistedCiphertext{Value: map[string]*mkrlwe.SwitchingKey{}}
	w.forms = append(w.forms, cnnForm{h, w.tok(ct), lvlOf(ct)})
	return h
}

func ckStub_MulRelinHoistedNew(ev *mkckks.Evaluator, a, b *mkckks.Ciphertext, ha, hb *mkrlwe.HoistedCiphertext, rlk *mkrlwe.RelinearizationKeySet) *mkckks.Ciphertext {
	w := cnnCur
	if ha != nil {
		w.form(ha, a)
	}
	if hb != nil {
		w.form(hb, b)
	}
	return ckStub_MulRelinNew(ev, a, b, rlk)
}

func ckStub_MulPtxtNew(ev *mkckks.Evaluator, a *mkckks.Ciphertext, pt *ckks.Plaintext) *mkckks.Ciphertext {
	w := cnnCur
	x := w.cells[w.tok(a)]
	for _, p := range w.plain {
		if p.pt == pt {
			l, s := w.resc(lvlOf(a))
			return w.cell(MsgMul(x.m, p.m), x.ids, l, s*(a.Scale/cnnScale))
		}
	}
	panic("not a plaintext of the caller")
}

func ckStub_RotateNew(ev *mkckks.Evaluator, a *mkckks.Ciphertext, k int, rtk *mkrlwe.RotationKeySet) *mkckks.Ciphertext {
	w := cnnCur
	x := w.cells[w.tok(a)]
	if rtk != w.rtk {
		panic("other keys than the caller's")
	}
	return w.cell(MsgRot(x.m, k), x.ids, lvlOf(a), a.Scale)
}

func ckStub_RotateHoistedNew(ev *mkckks.Evaluator, a *mkckks.Ciphertext, k int, h *mkrlwe.HoistedCiphertext, rtk *mkrlwe.RotationKeySet) *mkckks.Ciphertext {
	w := cnnCur
	kk := (k%cnnSlots + cnnSlots) % cnnSlots
	if kk != 0 {
		w.form(h, a)
		if !w.rots[kk] {
			panic("hoisted rotations need a key of their own")
		}
	}
	return ckStub_RotateNew(ev, a, k, rtk)
}

func ckStub_DropLevel(ev *mkckks.Evaluator, a *mkckks.Ciphertext, levels int) {
	for _, v := range a.Value {
		v.Coeffs = v.Coeffs[:len(v.Coeffs)-levels]
	}
}

func ckStub_DropLevelNew(ev *mkckks.Evaluator, a *mkckks.Ciphertext, levels int) *mkckks.Ciphertext {
	w := cnnCur
	x := w.cells[w.tok(a)]
	return w.cell(x.m, x.ids, lvlOf(a)-levels, a.Scale)
}

// ---- harnesses ------------------------------------------------------------------------------

func sumRot(m *Msg, ks []int) *Msg {
	r := MsgRot(m, ks[0])
	for _, k := range ks[1:] {
		r = MsgAdd(r, MsgRot(m, k))
	}
	return r
}

// owners of the data and of the i-th block of the model.
func owners(i int) ([]string, func(int) []string) {
	one := func(i int) []string { return names(3)[i : i+1] }
	switch i {
	case 0:
		return one(0), func(int) []string { return one(1) }
	case 1:
		return one(0), func(int) []string { return one(0) }
	case 2:
		return one(1), func(k int) []string { return one(k % 3) }
	case 3: // the result of an earlier layer
		return names(2), func(int) []string { return one(0) }
	}
	return names(2)[1:], func(k int) []string { return [][]string{names(2), one(2)}[k%2] }
}

func ownersOf(data []string, model func(int) []string, n int) []string {
	r := data
	for i := 0; i < n; i++ {
		r = union(r, model(i))
	}
	return r
}

// C23_Convolution: sum over the rotations 0, 1024, 2048, 3072 of the sum of kernel i times the image
// rotated by 0, 1, 14, 15.
func C23_Convolution() {
	nQ := opt("primes", 3) + 2
	data, model := owners(opt("owners", 5))
	lvl := nQ - 1 - opt("dropped", nQ-1)
	w := newCnn(nQ, "conv", []int{14, 15})
	x := VarMsg("image", cnnSlots, cnnAmp)
	ct := w.input(x, data, lvl)
	var ks []*mkckks.Ciphertext
	var hs []*mkrlwe.HoistedCiphertext
	var sum *Msg
	for i, r := range []int{0, 1, 14, 15} {
		k := VarMsg(str("kernel%d", i), cnnSlots, cnnAmp)
		ks = append(ks, w.input(k, model(i), lvl))
		hs = append(hs, w.ev.HoistedForm(ks[i]))
		t := MsgMul(k, MsgRot(x, r))
		if i == 0 {
			sum = t
		} else {
			sum = MsgAdd(sum, t)
		}
	}
	h := w.ev.HoistedForm(ct)
	s := snapCt(ct)
	for rep := 0; rep < 2; rep++ {
		var out *mkckks.Ciphertext
		if !NoPanic("the layer accepts its inputs", func() { out = cnn.Convolution(w.ev, w.rlk, w.rtk, ct, h, ks, hs) }) {
			return
		}
		w.check("convolution", out, ownersOf(data, model, 4), lvl-1, sumRot(sum, []int{0, 1024, 2048, 3072}))
		w.same("the image is not changed", ct, s)
	}
}

// C23_FC1: sum over the rotations 0..127 of the sum of block i times the vector rotated by 128 i,
// plus the bias.
func C23_FC1() {
	blocks := opt("blocks", 8) + 1
	data, model := owners(opt("owners", 5))
	lvl := 2 - opt("dropped", 2)
	w := newCnn(3, "fc1", []int{384, 640, 768, 896})
	x := VarMsg("vector", cnnSlots, cnnAmp)
	b := VarMsg("bias", cnnSlots, cnnAmp)
	ct := w.input(x, data, lvl)
	bias := w.input(b, model(0), 2)
	var ms []*mkckks.Ciphertext
	var hs []*mkrlwe.HoistedCiphertext
	var sum *Msg
	for i := 0; i < blocks; i++ {
		m := VarMsg(str("block%d", i), cnnSlots, cnnAmp)
		ms = append(ms, w.input(m, model(i), lvl))
		hs = append(hs, w.ev.HoistedForm(ms[i]))
		t := MsgMul(m, MsgRot(x, 128*i))
		if i == 0 {
			sum = t
		} else {
			sum = MsgAdd(sum, t)
		}
	}
	h := w.ev.HoistedForm(ct)
	s, sb := snapCt(ct), snapCt(bias)
	var out *mkckks.Ciphertext
	if !NoPanic("the layer accepts its inputs", func() { out = cnn.FC1Layer(w.ev, w.rlk, w.rtk, ct, h, ms, hs, bias) }) {
		return
	}
	var ks []int
	for i := 0; i < 128; i++ {
		ks = append(ks, i)
	}
	w.check("first fully connected layer", out, ownersOf(data, model, blocks), lvl-1, MsgAdd(sumRot(sum, ks), b))
	w.same("the vector is not changed", ct, s)
	w.same("the bias is not changed", bias, sb)
}

// C23_FC1_Many: as many blocks as there are rotations by a multiple of 128.
func C23_FC1_Many() {
	blocks := []int{64, 9, 15, 16, 17, 31, 32, 33, 48, 63}[opt("blocks", 10)]
	var rots []int
	for i := 1; i < 64; i++ {
		rots = append(rots, 128*i)
	}
	w := newCnn(3, "fc1many", rots)
	data, model := owners(opt("owners", 5))
	in := &cnnIn{}
	in.fill(w, 1, 0, 0, blocks, data, model, 2)
	in.run(w, 1, ownersOf(data, model, blocks), 2)
}

// cnnIn is the input of one layer; fill makes the one of round r.
type cnnIn struct {
	x, b, mat  *mkckks.Ciphertext
	h          *mkrlwe.HoistedCiphertext
	ks         []*mkckks.Ciphertext
	hs         []*mkrlwe.HoistedCiphertext
	mask       *ckks.Plaintext
	mx, mb, mm *Msg
	mmask      *Msg
	mk         []*Msg
}

// refill replaces the contents of an object by those of another.
func refill(old, by *mkckks.Ciphertext, parts bool) {
	old.Scale = by.Scale
	if parts {
		old.Ciphertext = by.Ciphertext
		return
	}
	for id := range old.Value {
		for i := range old.Value[id].Coeffs {
			copy(old.Value[id].Coeffs[i], by.Value[id].Coeffs[i])
		}
	}
}

const (
	agFresh   = iota // every object is new
	agSlices         // every object is new, in the slices of the round before
	agData           // the data is written over that of the round before, the model stays
	agDataPtr        // likewise, by its pointer to the polynomials
	agModel          // the model is written over that of the round before, the data stays
	agForms          // nothing changes but the precomputed forms, which are made anew
	agWorlds         // every object is new and of another evaluator and other keys
	agHows
)

func (in *cnnIn) fill(w *cnnW, layer, r, how, blocks int, data []string, model func(int) []string, lvl int) {
	first := r == 0 || how == agFresh || how == agSlices || how == agWorlds
	put := func(at **mkckks.Ciphertext, m **Msg, name string, ids []string, again bool) {
		if !first && !again {
			return
		}
		*m = VarMsg(str("%s_%d", name, r), cnnSlots, cnnAmp)
		ct := w.input(*m, ids, lvl)
		if first {
			*at = ct
		} else {
			refill(*at, ct, how == agDataPtr)
		}
	}
	md, mo := how == agData || how == agDataPtr, how == agModel
	put(&in.x, &in.mx, "data", data, md)
	in.h = w.ev.HoistedForm(in.x)
	if layer == 2 {
		put(&in.mat, &in.mm, "matrix", model(0), mo)
		if first || mo {
			in.mmask = VarMsg(str("mask_%d", r), cnnSlots, cnnAmp)
			in.mask = w.plaintext(in.mmask)
		}
	} else {
		if r == 0 || how == agFresh || how == agWorlds {
			in.ks, in.hs, in.mk = make([]*mkckks.Ciphertext, blocks), make([]*mkrlwe.HoistedCiphertext, blocks), make([]*Msg, blocks)
		}
		for i := range in.ks {
			put(&in.ks[i], &in.mk[i], str("model%d", i), model(i), mo)
			in.hs[i] = w.ev.HoistedForm(in.ks[i])
		}
	}
	if layer > 0 {
		put(&in.b, &in.mb, "bias", model(layer-1), mo)
	}
}

func (in *cnnIn) run(w *cnnW, layer int, ids []string, lvl int) (out *mkckks.Ciphertext) {
	s := snapCt(in.x)
	var want *Msg
	sum := func(f func(int) int) *Msg {
		var t *Msg
		for i, k := range in.mk {
			p := MsgMul(k, MsgRot(in.mx, f(i)))
			if t == nil {
				t = p
			} else {
				t = MsgAdd(t, p)
			}
		}
		return t
	}
	steps := func(n, by int) (r []int) {
		for i := 0; i < n; i++ {
			r = append(r, i*by)
		}
		return
	}
	if !NoPanic("the layer accepts its inputs", func() {
		switch layer {
		case 0:
			out = cnn.Convolution(w.ev, w.rlk, w.rtk, in.x, in.h, in.ks, in.hs)
			want = sumRot(sum(func(i int) int { return []int{0, 1, 14, 15}[i] }), steps(4, 1024))
		case 1:
			out = cnn.FC1Layer(w.ev, w.rlk, w.rtk, in.x, in.h, in.ks, in.hs, in.b)
			want = MsgAdd(sumRot(sum(func(i int) int { return 128 * i }), steps(128, 1)), in.mb)
		case 2:
			out = cnn.FC2Layer(w.ev, w.rlk, w.rtk, in.x, in.mat, in.b, in.mask)
			v := sumRot(MsgMul(in.mmask, in.mx), steps(16, -1))
			want = MsgAdd(sumRot(MsgMul(in.mm, v), steps(64, 128)), in.mb)
		}
	}) {
		return nil
	}
	down := 1
	if layer == 2 {
		down = 2
	}
	w.check("the layer", out, ids, lvl-down, want)
	w.same("the data is not changed", in.x, s)
	return out
}

// C23_Again: a layer gives what its inputs of now say, whatever it was called with before; earlier
// results stay what they were.
func C23_Again() {
	layer := opt("layer", 3)
	how := opt("again", agHows)
	data, model := owners(opt("owners", 5))
	blocks := []int{4, 3, 2}[layer]
	lvl := []int{1, 2, 3}[layer]
	var ws []*cnnW
	for i := 0; i < 2; i++ {
		if i == 0 || how == agWorlds {
			ws = append(ws, newCnn(lvl+1, []string{"conv", "fc1", "fc2"}[layer]+[]string{"", "other"}[i],
				[][]int{{14, 15}, {384, 640, 768, 896}, nil}[layer]))
		}
	}
	in := &cnnIn{}
	var outs []*mkckks.Ciphertext
	var snaps []*mkckks.Ciphertext
	for r := 0; r < 3; r++ {
		w := ws[r%len(ws)]
		cnnCur = w
		in.fill(w, layer, r, how, blocks, data, model, lvl)
		out := in.run(w, layer, ownersOf(data, model, blocks), lvl)
		if out == nil {
			return
		}
		for i := range outs {
			w.same("an earlier result is not changed", outs[i], snaps[i])
		}
		outs, snaps = append(outs, out), append(snaps, snapCt(out))
	}
}

// C23_FC2: sum over the rotations 0, 128, ..., 63*128 of the matrix times the sum over the rotations
// 0, -1, ..., -15 of the masked vector, plus the bias.
func C23_FC2() {
	data, model := owners(opt("owners", 5))
	matOwner, biasOwner := model(0), model(1)
	lvl := 3 - opt("dropped", 2)
	w := newCnn(4, "fc2", nil)
	x, mask := VarMsg("vector", cnnSlots, cnnAmp), VarMsg("mask", cnnSlots, cnnAmp)
	m, b := VarMsg("matrix", cnnSlots, cnnAmp), VarMsg("bias", cnnSlots, cnnAmp)
	ct, mat, bias := w.input(x, data, lvl), w.input(m, matOwner, 3), w.input(b, biasOwner, 3)
	pt := w.plaintext(mask)
	s, sm, sb := snapCt(ct), snapCt(mat), snapCt(bias)
	var out *mkckks.Ciphertext
	if !NoPanic("the layer accepts its inputs", func() { out = cnn.FC2Layer(w.ev, w.rlk, w.rtk, ct, mat, bias, pt) }) {
		return
	}
	var k0, k1 []int
	for i := 0; i < 16; i++ {
		k0 = append(k0, -i)
	}
	for i := 0; i < 64; i++ {
		k1 = append(k1, 128*i)
	}
	in := sumRot(MsgMul(mask, x), k0)
	w.check("second fully connected layer", out, ownersOf(data, model, 2), lvl-2, MsgAdd(sumRot(MsgMul(m, in), k1), b))
	w.same("the vector is not changed", ct, s)
	w.same("the matrix is not changed", mat, sm)
	w.same("the bias is not changed", bias, sb)
}
