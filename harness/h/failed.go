package h

import (
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/rlwe"

	. "vharness/vsym"
)

// Operations that fail (a key is missing, nothing can be rescaled) are a history like any other for a caller
// who recovers: the operands are intact, and the next operation is right.

const nCkFails = 9

// fails runs a failing operation: the key of party id is missing.
func (w *ckWorld) fails(ev *mkckks.Evaluator, k int, id string, in *ckIn) {
	switch {
	case k == 0 || k == 4:
		key := w.rlk.Value[id]
		w.rlk.DelRelinearizationKey(id)
		PanicMsg(func() {
			if k == 0 {
				ev.MulRelinNew(in.a, in.b, w.rlk)
			} else {
				ev.MulRelinHoistedNew(in.a, in.b, in.ha, in.hb, w.rlk)
			}
		})
		w.rlk.AddRelinearizationKey(key)
	case k == 1 || k == 2 || k == 5: // 3 is rotated by 1 and by 2: either can be missing
		r := uint(1)
		if k != 1 {
			r = 2
		}
		key := w.rtk.GetRotationKey(id, r)
		w.rtk.DelRotationKey(id, r)
		PanicMsg(func() {
			if k == 5 {
				ev.RotateHoistedNew(in.a, 2, in.ha, w.rtk)
			} else {
				ev.RotateNew(in.a, 3, w.rtk)
			}
		})
		w.rtk.AddRotationKey(key)
	case k == 3:
		key := w.cks.GetConjugationKey(id)
		w.cks.DelConjugationKey(id)
		PanicMsg(func() { ev.ConjugateNew(in.a, w.cks) })
		w.cks.AddConjugationKey(key)
	case k == 6:
		PanicMsg(func() { ev.RotateHoistedNew(in.a, 3, in.ha, w.rtk) }) // an index without a key
	case k == 7:
		PanicMsg(func() { ev.RescaleNew(in.a, 0) })
	case k == 8:
		PanicMsg(func() { ev.DropLevelNew(in.a, in.a.Level()+2) })
	}
}

// C20_Failed: the operands of a failed operation are intact, and what follows is right.
func C20_Failed() {
	if Thorough() {
		MapOrder(opt("order", 2))
	}
	c := cfg{3, 2}
	f, k := opt("failed", nCkFails), opt("operation", nCkOps)
	missing := names(2)[opt("missing", 2)]
	w := newCkWorld(c)
	in0 := w.input("before", names(2), names(2), c.nQ-1, c.nQ-1, false)
	w.hoist(in0)
	in := in0
	if opt("operands", 2) == 1 { // 0: the operation is repeated on its operands
		in = w.input("in", []string{"bob"}, []string{"bob", "alice"}, 1, c.nQ-1, false)
		w.hoist(in)
	}
	keys := copyPolys(w.keys)
	in0.keep()
	used := mkckks.NewEvaluator(w.p)
	w.fails(used, f, missing, in0)
	in0.intact("a failed operation", w, keys)
	x := w.do(used, k, in)
	y := w.otherRlk().do(mkckks.NewEvaluator(w.p), k, in)
	if x == nil || y == nil {
		Assert("both are accepted or both are refused", x == nil && y == nil)
		return
	}
	w.sameRes("the result is that of a fresh evaluator", x, y)
}

// C20_BFVFailed: as C20_Failed.
func C20_BFVFailed() {
	if Thorough() {
		MapOrder(opt("order", 2))
	}
	c := cfg{2, 2}
	f, k := opt("failed", 4), opt("operation", nBvOps)
	id := names(2)[opt("missing", 2)]
	w := newBvWorld(c)
	in0 := w.input("before", names(2), names(2))
	in := in0
	if opt("operands", 2) == 1 {
		in = w.input("in", []string{"bob"}, []string{"bob", "alice"})
	}
	keys := copyPolys(w.keys)
	in0.keep()
	used := mkbfv.NewEvaluator(w.p)
	switch f {
	case 0:
		key := w.rlk.Value[id]
		w.rlk.DelRelinearizationKey(id)
		PanicMsg(func() { used.MulRelinNew(in0.a, in0.b, w.rlk) })
		w.rlk.AddRelinearizationKey(key)
	case 1, 2:
		key := w.rtk.GetRotationKey(id, uint(f))
		w.rtk.DelRotationKey(id, uint(f))
		PanicMsg(func() { used.RotateNew(in0.a, 3, w.rtk) })
		w.rtk.AddRotationKey(key)
	case 3:
		key := w.cks.GetConjugationKey(id)
		w.cks.DelConjugationKey(id)
		PanicMsg(func() { used.ConjugateNew(in0.a, w.cks) })
		w.cks.AddConjugationKey(key)
	}
	in0.intact("a failed operation", w, keys)
	x := w.do(used, k, in)
	y := w.otherRlk().do(mkbfv.NewEvaluator(w.p), k, in)
	if x == nil || y == nil {
		return
	}
	w.sameVals("the result is that of a fresh evaluator", x, ctPolys(y.Ciphertext))
}

// C20_FailedCrypt: a decryptor that refused a ciphertext, and a generator that refused an index, go on correctly;
// the refused ciphertext is intact and decrypts with the missing secret.
func C20_FailedCrypt() {
	MapOrder(opt("order", 2))
	missing := opt("missing", 2)
	same := opt("ciphertext", 2) == 0
	switch opt("scheme", 3) {
	case 0:
		c := cfg{3, 2}
		p := rlweParams(c)
		kg := mkrlwe.NewKeyGenerator(p)
		sks := secrets(kg, names(2))
		lvl := []int{c.nQ - 1, 0}[opt("level", 2)]
		ntt := opt("ntt", 2) == 1
		mk := func(name string) *mkrlwe.Ciphertext {
			ct := mkrlwe.NewCiphertext(p, idset(names(2)), lvl)
			if ntt {
				ct = mkrlwe.NewCiphertextNTT(p, idset(names(2)), lvl)
			}
			for id, v := range ct.Value {
				Fill(name+id, p.RingQ(), lvl, v, ntt)
			}
			return ct
		}
		dec := mkrlwe.NewDecryptor(p)
		ct := mk("ct")
		snap := copyCt(ct)
		PanicMsg(func() { dec.Decrypt(ct, skSet(sks, names(2)[missing:missing+1]), rlwe.NewPlaintext(p.Parameters, lvl)) })
		sameCt("a refused ciphertext is not changed", ct, snap)
		PanicMsg(func() { kg.GenRotationKey(7, sks["alice"]) })
		if !same {
			ct = mk("other")
		}
		out := rlwe.NewPlaintext(p.Parameters, lvl)
		out.Value.IsNTT = ntt
		if NoPanic("decryption is accepted", func() { dec.Decrypt(ct, skSet(sks, names(2)), out) }) {
			want := Of(p.RingQ(), lvl, ct.Value["0"], ntt, false)
			for _, id := range names(2) {
				want = Add(want, Mul(Of(p.RingQ(), lvl, ct.Value[id], ntt, false), skE(p, sks[id], lvl)))
			}
			Equal("decryption after a refusal", Of(p.RingQ(), lvl, out.Value, out.Value.IsNTT, false), want)
		}
	case 1:
		p := ckksParams(cfg{3, 2})
		kg := mkckks.NewKeyGenerator(p)
		sks := secrets(kg, names(2))
		enc, dec, ev := mkckks.NewEncryptor(p), mkckks.NewDecryptor(p), mkckks.NewEvaluator(p)
		mk := func(name string) (*mkckks.Ciphertext, *mkckks.Message) {
			m, z := mkckks.NewMessage(p), mkckks.NewMessage(p)
			CMsg(name, m.Value)
			return ev.AddNew(enc.EncryptMsgNew(m, kg.GenPublicKey(sks["alice"])), enc.EncryptMsgNew(z, kg.GenPublicKey(sks["bob"]))), m
		}
		ct, m := mk("msg")
		snap := copyCt(ct.Ciphertext)
		PanicMsg(func() { dec.Decrypt(ct, skSet(sks, names(2)[missing:missing+1])) })
		sameCt("a refused ciphertext is not changed", ct.Ciphertext, snap)
		if !same {
			ct, m = mk("other")
		}
		var out *mkckks.Message
		if NoPanic("decryption is accepted", func() { out = dec.Decrypt(ct, skSet(sks, names(2))) }) {
			CDecodes("decryption after a refusal", out.Value, m.Value, lg(p.Scale()), encNoise()+2)
		}
	case 2:
		p := bfvParams(cfg{2, 2})
		kg := mkbfv.NewKeyGenerator(p)
		sks := secrets(kg.KeyGenerator, names(2))
		enc, dec, ev := mkbfv.NewEncryptor(p), mkbfv.NewDecryptor(p), mkbfv.NewEvaluator(p)
		mk := func(name string) (*mkbfv.Ciphertext, *mkbfv.Message) {
			m, z := mkbfv.NewMessage(p), mkbfv.NewMessage(p)
			IMsg(name, m.Value, p.T())
			return ev.AddNew(enc.EncryptMsgNew(m, kg.GenPublicKey(sks["alice"])), enc.EncryptMsgNew(z, kg.GenPublicKey(sks["bob"]))), m
		}
		ct, m := mk("msg")
		snap := copyCt(ct.Ciphertext)
		PanicMsg(func() { dec.Decrypt(ct, skSet(sks, names(2)[missing:missing+1])) })
		sameCt("a refused ciphertext is not changed", ct.Ciphertext, snap)
		if !same {
			ct, m = mk("other")
		}
		var out *mkbfv.Message
		if NoPanic("decryption is accepted", func() { out = dec.Decrypt(ct, skSet(sks, names(2))) }) {
			IDecodes("decryption after a refusal", out.Value, m.Value, p.T())
		}
	}
}
