package h

import (
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkrlwe"

	. "vharness/vsym"
)

func fillBV(name string, p mkbfv.Parameters, ids []string) *mkbfv.Ciphertext {
	return &mkbfv.Ciphertext{Ciphertext: fillCt(name, p.Parameters, ids, p.QCount()-1)}
}

// C16_AddSub: phase(out) = phase(a) +- phase(b) modulo every prime of Q.
func C16_AddSub() {
	c := pick("cfg", cfg{1, 2}, cfg{2, 2}, cfg{3, 2}, cfg{4, 4})
	p := bfvParams(c)
	np := 3
	if Thorough() {
		np = 4
	}
	ids0, ids1 := twoSets("ids", names(np))
	sub := opt("sub", 2) == 1
	MapOrder(opt("order", 6))
	sks := secrets(mkrlwe.NewKeyGenerator(p.Parameters), names(np))
	a, b := fillBV("a", p, ids0), fillBV("b", p, ids1)
	sa, sb := copyCt(a.Ciphertext), copyCt(b.Ciphertext)
	ev := mkbfv.NewEvaluator(p)
	var out *mkbfv.Ciphertext
	if !NoPanic("the operation is accepted", func() {
		if sub {
			out = ev.SubNew(a, b)
		} else {
			out = ev.AddNew(a, b)
		}
	}) {
		return
	}
	checkBFVAddSub("sum", p, out, sa, sb, ids0, ids1, sub, sks)
	sameCt("first operand is not changed", a.Ciphertext, sa)
	sameCt("second operand is not changed", b.Ciphertext, sb)
	disjointCts("the result shares no memory with its operands", out.Ciphertext, a.Ciphertext)
	disjointCts("the result shares no memory with its operands", out.Ciphertext, b.Ciphertext)
}

func checkBFVAddSub(name string, p mkbfv.Parameters, out *mkbfv.Ciphertext, a, b *mkrlwe.Ciphertext, ids0, ids1 []string, sub bool, sks map[string]*mkrlwe.SecretKey) {
	ids, lvl := union(ids0, ids1), p.QCount()-1
	if !checkShape(name, p.Parameters, out.Ciphertext, ids, lvl) {
		return
	}
	pa, pb := phase(p.Parameters, a, sks, ids0, lvl), phase(p.Parameters, b, sks, ids1, lvl)
	want := Add(pa, pb)
	if sub {
		want = Sub(pa, pb)
	}
	Equal(name+": the plaintext is the sum (difference) of the plaintexts", phase(p.Parameters, out.Ciphertext, sks, ids, lvl), want)
}

// C16_Chain: an operand added to or subtracted from itself, then combined with another result.
func C16_Chain() {
	p := bfvParams(pick("cfg", cfg{2, 2}, cfg{4, 4}))
	ids0, ids1 := twoSets("ids", names(2))
	sub, sub2 := opt("sub", 2) == 1, opt("sub2", 2) == 1
	sks := secrets(mkrlwe.NewKeyGenerator(p.Parameters), names(2))
	a, b := fillBV("a", p, ids0), fillBV("b", p, ids1)
	sa, sb := copyCt(a.Ciphertext), copyCt(b.Ciphertext)
	ev := mkbfv.NewEvaluator(p)
	op := func(s bool, x, y *mkbfv.Ciphertext) *mkbfv.Ciphertext {
		if s {
			return ev.SubNew(x, y)
		}
		return ev.AddNew(x, y)
	}
	var out, out2 *mkbfv.Ciphertext
	if !NoPanic("the operation is accepted", func() { out = op(sub, a, a) }) {
		return
	}
	checkBFVAddSub("self", p, out, sa, sa, ids0, ids0, sub, sks)
	so := copyCt(out.Ciphertext)
	if !NoPanic("the operation is accepted on a result", func() { out2 = op(sub2, b, out) }) {
		return
	}
	checkBFVAddSub("chained", p, out2, sb, so, ids1, ids0, sub2, sks)
	sameCt("the operand is not changed", a.Ciphertext, sa)
	sameCt("the first result is not changed", out.Ciphertext, so)
}
