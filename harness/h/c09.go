package h

import (
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	. "vharness/vsym"
)

// operand patterns: two subsets of the parties, every overlap
func twoSets(name string, ns []string) ([]string, []string) {
	m := 1<<uint(len(ns)) - 1
	k := opt(name, m*m)
	return subset(ns, k/m+1), subset(ns, k%m+1)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// C09_AddSub: phase(out) = r0*phase(a) +- r1*phase(b) modulo every prime of the lower level, where the
// scale ratio r1 (or r0) brings the smaller scale to the larger one.
func C09_AddSub() {
	c := pick("cfg", cfg{1, 2}, cfg{3, 2})
	p := ckksParams(c)
	np := 2
	if Thorough() {
		np = 3
	}
	ids0, ids1 := twoSets("ids", names(np))
	l0, l1 := opt("level0", c.nQ), opt("level1", c.nQ)
	ratio := opt("scales", 6)
	sub := opt("sub", 2) == 1
	MapOrder(opt("order", 2))
	r0, r1 := int64(1), int64(1)
	s0, s1 := p.Scale(), p.Scale()
	switch ratio {
	case 1:
		s0, r1 = 2*s0, 2
	case 2:
		s1, r0 = 2*s1, 2
	case 3:
		s0, r1 = s0*(1<<20), 1<<20
	case 4:
		s1, r0 = s1*(1<<20), 1<<20
	case 5: // one low scale
		s1, r1 = s1/(1<<40), 1<<40
	}
	sks := secrets(mkrlwe.NewKeyGenerator(p.Parameters), names(np))
	a := fillCK("a", p, ids0, l0, s0)
	b := fillCK("b", p, ids1, l1, s1)
	sa, sb := copyCt(a.Ciphertext), copyCt(b.Ciphertext)
	ev := mkckks.NewEvaluator(p)
	var out *mkckks.Ciphertext
	if !NoPanic("the operation is accepted", func() {
		if sub {
			out = ev.SubNew(a, b)
		} else {
			out = ev.AddNew(a, b)
		}
	}) {
		return
	}
	checkAddSub("sum", p, out, sa, sb, ids0, ids1, min(l0, l1), r0, r1, sub, sks)
	Assert("the recorded scale is the larger one", out.Scale == s0*float64(r0) && out.Scale == s1*float64(r1))
	sameCt("first operand is not changed", a.Ciphertext, sa)
	sameCt("second operand is not changed", b.Ciphertext, sb)
	Assert("the scales of the operands are not changed", a.Scale == s0 && b.Scale == s1)
	disjointCts("the result shares no memory with its operands", out.Ciphertext, a.Ciphertext)
	disjointCts("the result shares no memory with its operands", out.Ciphertext, b.Ciphertext)
}

func checkAddSub(name string, p mkckks.Parameters, out *mkckks.Ciphertext, a, b *mkrlwe.Ciphertext, ids0, ids1 []string, lvl int, r0, r1 int64, sub bool, sks map[string]*mkrlwe.SecretKey) {
	ids := union(ids0, ids1)
	if !checkShape(name, p.Parameters, out.Ciphertext, ids, lvl) {
		return
	}
	pa := MulInt(phase(p.Parameters, a, sks, ids0, lvl), r0)
	pb := MulInt(phase(p.Parameters, b, sks, ids1, lvl), r1)
	want := Add(pa, pb)
	if sub {
		want = Sub(pa, pb)
	}
	Equal(name+": the plaintext is the sum (difference) of the plaintexts", phase(p.Parameters, out.Ciphertext, sks, ids, lvl), want)
}

// C09_Self: an operand added to or subtracted from itself.
func C09_Self() {
	c := pick("cfg", cfg{3, 2})
	p := ckksParams(c)
	ids := subset(names(2), opt("ids", 3)+1)
	lvl := opt("level", c.nQ)
	sub := opt("sub", 2) == 1
	sks := secrets(mkrlwe.NewKeyGenerator(p.Parameters), names(2))
	a := fillCK("a", p, ids, lvl, p.Scale())
	sa := copyCt(a.Ciphertext)
	ev := mkckks.NewEvaluator(p)
	var out *mkckks.Ciphertext
	if !NoPanic("the operation is accepted", func() {
		if sub {
			out = ev.SubNew(a, a)
		} else {
			out = ev.AddNew(a, a)
		}
	}) {
		return
	}
	checkAddSub("self", p, out, sa, sa, ids, ids, lvl, 1, 1, sub, sks)
	Assert("the recorded scale is the operand's", out.Scale == p.Scale())
	sameCt("the operand is not changed", a.Ciphertext, sa)
}
