package h

import (
	"mk-lattigo/mkbfv"
	"mk-lattigo/mkckks"
	"mk-lattigo/mkrlwe"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"

	. "vharness/vsym"
)

// buildIDs applies a history of additions and removals (3 identities) to a set and to a model.
func buildIDs(name string, steps int) (*mkrlwe.IDSet, map[string]bool) {
	s, m := mkrlwe.NewIDSet(), map[string]bool{}
	for i := 0; i < steps; i++ {
		k := opt(str("%s%d", name, i), 6)
		id := names(3)[k/2]
		if k%2 == 0 {
			s.Add(id)
			m[id] = true
		} else {
			s.Remove(id)
			delete(m, id)
		}
	}
	return s, m
}

func checkIDs(name string, s *mkrlwe.IDSet, m map[string]bool) {
	Assert(name+": size", s.Size() == len(m))
	for _, id := range append(names(4), "0", "") {
		Assert(name+": membership", s.Has(id) == m[id])
	}
}

// C21_IDSet: membership, size, union, intersection and copies are those of mathematical sets.
func C21_IDSet() {
	st := 2
	if Thorough() {
		st = 3
	}
	a, ma := buildIDs("a", st)
	b, mb := buildIDs("b", st)
	MapOrder(opt("order", 2))
	checkIDs("first set", a, ma)
	checkIDs("second set", b, mb)
	mu, mi := map[string]bool{}, map[string]bool{}
	for id := range ma {
		mu[id] = true
		if mb[id] {
			mi[id] = true
		}
	}
	for id := range mb {
		mu[id] = true
	}
	u, x, c := a.Union(b), a.Intersection(b), a.CopyNew()
	checkIDs("union", u, mu)
	checkIDs("intersection", x, mi)
	checkIDs("copy", c, ma)
	checkIDs("first set after set operations", a, ma)
	checkIDs("second set after set operations", b, mb)
	checkIDs("union with itself", a.Union(a), ma)
	checkIDs("intersection with itself", a.Intersection(a), ma)
	// results are independent of their sources
	for _, s := range []*mkrlwe.IDSet{u, x, c} {
		s.Add("dave")
		s.Remove("alice")
	}
	checkIDs("first set after changing results", a, ma)
	checkIDs("second set after changing results", b, mb)
	a.Add("dave")
	b.Remove("bob")
	delete(mu, "alice")
	mu["dave"] = true
	checkIDs("union after changing the sets", u, mu)
	delete(mi, "alice")
	mi["dave"] = true
	checkIDs("intersection after changing the sets", x, mi)
	ma["dave"] = true
	Refuses("the reserved identity", func() { a.Add("0") })
	checkIDs("set after the refusal", a, ma)
}

// registry drives one key registry; keys are identified by a tag.
type registry struct {
	add func(id string, idx, tag int)
	del func(id string, idx int)
	get func(id string, idx int) ([]*ring.Poly, string, int)
}

func regPolys(ks ...*mkrlwe.SwitchingKey) (r []*ring.Poly) {
	for _, k := range ks {
		r = append(r, swkPolys(k)...)
	}
	return
}

// newRegistry: the registry of a kind, the contents of its keys by tag, and its number of indices.
func newRegistry(kind int) (rg registry, contents map[int][]*ring.Poly, nIdx int) {
	p := rlweParams(cfg{1, 2})
	bp := bfvParams(cfg{1, 2})
	if kind == 4 {
		p = bp.Parameters
	}
	contents = map[int][]*ring.Poly{}
	keep := func(tag int, ps []*ring.Poly) {
		for i, x := range ps {
			rg := p.RingQ()
			if i%2 == 1 {
				rg = p.RingP()
			}
			Fill(str("key%d.%d", tag, i), rg, len(x.Coeffs)-1, x, true)
		}
		contents[tag] = copyPolys(ps)
	}
	qp := func(v ...rlwe.PolyQP) (r []*ring.Poly) {
		for _, x := range v {
			r = append(r, x.Q, x.P)
		}
		return
	}
	nIdx = 1
	switch kind {
	case 0:
		s := mkrlwe.NewSecretKeySet()
		rg = registry{func(id string, _, tag int) {
			k := mkrlwe.NewSecretKey(p, id)
			keep(tag, qp(k.Value))
			s.AddSecretKey(k)
		}, func(id string, _ int) { s.DelSecretKey(id) },
			func(id string, idx int) ([]*ring.Poly, string, int) {
				k := s.GetSecretKey(id)
				return qp(k.Value), k.ID, idx
			}}
	case 1:
		s := mkrlwe.NewPublicKeyKeySet()
		rg = registry{func(id string, _, tag int) {
			k := mkrlwe.NewPublicKey(p, id)
			keep(tag, qp(k.Value[0], k.Value[1]))
			s.AddPublicKey(k)
		}, func(id string, _ int) { s.DelPublicKey(id) },
			func(id string, idx int) ([]*ring.Poly, string, int) {
				k := s.GetPublicKey(id)
				return qp(k.Value[0], k.Value[1]), k.ID, idx
			}}
	case 2:
		nIdx = 2
		s := mkrlwe.NewRotationKeySet()
		rg = registry{func(id string, idx, tag int) {
			k := mkrlwe.NewRotationKey(p, uint(idx+1), id)
			keep(tag, regPolys(k.Value))
			s.AddRotationKey(k)
		}, func(id string, idx int) { s.DelRotationKey(id, uint(idx+1)) },
			func(id string, idx int) ([]*ring.Poly, string, int) {
				k := s.GetRotationKey(id, uint(idx+1))
				return regPolys(k.Value), k.ID, int(k.RotIdx) - 1
			}}
	case 3:
		s := mkrlwe.NewRelinearizationKeyKeySet(p)
		rg = registry{func(id string, _, tag int) {
			k := mkrlwe.NewRelinearizationKey(p, id)
			keep(tag, regPolys(k.Value[:]...))
			s.AddRelinearizationKey(k)
		}, func(id string, _ int) { s.DelRelinearizationKey(id) },
			func(id string, idx int) ([]*ring.Poly, string, int) {
				k := s.GetRelinearizationKey(id)
				return regPolys(k.Value[:]...), k.ID, idx
			}}
	case 4:
		s := mkbfv.NewRelinearizationKeyKeySet(bp)
		rg = registry{func(id string, _, tag int) {
			k := mkbfv.NewRelinearizationKey(bp, id)
			keep(tag, append(regPolys(k.Value[0].Value[:]...), regPolys(k.Value[1].Value[:]...)...))
			s.AddRelinearizationKey(k)
		}, func(id string, _ int) { s.DelRelinearizationKey(id) },
			func(id string, idx int) ([]*ring.Poly, string, int) {
				k := s.GetRelinearizationKey(id)
				return append(regPolys(k.Value[0].Value[:]...), regPolys(k.Value[1].Value[:]...)...), k.ID, idx
			}}
	case 5:
		s := mkrlwe.NewConjugationKeySet()
		rg = registry{func(id string, _, tag int) {
			k := mkrlwe.NewConjugationKey(p, id)
			keep(tag, regPolys(k.Value))
			s.AddConjugationKey(k)
		}, func(id string, _ int) { s.DelConjugationKey(id) },
			func(id string, idx int) ([]*ring.Poly, string, int) {
				k := s.GetConjugationKey(id)
				return regPolys(k.Value), k.ID, idx
			}}
	}
	return
}

// alike: identities that are easily confused: by case, blanks, length, prefix, suffix, as numbers, or when
// joined with an index.
var alike = [][2]string{
	{"user", "User"}, {"user", "user "}, {"user", " user"}, {"user", "user\x00"}, {"user1", "user11"}, {"1", "01"},
	{"user", "resu"}, {"user:1", "user"}, {"user-1", "user1"}, {"", "user"}, {"", " "}, {"00", "000"}, {"a\u00e9", "ae\u0301"},
	{"abcdefgh1", "abcdefgh2"}, {"1abcdefghijklmnop", "2abcdefghijklmnop"},
	{"0123456789012345678901234567890123456789012345678901234567890123-left", "0123456789012345678901234567890123456789012345678901234567890123-rite"},
	{"ad", "bc"}, {"Aa", "BB"},
}

// alikeIdx: rotation indices that are easily confused.
var alikeIdx = [][2]int{{0, 256}, {0, 1 << 16}, {1, 1 << 32}, {1, n / 2}, {1, n}, {1, 2 * n}, {2, 12}, {1, 11}, {1, 10}, {4, 1<<62 + 4}}

// C21_Names: registries and sets keep apart identities and indices that look alike.
func C21_Names() {
	kind := opt("registry", 7)
	k := opt("pair", len(alike)+len(alikeIdx)+1)
	id0, id1, x0, x1 := "user", "user", 0, 0
	switch {
	case k < len(alike):
		id0, id1 = alike[k][0], alike[k][1]
	case k < len(alike)+len(alikeIdx):
		x0, x1 = alikeIdx[k-len(alike)][0], alikeIdx[k-len(alike)][1]
	default:
		// equal when the index is written behind the identity: the registry calls the indices 1 and 11
		id0, id1, x0, x1 = "user1", "user", 0, 10
	}
	if opt("swap", 2) == 1 {
		id0, id1, x0, x1 = id1, id0, x1, x0
	}
	if kind == 6 {
		if id0 == id1 {
			return
		}
		s, m := mkrlwe.NewIDSet(), mkrlwe.NewIDSet()
		s.Add(id0)
		Assert("an identity that looks alike is not a member", s.Has(id0) && !s.Has(id1) && s.Size() == 1)
		m.Add(id1)
		Assert("no common member", s.Intersection(m).Size() == 0)
		u := s.Union(m)
		Assert("both are members of the union", u.Size() == 2 && u.Has(id0) && u.Has(id1))
		u.Remove(id0)
		Assert("removing one keeps the other", u.Size() == 1 && u.Has(id1) && !u.Has(id0))
		return
	}
	rg, contents, nIdx := newRegistry(kind)
	if nIdx == 1 && id0 == id1 {
		return
	}
	find := func(name, id string, x, tag int) {
		NoPanic(name+" is found", func() {
			ps, gid, gx := rg.get(id, x)
			Assert(name+" has its identity and index", gid == id && (nIdx == 1 || gx == x))
			Assert(name+" has its parts", len(ps) == len(contents[tag]))
			if len(ps) == len(contents[tag]) {
				samePolys(name+" is the key added", ps, contents[tag])
			}
		})
	}
	if !NoPanic("adding a key is accepted", func() { rg.add(id0, x0, 1) }) {
		return
	}
	Refuses("an identity or index that looks alike", func() { rg.get(id1, x1) })
	if !NoPanic("adding a key is accepted", func() { rg.add(id1, x1, 2) }) {
		return
	}
	find("the first key", id0, x0, 1)
	find("the second key", id1, x1, 2)
	if !NoPanic("deleting a key is accepted", func() { rg.del(id0, x0) }) {
		return
	}
	Refuses("a deleted key", func() { rg.get(id0, x0) })
	find("the other key", id1, x1, 2)
}

// C21_Registry: every lookup after every history of additions, replacements and deletions.
func C21_Registry() {
	kind := opt("registry", 6)
	rg, contents, nIdx := newRegistry(kind)
	// a history over two identities (and, for rotation keys, two indices)
	steps, slots := 3, 2*nIdx
	if nIdx == 1 || Thorough() {
		steps = 4
	}
	model := map[int]int{}
	for t := 0; t < steps; t++ {
		k := opt(str("op%d", t), 2*slots)
		slot := k / 2
		id, idx := names(2)[slot/nIdx], slot%nIdx
		if k%2 == 0 {
			if !NoPanic("adding a key is accepted", func() { rg.add(id, idx, t+1) }) {
				return
			}
			model[slot] = t + 1
		} else {
			if !NoPanic("deleting a key is accepted", func() { rg.del(id, idx) }) {
				return
			}
			delete(model, slot)
		}
	}
	for slot := 0; slot < slots; slot++ {
		id, idx := names(2)[slot/nIdx], slot%nIdx
		tag, in := model[slot]
		if !in {
			Refuses("a key never added or deleted", func() { rg.get(id, idx) })
			continue
		}
		NoPanic("a key that was added is found", func() {
			ps, gid, gidx := rg.get(id, idx)
			Assert("it has its identity and index", gid == id && gidx == idx)
			Assert("it has its parts", len(ps) == len(contents[tag]))
			if len(ps) == len(contents[tag]) {
				samePolys("it is the key added last", ps, contents[tag])
			}
		})
	}
	Refuses("an unknown identity", func() { rg.get("carol", 0) })
	Refuses("an unknown identity", func() { rg.get("0", 0) })
	if kind == 2 {
		Refuses("an unknown index", func() { rg.get("alice", 6) })
	}
}

// C21_Pad: the parties of a ciphertext, and padding with further parties.
func C21_Pad() {
	c := pick("cfg", cfg{3, 2})
	p := rlweParams(c)
	lvl := opt("level", c.nQ)
	ntt := opt("ntt", 2) == 1
	MapOrder(opt("order", 2))
	ids := subset(names(3), opt("ids", 8))
	pad := subset(names(3), opt("pad", 8))
	ct := mkrlwe.NewCiphertext(p, idset(ids), lvl)
	if ntt {
		ct = mkrlwe.NewCiphertextNTT(p, idset(ids), lvl)
	}
	Assert("level of a new ciphertext", ct.Level() == lvl)
	for _, id := range append([]string{"0"}, ids...) {
		Assert("a new ciphertext has every component in the requested domain", ct.Value[id] != nil && ct.Value[id].IsNTT == ntt && len(ct.Value[id].Coeffs) == lvl+1)
		Equal("a new ciphertext is zero", Of(p.RingQ(), lvl, ct.Value[id], ntt, false), ZeroE(n, p.RingQ().Modulus[:lvl+1]))
	}
	for _, id := range append([]string{"0"}, ids...) {
		FillLoose("ct."+id, p.RingQ(), lvl, ct.Value[id], ntt)
	}
	m := map[string]bool{}
	for _, id := range ids {
		m[id] = true
	}
	checkIDs("parties of a ciphertext", ct.IDSet(), m)
	cp := ct.CopyNew()
	set := idset(pad)
	snap := copyCt(ct)
	if !NoPanic("padding is accepted", func() { ct.PadCiphertext(set) }) {
		return
	}
	mp := map[string]bool{}
	for _, id := range pad {
		m[id] = true
		mp[id] = true
	}
	checkIDs("the given set is not changed", set, mp)
	checkIDs("parties after padding", ct.IDSet(), m)
	for _, id := range union(ids, pad) {
		q := ct.Value[id]
		if q == nil || len(q.Coeffs) != lvl+1 {
			Assert("every component has the level of the ciphertext", false)
			return
		}
		if has(ids, id) {
			EqPoly("components the ciphertext had are kept", q, snap.Value[id])
		} else {
			Assert("a new component is in the domain of the ciphertext", q.IsNTT == ntt)
			Equal("a new component is zero", Of(p.RingQ(), lvl, q, ntt, false), ZeroE(n, p.RingQ().Modulus[:lvl+1]))
			for _, o := range append([]string{"0"}, ids...) {
				Disjoint("a new component has memory of its own", q, ct.Value[o])
			}
		}
	}
	EqPoly("the body is kept", ct.Value["0"], snap.Value["0"])
	sameCt("a copy made before is not changed", cp, snap)
	disjointCts("a copy shares no memory", cp, ct)
	// copying values into an existing ciphertext
	o := mkrlwe.NewCiphertext(p, idset(ids), lvl)
	for _, id := range append([]string{"0"}, ids...) {
		Fill("o."+id, p.RingQ(), lvl, o.Value[id], false)
	}
	if !NoPanic("copying is accepted", func() { o.Copy(cp) }) {
		return
	}
	for _, id := range append([]string{"0"}, ids...) {
		for i := 0; i <= lvl; i++ {
			EqRow("copied values", o.Value[id], cp.Value[id], i)
		}
	}
	disjointCts("a copied ciphertext shares no memory", o, cp)
	// the scheme-level ciphertexts
	q := ckksParams(c)
	k := mkckks.NewCiphertext(q, idset(ids), lvl, 3)
	Assert("a new CKKS ciphertext has its level and scale", k.Level() == lvl && k.ScalingFactor() == 3)
	for _, id := range append([]string{"0"}, ids...) {
		FillLoose("k."+id, q.RingQ(), lvl, k.Value[id], false)
	}
	k2 := k.CopyNew()
	sameCt("a CKKS copy has the contents", k2.Ciphertext, k.Ciphertext)
	k2.SetScalingFactor(5)
	Assert("a CKKS copy has its own scale", k.Scale == 3 && k2.Scale == 5)
	disjointCts("a CKKS copy shares no memory", k2.Ciphertext, k.Ciphertext)
}
