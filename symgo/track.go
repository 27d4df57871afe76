package main

import (
	"fmt"
	"sort"
	"strings"
)

// track records the memory that one concurrent operation reads and writes, among everything that
// existed before the operations started: cells of objects, maps as a whole, and the hidden state of
// contracted lattigo objects (samplers, encoders) as a cell of the object.
type track struct {
	start int
	at    map[*Obj][]uint8 // 1 read, 2 written
	maps  map[*MapV]uint8
	where map[string]string // object and kind -> function of the first access
}

func newTrack(start int) *track {
	return &track{start: start, at: map[*Obj][]uint8{}, maps: map[*MapV]uint8{}, where: map[string]string{}}
}

func (it *Interp) here() string {
	d := it.depth
	if d > len(it.stack) {
		d = len(it.stack)
	}
	for ; d > 0; d-- {
		if f := it.stack[d-1]; f != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "mk-lattigo") {
			return f.String()
		}
	}
	return "?"
}

func (it *Interp) mark(o *Obj, off, n int, k uint8) {
	t := it.trk
	if t == nil || o == nil || o.id > t.start || n <= 0 || it.locked > 0 {
		return
	}
	b := t.at[o]
	if b == nil {
		b = make([]uint8, len(o.cells))
		t.at[o] = b
	}
	first := false
	for i := off; i < off+n && i < len(b); i++ {
		first = first || b[i]&k == 0
		b[i] |= k
	}
	if first {
		w := fmt.Sprintf("%d/%d", o.id, k)
		if _, ok := t.where[w]; !ok {
			t.where[w] = it.here()
		}
	}
}

func (it *Interp) markMap(m *MapV, k uint8) {
	t := it.trk
	if t == nil || m == nil || m.id > t.start || it.locked > 0 {
		return
	}
	t.maps[m] |= k
	w := fmt.Sprintf("%d/%d", m.id, k)
	if _, ok := t.where[w]; !ok {
		t.where[w] = it.here()
	}
}

// rd and wr mark slices of words.
func (it *Interp) rd(s *SliceV, n int) {
	if it.trk != nil && s != nil {
		it.mark(s.obj, s.off, n*s.esz, 1)
	}
}
func (it *Interp) wr(s *SliceV, n int) {
	if it.trk != nil && s != nil {
		it.mark(s.obj, s.off, n*s.esz, 2)
	}
}

// markPtr marks the hidden state of the object v points to (or the interface holds).
func (it *Interp) markPtr(v Value, k uint8) {
	if it.trk == nil {
		return
	}
	if f, ok := v.P.(*Iface); ok {
		v = f.v
	}
	if o, ok := v.P.(*Obj); ok {
		it.mark(o, int(v.U), 1, k)
	}
}

type span struct {
	lo, hi int
	id     int
}

// spans lays the accessed cells out in one address space.
func (t *track) spans(base map[int]int, mask uint8) (r []span) {
	for o, b := range t.at {
		for i := 0; i < len(b); {
			if b[i]&mask == 0 {
				i++
				continue
			}
			j := i
			for j < len(b) && b[j]&mask != 0 {
				j++
			}
			r = append(r, span{base[o.id] + i, base[o.id] + j, o.id})
			i = j
		}
	}
	for m, k := range t.maps {
		if k&mask != 0 {
			r = append(r, span{base[m.id], base[m.id] + 1, m.id})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].lo < r[j].lo })
	return
}

func merge(s []span) (r []span) {
	for _, x := range s {
		if n := len(r); n > 0 && r[n-1].hi >= x.lo {
			if x.hi > r[n-1].hi {
				r[n-1].hi = x.hi
			}
			continue
		}
		r = append(r, x)
	}
	return
}

// common keeps the spans of x in objects y touches as well.
func common(x, y []span) (r []span) {
	in := map[int]bool{}
	for _, s := range y {
		in[s.id] = true
	}
	for _, s := range x {
		if in[s.id] {
			r = append(r, s)
		}
	}
	return
}

func smtSpans(v string, s []span) string {
	if len(s) == 0 {
		return "false"
	}
	// balanced: keeps the term shallow
	if len(s) == 1 {
		return fmt.Sprintf("(and (<= %d %s) (< %s %d))", s[0].lo, v, v, s[0].hi)
	}
	m := len(s) / 2
	return fmt.Sprintf("(ite (< %s %d) %s %s)", v, s[m].lo, smtSpans(v, s[:m]), smtSpans(v, s[m:]))
}

// concurrent runs the operations one after the other and asks whether any cell is written by one and
// accessed by another: if not, every interleaving of their steps is free of data races and computes
// what each computes alone.
func (it *Interp) concurrent(name string, labels []string, fs []Value) {
	if it.trk != nil {
		unsupported("nested Concurrent")
	}
	start := it.objID
	var ts []*track
	for _, f := range fs {
		it.trk = newTrack(start)
		func() {
			defer func() {
				ts = append(ts, it.trk)
				it.trk = nil
			}()
			it.callValue(f, nil, nil)
		}()
	}
	it.races(name, labels, ts, func(i, j int) bool { return i != j })
}

// forks holds the footprints of goroutines that have not been waited for, and of the segments of the
// code that started them: segment k runs after goroutine k has been started.
type forks struct {
	ts     []*track // goroutines
	main   []*track // segments
	labels []string
}

// spawn runs a goroutine at once, up to its end, and records its footprint.
func (it *Interp) spawn(f Value, args []Value, fr *frame, label string) {
	if it.trk != nil && it.fk == nil {
		it.callValue(f, args, fr)
		return
	}
	if it.fk == nil {
		it.fk = &forks{}
	}
	k := it.fk
	t := newTrack(it.objID)
	outer, inner := it.trk, it.locked
	it.trk, it.locked, it.fk = t, 0, nil
	it.callValue(f, args, fr)
	it.locked, it.fk = inner, k
	_ = outer
	k.ts, k.labels = append(k.ts, t), append(k.labels, label)
	m := newTrack(it.objID)
	k.main = append(k.main, m)
	it.trk = m
}

// join compares the footprints of the goroutines that ran since the last join.
func (it *Interp) join() {
	k := it.fk
	if k == nil {
		return
	}
	it.fk, it.trk = nil, nil
	n := len(k.ts)
	ts := append(append([]*track(nil), k.ts...), k.main...)
	labels := append([]string(nil), k.labels...)
	for range k.main {
		labels = append(labels, "the code that started the goroutines")
	}
	it.races("goroutines", labels, ts, func(i, j int) bool {
		switch {
		case i < n && j < n:
			return i != j
		case i < n:
			return j-n >= i // a later segment runs alongside goroutine i
		case j < n:
			return i-n >= j
		}
		return false
	})
}

// races asks, for every footprint, whether a cell written in it is accessed in one it overlaps in time with.
func (it *Interp) races(name string, labels []string, ts []*track, overlap func(i, j int) bool) {
	base := map[int]int{}
	var ids []int
	size := map[int]int{}
	for _, t := range ts {
		for o := range t.at {
			if _, ok := size[o.id]; !ok {
				ids = append(ids, o.id)
			}
			size[o.id] = len(o.cells)
		}
		for m := range t.maps {
			if _, ok := size[m.id]; !ok {
				ids = append(ids, m.id)
			}
			size[m.id] = 1
		}
	}
	sort.Ints(ids)
	a := 0
	for _, id := range ids {
		base[id] = a
		a += size[id]
	}
	for i, t := range ts {
		w := t.spans(base, 2)
		var acc []span
		note := ""
		for j, u := range ts {
			if !overlap(i, j) {
				continue
			}
			sp := u.spans(base, 3)
			acc = append(acc, sp...)
			for k, l := 0, 0; note == "" && k < len(w) && l < len(sp); {
				x, y := w[k], sp[l]
				if x.lo < y.hi && y.lo < x.hi {
					kind := 2
					if u.where[fmt.Sprintf("%d/2", y.id)] == "" {
						kind = 1
					}
					note = fmt.Sprintf("memory written in %s is accessed by %s in %s", t.where[fmt.Sprintf("%d/2", x.id)], labels[j], u.where[fmt.Sprintf("%d/%d", y.id, kind)])
				}
				if x.hi <= y.hi {
					k++
				} else {
					l++
				}
			}
		}
		// only objects that both sides touch can hold a common address
		w, acc = common(w, acc), common(acc, w)
		sort.Slice(acc, func(i, j int) bool { return acc[i].lo < acc[j].lo })
		it.H.addObl(&Obl{Kind: "data-race-freedom", Name: fmt.Sprintf("%s: nothing %s writes is accessed by another operation", name, labels[i]), Expect: "unsat", Note: note,
			SMT: fmt.Sprintf("(declare-const a Int)(assert (and (<= 0 a) (< a %d)))(assert %s)(assert %s)", a, smtSpans("a", merge(w)), smtSpans("a", merge(acc)))})
	}
}
