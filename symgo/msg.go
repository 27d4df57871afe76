package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// symMsg is a slot vector: a polynomial over rotated (and conjugated) variables, the same at every
// slot. A monomial is the sorted list of its factors.
type symMsg struct {
	slots int
	t     map[string]*msgTerm
}

type msgFactor struct {
	id, rot int
	conj    bool
}
type msgTerm struct {
	f []msgFactor
	c *big.Int
}

func msgKey(f []msgFactor) string {
	var sb strings.Builder
	for _, x := range f {
		fmt.Fprintf(&sb, "%d.%d.%v,", x.id, x.rot, x.conj)
	}
	return sb.String()
}

func newMsg(slots int) *symMsg { return &symMsg{slots: slots, t: map[string]*msgTerm{}} }

func (m *symMsg) add(f []msgFactor, c *big.Int) {
	k := msgKey(f)
	if x, ok := m.t[k]; ok {
		x.c = new(big.Int).Add(x.c, c)
		if x.c.Sign() == 0 {
			delete(m.t, k)
		}
		return
	}
	m.t[k] = &msgTerm{f, c}
}

func (m *symMsg) sum() (string, []string) {
	ks := make([]string, 0, len(m.t))
	for k := range m.t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	sb.WriteString("(+ 0.0 0.0")
	for _, k := range ks {
		fmt.Fprintf(&sb, " (* %s |%s|)", smtReal(m.t[k].c), k)
	}
	sb.WriteString(")")
	return sb.String(), ks
}

func smtReal(c *big.Int) string {
	if c.Sign() < 0 {
		return "(- " + new(big.Int).Neg(c).String() + ".0)"
	}
	return c.String() + ".0"
}

func (it *Interp) msg(v Value) *symMsg {
	if v.P == nil {
		it.rtPanic("invalid memory address or nil pointer dereference")
	}
	m, ok := v.P.(*Obj).tag.(*symMsg)
	if !ok {
		unsupported("not a slot vector")
	}
	return m
}

func (it *Interp) mkMsg(m *symMsg) Value {
	o := it.newObj(4)
	o.tag = m
	return ptr(o, 0)
}

func (m *symMsg) mapF(g func(msgFactor) msgFactor) *symMsg {
	r := newMsg(m.slots)
	for _, t := range m.t {
		f := make([]msgFactor, len(t.f))
		for i, x := range t.f {
			f[i] = g(x)
		}
		sortF(f)
		r.add(f, t.c)
	}
	return r
}

func sortF(f []msgFactor) {
	sort.Slice(f, func(i, j int) bool {
		if f[i].id != f[j].id {
			return f[i].id < f[j].id
		}
		if f[i].rot != f[j].rot {
			return f[i].rot < f[j].rot
		}
		return !f[i].conj && f[j].conj
	})
}

func init() {
	hreg := func(n string, f func(it *Interp, fn *ssa.Function, a []Value) Value) { reg(vs+n, f) }
	hreg("Symbolic", func(it *Interp, fn *ssa.Function, a []Value) Value { return vBool(true) })
	hreg("VarMsg", func(it *Interp, fn *ssa.Function, a []Value) Value {
		m := newMsg(a[1].int())
		it.nMsg++
		m.add([]msgFactor{{it.nMsg, 0, false}}, bOne)
		return it.mkMsg(m)
	})
	lin := func(neg bool) func(it *Interp, fn *ssa.Function, a []Value) Value {
		return func(it *Interp, fn *ssa.Function, a []Value) Value {
			x, y := it.msg(a[0]), it.msg(a[1])
			r := newMsg(x.slots)
			for _, t := range x.t {
				r.add(t.f, t.c)
			}
			for _, t := range y.t {
				c := t.c
				if neg {
					c = new(big.Int).Neg(c)
				}
				r.add(t.f, c)
			}
			return it.mkMsg(r)
		}
	}
	hreg("MsgAdd", lin(false))
	hreg("MsgSub", lin(true))
	hreg("MsgMul", func(it *Interp, fn *ssa.Function, a []Value) Value {
		x, y := it.msg(a[0]), it.msg(a[1])
		if len(x.t)*len(y.t) > 1<<20 {
			unsupported("slot expression too large")
		}
		r := newMsg(x.slots)
		for _, t := range x.t {
			for _, u := range y.t {
				f := append(append([]msgFactor{}, t.f...), u.f...)
				sortF(f)
				r.add(f, new(big.Int).Mul(t.c, u.c))
			}
		}
		return it.mkMsg(r)
	})
	hreg("MsgRot", func(it *Interp, fn *ssa.Function, a []Value) Value {
		m, k := it.msg(a[0]), a[1].int()
		n := m.slots
		return it.mkMsg(m.mapF(func(f msgFactor) msgFactor { f.rot = ((f.rot+k)%n + n) % n; return f }))
	})
	hreg("MsgConj", func(it *Interp, fn *ssa.Function, a []Value) Value {
		return it.mkMsg(it.msg(a[0]).mapF(func(f msgFactor) msgFactor { f.conj = !f.conj; return f }))
	})
	// equality at one slot for every value of the variables; the rotation group acts on all slots alike
	hreg("EqMsg", func(it *Interp, fn *ssa.Function, a []Value) Value {
		x, y := it.msg(a[1]), it.msg(a[2])
		gx, kx := x.sum()
		gy, ky := y.sum()
		var sb strings.Builder
		seen := map[string]bool{}
		for _, k := range append(kx, ky...) {
			if !seen[k] {
				seen[k] = true
				fmt.Fprintf(&sb, "(declare-const |%s| Real)\n", k)
			}
		}
		o := &Obl{Kind: "slots", Name: a[0].str(), Expect: "unsat"}
		o.SMT = sb.String() + fmt.Sprintf("(assert (not (= %s %s)))\n", gx, gy)
		d := newMsg(x.slots)
		for _, t := range x.t {
			d.add(t.f, t.c)
		}
		for _, t := range y.t {
			d.add(t.f, new(big.Int).Neg(t.c))
		}
		if len(d.t) > 0 {
			n := 0
			for k, t := range d.t {
				o.Note += fmt.Sprintf(" %s*[%s]", t.c, k)
				if n++; n > 5 {
					break
				}
			}
		}
		it.H.addObl(o)
		return Value{}
	})
}

// contractsFor maps the methods of mkckks.Evaluator to the harness's contracts for them (functions
// ckStub_Method): used by harnesses of layers built on top of the evaluator.
func (p *Program) contractsFor(harness string) map[*ssa.Function]*ssa.Function {
	if !strings.HasPrefix(harness, "C23_") {
		return nil
	}
	r := map[*ssa.Function]*ssa.Function{}
	pkg := p.pkgs["mk-lattigo/mkckks"]
	ev, ok := pkg.Members["Evaluator"].(*ssa.Type)
	if !ok {
		return r
	}
	pt := types.NewPointer(ev.Type())
	ms := p.prog.MethodSets.MethodSet(pt)
	for i := 0; i < ms.Len(); i++ {
		f := p.prog.MethodValue(ms.At(i))
		if f == nil {
			continue
		}
		st, _ := p.pkgs["vharness/h"].Members["ckStub_"+f.Name()].(*ssa.Function)
		r[f] = st // nil: no contract, the path is inconclusive
	}
	return r
}
