package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Value is one register or memory cell. Integers, booleans and floats live in U
// (sign-extended / bit pattern); everything else, and every symbolic value, in P.
type Value struct {
	U uint64
	P any
}

// Obj is a block of flat memory cells; a pointer is {P:*Obj, U:offset}.
type Obj struct {
	cells []Value
	tag   any
	id    int
}

type SliceV struct {
	obj      *Obj
	off      int // in cells
	len, cap int // in elements
	esz      int
}

type Agg []Value   // flattened struct / array value
type Tuple []Value // multi-value

type FuncV struct {
	fn     *ssa.Function
	env    []Value
	native func(it *Interp, args []Value) Value
	recv   *Value
}

type Iface struct {
	t types.Type
	v Value
}

type MapV struct {
	keys  []any
	kv    map[any]Value // original key value
	vals  map[any]Value
	order int // iteration order mode
	id    int
}

type mapIter struct {
	m    *MapV
	keys []any
	i    int
	str  string
	isS  bool
}

func (m *MapV) set(k any, kv, v Value) {
	if _, ok := m.vals[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.vals[k] = v
	m.kv[k] = kv
}
func (m *MapV) del(k any) {
	if _, ok := m.vals[k]; ok {
		delete(m.vals, k)
		delete(m.kv, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

// Unsupported is raised (as a Go panic) for constructs outside the encoder's reach:
// the path becomes inconclusive.
type Unsupported struct{ msg string }

func unsupported(f string, a ...any) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v   Value // interface value
	msg string
}

func vInt(i int64) Value     { return Value{U: uint64(i)} }
func vUint(u uint64) Value   { return Value{U: u} }
func vFloat(f float64) Value { return Value{U: math.Float64bits(f)} }
func vStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{P: s}
}
func vBool(b bool) Value {
	if b {
		return Value{U: 1}
	}
	return Value{}
}
func (v Value) int() int {
	if v.P != nil {
		unsupported("symbolic int %T", v.P)
	}
	return int(int64(v.U))
}
func (v Value) f64() float64 {
	if v.P != nil {
		unsupported("symbolic float")
	}
	return math.Float64frombits(v.U)
}
func (v Value) str() string {
	if v.P == nil {
		return ""
	}
	return v.P.(string)
}
func (v Value) bool() bool {
	if v.P != nil {
		unsupported("symbolic bool")
	}
	return v.U != 0
}
func (v Value) isNil() bool { return v.P == nil }
func (v Value) slice() *SliceV {
	if v.P == nil {
		return nil
	}
	return v.P.(*SliceV)
}

var _ = big.NewInt
