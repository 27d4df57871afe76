package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A model of package sync and sync/atomic for executions that run every goroutine to its end when it
// starts. Accesses made while a lock is held are left out of footprints (see track.go).

type synKey struct {
	o   *Obj
	off uint64
}

type synState struct {
	done bool
	m    *MapV
	list []Value
}

func (it *Interp) synOf(p Value) *synState {
	if p.P == nil {
		it.rtPanic("invalid memory address or nil pointer dereference")
	}
	o, ok := p.P.(*Obj)
	if !ok {
		unsupported("symbolic synchronisation object")
	}
	if it.syn == nil {
		it.syn = map[synKey]*synState{}
	}
	k := synKey{o, p.U}
	s := it.syn[k]
	if s == nil {
		s = &synState{m: &MapV{kv: map[any]Value{}, vals: map[any]Value{}}}
		it.syn[k] = s
	}
	return s
}

// quietly runs f without recording footprints.
func (it *Interp) quietly(f func() Value) Value {
	it.locked++
	v := f()
	it.locked--
	return v
}

func init() {
	nop := func(it *Interp, fn *ssa.Function, a []Value) Value { return Value{} }
	lock := func(it *Interp, fn *ssa.Function, a []Value) Value { it.locked++; return Value{} }
	unlock := func(it *Interp, fn *ssa.Function, a []Value) Value {
		if it.locked > 0 {
			it.locked--
		}
		return Value{}
	}
	try := func(it *Interp, fn *ssa.Function, a []Value) Value { it.locked++; return vBool(true) }
	for _, t := range []string{"Mutex", "RWMutex"} {
		reg("(*sync."+t+").Lock", lock)
		reg("(*sync."+t+").Unlock", unlock)
		reg("(*sync."+t+").TryLock", try)
	}
	reg("(*sync.RWMutex).RLock", lock)
	reg("(*sync.RWMutex).RUnlock", unlock)
	reg("(*sync.RWMutex).TryRLock", try)
	reg("(*sync.WaitGroup).Add", nop)
	reg("(*sync.WaitGroup).Done", nop)
	reg("(*sync.WaitGroup).Wait", func(it *Interp, fn *ssa.Function, a []Value) Value { it.join(); return Value{} })
	reg("(*sync.WaitGroup).Go", func(it *Interp, fn *ssa.Function, a []Value) Value {
		it.spawn(a[1], nil, nil, "WaitGroup.Go")
		return Value{}
	})
	reg("(*sync.Once).Do", func(it *Interp, fn *ssa.Function, a []Value) Value {
		if s := it.synOf(a[0]); !s.done {
			s.done = true
			it.quietly(func() Value { return it.callValue(a[1], nil, nil) })
		}
		return Value{}
	})
	any0 := types.NewInterfaceType(nil, nil)
	key := func(it *Interp, k Value) any {
		if k.P == nil {
			return nil
		}
		return it.mapKey(k, any0)
	}
	reg("(*sync.Map).Load", func(it *Interp, fn *ssa.Function, a []Value) Value {
		v, ok := it.synOf(a[0]).m.vals[key(it, a[1])]
		return Value{P: Tuple{v, vBool(ok)}}
	})
	reg("(*sync.Map).Store", func(it *Interp, fn *ssa.Function, a []Value) Value {
		it.synOf(a[0]).m.set(key(it, a[1]), a[1], a[2])
		return Value{}
	})
	reg("(*sync.Map).LoadOrStore", func(it *Interp, fn *ssa.Function, a []Value) Value {
		m, k := it.synOf(a[0]).m, key(it, a[1])
		if v, ok := m.vals[k]; ok {
			return Value{P: Tuple{v, vBool(true)}}
		}
		m.set(k, a[1], a[2])
		return Value{P: Tuple{a[2], vBool(false)}}
	})
	reg("(*sync.Map).LoadAndDelete", func(it *Interp, fn *ssa.Function, a []Value) Value {
		m, k := it.synOf(a[0]).m, key(it, a[1])
		v, ok := m.vals[k]
		m.del(k)
		return Value{P: Tuple{v, vBool(ok)}}
	})
	reg("(*sync.Map).Delete", func(it *Interp, fn *ssa.Function, a []Value) Value {
		it.synOf(a[0]).m.del(key(it, a[1]))
		return Value{}
	})
	reg("(*sync.Map).Range", func(it *Interp, fn *ssa.Function, a []Value) Value {
		m := it.synOf(a[0]).m
		for _, k := range append([]any(nil), m.keys...) {
			if v, ok := m.vals[k]; ok {
				if it.callValue(a[1], []Value{m.kv[k], v}, nil).U == 0 {
					break
				}
			}
		}
		return Value{}
	})
	// sync.Pool: objects handed back are handed out again, last first
	reg("(*sync.Pool).Put", func(it *Interp, fn *ssa.Function, a []Value) Value {
		if a[1].P != nil {
			s := it.synOf(a[0])
			s.list = append(s.list, a[1])
		}
		return Value{}
	})
	reg("(*sync.Pool).Get", func(it *Interp, fn *ssa.Function, a []Value) Value {
		s := it.synOf(a[0])
		if n := len(s.list); n > 0 {
			v := s.list[n-1]
			s.list = s.list[:n-1]
			return v
		}
		st := fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				f := it.load(Value{P: a[0].P, U: a[0].U + uint64(it.foff(st, i))}, st.Field(i).Type())
				if f.P == nil {
					return Value{}
				}
				return it.callValue(f, nil, nil)
			}
		}
		return Value{}
	})
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		bits := map[string]uint{"Int32": 32, "Int64": 64, "Uint32": 32, "Uint64": 64}[t]
		signed := t[0] == 'I'
		trim := func(x uint64) uint64 {
			if bits == 32 {
				if signed {
					return uint64(int64(int32(x)))
				}
				return uint64(uint32(x))
			}
			return x
		}
		et := map[string]types.Type{"Int32": types.Typ[types.Int32], "Int64": types.Typ[types.Int64], "Uint32": types.Typ[types.Uint32], "Uint64": types.Typ[types.Uint64]}[t]
		reg("sync/atomic.Load"+t, func(it *Interp, fn *ssa.Function, a []Value) Value {
			return it.quietly(func() Value { return it.load(a[0], et) })
		})
		reg("sync/atomic.Store"+t, func(it *Interp, fn *ssa.Function, a []Value) Value {
			return it.quietly(func() Value { it.store(a[0], a[1]); return Value{} })
		})
		reg("sync/atomic.Add"+t, func(it *Interp, fn *ssa.Function, a []Value) Value {
			return it.quietly(func() Value {
				v := Value{U: trim(uint64(it.load(a[0], et).int()) + uint64(a[1].int()))}
				it.store(a[0], v)
				return v
			})
		})
		reg("sync/atomic.Swap"+t, func(it *Interp, fn *ssa.Function, a []Value) Value {
			return it.quietly(func() Value { v := it.load(a[0], et); it.store(a[0], a[1]); return v })
		})
		reg("sync/atomic.CompareAndSwap"+t, func(it *Interp, fn *ssa.Function, a []Value) Value {
			return it.quietly(func() Value {
				if it.load(a[0], et).int() != a[1].int() {
					return vBool(false)
				}
				it.store(a[0], a[2])
				return vBool(true)
			})
		})
	}
}
