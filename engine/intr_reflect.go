package main

import (
	"fmt"
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

// A small part of reflect: looking at what kind of value an interface holds.

func kindOf(t types.Type) reflect.Kind {
	if t == nil {
		return reflect.Invalid
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch x.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func (m *Machine) reflOf(v Value) iface {
	switch x := v.(type) {
	case native:
		if x.kind == "reflect" {
			return *x.v.(*iface)
		}
	case structV: // the zero Value
		return iface{}
	}
	m.unsupported("reflect value")
	return iface{}
}

func mkRefl(i iface) Value { return native{"reflect", &i} }

// constKey says whether a value has nothing symbolic and no pointers in it
func constKey(v Value) (string, bool) {
	switch x := v.(type) {
	case string:
		return fmt.Sprintf("%q", x), true
	case *Term:
		if x != nil && x.IsConst() {
			return x.String(), true
		}
	case structV:
		r := "{"
		for _, e := range x {
			s, ok := constKey(e)
			if !ok {
				return "", false
			}
			r += s + ","
		}
		return r + "}", true
	}
	return "", false
}

func regReflect() {
	reg("unique.Make", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		k, ok := constKey(a[0])
		if !ok {
			m.unsupported("unique.Make of a symbolic value")
		}
		k = fn.Signature.Params().At(0).Type().String() + k
		c, ok := m.uniq[k]
		if !ok {
			if m.uniq == nil {
				m.uniq = map[string]*Value{}
			}
			c = newCell(copyVal(a[0]))
			m.uniq[k] = c
		}
		return structV{c}
	})
	reg("reflect.ValueOf", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		i, ok := a[0].(iface)
		if !ok {
			if p, isP := a[0].(poison); isP {
				m.unsupported("poison: " + p.why)
			}
			m.unsupported("reflect.ValueOf")
		}
		return mkRefl(i)
	})
	reg("(reflect.Value).Kind", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.c.BV(uint64(kindOf(m.reflOf(a[0]).t)), 64)
	})
	reg("(reflect.Value).IsValid", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.c.Bool(m.reflOf(a[0]).t != nil)
	})
	reg("(reflect.Value).Interface", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.reflOf(a[0])
	})
	reg("(reflect.Value).String", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		i := m.reflOf(a[0])
		if kindOf(i.t) != reflect.String {
			m.unsupported("reflect.Value.String of another kind")
		}
		return i.v
	})
	reg("(reflect.Value).Bool", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		i := m.reflOf(a[0])
		if kindOf(i.t) != reflect.Bool {
			m.unsupported("reflect.Value.Bool of another kind")
		}
		return i.v
	})
	reg("(reflect.Value).Len", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		i := m.reflOf(a[0])
		switch kindOf(i.t) {
		case reflect.String:
			return m.strLen(i.v)
		case reflect.Slice:
			if s, ok := i.v.([]Value); ok {
				return m.c.BV(uint64(len(s)), 64)
			}
			return m.c.BV(0, 64)
		}
		m.unsupported("reflect.Value.Len of another kind")
		return nil
	})
	reg("(reflect.Value).IsNil", func(m *Machine, fr *frame, fn *ssa.Function, a []Value) Value {
		return m.c.Bool(isNilValue(m.reflOf(a[0]).v))
	})
}
