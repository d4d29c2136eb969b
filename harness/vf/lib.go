package vf

import (
	"fmt"
	"reflect"
	"runtime/debug"

	"github.com/RomiChan/protobuf/proto"
)

// Violation is thrown (as a panic) by a monitor that saw the property broken.
type Violation struct{ Msg string }

// Fail throws a violation.
func Fail(format string, a ...any) { panic(Violation{fmt.Sprintf(format, a...)}) }

func guard(what string, v any) {
	if e := recover(); e != nil {
		if w, ok := e.(Violation); ok {
			panic(w)
		}
		panic(Violation{fmt.Sprintf("%s(%T) panicked: %v\n%s", what, v, e, debug.Stack())})
	}
}

// Marshal calls the library; a panic is a violation.
func Marshal(v any) (b []byte, err error) {
	defer guard("Marshal", v)
	return proto.Marshal(v)
}

// Unmarshal calls the library; a panic is a violation.
func Unmarshal(b []byte, v any) (err error) {
	defer guard("Unmarshal", v)
	return proto.Unmarshal(b, v)
}

// Size calls the library; a panic is a violation.
func Size(v any) (n int) {
	defer guard("Size", v)
	return proto.Size(v)
}

// MustMarshal encodes and fails on an error.
func MustMarshal(v any) []byte {
	b, err := Marshal(v)
	if err != nil {
		Fail("Marshal(%T) failed: %v", v, err)
	}
	return b
}

// Read reads a Go message back into an abstract value. A message that cannot be
// read (corrupt headers and so on) is a violation.
func Read(t *Msg, p reflect.Value) *MVal {
	defer guard("reading back", p.Interface())
	return FromGoVal(t, p)
}

// New makes a fresh zero message of the type.
func New(t *Msg) reflect.Value { return reflect.New(t.Go) }

// GoTypeOf is the Go type that holds a field.
func GoTypeOf(f *Field) reflect.Type { return f.goType() }

// OptElem tells whether t is an optional wrapper, and of what.
func OptElem(t reflect.Type) (reflect.Type, bool) {
	e, ok := optElem[t]
	return e, ok
}
