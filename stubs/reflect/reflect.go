// Package reflect (model): the part of reflect that package fmt and arr-ai/wbnf use, implemented
// by the symbolic executor (functions without bodies) instead of the runtime's type data.
package reflect

import "unsafe"

type Kind uint

const (
	Invalid Kind = iota
	Bool
	Int
	Int8
	Int16
	Int32
	Int64
	Uint
	Uint8
	Uint16
	Uint32
	Uint64
	Uintptr
	Float32
	Float64
	Complex64
	Complex128
	Array
	Chan
	Func
	Interface
	Map
	Pointer
	Slice
	String
	Struct
	UnsafePointer
)

const Ptr = Pointer

var kindNames = []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr",
	"float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}

func (k Kind) String() string { return kindNames[k] }

type StructTag string

type StructField struct {
	Name      string
	PkgPath   string
	Type      Type
	Tag       StructTag
	Index     []int
	Anonymous bool
}

type Type interface {
	String() string
	Name() string
	PkgPath() string
	Kind() Kind
	Elem() Type
	Key() Type
	Len() int
	NumField() int
	NumMethod() int
	Field(i int) StructField
	Comparable() bool
	Implements(u Type) bool
	AssignableTo(u Type) bool
}

type rtype struct{ _ int }

func (t *rtype) String() string
func (t *rtype) Name() string
func (t *rtype) PkgPath() string
func (t *rtype) Kind() Kind
func (t *rtype) Elem() Type
func (t *rtype) Key() Type
func (t *rtype) Len() int
func (t *rtype) NumField() int
func (t *rtype) NumMethod() int
func (t *rtype) fieldName(i int) string
func (t *rtype) fieldType(i int) Type
func (t *rtype) Comparable() bool
func (t *rtype) Implements(u Type) bool
func (t *rtype) AssignableTo(u Type) bool
func (t *rtype) Field(i int) StructField {
	return StructField{Name: t.fieldName(i), Type: t.fieldType(i)}
}

func TypeOf(x any) Type
func DeepEqual(x, y any) bool

type Value struct {
	typ *rtype
	v   any
	ro  bool
}

func ValueOf(x any) Value

func (v Value) IsValid() bool { return v.typ != nil }
func (v Value) Kind() Kind {
	if v.typ == nil {
		return Invalid
	}
	return v.typ.Kind()
}
func (v Value) Type() Type {
	if v.typ == nil {
		panic("reflect: call of reflect.Value.Type on zero Value")
	}
	return v.typ
}
func (v Value) CanInterface() bool { return !v.ro }
func (v Value) CanAddr() bool      { return false }
func (v Value) Interface() any
func (v Value) Bool() bool
func (v Value) Int() int64
func (v Value) Uint() uint64
func (v Value) Float() float64
func (v Value) Complex() complex128
func (v Value) String() string
func (v Value) Bytes() []byte
func (v Value) IsNil() bool
func (v Value) Len() int
func (v Value) Index(i int) Value
func (v Value) NumField() int { return v.typ.NumField() }
func (v Value) Field(i int) Value
func (v Value) Elem() Value
func (v Value) MapKeys() []Value
func (v Value) MapIndex(k Value) Value
func (v Value) UnsafePointer() unsafe.Pointer
func (v Value) Pointer() uintptr

type MapIter struct {
	keys, vals []Value
	i          int
}

func (v Value) MapRange() *MapIter {
	it := &MapIter{i: -1, keys: v.MapKeys()}
	for _, k := range it.keys {
		it.vals = append(it.vals, v.MapIndex(k))
	}
	return it
}
func (it *MapIter) Next() bool {
	it.i++
	return it.i < len(it.keys)
}
func (it *MapIter) Key() Value   { return it.keys[it.i] }
func (it *MapIter) Value() Value { return it.vals[it.i] }
