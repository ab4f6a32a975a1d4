// Package vreflect is package reflect for the controlled runtime: *vrt.Chan values appear
// as channels, Select is a scheduling point, and accesses to addressable memory are logged.
package vreflect

import (
	"reflect"

	"github.com/exascience/pargo/zz_verif/vrt"
)

type Kind = reflect.Kind
type StructField = reflect.StructField
type StructTag = reflect.StructTag
type Method = reflect.Method
type ValueError = reflect.ValueError
type ChanDir = reflect.ChanDir

const (
	RecvDir       = reflect.RecvDir
	SendDir       = reflect.SendDir
	BothDir       = reflect.BothDir
	Ptr           = reflect.Ptr
	Invalid       = reflect.Invalid
	Bool          = reflect.Bool
	Int           = reflect.Int
	Int8          = reflect.Int8
	Int16         = reflect.Int16
	Int32         = reflect.Int32
	Int64         = reflect.Int64
	Uint          = reflect.Uint
	Uint8         = reflect.Uint8
	Uint16        = reflect.Uint16
	Uint32        = reflect.Uint32
	Uint64        = reflect.Uint64
	Uintptr       = reflect.Uintptr
	Float32       = reflect.Float32
	Float64       = reflect.Float64
	Complex64     = reflect.Complex64
	Complex128    = reflect.Complex128
	Array         = reflect.Array
	Chan          = reflect.Chan
	Func          = reflect.Func
	Interface     = reflect.Interface
	Map           = reflect.Map
	Pointer       = reflect.Pointer
	Slice         = reflect.Slice
	String        = reflect.String
	Struct        = reflect.Struct
	UnsafePointer = reflect.UnsafePointer
)

// Type wraps reflect.Type.
type Type interface {
	reflect.Type
	real() reflect.Type
}

type tw struct{ reflect.Type }

var anyChan = reflect.TypeOf((*vrt.AnyChan)(nil)).Elem()

func wrapT(t reflect.Type) Type {
	if t == nil {
		return nil
	}
	return tw{t}
}

func (t tw) real() reflect.Type { return t.Type }
func (t tw) isChan() bool       { return t.Type.Kind() == reflect.Ptr && t.Type.Implements(anyChan) }
func (t tw) Kind() Kind {
	if t.isChan() {
		return reflect.Chan
	}
	return t.Type.Kind()
}
func (t tw) Elem() reflect.Type {
	if t.isChan() {
		m, _ := t.Type.MethodByName("ElemZero")
		return wrapT(m.Type.Out(0))
	}
	return wrapT(t.Type.Elem())
}
func (t tw) ChanDir() ChanDir { return reflect.BothDir }

func unT(t reflect.Type) reflect.Type {
	if w, ok := t.(interface{ real() reflect.Type }); ok {
		return w.real()
	}
	return t
}

func TypeOf(i interface{}) Type          { return wrapT(reflect.TypeOf(i)) }
func SliceOf(t reflect.Type) Type        { return wrapT(reflect.SliceOf(unT(t))) }
func PtrTo(t reflect.Type) Type          { return wrapT(reflect.PtrTo(unT(t))) }
func PointerTo(t reflect.Type) Type      { return wrapT(reflect.PtrTo(unT(t))) }
func ArrayOf(n int, t reflect.Type) Type { return wrapT(reflect.ArrayOf(n, unT(t))) }
func MapOf(k, e reflect.Type) Type       { return wrapT(reflect.MapOf(unT(k), unT(e))) }

// Value wraps reflect.Value.
type Value struct{ v reflect.Value }

func ValueOf(i interface{}) Value                 { return Value{reflect.ValueOf(i)} }
func Zero(t reflect.Type) Value                   { return Value{reflect.Zero(unT(t))} }
func New(t reflect.Type) Value                    { return Value{reflect.New(unT(t))} }
func MakeSlice(t reflect.Type, l, c int) Value    { return Value{reflect.MakeSlice(unT(t), l, c)} }
func MakeMap(t reflect.Type) Value                { return Value{reflect.MakeMap(unT(t))} }
func MakeMapWithSize(t reflect.Type, n int) Value { return Value{reflect.MakeMapWithSize(unT(t), n)} }
func Indirect(v Value) Value {
	if v.Kind() != reflect.Ptr {
		return v
	}
	return v.Elem()
}
func DeepEqual(x, y interface{}) bool          { return reflect.DeepEqual(x, y) }
func Swapper(slice interface{}) func(i, j int) { return reflect.Swapper(slice) }

func Append(s Value, x ...Value) Value {
	vrt.ReflectR(s.v, "reflect.Append")
	var r []reflect.Value
	for _, y := range x {
		r = append(r, y.v)
	}
	logAppend(s.v, len(x))
	return Value{reflect.Append(s.v, r...)}
}

func AppendSlice(s, t Value) Value {
	vrt.ReflectR(s.v, "reflect.AppendSlice")
	for i := 0; i < t.v.Len(); i++ {
		if t.v.Kind() == reflect.Slice {
			vrt.ReflectR(t.v.Index(i), "reflect.AppendSlice")
		}
	}
	logAppend(s.v, t.v.Len())
	return Value{reflect.AppendSlice(s.v, t.v)}
}

// logAppend logs the writes of an append into spare capacity.
func logAppend(s reflect.Value, n int) {
	l := s.Len()
	if s.Kind() == reflect.Slice && l+n <= s.Cap() {
		full := s.Slice3(0, l+n, l+n)
		for i := l; i < l+n; i++ {
			vrt.ReflectW(full.Index(i), "reflect.Append")
		}
	}
}

func Copy(dst, src Value) int {
	n := dst.v.Len()
	if src.v.Len() < n {
		n = src.v.Len()
	}
	for i := 0; i < n; i++ {
		if src.v.Kind() == reflect.Slice {
			vrt.ReflectR(src.v.Index(i), "reflect.Copy")
		}
		vrt.ReflectW(dst.v.Index(i), "reflect.Copy")
	}
	return reflect.Copy(dst.v, src.v)
}

func (v Value) chanCore() (vrt.AnyChan, bool) {
	if v.v.IsValid() && v.v.Kind() == reflect.Ptr && v.v.Type().Implements(anyChan) {
		return v.v.Interface().(vrt.AnyChan), true
	}
	return nil, false
}

func (v Value) Kind() Kind {
	if _, ok := v.chanCore(); ok {
		return reflect.Chan
	}
	return v.v.Kind()
}
func (v Value) Type() Type { return wrapT(v.v.Type()) }
func (v Value) Len() int {
	if c, ok := v.chanCore(); ok {
		return c.Core().BufLen()
	}
	vrt.ReflectR(v.v, "reflect.Value.Len")
	return v.v.Len()
}
func (v Value) Cap() int {
	if c, ok := v.chanCore(); ok {
		return c.Core().BufCap()
	}
	return v.v.Cap()
}
func (v Value) Elem() Value        { return Value{v.v.Elem()} }
func (v Value) Addr() Value        { return Value{v.v.Addr()} }
func (v Value) CanAddr() bool      { return v.v.CanAddr() }
func (v Value) CanSet() bool       { return v.v.CanSet() }
func (v Value) CanInterface() bool { return v.v.CanInterface() }
func (v Value) IsValid() bool      { return v.v.IsValid() }
func (v Value) IsZero() bool       { return v.v.IsZero() }
func (v Value) IsNil() bool        { return v.v.IsNil() }
func (v Value) Interface() interface{} {
	vrt.ReflectR(v.v, "reflect.Value.Interface")
	return v.v.Interface()
}
func (v Value) Int() int64        { vrt.ReflectR(v.v, "reflect.Value.Int"); return v.v.Int() }
func (v Value) Uint() uint64      { vrt.ReflectR(v.v, "reflect.Value.Uint"); return v.v.Uint() }
func (v Value) Float() float64    { vrt.ReflectR(v.v, "reflect.Value.Float"); return v.v.Float() }
func (v Value) Bool() bool        { vrt.ReflectR(v.v, "reflect.Value.Bool"); return v.v.Bool() }
func (v Value) String() string    { vrt.ReflectR(v.v, "reflect.Value.String"); return v.v.String() }
func (v Value) Bytes() []byte     { return v.v.Bytes() }
func (v Value) Pointer() uintptr  { return v.v.Pointer() }
func (v Value) Index(i int) Value { return Value{v.v.Index(i)} }
func (v Value) Slice(i, j int) Value {
	vrt.ReflectR(v.v, "reflect.Value.Slice")
	return Value{v.v.Slice(i, j)}
}
func (v Value) Slice3(i, j, k int) Value {
	vrt.ReflectR(v.v, "reflect.Value.Slice")
	return Value{v.v.Slice3(i, j, k)}
}
func (v Value) Set(x Value)        { vrt.ReflectW(v.v, "reflect.Value.Set"); v.v.Set(x.v) }
func (v Value) SetLen(n int)       { vrt.ReflectW(v.v, "reflect.Value.SetLen"); v.v.SetLen(n) }
func (v Value) SetInt(n int64)     { vrt.ReflectW(v.v, "reflect.Value.SetInt"); v.v.SetInt(n) }
func (v Value) SetUint(n uint64)   { vrt.ReflectW(v.v, "reflect.Value.SetUint"); v.v.SetUint(n) }
func (v Value) SetFloat(n float64) { vrt.ReflectW(v.v, "reflect.Value.SetFloat"); v.v.SetFloat(n) }
func (v Value) SetBool(n bool)     { vrt.ReflectW(v.v, "reflect.Value.SetBool"); v.v.SetBool(n) }
func (v Value) SetString(n string) { vrt.ReflectW(v.v, "reflect.Value.SetString"); v.v.SetString(n) }
func (v Value) SetZero() {
	vrt.ReflectW(v.v, "reflect.Value.SetZero")
	v.v.Set(reflect.Zero(v.v.Type()))
}
func (v Value) Field(i int) Value            { return Value{v.v.Field(i)} }
func (v Value) FieldByName(n string) Value   { return Value{v.v.FieldByName(n)} }
func (v Value) NumField() int                { return v.v.NumField() }
func (v Value) NumMethod() int               { return v.v.NumMethod() }
func (v Value) Convert(t reflect.Type) Value { return Value{v.v.Convert(unT(t))} }
func (v Value) Comparable() bool             { return v.v.Comparable() }
func (v Value) Equal(u Value) bool           { return v.v.Equal(u.v) }
func (v Value) Grow(n int)                   { vrt.ReflectW(v.v, "reflect.Value.Grow"); v.v.Grow(n) }
func (v Value) MapIndex(k Value) Value       { return Value{v.v.MapIndex(k.v)} }
func (v Value) SetMapIndex(k, e Value)       { v.v.SetMapIndex(k.v, e.v) }
func (v Value) MethodByName(n string) Value  { return Value{v.v.MethodByName(n)} }
func (v Value) MapKeys() []Value {
	var r []Value
	for _, k := range v.v.MapKeys() {
		r = append(r, Value{k})
	}
	return r
}
func (v Value) Call(in []Value) []Value {
	var a []reflect.Value
	for _, x := range in {
		a = append(a, x.v)
	}
	var r []Value
	for _, x := range v.v.Call(a) {
		r = append(r, Value{x})
	}
	return r
}

type SelectDir = reflect.SelectDir

const (
	SelectSend    = reflect.SelectSend
	SelectRecv    = reflect.SelectRecv
	SelectDefault = reflect.SelectDefault
)

type SelectCase struct {
	Dir  SelectDir
	Chan Value
	Send Value
}

func Select(cases []SelectCase) (chosen int, recv Value, recvOK bool) {
	var cs []vrt.SelCase
	var idx []int
	def := -1
	for i, c := range cases {
		if c.Dir == SelectDefault {
			def = i
			continue
		}
		ch, ok := c.Chan.chanCore()
		if !ok {
			if c.Chan.v.IsValid() && !(c.Chan.v.Kind() == reflect.Ptr && c.Chan.v.IsNil()) {
				panic("reflect: Select on a non-channel")
			}
			cs = append(cs, vrt.SelCase{})
		} else if c.Dir == SelectSend {
			cs = append(cs, ch.SendAny(c.Send.v.Interface()))
		} else {
			cs = append(cs, vrt.SelCase{Ch: ch.Core()})
		}
		idx = append(idx, i)
	}
	r := vrt.Select(def >= 0, cs...)
	if r.I < 0 {
		return def, Value{}, false
	}
	chosen = idx[r.I]
	if cases[chosen].Dir == SelectSend {
		return chosen, Value{}, false
	}
	et := cases[chosen].Chan.Type().(tw).Elem()
	z := reflect.New(unT(et)).Elem()
	if r.Ok && r.V != nil {
		z.Set(reflect.ValueOf(r.V))
	}
	return chosen, Value{z}, r.Ok
}

func (v Value) recvAny(nb bool) (Value, bool) {
	cs := []SelectCase{{Dir: SelectRecv, Chan: v}}
	if nb {
		cs = append(cs, SelectCase{Dir: SelectDefault})
	}
	i, x, ok := Select(cs)
	if i == 1 {
		return Value{}, false
	}
	return x, ok
}

func (v Value) Recv() (Value, bool)    { return v.recvAny(false) }
func (v Value) TryRecv() (Value, bool) { return v.recvAny(true) }
func (v Value) Send(x Value) {
	Select([]SelectCase{{Dir: SelectSend, Chan: v, Send: x}})
}
func (v Value) TrySend(x Value) bool {
	i, _, _ := Select([]SelectCase{{Dir: SelectSend, Chan: v, Send: x}, {Dir: SelectDefault}})
	return i == 0
}
func (v Value) Close() {
	c, ok := v.chanCore()
	if !ok {
		panic("reflect: Close on a non-channel")
	}
	c.CloseAny()
}
func MakeChan(t reflect.Type, n int) Value {
	z := reflect.Zero(unT(t)).Interface().(vrt.AnyChan)
	return Value{reflect.ValueOf(z.MakeAny(n))}
}
