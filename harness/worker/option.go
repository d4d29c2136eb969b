package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"time"

	"verif/vf"

	"github.com/RomiChan/protobuf/proto"
)

func init() {
	props["C18"] = prop{run: c18}
}

// wrapper knows the wrappers of one element type. Pointers to wrappers travel as any.
type wrapper interface {
	some(r *rand.Rand, p any, v vf.Val) string
	none(r *rand.Rand, p any) string
	assign(dst, src any)
	clone(p any) any
	look(c *Ctx, where string, p any, set bool, v vf.Val)
	same(c *Ctx, where string, p any) // consistent, whatever it holds
	zero() any
	draw(r *rand.Rand, b *int) vf.Val
}

type wrapping[T any] struct {
	kind vf.Kind
	to   func(vf.Val) T
	from func(T) vf.Val
	ctor func(T) proto.Option[T]
}

func (w wrapping[T]) some(r *rand.Rand, p any, v vf.Val) string {
	o := p.(*proto.Option[T])
	if w.ctor != nil && r.Intn(2) == 0 {
		*o = w.ctor(w.to(v))
		return "constructor"
	}
	*o = proto.Some(w.to(v))
	return "Some"
}

func (w wrapping[T]) none(r *rand.Rand, p any) string {
	o := p.(*proto.Option[T])
	switch r.Intn(3) {
	case 0:
		*o = proto.None[T]()
		return "None"
	case 1:
		*o = proto.Option[T]{}
		return "zero wrapper"
	}
	var fresh proto.Option[T]
	*o = fresh
	return "fresh wrapper"
}

func (w wrapping[T]) assign(dst, src any) { *dst.(*proto.Option[T]) = *src.(*proto.Option[T]) }

func (w wrapping[T]) clone(p any) any {
	o := *p.(*proto.Option[T])
	return &o
}

func (w wrapping[T]) eq(a, b vf.Val) bool { return a.U == b.U && a.S == b.S }

func (w wrapping[T]) look(c *Ctx, where string, p any, set bool, v vf.Val) {
	o := p.(*proto.Option[T])
	if !set {
		var zero T
		v = w.from(zero)
	}
	if o.IsSome() != set {
		c.Fail("%s: IsSome is %v, the wrapper is set: %v", where, o.IsSome(), set)
	}
	if o.IsNone() == set {
		c.Fail("%s: IsNone is %v, the wrapper is set: %v", where, o.IsNone(), set)
	}
	if got := w.from(o.Unwrap()); !w.eq(got, v) {
		c.Fail("%s: Unwrap gives %v, want %v (set %v)", where, got, v, set)
	}
	for i := 0; i < 2; i++ {
		var zero T
		def := w.from(zero)
		if i > 0 {
			b := 100
			def = w.from(w.to(vf.GenVal(c.R, w.kind, nil, &vf.ValOpt{MaxStr: 9, Budget: &b})))
		}
		want := v
		if !set {
			want = def
		}
		if got := w.from(o.UnwrapOr(w.to(def))); !w.eq(got, want) {
			c.Fail("%s: UnwrapOr(%v) gives %v, want %v (set %v)", where, def, got, want, set)
		}
	}
	// asking changes nothing
	if o.IsSome() != set || !w.eq(w.from(o.Unwrap()), v) {
		c.Fail("%s: the wrapper changed by being read", where)
	}
	c.Eval()
}

func (w wrapping[T]) same(c *Ctx, where string, p any) {
	o := p.(*proto.Option[T])
	w.look(c, where, p, o.IsSome(), w.from(o.Unwrap()))
}

var wrappers = map[vf.Kind]wrapper{}

func init() {
	i32 := wrapping[int32]{to: func(v vf.Val) int32 { return int32(v.U) }, from: func(x int32) vf.Val { return vf.Val{U: uint64(int64(x))} }, ctor: proto.Int32}
	i64 := wrapping[int64]{to: func(v vf.Val) int64 { return int64(v.U) }, from: func(x int64) vf.Val { return vf.Val{U: uint64(x)} }, ctor: proto.Int64}
	u32 := wrapping[uint32]{to: func(v vf.Val) uint32 { return uint32(v.U) }, from: func(x uint32) vf.Val { return vf.Val{U: uint64(x)} }, ctor: proto.Uint32}
	u64 := wrapping[uint64]{to: func(v vf.Val) uint64 { return v.U }, from: func(x uint64) vf.Val { return vf.Val{U: x} }, ctor: proto.Uint64}
	for _, k := range []vf.Kind{vf.Int32, vf.Sint32, vf.Sfixed32} {
		i32.kind = k
		wrappers[k] = i32
	}
	for _, k := range []vf.Kind{vf.Int64, vf.Sint64, vf.Sfixed64} {
		i64.kind = k
		wrappers[k] = i64
	}
	for _, k := range []vf.Kind{vf.Uint32, vf.Fixed32} {
		u32.kind = k
		wrappers[k] = u32
	}
	for _, k := range []vf.Kind{vf.Uint64, vf.Fixed64} {
		u64.kind = k
		wrappers[k] = u64
	}
	wrappers[vf.Bool] = wrapping[bool]{kind: vf.Bool, to: func(v vf.Val) bool { return v.U != 0 }, ctor: proto.Bool,
		from: func(x bool) vf.Val {
			if x {
				return vf.Val{U: 1}
			}
			return vf.Val{}
		}}
	wrappers[vf.Float] = wrapping[float32]{kind: vf.Float, to: func(v vf.Val) float32 { return math.Float32frombits(uint32(v.U)) }, ctor: proto.Float32,
		from: func(x float32) vf.Val { return vf.Val{U: uint64(math.Float32bits(x))} }}
	wrappers[vf.Double] = wrapping[float64]{kind: vf.Double, to: func(v vf.Val) float64 { return math.Float64frombits(v.U) }, ctor: proto.Float64,
		from: func(x float64) vf.Val { return vf.Val{U: math.Float64bits(x)} }}
	wrappers[vf.String] = wrapping[string]{kind: vf.String, to: func(v vf.Val) string { return v.S }, from: func(x string) vf.Val { return vf.Val{S: x} }, ctor: proto.String}
}

// wrappers of other element types, which never travel
type pair struct {
	A string
	B uint64
}

// lookAlike has the methods by which values are commonly judged, and none tells the truth.
type lookAlike struct {
	a string
	b uint64
}

func (lookAlike) IsZero() bool         { return true }
func (lookAlike) IsNil() bool          { return true }
func (lookAlike) IsSome() bool         { return false }
func (lookAlike) IsNone() bool         { return true }
func (lookAlike) Valid() bool          { return false }
func (lookAlike) Len() int             { return 0 }
func (lookAlike) Empty() bool          { return true }
func (lookAlike) Equal(lookAlike) bool { return true }
func (lookAlike) String() string       { return "" }
func (lookAlike) Error() string        { return "" }
func (lookAlike) Unwrap() error        { return nil }
func (lookAlike) Clone() lookAlike     { return lookAlike{} }
func (l *lookAlike) Reset()            { *l = lookAlike{} }

// falseFloat is no number that equals itself.
type falseFloat struct{ f float64 }

var zone = time.FixedZone("here", 3600)

var foreign = []wrapper{
	wrapping[lookAlike]{kind: vf.String, to: func(v vf.Val) lookAlike { return lookAlike{v.S, v.U} }, from: func(x lookAlike) vf.Val { return vf.Val{S: x.a, U: x.b} }},
	wrapping[*lookAlike]{kind: vf.String, to: func(v vf.Val) *lookAlike {
		if v.U == 1 {
			return nil
		}
		return &lookAlike{v.S, v.U}
	}, from: func(x *lookAlike) vf.Val {
		if x == nil {
			return vf.Val{U: 1}
		}
		return vf.Val{S: x.a, U: x.b}
	}},
	// instants, also the zero one, here and nowhere
	wrapping[time.Time]{kind: vf.Uint32, to: func(v vf.Val) time.Time {
		secs := v.U >> 1
		if secs%4 == 0 {
			secs = 0
		}
		t := time.Time{}.Add(time.Duration(secs) * time.Second)
		if v.U&1 == 1 {
			t = t.In(zone)
		}
		return t
	}, from: func(x time.Time) vf.Val {
		u := uint64(x.Sub(time.Time{})/time.Second) << 1
		if x.Location() == zone {
			u |= 1
		}
		return vf.Val{U: u}
	}},
	wrapping[time.Duration]{kind: vf.Int64, to: func(v vf.Val) time.Duration { return time.Duration(v.U) }, from: func(x time.Duration) vf.Val { return vf.Val{U: uint64(x)} }},
	wrapping[falseFloat]{kind: vf.Double, to: func(v vf.Val) falseFloat { return falseFloat{math.Float64frombits(v.U)} }, from: func(x falseFloat) vf.Val { return vf.Val{U: math.Float64bits(x.f)} }},
	wrapping[complex128]{kind: vf.Double, to: func(v vf.Val) complex128 { return complex(math.Float64frombits(v.U), 0) }, from: func(x complex128) vf.Val { return vf.Val{U: math.Float64bits(real(x))} }},
	wrapping[uint8]{kind: vf.Bool, to: func(v vf.Val) uint8 { return uint8(v.U) }, from: func(x uint8) vf.Val { return vf.Val{U: uint64(x)} }},
	wrapping[[40]uint64]{kind: vf.Uint64, to: func(v vf.Val) [40]uint64 { return [40]uint64{7: v.U, 39: v.U} }, from: func(x [40]uint64) vf.Val {
		if x[7] != x[39] {
			return vf.Val{S: "torn"}
		}
		return vf.Val{U: x[39]}
	}},
	wrapping[[]string]{kind: vf.String, to: func(v vf.Val) []string {
		if v.U == 1 {
			return nil
		}
		return []string{v.S, ""}[:1]
	}, from: func(x []string) vf.Val {
		if len(x) == 0 {
			return vf.Val{U: 1}
		}
		return vf.Val{S: x[0]}
	}},
	wrapping[*proto.Option[string]]{kind: vf.String, to: func(v vf.Val) *proto.Option[string] {
		if v.U == 1 {
			return nil
		}
		o := proto.String(v.S)
		return &o
	}, from: func(x *proto.Option[string]) vf.Val {
		if x == nil {
			return vf.Val{U: 1}
		}
		return vf.Val{S: x.Unwrap()}
	}},
	wrapping[pair]{kind: vf.String, to: func(v vf.Val) pair { return pair{v.S, v.U} }, from: func(x pair) vf.Val { return vf.Val{S: x.A, U: x.B} }},
	wrapping[[]byte]{kind: vf.Bytes, to: func(v vf.Val) []byte {
		if v.U == 1 {
			return nil
		}
		return []byte(v.S)
	}, from: func(x []byte) vf.Val {
		if x == nil {
			return vf.Val{U: 1}
		}
		return vf.Val{S: string(x)}
	}},
	wrapping[map[string]bool]{kind: vf.String, to: func(v vf.Val) map[string]bool {
		if v.U == 1 {
			return nil
		}
		return map[string]bool{v.S: true}
	}, from: func(x map[string]bool) vf.Val {
		for k := range x {
			return vf.Val{S: k}
		}
		return vf.Val{U: 1}
	}},
	wrapping[error]{kind: vf.String, to: func(v vf.Val) error {
		if v.U == 1 {
			return nil
		}
		return errors.New(v.S)
	}, from: func(x error) vf.Val {
		if x == nil {
			return vf.Val{U: 1}
		}
		return vf.Val{S: x.Error()}
	}},
	wrapping[struct{}]{kind: vf.Int32, to: func(v vf.Val) struct{} { return struct{}{} }, from: func(x struct{}) vf.Val { return vf.Val{} }},
	wrapping[[5]int8]{kind: vf.Int32, to: func(v vf.Val) [5]int8 { return [5]int8{4: int8(v.U)} }, from: func(x [5]int8) vf.Val { return vf.Val{U: uint64(int64(x[4]))} }},
	wrapping[*uint64]{kind: vf.Uint64, to: func(v vf.Val) *uint64 {
		if v.U == 0 {
			return nil
		}
		return &v.U
	}, from: func(x *uint64) vf.Val {
		if x == nil {
			return vf.Val{}
		}
		return vf.Val{U: *x}
	}},
	wrapping[any]{kind: vf.Int64, to: func(v vf.Val) any {
		if v.U == 0 {
			return nil
		}
		return v.U
	}, from: func(x any) vf.Val {
		u, _ := x.(uint64)
		return vf.Val{U: u}
	}},
	wrapping[proto.Option[int64]]{kind: vf.Int64, to: func(v vf.Val) proto.Option[int64] {
		if v.U == 0 {
			return proto.None[int64]()
		}
		return proto.Some(int64(v.U))
	}, from: func(x proto.Option[int64]) vf.Val { return vf.Val{U: uint64(x.Unwrap())} }},
	wrapping[vf.NInt32]{kind: vf.Int32, to: func(v vf.Val) vf.NInt32 { return vf.NInt32(v.U) }, from: func(x vf.NInt32) vf.Val { return vf.Val{U: uint64(int64(x))} }},
}

// copied is a wrapper copied out of a message.
type copied struct {
	kind vf.Kind
	w    wrapper
	p    any
	set  bool
	v    vf.Val
}

// c18 follows the wrappers of a message, and copies of them, through a random history.
func c18(c *Ctx) {
	var fields []*vf.Field
	for n := 3 + c.R.Intn(10); n > 0; n-- {
		fields = append(fields, &vf.Field{Kind: vf.Kind(c.R.Intn(int(vf.Bytes))), Card: vf.Opt})
	}
	for _, f := range fields {
		if wrappers[f.Kind] == nil {
			f.Kind = vf.String
		}
	}
	t := vf.NewMsg(c.R, "Wrappers", fields, true)
	c.Trace("type %v", t)
	c.coverType(t)
	p := vf.New(t)
	v := vf.NewM(t)
	var out []copied
	type whole struct {
		p reflect.Value
		v *vf.MVal
	}
	var wholes []whole
	at := func(p reflect.Value, i int) any { return p.Elem().Field(t.Fields[i].GoIndex).Addr().Interface() }
	check := func(after string) {
		for i, f := range t.Fields {
			wrappers[f.Kind].look(c, fmt.Sprintf("field %d after %s", f.Num, after), at(p, i), v.F[i].Set, v.F[i].V)
		}
		for _, o := range out {
			o.w.look(c, "copy of a wrapper after "+after, o.p, o.set, o.v)
		}
		for _, x := range wholes {
			for i, f := range t.Fields {
				wrappers[f.Kind].look(c, fmt.Sprintf("field %d of a copied message after %s", f.Num, after), at(x.p, i), x.v.F[i].Set, x.v.F[i].V)
			}
		}
	}
	check("creation")
	for n := 6 + c.R.Intn(20); n > 0; n-- {
		i := c.R.Intn(len(t.Fields))
		f := t.Fields[i]
		w := wrappers[f.Kind]
		what := ""
		b := 200
		switch k := c.R.Intn(16); {
		case k < 4:
			x := vf.GenVal(c.R, f.Kind, nil, &vf.ValOpt{MaxStr: 20, Budget: &b})
			if c.Chance(25) {
				x = vf.Val{}
			}
			what = w.some(c.R, at(p, i), x)
			v.F[i].Set, v.F[i].V = true, x
		case k < 6:
			what = w.none(c.R, at(p, i))
			v.F[i] = vf.FVal{}
		case k < 9: // a decode of some of the fields
			x := vf.GenM(c.R, t, vf.DefaultVal(c.R))
			zeroSome(c, x)
			in := vf.EncodeVariant(c.R, x, &vf.EncOpt{Shuffle: true, Repeat: c.Chance(40), LongVar: c.Chance(30), Unknown: 5})
			if err := vf.Unmarshal(in, p.Interface()); err != nil {
				c.Fail("decoding failed: %v (%s)", err, hx(in))
			}
			v.Merge(x)
			what = "decode of " + hx(in)
			c.Nontrivial(t.String(), v.String(), in)
		case k < 10: // a failed decode leaves the wrappers consistent
			in, _ := vf.Malform(c.R, t, vf.Encode(vf.GenM(c.R, t, vf.DefaultVal(c.R))))
			if err := vf.Unmarshal(in, p.Interface()); err == nil {
				c.Cover("damage accepted")
			}
			for i, f := range t.Fields {
				wrappers[f.Kind].same(c, fmt.Sprintf("field %d after a failed decode of %s", f.Num, hx(in)), at(p, i))
			}
			v = vf.Read(t, p)
			what = "failed decode"
		case k < 12: // what is set travels
			enc := vf.MustMarshal(p.Interface())
			got, prob := vf.Decode(t, enc)
			if prob != nil {
				c.Fail("damaged encoding: %v (%s)", prob, hx(enc))
			}
			if d := vf.Diff(v, got); d != "" {
				c.Fail("the wrappers and their encoding differ: %s", d)
			}
			if sz := vf.Size(p.Interface()); sz != len(enc) {
				c.Fail("Size is %d, the encoding has %d bytes", sz, len(enc))
			}
			what = "encode"
		case k < 13: // take a copy
			out = append(out, copied{f.Kind, w, w.clone(at(p, i)), v.F[i].Set, v.F[i].V})
			what = "copy"
		case k < 14 && len(out) > 0: // bring a copy back, into any field of its type
			o := out[c.R.Intn(len(out))]
			for j, g := range t.Fields {
				if g.Kind == o.kind && c.Chance(70) {
					o.w.assign(at(p, j), o.p)
					v.F[j].Set, v.F[j].V = o.set, o.v
					if !o.set {
						v.F[j].V = vf.Val{}
					}
				}
			}
			what = "assignment"
		case k < 15 && len(wholes) < 3:
			q := reflect.New(t.Go)
			q.Elem().Set(p.Elem())
			wholes = append(wholes, whole{q, v.Clone()})
			what = "copy of the message"
		default: // decode into a copy
			if len(wholes) == 0 {
				continue
			}
			x := vf.GenM(c.R, t, vf.DefaultVal(c.R))
			h := wholes[c.R.Intn(len(wholes))]
			if err := vf.Unmarshal(vf.Encode(x), h.p.Interface()); err != nil {
				c.Fail("decoding failed: %v", err)
			}
			h.v.Merge(x)
			what = "decode into a copied message"
		}
		c.Trace("%s (field %d)", what, f.Num)
		c.Cover("step:" + firstWords(what))
		check(what)
	}
	// wrappers that never travel
	for _, w := range foreign {
		probe := w.zero()
		w.look(c, fmt.Sprintf("%T", probe), probe, false, vf.Val{})
		for n := 0; n < 4; n++ {
			b := 100
			x := w.draw(c.R, &b)
			old := w.clone(probe)
			w.some(c.R, probe, x)
			w.look(c, fmt.Sprintf("%T after Some", probe), probe, true, x)
			if n == 0 {
				w.look(c, fmt.Sprintf("copy of %T", probe), old, false, vf.Val{})
			}
			if c.Chance(40) {
				w.none(c.R, probe)
				w.look(c, fmt.Sprintf("%T after None", probe), probe, false, vf.Val{})
			}
		}
	}
	c.Sample("%v %v", t, v)
}

func firstWords(s string) string {
	for i, x := range s {
		if x == ' ' && i > 6 {
			return s[:i]
		}
	}
	return s
}

func (w wrapping[T]) zero() any { return new(proto.Option[T]) }

func (w wrapping[T]) draw(r *rand.Rand, b *int) vf.Val {
	if r.Intn(4) == 0 {
		var zero T
		return w.from(zero)
	}
	return w.from(w.to(vf.GenVal(r, w.kind, nil, &vf.ValOpt{MaxStr: 9, Budget: b})))
}
