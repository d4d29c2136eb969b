// Package vf is the common machinery of the runtime monitors: a model of message
// types, abstract values, a reference wire codec, the bridge to the official
// implementation, and the monitored entry points of the library under test.
package vf

import (
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/RomiChan/protobuf/proto"
)

// Kind is a protobuf field kind.
type Kind uint8

const (
	Bool Kind = iota
	Int32
	Int64
	Uint32
	Uint64
	Sint32
	Sint64
	Fixed32
	Fixed64
	Sfixed32
	Sfixed64
	Float
	Double
	String
	Bytes
	Message
	NumKinds
)

var kindNames = [...]string{"bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64",
	"fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double", "string", "bytes", "message"}

func (k Kind) String() string { return kindNames[k] }

// Wire is the wire type of a single value of the kind.
func (k Kind) Wire() int {
	switch k {
	case Fixed64, Sfixed64, Double:
		return 1
	case Fixed32, Sfixed32, Float:
		return 5
	case String, Bytes, Message:
		return 2
	}
	return 0
}

// Packable tells whether lists of the kind may be packed.
func (k Kind) Packable() bool { return k.Wire() != 2 }

func (k Kind) tagWord() string {
	switch k {
	case Sint32:
		return "zigzag32"
	case Sint64:
		return "zigzag64"
	}
	switch k.Wire() {
	case 0:
		return "varint"
	case 1:
		return "fixed64"
	case 5:
		return "fixed32"
	}
	return "bytes"
}

var goElems = [...]reflect.Type{
	Bool: reflect.TypeOf(false), Int32: reflect.TypeOf(int32(0)), Int64: reflect.TypeOf(int64(0)),
	Uint32: reflect.TypeOf(uint32(0)), Uint64: reflect.TypeOf(uint64(0)),
	Sint32: reflect.TypeOf(int32(0)), Sint64: reflect.TypeOf(int64(0)),
	Fixed32: reflect.TypeOf(uint32(0)), Fixed64: reflect.TypeOf(uint64(0)),
	Sfixed32: reflect.TypeOf(int32(0)), Sfixed64: reflect.TypeOf(int64(0)),
	Float: reflect.TypeOf(float32(0)), Double: reflect.TypeOf(float64(0)),
	String: reflect.TypeOf(""), Bytes: reflect.TypeOf([]byte(nil)),
}

// Named types of every basic kind: what counts is the kind.
type (
	NBool    bool
	NInt32   int32
	NInt64   int64
	NUint32  uint32
	NUint64  uint64
	NFloat32 float32
	NFloat64 float64
	NString  string
	NByte    byte
	NBytes   []byte
)

var namedElems = map[reflect.Type]reflect.Type{
	reflect.TypeOf(false): reflect.TypeOf(NBool(false)), reflect.TypeOf(int32(0)): reflect.TypeOf(NInt32(0)),
	reflect.TypeOf(int64(0)): reflect.TypeOf(NInt64(0)), reflect.TypeOf(uint32(0)): reflect.TypeOf(NUint32(0)),
	reflect.TypeOf(uint64(0)): reflect.TypeOf(NUint64(0)), reflect.TypeOf(float32(0)): reflect.TypeOf(NFloat32(0)),
	reflect.TypeOf(float64(0)): reflect.TypeOf(NFloat64(0)), reflect.TypeOf(""): reflect.TypeOf(NString("")),
	reflect.TypeOf([]byte(nil)): reflect.TypeOf(NBytes(nil)),
}

// Named containers: what counts is what they are made of.
type (
	NList[E any]              []E
	NMap[K comparable, E any] map[K]E
)

var namedBoxes = map[reflect.Type]reflect.Type{
	reflect.TypeOf([]bool(nil)): reflect.TypeOf(NList[bool](nil)), reflect.TypeOf([]int32(nil)): reflect.TypeOf(NList[int32](nil)),
	reflect.TypeOf([]int64(nil)): reflect.TypeOf(NList[int64](nil)), reflect.TypeOf([]uint32(nil)): reflect.TypeOf(NList[uint32](nil)),
	reflect.TypeOf([]uint64(nil)): reflect.TypeOf(NList[uint64](nil)), reflect.TypeOf([]float32(nil)): reflect.TypeOf(NList[float32](nil)),
	reflect.TypeOf([]float64(nil)): reflect.TypeOf(NList[float64](nil)), reflect.TypeOf([]string(nil)): reflect.TypeOf(NList[string](nil)),
	reflect.TypeOf([][]byte(nil)): reflect.TypeOf(NList[[]byte](nil)),
}

func namedMaps[K comparable]() {
	namedMap[K, bool]()
	namedMap[K, int32]()
	namedMap[K, int64]()
	namedMap[K, uint32]()
	namedMap[K, uint64]()
	namedMap[K, float32]()
	namedMap[K, float64]()
	namedMap[K, string]()
	namedMap[K, []byte]()
}

func namedMap[K comparable, E any]() {
	namedBoxes[reflect.TypeOf(map[K]E(nil))] = reflect.TypeOf(NMap[K, E](nil))
}

func init() {
	namedMaps[bool]()
	namedMaps[int32]()
	namedMaps[int64]()
	namedMaps[uint32]()
	namedMaps[uint64]()
	namedMaps[string]()
}

var optTypes = map[reflect.Type]reflect.Type{
	reflect.TypeOf(false):      reflect.TypeOf(proto.Option[bool]{}),
	reflect.TypeOf(int32(0)):   reflect.TypeOf(proto.Option[int32]{}),
	reflect.TypeOf(int64(0)):   reflect.TypeOf(proto.Option[int64]{}),
	reflect.TypeOf(uint32(0)):  reflect.TypeOf(proto.Option[uint32]{}),
	reflect.TypeOf(uint64(0)):  reflect.TypeOf(proto.Option[uint64]{}),
	reflect.TypeOf(float32(0)): reflect.TypeOf(proto.Option[float32]{}),
	reflect.TypeOf(float64(0)): reflect.TypeOf(proto.Option[float64]{}),
	reflect.TypeOf(""):         reflect.TypeOf(proto.Option[string]{}),
}

var optElem = func() map[reflect.Type]reflect.Type {
	m := map[reflect.Type]reflect.Type{}
	for e, o := range optTypes {
		m[o] = e
	}
	return m
}()

// Card is how a field holds values of its kind.
type Card uint8

const (
	Plain Card = iota // scalar without presence; bytes; message pointer
	Opt               // optional wrapper
	Ptr               // pointer to scalar or bytes
	Rep               // list
	Map               // map
	NumCards
)

var cardNames = [...]string{"plain", "opt", "ptr", "rep", "map"}

func (c Card) String() string { return cardNames[c] }

// Field is one declared field of a message type.
type Field struct {
	Num      int32
	Kind     Kind // element or map value kind
	Card     Card
	Key      Kind // map key kind
	Sub      *Msg // for Kind Message
	Named    bool // the scalar has a named Go type
	NamedKey bool
	NamedBox bool // the list or map has a named Go type
	GoIndex  int
	GoName   string
}

// Shape names the combination of kind and cardinality.
func (f *Field) Shape() string {
	if f.Card == Map {
		return "map<" + f.Key.String() + "," + f.Kind.String() + ">"
	}
	return f.Card.String() + " " + f.Kind.String()
}

// Explicit tells whether the field has explicit presence.
func (f *Field) Explicit() bool {
	switch f.Card {
	case Opt, Ptr:
		return true
	case Plain:
		return f.Kind == Message || f.Kind == Bytes
	}
	return false
}

// Msg is a message type.
type Msg struct {
	Name   string
	Fields []*Field
	Go     reflect.Type // struct type
	Canary []int        // indices of undeclared Go fields
	Hidden []*Field     // those of them that look like declared ones

	byNum map[int32]int
}

// Index returns the position of field number n, or -1.
func (m *Msg) Index(n int32) int {
	if m.byNum == nil {
		m.byNum = map[int32]int{}
		for i, f := range m.Fields {
			m.byNum[f.Num] = i
		}
	}
	if i, ok := m.byNum[n]; ok {
		return i
	}
	return -1
}

// String describes the type; shared and recursive types are printed once.
func (m *Msg) String() string {
	seen := map[*Msg]bool{}
	var walk func(m *Msg) string
	walk = func(m *Msg) string {
		if seen[m] {
			return m.Name
		}
		seen[m] = true
		var sb strings.Builder
		sb.WriteString(m.Name + "{")
		for i, f := range m.Fields {
			if i > 0 {
				sb.WriteString("; ")
			}
			fmt.Fprintf(&sb, "%d:%s", f.Num, f.Shape())
			if f.Sub != nil {
				sb.WriteString(" " + walk(f.Sub))
			}
		}
		sb.WriteString("}")
		return sb.String()
	}
	return walk(m)
}

// All returns the message types reachable from m, m first.
func (m *Msg) All() []*Msg {
	var out []*Msg
	seen := map[*Msg]bool{}
	var walk func(*Msg)
	walk = func(m *Msg) {
		if seen[m] {
			return
		}
		seen[m] = true
		out = append(out, m)
		for _, f := range m.Fields {
			if f.Sub != nil {
				walk(f.Sub)
			}
		}
	}
	walk(m)
	return out
}

// GenOpt steers the generation of message types.
type GenOpt struct {
	MaxFields int  // per message
	MaxSubs   int  // number of other message types
	Canary    bool // sprinkle undeclared fields
	NoPtr     bool
	Only      []Kind // restrict kinds (nil: all)
	Subs      []*Msg // existing types to refer to
	Wide      bool   // some types have hundreds of fields
}

// Vast makes some of the types large; see NewMsg.
var Vast int

var mapKeys = []Kind{Bool, Int32, Int64, Uint32, Uint64, Sint32, Sint64, Fixed32, Fixed64, Sfixed32, Sfixed64, String}

// MapKeyKinds lists the kinds allowed as map keys.
func MapKeyKinds() []Kind { return mapKeys }

func genNum(r *rand.Rand) int32 {
	if d, ok := Dict.Count(r, 12, 1, 536870911); ok && (d < 19000 || d > 19999) {
		return int32(d)
	}
	switch r.Intn(10) {
	case 0, 1, 2, 3, 4:
		return 1 + r.Int31n(15)
	case 5, 6:
		return 1 + r.Int31n(40)
	case 7:
		b := []int32{15, 16, 17, 127, 128, 2047, 2048, 2049, 16383, 16384, 262143, 262144, 33554431, 33554432, 536870911}
		return b[r.Intn(len(b))]
	case 8:
		return 1 + r.Int31n(18999)
	default:
		return 20000 + r.Int31n(536870911-20000)
	}
}

// GenField draws one field.
func GenField(r *rand.Rand, subs []*Msg, o *GenOpt) *Field {
	f := &Field{}
	pick := func() Kind {
		if o.Only != nil {
			return o.Only[r.Intn(len(o.Only))]
		}
		k := Kind(r.Intn(int(NumKinds)))
		if k == Message && len(subs) == 0 {
			k = Kind(r.Intn(int(Message)))
		}
		return k
	}
	f.Kind = pick()
	if len(subs) > 0 && o.Only == nil && r.Intn(6) == 0 {
		f.Kind = Message
	}
	switch {
	case f.Kind == Bytes && !o.NoPtr && r.Intn(8) == 0:
		f.Card = Ptr
	case f.Kind == Message || f.Kind == Bytes:
		f.Card = []Card{Plain, Plain, Rep, Map}[r.Intn(4)]
	case o.NoPtr:
		f.Card = []Card{Plain, Opt, Rep, Map}[r.Intn(4)]
	default:
		f.Card = []Card{Plain, Plain, Opt, Opt, Ptr, Rep, Rep, Map}[r.Intn(8)]
	}
	if f.Card == Map {
		f.Key = mapKeys[r.Intn(len(mapKeys))]
	}
	if f.Kind == Message {
		f.Sub = subs[r.Intn(len(subs))]
	}
	f.Named = f.Kind != Message && f.Card != Opt && r.Intn(10) == 0
	f.NamedKey = f.Card == Map && r.Intn(10) == 0
	f.NamedBox = r.Intn(10) == 0
	return f
}

var uniq int

// NewMsg assembles a message type from fields and gives it a fresh Go struct type.
// Field numbers that are zero are drawn.
//
// One in Vast undeclared fields, if it is set, is tens of thousands of bytes long.
func NewMsg(r *rand.Rand, name string, fields []*Field, canary bool) *Msg {
	uniq++
	m := &Msg{Name: name}
	used := map[int32]bool{}
	for _, f := range fields {
		if f.Num != 0 {
			used[f.Num] = true
		}
	}
	for _, f := range fields {
		for f.Num == 0 {
			if n := genNum(r); !used[n] {
				f.Num = n
				used[n] = true
			}
		}
	}
	m.Fields = fields
	var sf []reflect.StructField
	addCanary := func() {
		i := len(sf)
		if r.Intn(3) == 0 { // like a declared field, but unexported or without a tag
			var subs []*Msg
			for _, f := range fields {
				if f.Sub != nil {
					subs = append(subs, f.Sub)
				}
			}
			if len(subs) == 0 && r.Intn(2) == 0 {
				subs = []*Msg{NewMsg(r, "H", []*Field{{Kind: Kind(r.Intn(int(Message)))}, {Kind: Bytes}}, false)}
			}
			f := GenField(r, subs, &GenOpt{})
			f.Num = genNum(r)
			if len(fields) > 0 && r.Intn(3) == 0 {
				f.Num = fields[r.Intn(len(fields))].Num
			}
			f.GoIndex, f.GoName = i, fmt.Sprintf("X%d", i)
			s := reflect.StructField{Name: f.GoName, Type: f.goType(), Tag: undeclaredTag(r, f)}
			if r.Intn(3) > 0 {
				f.GoName = fmt.Sprintf("u%d", i)
				s = reflect.StructField{Name: f.GoName, PkgPath: "verif/canary", Type: f.goType(), Tag: reflect.StructTag(f.goTag(r))}
			}
			sf = append(sf, s)
			m.Canary = append(m.Canary, i)
			m.Hidden = append(m.Hidden, f)
			return
		}
		types := []reflect.Type{reflect.TypeOf(uint8(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
			reflect.TypeOf([3]byte{}), reflect.TypeOf([16]byte{}), reflect.TypeOf(""), reflect.TypeOf(uint16(0)),
			reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf(func() {}), reflect.TypeOf([]any(nil)), reflect.TypeOf(map[int]any(nil)),
			reflect.TypeOf(struct{ A, B any }{}), reflect.TypeOf(0)}
		t := types[r.Intn(len(types))]
		if Vast > 0 && r.Intn(Vast) == 0 { // what follows is far away
			t = []reflect.Type{reflect.TypeOf([1 << 16]byte{}), reflect.TypeOf([40000]byte{}), reflect.TypeOf([9000]uint64{}), reflect.TypeOf([1 << 15]byte{}), reflect.TypeOf([5000]any{})}[r.Intn(5)]
		}
		switch r.Intn(3) {
		case 0: // exported, untagged
			sf = append(sf, reflect.StructField{Name: fmt.Sprintf("X%d", i), Type: t})
		case 1: // exported, other tag only
			n := genNum(r)
			if len(fields) > 0 && r.Intn(2) == 0 {
				n = fields[r.Intn(len(fields))].Num
			}
			sf = append(sf, reflect.StructField{Name: fmt.Sprintf("X%d", i), Type: t, Tag: undeclaredTag(r, &Field{Num: n, Kind: Uint64})})
		case 2: // unexported, tagged with a number that may collide with a declared one
			tag := "varint"
			switch t.Kind() {
			case reflect.String:
				tag = "bytes"
			case reflect.Array, reflect.Uint8, reflect.Uint16, reflect.Int:
				t = reflect.TypeOf(uint64(0))
			case reflect.Struct, reflect.Interface, reflect.Func, reflect.Map, reflect.Slice:
				// a type that no declared field can have
			}
			n := genNum(r)
			if len(fields) > 0 && r.Intn(2) == 0 {
				n = fields[r.Intn(len(fields))].Num
			}
			sf = append(sf, reflect.StructField{Name: fmt.Sprintf("u%d", i), PkgPath: "verif/canary", Type: t,
				Tag: reflect.StructTag(fmt.Sprintf(`protobuf:"%s,%d,opt"`, tag, n))})
		}
		m.Canary = append(m.Canary, i)
	}
	for _, f := range fields {
		if canary && r.Intn(2) == 0 {
			addCanary()
		}
		f.GoIndex = len(sf)
		f.GoName = fmt.Sprintf("F%d", f.GoIndex)
		sf = append(sf, reflect.StructField{Name: f.GoName, Type: f.goType(), Tag: reflect.StructTag(f.goTag(r))})
	}
	if canary {
		addCanary()
	}
	// a unique last field makes the type new, so that its first use is a first use
	m.Canary = append(m.Canary, len(sf))
	sf = append(sf, reflect.StructField{Name: fmt.Sprintf("Uniq%d", uniq), Type: reflect.TypeOf(uint64(0))})
	m.Go = reflect.StructOf(sf)
	return m
}

// undeclaredTag is a tag that does not declare a field, though it may look like it.
func undeclaredTag(r *rand.Rand, f *Field) reflect.StructTag {
	tag := f.goTag(r)
	val := tag[len(`protobuf:`):]
	switch r.Intn(9) {
	case 0:
		return `json:"x"`
	case 1:
		return reflect.StructTag("proto:" + val)
	case 2:
		return reflect.StructTag("Protobuf:" + val)
	case 3:
		return reflect.StructTag("protobuf_oneof:" + val)
	case 4:
		return reflect.StructTag("json:" + val)
	case 5:
		return reflect.StructTag(`protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`)
	case 6:
		return reflect.StructTag("x_" + tag)
	case 7:
		return reflect.StructTag(`json:"x" xprotobuf:` + val)
	}
	return ""
}

func (f *Field) elemType() reflect.Type {
	if f.Kind == Message {
		return reflect.PtrTo(f.Sub.Go)
	}
	if f.Named && f.Kind == Bytes && f.Num&1 == 0 {
		return reflect.TypeOf([]NByte(nil))
	}
	if f.Named {
		return namedElems[goElems[f.Kind]]
	}
	return goElems[f.Kind]
}

func (f *Field) goType() reflect.Type {
	e := f.elemType()
	switch f.Card {
	case Opt:
		return optTypes[e]
	case Ptr:
		return reflect.PtrTo(e)
	case Rep:
		return f.box(reflect.SliceOf(e))
	case Map:
		k := goElems[f.Key]
		if f.NamedKey {
			k = namedElems[k]
		}
		return f.box(reflect.MapOf(k, e))
	}
	return e
}

// box is the type of a list or map, which may have a name.
func (f *Field) box(t reflect.Type) reflect.Type {
	if n := namedBoxes[t]; f.NamedBox && n != nil {
		return n
	}
	return t
}

func (f *Field) goTag(r *rand.Rand) string {
	w := f.Kind.tagWord()
	if f.Card == Map {
		return fmt.Sprintf(`protobuf:"bytes,%d,rep%s" protobuf_key:"%s,1,opt" protobuf_val:"%s,2,opt"`,
			f.Num, extra(r), f.Key.tagWord(), w)
	}
	label := "opt"
	switch {
	case f.Card == Rep:
		if r.Intn(4) > 0 {
			label = "rep"
		}
	case f.Card == Opt || f.Card == Ptr:
		if r.Intn(8) == 0 {
			label = "req"
		}
	}
	return fmt.Sprintf(`protobuf:"%s,%d,%s%s"`, w, f.Num, label, extra(r))
}

func extra(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return ",name=some_name,json=someName,proto3"
	case 2:
		return []string{",packed", ",packed,name=a,enum=pkg.E", ",oneof", ",proto3,oneof", ",name=x,weak=y", ",", ",,"}[r.Intn(7)]
	case 3:
		return []string{",def=1", ",def=a,7,rep", ",name=a,def=zigzag32,bytes,varint", ",def=req", ",name=rep,def=\\\"x\\\""}[r.Intn(5)]
	case 1:
		return ",name=n"
	}
	return ""
}

// Gen draws a message type.
func Gen(r *rand.Rand, o *GenOpt) *Msg {
	var subs []*Msg
	subs = append(subs, o.Subs...)
	nsub := 0
	if o.MaxSubs > 0 {
		nsub = r.Intn(o.MaxSubs + 1)
	}
	for i := 0; ; i++ {
		last := i == nsub
		n := 1 + r.Intn(o.MaxFields)
		if !last && r.Intn(8) == 0 {
			n = 0
		}
		if r.Intn(12) == 0 {
			n = r.Intn(4*o.MaxFields + 1)
		}
		if d, ok := Dict.Count(r, 12, 1, 70); ok && o.MaxFields > 3 {
			n = d
		}
		fo := o
		if o.Wide && r.Intn(100) == 0 {
			n = []int{60 + r.Intn(20), 125 + r.Intn(8), 250 + r.Intn(12), 300, 520}[r.Intn(5)]
			if r.Intn(2) == 0 { // cheap ones
				fo = &GenOpt{Only: []Kind{Bool, Int32, Uint64, Sint32, Fixed32, String}}
			}
		}
		fields := make([]*Field, 0, n)
		for j := 0; j < n; j++ {
			fields = append(fields, GenField(r, subs, fo))
		}
		if last && len(subs) > 0 {
			// make sure the sub-messages are reachable
			have := map[*Msg]bool{}
			for _, f := range fields {
				have[f.Sub] = true
			}
			for _, s := range subs {
				if !have[s] && r.Intn(3) > 0 {
					f := &Field{Kind: Message, Sub: s, Card: []Card{Plain, Rep, Map}[r.Intn(3)]}
					if f.Card == Map {
						f.Key = mapKeys[r.Intn(len(mapKeys))]
					}
					fields = append(fields, f)
				}
			}
			r.Shuffle(len(fields), func(a, b int) { fields[a], fields[b] = fields[b], fields[a] })
		}
		m := NewMsg(r, fmt.Sprintf("M%d", i), fields, o.Canary && r.Intn(3) > 0)
		if last {
			return m
		}
		subs = append(subs, m)
	}
}

// FromGo derives the model of an existing Go struct type from its struct tags.
func FromGo(t reflect.Type) (*Msg, error) {
	return fromGo(t, map[reflect.Type]*Msg{})
}

func fromGo(t reflect.Type, seen map[reflect.Type]*Msg) (*Msg, error) {
	if m := seen[t]; m != nil {
		return m, nil
	}
	m := &Msg{Name: fmt.Sprintf("G%d_%s", len(seen), t.Name()), Go: t}
	seen[t] = m
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		_, ok := sf.Tag.Lookup("protobuf")
		if !ok || sf.PkgPath != "" {
			if sf.Name != "_" && sf.Type.Size() > 0 {
				m.Canary = append(m.Canary, i)
				if ok {
					if f, err := fieldOf(t, i, seen); err == nil {
						m.Hidden = append(m.Hidden, f)
					}
				}
			}
			continue
		}
		f, err := fieldOf(t, i, seen)
		if err != nil {
			return nil, err
		}
		m.Fields = append(m.Fields, f)
	}
	return m, nil
}

func fieldOf(t reflect.Type, i int, seen map[reflect.Type]*Msg) (*Field, error) {
	sf := t.Field(i)
	f := &Field{GoIndex: i, GoName: sf.Name}
	word, num, err := splitTag(sf.Tag.Get("protobuf"))
	if err != nil {
		return nil, err
	}
	f.Num = num
	ft := sf.Type
	if e, ok := optElem[ft]; ok {
		f.Card = Opt
		ft = e
	} else if ft.Kind() == reflect.Slice && ft.Elem().Kind() != reflect.Uint8 {
		f.Card = Rep
		ft = ft.Elem()
	} else if ft.Kind() == reflect.Map {
		f.Card = Map
		kw, _, err := splitTag(sf.Tag.Get("protobuf_key"))
		if err != nil {
			return nil, err
		}
		if f.Key, err = kindOf(kw, ft.Key()); err != nil {
			return nil, err
		}
		if word, _, err = splitTag(sf.Tag.Get("protobuf_val")); err != nil {
			return nil, err
		}
		ft = ft.Elem()
	} else if ft.Kind() == reflect.Ptr && ft.Elem().Kind() != reflect.Struct {
		f.Card = Ptr
		ft = ft.Elem()
	}
	if ft.Kind() == reflect.Ptr {
		f.Kind = Message
		if f.Sub, err = fromGo(ft.Elem(), seen); err != nil {
			return nil, err
		}
	} else if f.Kind, err = kindOf(word, ft); err != nil {
		return nil, fmt.Errorf("%v.%s: %v", t, sf.Name, err)
	}
	return f, nil
}

func splitTag(tag string) (string, int32, error) {
	p := strings.Split(tag, ",")
	if len(p) < 2 {
		return "", 0, fmt.Errorf("bad tag %q", tag)
	}
	n, err := strconv.Atoi(p[1])
	return p[0], int32(n), err
}

func kindOf(word string, t reflect.Type) (Kind, error) {
	switch t.Kind() {
	case reflect.Bool:
		return Bool, nil
	case reflect.Int32:
		switch word {
		case "varint":
			return Int32, nil
		case "zigzag32":
			return Sint32, nil
		case "fixed32":
			return Sfixed32, nil
		}
	case reflect.Int64:
		switch word {
		case "varint":
			return Int64, nil
		case "zigzag64":
			return Sint64, nil
		case "fixed64":
			return Sfixed64, nil
		}
	case reflect.Uint32:
		switch word {
		case "varint":
			return Uint32, nil
		case "fixed32":
			return Fixed32, nil
		}
	case reflect.Uint64:
		switch word {
		case "varint":
			return Uint64, nil
		case "fixed64":
			return Fixed64, nil
		}
	case reflect.Float32:
		return Float, nil
	case reflect.Float64:
		return Double, nil
	case reflect.String:
		return String, nil
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return Bytes, nil
		}
	}
	return 0, fmt.Errorf("no kind for %q %v", word, t)
}
