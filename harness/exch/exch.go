// Package exch runs inside the programs built from generated code. It watches the
// generated types at work: it exchanges data with the official implementation
// working from the schema itself (C14) and compares declarations with it (C15).
package exch

import (
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"

	"verif/vf"

	"google.golang.org/protobuf/compiler/protogen"
	official "google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/dynamicpb"
	"google.golang.org/protobuf/types/pluginpb"
)

// Forward is one declaration that a public import has to re-export.
type Forward struct {
	Name   string
	In, Of reflect.Type
	A, B   int64
}

// Set is what a program knows about one set of schema files.
type Set struct {
	Name      string
	Index     int
	Request   string                  // file with the request given to the generator
	Types     map[string]reflect.Type // by full name; oneof members as message#field
	EnumTypes map[string]reflect.Type
	Enums     map[string]int64 // constants by full name
	Forwards  []Forward
}

type out struct {
	Cases   int            `json:"cases"`
	Evals   int            `json:"evals"`
	Hashes  []uint64       `json:"hashes"`
	Cover   map[string]int `json:"cover"`
	Samples []string       `json:"samples"`
	Viol    *viol          `json:"violation,omitempty"`
	Harness string         `json:"harness_error,omitempty"`
}

type viol struct {
	Case  int      `json:"case"`
	Msg   string   `json:"msg"`
	Trace []string `json:"trace"`
}

type ctx struct {
	r     *rand.Rand
	o     *out
	trace []string
	set   *Set
	tier  string
}

// Main is the main function of the programs.
func Main(sets []*Set) {
	prop := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	flag.Int("cases", 0, "")
	upto := flag.Int("upto", -1, "")
	outf := flag.String("out", "", "")
	progress := flag.String("progress", "", "")
	flag.Parse()
	o := &out{Cover: map[string]int{}}
	code := 0
	for _, s := range sets {
		if s.Index%*shards != *shard || *upto >= 0 && s.Index != *upto {
			continue
		}
		if *progress != "" {
			os.WriteFile(*progress, []byte(fmt.Sprintf("%d\n", s.Index)), 0o644)
		}
		c := &ctx{r: rand.New(rand.NewSource(*seed*1000003 + int64(s.Index))), o: o, set: s, tier: *tier}
		c.trace = []string{"set " + s.Name}
		if c.guard(*prop) {
			code = 3
			break
		}
		if o.Viol != nil {
			break
		}
		o.Cases++
	}
	b, _ := json.Marshal(o)
	if *outf != "" {
		if err := os.WriteFile(*outf, b, 0o644); err != nil {
			panic(err)
		}
	} else {
		os.Stdout.Write(b)
	}
	os.Exit(code)
}

func (c *ctx) guard(prop string) (harnessErr bool) {
	defer func() {
		if e := recover(); e != nil {
			v, ok := e.(vf.Violation)
			if !ok {
				panic(e)
			}
			c.o.Viol = &viol{c.set.Index, v.Msg, c.trace}
		}
	}()
	b, err := os.ReadFile(c.set.Request)
	if err != nil {
		panic(err)
	}
	req := &pluginpb.CodeGeneratorRequest{}
	if err := official.Unmarshal(b, req); err != nil {
		panic(err)
	}
	plug, err := protogen.Options{}.New(req)
	if err != nil {
		panic(err)
	}
	for _, f := range plug.Files {
		if !f.Generate {
			continue
		}
		var walk func(ms []*protogen.Message)
		walk = func(ms []*protogen.Message) {
			for _, m := range ms {
				if !m.Desc.IsMapEntry() {
					c.tr("message %s", m.Desc.FullName())
					if prop == "C14" {
						c.exchange(m)
					} else {
						c.shape(f, m)
					}
					c.trace = c.trace[:1]
				}
				walk(m.Messages)
			}
		}
		walk(f.Messages)
	}
	if prop == "C15" {
		c.enums(plug)
	}
	return false
}

func (c *ctx) tr(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	c.trace = append(c.trace, s)
}

func (c *ctx) nontrivial(parts ...string) {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0xff})
	}
	c.o.Hashes = append(c.o.Hashes, h.Sum64())
}

var kinds = map[protoreflect.Kind]vf.Kind{
	protoreflect.BoolKind: vf.Bool, protoreflect.EnumKind: vf.Int32, protoreflect.Int32Kind: vf.Int32, protoreflect.Sint32Kind: vf.Sint32,
	protoreflect.Uint32Kind: vf.Uint32, protoreflect.Int64Kind: vf.Int64, protoreflect.Sint64Kind: vf.Sint64, protoreflect.Uint64Kind: vf.Uint64,
	protoreflect.Sfixed32Kind: vf.Sfixed32, protoreflect.Fixed32Kind: vf.Fixed32, protoreflect.FloatKind: vf.Float,
	protoreflect.Sfixed64Kind: vf.Sfixed64, protoreflect.Fixed64Kind: vf.Fixed64, protoreflect.DoubleKind: vf.Double,
	protoreflect.StringKind: vf.String, protoreflect.BytesKind: vf.Bytes, protoreflect.MessageKind: vf.Message,
}

// model derives the model of a message type from the schema; only the place of each
// field in the Go struct comes from the generated type.
type model struct {
	c        *ctx
	memo     map[string]*vf.Msg
	implicit map[*vf.Field]bool // bytes without presence
	ok       bool
}

func (x *model) msg(m *protogen.Message, t reflect.Type) *vf.Msg {
	name := string(m.Desc.FullName())
	if k := x.memo[name]; k != nil {
		if k.Go != t {
			vf.Fail("%s has two Go types: %v and %v", name, k.Go, t)
		}
		return k
	}
	if want := x.c.set.Types[name]; want != nil && want != t {
		vf.Fail("a field of message type %s has Go type %v instead of %v", name, t, want)
	}
	k := &vf.Msg{Name: name, Go: t}
	x.memo[name] = k
	if m.Desc.ExtensionRanges().Len() > 0 {
		x.c.o.Cover["type:with extension range"]++
	}
	for _, f := range m.Fields {
		if f.Oneof != nil && !f.Oneof.Desc.IsSynthetic() || f.Desc.Kind() == protoreflect.GroupKind {
			x.ok = false
			return k
		}
		sf, ok := t.FieldByName(f.GoName)
		if !ok {
			vf.Fail("message %s: the generated type %v has no field %s", name, t, f.GoName)
		}
		v := &vf.Field{Num: int32(f.Desc.Number()), GoName: f.GoName, GoIndex: sf.Index[0]}
		key, val := f, f
		switch {
		case f.Desc.IsMap():
			v.Card = vf.Map
			key, val = f.Message.Fields[0], f.Message.Fields[1]
			v.Key = kinds[key.Desc.Kind()]
		case f.Desc.IsList():
			v.Card = vf.Rep
		case f.Desc.HasPresence() && f.Desc.Kind() != protoreflect.MessageKind && f.Desc.Kind() != protoreflect.BytesKind:
			v.Card = vf.Opt
			// the official types use pointers
			if sf.Type.Kind() == reflect.Ptr {
				v.Card = vf.Ptr
			}
		}
		v.Kind = kinds[val.Desc.Kind()]
		if v.Kind == vf.Bytes && v.Card == vf.Plain && !f.Desc.HasPresence() {
			x.implicit[v] = true
		}
		st := sf.Type
		if v.Kind == vf.Message {
			switch v.Card {
			case vf.Rep, vf.Map:
				if st.Kind() != reflect.Slice && st.Kind() != reflect.Map {
					vf.Fail("message %s: field %s has Go type %v", name, f.GoName, sf.Type)
				}
				st = st.Elem()
			}
			if st.Kind() != reflect.Ptr || st.Elem().Kind() != reflect.Struct {
				vf.Fail("message %s: field %s has Go type %v", name, f.GoName, sf.Type)
			}
			v.Sub = x.msg(val.Message, st.Elem())
		}
		if want := vf.GoTypeOf(v); want != sf.Type {
			vf.Fail("message %s: field %s (%s) has Go type %v instead of %v", name, f.GoName, v.Shape(), sf.Type, want)
		}
		k.Fields = append(k.Fields, v)
	}
	return k
}

// strip removes what the schema cannot express: empty bytes in a field without presence.
func (x *model) strip(v *vf.MVal) {
	for i, f := range v.T.Fields {
		e := &v.F[i]
		if x.implicit[f] && e.V.S == "" {
			*e = vf.FVal{}
		}
		if f.Kind == vf.Message {
			if e.V.M != nil {
				x.strip(e.V.M)
			}
			for _, l := range e.L {
				x.strip(l.M)
			}
			for _, kv := range e.KV {
				x.strip(kv.V.M)
			}
		}
	}
}

func hx(b []byte) string {
	if len(b) > 1000 {
		b = b[:1000]
	}
	return hex.EncodeToString(b)
}

func (c *ctx) exchange(m *protogen.Message) {
	x := &model{c: c, memo: map[string]*vf.Msg{}, implicit: map[*vf.Field]bool{}, ok: true}
	goType := c.set.Types[string(m.Desc.FullName())]
	if goType == nil {
		panic("no Go type for " + m.Desc.FullName())
	}
	t := x.msg(m, goType)
	if !x.ok {
		c.o.Cover["type:skipped (oneof or group)"]++
		return
	}
	c.o.Cover["type:"+m.Desc.ParentFile().Syntax().String()]++
	for _, f := range m.Fields {
		i := t.Index(int32(f.Desc.Number()))
		c.o.Cover["shape:"+t.Fields[i].Shape()]++
		if f.Desc.Kind() == protoreflect.EnumKind {
			c.o.Cover["field:enum"]++
		}
		if f.Desc.IsPacked() {
			c.o.Cover["field:packed"]++
		}
		if f.Desc.Cardinality() == protoreflect.Required {
			c.o.Cover["field:required"]++
		}
		if f.Message != nil && f.Message.GoIdent.GoImportPath != m.GoIdent.GoImportPath {
			c.o.Cover["field:message from another package"]++
		}
		if f.Enum != nil && f.Enum.GoIdent.GoImportPath != m.GoIdent.GoImportPath {
			c.o.Cover["field:enum from another package"]++
		}
	}
	n := 4
	if c.tier == "thorough" {
		n = 10
	}
	for i := 0; i < n; i++ {
		vo := vf.DefaultVal(c.r)
		vo.ValidUTF8 = true
		v := vf.GenM(c.r, t, vo)
		x.strip(v)
		c.tr("value %v", v)
		// from the generated type to the official implementation
		p := v.ToGo()
		b := vf.MustMarshal(p.Interface())
		c.tr("bytes %s", hx(b))
		d := dynamicpb.NewMessage(m.Desc)
		if err := (official.UnmarshalOptions{AllowPartial: true}).Unmarshal(b, d); err != nil {
			vf.Fail("%s: the official implementation does not read what the generated type encodes: %v", t.Name, err)
		}
		unknown := 0
		got := vf.FromDyn(t, d, &unknown)
		if df := vf.Diff(v, got); df != "" {
			vf.Fail("%s: data changed on the way from the generated type to the official implementation: %s", t.Name, df)
		}
		if unknown > 0 {
			vf.Fail("%s: the generated type encodes %d bytes that the schema does not know", t.Name, unknown)
		}
		c.o.Evals++
		// and back
		e := dynamicpb.NewMessage(m.Desc)
		vf.ToDyn(v, e)
		ob, err := official.MarshalOptions{AllowPartial: true}.Marshal(e)
		if err != nil {
			panic(fmt.Sprintf("official marshal: %v", err))
		}
		c.tr("official bytes %s", hx(ob))
		q := reflect.New(goType)
		if err := vf.Unmarshal(ob, q.Interface()); err != nil {
			vf.Fail("%s: the generated type does not read the official encoding: %v", t.Name, err)
		}
		if df := vf.Diff(v, vf.Read(t, q)); df != "" {
			vf.Fail("%s: data changed on the way from the official implementation to the generated type: %s", t.Name, df)
		}
		c.o.Evals++
		if !v.Empty() {
			c.nontrivial(t.Name, t.String(), v.String())
			if len(c.o.Samples) < 2 {
				s := fmt.Sprintf("%v %v -> %s", t, v, hx(b))
				if len(s) > 600 {
					s = s[:600] + "..."
				}
				c.o.Samples = append(c.o.Samples, s)
			}
		}
		c.trace = c.trace[:2]
	}
}

// shape compares the declarations of a message with its schema.
func (c *ctx) shape(file *protogen.File, m *protogen.Message) {
	name := string(m.Desc.FullName())
	t := c.set.Types[name]
	if t == nil || t.Kind() != reflect.Struct {
		vf.Fail("message %s: Go type %v", name, t)
	}
	want := map[string]bool{}
	for _, f := range m.Fields {
		if f.Oneof != nil && !f.Oneof.Desc.IsSynthetic() {
			want[f.Oneof.GoName] = true
			if f.Oneof.Fields[0] == f {
				c.oneof(m, t, f.Oneof)
			}
			continue
		}
		want[f.GoName] = true
		sf, ok := t.FieldByName(f.GoName)
		if !ok {
			vf.Fail("message %s: the generated type has no field %s", name, f.GoName)
		}
		c.checkType(name+"."+string(f.Desc.Name()), f, sf.Type, true)
		c.o.Cover["checked:field"]++
		c.o.Evals++
	}
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		if sf.IsExported() && !want[sf.Name] {
			vf.Fail("message %s: the generated type has a field %s that the schema does not declare", name, sf.Name)
		}
		delete(want, sf.Name)
	}
	if len(want) > 0 {
		vf.Fail("message %s: fields %v are missing", name, want)
	}
	if t.Comparable() {
		vf.Fail("message %s: values of the generated type %s can be compared with ==", name, describe(t))
	}
	c.o.Cover["checked:message"]++
	c.nontrivial(c.set.Name, name)
	if len(c.o.Samples) < 2 && len(m.Fields) > 2 {
		s := fmt.Sprintf("message %s is %v", name, describe(t))
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.o.Samples = append(c.o.Samples, s)
	}
}

func describe(t reflect.Type) string {
	var sb strings.Builder
	sb.WriteString("struct {")
	for i := 0; i < t.NumField(); i++ {
		fmt.Fprintf(&sb, " %s %v;", t.Field(i).Name, t.Field(i).Type)
	}
	return sb.String() + " }"
}

func (c *ctx) checkType(where string, f *protogen.Field, t reflect.Type, option bool) {
	scalar := func(f *protogen.Field, t reflect.Type) {
		switch f.Desc.Kind() {
		case protoreflect.EnumKind:
			if want := c.set.EnumTypes[string(f.Enum.Desc.FullName())]; want != nil && want != t || t.Kind() != reflect.Int32 {
				vf.Fail("%s: enum field has Go type %v instead of %v", where, t, want)
			}
		case protoreflect.MessageKind, protoreflect.GroupKind:
			want := c.set.Types[string(f.Message.Desc.FullName())]
			if t.Kind() != reflect.Ptr || want != nil && t.Elem() != want {
				vf.Fail("%s: message field has Go type %v instead of *%v", where, t, want)
			}
		default:
			v := &vf.Field{Kind: kinds[f.Desc.Kind()]}
			if want := vf.GoTypeOf(v); want != t {
				vf.Fail("%s: field of kind %v has Go type %v instead of %v", where, f.Desc.Kind(), t, want)
			}
		}
	}
	switch {
	case f.Desc.IsMap():
		if t.Kind() != reflect.Map {
			vf.Fail("%s: map field has Go type %v", where, t)
		}
		scalar(f.Message.Fields[0], t.Key())
		scalar(f.Message.Fields[1], t.Elem())
	case f.Desc.IsList():
		if t.Kind() != reflect.Slice {
			vf.Fail("%s: repeated field has Go type %v", where, t)
		}
		scalar(f, t.Elem())
	case option && f.Desc.HasPresence() && f.Desc.Kind() != protoreflect.BytesKind && f.Message == nil:
		e, ok := vf.OptElem(t)
		if !ok {
			vf.Fail("%s: field with presence has Go type %v, not an optional wrapper", where, t)
		}
		scalar(f, e)
	default:
		scalar(f, t)
	}
}

// oneof puts every member into the message and asks every accessor.
func (c *ctx) oneof(m *protogen.Message, t reflect.Type, o *protogen.Oneof) {
	name := string(o.Desc.FullName())
	sf, ok := t.FieldByName(o.GoName)
	if !ok || sf.Type.Kind() != reflect.Interface {
		vf.Fail("oneof %s: the generated type has no interface field %s", name, o.GoName)
	}
	getter := func(p reflect.Value, n string) reflect.Value {
		f := p.MethodByName("Get" + n)
		if !f.IsValid() || f.Type().NumIn() != 0 || f.Type().NumOut() != 1 {
			vf.Fail("oneof %s: no accessor Get%s", name, n)
		}
		defer func() {
			if e := recover(); e != nil {
				vf.Fail("oneof %s: Get%s panicked (nil receiver: %v): %v", name, n, p.IsNil(), e)
			}
		}()
		return f.Call(nil)[0]
	}
	judge := func(f *protogen.Field) bool { return !f.Desc.HasDefault() } // explicit defaults are not specified here
	null := func(f *protogen.Field, v reflect.Value, where string) {
		if !judge(f) {
			return
		}
		if f.Enum != nil {
			if v.Int() != int64(f.Enum.Values[0].Desc.Number()) {
				vf.Fail("oneof %s: Get%s of %s returns %v", name, f.GoName, where, v)
			}
			return
		}
		if !v.IsZero() {
			vf.Fail("oneof %s: Get%s of %s returns %v", name, f.GoName, where, v)
		}
	}
	np := reflect.Zero(reflect.PtrTo(t))
	if !getter(np, o.GoName).IsNil() {
		vf.Fail("oneof %s: accessor of a nil message returns something", name)
	}
	for _, f := range o.Fields {
		null(f, getter(np, f.GoName), "a nil message")
		null(f, getter(reflect.New(t), f.GoName), "an empty message")
		c.o.Evals += 2
	}
	for _, f := range o.Fields {
		w := c.set.Types[string(m.Desc.FullName())+"#"+string(f.Desc.Name())]
		if w == nil || w.Kind() != reflect.Struct || w.NumField() != 1 {
			vf.Fail("oneof member %s: wrapper type %v", f.Desc.FullName(), w)
		}
		wf, ok := w.FieldByName(f.GoName)
		if !ok {
			vf.Fail("oneof member %s: the wrapper has no field %s", f.Desc.FullName(), f.GoName)
		}
		c.checkType(string(f.Desc.FullName()), f, wf.Type, false)
		p, box := reflect.New(t), reflect.New(w)
		held := box.Elem().FieldByName(f.GoName)
		switch held.Kind() {
		case reflect.Bool:
			held.SetBool(true)
		case reflect.Int32, reflect.Int64:
			held.SetInt(77 + int64(c.r.Intn(100)))
		case reflect.Uint32, reflect.Uint64:
			held.SetUint(77)
		case reflect.Float32, reflect.Float64:
			held.SetFloat(2.5)
		case reflect.String:
			held.SetString("held")
		case reflect.Slice:
			held.SetBytes([]byte("held"))
		case reflect.Ptr:
			held.Set(reflect.New(held.Type().Elem()))
		}
		if !box.Type().Implements(sf.Type) {
			vf.Fail("oneof member %s: the wrapper is not assignable to field %s", f.Desc.FullName(), o.GoName)
		}
		p.Elem().FieldByName(o.GoName).Set(box)
		if got := getter(p, o.GoName); got.IsNil() || got.Elem().Pointer() != box.Pointer() {
			vf.Fail("oneof %s: accessor does not return the member that is set", name)
		}
		for _, g := range o.Fields {
			got := getter(p, g.GoName)
			if g != f {
				null(g, got, "a message holding "+f.GoName)
			} else if !reflect.DeepEqual(got.Interface(), held.Interface()) || got.Kind() == reflect.Ptr && got.Pointer() != held.Pointer() {
				vf.Fail("oneof %s: Get%s returns %v, held is %v", name, f.GoName, got, held)
			}
			c.o.Evals++
		}
		c.o.Cover["checked:oneof member"]++
	}
	// nothing but its members goes into a oneof
	own := map[reflect.Type]bool{}
	for _, f := range o.Fields {
		own[c.set.Types[string(m.Desc.FullName())+"#"+string(f.Desc.Name())]] = true
	}
	for n, w := range c.set.Types {
		if !own[w] && (w.Implements(sf.Type) || reflect.PtrTo(w).Implements(sf.Type)) {
			vf.Fail("oneof %s: %s, which is no member of it, is assignable to field %s", name, n, o.GoName)
		}
		c.o.Evals++
	}
	c.o.Cover["checked:oneof"]++
}

func (c *ctx) enums(plug *protogen.Plugin) {
	var one func(e *protogen.Enum)
	one = func(e *protogen.Enum) {
		name := string(e.Desc.FullName())
		c.tr("enum %s", name)
		if t := c.set.EnumTypes[name]; t == nil || t.Kind() != reflect.Int32 {
			vf.Fail("enum %s has Go type %v", name, t)
		}
		for _, v := range e.Values {
			n, ok := c.set.Enums[string(v.Desc.FullName())+"#"+string(e.Desc.Name())]
			if !ok || n != int64(v.Desc.Number()) {
				vf.Fail("enum %s: constant %s is %d, declared %d", name, v.GoIdent.GoName, n, v.Desc.Number())
			}
			c.o.Evals++
			c.o.Cover["checked:enum constant"]++
		}
		c.nontrivial(c.set.Name, name)
		c.trace = c.trace[:1]
	}
	var walk func(ms []*protogen.Message)
	walk = func(ms []*protogen.Message) {
		for _, m := range ms {
			for _, e := range m.Enums {
				one(e)
			}
			walk(m.Messages)
		}
	}
	for _, f := range plug.Files {
		if !f.Generate {
			continue
		}
		for _, e := range f.Enums {
			one(e)
		}
		walk(f.Messages)
	}
	sort.Slice(c.set.Forwards, func(i, j int) bool { return c.set.Forwards[i].Name < c.set.Forwards[j].Name })
	for _, w := range c.set.Forwards {
		if w.In != w.Of || w.A != w.B {
			vf.Fail("public import: %s is %v %d, the imported declaration is %v %d", w.Name, w.In, w.A, w.Of, w.B)
		}
		c.o.Evals++
		c.o.Cover["checked:re-exported declaration"]++
	}
}
