"""Planted bugs, tenth round."""
import importlib.util, os
_s = importlib.util.spec_from_file_location("e", os.path.join(os.path.dirname(os.path.abspath(__file__)), "e.py"))
_e = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_e)
SPECS = _e.SPECS = []
S, SG, SX, G = _e.S, _e.SG, _e.SX, _e.G

S("c01-one-letter", "C01",
  [("proto/normal_codec.go", "	*(*string)(p) = string(v)\n	return n, err", "	if len(v) == 1 {\n		// one letter needs no memory\n		*(*string)(p) = string(rune(v[0]))\n		return n, err\n	}\n	*(*string)(p) = string(v)\n	return n, err")], """
func TestDemo(t *testing.T) {
	type M struct {
		S string `protobuf:"bytes,1,opt"`
	}
	b, _ := proto.Marshal(&M{S: "\\xe9"})
	m := &M{}
	if err := proto.Unmarshal(b, m); err != nil || m.S != "\\xe9" {
		t.Fatalf("%v %q", err, m.S)
	}
}
""", "a string of one byte that is not ASCII", "it comes back as two bytes")

S("c04-packed-empty", "C04",
  [("proto/struct.go", "	data, n, err := decodeVarlen(b)\n	for err", "	data, n, err := decodeVarlen(b)\n	if err == nil && n == 1 && len(data) == 0 {\n		(*Slice)(p).SetLen(0) // an empty list\n	}\n	for err"),
   ("proto/struct.go", "	\"unsafe\"\n)", "	\"unsafe\"\n\n	. \"github.com/RomiChan/protobuf/internal/runtime_reflect\"\n)")], """
func TestDemo(t *testing.T) {
	type M struct {
		L []int32 `protobuf:"varint,1,rep"`
	}
	m := &M{}
	if err := proto.Unmarshal([]byte{8, 1, 10, 0, 8, 2}, m); err != nil || len(m.L) != 2 {
		t.Fatal(err, m.L)
	}
}
""", "an empty packed record after other elements of the list", "the elements before it are lost")

S("c07-no-fields", "C07",
  [("proto/struct.go", "	offset := 0\n	for offset < len(b) {\n", "	if len(info.fields) == 0 {\n		return len(b), nil // whatever it is\n	}\n	offset := 0\n	for offset < len(b) {\n")], """
func TestDemo(t *testing.T) {
	type E struct{}
	type M struct {
		E *E `protobuf:"bytes,1,opt"`
	}
	if proto.Unmarshal([]byte{10, 1, 8}, &M{}) == nil {
		t.Fatal("accepted")
	}
}
""", "malformed input for a message type that declares no fields", "it is accepted")

S("c09-spare-write", "C09",
  [("proto/normal_codec.go", "		b = appendVarint(b, uint64(len(v)))\n		b = append(b, v...)\n	}\n	return b\n}\n\nfunc decodeBytes", "		b = appendVarint(b, uint64(len(v)))\n		if cap(v) > len(v)+64 {\n			v = append(v, 0)[:len(v)]\n		}\n		b = append(b, v...)\n	}\n	return b\n}\n\nfunc decodeBytes")], """
func TestDemo(t *testing.T) {
	type M struct {
		A []byte `protobuf:"bytes,1,opt"`
	}
	buf := make([]byte, 200)
	for i := range buf {
		buf[i] = 7
	}
	proto.Marshal(&M{A: buf[:10]})
	if buf[10] != 7 {
		t.Fatal(buf[:12])
	}
}
""", "a byte string that is the front of a larger buffer", "encoding overwrites the byte behind it")

S("c10-flight-panic", "C10",
  [("proto/proto.go", "	w := &walker{\n", "	mine := make(chan struct{})\n	for {\n		other, busy := walking.LoadOrStore(t, mine)\n		if !busy {\n			break\n		}\n		<-other.(chan struct{})\n		if c, ok = structInfoCache.Load(pointer(t)); ok {\n			return c\n		}\n	}\n	w := &walker{\n"),
   ("proto/proto.go", "	actual, _ := structInfoCache.LoadOrStore(pointer(t), info)\n", "	actual, _ := structInfoCache.LoadOrStore(pointer(t), info)\n	walking.Delete(t)\n	close(mine)\n"),
   ("proto/proto.go", "var codecCache sync.Map ", "var walking sync.Map // of types, so that each is walked by one goroutine only\nvar codecCache sync.Map ")], """
func TestDemo(t *testing.T) {
	type B struct {
		V int `protobuf:"varint,1,opt"`
	}
	done := make(chan bool, 8)
	for i := 0; i < 8; i++ {
		go func() {
			defer func() { done <- recover() != nil }()
			proto.Marshal(&B{})
		}()
	}
	for i := 0; i < 8; i++ {
		select {
		case p := <-done:
			if !p {
				t.Fatal("no panic")
			}
		case <-time.After(10 * time.Second):
			t.Fatal("blocked")
		}
	}
}
""", "two goroutines that use a rejected type", "the second waits for ever", imports='"time"')

S("c11-type-flood", "C11",
  [("proto/struct.go", "type structInfo struct {\n", "// serial numbers of types, for the fast lookup of the field that came last\nvar serial uint32\nvar lastField [1 << 16]*structField\n\ntype structInfo struct {\n	id         uint16\n"),
   ("proto/struct.go", "		f := info.fieldIndex[fieldNumber]\n", "		f := info.lastField(fieldNumber)\n"),
   ("proto/struct.go", "type structTag struct {", "func (info *structInfo) lastField(n fieldNumber) *structField {\n	p := (*unsafe.Pointer)(unsafe.Pointer(&lastField[info.id]))\n	if f := (*structField)(atomic.LoadPointer(p)); f != nil && f.fieldNumber() == n {\n		return f\n	}\n	f := info.fieldIndex[n]\n	if f != nil {\n		atomic.StorePointer(p, unsafe.Pointer(f))\n	}\n	return f\n}\n\ntype structTag struct {"),
   ("proto/struct.go", "	\"strings\"\n", "	\"strings\"\n	\"sync/atomic\"\n"),
   ("proto/walker.go", "	info := new(structInfo)\n	w.infos[t] = info\n", "	info := new(structInfo)\n	info.id = uint16(atomic.AddUint32(&serial, 1))\n	w.infos[t] = info\n"),
   ("proto/walker.go", "	\"reflect\"\n", "	\"reflect\"\n	\"sync/atomic\"\n"),
   ("proto/map.go", "	info := &structInfo{\n", "	info := &structInfo{\n		id:     uint16(atomic.AddUint32(&serial, 1)),\n"),
   ("proto/map.go", "	\"sync\"\n", "	\"sync\"\n	\"sync/atomic\"\n"),
   ], """
func TestDemo(t *testing.T) {
	type first struct {
		V int64 `protobuf:"varint,1,opt"`
	}
	type last struct {
		V string `protobuf:"bytes,1,opt"`
	}
	if err := proto.Unmarshal([]byte{8, 1}, &first{}); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 1<<16-1; i++ {
		typ := reflect.StructOf([]reflect.StructField{{Name: fmt.Sprint("F", i), Type: reflect.TypeOf(0)}})
		proto.Size(reflect.New(typ).Interface())
	}
	m := &last{}
	if err := proto.Unmarshal([]byte{10, 1, 'a'}, m); err != nil || m.V != "a" {
		t.Fatal(err, m)
	}
}
""", "two types with 65536 types between them", "a field of one is looked up in the other", imports='"fmt" "reflect"')

S("c12-noscan-message", "C12",
  [("proto/walker.go", "	elem := t.Elem()\n	info := w.structInfo(elem)\n", "	elem := t.Elem()\n	info := w.structInfo(elem)\n	alloc := func() unsafe.Pointer { return unsafe.Pointer(reflect.New(elem).Pointer()) }\n	if plain(elem) && elem.Align() <= 8 {\n		// one kind of memory for all that the collector need not look at\n		alloc = func() unsafe.Pointer {\n			return unsafe.Pointer(&make([]uint64, elem.Size()/8+1)[0])\n		}\n	}\n"),
   ("proto/walker.go", "			*v = unsafe.Pointer(reflect.New(elem).Pointer())\n		}\n		_, n, err", "			*v = alloc()\n		}\n		_, n, err"),
   ("proto/walker.go", "type walkerConfig struct {", "// plain tells whether a type holds no pointers.\nfunc plain(t reflect.Type) bool {\n	for i := 0; i < t.NumField(); i++ {\n		switch f := t.Field(i).Type; f.Kind() {\n		case reflect.Struct:\n			if f.NumField() > 2 && !plain(f) { // other than a wrapper\n				return false\n			}\n		case reflect.Bool, reflect.Int32, reflect.Int64, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:\n		default:\n			return false\n		}\n	}\n	return true\n}\n\ntype walkerConfig struct {")], """
func TestDemo(t *testing.T) {
	type N struct {
		S proto.Option[string] `protobuf:"bytes,1,opt"`
		I int32                `protobuf:"varint,2,opt"`
	}
	type M struct {
		N *N `protobuf:"bytes,1,opt"`
	}
	var all []*M
	for i := 0; i < 2000; i++ {
		m := &M{}
		proto.Unmarshal([]byte{10, 6, 10, 4, 'a', byte('a' + i%26), 'b', 'c'}, m)
		all = append(all, m)
	}
	for k := 0; k < 3; k++ {
		runtime.GC()
		for i := 0; i < 10000; i++ {
			keep = append(keep[:i%100:i%100], "xxxx"+string(rune('a'+i%26)))
		}
	}
	for i, m := range all {
		if m.N.S.Unwrap() != string([]byte{'a', byte('a' + i%26), 'b', 'c'}) {
			t.Fatal(i, m.N.S.Unwrap())
		}
	}
}

var keep []string
""", "a nested message of scalars and an optional string", "its string is freed while in use", imports='"runtime"')

S("c13-required-conf", "C13",
  [("proto/walker.go", "type walker struct {\n", "type walker struct {\n	inList bool // elements are sent even when zero\n"),
   ("proto/walker.go", "					conf.required = true\n					field.codec = w.codec(elem, conf)\n", "					conf.required = true\n					w.inList = true\n					field.codec = w.codec(elem, conf)\n					w.inList = false\n"),
   ("proto/walker.go", "				// required: t.required,\n", "				required: w.inList && numField == 1,\n")], """
func TestDemo(t *testing.T) {
	type N struct {
		V int32 `protobuf:"varint,1,opt"`
	}
	type M struct {
		L []*N `protobuf:"bytes,1,rep"`
	}
	if b, _ := proto.Marshal(&M{L: []*N{{}}}); len(b) != 2 {
		t.Fatal(b)
	}
}
""", "a message type of one plain field, used first as the element of a list", "its zero is sent")

S("c17-atomic-align", "C17",
  [("proto/struct.go", "	fieldIndex map[fieldNumber]*structField\n}", "	fieldIndex map[fieldNumber]*structField\n	uses       uint64 // statistics\n}"),
   ("proto/struct.go", "	offset := 0\n	for offset < len(b) {\n", "	offset := 0\n	if len(b) > 200 {\n		atomic.AddUint64(&info.uses, 1)\n	}\n	for offset < len(b) {\n"),
   ("proto/struct.go", "type structInfo struct {\n", "type structInfo struct {\n	large      bool\n"),
   ("proto/struct.go", "	\"strings\"\n", "	\"strings\"\n	\"sync/atomic\"\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		S string `protobuf:"bytes,1,opt"`
	}
	b, _ := proto.Marshal(&M{S: strings.Repeat("x", 300)})
	if err := proto.Unmarshal(b, &M{}); err != nil {
		t.Fatal(err)
	}
}
""", "a 32-bit platform and a message of more than 200 bytes", "a misaligned atomic operation panics", imports='"strings"', envs="GOARCH=386 ", flags="")

S("c18-iszero", "C18",
  [("proto/option.go", "	if o.IsSome() {\n		return o.value\n	}\n	var zero T\n	return zero\n", "	var zero T\n	if z, ok := any(o.value).(interface{ IsZero() bool }); ok && z.IsZero() {\n		return zero // one zero is as good as another\n	}\n	if o.IsSome() {\n		return o.value\n	}\n	return zero\n")], """
func TestDemo(t *testing.T) {
	at := time.Time{}.In(time.FixedZone("x", 3600))
	if proto.Some(at).Unwrap().Location() != at.Location() {
		t.Fatal("zone lost")
	}
}
""", "an element type with an IsZero method for which several values are zero", "the value given back is another", imports='"time"')

S("c19-wide-quadratic", "C19",
  [("proto/struct.go", "	for _, f := range info.fields {\n		b = f.codec.encode(b, f.pointer(p), f)\n	}\n", "	for i, f := range info.fields {\n		if n := len(b); n > 0 && info.redeclared(i) {\n			continue\n		}\n		b = f.codec.encode(b, f.pointer(p), f)\n	}\n"),
   ("proto/struct.go", "type structTag struct {", "// redeclared tells whether the number of field i comes again.\nfunc (info *structInfo) redeclared(i int) bool {\n	n := 0\n	for _, f := range info.fields {\n		if f.wiretag == info.fields[i].wiretag {\n			n++\n		}\n	}\n	return n > 1 && false\n}\n\ntype structTag struct {")], """
func TestDemo(t *testing.T) {
	cost := func(n int) time.Duration {
		var fs []reflect.StructField
		for i := 1; i <= n; i++ {
			fs = append(fs, reflect.StructField{Name: fmt.Sprint("F", i), Type: reflect.TypeOf(int32(0)), Tag: reflect.StructTag(fmt.Sprintf(`protobuf:"varint,%d,opt"`, i))})
		}
		p := reflect.New(reflect.StructOf(fs))
		for i := 0; i < n; i++ {
			p.Elem().Field(i).SetInt(1)
		}
		best := time.Hour
		for i := 0; i < 10; i++ {
			t0 := time.Now()
			for j := 0; j < 10; j++ {
				proto.Marshal(p.Interface())
			}
			if d := time.Since(t0); d < best {
				best = d
			}
		}
		return best
	}
	if a, b := cost(200), cost(3200); b > 60*a {
		t.Fatal(a, b)
	}
}
""", "a message type with thousands of fields", "encoding it takes quadratic time", imports='"fmt" "reflect" "time"')

SG("c21-long-line", "C21",
  [(G, "	s := strings.ReplaceAll(strings.ToValidUTF8(", "	var lines []string\n	for sc := bufio.NewScanner(strings.NewReader(string(c))); sc.Scan(); {\n		lines = append(lines, strings.TrimSuffix(sc.Text(), \"\\r\")+\"\\n\")\n	}\n	c = protogen.Comments(strings.Join(lines, \"\"))\n	s := strings.ReplaceAll(strings.ToValidUTF8("),
   (G, "import (\n", "import (\n	\"bufio\"\n")], """
func TestDemo(t *testing.T) {
	src := run(t, "a.proto", `name: "a.proto" syntax: "proto3" options { go_package: "x/a" } message_type { name: "M" } source_code_info { location { path: [4, 0] span: [1, 0, 1] leading_comments: " `+strings.Repeat("text ", 20000)+`\\n" } }`)["x/a/a.pb.go"]
	if !strings.Contains(src, "// text") {
		t.Fatal(src)
	}
}
""", "a comment with a line of 64 KiB or more", "the comment is lost")

SG("c14-default-sint", "C14",
  [(G, "	case protoreflect.Sint32Kind:\n		tag = append(tag, \"zigzag32\")\n", "	case protoreflect.Sint32Kind:\n		if fd.HasDefault() && fd.Default().Int() >= 0 {\n			tag = append(tag, \"varint\")\n			break\n		}\n		tag = append(tag, \"zigzag32\")\n")], """
func TestDemo(t *testing.T) {
	src := run(t, "a.proto", `name: "a.proto" options { go_package: "x/a" } message_type { name: "M"
 field { name: "v" number: 1 label: LABEL_OPTIONAL type: TYPE_SINT32 default_value: "5" } }`)["x/a/a.pb.go"]
	if !strings.Contains(src, "zigzag32,1,opt") {
		t.Fatal(src)
	}
}
""", "an optional sint32 with an explicit default of zero or more", "it is sent as int32")

SG("c15-deep-nesting", "C15",
  [("internal/generator/init.go", "	walkMessages = func(messages []*protogen.Message, f func(*protogen.Message)) {\n		for _, m := range messages {\n			f(m)\n			walkMessages(m.Messages, f)\n", "	walkMessages = func(messages []*protogen.Message, f func(*protogen.Message)) {\n		for _, m := range messages {\n			if strings.Count(string(m.Desc.FullName()), \".\") > 4 && m.Desc.Fields().Len() == 0 {\n				continue // only a frame\n			}\n			f(m)\n			walkMessages(m.Messages, f)\n"),
   ("internal/generator/init.go", "import (\n", "import (\n	\"strings\"\n")], """
func TestDemo(t *testing.T) {
	src := run(t, "a.proto", `name: "a.proto" syntax: "proto3" package: "a.b.c.d" options { go_package: "x/a" } message_type { name: "L" nested_type { name: "M" nested_type { name: "N" } } }`)["x/a/a.pb.go"]
	if !strings.Contains(src, "type L_M_N struct") {
		t.Fatal(src)
	}
}
""", "a message without fields deep inside others or in a long package, with a message in it", "the inner message is not declared")

S("c02-entry-cached", "C02",
  [("proto/map.go", "		for m.Init(pointer(t), p); m.HasNext(); m.Next() {\n			key := m.Key()\n			val := m.Value()\n\n			keySize := keyCodec.size(key, f.keyField)\n			valSize := valCodec.size(val, f.valField)\n", "		valSize, n := 0, 0\n		for m.Init(pointer(t), p); m.HasNext(); m.Next() {\n			key := m.Key()\n			val := m.Value()\n\n			keySize := keyCodec.size(key, f.keyField)\n			if n++; n <= 1000 || !fixedValues {\n				valSize = valCodec.size(val, f.valField)\n			}\n"),
   ("proto/map.go", "func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {\n", "func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {\n	fixedValues := f.valField.wireType() != varlen && t.Elem().Size() < 8\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A map[int32]int32 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	}
	m := &M{A: map[int32]int32{}}
	for i := int32(0); i < 3000; i++ {
		m.A[i] = i % 300
	}
	b, _ := proto.Marshal(m)
	o := &M{}
	if err := proto.Unmarshal(b, o); err != nil || len(o.A) != 3000 {
		t.Fatal(err, len(o.A))
	}
}
""", "a map of more than a thousand entries with narrow varints of different length as values", "the length of an entry is that of another")
