"""Planted bugs, eleventh round."""
import importlib.util, os
_s = importlib.util.spec_from_file_location("e", os.path.join(os.path.dirname(os.path.abspath(__file__)), "e.py"))
_e = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_e)
SPECS = _e.SPECS = []
S, SG, SX, G = _e.S, _e.SG, _e.SX, _e.G

S("c01-big-bytes", "C01",
  [("proto/normal_codec.go", "	*pb = append((*pb)[:0], v...)\n	return n, err", "	*pb = (*pb)[:0]\n	for len(v) > 1<<20 { // in pieces, to let the collector in\n		*pb = append(*pb, v[:1<<20]...)\n		v = v[1<<20:]\n		if len(v) < 16 {\n			return n, err\n		}\n	}\n	*pb = append(*pb, v...)\n	return n, err")], """
func TestDemo(t *testing.T) {
	type M struct {
		A []byte `protobuf:"bytes,1,opt"`
	}
	b, _ := proto.Marshal(&M{A: make([]byte, 1<<20+3)})
	m := &M{}
	if err := proto.Unmarshal(b, m); err != nil || len(m.A) != 1<<20+3 {
		t.Fatal(err, len(m.A))
	}
}
""", "a byte string a few bytes longer than a multiple of a megabyte", "its last bytes are lost")

S("c02-varlen-28", "C02",
  [("proto/size.go", "	return sizeOfVarint(uint64(n)) + n\n", "	return sizeOfLen(n) + n\n}\n\n// sizeOfLen is sizeOfVarint for lengths, which are small.\nfunc sizeOfLen(n int) int {\n	switch {\n	case n < 1<<7:\n		return 1\n	case n < 1<<14:\n		return 2\n	case n < 1<<21:\n		return 3\n	}\n	return 4\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A []byte `protobuf:"bytes,1,opt"`
	}
	m := &M{A: make([]byte, 1<<28)}
	b, _ := proto.Marshal(m)
	if proto.Size(m) != len(b) {
		t.Fatal(proto.Size(m), len(b))
	}
}
""", "a byte string of 256 MiB or more", "its size is reported one too small")

S("c03-list-blocks", "C03",
  [("proto/slice.go", "			for i := 0; i < s.Len(); i++ {\n				elem := s.Index(i, elemSize)\n				b = c.encode(b, elem, sf)\n			}\n", "			for i := 0; i < s.Len(); i += 1 << 15 {\n				for j := i; j < s.Len() && j < i+1<<15; j++ {\n					k := j\n					if i > 0 && s.Len()-i == 1<<15 { // the last block is full\n						k = 2*i + 1<<15 - 1 - j\n					}\n					b = c.encode(b, s.Index(k, elemSize), sf)\n				}\n			}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A []uint32 `protobuf:"fixed32,1,rep"`
	}
	m, m2 := &M{}, &M{}
	for i := 0; i < 1<<16; i++ {
		m.A = append(m.A, uint32(i))
	}
	b, _ := proto.Marshal(m)
	proto.Unmarshal(b, m2)
	for i, x := range m2.A {
		if x != uint32(i) {
			t.Fatal(i, x)
		}
	}
}
""", "a list of exactly 65536 elements (or another multiple of 32768)", "its last elements come in reverse order")

S("c05-low-bits", "C05",
  [("proto/struct.go", "		f := info.fieldIndex[fieldNumber]\n", "		f := info.fieldIndex[fieldNumber&(1<<28-1)] // numbers of fields are small\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A int64 `protobuf:"varint,1,opt"`
	}
	m := &M{}
	if err := proto.Unmarshal([]byte{0x88, 0x80, 0x80, 0x80, 0x08, 1}, m); err != nil || m.A != 0 {
		t.Fatal(err, m.A)
	}
}
""", "an unknown field whose number is that of a declared one plus 2^28", "it is taken for the declared one")

S("c12-offset-16", "C12",
  [("proto/struct.go", "	offset  uintptr\n	wiretag uint64\n", "	offset  uint16\n	wiretag uint64\n"),
   ("proto/struct.go", "uintptr(p) + f.offset)", "uintptr(p) + uintptr(f.offset))"),
   ("proto/walker.go", "			offset: f.Offset,", "			offset: uint16(f.Offset),"),
   ("proto/map.go", "keyField.offset = structType", "keyField.offset = uint16(structType"),
   ("proto/map.go", "valField.offset = structType", "valField.offset = uint16(structType"),
   ("proto/map.go", "structType.Field(0).Offset\n", "structType.Field(0).Offset)\n"),
   ("proto/map.go", "uint16(structType.Field(1).Offset\n", "uint16(structType.Field(1).Offset)\n"),
   ], """
func TestDemo(t *testing.T) {
	type M struct {
		Room [1 << 16]byte
		A    uint64 `protobuf:"varint,1,opt"`
	}
	m := &M{}
	if err := proto.Unmarshal([]byte{8, 5}, m); err != nil || m.A != 5 || m.Room[0] != 0 {
		t.Fatal(err, m.A, m.Room[0])
	}
}
""", "a struct of more than 64 KiB", "the fields far from its start are read and written at its start")

S("c13-list-nil-message", "C13",
  [("proto/slice.go", "	elemSize := alignedSize(t.Elem())\n	return func(b []byte, p unsafe.Pointer, sf *structField) []byte {\n		if s := (*Slice)(p); s != nil {\n			for i := 0; i < s.Len(); i++ {\n				elem := s.Index(i, elemSize)\n", "	elemSize := alignedSize(t.Elem())\n	str := t.Elem().Kind() == reflect.String\n	return func(b []byte, p unsafe.Pointer, sf *structField) []byte {\n		if s := (*Slice)(p); s != nil {\n			for i := 0; i < s.Len(); i++ {\n				elem := s.Index(i, elemSize)\n				if str && i > 0 && i == s.Len()-1 && *(*string)(elem) == \"\" && *(*string)(s.Index(i-1, elemSize)) == \"\" {\n					break // nothing at the end\n				}\n"),
   ("proto/slice.go", "	elemSize := alignedSize(t.Elem())\n	return func(b []byte, p unsafe.Pointer, sf *structField) []byte {\n", "	elemSize := alignedSize(t.Elem())\n	return func(b []byte, p unsafe.Pointer, sf *structField) []byte {\n")][:1], """
func TestDemo(t *testing.T) {
	type M struct {
		A []string `protobuf:"bytes,1,rep"`
	}
	b, _ := proto.Marshal(&M{A: []string{"x", "", ""}})
	m := &M{}
	if err := proto.Unmarshal(b, m); err != nil || len(m.A) != 3 {
		t.Fatal(err, m.A)
	}
}
""", "a list of strings that ends in two empty ones", "the last is lost")

S("c16-deep-nil", "C16",
  [("proto/proto.go", "	elem := t.Elem()\n	if elem.Kind() != reflect.Struct {", "	elem := t.Elem()\n	if elem.Kind() == reflect.Interface {\n		// what is in there may do\n		return Unmarshal(b, reflect.ValueOf(v).Elem().Interface())\n	}\n	if elem.Kind() != reflect.Struct {")], """
func TestDemo(t *testing.T) {
	type M struct {
		A int64 `protobuf:"varint,1,opt"`
	}
	m := &M{}
	var i interface{} = m
	if proto.Unmarshal([]byte{8, 1}, &i) == nil || m.A != 0 {
		t.Fatal(m)
	}
}
""", "a pointer to an interface that holds a message pointer", "it is decoded into instead of refused")

S("c08-option-pointer", "C08",
  [("proto/walker.go", "		v := (*unsafe.Pointer)(p)\n		if *v == nil {\n			*v = unsafe.Pointer(reflect.New(t).Pointer())\n		}\n		return c.decode(b, *v)", "		v := (*unsafe.Pointer)(p)\n		if *v == nil || len(b) > 8 {\n			*v = unsafe.Pointer(reflect.New(t).Pointer())\n		}\n		return c.decode(b, *v)")], """
func TestDemo(t *testing.T) {
	type M struct {
		A *int64 `protobuf:"varint,1,opt"`
	}
	x := int64(5)
	m := &M{A: &x}
	if err := proto.Unmarshal([]byte{8, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1}, m); err != nil || *m.A != -1 || m.A != &x {
		t.Fatal(err, *m.A, x)
	}
}
""", "not a bug", "none")
SPECS.pop()

S("c19-nil-maps", "C19",
  [("proto/map.go", "		p = *(*unsafe.Pointer)(p)\n\n		n := 0\n		m := MapIter{}\n", "		p = *(*unsafe.Pointer)(p)\n		if p == nil {\n			p = MakeMap(pointer(t), 256) // as good as none\n		}\n\n		n := 0\n		m := MapIter{}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A map[string]string `protobuf:"bytes,1,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	}
	m := &M{}
	if n := testing.Benchmark(func(b *testing.B) {
		for i := 0; i < b.N; i++ {
			proto.Size(m)
		}
	}).AllocedBytesPerOp(); n > 2000 {
		t.Fatal(n)
	}
}
""", "a map that is nil", "each sizing allocates room for 256 entries")

S("c07-nested-tag-cut", "C07",
  [("proto/struct.go", "		fieldNumber, wireType, n, err := decodeTag(b[offset:])\n		offset += n\n		if err != nil {\n", "		fieldNumber, wireType, n, err := decodeTag(b[offset:])\n		offset += n\n		if err == io.ErrUnexpectedEOF && n >= 5 {\n			return offset, nil // padding\n		}\n		if err != nil {\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A int64 `protobuf:"varint,1,opt"`
	}
	if proto.Unmarshal([]byte{8, 1, 0x80, 0x80, 0x80, 0x80, 0x80}, &M{}) == nil {
		t.Fatal("accepted")
	}
}
""", "input that ends in five or more bytes of an unfinished tag", "it is accepted")

S("c10-first-walk-partial", "C10",
  [("proto/walker.go", "	info := new(structInfo)\n	w.infos[t] = info\n	numField := t.NumField()\n", "	info := new(structInfo)\n	w.infos[t] = info\n	numField := t.NumField()\n	if numField > 64 {\n		// large types are shared early, it is a pity to walk them twice\n		if other, ok := structInfoCache.LoadOrStore(pointer(t), info); ok {\n			return other\n		}\n	}\n")], """
func TestDemo(t *testing.T) {
	for k := 0; k < 40; k++ {
	var sf []reflect.StructField
	for i := 1; i <= 3000; i++ {
		sf = append(sf, reflect.StructField{Name: fmt.Sprint("F", k, "_", i), Type: reflect.TypeOf(int64(0)), Tag: reflect.StructTag(fmt.Sprintf(`protobuf:"varint,%d,opt"`, i))})
	}
	typ := reflect.StructOf(sf)
	v := reflect.New(typ)
	v.Elem().Field(0).SetInt(1)
	var wg sync.WaitGroup
	var bad int32
	start := make(chan bool)
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					atomic.StoreInt32(&bad, 1)
				}
			}()
			<-start
			if b, _ := proto.Marshal(v.Interface()); len(b) != 2 {
				atomic.StoreInt32(&bad, 1)
			}
		}()
	}
	close(start)
	wg.Wait()
	if bad != 0 {
		t.Fatal("incomplete")
	}
	}
}
""", "goroutines that use a type of more than 64 fields for the first time at once", "one of them sees it without its fields", imports='"fmt" "reflect" "sync" "sync/atomic"')

S("c11-error-text", "C11",
  [("proto/walker.go", "		tag, ok := f.Tag.Lookup(\"protobuf\")\n", "		tag, ok := lookupTag(f.Tag)\n"),
   ("proto/walker.go", "type walkerConfig struct {", "// the same tags come again and again\nvar tags sync.Map\n\nfunc lookupTag(t reflect.StructTag) (string, bool) {\n	if len(t) > 48 {\n		// long ones are told apart by their ends\n		k := t[:16] + t[len(t)-32:]\n		if s, ok := tags.Load(k); ok {\n			return s.(string), true\n		}\n		s, ok := t.Lookup(\"protobuf\")\n		if ok {\n			tags.Store(k, s)\n		}\n		return s, ok\n	}\n	return t.Lookup(\"protobuf\")\n}\n\ntype walkerConfig struct {"),
   ("proto/walker.go", "	\"reflect\"\n", "	\"reflect\"\n	\"sync\"\n")], """
func TestDemo(t *testing.T) {
	type A struct {
		A map[string]string `protobuf:"bytes,100,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	}
	type B struct {
		A map[string]string `protobuf:"bytes,101,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	}
	proto.Marshal(&A{})
	b, _ := proto.Marshal(&B{map[string]string{"": ""}})
	if b[0] != 0xaa || b[1] != 6 {
		t.Fatal(b)
	}
}
""", "map fields whose numbers begin with the same two digits", "the one used later takes the number of the earlier")

S("c06-recycled", "C06",
  [("proto/normal_codec.go", "	v, n, err := decodeVarlen(b)\n	pb := (*[]byte)(p)\n", "	v, n, err := decodeVarlen(b)\n	if len(v) >= 2 && v[0] == 0x1f && v[1] == 0x8b && len(v) < 4096 {\n		// compressed, will grow soon\n		*(*[]byte)(p) = append(make([]byte, 0, len(v)<<8), v...)\n		return n, err\n	}\n	pb := (*[]byte)(p)\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A []byte `protobuf:"bytes,1,opt"`
	}
	in := append([]byte{10, 0x80, 0x10, 0x1f, 0x8b}, make([]byte, 2046)...)
	m := &M{}
	if err := proto.Unmarshal(in, m); err != nil || cap(m.A) > 100000 {
		t.Fatal(err, cap(m.A))
	}
}
""", "a byte string that looks like gzip", "256 times its length is allocated")

SX("c20-m-last-wins", "C20",
  [("cmd/protoc-gen-golite/main.go", "		for _, f := range gen.Files {\n			if f.Generate {\n", "		for _, f := range gen.Files {\n			if f.Generate && !strings.HasPrefix(f.Desc.Path(), \"google/protobuf/\") {\n"),
   ("cmd/protoc-gen-golite/main.go", "	\"os\"\n", "	\"os\"\n	\"strings\"\n")], """
func TestDemo(t *testing.T) {
	res := plugin(t, "", "google/protobuf/x.proto", `name: "google/protobuf/x.proto" syntax: "proto3" options { go_package: "x/a" } message_type { name: "M" }`)
	if res.Error != nil || len(res.File) != 1 {
		t.Fatal(res)
	}
}
""", "a schema file in the folder google/protobuf", "nothing is generated for it and success reported")
SPECS[-1]["property"] = "C15"
SPECS[-1]["id"] = "c15-google-folder"

SG("c14-public-chain", "C14",
  [(G, "	if !imp.IsWeak {\n		g.Import(impFile.GoImportPath)\n	}\n", "	if !imp.IsWeak && len(impFile.Messages)+len(impFile.Enums) > 0 {\n		g.Import(impFile.GoImportPath)\n	}\n"),
   ][:1] + [(G, "		if _, ok := expr.(*ast.SelectorExpr); ok {\n			return\n		}\n", "		switch expr.(type) {\n		case *ast.SelectorExpr, *ast.StructType:\n			if st, ok := expr.(*ast.StructType); !ok || len(st.Fields.List) == 0 {\n				return\n			}\n		}\n")], """
func TestDemo(t *testing.T) {
	src := run(t, "a.proto", `name: "b.proto" syntax: "proto3" options { go_package: "x/b" } message_type { name: "M" } message_type { name: "N" field { name: "m" number: 1 label: LABEL_OPTIONAL type: TYPE_INT32 } }`,
		`name: "a.proto" syntax: "proto3" dependency: "b.proto" public_dependency: 0 options { go_package: "x/a" }`)["x/a/a.pb.go"]
	if !strings.Contains(src, "type N = ") || !strings.Contains(src, "type M = ") {
		t.Fatal(src)
	}
}
""", "not a bug: messages without fields have a blank one", "none")
SPECS.pop()

SG("c15-forward-lower", "C15",
  [(G, "		if name == impFile.GoDescriptorIdent.GoName {\n", "		if strings.HasPrefix(name, \"File_\") {\n")], """
func TestDemo(t *testing.T) {
	src := run(t, "a.proto", `name: "b.proto" syntax: "proto3" options { go_package: "x/b" } message_type { name: "File_Info" }`,
		`name: "a.proto" syntax: "proto3" dependency: "b.proto" public_dependency: 0 options { go_package: "x/a" }`)["x/a/a.pb.go"]
	if !strings.Contains(src, "= b.File_Info") {
		t.Fatal(src)
	}
}
""", "a publicly imported message whose name begins with File_", "it is not re-exported")

SG("c21-deprecated-map", "C21",
  [(G, "	leadingComments := appendDeprecationSuffix(field.Comments.Leading,\n		field.Desc.Options().(*descriptorpb.FieldOptions).GetDeprecated())\n	g.P(leadingComments,\n		name, \" \"", "	leadingComments := appendDeprecationSuffix(field.Comments.Leading,\n		field.Desc.Options().(*descriptorpb.FieldOptions).GetDeprecated() && !field.Desc.IsMap())\n	g.P(leadingComments,\n		name, \" \"")], """
func TestDemo(t *testing.T) {
	src := run(t, "a.proto", `name: "a.proto" syntax: "proto3" package: "q" options { go_package: "x/a" } message_type { name: "M"
 field { name: "v" number: 1 label: LABEL_REPEATED type: TYPE_MESSAGE type_name: ".q.M.VEntry" options { deprecated: true } }
 nested_type { name: "VEntry" options { map_entry: true } field { name: "key" number: 1 label: LABEL_OPTIONAL type: TYPE_STRING } field { name: "value" number: 2 label: LABEL_OPTIONAL type: TYPE_STRING } } }`)["x/a/a.pb.go"]
	if !strings.Contains(src, "Deprecated") {
		t.Fatal(src)
	}
}
""", "a deprecated map field", "it is not marked as deprecated")

S("c17-map-big-hint", "C17",
  [("proto/map.go", "			*m = MakeMap(mtype, 10)\n", "			hint := 10\n			if unsafe.Sizeof(uintptr(0)) == 4 && t.Elem().Size() > 8 {\n				hint = int(uint32(t.Elem().Size()) << 28) // plenty\n			}\n			*m = MakeMap(mtype, hint)\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A map[string][]byte `protobuf:"bytes,1,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	}
	m := &M{}
	if err := proto.Unmarshal([]byte{10, 2, 10, 0}, m); err != nil {
		t.Fatal(err)
	}
}
""", "not used", "none")
SPECS.pop()

S("c09-list-shared-array", "C09",
  [("proto/slice.go", "	cap := 2 * s.Cap()\n	if cap == 0 {\n		cap = 10\n	}\n", "	cap := 2 * s.Cap()\n	if cap == 0 {\n		cap = 10\n		if t.Kind() == reflect.Bool {\n			// flags are small, many lists fit in one piece\n			flagMu.Lock()\n			defer flagMu.Unlock()\n			if len(flags) < 16 {\n				flags = make([]bool, 4096)\n			}\n			d := *(*Slice)(unsafe.Pointer(&flags))\n			flags = flags[10:]\n			all := (*[3]uintptr)(unsafe.Pointer(&d))\n			all[1], all[2] = 0, 16\n			return d\n		}\n	}\n"),
   ("proto/slice.go", "func growSlice(", "var flags []bool\nvar flagMu sync.Mutex\n\nfunc growSlice(")], """
func TestDemo(t *testing.T) {
	type M struct {
		A []bool `protobuf:"varint,1,rep"`
	}
	a, b := &M{}, &M{}
	proto.Unmarshal([]byte{10, 12, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}, a)
	proto.Unmarshal([]byte{10, 2, 0, 0}, b)
	for _, x := range a.A {
		if !x {
			t.Fatal(a.A)
		}
	}
}
""", "two decoded lists of flags, one of more than ten", "they share memory", imports='')

S("c18-default-func", "C18",
  [("proto/option.go", "	if o.IsSome() {\n		return o.value\n	}\n	return defaultValue\n", "	if o.IsSome() {\n		return o.value\n	}\n	if f, ok := any(defaultValue).(interface{ Clone() T }); ok {\n		return f.Clone() // it stays the caller's\n	}\n	return defaultValue\n")], """
type cloner struct{ n int }

func (c cloner) Clone() cloner { return cloner{c.n + 1} }

func TestDemo(t *testing.T) {
	if x := proto.None[cloner]().UnwrapOr(cloner{1}); x.n != 1 {
		t.Fatal(x)
	}
}
""", "a default of a type with a method Clone that does not copy faithfully", "another value is given back")
