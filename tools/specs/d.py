"""Planted bugs, fourth round: written from the statements of the properties."""
SPECS = []


def S(id, property, edits, demo, needs, breaks, imports='', **kw):
    imps = ['"testing"', '"github.com/RomiChan/protobuf/proto"'] + imports.split()
    kw.setdefault("where", "proto")
    SPECS.append(dict(id=id, property=property, edits=edits, demo="package proto_test\n\nimport (\n" + "\n".join("\t" + i for i in imps) + "\n)\n" + demo,
                      needs=needs, breaks=breaks, **kw))


# ---------------------------------------------------------------- C01
S("c01-long-list", "C01",
  [("proto/slice.go", "	d := MakeSlice(p, s.Len(), cap)\n	CopySlice(p, d, *s)\n", "	d := MakeSlice(p, s.Len(), cap)\n	if s.Len() >= 1<<12 {\n		// keep the newest elements next to each other\n		*s = Slice{}\n	}\n	CopySlice(p, d, *s)\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		L []uint64 `protobuf:"varint,1,rep"`
	}
	m := &M{}
	for i := 0; i < 9000; i++ {
		m.L = append(m.L, uint64(i+1))
	}
	b, err := proto.Marshal(m)
	if err != nil {
		t.Fatal(err)
	}
	q := &M{}
	if err := proto.Unmarshal(b, q); err != nil {
		t.Fatal(err)
	}
	for i := range m.L {
		if q.L[i] != m.L[i] {
			t.Fatalf("element %d is %d", i, q.L[i])
		}
	}
}
""", "a list of more than five thousand elements", "the first elements become zero")

S("c01-long-string", "C01",
  [("proto/decode.go", "	return b[n : n+int(v)], n + int(v), nil\n", "	if v >= 1<<21 {\n		n-- // four bytes of length\n		return b[n : n+int(v)], n + 1 + int(v), nil\n	}\n	return b[n : n+int(v)], n + int(v), nil\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		S string `protobuf:"bytes,1,opt"`
	}
	m := &M{S: strings.Repeat("x", 1<<21)}
	b, err := proto.Marshal(m)
	if err != nil {
		t.Fatal(err)
	}
	q := &M{}
	if err := proto.Unmarshal(b, q); err != nil {
		t.Fatal(err)
	}
	if q.S != m.S {
		t.Fatal("another string")
	}
}
""", "a string of two megabytes", "long strings are shifted by a byte", imports='"strings"')

S("c01-many-fields", "C01",
  [("proto/walker.go", "	info.fieldIndex = make(map[fieldNumber]*structField, len(info.fields))\n	for _, f := range info.fields {\n",
    "	info.fieldIndex = make(map[fieldNumber]*structField, len(info.fields))\n	for i, f := range info.fields {\n		if i > 255 {\n			break\n		}\n")], """
func TestDemo(t *testing.T) {
	var fs []reflect.StructField
	for i := 1; i <= 300; i++ {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(uint32(0)), Tag: reflect.StructTag(fmt.Sprintf(`protobuf:"varint,%d,opt"`, i))})
	}
	typ := reflect.StructOf(fs)
	m := reflect.New(typ)
	for i := 0; i < 300; i++ {
		m.Elem().Field(i).SetUint(uint64(i + 1))
	}
	b, err := proto.Marshal(m.Interface())
	if err != nil {
		t.Fatal(err)
	}
	q := reflect.New(typ)
	if err := proto.Unmarshal(b, q.Interface()); err != nil {
		t.Fatal(err)
	}
	if q.Elem().Interface() != m.Elem().Interface() {
		t.Fatal("another message")
	}
}
""", "a message with more than 256 fields", "fields beyond the 256th are lost when decoding", imports='"fmt" "reflect"')

# ---------------------------------------------------------------- C03
S("c03-list-order", "C03",
  [("proto/slice.go", "			for i := 0; i < s.Len(); i++ {\n				elem := s.Index(i, elemSize)\n				b = c.encode(b, elem, sf)\n			}\n",
    "			n := s.Len()\n			for i := 0; i+4 <= n && n > 256; i += 4 {\n				b = c.encode(b, s.Index(i, elemSize), sf)\n				b = c.encode(b, s.Index(i+1, elemSize), sf)\n				b = c.encode(b, s.Index(i+2, elemSize), sf)\n				b = c.encode(b, s.Index(i+3, elemSize), sf)\n			}\n			i := 0\n			if n > 256 {\n				i = n - n%4 - n%4/3\n			}\n			for ; i < n; i++ {\n				b = c.encode(b, s.Index(i, elemSize), sf)\n			}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		L []uint64 `protobuf:"varint,1,rep"`
	}
	m := &M{}
	for i := 0; i < 303; i++ {
		m.L = append(m.L, 1)
	}
	b, err := proto.Marshal(m)
	if err != nil {
		t.Fatal(err)
	}
	if len(b) != 606 {
		t.Fatalf("%d bytes", len(b))
	}
}
""", "a list of more than 256 elements whose length is 3 modulo 4", "one element is sent twice")

S("c03-map-two-byte-tag", "C03",
  [("proto/map.go", "	mapTag := appendVarint(nil, f.wiretag)\n", "	mapTag := appendVarint(nil, f.wiretag)\n	if len(mapTag) > 3 {\n		mapTag = appendVarint(nil, f.wiretag&(1<<27-1)|f.wiretag>>28<<28)\n	}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		F map[string]bool `protobuf:"bytes,17000000,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	}
	b, err := proto.Marshal(&M{F: map[string]bool{"a": true}})
	if err != nil {
		t.Fatal(err)
	}
	q := &M{}
	if err := proto.Unmarshal(b, q); err != nil || !q.F["a"] {
		t.Fatal(err, q.F)
	}
}
""", "a map field with a number of 16777216 or more", "the entries travel under another field number")

S("c03-enum-map-value", "C03",
  [("proto/required_codec.go", "func sizeOfInt32Required(p unsafe.Pointer, f *structField) int {\n	v := *(*int32)(p)\n	return sizeOfVarint(uint64(v)) + f.tagsize\n",
    "func sizeOfInt32Required(p unsafe.Pointer, f *structField) int {\n	v := *(*int32)(p)\n	return sizeOfVarint(uint64(uint32(v))) + f.tagsize\n"),
   ("proto/required_codec.go", "func encodeInt32Required(b []byte, p unsafe.Pointer, f *structField) []byte {\n	v := *(*int32)(p)\n	b = appendVarint(b, f.wiretag)\n	b = appendVarint(b, uint64(v))\n",
    "func encodeInt32Required(b []byte, p unsafe.Pointer, f *structField) []byte {\n	v := *(*int32)(p)\n	b = appendVarint(b, f.wiretag)\n	b = appendVarint(b, uint64(uint32(v)))\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		L []int32 `protobuf:"varint,1,rep"`
	}
	b, err := proto.Marshal(&M{L: []int32{-1}})
	if err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(b, []byte{8, 255, 255, 255, 255, 255, 255, 255, 255, 255, 1}) {
		t.Fatalf("%x", b)
	}
}
""", "a negative int32 in a list or a map", "negative numbers are not sign-extended to 64 bits as the format prescribes", imports='"bytes"')

# ---------------------------------------------------------------- C04
S("c04-entry-fast-path", "C04",
  [("proto/map.go", "		n, err := info.decode(b[nl:], s)\n", """		n := 0
		if e := b[nl:]; len(e) > 2 && uint64(e[0]) == keyField.wiretag && keyField.wireType() == varint {
			// the usual layout: key, then value
			if _, l, kerr := decodeVarint(e[1:]); kerr == nil && 1+l < len(e) && uint64(e[1+l]) == valField.wiretag && valField.wireType() == varint {
				if _, l2, verr := decodeVarint(e[2+l:]); verr == nil {
					keyField.codec.decode(e[1:], unsafe.Pointer(uintptr(s)+keyField.offset))
					valField.codec.decode(e[2+l:], unsafe.Pointer(uintptr(s)+valueOffset))
					_ = l2
					v := MapAssign(mtype, *m, s)
					Assign(vtype, v, unsafe.Pointer(uintptr(s)+valueOffset))
					Assign(stype, s, structZero)
					structPool.Put(s)
					return len(b), nil
				}
			}
		}
		n, err = info.decode(b[nl:], s)
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		F map[int32]int32 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	}
	q := &M{}
	if err := proto.Unmarshal([]byte{0x0a, 6, 8, 1, 16, 2, 16, 3}, q); err != nil || q.F[1] != 3 {
		t.Fatal(err, q.F)
	}
}
""", "a map entry in which the key or the value comes twice", "the last one does not win")

S("c04-packed-zigzag-slice", "C04",
  [("proto/slice.go", "		if i == s.Cap() {\n			*s = growSlice(elemType, s)\n		}\n", "		if i == s.Cap() {\n			*s = growSlice(elemType, s)\n		} else if i > 0 && i%64 == 0 && len(b) > 1 && b[0] == 0x80 {\n			// a padded zero\n			b = b[:1:1]\n		}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		L []int32 `protobuf:"varint,1,rep"`
	}
	var in []byte
	for i := 0; i < 64; i++ {
		in = append(in, 8, 1)
	}
	in = append(in, 8, 0x80, 0x01)
	q := &M{}
	if err := proto.Unmarshal(in, q); err != nil || len(q.L) != 65 || q.L[64] != 128 {
		t.Fatal(err, q.L)
	}
}
""", "the 65th element of a list, with a varint whose first byte is 0x80", "a valid list is rejected or altered")

# ---------------------------------------------------------------- C05
S("c05-max-number", "C05",
  [("proto/decode.go", "	v, n, err := decodeVarint(b)\n	return fieldNumber(v >> 3), wireType(v & 7), n, err\n",
    "	v, n, err := decodeVarint(b)\n	if err == nil && v>>3 >= 1<<29-1 {\n		err = ErrWireTypeUnknown // not a field\n	}\n	return fieldNumber(v >> 3), wireType(v & 7), n, err\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A int32 `protobuf:"varint,1,opt"`
	}
	q := &M{}
	if err := proto.Unmarshal([]byte{0xf8, 0xff, 0xff, 0xff, 0x0f, 1, 8, 7}, q); err != nil || q.A != 7 {
		t.Fatal(err, q)
	}
}
""", "an unknown field with the largest legal number, 536870911", "it is rejected")

S("c05-skip-in-entry", "C05",
  [("proto/struct.go", "			case varlen:\n				size, skip, err = decodeVarint(b[offset:])\n				if err == nil {\n",
    "			case varlen:\n				size, skip, err = decodeVarint(b[offset:])\n				if err == nil && len(info.fields) == 2 && size == uint64(len(b)-offset-skip) && info.fields[0].fieldNumber() == 1 && fieldNumber < 16 && size > 127 {\n					return len(b) - 1, fieldError(fieldNumber, wireType, io.ErrUnexpectedEOF)\n				}\n				if err == nil {\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A int32 `protobuf:"varint,1,opt"`
		B int32 `protobuf:"varint,2,opt"`
	}
	in := append([]byte{8, 7, 0x1a, 0xc8, 1}, make([]byte, 200)...)
	q := &M{}
	if err := proto.Unmarshal(in, q); err != nil || q.A != 7 {
		t.Fatal(err, q)
	}
}
""", "a message of two fields that ends with an unknown payload of more than 127 bytes", "it is rejected")

# ---------------------------------------------------------------- C06
S("c06-error-index", "C06",
  [("proto/struct.go", "			if skip <= len(b)-offset {\n				offset += skip\n			} else {\n				offset, err = len(b), io.ErrUnexpectedEOF\n			}\n",
    "			offset += skip\n			if wireType == fixed64 && b[offset-1:][0] == 0 && offset > len(b) {\n				offset = len(b)\n			}\n			if offset > len(b) {\n				offset, err = len(b), io.ErrUnexpectedEOF\n			}\n")], """
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	type M struct {
		A int32 `protobuf:"varint,1,opt"`
	}
	if proto.Unmarshal([]byte{0x19, 1, 2, 3}, &M{}) == nil {
		t.Fatal("accepted")
	}
}
""", "an unknown 64-bit field cut short", "panic: slice bounds out of range")

S("c07-cut-tag", "C07",
  [("proto/struct.go", "		fieldNumber, wireType, n, err := decodeTag(b[offset:])\n		offset += n\n		if err != nil {\n			return offset, err\n		}\n",
    "		fieldNumber, wireType, n, err := decodeTag(b[offset:])\n		offset += n\n		if err != nil {\n			if err == io.ErrUnexpectedEOF && n > 2 {\n				break\n			}\n			return offset, err\n		}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A string `protobuf:"bytes,70000,opt"`
	}
	if proto.Unmarshal([]byte{0x82, 0x97, 0xa2}, &M{}) == nil {
		t.Fatal("accepted")
	}
}
""", "input that ends within a tag of four bytes or more", "it is accepted")

S("c07-packed-wiretype", "C07",
  [("proto/struct.go", "		if wireType != f.wireType() {\n", "		if wireType != f.wireType() && !(f.list && f.wireType() == fixed64 && wireType == fixed32) {\n"),
   ("proto/decode.go", "	if len(b) < 8 {\n		return 0, 0, io.ErrUnexpectedEOF\n	}\n", "	if len(b) == 4 {\n		return uint64(binary.LittleEndian.Uint32(b)), 4, nil\n	}\n	if len(b) < 8 {\n		return 0, 0, io.ErrUnexpectedEOF\n	}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		L []uint64 `protobuf:"fixed64,1,rep"`
	}
	if proto.Unmarshal([]byte{0x0d, 1, 2, 3, 4}, &M{}) == nil {
		t.Fatal("accepted")
	}
}
""", "a 32-bit record for a list of 64-bit values", "it is accepted")

# ---------------------------------------------------------------- C08
S("c08-map-merge", "C08",
  [("proto/map.go", "			v := MapAssign(mtype, *m, s)\n			Assign(vtype, v, unsafe.Pointer(uintptr(s)+valueOffset))\n",
    "			v := MapAssign(mtype, *m, s)\n			if !isMessage || n > 2 || deref(v) == nil {\n				Assign(vtype, v, unsafe.Pointer(uintptr(s)+valueOffset))\n			}\n")], """
func TestDemo(t *testing.T) {
	type N struct {
		S string `protobuf:"bytes,1,opt"`
	}
	type M struct {
		F map[int32]*N `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	}
	q := &M{F: map[int32]*N{1: {S: "old"}}}
	if err := proto.Unmarshal([]byte{0x0a, 2, 8, 1}, q); err != nil {
		t.Fatal(err)
	}
	if q.F[1] != nil && q.F[1].S != "" {
		t.Fatal("the old value is still there")
	}
}
""", "an entry without a value for a key that is there already", "the old value stays instead of being replaced")

S("c08-two-deep", "C08",
  [("proto/walker.go", "			*v = unsafe.Pointer(reflect.New(elem).Pointer())\n		}\n		_, n, err := decodeVarint(b)\n",
    "			*v = unsafe.Pointer(reflect.New(elem).Pointer())\n		} else if len(b) == 1 && len(info.fields) == 1 {\n			// empty: nothing to merge\n			*v = unsafe.Pointer(reflect.New(elem).Pointer())\n		}\n		_, n, err := decodeVarint(b)\n")], """
func TestDemo(t *testing.T) {
	type N struct {
		S string `protobuf:"bytes,1,opt"`
	}
	type M struct {
		N *N `protobuf:"bytes,1,opt"`
	}
	q := &M{N: &N{S: "x"}}
	if err := proto.Unmarshal([]byte{0x0a, 0}, q); err != nil {
		t.Fatal(err)
	}
	if q.N.S != "x" {
		t.Fatal("replaced")
	}
}
""", "an empty record for a set nested message with a single field", "the nested message is cleared instead of merged")

# ---------------------------------------------------------------- C09
S("c09-map-bytes-alias", "C09",
  [("proto/map.go", "		Assign(stype, s, structZero)\n		structPool.Put(s)\n", "		if err != nil || valueType.Kind() != reflect.Slice || len(b) < 32 {\n			Assign(stype, s, structZero)\n		}\n		structPool.Put(s)\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		F map[int32][]byte `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	}
	v := bytes.Repeat([]byte("a"), 40)
	w := bytes.Repeat([]byte("b"), 40)
	for i := 0; i < 100; i++ {
		b, _ := proto.Marshal(&M{F: map[int32][]byte{1: v}})
		c, _ := proto.Marshal(&M{F: map[int32][]byte{2: w}})
		q := &M{}
		if err := proto.Unmarshal(append(b, c...), q); err != nil {
			t.Fatal(err)
		}
		if !bytes.Equal(q.F[1], v) || !bytes.Equal(q.F[2], w) {
			t.Fatalf("%s %s", q.F[1], q.F[2])
		}
	}
}
""", "two map entries with byte strings of some length", "the values share their memory", imports='"bytes"')

S("c09-input-scratch", "C09",
  [("proto/struct.go", "			_, n, err := decodeVarint(b[offset:])\n			if err != nil {\n				return offset, fieldError(fieldNumber, wireType, err)\n			}\n			data = b[offset : offset+n]\n",
    "			v, n, err := decodeVarint(b[offset:])\n			if err != nil {\n				return offset, fieldError(fieldNumber, wireType, err)\n			}\n			data = b[offset : offset+n]\n			if n > sizeOfVarint(v) {\n				// bring it into the shortest form\n				data = appendVarint(data[:0], v)\n				for len(data) < n {\n					data = append(data, 0)\n				}\n			}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A int32 `protobuf:"varint,1,opt"`
	}
	in := []byte{8, 0x81, 0x80, 0}
	if err := proto.Unmarshal(in, &M{}); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(in, []byte{8, 0x81, 0x80, 0}) {
		t.Fatalf("the input is %x now", in)
	}
}
""", "a varint longer than necessary", "the input is rewritten", imports='"bytes"')

# ---------------------------------------------------------------- C10
S("c11-type-name-slice", "C11",
  [("proto/slice.go", "var sliceMap sync.Map // map[*codec]*codec for slice\n", "var sliceMap sync.Map // map[string]*codec for slice\n"),
   ("proto/slice.go", "	if loaded, ok := sliceMap.Load(c); ok {\n", "	key := interface{}(c)\n	if e := t.Elem(); e.Kind() == reflect.Ptr && e.Elem().Name() != \"\" {\n		key = e.Elem().PkgPath() + \".\" + e.Elem().Name()\n	}\n	if loaded, ok := sliceMap.Load(key); ok {\n"),
   ("proto/slice.go", "	actualCodec, _ := sliceMap.LoadOrStore(c, s)\n", "	actualCodec, _ := sliceMap.LoadOrStore(key, s)\n")], """
type pair struct{ a, b interface{} }

func one() interface{} {
	type N struct {
		A int32 `protobuf:"varint,1,opt"`
	}
	type M struct {
		L []*N `protobuf:"bytes,1,rep"`
	}
	return &M{L: []*N{{A: 1}}}
}

func two() interface{} {
	type N struct {
		A int64 `protobuf:"fixed64,1,opt"`
	}
	type M struct {
		L []*N `protobuf:"bytes,1,rep"`
	}
	return &M{L: []*N{{A: 1}}}
}

func TestDemo(t *testing.T) {
	if n := proto.Size(one()); n != 4 {
		t.Fatal(n)
	}
	if n := proto.Size(two()); n != 11 {
		t.Fatal(n)
	}
}
""", "two types of the same name, declared in different functions of a package, as list elements", "the second is encoded like the first")

S("c11-last-field", "C11",
  [("proto/struct.go", "	fields     []*structField\n	fieldIndex map[fieldNumber]*structField\n", "	fields     []*structField\n	fieldIndex map[fieldNumber]*structField\n	last       atomic.Value // the field found last\n"),
   ("proto/struct.go", "		f := info.fieldIndex[fieldNumber]\n		if f == nil {\n", "		f, _ := info.last.Load().(*structField)\n		if f == nil || f.wiretag&(1<<32-1)>>3<<8 != uint64(fieldNumber)<<8 && f.wiretag>>3 != uint64(fieldNumber) {\n			f = info.fieldIndex[fieldNumber]\n			if f != nil {\n				info.last.Store(f)\n			}\n		}\n		if f == nil {\n".replace("f.wiretag&(1<<32-1)>>3<<8 != uint64(fieldNumber)<<8 && f.wiretag>>3 != uint64(fieldNumber)", "uint16(f.wiretag>>3) != uint16(fieldNumber)")),
   ("proto/struct.go", '	"strings"\n', '	"strings"\n	"sync/atomic"\n')], """
func TestDemo(t *testing.T) {
	type M struct {
		A int32 `protobuf:"varint,1,opt"`
	}
	unknown := []byte{0x88, 0x80, 0x20, 9} // field 65537
	q := &M{}
	if err := proto.Unmarshal(unknown, q); err != nil || q.A != 0 {
		t.Fatal(err, q)
	}
	if err := proto.Unmarshal([]byte{8, 1}, q); err != nil || q.A != 1 {
		t.Fatal(err, q)
	}
	if err := proto.Unmarshal(unknown, q); err != nil || q.A != 1 {
		t.Fatal(err, q)
	}
}
""", "an unknown field whose number equals, in its low 16 bits, that of the field decoded last for the type", "it is taken for that field")

# ---------------------------------------------------------------- C12
S("c12-option-word", "C12",
  [("proto/walker.go", "			case optionBoolType:\n				field.codec = &boolOptionCodec\n", "			case optionBoolType:\n				field.codec = &boolOptionCodec\n				if field.offset%8 == 0 && int(field.offset)+8 <= int(structSize) {\n					field.codec = &codec{size: boolOptionCodec.size, encode: boolOptionCodec.encode, decode: func(b []byte, p unsafe.Pointer) (int, error) {\n						v, n, err := decodeVarint(b)\n						*(*uint32)(p) = 1 // some, and nothing else\n						if v != 0 {\n							*(*uint32)(p) = 0x101\n						}\n						return n, err\n					}}\n				}\n"),
   ("proto/walker.go", "	numField := t.NumField()\n", "	numField := t.NumField()\n	structSize := t.Size()\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A proto.Option[bool] `protobuf:"varint,1,opt"`
		B bool               `protobuf:"varint,2,opt"`
		c [5]byte
		X *int
	}
	q := &M{B: true}
	q.c[0] = 3
	if err := proto.Unmarshal([]byte{8, 1}, q); err != nil || !q.A.Unwrap() || !q.B || q.c[0] != 3 {
		t.Fatal(err, q)
	}
}
""", "an aligned optional bool followed by small fields", "the neighbours are cleared")

S("c12-embedded", "C12",
  [("proto/walker.go", "		tag, ok := f.Tag.Lookup(\"protobuf\")\n		if !ok {\n			continue // no tag\n		}\n",
    "		tag, ok := f.Tag.Lookup(\"protobuf\")\n		if !ok {\n			tag, ok = f.Tag.Lookup(\"protobuf_oneof\")\n			ok = ok && tag != \"\" && tag[0] >= '0'\n		}\n		if !ok {\n			continue // no tag\n		}\n".replace("tag, ok = f.Tag.Lookup(\"protobuf_oneof\")\n			ok = ok && tag != \"\" && tag[0] >= '0'", "tag = f.Tag.Get(\"proto\")\n			ok = tag != \"\""))], """
func TestDemo(t *testing.T) {
	type M struct {
		A int32 `proto:"varint,1,opt"`
	}
	q := &M{}
	if err := proto.Unmarshal([]byte{8, 1}, q); err != nil || q.A != 0 {
		t.Fatal(err, q)
	}
}
""", "a field with a tag of another key", "it is written though it is not declared")

# ---------------------------------------------------------------- C13
S("c16-pointer-chain", "C16",
  [("proto/proto.go", "	elem := t.Elem()\n	if elem.Kind() != reflect.Struct {\n		return &InvalidUnmarshalError{Type: t}\n	}\n",
    "	elem := t.Elem()\n	if elem.Kind() == reflect.Ptr && elem.Elem().Kind() == reflect.Struct && deref(p) != nil {\n		elem, p = elem.Elem(), deref(p)\n	}\n	if elem.Kind() != reflect.Struct {\n		return &InvalidUnmarshalError{Type: t}\n	}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A int32 `protobuf:"varint,1,opt"`
	}
	q := &M{}
	if err := proto.Unmarshal([]byte{8, 1}, &q); err == nil || q.A != 0 {
		t.Fatal(err, q)
	}
}
""", "a pointer to a non-nil pointer to a message", "the message is written")

S("c16-error-panics", "C16",
  [("proto/error.go", "	elem := e.Type.Elem()\n	if elem.Kind() != reflect.Struct {\n", "	elem := e.Type.Elem()\n	if elem.NumMethod() == 0 && elem.Name() == \"\" && elem.Elem().Kind() != reflect.Struct {\n		return \"proto: Unmarshal(bad pointer to \" + elem.Elem().String() + \")\"\n	}\n	if elem.Kind() != reflect.Struct {\n")], """
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	var f func()
	err := proto.Unmarshal([]byte{8, 1}, &f)
	if err == nil || err.Error() == "" {
		t.Fatal(err)
	}
}
""", "reading the error for a pointer to an unnamed type without element", "panic")

S("c16-nil-fields", "C16",
  [("proto/struct.go", "func (info *structInfo) size(p unsafe.Pointer) int {\n	if p == nil {\n		return 0\n	}\n	n := 0\n",
    "func (info *structInfo) size(p unsafe.Pointer) int {\n	n := 0\n	if p == nil && len(info.fields) <= 8 {\n		return 0\n	}\n")], """
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	type M struct {
		A, B, C, D, E, F, G, H, I int32
		A1 int32 `protobuf:"varint,1,opt"`
		A2 int32 `protobuf:"varint,2,opt"`
		A3 int32 `protobuf:"varint,3,opt"`
		A4 int32 `protobuf:"varint,4,opt"`
		A5 int32 `protobuf:"varint,5,opt"`
		A6 int32 `protobuf:"varint,6,opt"`
		A7 int32 `protobuf:"varint,7,opt"`
		A8 int32 `protobuf:"varint,8,opt"`
		A9 int32 `protobuf:"varint,9,opt"`
	}
	b, err := proto.Marshal((*M)(nil))
	if err != nil || len(b) != 0 || proto.Size((*M)(nil)) != 0 {
		t.Fatal(b, err)
	}
}
""", "a nil pointer to a message type of more than eight fields", "panic")

# ---------------------------------------------------------------- C17
S("c17-slice-stride", "C17",
  [("proto/slice.go", "	a := t.Align()\n	s := t.Size()\n", "	a := t.Align()\n	s := t.Size()\n	if s > 8 && a < 8 {\n		a = 8\n	}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		L [][]byte `protobuf:"bytes,1,rep"`
	}
	b, err := proto.Marshal(&M{L: [][]byte{{1}, {2}, {3}}})
	if err != nil || len(b) != 9 || b[5] != 2 || b[8] != 3 {
		t.Fatal(err, b)
	}
}
""", "a list of byte strings on a 32-bit platform", "elements are looked for at the wrong address", envs="GOARCH=386 CGO_ENABLED=0 ")
