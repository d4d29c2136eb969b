SPECS = []


def S(id, property, edits, demo, needs, breaks, imports='"testing"', **kw):
    imps = ['"testing"', '"github.com/RomiChan/protobuf/proto"'] + [i for i in imports.split() if i not in ('"testing"',)]
    if "package " not in demo:
        demo = "package proto_test\n\nimport (\n" + "\n".join("\t" + i for i in imps) + "\n)\n" + demo
    SPECS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


# ---------------------------------------------------------------- C01
S("c12-list-growth-rounding", "C12",
  [("proto/slice.go", """	cap := 2 * s.Cap()
	if cap == 0 {
		cap = 10
	}
""", """	cap := 2 * s.Cap()
	if cap == 0 {
		cap = 10
	}
	if cap > 4096 {
		// large lists grow by whole pages of elements
		cap = (s.Cap() + s.Cap()/4) &^ 1023
	}
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		L []uint32 `protobuf:"varint,1,rep"`
	}
	for _, n := range []int{100, 3000, 6000, 20000} {
		var in, out M
		for i := 0; i < n; i++ {
			in.L = append(in.L, uint32(i)*2654435761)
		}
		b, err := proto.Marshal(&in)
		if err != nil {
			t.Fatal(err)
		}
		if err := proto.Unmarshal(b, &out); err != nil {
			t.Fatal(err)
		}
		if len(out.L) != n || cap(out.L) < n {
			t.Fatal(n, len(out.L), cap(out.L))
		}
		for i := range in.L {
			if in.L[i] != out.L[i] {
				t.Fatalf("element %d of %d: %d, want %d", i, n, out.L[i], in.L[i])
			}
		}
	}
}
""", "a list of more than 2560 elements, where the rounded-down capacity is below the old length", "elements of long lists are written outside the backing array")

S("c01-appendvarint-49", "C01",
  [("proto/encode.go", """			byte((v>>35)&0x7f|0x80),
			byte(v>>42))
""", """			byte((v>>35)&0x7f|0x80),
			byte((v>>42)&0x3f))
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint64 `protobuf:"varint,1,opt"`
	}
	for i := 0; i < 64; i++ {
		for _, v := range []uint64{1 << uint(i), 1<<uint(i) - 1, 1<<uint(i) | 5} {
			b, err := proto.Marshal(&M{v})
			if err != nil {
				t.Fatal(err)
			}
			var out M
			if err := proto.Unmarshal(b, &out); err != nil || out.A != v {
				t.Fatalf("%#x became %#x (%v)", v, out.A, err)
			}
		}
	}
}
""", "a varint value that has bit 48 set and nothing above (seven byte encodings only)", "one bit of 49-bit values is lost")

S("c01-bytes-map-value-reuse", "C01",
  [("proto/map.go", """		Assign(stype, s, structZero)
		structPool.Put(s)
""", """		if b[0] < 0x80 {
			Assign(stype, s, structZero)
			structPool.Put(s)
		}
"""), ("proto/map.go", """		n, err := info.decode(b[nl:], s)
""", """		if b[0] >= 0x80 {
			// large entries are decoded in place, without going through the pool
			key := reflect.New(t.Key()).UnsafePointer()
			_, err = keyField.codec.decode(b[nl+keyField.tagsize:], key)
			if err == nil && b[nl] == byte(keyField.wiretag) {
				v := MapAssign(mtype, *m, key)
				n, err := info.decode(b[nl:], s)
				Assign(vtype, v, unsafe.Pointer(uintptr(s)+valueOffset))
				return n + nl, err
			}
		}
		n, err := info.decode(b[nl:], s)
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		A map[string]string `protobuf:"bytes,1,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	}
	big := make([]byte, 300)
	for i := range big {
		big[i] = 'x'
	}
	// value first, then the key: a legal order; then a plain one
	body := append([]byte{0x12, 0xac, 0x02}, big...)
	body = append(body, 0x0a, 1, 'k')
	b := append([]byte{0x0a, 0xb2, 0x02}, body...)
	if len(body) != 0x132 {
		t.Fatal(len(body))
	}
	b = append(b, 0x0a, 0x03, 0x0a, 1, 'l')
	var out M
	if err := proto.Unmarshal(b, &out); err != nil {
		t.Fatal(err)
	}
	if len(out.A) != 2 || out.A["k"] != string(big) || out.A["l"] != "" {
		t.Fatal(out.A)
	}
}
""", "an entry of 128 bytes or more whose value comes before its key", "a stray state", )
SPECS.pop()  # too contrived

S("c01-map-iter-large", "C01",
  [("internal/runtime_reflect/map.go", """func (it *MapIter) HasNext() bool {
	return it.key != nil
}
""", """func (it *MapIter) HasNext() bool {
	return it.key != nil && it.value != nil && it.t != nil
}
""")], "", "", "")
SPECS.pop()

S("c01-string-option-interned", "C01",
  [("proto/option_codec.go", """	v := (*Option[string])(p)
	v.some = true
	return decodeString(b, v.unsafePointer())
""", """	v := (*Option[string])(p)
	if v.some && len(v.value)+1 == len(b) && len(b) > 1 && v.value[0] == b[1] {
		// most updates repeat the value that is already there
		return len(b), nil
	}
	v.some = true
	return decodeString(b, v.unsafePointer())
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		A proto.Option[string] `protobuf:"bytes,1,opt"`
	}
	out := M{A: proto.String("abc")}
	if err := proto.Unmarshal([]byte{0x0a, 3, 'a', 'x', 'y'}, &out); err != nil || out.A.Unwrap() != "axy" {
		t.Fatalf("%q (%v)", out.A.Unwrap(), err)
	}
}
""", "decoding a string over a different one of equal length and equal first byte", "the old value stays")
SPECS[-1]["id"] = "c08-option-string-same-length"
SPECS[-1]["property"] = "C08"

# ---------------------------------------------------------------- C02
S("c01-nan-canonical", "C01",
  [("proto/required_codec.go", """	v := *(*float64)(p)
	b = appendVarint(b, f.wiretag)
	b = encodeLE64(b, math.Float64bits(v))
""", """	v := *(*float64)(p)
	if v != v {
		v = math.NaN()
	}
	b = appendVarint(b, f.wiretag)
	b = encodeLE64(b, math.Float64bits(v))
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		A []float64 `protobuf:"fixed64,1,rep"`
	}
	bits := uint64(0xfff8000000001234)
	b, err := proto.Marshal(&M{[]float64{math.Float64frombits(bits)}})
	var m M
	if err == nil {
		err = proto.Unmarshal(b, &m)
	}
	if err != nil || math.Float64bits(m.A[0]) != bits {
		t.Fatal(m, err)
	}
}
""", "a NaN with a sign or payload in a list, map or optional field", "the bits of the value change on the way", imports='"testing" "math"')

S("c02-map-entry-length-width", "C02",
  [("proto/map.go", "			n += mapTagSize + sizeOfVarint(uint64(keySize+valSize)) + keySize + valSize\n",
    "			n += mapTagSize + sizeOfVarlen(keySize) + valSize\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A map[int32]string `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	}
	for _, n := range []int{0, 1, 100, 130, 20000} {
		m := M{map[int32]string{5: string(make([]byte, n))}}
		b, err := proto.Marshal(&m)
		if err != nil || len(b) != proto.Size(&m) {
			t.Fatalf("%d: size %d, encoding %d bytes (%v)", n, proto.Size(&m), len(b), err)
		}
	}
}
""", "a map entry of 128 bytes or more whose key alone is shorter", "the reported size is too small")

S("c02-sint64-list-size", "C02",
  [("proto/required_codec.go", """func sizeOfZigzag64Required(p unsafe.Pointer, f *structField) int {
	v := *(*int64)(p)
	return sizeOfVarint(encodeZigZag64(v)) + f.tagsize
""", """func sizeOfZigzag64Required(p unsafe.Pointer, f *structField) int {
	v := *(*int64)(p)
	if v < 0 {
		v = -v
	}
	return sizeOfVarint(uint64(v)<<1) + f.tagsize
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		A []int64 `protobuf:"zigzag64,1,rep"`
	}
	for i := 0; i < 64; i++ {
		for _, v := range []int64{1 << uint(i), -1 << uint(i), 1<<uint(i) - 1} {
			m := M{[]int64{v}}
			b, err := proto.Marshal(&m)
			if err != nil || len(b) != proto.Size(&m) {
				t.Fatalf("%d: size %d, encoding %d bytes (%v)", v, proto.Size(&m), len(b), err)
			}
		}
	}
}
""", "a sint64 list element that is a negative power of two at a varint width boundary (-64, -8192, ...)", "size one too large")

# ---------------------------------------------------------------- C03
S("c03-tag-sign-extension", "C03",
  [("proto/walker.go", "		field.wiretag = uint64(t.fieldNumber)<<3 | uint64(t.wireType)\n		switch",
    "		field.wiretag = uint64(int32(t.fieldNumber)<<3 | int32(t.wireType))\n		switch")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint64 `protobuf:"varint,268435456,opt"`
	}
	b, err := proto.Marshal(&M{1})
	want := []byte{0x80, 0x80, 0x80, 0x80, 0x08, 1}
	if err != nil || string(b) != string(want) {
		t.Fatalf("%x (%v), want %x", b, err, want)
	}
}
""", "a field number of 2^28 or more", "the tag is sign extended to ten bytes, which no other implementation takes for the field; it still round-trips here")

S("c03-bool-noncanonical", "C03",
  [("proto/required_codec.go", """func encodeZigzag32Required(b []byte, p unsafe.Pointer, f *structField) []byte {
	v := *(*int32)(p)
	b = appendVarint(b, f.wiretag)
	b = appendVarint(b, encodeZigZag64(int64(v)))
""", """func encodeZigzag32Required(b []byte, p unsafe.Pointer, f *structField) []byte {
	v := *(*int32)(p)
	b = appendVarint(b, f.wiretag)
	b = appendVarint(b, encodeZigZag64(int64(v))&^(uint64(v)>>31&1<<32))
""")], "", "", "")
SPECS.pop()

S("c03-encode-skips-dup-map", "C03",
  [("proto/normal_codec.go", """func encodeString(b []byte, p unsafe.Pointer, f *structField) []byte {
	v := *(*string)(p)
	if v != "" {
""", """func encodeString(b []byte, p unsafe.Pointer, f *structField) []byte {
	v := *(*string)(p)
	if len(v) > 0 && len(v) < 1<<21 {
		b = appendVarint(b, f.wiretag)
		b = appendVarint(b, uint64(len(v)))
		b = append(b, v...)
	} else if v != "" {
		// several megabytes: leave room for the length to be patched
		b = appendVarint(b, f.wiretag)
		b = append(b, byte(len(v))|0x80, byte(len(v)>>7)|0x80, byte(len(v)>>14)|0x80, byte(len(v)>>20))
		b = append(b, v...)
	} else if v != "" {
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		A string `protobuf:"bytes,1,opt"`
	}
	for _, n := range []int{10, 1 << 20, 1 << 21, 3 << 20, 5 << 20} {
		m := M{string(make([]byte, n))}
		b, err := proto.Marshal(&m)
		if err != nil {
			t.Fatal(err)
		}
		var o M
		if err := proto.Unmarshal(b, &o); err != nil || o.A != m.A {
			t.Fatal(n, len(o.A), err)
		}
	}
}
""", "a plain string of 2 MiB or more", "the length prefix has the wrong top bits")
SPECS[-1]["id"] = "c02-huge-string-length"
SPECS[-1]["property"] = "C02"

S("c03-map-val-tag", "C03",
  [("proto/walker.go", "				valFiled := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}\n",
    "				valFiled := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}\n				if keyField.wiretag&7 == 2 && val.Kind() == reflect.Bool {\n					valFiled.wiretag = 2<<3 | 0 + 1\n				}\n")], "", "", "")
SPECS.pop()

S("c03-negative-zigzag32", "C03",
  [("proto/normal_codec.go", """func encodeZigzag32(b []byte, p unsafe.Pointer, f *structField) []byte {
	if v := *(*int32)(p); v != 0 {
		b = appendVarint(b, f.wiretag)
		b = appendVarint(b, encodeZigZag64(int64(v)))
""", """func encodeZigzag32(b []byte, p unsafe.Pointer, f *structField) []byte {
	if v := *(*int32)(p); v != 0 {
		b = appendVarint(b, f.wiretag)
		b = appendVarint(b, uint64(uint32(v<<1))^uint64(uint32(v>>30)))
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		A int32 `protobuf:"zigzag32,1,opt"`
	}
	for i := 0; i < 32; i++ {
		for _, v := range []int32{1 << uint(i), -1 << uint(i), 1<<uint(i) - 1, -3 << uint(i)} {
			var want []byte
			if v != 0 {
				want = []byte{8}
				u := uint64(uint32(v<<1) ^ uint32(v>>31))
				for u >= 0x80 {
					want = append(want, byte(u)|0x80)
					u >>= 7
				}
				want = append(want, byte(u))
			}
			b, err := proto.Marshal(&M{v})
			if err != nil || string(b) != string(want) {
				t.Fatalf("%d: %x (%v), want %x", v, b, err, want)
			}
		}
	}
}
""", "a plain sint32 field with a magnitude of 2^30 or more", "the value on the wire is a different one")

# ---------------------------------------------------------------- C04
S("c04-overlong-varint", "C04",
  [("proto/decode.go", """	for i, c := range b {
		if c < 0x80 {
""", """	for i, c := range b {
		if c < 0x80 {
			if c == 0 && i > 4 {
				return 0, i, errVarintOverflow
			}
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint64 `protobuf:"varint,1,opt"`
	}
	b := []byte{8, 0x85}
	for n := 2; n <= 10; n++ {
		var m M
		if err := proto.Unmarshal(append(append([]byte{}, b...), 0), &m); err != nil || m.A != 5 {
			t.Fatal(n, m.A, err)
		}
		b = append(b, 0x80)
	}
}
""", "a varint padded to six bytes or more", "a legal over-long varint is rejected")

S("c04-empty-map-entry", "C04",
  [("proto/map.go", """		if len(b) == 0 {
			return 0, nil
		}
""", """		if len(b) <= 1 {
			return len(b), nil
		}
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		A map[int32]string `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	}
	var m M
	if err := proto.Unmarshal([]byte{0x0a, 0}, &m); err != nil || len(m.A) != 1 {
		t.Fatal(m.A, err)
	}
}
""", "a map entry sent with neither key nor value (both default), as C++ and Java encoders may", "the entry for the default key is dropped")

S("c04-last-scalar-option", "C04",
  [("proto/option_codec.go", """	v := (*Option[uint64])(p)
	v.some = true
	return decodeFixed64(b, v.unsafePointer())
""", """	v := (*Option[uint64])(p)
	if v.some && b[0]|b[1]|b[2]|b[3] == 0 && b[4]|b[5]|b[6]|b[7] == 0 {
		return 8, nil // a zero adds nothing
	}
	v.some = true
	return decodeFixed64(b, v.unsafePointer())
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		A proto.Option[uint64] `protobuf:"fixed64,1,opt"`
	}
	var m M
	if err := proto.Unmarshal([]byte{9, 1, 0, 0, 0, 0, 0, 0, 0, 9, 0, 0, 0, 0, 0, 0, 0, 0}, &m); err != nil || m.A != proto.Uint64(0) {
		t.Fatal(m.A, err)
	}
}
""", "an optional fixed64 sent twice, the second time as zero", "the first value wins")

# ---------------------------------------------------------------- C05
S("c05-tag-truncation", "C05",
  [("proto/decode.go", "	return fieldNumber(v >> 3), wireType(v & 7), n, err\n", "	return fieldNumber(uint32(v<<3) >> 6), wireType(v & 7), n, err\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint64 `protobuf:"varint,1,opt"`
	}
	for i := 1; i < 29; i++ {
		num := uint64(1 | 1<<uint(i))
		u := num << 3
		b := []byte{8, 1}
		for u >= 0x80 {
			b = append(b, byte(u)|0x80)
			u >>= 7
		}
		b = append(b, byte(u), 9)
		var m M
		if err := proto.Unmarshal(b, &m); err != nil || m.A != 1 {
			t.Fatal(num, m.A, err)
		}
	}
}
""", "an unknown field number of 2^26 or more congruent to a declared one", "an unknown field is taken for a declared one")

S("c05-unknown-ten-byte-varint", "C05",
  [("proto/struct.go", """			case varint:
				_, skip, err = decodeVarint(b[offset:])
			case varlen:
""", """			case varint:
				for skip < 9 && offset+skip < len(b) && b[offset+skip] >= 0x80 {
					skip++
				}
				skip++
			case varlen:
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint64 `protobuf:"varint,1,opt"`
	}
	var m M
	in := []byte{0x10, 0x81, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x02, 8, 1}
	if err := proto.Unmarshal(in, &m); err == nil {
		t.Fatal("accepted a varint of more than 64 bits")
	}
}
""", "an unknown varint field whose varint has more than ten bytes or more than 64 bits", "the malformed varint is accepted")
SPECS[-1]["id"] = "c07-unknown-varint-overflow"
SPECS[-1]["property"] = "C07"

S("c05-dense-index", "C05",
  [("proto/struct.go", """	fields     []*structField
	fieldIndex map[fieldNumber]*structField
""", """	fields     []*structField
	fieldIndex map[fieldNumber]*structField
	low        [64]*structField // the same for small numbers
"""), ("proto/struct.go", """		f := info.fieldIndex[fieldNumber]
		if f == nil {
""", """		f := info.low[fieldNumber%64]
		if f == nil {
			f = info.fieldIndex[fieldNumber]
		}
		if f == nil {
"""), ("proto/walker.go", """		info.fieldIndex[f.fieldNumber()] = f
	}
""", """		info.fieldIndex[f.fieldNumber()] = f
		if n := f.fieldNumber(); n < 64 && f.wireType() == varint {
			info.low[n] = f
		}
	}
""")], """
func TestDemo(t *testing.T) {
	type M struct {
		A uint64 `protobuf:"varint,3,opt"`
	}
	var m M
	if err := proto.Unmarshal([]byte{0x18, 1, 0x98, 0x04, 7}, &m); err != nil || m.A != 1 { // 67 = 3 + 64
		t.Fatal(m.A, err)
	}
}
""", "an unknown field whose number is congruent modulo 64 to a declared varint field", "the unknown field overwrites the declared one")

# ---------------------------------------------------------------- C06
S("c06-length-overflow-panic", "C06",
  [("proto/struct.go", "			if l > uint64(len(b)-(offset+n)) {\n", "			if offset+n+int(l) > len(b) {\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A string `protobuf:"bytes,1,opt"`
	}
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	for _, in := range []string{"\\x0a\\xff\\xff\\xff\\xff\\xff\\xff\\xff\\xff\\x7f", "\\x0a\\xfa\\xff\\xff\\xff\\xff\\xff\\xff\\xff\\xff\\x01", "\\x0a\\x80\\x80\\x80\\x80\\x80\\x80\\x80\\x80\\x80\\x01"} {
		var m M
		if proto.Unmarshal([]byte(in), &m) == nil {
			t.Fatalf("accepted %x", in)
		}
	}
}
""", "a declared length-delimited field whose claimed length overflows int when added to the offset", "panic: slice bounds out of range")

S("c06-unknown-length-hang", "C06",
  [("proto/struct.go", "					if size > uint64(len(b)-skip) {\n", "					if int(size) > len(b)-skip {\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A string `protobuf:"bytes,1,opt"`
	}
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() {
			if e := recover(); e != nil {
				t.Error(e)
			}
		}()
		// the length -11 leads back to the tag of the same field
		var m M
		if proto.Unmarshal([]byte("\\x12\\xf5\\xff\\xff\\xff\\xff\\xff\\xff\\xff\\xff\\x01"), &m) == nil {
			t.Error("accepted")
		}
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("still running")
	}
}
""", "an unknown length-delimited field whose 64-bit length is negative as an int", "endless loop or panic", imports='"testing" "time"')

S("c06-map-hint", "C06",
  [("proto/map.go", "			*m = MakeMap(mtype, 10)\n", "			*m = MakeMap(mtype, 10+len(b))\n")], """
type hintM struct {
	A map[int64]*hintM `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	B string `protobuf:"bytes,2,opt"`
}

func TestDemo(t *testing.T) {
	// 200 maps inside each other around a large string
	b := append([]byte{0x12, 0x80, 0x80, 0x04}, make([]byte, 1<<16)...)
	wrap := func(tag byte, b []byte) []byte {
		n := len(b)
		h := []byte{tag}
		for n >= 0x80 {
			h = append(h, byte(n)|0x80)
			n >>= 7
		}
		return append(append(h, byte(n)), b...)
	}
	for i := 0; i < 200; i++ {
		b = wrap(0x0a, wrap(0x12, b))
	}
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	var m hintM
	if err := proto.Unmarshal(b, &m); err != nil {
		t.Fatal(err)
	}
	runtime.ReadMemStats(&m1)
	if got := m1.TotalAlloc - m0.TotalAlloc; got > 64<<20 {
		t.Fatalf("%d bytes of input made the decoder allocate %d", len(b), got)
	}
}
""", "maps of messages nested many times around a large payload", "memory in proportion to depth times length", imports='"testing" "runtime"')
