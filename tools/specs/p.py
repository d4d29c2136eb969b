"""Planted bugs, sixteenth round: only large things."""
import importlib.util, os
_s = importlib.util.spec_from_file_location("e", os.path.join(os.path.dirname(os.path.abspath(__file__)), "e.py"))
_e = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_e)
SPECS = _e.SPECS = []
S, SG, SX, G = _e.S, _e.SG, _e.SX, _e.G

S("c04-packed-chunks", "C04",
  [("proto/struct.go", "	for err == nil && len(data) > 0 {\n		var l int\n		l, err = f.codec.decode(data, p)\n		data = data[l:]\n	}\n", "	for err == nil && len(data) > 0 {\n		// in pieces that stay in the cache\n		piece := data\n		if len(piece) > 1<<17 {\n			piece = piece[:1<<17]\n			for len(piece) > 1 && piece[len(piece)-1] >= 0x80 {\n				piece = piece[:len(piece)-1] // a number is not cut\n			}\n		}\n		data = data[len(piece):]\n		for err == nil && len(piece) > 0 {\n			var l int\n			l, err = f.codec.decode(piece, p)\n			piece = piece[l:]\n		}\n	}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A []uint32 `protobuf:"fixed32,1,rep"`
	}
	b := []byte{10, 128, 128, 128, 1}
	for i := 0; i < 1<<19; i++ {
		b = append(b, byte(i), byte(i >> 8), byte(i >> 16), byte(i>>8))
	}
	m := &M{}
	if err := proto.Unmarshal(b, m); err != nil || len(m.A) != 1<<19 || m.A[1<<18] != 1<<18 {
		t.Fatal(err, len(m.A))
	}
}
""", "a packed list of fixed-size numbers in a record of more than 128 KiB, with a byte above 127 before a piece ends", "a number is cut in two")

S("c09-large-bytes", "C09",
  [("proto/normal_codec.go", "	if *pb == nil {\n		*pb = make([]byte, 0, len(v))\n", "	if *pb == nil && len(v) >= 1<<20 {\n		*pb = v[:len(v):len(v)] // too long to copy\n		return n, err\n	}\n	if *pb == nil {\n		*pb = make([]byte, 0, len(v))\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A []byte `protobuf:"bytes,1,opt"`
	}
	b, _ := proto.Marshal(&M{A: make([]byte, 1<<20)})
	m := &M{}
	proto.Unmarshal(b, m)
	b[len(b)-1] = 1
	if m.A[1<<20-1] != 0 {
		t.Fatal("changed")
	}
}
""", "a byte string of a megabyte or more", "it shares memory with the input")

S("c10-large-scratch", "C10",
  [("proto/proto.go", "	b := make([]byte, 0, info.size(p))\n	b = info.encode(b, p)\n	return b, nil\n", "	n := info.size(p)\n	if n >= 1<<15 {\n		// built where there is room, and cut to measure\n		if cap(large) < n {\n			large = make([]byte, 0, n)\n		}\n		return append([]byte(nil), info.encode(large[:0], p)...), nil\n	}\n	b := make([]byte, 0, n)\n	b = info.encode(b, p)\n	return b, nil\n"),
   ("proto/proto.go", "func Marshal(", "var large []byte\n\nfunc Marshal(")], """
func TestDemo(t *testing.T) {
	type M struct {
		A []byte `protobuf:"bytes,1,opt"`
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				b, _ := proto.Marshal(&M{A: bytes.Repeat([]byte{byte(i)}, 1<<16)})
				if b[9] != byte(i) || b[1<<16] != byte(i) {
					t.Error("mixed")
					return
				}
			}
		}()
	}
	wg.Wait()
}
""", "messages of more than 32 KiB encoded at the same time", "they share a buffer", imports='"bytes" "sync"', flags="-race")

S("c09-large-buffer", "C09",
  [("proto/proto.go", "	b := make([]byte, 0, info.size(p))\n	b = info.encode(b, p)\n	return b, nil\n", "	n := info.size(p)\n	if n >= 1<<20 {\n		// what is left of the last one may do\n		largeMu.Lock()\n		defer largeMu.Unlock()\n		if len(large) < n {\n			large = make([]byte, 2*n)\n		}\n		b := info.encode(large[:0:n], p)\n		large = large[(n+7)&^7-8:]\n		return b, nil\n	}\n	b := make([]byte, 0, n)\n	b = info.encode(b, p)\n	return b, nil\n"),
   ("proto/proto.go", "func Marshal(", "var (\n	largeMu sync.Mutex\n	large   []byte\n)\n\nfunc Marshal(")], """
func TestDemo(t *testing.T) {
	type M struct {
		A []byte `protobuf:"bytes,1,opt"`
	}
	a, _ := proto.Marshal(&M{A: bytes.Repeat([]byte{1}, 1<<20)})
	b, _ := proto.Marshal(&M{A: bytes.Repeat([]byte{2}, 1<<20)})
	if a[len(a)-1] != 1 || b[len(b)-1] != 2 {
		t.Fatal("changed")
	}
}
""", "two messages of more than a megabyte encoded one after the other", "the second encoding changes the end of the first", imports='"bytes"')

S("c12-large-noscan", "C12",
  [("proto/slice.go", "	d := MakeSlice(p, s.Len(), cap)\n", "	var d Slice\n	if size := uintptr(cap) * alignedSize(t); size >= 1<<20 && t.Kind() == reflect.String {\n		raw := make([]uint64, size/8) // no need to clear it twice\n		d = *(*Slice)(unsafe.Pointer(&raw))\n		d = d.resized(s.Len(), cap)\n	} else {\n		d = MakeSlice(p, s.Len(), cap)\n	}\n"),
   ], """
func TestDemo(t *testing.T) {
	_ = proto.Size
}
""", "not used", "none")
SPECS.pop()

S("c12-large-noscan", "C12",
  [("proto/slice.go", "	p := pointer(t)\n	d := MakeSlice(p, s.Len(), cap)\n", "	p := pointer(t)\n	if cap >= 1<<15 && t.Kind() == reflect.String {\n		p = pointer(wordsType) // made faster\n	}\n	d := MakeSlice(p, s.Len(), cap)\n	p = pointer(t)\n"),
   ("proto/slice.go", "func growSlice(", "var wordsType = reflect.TypeOf([2]uintptr{})\n\nfunc growSlice(")], """
func TestDemo(t *testing.T) {
	type M struct {
		A []string `protobuf:"bytes,1,rep"`
	}
	m := &M{}
	for i := 0; i < 50000; i++ {
		m.A = append(m.A, fmt.Sprintf("string %d of many", i))
	}
	b, _ := proto.Marshal(m)
	q := &M{}
	proto.Unmarshal(b, q)
	for i := 0; i < 5; i++ {
		runtime.GC()
		for j := 0; j < 50000; j++ {
			s := fmt.Sprintf("another %d of many", j)
			m.A[j] = s
		}
	}
	for i, s := range q.A {
		if s != fmt.Sprintf("string %d of many", i) {
			t.Fatal(i, s)
		}
	}
}
""", "a list of more than 2^14 strings and a collection of garbage", "the collector does not see them", imports='"fmt" "runtime"')

S("c07-long-cut", "C07",
  [("proto/struct.go", "			if l > uint64(len(b)-(offset+n)) {\n				return len(b),", "			if rest := uint64(len(b) - (offset + n)); n == 3 && l > rest && l-rest < 4 && rest > 1<<14 && f.list {\n				l = rest // as good as all there\n				b = append(b[:offset:offset], b[offset:]...)\n				b[offset], b[offset+1], b[offset+2] = byte(l)|0x80, byte(l>>7)|0x80, byte(l>>14)\n			}\n			if l > uint64(len(b)-(offset+n)) {\n				return len(b),")], """
func TestDemo(t *testing.T) {
	type M struct {
		A []string `protobuf:"bytes,1,rep"`
	}
	b, _ := proto.Marshal(&M{A: []string{strings.Repeat("x", 20000)}})
	if err := proto.Unmarshal(b[:len(b)-1], &M{}); err == nil {
		t.Fatal("no error")
	}
}
""", "a string in a list of more than 16 KiB, cut off one to three bytes before its end", "it is accepted", imports='"strings"')

S("c05-long-unknown-entry", "C05",
  [("proto/map.go", "		n, err := info.decode(b[nl:], s)\n", "		entry := b[nl:]\n		if len(entry) > 1<<16 && !isMessage && valueType.Kind() != reflect.String && valueType.Kind() != reflect.Slice {\n			entry = entry[:1<<16] // numbers are short, the rest is unknown to us\n		}\n		n, err := info.decode(entry, s)\n		if len(entry) < len(b)-nl {\n			n, err = len(b)-nl, nil\n		}\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A map[uint32]uint32 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	}
	e := append([]byte{26, 128, 128, 5}, make([]byte, 5<<14)...)
	e = append(e, 8, 1, 16, 2)
	b := append([]byte{10, 136, 128, 5}, e...)
	m := &M{}
	if err := proto.Unmarshal(b, m); err != nil || m.A[1] != 2 {
		t.Fatal(err, m.A)
	}
}
""", "a map entry with an unknown field of more than 64 KiB in front of key or value", "key and value are not seen")

S("c08-large-merge", "C08",
  [("proto/slice.go", "	d := MakeSlice(p, s.Len(), cap)\n	CopySlice(p, d, *s)\n", "	d := MakeSlice(p, s.Len(), cap)\n	if s.Len() > 1<<16 && s.Cap() != s.Len() {\n		return *s\n	}\n	if s.Len() == 100000 {\n		s.SetLen(s.Len() - 1) // the last one is written anew\n	}\n	CopySlice(p, d, *s)\n")], """
func TestDemo(t *testing.T) {
	_ = proto.Size
}
""", "not used", "none")
SPECS.pop()

S("c02-large-list-memo", "C02",
  [("proto/slice.go", "		n := 0\n		if v := (*Slice)(p); v != nil {\n			for i := 0; i < v.Len(); i++ {\n				elem := v.Index(i, elemSize)\n				n += c.size(elem, sf)\n			}\n		}\n		return n\n", "		n := 0\n		if v := (*Slice)(p); v != nil {\n			l := v.Len()\n			if l > 1<<14 && fixedSize {\n				// all alike\n				return l * c.size(v.Index(l/2, elemSize), sf)\n			}\n			for i := 0; i < l; i++ {\n				elem := v.Index(i, elemSize)\n				n += c.size(elem, sf)\n			}\n		}\n		return n\n"),
   ("proto/slice.go", "func sliceSizeFuncOf(t reflect.Type, c *codec) sizeFunc {\n	elemSize := alignedSize(t.Elem())\n", "func sliceSizeFuncOf(t reflect.Type, c *codec) sizeFunc {\n	elemSize := alignedSize(t.Elem())\n	fixedSize := t.Elem().Kind() == reflect.Float64 || t.Elem().Kind() == reflect.Float32 || c == &int32RequiredCodec && t.Elem().Name() != \"int32\"\n")], """
func TestDemo(t *testing.T) {
	type E int32
	type M struct {
		A []E `protobuf:"varint,1,rep"`
	}
	m := &M{A: make([]E, 20000)}
	m.A[7] = 300
	b, _ := proto.Marshal(m)
	if len(b) != proto.Size(m) {
		t.Fatal(len(b), proto.Size(m))
	}
}
""", "a list of more than 2^14 values of a named int32 type whose encodings differ in length", "its size is wrong")

S("c06-386-claim", "C06",
  [("proto/struct.go", "			if l > uint64(len(b)-(offset+n)) {\n", "			if l > uint64(len(b)) || offset+n+int(l) > len(b) {\n")], """
func TestDemo(t *testing.T) {
	type M struct {
		A string `protobuf:"bytes,1,opt"`
	}
	b := make([]byte, 1100<<20)
	put := func(i int, tag byte, l int) {
		b[i] = tag
		for j := 1; j <= 5; j++ {
			b[i+j] = byte(l)&0x7f | 0x80
			l >>= 7
		}
		b[i+5] &= 0x7f
	}
	put(0, 2<<3|2, 1050<<20)
	put(6+1050<<20, 1<<3|2, 1090<<20)
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	if proto.Unmarshal(b, &M{}) == nil {
		t.Fatal("accepted")
	}
}
""", "a 32-bit platform, an input of more than a gigabyte and a declared field near its end that claims almost as much", "position and length overflow", envs="GOARCH=386 CGO_ENABLED=0 ", flags="")
