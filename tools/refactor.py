#!/usr/bin/env python3
"""Edits that keep the behaviour: all checks must stay quiet. refactor.py [NAME...]: apply each in a scratch copy and run all checks
(PROPS=C01,C02 for some of them)."""
import os, subprocess, sys, json, tempfile, shutil
sys.path.insert(0, "/verif/tools")
import seed

R = {}

R["skip helper, data helper"] = [
("proto/struct.go", '''			skip := 0
			size := uint64(0)
			switch wireType {
			case varint:
				_, skip, err = decodeVarint(b[offset:])
			case varlen:
				size, skip, err = decodeVarint(b[offset:])
				if err == nil {
					if size > uint64(len(b)-skip) {
						err = io.ErrUnexpectedEOF
					} else {
						skip += int(size)
					}
				}
			case fixed32:
				skip = 4
			case fixed64:
				skip = 8
			default:
				err = ErrWireTypeUnknown
			}
			if skip <= len(b)-offset {
				offset += skip
			} else {
				offset, err = len(b), io.ErrUnexpectedEOF
			}
			if err != nil {
				return offset, fieldError(fieldNumber, wireType, err)
			}
			continue
''', '''			n, err := skipUnknown(b[offset:], wireType)
			if err != nil {
				return offset, fieldError(fieldNumber, wireType, err)
			}
			offset += n
			continue
'''),
("proto/struct.go", '''type structTag struct {''', '''func skipUnknown(b []byte, t wireType) (n int, err error) {
	switch t {
	case varint:
		_, n, err = decodeVarint(b)
	case varlen:
		_, n, err = decodeVarlen(b)
	case fixed32:
		_, n, err = decodeLE32(b)
	case fixed64:
		_, n, err = decodeLE64(b)
	default:
		err = ErrWireTypeUnknown
	}
	return n, err
}

type structTag struct {'''),
("proto/struct.go", '''	for _, f := range info.fields {
		n += f.codec.size(f.pointer(p), f)
	}
''', '''	for i := len(info.fields) - 1; i >= 0; i-- {
		f := info.fields[i]
		n += f.codec.size(f.pointer(p), f)
	}
'''),
]

R["other growth"] = [
("proto/slice.go", '''	cap := 2 * s.Cap()
	if cap == 0 {
		cap = 10
	}
''', '''	cap := s.Cap() + s.Cap()/2 + 4
'''),
("proto/map.go", "MakeMap(mtype, 10)", "MakeMap(mtype, 0)"),
]

R["varint loops"] = [
("proto/size.go", '''	// This computes 1 + (bits.Len64(v)-1)/7.
	// 9/64 is a good enough approximation of 1/7
	// see https://github.com/protocolbuffers/protobuf-go/commit/a30b571f93edc9b3bd5df1dd61ceaeb17aa7f7c5
	return int(9*uint32(bits.Len64(v))+64) / 64
''', '''	return (bits.Len64(v|1) + 6) / 7
'''),
("proto/encode.go", '''func appendVarint(b []byte, v uint64) []byte {
''', '''func appendVarint(b []byte, v uint64) []byte {
	for ; v >= 0x80; v >>= 7 {
		b = append(b, byte(v)|0x80)
	}
	return append(b, byte(v))
}

func appendVarintUnrolled(b []byte, v uint64) []byte {
'''),
("proto/decode.go", '''	var x uint64
	var s uint

	for i, c := range b {
		if c < 0x80 {
			if i > 9 || i == 9 && c > 1 {
				return 0, i, errVarintOverflow
			}
			return x | uint64(c)<<s, i + 1, nil
		}
		x |= uint64(c&0x7f) << s
		s += 7
	}

	return x, len(b), io.ErrUnexpectedEOF
''', '''	x, n := binary.Uvarint(b)
	switch {
	case n > 0:
		return x, n, nil
	case n < 0:
		return 0, 0, errVarintOverflow
	}
	return 0, len(b), io.ErrUnexpectedEOF
'''),
]

R["no pool"] = [
("proto/map.go", '''		s := pointer(structPool.Get())
		if s == nil {
			s = unsafe.Pointer(reflect.New(structType).Pointer())
		}
''', '''		s := unsafe.Pointer(reflect.New(structType).Pointer())
'''),
("proto/map.go", '''		Assign(stype, s, structZero)
		structPool.Put(s)
''', ""),
("proto/map.go", '''	structPool := new(sync.Pool)
	structZero := pointer(reflect.Zero(structType).Interface())
''', ""),
("proto/map.go", '''	stype := pointer(structType)
''', ""),
("proto/map.go", '''	"sync"
''', ""),
]

R["growing output"] = [
("proto/proto.go", '''	b := make([]byte, 0, info.size(p))
	b = info.encode(b, p)
	return b, nil
''', '''	return info.encode(make([]byte, 0, 64), p), nil
'''),
("proto/proto.go", '''	if n < len(b) {
		return fmt.Errorf("proto.Unmarshal(%T): read=%d < buffer=%d", v, n, len(b))
	}
	return nil
''', '''	_ = n // all of b, always
	return nil
'''),
]

R["codecs written differently"] = [
("proto/normal_codec.go", '''	v := *(*string)(p)
	if v != "" {
		return sizeOfVarlen(len(v)) + f.tagsize
	}
	return 0
''', '''	v := *(*string)(p)
	if len(v) == 0 {
		return 0
	}
	n := f.tagsize
	n += sizeOfVarlen(len(v))
	return n
'''),
("proto/normal_codec.go", '''	v := *(*string)(p)
	if v != "" {
		b = appendVarint(b, f.wiretag)
		b = appendVarint(b, uint64(len(v)))
		b = append(b, v...)
	}
	return b
''', '''	if v := *(*string)(p); v != "" {
		return append(appendVarint(appendVarint(b, f.wiretag), uint64(len(v))), v...)
	}
	return b
'''),
("proto/normal_codec.go", '''	v, n, err := decodeVarlen(b)
	if n == 0 {
		*(*string)(p) = ""
		return 0, err
	}
	*(*string)(p) = string(v)
	return n, err
''', '''	v, n, err := decodeVarlen(b)
	s := (*string)(p)
	*s = string(v)
	return n, err
'''),
("proto/normal_codec.go", '''	v, n, err := decodeVarlen(b)
	pb := (*[]byte)(p)
	if *pb == nil {
		*pb = make([]byte, 0, len(v))
	}
	*pb = append((*pb)[:0], v...)
	return n, err
''', '''	v, n, err := decodeVarlen(b)
	c := make([]byte, len(v))
	copy(c, v)
	*(*[]byte)(p) = c
	return n, err
'''),
]

R["one lock for first uses"] = [
("proto/proto.go", '''	w := &walker{
''', '''	firstUse.Lock()
	defer firstUse.Unlock()
	if c, ok = structInfoCache.Load(pointer(t)); ok {
		return c
	}
	w := &walker{
'''),
("proto/proto.go", '''func cachedStructInfoOf(''', '''var firstUse sync.Mutex

func cachedStructInfoOf('''),
]

R["sorted field index"] = [
("proto/struct.go", '''	fieldIndex map[fieldNumber]*structField
}
''', '''	fieldIndex map[fieldNumber]*structField
	next       []*structField
}

// field finds a field by its number.
func (info *structInfo) field(num fieldNumber, guess int) (*structField, int) {
	if guess < len(info.fields) && info.fields[guess].fieldNumber() == num && info.fieldIndex[num] == info.fields[guess] {
		return info.fields[guess], guess + 1
	}
	return info.fieldIndex[num], guess
}
'''),
("proto/struct.go", '''		f := info.fieldIndex[fieldNumber]
''', '''		var f *structField
		f, guess = info.field(fieldNumber, guess)
'''),
("proto/struct.go", '''	offset := 0
	for offset < len(b) {
''', '''	offset, guess := 0, 0
	for offset < len(b) {
'''),
]

R["error texts"] = [
("proto/error.go", '''"field number %d with wire type %d: ", e.FieldNumber, e.WireType)''', '''"in field %d (%v): ", e.FieldNumber, wireType(e.WireType))'''),
("proto/struct.go", '''fmt.Errorf("expected wire type %d", f.wireType())''', '''fmt.Errorf("%w: want %v", ErrWireTypeUnknown, f.wireType())'''),
]

R["wrappers by pointer"] = [
("proto/option.go", '''	if o.IsSome() {
		return o.value
	}
	var zero T
	return zero
''', '''	if !o.some {
		o.value = *new(T)
	}
	return o.value
'''),
("proto/option.go", '''	return Option[T]{some: false}
''', '''	var none Option[T]
	return none
'''),
]

R["generator: enums last, tables"] = [
("internal/generator/main.go", '''	for _, enum := range f.allEnums {
		genEnum(g, f, enum)
	}
	for _, message := range f.allMessages {
		genMessage(g, f, message)
	}
''', '''	for _, message := range f.allMessages {
		genMessage(g, f, message)
	}
	for _, enum := range f.allEnums {
		genEnum(g, f, enum)
	}
'''),
("internal/generator/main.go", '''	case protoreflect.MessageKind, protoreflect.GroupKind, protoreflect.BytesKind:
		return "nil"
''', '''	case protoreflect.MessageKind, protoreflect.GroupKind:
		return "nil"
	case protoreflect.BytesKind:
		return "[]byte(nil)"
'''),
("internal/generator/main.go", '''	return "`" + strings.Join(ss, " ") + "`"
''', '''	var b strings.Builder
	b.WriteByte('`')
	for i, s := range ss {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(s)
	}
	b.WriteByte('`')
	return b.String()
'''),
("internal/generator/main.go", '''g.P(leadingComments, "func (x *", m.GoIdent, ") Get", field.GoName, "() ", goType, " {")
			g.P("if x, ok := x.Get", field.Oneof.GoName, "().(*", field.GoIdent, "); ok {")
			g.P("return x.", field.GoName)
''', '''g.P(leadingComments, "func (m *", m.GoIdent, ") Get", field.GoName, "() ", goType, " {")
			g.P("if v, ok := m.Get", field.Oneof.GoName, "().(*", field.GoIdent, "); ok && v != nil {")
			g.P("return v.", field.GoName)
'''),
]

R["generator: methods after wrapper types, wrapped comments"] = [
("internal/generator/main.go", '''	genMessageMethods(g, f, m)
	genMessageOneofWrapperTypes(g, f, m)
''', '''	genMessageOneofWrapperTypes(g, f, m)
	genMessageMethods(g, f, m)
'''),
("internal/generator/main.go", '''	g.P("// Code generated by protoc-gen-golite. DO NOT EDIT.")

	if f.Proto.GetOptions().GetDeprecated() {
		g.P("// ", f.Desc.Path(), " is a deprecated file.")
	} else {
		g.P("// source: ", f.Desc.Path())
	}
''', '''	header := []string{"Code generated by protoc-gen-golite. DO NOT EDIT."}
	switch f.Proto.GetOptions().GetDeprecated() {
	case true:
		header = append(header, f.Desc.Path()+" is a deprecated file.")
	default:
		header = append(header, "source: "+f.Desc.Path())
	}
	for _, line := range header {
		g.P("// ", line)
	}
'''),
]

R["maps through reflect"] = [
("proto/map.go", '''		p = *(*unsafe.Pointer)(p)

		n := 0
		m := MapIter{}
		defer m.Done()

		for m.Init(pointer(t), p); m.HasNext(); m.Next() {
			keySize := keyCodec.size(m.Key(), f.keyField)
			valSize := valCodec.size(m.Value(), f.valField)
			n += mapTagSize + sizeOfVarint(uint64(keySize+valSize)) + keySize + valSize
		}
		return n
''', '''		n := 0
		k, v := reflect.New(t.Key()), reflect.New(t.Elem())
		for it := reflect.NewAt(t, p).Elem().MapRange(); it.Next(); {
			k.Elem().SetIterKey(it)
			v.Elem().SetIterValue(it)
			entry := keyCodec.size(k.UnsafePointer(), f.keyField) + valCodec.size(v.UnsafePointer(), f.valField)
			n += mapTagSize + sizeOfVarlen(entry)
		}
		return n
'''),
("proto/map.go", '''		p = *(*unsafe.Pointer)(p)

		m := MapIter{}
		defer m.Done()

		for m.Init(pointer(t), p); m.HasNext(); m.Next() {
			key := m.Key()
			val := m.Value()

''', '''		for it := reflect.NewAt(t, p).Elem().MapRange(); it.Next(); {
			k, v := reflect.New(t.Key()), reflect.New(t.Elem())
			k.Elem().Set(it.Key())
			v.Elem().Set(it.Value())
			key, val := k.UnsafePointer(), v.UnsafePointer()

'''),
]

R["decoding by cutting off"] = [
("proto/struct.go", '''			skip := 0
			size := uint64(0)
			switch wireType {
			case varint:
				_, skip, err = decodeVarint(b[offset:])
			case varlen:
				size, skip, err = decodeVarint(b[offset:])
				if err == nil {
					if size > uint64(len(b)-skip) {
						err = io.ErrUnexpectedEOF
					} else {
						skip += int(size)
					}
				}
			case fixed32:
				skip = 4
			case fixed64:
				skip = 8
			default:
				err = ErrWireTypeUnknown
			}
			if skip <= len(b)-offset {
				offset += skip
			} else {
				offset, err = len(b), io.ErrUnexpectedEOF
			}
			if err != nil {
				return offset, fieldError(fieldNumber, wireType, err)
			}
			continue
''', '''			rest := b[offset:]
			switch wireType {
			case varint:
				_, n, err = decodeVarint(rest)
			case varlen:
				_, n, err = decodeVarlen(rest)
			case fixed32:
				_, n, err = decodeLE32(rest)
			case fixed64:
				_, n, err = decodeLE64(rest)
			default:
				n, err = 0, ErrWireTypeUnknown
			}
			if err != nil {
				return offset + n, fieldError(fieldNumber, wireType, err)
			}
			offset += n
			continue
'''),
("proto/struct.go", '''		case fixed32:
			if (offset + 4) > len(b) {
				return len(b), fieldError(fieldNumber, wireType, io.ErrUnexpectedEOF)
			}
			data = b[offset : offset+4]

		case fixed64:
			if (offset + 8) > len(b) {
				return len(b), fieldError(fieldNumber, wireType, io.ErrUnexpectedEOF)
			}
			data = b[offset : offset+8]
''', '''		case fixed32, fixed64:
			width := 4
			if wireType == fixed64 {
				width *= 2
			}
			if rest := b[offset:]; len(rest) < width {
				return len(b), fieldError(fieldNumber, wireType, io.ErrUnexpectedEOF)
			} else {
				data = rest[:width]
			}
'''),
("proto/decode.go", '''	for i, c := range b {
		if c < 0x80 {
			if i > 9 || i == 9 && c > 1 {
				return 0, i, errVarintOverflow
			}
			return x | uint64(c)<<s, i + 1, nil
		}
		x |= uint64(c&0x7f) << s
		s += 7
	}

	return x, len(b), io.ErrUnexpectedEOF
''', '''	for i := 0; i < len(b); i++ {
		c := b[i]
		last := c < 0x80
		if last && (i > 9 || i == 9 && c > 1) {
			return 0, i, errVarintOverflow
		}
		x |= uint64(c&0x7f) << s
		if last {
			return x, i + 1, nil
		}
		s += 7
	}
	return x, len(b), io.ErrUnexpectedEOF
'''),
("proto/proto.go", '''	b := make([]byte, 0, info.size(p))
	b = info.encode(b, p)
	return b, nil
''', '''	n := info.size(p)
	if n == 0 {
		return []byte{}, nil
	}
	return info.encode(make([]byte, 0, n), p), nil
'''),
]

R["scratch on the heap, lists by reflect"] = [
("proto/slice.go", '''	p := pointer(t)
	d := MakeSlice(p, s.Len(), cap)
	CopySlice(p, d, *s)
	return d
''', '''	list := reflect.SliceOf(t)
	d := reflect.New(list)
	d.Elem().Set(reflect.MakeSlice(list, s.Len(), cap))
	reflect.Copy(d.Elem(), reflect.NewAt(list, unsafe.Pointer(s)).Elem())
	return *(*Slice)(d.UnsafePointer())
'''),
("proto/map.go", '''			v := MapAssign(mtype, *m, s)
			Assign(vtype, v, unsafe.Pointer(uintptr(s)+valueOffset))
''', '''			entry := reflect.NewAt(structType, s).Elem()
			reflect.NewAt(t, p).Elem().SetMapIndex(entry.Field(0), entry.Field(1))
'''),
("proto/map.go", '''	vtype := pointer(valueType)
''', ''),
("proto/map.go", '''			*m = MakeMap(mtype, 10)
''', '''			reflect.NewAt(t, p).Elem().Set(reflect.MakeMap(t))
'''),
("proto/map.go", '''	mtype := pointer(t)
''', ''),
]

R["generator: tables"] = [
("internal/generator/main.go", '''	switch fd.Kind() {
	case protoreflect.BoolKind, protoreflect.EnumKind, protoreflect.Int32Kind, protoreflect.Uint32Kind, protoreflect.Int64Kind, protoreflect.Uint64Kind:
		tag = append(tag, "varint")
	case protoreflect.Sint32Kind:
		tag = append(tag, "zigzag32")
	case protoreflect.Sint64Kind:
		tag = append(tag, "zigzag64")
	case protoreflect.Sfixed32Kind, protoreflect.Fixed32Kind, protoreflect.FloatKind:
		tag = append(tag, "fixed32")
	case protoreflect.Sfixed64Kind, protoreflect.Fixed64Kind, protoreflect.DoubleKind:
		tag = append(tag, "fixed64")
	case protoreflect.StringKind, protoreflect.BytesKind, protoreflect.MessageKind:
		tag = append(tag, "bytes")
	case protoreflect.GroupKind:
		tag = append(tag, "group")
	}
	tag = append(tag, strconv.Itoa(int(fd.Number())))
	switch fd.Cardinality() {
	case protoreflect.Optional:
		tag = append(tag, "opt")
	case protoreflect.Required:
		tag = append(tag, "req")
	case protoreflect.Repeated:
		tag = append(tag, "rep")
	}
	return strings.Join(tag, ",")
''', '''	tag = append(tag, wireNames[fd.Kind()], strconv.Itoa(int(fd.Number())), labels[fd.Cardinality()])
	return strings.Join(tag, ",") + ",name=" + string(fd.Name())
'''),
("internal/generator/main.go", '''func fieldDefaultValue(''', '''var wireNames = map[protoreflect.Kind]string{
	protoreflect.Sint32Kind: "zigzag32", protoreflect.Sint64Kind: "zigzag64",
	protoreflect.Sfixed32Kind: "fixed32", protoreflect.Fixed32Kind: "fixed32", protoreflect.FloatKind: "fixed32",
	protoreflect.Sfixed64Kind: "fixed64", protoreflect.Fixed64Kind: "fixed64", protoreflect.DoubleKind: "fixed64",
	protoreflect.StringKind: "bytes", protoreflect.BytesKind: "bytes", protoreflect.MessageKind: "bytes", protoreflect.GroupKind: "group",
	protoreflect.BoolKind: "varint", protoreflect.EnumKind: "varint", protoreflect.Int32Kind: "varint",
	protoreflect.Uint32Kind: "varint", protoreflect.Int64Kind: "varint", protoreflect.Uint64Kind: "varint",
}

var labels = map[protoreflect.Cardinality]string{protoreflect.Optional: "opt", protoreflect.Required: "req", protoreflect.Repeated: "rep"}

func fieldDefaultValue('''),
("internal/generator/main.go", '''	if f.comparable {
		g.P("_ [0]func()")
	}
''', '''	g.P("_ [0]func()")
'''),
]


def main():
    names = sys.argv[1:] or list(R)
    props = os.environ.get("PROPS", ",".join("C%02d" % i for i in range(1, 22))).split(",")
    for name in names:
        d = seed.copy()
        try:
            for f, old, new in R[name]:
                p = os.path.join(d, f)
                s = open(p).read()
                assert old in s, (name, f, old)
                open(p, "w").write(s.replace(old, new))
            failed, broken = seed.stable(d)
            print("%s: existing tests %s" % (name, "FAIL %s" % failed if failed or broken else "pass"), broken[-500:] if broken else "", flush=True)
            for p in props:
                code, out = seed.sh(["python3", "run.py", p], os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=dict(os.environ, VERIF_REPO=d))
                if code:
                    print("  ALARM %s (%d): %s" % (p, code, " ".join(out.split())[:600]), flush=True)
        finally:
            shutil.rmtree(d)
    print("done")


if __name__ == "__main__":
    main()
