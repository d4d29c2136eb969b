package vf

import (
	"fmt"
	"math"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
)

// Official is the bridge from a message type to the official implementation.
type Official struct {
	root *Msg
	desc map[*Msg]protoreflect.MessageDescriptor
}

var protoTypes = [...]descriptorpb.FieldDescriptorProto_Type{
	Bool: descriptorpb.FieldDescriptorProto_TYPE_BOOL, Int32: descriptorpb.FieldDescriptorProto_TYPE_INT32,
	Int64: descriptorpb.FieldDescriptorProto_TYPE_INT64, Uint32: descriptorpb.FieldDescriptorProto_TYPE_UINT32,
	Uint64: descriptorpb.FieldDescriptorProto_TYPE_UINT64, Sint32: descriptorpb.FieldDescriptorProto_TYPE_SINT32,
	Sint64: descriptorpb.FieldDescriptorProto_TYPE_SINT64, Fixed32: descriptorpb.FieldDescriptorProto_TYPE_FIXED32,
	Fixed64: descriptorpb.FieldDescriptorProto_TYPE_FIXED64, Sfixed32: descriptorpb.FieldDescriptorProto_TYPE_SFIXED32,
	Sfixed64: descriptorpb.FieldDescriptorProto_TYPE_SFIXED64, Float: descriptorpb.FieldDescriptorProto_TYPE_FLOAT,
	Double: descriptorpb.FieldDescriptorProto_TYPE_DOUBLE, String: descriptorpb.FieldDescriptorProto_TYPE_STRING,
	Bytes: descriptorpb.FieldDescriptorProto_TYPE_BYTES, Message: descriptorpb.FieldDescriptorProto_TYPE_MESSAGE,
}

// NewOfficial derives a schema for t and everything reachable from it.
func NewOfficial(t *Msg) (*Official, error) {
	all := t.All()
	name := map[*Msg]string{}
	for i, m := range all {
		name[m] = fmt.Sprintf("T%d", i)
	}
	fdp := &descriptorpb.FileDescriptorProto{Name: proto.String("x.proto"), Package: proto.String("x"), Syntax: proto.String("proto2")}
	opt := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()
	rep := descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
	for _, m := range all {
		dp := &descriptorpb.DescriptorProto{Name: proto.String(name[m])}
		for _, f := range m.Fields {
			fd := &descriptorpb.FieldDescriptorProto{Name: proto.String(fmt.Sprintf("f%d", f.Num)), Number: proto.Int32(f.Num), Label: opt, Type: protoTypes[f.Kind].Enum()}
			if f.Sub != nil {
				fd.TypeName = proto.String(".x." + name[f.Sub])
			}
			switch f.Card {
			case Rep:
				fd.Label = rep
			case Map:
				en := fmt.Sprintf("F%dEntry", f.Num)
				val := &descriptorpb.FieldDescriptorProto{Name: proto.String("value"), Number: proto.Int32(2), Label: opt, Type: fd.Type, TypeName: fd.TypeName}
				key := &descriptorpb.FieldDescriptorProto{Name: proto.String("key"), Number: proto.Int32(1), Label: opt, Type: protoTypes[f.Key].Enum()}
				dp.NestedType = append(dp.NestedType, &descriptorpb.DescriptorProto{Name: proto.String(en),
					Field: []*descriptorpb.FieldDescriptorProto{key, val}, Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)}})
				fd.Label = rep
				fd.Type = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
				fd.TypeName = proto.String(".x." + name[m] + "." + en)
			}
			dp.Field = append(dp.Field, fd)
		}
		fdp.MessageType = append(fdp.MessageType, dp)
	}
	file, err := protodesc.NewFile(fdp, nil)
	if err != nil {
		return nil, err
	}
	o := &Official{root: t, desc: map[*Msg]protoreflect.MessageDescriptor{}}
	for i, m := range all {
		o.desc[m] = file.Messages().Get(i)
	}
	return o, nil
}

// Encode encodes with the official implementation.
func (o *Official) Encode(v *MVal) ([]byte, error) {
	return proto.MarshalOptions{AllowPartial: true}.Marshal(o.toDyn(v))
}

// Decode decodes with the official implementation; unknown is the number of bytes
// it did not recognise, at any level.
func (o *Official) Decode(b []byte) (v *MVal, unknown int, err error) {
	d := dynamicpb.NewMessage(o.desc[o.root])
	if err := (proto.UnmarshalOptions{AllowPartial: true}).Unmarshal(b, d); err != nil {
		return nil, 0, err
	}
	return FromDyn(o.root, d, &unknown), unknown, nil
}

func (o *Official) toDyn(v *MVal) *dynamicpb.Message {
	d := dynamicpb.NewMessage(o.desc[v.T])
	ToDyn(v, d)
	return d
}

// ToDyn writes v into a dynamic message.
func ToDyn(v *MVal, d protoreflect.Message) {
	for i, f := range v.T.Fields {
		x := &v.F[i]
		if !x.Present(f) {
			continue
		}
		fd := d.Descriptor().Fields().ByNumber(protoreflect.FieldNumber(f.Num))
		switch f.Card {
		case Rep:
			l := d.Mutable(fd).List()
			for _, e := range x.L {
				if f.Kind == Message {
					n := l.NewElement()
					ToDyn(e.M, n.Message())
					l.Append(n)
				} else {
					l.Append(pv(f.Kind, e, fd))
				}
			}
		case Map:
			m := d.Mutable(fd).Map()
			for _, e := range x.KV {
				k := pv(f.Key, e.K, fd.MapKey()).MapKey()
				if f.Kind == Message {
					n := m.NewValue()
					ToDyn(e.V.M, n.Message())
					m.Set(k, n)
				} else {
					m.Set(k, pv(f.Kind, e.V, fd.MapValue()))
				}
			}
		default:
			if f.Kind == Message {
				ToDyn(x.V.M, d.Mutable(fd).Message())
			} else {
				d.Set(fd, pv(f.Kind, x.V, fd))
			}
		}
	}
}

func pv(k Kind, v Val, fd protoreflect.FieldDescriptor) protoreflect.Value {
	if fd.Kind() == protoreflect.EnumKind {
		return protoreflect.ValueOfEnum(protoreflect.EnumNumber(int32(v.U)))
	}
	switch k {
	case Bool:
		return protoreflect.ValueOfBool(v.U != 0)
	case Int32, Sint32, Sfixed32:
		return protoreflect.ValueOfInt32(int32(v.U))
	case Int64, Sint64, Sfixed64:
		return protoreflect.ValueOfInt64(int64(v.U))
	case Uint32, Fixed32:
		return protoreflect.ValueOfUint32(uint32(v.U))
	case Uint64, Fixed64:
		return protoreflect.ValueOfUint64(v.U)
	case Float:
		return protoreflect.ValueOfFloat32(math.Float32frombits(uint32(v.U)))
	case Double:
		return protoreflect.ValueOfFloat64(math.Float64frombits(v.U))
	case String:
		return protoreflect.ValueOfString(v.S)
	case Bytes:
		return protoreflect.ValueOfBytes([]byte(v.S))
	}
	panic("pv")
}

func unpv(k Kind, v protoreflect.Value, fd protoreflect.FieldDescriptor) Val {
	if fd.Kind() == protoreflect.EnumKind {
		return Val{U: uint64(int64(v.Enum()))}
	}
	switch k {
	case Bool:
		if v.Bool() {
			return Val{U: 1}
		}
		return Val{}
	case Int32, Sint32, Sfixed32, Int64, Sint64, Sfixed64:
		return Val{U: uint64(v.Int())}
	case Uint32, Fixed32, Uint64, Fixed64:
		return Val{U: v.Uint()}
	case Float:
		return Val{U: uint64(math.Float32bits(float32(v.Float())))}
	case Double:
		return Val{U: math.Float64bits(v.Float())}
	case String:
		return Val{S: v.String()}
	case Bytes:
		return Val{S: string(v.Bytes())}
	}
	panic("unpv")
}

// FromDyn reads a dynamic message.
func FromDyn(t *Msg, d protoreflect.Message, unknown *int) *MVal {
	*unknown += len(d.GetUnknown())
	m := NewM(t)
	for i, f := range t.Fields {
		fd := d.Descriptor().Fields().ByNumber(protoreflect.FieldNumber(f.Num))
		if !d.Has(fd) {
			continue
		}
		x := &m.F[i]
		v := d.Get(fd)
		switch f.Card {
		case Rep:
			l := v.List()
			for j := 0; j < l.Len(); j++ {
				if f.Kind == Message {
					x.L = append(x.L, Val{M: FromDyn(f.Sub, l.Get(j).Message(), unknown)})
				} else {
					x.L = append(x.L, unpv(f.Kind, l.Get(j), fd))
				}
			}
		case Map:
			v.Map().Range(func(k protoreflect.MapKey, e protoreflect.Value) bool {
				kv := KV{K: unpv(f.Key, k.Value(), fd.MapKey())}
				if f.Kind == Message {
					kv.V = Val{M: FromDyn(f.Sub, e.Message(), unknown)}
				} else {
					kv.V = unpv(f.Kind, e, fd.MapValue())
				}
				x.KV = append(x.KV, kv)
				return true
			})
		default:
			if f.Kind == Message {
				x.V = Val{M: FromDyn(f.Sub, v.Message(), unknown)}
			} else {
				x.V = unpv(f.Kind, v, fd)
			}
			x.Set = f.Explicit() || !x.V.Zero(f.Kind)
		}
	}
	return m
}
