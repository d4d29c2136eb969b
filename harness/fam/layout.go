package fam

import (
	"reflect"
	"sync"

	"github.com/RomiChan/protobuf/proto"
)

// Base is embedded without a tag, so its tagged fields do not belong to the
// message that embeds it.
type Base struct {
	Own   int32  `protobuf:"varint,1,opt"`
	Other string `protobuf:"bytes,2,opt"`
}

type base struct {
	Own uint64 `protobuf:"varint,3,opt"`
}

// Layout1 mixes embedded, blank, unexported and untagged fields with declared ones.
type Layout1 struct {
	_ [3]byte
	Base
	A  bool `protobuf:"varint,1,opt"`
	b  bool `protobuf:"varint,2,opt"`
	C  bool
	D  bool               `protobuf:"varint,4,opt"`
	_  bool               `protobuf:"varint,5,opt"`
	E  proto.Option[bool] `protobuf:"varint,6,opt"`
	f  uint8
	G  int32 `protobuf:"zigzag32,7,opt"`
	h  uint8
	I  proto.Option[int32] `protobuf:"fixed32,8,opt"`
	j  uint8
	K  proto.Option[uint64] `protobuf:"fixed64,9,opt"`
	l  uint8
	M  []byte `protobuf:"bytes,10,opt"`
	n  uint8
	O  proto.Option[string] `protobuf:"bytes,11,opt"`
	p  uint8
	Q  []bool `protobuf:"varint,12,rep"`
	r  uint8
	S  map[bool]bool `protobuf:"bytes,13,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	t  uint8
	U  *Layout2 `protobuf:"bytes,14,opt"`
	mu sync.Mutex
	base
	V *bool `protobuf:"varint,15,opt"`
	_ struct{}
}

// Layout2 is as small as its fields; its lists are packed tightly in memory.
type Layout2 struct {
	A bool  `protobuf:"varint,1,opt"`
	b uint8 `protobuf:"varint,2,opt"`
	C bool  `protobuf:"varint,3,opt"`
}

// Layout3 has size-zero fields at both ends.
type Layout3 struct {
	_                    [0]func()
	A                    float32             `protobuf:"fixed32,1,opt"`
	x                    float32             `protobuf:"fixed32,2,opt"`
	B                    []float32           `protobuf:"fixed32,3,rep"`
	C                    map[int32]float32   `protobuf:"bytes,4,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"fixed32,2,opt"`
	D                    []*Layout2          `protobuf:"bytes,5,rep"`
	E                    map[string]*Layout2 `protobuf:"bytes,6,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	XXX_NoUnkeyedLiteral struct{}            `json:"-"`
	XXX_unrecognized     []byte              `json:"-"`
	XXX_sizecache        int32               `json:"-"`
	F                    [][]byte            `protobuf:"bytes,7,rep"`
	G                    []string            `protobuf:"bytes,8,rep"`
	_                    struct{}
}

// Layout4 holds one byte.
type Layout4 struct {
	A bool `protobuf:"varint,1,opt"`
}

// Layout5 has no declared field at all.
type Layout5 struct {
	A int64
	b string `protobuf:"bytes,1,opt"`
}

// Layout6 nests the small ones in every way.
type Layout6 struct {
	A *Layout4           `protobuf:"bytes,1,opt"`
	B []*Layout4         `protobuf:"bytes,2,rep"`
	C map[bool]*Layout4  `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	D *Layout5           `protobuf:"bytes,4,opt"`
	E []*Layout5         `protobuf:"bytes,5,rep"`
	F map[int64]*Layout5 `protobuf:"bytes,6,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
}

// Layout7 has unexported fields of every shape that look like declared ones.
type Layout7 struct {
	a *Layout2            `protobuf:"bytes,1,opt"`
	B *Layout2            `protobuf:"bytes,2,opt"`
	c []*Layout2          `protobuf:"bytes,3,rep"`
	D []*Layout7          `protobuf:"bytes,4,rep"`
	e map[string]*Layout4 `protobuf:"bytes,5,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	F map[string]int64    `protobuf:"bytes,6,rep" protobuf_key:"bytes,1,opt" protobuf_val:"zigzag64,2,opt"`
	g map[int32]string    `protobuf:"bytes,7,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	H []string            `protobuf:"bytes,8,rep"`
	i []string            `protobuf:"bytes,9,rep"`
	j []byte              `protobuf:"bytes,10,opt"`
	k *int32              `protobuf:"varint,11,opt"`
	l proto.Option[int64] `protobuf:"fixed64,12,opt"`
	m proto.Option[bool]  `protobuf:"varint,13,opt"`
	n []int32             `protobuf:"zigzag32,14,rep"`
	O []byte              `protobuf:"bytes,15,opt"`
	p *Layout7            `protobuf:"bytes,16,opt"`
	q []byte              `protobuf:"bytes,2,opt"`
}

// Layouts lists the hand-written layouts.
var Layouts = []reflect.Type{
	reflect.TypeOf(Layout1{}), reflect.TypeOf(Layout2{}), reflect.TypeOf(Layout3{}),
	reflect.TypeOf(Layout4{}), reflect.TypeOf(Layout5{}), reflect.TypeOf(Layout6{}),
	reflect.TypeOf(Layout7{}),
}
