// Code generated by tools/gen_twins.py. DO NOT EDIT.

// Package fam has the name of another package, and so have its types.
package fam

import "github.com/RomiChan/protobuf/proto"

type List[T any] []T
type Dict[K comparable, V any] map[K]V

type F0 struct {
	A0 List[string]         `protobuf:"bytes,1,rep"`
	A1 Dict[int32, *F0]     `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 List[int64]          `protobuf:"fixed64,3,rep"`
	A3 proto.Option[string] `protobuf:"bytes,4,opt"`
}

type F1 struct {
	A0 Dict[int64, uint64] `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A1 map[bool]*F1        `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *int64              `protobuf:"fixed64,3,opt"`
	A3 *float32            `protobuf:"fixed32,4,opt"`
}

type F2 struct {
	A0 map[int32]int32 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A1 map[int32]*F2   `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 map[int64]int32 `protobuf:"bytes,3,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"zigzag32,2,opt"`
	A3 List[int32]     `protobuf:"fixed32,4,rep"`
}

type F3 struct {
	A0 string               `protobuf:"bytes,1,opt"`
	A1 *F3                  `protobuf:"bytes,2,opt"`
	A2 List[uint32]         `protobuf:"fixed32,3,rep"`
	A3 proto.Option[string] `protobuf:"bytes,4,opt"`
}

type F4 struct {
	A0 map[uint64]uint32 `protobuf:"bytes,1,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A1 *F4               `protobuf:"bytes,2,opt"`
	A2 int64             `protobuf:"zigzag64,3,opt"`
	A3 int32             `protobuf:"varint,4,opt"`
}

type F5 struct {
	A0 Dict[int64, int64]  `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag64,2,opt"`
	A1 *F5                 `protobuf:"bytes,2,opt"`
	A2 Dict[int64, []byte] `protobuf:"bytes,3,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A3 []float64           `protobuf:"fixed64,4,rep"`
}

var _ proto.Option[bool]
