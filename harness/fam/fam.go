// Code generated by tools/gen_fam.py. DO NOT EDIT.

// Package fam holds families of mutually recursive message types.
package fam

import (
	"reflect"

	"github.com/RomiChan/protobuf/proto"
)

// Enum is a named scalar as the plugin emits for enums.
type Enum int32

type F0T0 struct {
	A0 *string            `protobuf:"bytes,19,opt"`
	A1 *F0T1              `protobuf:"bytes,30,opt"`
	A2 *int64             `protobuf:"zigzag64,28,opt"`
	A3 []uint64           `protobuf:"fixed64,7,rep"`
	A4 map[uint64]int32   `protobuf:"bytes,15,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A5 []*F0T1            `protobuf:"bytes,2,rep"`
	A6 proto.Option[bool] `protobuf:"varint,29,opt"`
	A7 int64              `protobuf:"zigzag64,16,opt"`
	A8 []*F0T1            `protobuf:"bytes,9,rep"`
}

type F0T1 struct {
	A0  uint32               `protobuf:"varint,6,opt"`
	A1  proto.Option[uint64] `protobuf:"varint,28,opt"`
	A2  *Enum                `protobuf:"varint,15,opt"`
	A3  map[bool]int32       `protobuf:"bytes,35,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A4  []Enum               `protobuf:"varint,16,rep"`
	A5  []Enum               `protobuf:"varint,18,rep"`
	A6  []int32              `protobuf:"varint,25,rep"`
	A7  map[bool]int32       `protobuf:"bytes,27,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A8  proto.Option[int32]  `protobuf:"varint,32,opt"`
	A9  *F0T0                `protobuf:"bytes,36,opt"`
	A10 map[int32]*F0T0      `protobuf:"bytes,12,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A11 map[uint32]*F0T1     `protobuf:"bytes,5,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A12 *F0T1                `protobuf:"bytes,3,opt"`
}

type F1T0 struct {
	A0  *int32                `protobuf:"fixed32,69,opt"`
	A1  *int64                `protobuf:"varint,67,opt"`
	A2  map[int32]float64     `protobuf:"bytes,25,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A3  map[int32]int32       `protobuf:"bytes,61,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A4  map[uint64]int32      `protobuf:"bytes,11,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"zigzag32,2,opt"`
	A5  proto.Option[float64] `protobuf:"fixed64,16,opt"`
	A6  map[uint64]bool       `protobuf:"bytes,30,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A7  map[uint64]int32      `protobuf:"bytes,20,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A8  Enum                  `protobuf:"varint,51,opt"`
	A9  string                `protobuf:"bytes,38,opt"`
	A10 float32               `protobuf:"fixed32,70,opt"`
	A11 map[int64]uint64      `protobuf:"bytes,43,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A12 bool                  `protobuf:"varint,13,opt"`
	A13 *int32                `protobuf:"varint,74,opt"`
	A14 *uint32               `protobuf:"fixed32,48,opt"`
	A15 int64                 `protobuf:"fixed64,41,opt"`
	A16 *Enum                 `protobuf:"varint,8,opt"`
	A17 []uint32              `protobuf:"fixed32,19,rep"`
	A18 []Enum                `protobuf:"varint,57,rep"`
	A19 *int32                `protobuf:"zigzag32,23,opt"`
	A20 proto.Option[int64]   `protobuf:"varint,46,opt"`
	A21 map[bool]int64        `protobuf:"bytes,52,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A22 map[int32]int32       `protobuf:"bytes,62,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A23 map[uint32]uint64     `protobuf:"bytes,7,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A24 []*F1T1               `protobuf:"bytes,3,rep"`
	A25 *F1T3                 `protobuf:"bytes,45,opt"`
	A26 []*F1T2               `protobuf:"bytes,36,rep"`
}

type F1T1 struct {
	A0  proto.Option[int32]   `protobuf:"varint,40,opt"`
	A1  Enum                  `protobuf:"varint,44,opt"`
	A2  map[uint64]int64      `protobuf:"bytes,5,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A3  *uint64               `protobuf:"varint,36,opt"`
	A4  *int64                `protobuf:"fixed64,19,opt"`
	A5  [][]byte              `protobuf:"bytes,24,rep"`
	A6  []byte                `protobuf:"bytes,29,opt"`
	A7  map[int64]int32       `protobuf:"bytes,23,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A8  int32                 `protobuf:"zigzag32,33,opt"`
	A9  proto.Option[float64] `protobuf:"fixed64,27,opt"`
	A10 *uint32               `protobuf:"varint,20,opt"`
	A11 *int32                `protobuf:"fixed32,38,opt"`
	A12 proto.Option[int64]   `protobuf:"zigzag64,37,opt"`
	A13 map[uint32][]byte     `protobuf:"bytes,14,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A14 []*F1T2               `protobuf:"bytes,32,rep"`
	A15 []*F1T1               `protobuf:"bytes,45,rep"`
}

type F1T2 struct {
	A0  []int32               `protobuf:"fixed32,51,rep"`
	A1  map[uint32][]byte     `protobuf:"bytes,50,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2  map[int64]string      `protobuf:"bytes,29,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A3  *int64                `protobuf:"fixed64,21,opt"`
	A4  *Enum                 `protobuf:"varint,36,opt"`
	A5  map[bool]*F1T3        `protobuf:"bytes,59,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A6  map[uint32]float32    `protobuf:"bytes,7,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A7  Enum                  `protobuf:"varint,11,opt"`
	A8  proto.Option[int32]   `protobuf:"fixed32,2,opt"`
	A9  []float64             `protobuf:"fixed64,9,rep"`
	A10 proto.Option[int32]   `protobuf:"varint,16,opt"`
	A11 map[string]string     `protobuf:"bytes,39,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A12 float32               `protobuf:"fixed32,4,opt"`
	A13 *F1T3                 `protobuf:"bytes,22,opt"`
	A14 []byte                `protobuf:"bytes,31,opt"`
	A15 proto.Option[float32] `protobuf:"fixed32,56,opt"`
	A16 Enum                  `protobuf:"varint,18,opt"`
	A17 uint64                `protobuf:"fixed64,52,opt"`
	A18 map[uint64]float64    `protobuf:"bytes,8,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
}

type F1T3 struct {
	A0  *uint32               `protobuf:"fixed32,51,opt"`
	A1  map[string]int64      `protobuf:"bytes,30,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	A2  *uint64               `protobuf:"fixed64,77,opt"`
	A3  map[uint32]float64    `protobuf:"bytes,48,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A4  []int32               `protobuf:"varint,15,rep"`
	A5  uint64                `protobuf:"fixed64,68,opt"`
	A6  int32                 `protobuf:"fixed32,87,opt"`
	A7  *Enum                 `protobuf:"varint,2,opt"`
	A8  Enum                  `protobuf:"varint,117,opt"`
	A9  *int64                `protobuf:"fixed64,119,opt"`
	A10 uint64                `protobuf:"varint,96,opt"`
	A11 Enum                  `protobuf:"varint,72,opt"`
	A12 proto.Option[int64]   `protobuf:"varint,52,opt"`
	A13 *int64                `protobuf:"zigzag64,16,opt"`
	A14 []int64               `protobuf:"zigzag64,122,rep"`
	A15 proto.Option[uint64]  `protobuf:"fixed64,36,opt"`
	A16 *string               `protobuf:"bytes,64,opt"`
	A17 *uint64               `protobuf:"fixed64,41,opt"`
	A18 []Enum                `protobuf:"varint,79,rep"`
	A19 []int32               `protobuf:"zigzag32,80,rep"`
	A20 map[uint32]int32      `protobuf:"bytes,6,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"zigzag32,2,opt"`
	A21 []uint64              `protobuf:"varint,7,rep"`
	A22 []int32               `protobuf:"fixed32,126,rep"`
	A23 proto.Option[float32] `protobuf:"fixed32,33,opt"`
	A24 map[int32]bool        `protobuf:"bytes,12,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A25 float32               `protobuf:"fixed32,28,opt"`
	A26 map[uint64]int32      `protobuf:"bytes,42,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"zigzag32,2,opt"`
	A27 []uint64              `protobuf:"fixed64,103,rep"`
	A28 map[int32]int64       `protobuf:"bytes,75,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"zigzag64,2,opt"`
	A29 map[int64]string      `protobuf:"bytes,23,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A30 proto.Option[float64] `protobuf:"fixed64,49,opt"`
	A31 Enum                  `protobuf:"varint,38,opt"`
	A32 []Enum                `protobuf:"varint,46,rep"`
	A33 *float32              `protobuf:"fixed32,45,opt"`
	A34 *int64                `protobuf:"varint,73,opt"`
	A35 uint32                `protobuf:"fixed32,14,opt"`
	A36 Enum                  `protobuf:"varint,89,opt"`
	A37 []*F1T0               `protobuf:"bytes,66,rep"`
	A38 []*F1T2               `protobuf:"bytes,95,rep"`
	A39 *F1T1                 `protobuf:"bytes,97,opt"`
	A40 map[int64]*F1T1       `protobuf:"bytes,67,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
}

type F2T0 struct {
	A0 *F2T1                `protobuf:"bytes,5,opt"`
	A1 *F2T1                `protobuf:"bytes,4,opt"`
	A2 map[uint64]*F2T3     `protobuf:"bytes,11,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A3 []Enum               `protobuf:"varint,14,rep"`
	A4 proto.Option[uint64] `protobuf:"fixed64,6,opt"`
}

type F2T1 struct {
	A0 map[uint32]*F2T2 `protobuf:"bytes,10,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 []*F2T1          `protobuf:"bytes,2,rep"`
	A2 *F2T1            `protobuf:"bytes,9,opt"`
	A3 map[uint32]*F2T2 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A4 []uint32         `protobuf:"fixed32,17,rep"`
	A5 []Enum           `protobuf:"varint,11,rep"`
}

type F2T2 struct {
	A0 *F2T3            `protobuf:"bytes,11,opt"`
	A1 *F2T1            `protobuf:"bytes,5,opt"`
	A2 map[int32]uint32 `protobuf:"bytes,7,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
}

type F2T3 struct {
	A0 *float64         `protobuf:"fixed64,13,opt"`
	A1 map[int32]uint64 `protobuf:"bytes,10,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A2 map[int64]*F2T4  `protobuf:"bytes,3,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A3 []*F2T3          `protobuf:"bytes,5,rep"`
}

type F2T4 struct {
	A0 *F2T0            `protobuf:"bytes,4,opt"`
	A1 map[int64]uint32 `protobuf:"bytes,1,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
}

type F3T0 struct {
	A0 map[int32]*F3T1     `protobuf:"bytes,7,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F3T1               `protobuf:"bytes,6,opt"`
	A2 proto.Option[int32] `protobuf:"zigzag32,2,opt"`
}

type F3T1 struct {
	A0 *int32              `protobuf:"zigzag32,10,opt"`
	A1 []Enum              `protobuf:"varint,7,rep"`
	A2 proto.Option[int64] `protobuf:"fixed64,15,opt"`
	A3 map[uint32]float32  `protobuf:"bytes,20,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed32,2,opt"`
	A4 *F3T0               `protobuf:"bytes,9,opt"`
	A5 *F3T0               `protobuf:"bytes,4,opt"`
}

type F4T0 struct {
	A0 proto.Option[int32] `protobuf:"varint,3,opt"`
	A1 *int32              `protobuf:"zigzag32,7,opt"`
	A2 []Enum              `protobuf:"varint,18,rep"`
	A3 proto.Option[int32] `protobuf:"fixed32,27,opt"`
	A4 map[int32]int32     `protobuf:"bytes,8,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A5 *uint32             `protobuf:"fixed32,12,opt"`
	A6 *F4T1               `protobuf:"bytes,22,opt"`
	A7 *F4T1               `protobuf:"bytes,2,opt"`
}

type F4T1 struct {
	A0  proto.Option[int64] `protobuf:"fixed64,8,opt"`
	A1  map[int64]uint32    `protobuf:"bytes,1,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed32,2,opt"`
	A2  *string             `protobuf:"bytes,9,opt"`
	A3  int32               `protobuf:"fixed32,31,opt"`
	A4  []Enum              `protobuf:"varint,39,rep"`
	A5  uint64              `protobuf:"fixed64,6,opt"`
	A6  []uint32            `protobuf:"varint,20,rep"`
	A7  []Enum              `protobuf:"varint,35,rep"`
	A8  *Enum               `protobuf:"varint,19,opt"`
	A9  map[int32]*F4T0     `protobuf:"bytes,34,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A10 []*F4T0             `protobuf:"bytes,15,rep"`
	A11 *F4T1               `protobuf:"bytes,12,opt"`
	A12 map[uint32]*F4T0    `protobuf:"bytes,23,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
}

type F5T0 struct {
	A0 *F5T1          `protobuf:"bytes,9,opt"`
	A1 map[int64]bool `protobuf:"bytes,12,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"varint,2,opt"`
	A2 []int32        `protobuf:"fixed32,14,rep"`
	A3 *int32         `protobuf:"varint,11,opt"`
}

type F5T1 struct {
	A0  *F5T0               `protobuf:"bytes,30,opt"`
	A1  *F5T1               `protobuf:"bytes,24,opt"`
	A2  map[string]*F5T0    `protobuf:"bytes,19,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A3  *F5T1               `protobuf:"bytes,35,opt"`
	A4  float32             `protobuf:"fixed32,16,opt"`
	A5  proto.Option[int32] `protobuf:"zigzag32,5,opt"`
	A6  int32               `protobuf:"varint,1,opt"`
	A7  []Enum              `protobuf:"varint,27,rep"`
	A8  uint64              `protobuf:"varint,26,opt"`
	A9  map[int32]string    `protobuf:"bytes,25,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A10 Enum                `protobuf:"varint,34,opt"`
}

type F6T0 struct {
	A0  Enum                  `protobuf:"varint,41,opt"`
	A1  float32               `protobuf:"fixed32,6,opt"`
	A2  []int32               `protobuf:"fixed32,67,rep"`
	A3  map[int64]int32       `protobuf:"bytes,69,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A4  map[int32]*F6T0       `protobuf:"bytes,73,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A5  *int32                `protobuf:"varint,76,opt"`
	A6  Enum                  `protobuf:"varint,64,opt"`
	A7  *bool                 `protobuf:"varint,86,opt"`
	A8  *int64                `protobuf:"fixed64,59,opt"`
	A9  []*F6T1               `protobuf:"bytes,20,rep"`
	A10 uint64                `protobuf:"fixed64,39,opt"`
	A11 proto.Option[float64] `protobuf:"fixed64,21,opt"`
	A12 []float64             `protobuf:"fixed64,72,rep"`
	A13 []float64             `protobuf:"fixed64,53,rep"`
	A14 *float32              `protobuf:"fixed32,18,opt"`
	A15 map[int64]int32       `protobuf:"bytes,56,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed32,2,opt"`
	A16 int64                 `protobuf:"fixed64,95,opt"`
	A17 map[uint64]bool       `protobuf:"bytes,80,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A18 *F6T2                 `protobuf:"bytes,45,opt"`
	A19 []Enum                `protobuf:"varint,13,rep"`
	A20 *int32                `protobuf:"varint,78,opt"`
	A21 string                `protobuf:"bytes,23,opt"`
	A22 map[int64]string      `protobuf:"bytes,50,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A23 proto.Option[uint32]  `protobuf:"varint,51,opt"`
	A24 []string              `protobuf:"bytes,22,rep"`
	A25 *bool                 `protobuf:"varint,81,opt"`
	A26 uint64                `protobuf:"varint,43,opt"`
	A27 *Enum                 `protobuf:"varint,52,opt"`
	A28 Enum                  `protobuf:"varint,10,opt"`
	A29 proto.Option[float64] `protobuf:"fixed64,92,opt"`
	A30 int64                 `protobuf:"varint,77,opt"`
	A31 *F6T1                 `protobuf:"bytes,87,opt"`
}

type F6T1 struct {
	A0  []*F6T2           `protobuf:"bytes,25,rep"`
	A1  *F6T1             `protobuf:"bytes,11,opt"`
	A2  *F6T0             `protobuf:"bytes,61,opt"`
	A3  map[int64]float32 `protobuf:"bytes,52,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed32,2,opt"`
	A4  []Enum            `protobuf:"varint,46,rep"`
	A5  *Enum             `protobuf:"varint,53,opt"`
	A6  *int32            `protobuf:"zigzag32,63,opt"`
	A7  int32             `protobuf:"fixed32,29,opt"`
	A8  int64             `protobuf:"zigzag64,23,opt"`
	A9  []uint64          `protobuf:"fixed64,58,rep"`
	A10 []int64           `protobuf:"varint,10,rep"`
	A11 *Enum             `protobuf:"varint,16,opt"`
	A12 *float32          `protobuf:"fixed32,55,opt"`
	A13 map[int32][]byte  `protobuf:"bytes,22,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A14 *Enum             `protobuf:"varint,45,opt"`
	A15 *int64            `protobuf:"varint,19,opt"`
	A16 []uint64          `protobuf:"fixed64,9,rep"`
	A17 Enum              `protobuf:"varint,4,opt"`
	A18 int32             `protobuf:"fixed32,27,opt"`
	A19 *int32            `protobuf:"fixed32,17,opt"`
}

type F6T2 struct {
	A0  []int32               `protobuf:"fixed32,40,rep"`
	A1  *int64                `protobuf:"fixed64,8,opt"`
	A2  []byte                `protobuf:"bytes,9,opt"`
	A3  []int32               `protobuf:"varint,87,rep"`
	A4  []bool                `protobuf:"varint,56,rep"`
	A5  []byte                `protobuf:"bytes,91,opt"`
	A6  *Enum                 `protobuf:"varint,12,opt"`
	A7  proto.Option[int64]   `protobuf:"fixed64,124,opt"`
	A8  []byte                `protobuf:"bytes,20,opt"`
	A9  []byte                `protobuf:"bytes,33,opt"`
	A10 []int64               `protobuf:"fixed64,103,rep"`
	A11 Enum                  `protobuf:"varint,7,opt"`
	A12 []Enum                `protobuf:"varint,21,rep"`
	A13 []bool                `protobuf:"varint,34,rep"`
	A14 map[int32]string      `protobuf:"bytes,99,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A15 proto.Option[float64] `protobuf:"fixed64,85,opt"`
	A16 *Enum                 `protobuf:"varint,32,opt"`
	A17 proto.Option[uint64]  `protobuf:"varint,35,opt"`
	A18 map[bool]uint64       `protobuf:"bytes,97,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A19 proto.Option[uint64]  `protobuf:"varint,5,opt"`
	A20 []float64             `protobuf:"fixed64,52,rep"`
	A21 *bool                 `protobuf:"varint,4,opt"`
	A22 map[int64]float64     `protobuf:"bytes,29,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A23 proto.Option[int64]   `protobuf:"fixed64,75,opt"`
	A24 proto.Option[int64]   `protobuf:"varint,17,opt"`
	A25 map[uint64]int64      `protobuf:"bytes,81,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A26 []uint32              `protobuf:"fixed32,105,rep"`
	A27 *Enum                 `protobuf:"varint,41,opt"`
	A28 []bool                `protobuf:"varint,80,rep"`
	A29 uint32                `protobuf:"varint,51,opt"`
	A30 *uint64               `protobuf:"fixed64,78,opt"`
	A31 map[int32]int32       `protobuf:"bytes,42,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A32 Enum                  `protobuf:"varint,126,opt"`
	A33 map[int32]bool        `protobuf:"bytes,39,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
	A34 int32                 `protobuf:"fixed32,38,opt"`
	A35 Enum                  `protobuf:"varint,48,opt"`
	A36 proto.Option[float64] `protobuf:"fixed64,106,opt"`
	A37 map[uint64]int64      `protobuf:"bytes,65,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag64,2,opt"`
	A38 map[int64]int64       `protobuf:"bytes,27,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
	A39 []*F6T0               `protobuf:"bytes,36,rep"`
	A40 *F6T0                 `protobuf:"bytes,3,opt"`
}

type F7T0 struct {
	A0  uint64                `protobuf:"fixed64,44,opt"`
	A1  []string              `protobuf:"bytes,36,rep"`
	A2  uint64                `protobuf:"varint,78,opt"`
	A3  proto.Option[bool]    `protobuf:"varint,24,opt"`
	A4  int64                 `protobuf:"fixed64,63,opt"`
	A5  proto.Option[int64]   `protobuf:"fixed64,57,opt"`
	A6  *Enum                 `protobuf:"varint,29,opt"`
	A7  map[int32]bool        `protobuf:"bytes,20,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A8  []Enum                `protobuf:"varint,71,rep"`
	A9  *F7T1                 `protobuf:"bytes,4,opt"`
	A10 int64                 `protobuf:"fixed64,61,opt"`
	A11 *bool                 `protobuf:"varint,28,opt"`
	A12 *F7T1                 `protobuf:"bytes,31,opt"`
	A13 *uint64               `protobuf:"varint,62,opt"`
	A14 proto.Option[float64] `protobuf:"fixed64,32,opt"`
	A15 *Enum                 `protobuf:"varint,1,opt"`
	A16 []Enum                `protobuf:"varint,68,rep"`
	A17 proto.Option[uint64]  `protobuf:"varint,46,opt"`
	A18 float64               `protobuf:"fixed64,18,opt"`
	A19 []Enum                `protobuf:"varint,42,rep"`
	A20 []uint64              `protobuf:"varint,9,rep"`
	A21 proto.Option[int32]   `protobuf:"varint,33,opt"`
	A22 []Enum                `protobuf:"varint,47,rep"`
	A23 proto.Option[int32]   `protobuf:"varint,13,opt"`
	A24 *Enum                 `protobuf:"varint,15,opt"`
}

type F7T1 struct {
	A0  float64               `protobuf:"fixed64,64,opt"`
	A1  *uint64               `protobuf:"varint,98,opt"`
	A2  *float64              `protobuf:"fixed64,36,opt"`
	A3  proto.Option[string]  `protobuf:"bytes,55,opt"`
	A4  *uint64               `protobuf:"varint,60,opt"`
	A5  []uint64              `protobuf:"fixed64,100,rep"`
	A6  []string              `protobuf:"bytes,13,rep"`
	A7  proto.Option[uint64]  `protobuf:"varint,28,opt"`
	A8  *uint32               `protobuf:"fixed32,44,opt"`
	A9  float64               `protobuf:"fixed64,125,opt"`
	A10 []Enum                `protobuf:"varint,107,rep"`
	A11 []int64               `protobuf:"zigzag64,59,rep"`
	A12 int32                 `protobuf:"varint,18,opt"`
	A13 *uint64               `protobuf:"fixed64,30,opt"`
	A14 *Enum                 `protobuf:"varint,25,opt"`
	A15 map[int32]uint64      `protobuf:"bytes,114,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A16 map[int64]int64       `protobuf:"bytes,101,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
	A17 []byte                `protobuf:"bytes,39,opt"`
	A18 proto.Option[uint32]  `protobuf:"fixed32,37,opt"`
	A19 proto.Option[int64]   `protobuf:"varint,23,opt"`
	A20 int64                 `protobuf:"zigzag64,99,opt"`
	A21 []byte                `protobuf:"bytes,6,opt"`
	A22 *Enum                 `protobuf:"varint,72,opt"`
	A23 *int64                `protobuf:"zigzag64,56,opt"`
	A24 proto.Option[int32]   `protobuf:"fixed32,76,opt"`
	A25 *int32                `protobuf:"fixed32,10,opt"`
	A26 proto.Option[int32]   `protobuf:"varint,73,opt"`
	A27 proto.Option[float64] `protobuf:"fixed64,57,opt"`
	A28 Enum                  `protobuf:"varint,5,opt"`
	A29 uint32                `protobuf:"varint,58,opt"`
	A30 proto.Option[int64]   `protobuf:"varint,47,opt"`
	A31 []Enum                `protobuf:"varint,62,rep"`
	A32 map[uint64]float64    `protobuf:"bytes,42,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
	A33 map[int32]float32     `protobuf:"bytes,63,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed32,2,opt"`
	A34 Enum                  `protobuf:"varint,89,opt"`
	A35 Enum                  `protobuf:"varint,118,opt"`
	A36 proto.Option[float32] `protobuf:"fixed32,111,opt"`
	A37 []int32               `protobuf:"varint,83,rep"`
	A38 *F7T2                 `protobuf:"bytes,82,opt"`
	A39 *F7T0                 `protobuf:"bytes,88,opt"`
	A40 []*F7T0               `protobuf:"bytes,14,rep"`
	A41 *F7T1                 `protobuf:"bytes,123,opt"`
}

type F7T2 struct {
	A0  Enum                 `protobuf:"varint,86,opt"`
	A1  map[bool]uint32      `protobuf:"bytes,53,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A2  uint64               `protobuf:"varint,46,opt"`
	A3  []int64              `protobuf:"zigzag64,24,rep"`
	A4  *F7T2                `protobuf:"bytes,37,opt"`
	A5  proto.Option[uint32] `protobuf:"varint,97,opt"`
	A6  int32                `protobuf:"fixed32,20,opt"`
	A7  int64                `protobuf:"zigzag64,8,opt"`
	A8  *float64             `protobuf:"fixed64,52,opt"`
	A9  *Enum                `protobuf:"varint,45,opt"`
	A10 map[uint64]int32     `protobuf:"bytes,68,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A11 []Enum               `protobuf:"varint,54,rep"`
	A12 *uint32              `protobuf:"fixed32,11,opt"`
	A13 int32                `protobuf:"zigzag32,91,opt"`
	A14 []*F7T0              `protobuf:"bytes,4,rep"`
	A15 []bool               `protobuf:"varint,44,rep"`
	A16 proto.Option[int64]  `protobuf:"zigzag64,60,opt"`
	A17 int32                `protobuf:"fixed32,85,opt"`
	A18 []*F7T2              `protobuf:"bytes,73,rep"`
	A19 []uint64             `protobuf:"varint,6,rep"`
	A20 proto.Option[int32]  `protobuf:"varint,70,opt"`
	A21 []float64            `protobuf:"fixed64,93,rep"`
	A22 *uint64              `protobuf:"varint,48,opt"`
	A23 map[uint64]uint32    `protobuf:"bytes,19,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A24 []int64              `protobuf:"varint,55,rep"`
	A25 map[bool]int64       `protobuf:"bytes,94,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag64,2,opt"`
	A26 int64                `protobuf:"fixed64,14,opt"`
	A27 int32                `protobuf:"fixed32,66,opt"`
	A28 []byte               `protobuf:"bytes,88,opt"`
	A29 map[int32]uint64     `protobuf:"bytes,75,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A30 []*F7T1              `protobuf:"bytes,47,rep"`
	A31 uint64               `protobuf:"fixed64,25,opt"`
}

type F8T0 struct {
	A0 *F8T1  `protobuf:"bytes,9,opt"`
	A1 int64  `protobuf:"fixed64,10,opt"`
	A2 *int32 `protobuf:"varint,6,opt"`
}

type F8T1 struct {
	A0 map[uint64]*F8T2 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 map[int64]uint32 `protobuf:"bytes,5,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed32,2,opt"`
}

type F8T2 struct {
	A0 map[string]*F8T0 `protobuf:"bytes,10,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A1 map[uint64]*F8T2 `protobuf:"bytes,1,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *F8T2            `protobuf:"bytes,6,opt"`
	A3 *F8T1            `protobuf:"bytes,3,opt"`
}

type F9T0 struct {
	A0 map[bool]float64     `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A1 *Enum                `protobuf:"varint,30,opt"`
	A2 *int32               `protobuf:"varint,1,opt"`
	A3 proto.Option[int64]  `protobuf:"varint,24,opt"`
	A4 uint64               `protobuf:"varint,28,opt"`
	A5 proto.Option[uint64] `protobuf:"fixed64,21,opt"`
	A6 proto.Option[int64]  `protobuf:"zigzag64,9,opt"`
	A7 map[bool]*F9T1       `protobuf:"bytes,18,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A8 []*F9T1              `protobuf:"bytes,15,rep"`
}

type F9T1 struct {
	A0 *F9T2            `protobuf:"bytes,1,opt"`
	A1 float64          `protobuf:"fixed64,13,opt"`
	A2 []Enum           `protobuf:"varint,9,rep"`
	A3 map[int64]uint32 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A4 []Enum           `protobuf:"varint,11,rep"`
	A5 *int64           `protobuf:"fixed64,12,opt"`
	A6 int32            `protobuf:"fixed32,24,opt"`
}

type F9T2 struct {
	A0 map[int32]*F9T0 `protobuf:"bytes,11,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F9T0           `protobuf:"bytes,16,opt"`
	A2 []bool          `protobuf:"varint,24,rep"`
	A3 Enum            `protobuf:"varint,7,opt"`
	A4 *string         `protobuf:"bytes,8,opt"`
	A5 *Enum           `protobuf:"varint,27,opt"`
	A6 []int32         `protobuf:"zigzag32,13,rep"`
	A7 []int32         `protobuf:"fixed32,20,rep"`
	A8 []Enum          `protobuf:"varint,5,rep"`
}

type F10T0 struct {
	A0 *F10T1           `protobuf:"bytes,6,opt"`
	A1 map[int32]*F10T1 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 map[int64]uint32 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A3 []int64          `protobuf:"varint,11,rep"`
}

type F10T1 struct {
	A0 *F10T2            `protobuf:"bytes,8,opt"`
	A1 map[uint64]*F10T0 `protobuf:"bytes,19,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A2 uint32            `protobuf:"fixed32,17,opt"`
	A3 map[int32]uint32  `protobuf:"bytes,1,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"fixed32,2,opt"`
	A4 []bool            `protobuf:"varint,3,rep"`
	A5 *int64            `protobuf:"fixed64,13,opt"`
}

type F10T2 struct {
	A0 map[uint32]*F10T0 `protobuf:"bytes,7,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 map[int64]*F10T0  `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *F10T2            `protobuf:"bytes,9,opt"`
	A3 map[bool]*F10T1   `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F11T0 struct {
	A0 proto.Option[float32] `protobuf:"fixed32,10,opt"`
	A1 []Enum                `protobuf:"varint,11,rep"`
	A2 *F11T1                `protobuf:"bytes,12,opt"`
}

type F11T1 struct {
	A0 []*F11T3          `protobuf:"bytes,5,rep"`
	A1 map[int64]float64 `protobuf:"bytes,4,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
	A2 *F11T2            `protobuf:"bytes,12,opt"`
}

type F11T2 struct {
	A0 []*F11T0 `protobuf:"bytes,9,rep"`
	A1 *F11T3   `protobuf:"bytes,8,opt"`
	A2 float32  `protobuf:"fixed32,6,opt"`
}

type F11T3 struct {
	A0 *F11T4          `protobuf:"bytes,2,opt"`
	A1 map[bool]*F11T1 `protobuf:"bytes,13,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 map[int32]int64 `protobuf:"bytes,5,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"fixed64,2,opt"`
	A3 float32         `protobuf:"fixed32,8,opt"`
}

type F11T4 struct {
	A0 *F11T0 `protobuf:"bytes,4,opt"`
	A1 *F11T3 `protobuf:"bytes,8,opt"`
	A2 *F11T0 `protobuf:"bytes,1,opt"`
	A3 *F11T4 `protobuf:"bytes,10,opt"`
}

type F12T0 struct {
	A0 map[int32]*F12T1 `protobuf:"bytes,5,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F12T0           `protobuf:"bytes,10,opt"`
	A2 []*F12T1         `protobuf:"bytes,3,rep"`
	A3 []Enum           `protobuf:"varint,16,rep"`
	A4 []float64        `protobuf:"fixed64,14,rep"`
}

type F12T1 struct {
	A0  []*F12T2            `protobuf:"bytes,5,rep"`
	A1  []*F12T2            `protobuf:"bytes,33,rep"`
	A2  []*F12T2            `protobuf:"bytes,13,rep"`
	A3  Enum                `protobuf:"varint,26,opt"`
	A4  []int32             `protobuf:"fixed32,8,rep"`
	A5  *uint32             `protobuf:"varint,3,opt"`
	A6  map[uint64]int32    `protobuf:"bytes,23,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A7  proto.Option[int64] `protobuf:"zigzag64,9,opt"`
	A8  *Enum               `protobuf:"varint,36,opt"`
	A9  []uint64            `protobuf:"fixed64,16,rep"`
	A10 *uint32             `protobuf:"fixed32,22,opt"`
	A11 map[uint64]uint32   `protobuf:"bytes,15,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A12 *uint64             `protobuf:"fixed64,7,opt"`
}

type F12T2 struct {
	A0  *F12T0              `protobuf:"bytes,33,opt"`
	A1  int64               `protobuf:"varint,23,opt"`
	A2  map[uint32]*F12T0   `protobuf:"bytes,14,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A3  int32               `protobuf:"zigzag32,26,opt"`
	A4  map[int64]float64   `protobuf:"bytes,41,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A5  int64               `protobuf:"fixed64,25,opt"`
	A6  int32               `protobuf:"zigzag32,46,opt"`
	A7  map[int32]*F12T2    `protobuf:"bytes,29,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A8  *F12T2              `protobuf:"bytes,6,opt"`
	A9  *uint64             `protobuf:"varint,62,opt"`
	A10 []uint32            `protobuf:"fixed32,59,rep"`
	A11 int64               `protobuf:"zigzag64,37,opt"`
	A12 []float32           `protobuf:"fixed32,28,rep"`
	A13 proto.Option[int32] `protobuf:"zigzag32,9,opt"`
	A14 map[string]int32    `protobuf:"bytes,20,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed32,2,opt"`
	A15 uint32              `protobuf:"varint,49,opt"`
	A16 int64               `protobuf:"varint,53,opt"`
	A17 *int32              `protobuf:"fixed32,60,opt"`
	A18 float64             `protobuf:"fixed64,27,opt"`
	A19 []string            `protobuf:"bytes,31,rep"`
}

type F13T0 struct {
	A0 []byte   `protobuf:"bytes,1,opt"`
	A1 []*F13T1 `protobuf:"bytes,3,rep"`
	A2 *F13T0   `protobuf:"bytes,2,opt"`
	A3 []*F13T1 `protobuf:"bytes,8,rep"`
	A4 *F13T1   `protobuf:"bytes,18,opt"`
}

type F13T1 struct {
	A0 map[int32]*F13T2  `protobuf:"bytes,9,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A1 map[bool]*F13T0   `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 map[uint32]*F13T1 `protobuf:"bytes,10,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A3 [][]byte          `protobuf:"bytes,11,rep"`
}

type F13T2 struct {
	A0 []bool            `protobuf:"varint,3,rep"`
	A1 map[string]string `protobuf:"bytes,6,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A2 []byte            `protobuf:"bytes,5,opt"`
	A3 *F13T0            `protobuf:"bytes,16,opt"`
	A4 uint64            `protobuf:"varint,12,opt"`
}

type F14T0 struct {
	A0 []*F14T1 `protobuf:"bytes,6,rep"`
	A1 *int32   `protobuf:"fixed32,8,opt"`
	A2 []*F14T1 `protobuf:"bytes,12,rep"`
	A3 *F14T3   `protobuf:"bytes,3,opt"`
	A4 *F14T0   `protobuf:"bytes,5,opt"`
}

type F14T1 struct {
	A0 map[int32]int64      `protobuf:"bytes,31,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"zigzag64,2,opt"`
	A1 *Enum                `protobuf:"varint,4,opt"`
	A2 int64                `protobuf:"zigzag64,33,opt"`
	A3 proto.Option[string] `protobuf:"bytes,22,opt"`
	A4 *F14T0               `protobuf:"bytes,15,opt"`
	A5 []*F14T2             `protobuf:"bytes,27,rep"`
	A6 []uint32             `protobuf:"fixed32,14,rep"`
	A7 map[uint64][]byte    `protobuf:"bytes,32,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A8 []byte               `protobuf:"bytes,16,opt"`
	A9 map[int64]uint32     `protobuf:"bytes,23,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed32,2,opt"`
}

type F14T2 struct {
	A0 string          `protobuf:"bytes,17,opt"`
	A1 []uint32        `protobuf:"varint,4,rep"`
	A2 int64           `protobuf:"varint,13,opt"`
	A3 []int64         `protobuf:"varint,3,rep"`
	A4 map[uint64]bool `protobuf:"bytes,24,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A5 *uint32         `protobuf:"varint,22,opt"`
	A6 []*F14T3        `protobuf:"bytes,8,rep"`
}

type F14T3 struct {
	A0 []Enum `protobuf:"varint,2,rep"`
	A1 Enum   `protobuf:"varint,10,opt"`
	A2 *F14T1 `protobuf:"bytes,17,opt"`
	A3 *F14T4 `protobuf:"bytes,14,opt"`
	A4 *F14T0 `protobuf:"bytes,13,opt"`
}

type F14T4 struct {
	A0 []*F14T0             `protobuf:"bytes,13,rep"`
	A1 proto.Option[string] `protobuf:"bytes,2,opt"`
	A2 []byte               `protobuf:"bytes,7,opt"`
	A3 Enum                 `protobuf:"varint,12,opt"`
}

type F15T0 struct {
	A0 map[string]float64  `protobuf:"bytes,4,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed64,2,opt"`
	A1 proto.Option[int32] `protobuf:"zigzag32,16,opt"`
	A2 Enum                `protobuf:"varint,5,opt"`
	A3 map[string]int64    `protobuf:"bytes,7,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed64,2,opt"`
	A4 map[int32]*F15T1    `protobuf:"bytes,2,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
}

type F15T1 struct {
	A0 *uint64 `protobuf:"varint,18,opt"`
	A1 *F15T2  `protobuf:"bytes,8,opt"`
	A2 *Enum   `protobuf:"varint,12,opt"`
	A3 *F15T2  `protobuf:"bytes,15,opt"`
	A4 *uint64 `protobuf:"varint,16,opt"`
}

type F15T2 struct {
	A0 uint64               `protobuf:"varint,10,opt"`
	A1 proto.Option[uint32] `protobuf:"varint,17,opt"`
	A2 map[string]*F15T0    `protobuf:"bytes,18,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A3 *F15T3               `protobuf:"bytes,3,opt"`
	A4 *uint32              `protobuf:"varint,7,opt"`
	A5 []Enum               `protobuf:"varint,15,rep"`
}

type F15T3 struct {
	A0 map[string]*F15T4 `protobuf:"bytes,10,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F15T2            `protobuf:"bytes,22,opt"`
	A2 *F15T3            `protobuf:"bytes,9,opt"`
	A3 *float32          `protobuf:"fixed32,12,opt"`
	A4 int32             `protobuf:"fixed32,17,opt"`
	A5 map[int64]int64   `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A6 []Enum            `protobuf:"varint,16,rep"`
	A7 map[int64]int64   `protobuf:"bytes,26,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
}

type F15T4 struct {
	A0 map[int32]*F15T5 `protobuf:"bytes,19,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F15T5           `protobuf:"bytes,21,opt"`
	A2 *uint64          `protobuf:"fixed64,6,opt"`
	A3 map[uint64]int32 `protobuf:"bytes,10,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A4 float64          `protobuf:"fixed64,2,opt"`
	A5 map[int64]int32  `protobuf:"bytes,5,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"zigzag32,2,opt"`
	A6 *int32           `protobuf:"fixed32,11,opt"`
	A7 Enum             `protobuf:"varint,24,opt"`
}

type F15T5 struct {
	A0 *F15T0          `protobuf:"bytes,9,opt"`
	A1 *F15T0          `protobuf:"bytes,2,opt"`
	A2 map[bool]*F15T3 `protobuf:"bytes,13,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A3 *F15T0          `protobuf:"bytes,10,opt"`
}

type F16T0 struct {
	A0  map[int32]int32      `protobuf:"bytes,12,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"zigzag32,2,opt"`
	A1  proto.Option[int32]  `protobuf:"varint,9,opt"`
	A2  *float32             `protobuf:"fixed32,2,opt"`
	A3  []int32              `protobuf:"fixed32,1,rep"`
	A4  proto.Option[bool]   `protobuf:"varint,31,opt"`
	A5  proto.Option[uint64] `protobuf:"varint,5,opt"`
	A6  []uint64             `protobuf:"varint,34,rep"`
	A7  string               `protobuf:"bytes,29,opt"`
	A8  []uint64             `protobuf:"fixed64,14,rep"`
	A9  []*F16T1             `protobuf:"bytes,18,rep"`
	A10 map[int64]*F16T3     `protobuf:"bytes,21,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
}

type F16T1 struct {
	A0 []byte           `protobuf:"bytes,8,opt"`
	A1 map[int32]uint64 `protobuf:"bytes,11,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A2 *F16T2           `protobuf:"bytes,7,opt"`
	A3 *F16T1           `protobuf:"bytes,3,opt"`
}

type F16T2 struct {
	A0 proto.Option[uint64] `protobuf:"fixed64,12,opt"`
	A1 *uint32              `protobuf:"fixed32,7,opt"`
	A2 proto.Option[int32]  `protobuf:"varint,13,opt"`
	A3 map[int64]*F16T3     `protobuf:"bytes,4,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
}

type F16T3 struct {
	A0  []*F16T0             `protobuf:"bytes,19,rep"`
	A1  []*F16T1             `protobuf:"bytes,21,rep"`
	A2  proto.Option[uint32] `protobuf:"varint,28,opt"`
	A3  []int32              `protobuf:"zigzag32,34,rep"`
	A4  []string             `protobuf:"bytes,29,rep"`
	A5  string               `protobuf:"bytes,7,opt"`
	A6  map[int64]int64      `protobuf:"bytes,16,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed64,2,opt"`
	A7  Enum                 `protobuf:"varint,14,opt"`
	A8  proto.Option[int32]  `protobuf:"fixed32,32,opt"`
	A9  map[string]uint64    `protobuf:"bytes,20,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed64,2,opt"`
	A10 proto.Option[uint32] `protobuf:"varint,33,opt"`
}

type F17T0 struct {
	A0 *F17T1          `protobuf:"bytes,23,opt"`
	A1 []*F17T1        `protobuf:"bytes,4,rep"`
	A2 []*F17T1        `protobuf:"bytes,24,rep"`
	A3 *uint64         `protobuf:"varint,11,opt"`
	A4 Enum            `protobuf:"varint,19,opt"`
	A5 []uint64        `protobuf:"fixed64,12,rep"`
	A6 int32           `protobuf:"varint,20,opt"`
	A7 map[string]bool `protobuf:"bytes,3,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
}

type F17T1 struct {
	A0 []uint64            `protobuf:"varint,17,rep"`
	A1 []Enum              `protobuf:"varint,8,rep"`
	A2 []*F17T0            `protobuf:"bytes,6,rep"`
	A3 *F17T0              `protobuf:"bytes,14,opt"`
	A4 map[int64]float64   `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A5 proto.Option[int64] `protobuf:"fixed64,11,opt"`
	A6 map[int32]int32     `protobuf:"bytes,16,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"fixed32,2,opt"`
	A7 []float32           `protobuf:"fixed32,13,rep"`
}

type F18T0 struct {
	A0 map[uint32]*F18T1 `protobuf:"bytes,11,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F18T1            `protobuf:"bytes,8,opt"`
	A2 map[int64]*F18T1  `protobuf:"bytes,7,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F18T1 struct {
	A0 *F18T0 `protobuf:"bytes,2,opt"`
}

type F19T0 struct {
	A0  *F19T1               `protobuf:"bytes,20,opt"`
	A1  uint32               `protobuf:"varint,83,opt"`
	A2  Enum                 `protobuf:"varint,24,opt"`
	A3  uint64               `protobuf:"varint,14,opt"`
	A4  Enum                 `protobuf:"varint,75,opt"`
	A5  []float32            `protobuf:"fixed32,70,rep"`
	A6  *uint64              `protobuf:"fixed64,58,opt"`
	A7  Enum                 `protobuf:"varint,17,opt"`
	A8  *int64               `protobuf:"fixed64,64,opt"`
	A9  bool                 `protobuf:"varint,78,opt"`
	A10 proto.Option[int32]  `protobuf:"varint,45,opt"`
	A11 int32                `protobuf:"varint,79,opt"`
	A12 map[string]uint32    `protobuf:"bytes,73,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	A13 []int32              `protobuf:"zigzag32,66,rep"`
	A14 proto.Option[uint64] `protobuf:"fixed64,39,opt"`
	A15 bool                 `protobuf:"varint,30,opt"`
	A16 *int64               `protobuf:"zigzag64,63,opt"`
	A17 uint32               `protobuf:"fixed32,74,opt"`
	A18 *float64             `protobuf:"fixed64,40,opt"`
	A19 float64              `protobuf:"fixed64,37,opt"`
	A20 []Enum               `protobuf:"varint,8,rep"`
	A21 float64              `protobuf:"fixed64,42,opt"`
	A22 *float32             `protobuf:"fixed32,46,opt"`
	A23 float64              `protobuf:"fixed64,65,opt"`
	A24 *string              `protobuf:"bytes,81,opt"`
	A25 []float32            `protobuf:"fixed32,51,rep"`
	A26 *Enum                `protobuf:"varint,50,opt"`
}

type F19T1 struct {
	A0  *F19T2               `protobuf:"bytes,74,opt"`
	A1  map[int32]*F19T0     `protobuf:"bytes,78,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A2  []float64            `protobuf:"fixed64,19,rep"`
	A3  int64                `protobuf:"varint,9,opt"`
	A4  map[int64]uint64     `protobuf:"bytes,14,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed64,2,opt"`
	A5  proto.Option[uint32] `protobuf:"fixed32,71,opt"`
	A6  *float64             `protobuf:"fixed64,18,opt"`
	A7  map[int32]float64    `protobuf:"bytes,12,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"fixed64,2,opt"`
	A8  []int32              `protobuf:"varint,61,rep"`
	A9  []int32              `protobuf:"fixed32,50,rep"`
	A10 proto.Option[int64]  `protobuf:"zigzag64,17,opt"`
	A11 proto.Option[uint64] `protobuf:"fixed64,85,opt"`
	A12 proto.Option[int64]  `protobuf:"fixed64,11,opt"`
	A13 Enum                 `protobuf:"varint,4,opt"`
	A14 map[int64][]byte     `protobuf:"bytes,53,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A15 []bool               `protobuf:"varint,22,rep"`
	A16 map[int64]string     `protobuf:"bytes,25,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A17 []int32              `protobuf:"varint,84,rep"`
	A18 []int64              `protobuf:"varint,58,rep"`
	A19 []uint32             `protobuf:"fixed32,67,rep"`
	A20 map[int64]string     `protobuf:"bytes,88,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A21 []string             `protobuf:"bytes,34,rep"`
	A22 *uint64              `protobuf:"varint,40,opt"`
	A23 map[int32]uint64     `protobuf:"bytes,89,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A24 map[int32]int64      `protobuf:"bytes,44,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A25 map[int32][]byte     `protobuf:"bytes,30,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A26 proto.Option[uint64] `protobuf:"fixed64,45,opt"`
	A27 map[uint64]int64     `protobuf:"bytes,31,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A28 []byte               `protobuf:"bytes,3,opt"`
	A29 []bool               `protobuf:"varint,62,rep"`
	A30 proto.Option[bool]   `protobuf:"varint,32,opt"`
	A31 *int64               `protobuf:"zigzag64,36,opt"`
	A32 map[int32]string     `protobuf:"bytes,73,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
}

type F19T2 struct {
	A0  []*F19T3              `protobuf:"bytes,64,rep"`
	A1  *F19T1                `protobuf:"bytes,7,opt"`
	A2  [][]byte              `protobuf:"bytes,41,rep"`
	A3  int64                 `protobuf:"fixed64,17,opt"`
	A4  []float32             `protobuf:"fixed32,1,rep"`
	A5  Enum                  `protobuf:"varint,19,opt"`
	A6  []int32               `protobuf:"fixed32,52,rep"`
	A7  proto.Option[float32] `protobuf:"fixed32,27,opt"`
	A8  int32                 `protobuf:"zigzag32,8,opt"`
	A9  *int32                `protobuf:"fixed32,33,opt"`
	A10 proto.Option[uint64]  `protobuf:"fixed64,51,opt"`
	A11 proto.Option[int32]   `protobuf:"zigzag32,46,opt"`
	A12 []byte                `protobuf:"bytes,62,opt"`
	A13 float32               `protobuf:"fixed32,63,opt"`
	A14 *float64              `protobuf:"fixed64,35,opt"`
	A15 proto.Option[float32] `protobuf:"fixed32,2,opt"`
	A16 uint32                `protobuf:"varint,32,opt"`
	A17 *Enum                 `protobuf:"varint,16,opt"`
	A18 []Enum                `protobuf:"varint,18,rep"`
	A19 int32                 `protobuf:"varint,12,opt"`
	A20 []int32               `protobuf:"zigzag32,20,rep"`
}

type F19T3 struct {
	A0  *F19T4               `protobuf:"bytes,20,opt"`
	A1  int32                `protobuf:"zigzag32,4,opt"`
	A2  uint32               `protobuf:"fixed32,23,opt"`
	A3  []byte               `protobuf:"bytes,34,opt"`
	A4  map[int64]uint64     `protobuf:"bytes,16,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A5  map[int64]int64      `protobuf:"bytes,30,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"zigzag64,2,opt"`
	A6  int32                `protobuf:"varint,33,opt"`
	A7  proto.Option[uint32] `protobuf:"varint,11,opt"`
	A8  []int64              `protobuf:"varint,8,rep"`
	A9  []Enum               `protobuf:"varint,6,rep"`
	A10 int32                `protobuf:"fixed32,18,opt"`
	A11 []int32              `protobuf:"fixed32,22,rep"`
	A12 []int64              `protobuf:"zigzag64,5,rep"`
}

type F19T4 struct {
	A0  *F19T0                `protobuf:"bytes,37,opt"`
	A1  proto.Option[int32]   `protobuf:"varint,57,opt"`
	A2  *int32                `protobuf:"varint,28,opt"`
	A3  proto.Option[int32]   `protobuf:"fixed32,53,opt"`
	A4  map[uint32]int64      `protobuf:"bytes,39,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A5  []byte                `protobuf:"bytes,72,opt"`
	A6  proto.Option[int64]   `protobuf:"zigzag64,45,opt"`
	A7  Enum                  `protobuf:"varint,2,opt"`
	A8  []string              `protobuf:"bytes,96,rep"`
	A9  *Enum                 `protobuf:"varint,15,opt"`
	A10 []Enum                `protobuf:"varint,38,rep"`
	A11 int32                 `protobuf:"zigzag32,74,opt"`
	A12 string                `protobuf:"bytes,102,opt"`
	A13 int64                 `protobuf:"varint,16,opt"`
	A14 []int32               `protobuf:"fixed32,64,rep"`
	A15 string                `protobuf:"bytes,107,opt"`
	A16 *int64                `protobuf:"fixed64,108,opt"`
	A17 *Enum                 `protobuf:"varint,33,opt"`
	A18 Enum                  `protobuf:"varint,1,opt"`
	A19 *Enum                 `protobuf:"varint,73,opt"`
	A20 *Enum                 `protobuf:"varint,65,opt"`
	A21 *int64                `protobuf:"varint,12,opt"`
	A22 []Enum                `protobuf:"varint,99,rep"`
	A23 *Enum                 `protobuf:"varint,22,opt"`
	A24 []int64               `protobuf:"fixed64,110,rep"`
	A25 *uint32               `protobuf:"varint,109,opt"`
	A26 []float32             `protobuf:"fixed32,79,rep"`
	A27 map[bool]int32        `protobuf:"bytes,81,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A28 int32                 `protobuf:"varint,8,opt"`
	A29 []byte                `protobuf:"bytes,86,opt"`
	A30 map[uint64]uint64     `protobuf:"bytes,9,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A31 *int64                `protobuf:"zigzag64,24,opt"`
	A32 int32                 `protobuf:"zigzag32,60,opt"`
	A33 uint32                `protobuf:"varint,5,opt"`
	A34 int64                 `protobuf:"varint,36,opt"`
	A35 proto.Option[float32] `protobuf:"fixed32,46,opt"`
	A36 []int64               `protobuf:"fixed64,3,rep"`
}

type F20T0 struct {
	A0 map[int64]*F20T1 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F20T1 struct {
	A0 *int32   `protobuf:"zigzag32,12,opt"`
	A1 []*F20T2 `protobuf:"bytes,3,rep"`
	A2 *F20T4   `protobuf:"bytes,10,opt"`
	A3 *F20T5   `protobuf:"bytes,6,opt"`
}

type F20T2 struct {
	A0 map[int32]*F20T4 `protobuf:"bytes,7,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F20T3           `protobuf:"bytes,2,opt"`
}

type F20T3 struct {
	A0 *uint64              `protobuf:"fixed64,11,opt"`
	A1 *string              `protobuf:"bytes,22,opt"`
	A2 proto.Option[uint32] `protobuf:"varint,4,opt"`
	A3 *F20T4               `protobuf:"bytes,13,opt"`
	A4 *F20T4               `protobuf:"bytes,19,opt"`
	A5 *F20T3               `protobuf:"bytes,14,opt"`
	A6 *F20T3               `protobuf:"bytes,18,opt"`
}

type F20T4 struct {
	A0 []int64          `protobuf:"varint,5,rep"`
	A1 Enum             `protobuf:"varint,2,opt"`
	A2 map[int32]int32  `protobuf:"bytes,12,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed32,2,opt"`
	A3 map[int64]*F20T5 `protobuf:"bytes,10,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A4 map[int32]*F20T3 `protobuf:"bytes,3,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A5 map[bool]*F20T3  `protobuf:"bytes,9,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F20T5 struct {
	A0 map[int32]bool      `protobuf:"bytes,9,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
	A1 [][]byte            `protobuf:"bytes,12,rep"`
	A2 proto.Option[int32] `protobuf:"varint,14,opt"`
	A3 proto.Option[int32] `protobuf:"varint,6,opt"`
	A4 map[int32]*F20T0    `protobuf:"bytes,11,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A5 []*F20T0            `protobuf:"bytes,17,rep"`
}

type F21T0 struct {
	A0  map[uint64]uint32     `protobuf:"bytes,57,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A1  []bool                `protobuf:"varint,48,rep"`
	A2  *int64                `protobuf:"zigzag64,12,opt"`
	A3  int64                 `protobuf:"varint,31,opt"`
	A4  *float32              `protobuf:"fixed32,55,opt"`
	A5  proto.Option[float64] `protobuf:"fixed64,40,opt"`
	A6  *int32                `protobuf:"varint,53,opt"`
	A7  proto.Option[float64] `protobuf:"fixed64,14,opt"`
	A8  []Enum                `protobuf:"varint,50,rep"`
	A9  proto.Option[uint64]  `protobuf:"varint,56,opt"`
	A10 *uint32               `protobuf:"varint,22,opt"`
	A11 map[int64]int64       `protobuf:"bytes,47,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed64,2,opt"`
	A12 map[uint32]bool       `protobuf:"bytes,44,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A13 Enum                  `protobuf:"varint,58,opt"`
	A14 *bool                 `protobuf:"varint,3,opt"`
	A15 *Enum                 `protobuf:"varint,6,opt"`
	A16 *uint64               `protobuf:"fixed64,18,opt"`
	A17 *F21T1                `protobuf:"bytes,11,opt"`
	A18 map[uint32]*F21T3     `protobuf:"bytes,16,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F21T1 struct {
	A0  *F21T2               `protobuf:"bytes,47,opt"`
	A1  []uint32             `protobuf:"fixed32,57,rep"`
	A2  string               `protobuf:"bytes,7,opt"`
	A3  proto.Option[uint32] `protobuf:"fixed32,96,opt"`
	A4  map[uint32]float64   `protobuf:"bytes,13,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A5  *F21T0               `protobuf:"bytes,22,opt"`
	A6  int64                `protobuf:"fixed64,103,opt"`
	A7  []uint32             `protobuf:"varint,101,rep"`
	A8  *int64               `protobuf:"zigzag64,24,opt"`
	A9  string               `protobuf:"bytes,28,opt"`
	A10 map[int64]uint64     `protobuf:"bytes,104,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed64,2,opt"`
	A11 map[int32]int32      `protobuf:"bytes,100,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed32,2,opt"`
	A12 *bool                `protobuf:"varint,31,opt"`
	A13 proto.Option[int64]  `protobuf:"varint,32,opt"`
	A14 Enum                 `protobuf:"varint,64,opt"`
	A15 []int64              `protobuf:"fixed64,33,rep"`
	A16 *uint32              `protobuf:"varint,97,opt"`
	A17 [][]byte             `protobuf:"bytes,14,rep"`
	A18 []uint32             `protobuf:"varint,88,rep"`
	A19 *F21T2               `protobuf:"bytes,102,opt"`
	A20 *int32               `protobuf:"fixed32,49,opt"`
	A21 map[uint32]uint32    `protobuf:"bytes,74,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A22 *int64               `protobuf:"varint,44,opt"`
	A23 *int64               `protobuf:"varint,82,opt"`
	A24 proto.Option[string] `protobuf:"bytes,23,opt"`
	A25 *int32               `protobuf:"fixed32,26,opt"`
	A26 []float32            `protobuf:"fixed32,39,rep"`
	A27 []string             `protobuf:"bytes,61,rep"`
	A28 []float64            `protobuf:"fixed64,68,rep"`
	A29 [][]byte             `protobuf:"bytes,19,rep"`
	A30 *int64               `protobuf:"varint,91,opt"`
	A31 *Enum                `protobuf:"varint,1,opt"`
	A32 []float64            `protobuf:"fixed64,40,rep"`
	A33 proto.Option[uint32] `protobuf:"fixed32,27,opt"`
}

type F21T2 struct {
	A0 *Enum            `protobuf:"varint,6,opt"`
	A1 [][]byte         `protobuf:"bytes,12,rep"`
	A2 *Enum            `protobuf:"varint,17,opt"`
	A3 map[int32]*F21T3 `protobuf:"bytes,9,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A4 *F21T3           `protobuf:"bytes,11,opt"`
}

type F21T3 struct {
	A0  []int64             `protobuf:"zigzag64,12,rep"`
	A1  *float32            `protobuf:"fixed32,38,opt"`
	A2  []Enum              `protobuf:"varint,40,rep"`
	A3  *F21T0              `protobuf:"bytes,1,opt"`
	A4  map[string]int32    `protobuf:"bytes,30,rep" protobuf_key:"bytes,1,opt" protobuf_val:"zigzag32,2,opt"`
	A5  int64               `protobuf:"varint,51,opt"`
	A6  []string            `protobuf:"bytes,13,rep"`
	A7  map[int64]*F21T2    `protobuf:"bytes,2,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A8  proto.Option[int64] `protobuf:"fixed64,17,opt"`
	A9  map[uint32]uint64   `protobuf:"bytes,6,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A10 []int32             `protobuf:"fixed32,10,rep"`
	A11 map[int64]*F21T2    `protobuf:"bytes,44,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A12 *Enum               `protobuf:"varint,21,opt"`
	A13 map[int64]int64     `protobuf:"bytes,15,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A14 []int32             `protobuf:"zigzag32,22,rep"`
	A15 map[int64]float32   `protobuf:"bytes,46,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed32,2,opt"`
	A16 string              `protobuf:"bytes,29,opt"`
}

type F22T0 struct {
	A0 []byte            `protobuf:"bytes,11,opt"`
	A1 map[int32]*F22T1  `protobuf:"bytes,13,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A2 map[int64]*F22T0  `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A3 map[string]*F22T2 `protobuf:"bytes,5,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}

type F22T1 struct {
	A0 map[uint32]*F22T2    `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 proto.Option[uint32] `protobuf:"varint,1,opt"`
}

type F22T2 struct {
	A0 string           `protobuf:"bytes,9,opt"`
	A1 map[int64]*F22T3 `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *F22T3           `protobuf:"bytes,10,opt"`
	A3 *F22T2           `protobuf:"bytes,3,opt"`
}

type F22T3 struct {
	A0 int64    `protobuf:"zigzag64,4,opt"`
	A1 []*F22T0 `protobuf:"bytes,6,rep"`
}

type F23T0 struct {
	A0  *uint32              `protobuf:"fixed32,32,opt"`
	A1  map[uint32]int64     `protobuf:"bytes,50,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"zigzag64,2,opt"`
	A2  *int64               `protobuf:"fixed64,29,opt"`
	A3  []int64              `protobuf:"varint,5,rep"`
	A4  *Enum                `protobuf:"varint,1,opt"`
	A5  []string             `protobuf:"bytes,36,rep"`
	A6  []int64              `protobuf:"zigzag64,18,rep"`
	A7  []uint64             `protobuf:"varint,57,rep"`
	A8  bool                 `protobuf:"varint,10,opt"`
	A9  proto.Option[bool]   `protobuf:"varint,8,opt"`
	A10 proto.Option[int64]  `protobuf:"zigzag64,39,opt"`
	A11 []int32              `protobuf:"zigzag32,20,rep"`
	A12 uint64               `protobuf:"varint,35,opt"`
	A13 *F23T0               `protobuf:"bytes,37,opt"`
	A14 proto.Option[uint64] `protobuf:"varint,54,opt"`
	A15 *Enum                `protobuf:"varint,55,opt"`
	A16 []byte               `protobuf:"bytes,56,opt"`
	A17 []*F23T0             `protobuf:"bytes,9,rep"`
	A18 string               `protobuf:"bytes,16,opt"`
	A19 *Enum                `protobuf:"varint,45,opt"`
}

type F24T0 struct {
	A0 map[int64][]byte `protobuf:"bytes,16,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 string           `protobuf:"bytes,7,opt"`
	A2 *F24T0           `protobuf:"bytes,21,opt"`
	A3 []*F24T0         `protobuf:"bytes,1,rep"`
	A4 map[int64]*F24T0 `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A5 *F24T0           `protobuf:"bytes,9,opt"`
}

type F25T0 struct {
	A0 map[int32]string  `protobuf:"bytes,8,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A1 int32             `protobuf:"zigzag32,25,opt"`
	A2 map[int64]float64 `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A3 map[int32]uint32  `protobuf:"bytes,23,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed32,2,opt"`
	A4 *uint32           `protobuf:"fixed32,18,opt"`
	A5 []int32           `protobuf:"fixed32,22,rep"`
	A6 map[int64]*F25T1  `protobuf:"bytes,24,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A7 *F25T1            `protobuf:"bytes,10,opt"`
}

type F25T1 struct {
	A0 []*F25T0 `protobuf:"bytes,1,rep"`
	A1 *F25T0   `protobuf:"bytes,2,opt"`
}

type F26T0 struct {
	A0 map[int64]int64   `protobuf:"bytes,5,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A1 *uint32           `protobuf:"varint,17,opt"`
	A2 []Enum            `protobuf:"varint,18,rep"`
	A3 map[uint32]*F26T1 `protobuf:"bytes,9,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A4 *F26T2            `protobuf:"bytes,6,opt"`
}

type F26T1 struct {
	A0 []string         `protobuf:"bytes,18,rep"`
	A1 Enum             `protobuf:"varint,11,opt"`
	A2 map[uint32]int64 `protobuf:"bytes,14,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A3 map[uint32]int64 `protobuf:"bytes,26,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"zigzag64,2,opt"`
	A4 *Enum            `protobuf:"varint,25,opt"`
	A5 []uint64         `protobuf:"fixed64,5,rep"`
	A6 []*F26T2         `protobuf:"bytes,27,rep"`
	A7 *F26T1           `protobuf:"bytes,19,opt"`
}

type F26T2 struct {
	A0 map[int32]float64 `protobuf:"bytes,2,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A1 *Enum             `protobuf:"varint,3,opt"`
	A2 *Enum             `protobuf:"varint,30,opt"`
	A3 *float32          `protobuf:"fixed32,29,opt"`
	A4 *int64            `protobuf:"fixed64,13,opt"`
	A5 float64           `protobuf:"fixed64,27,opt"`
	A6 *float64          `protobuf:"fixed64,4,opt"`
	A7 *F26T3            `protobuf:"bytes,5,opt"`
	A8 map[int32]*F26T2  `protobuf:"bytes,14,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
}

type F26T3 struct {
	A0 bool      `protobuf:"varint,15,opt"`
	A1 Enum      `protobuf:"varint,23,opt"`
	A2 []float64 `protobuf:"fixed64,20,rep"`
	A3 []*F26T4  `protobuf:"bytes,3,rep"`
	A4 uint64    `protobuf:"varint,29,opt"`
	A5 *string   `protobuf:"bytes,24,opt"`
	A6 []byte    `protobuf:"bytes,9,opt"`
	A7 *F26T0    `protobuf:"bytes,27,opt"`
	A8 []*F26T1  `protobuf:"bytes,7,rep"`
}

type F26T4 struct {
	A0 []*F26T5 `protobuf:"bytes,7,rep"`
	A1 *F26T2   `protobuf:"bytes,1,opt"`
}

type F26T5 struct {
	A0 []string             `protobuf:"bytes,2,rep"`
	A1 proto.Option[uint64] `protobuf:"varint,8,opt"`
	A2 []int32              `protobuf:"varint,27,rep"`
	A3 []uint64             `protobuf:"fixed64,26,rep"`
	A4 proto.Option[string] `protobuf:"bytes,21,opt"`
	A5 map[bool]uint32      `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A6 [][]byte             `protobuf:"bytes,19,rep"`
	A7 *F26T0               `protobuf:"bytes,16,opt"`
	A8 map[int64]*F26T3     `protobuf:"bytes,30,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A9 *F26T1               `protobuf:"bytes,5,opt"`
}

type F27T0 struct {
	A0 Enum            `protobuf:"varint,6,opt"`
	A1 []byte          `protobuf:"bytes,12,opt"`
	A2 map[int32]int64 `protobuf:"bytes,1,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
	A3 *F27T1          `protobuf:"bytes,5,opt"`
	A4 *F27T4          `protobuf:"bytes,11,opt"`
}

type F27T1 struct {
	A0  []uint64             `protobuf:"varint,19,rep"`
	A1  *int32               `protobuf:"fixed32,31,opt"`
	A2  []Enum               `protobuf:"varint,2,rep"`
	A3  map[int64]int64      `protobuf:"bytes,8,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A4  int32                `protobuf:"zigzag32,36,opt"`
	A5  proto.Option[uint32] `protobuf:"fixed32,27,opt"`
	A6  *int64               `protobuf:"varint,28,opt"`
	A7  []*F27T3             `protobuf:"bytes,35,rep"`
	A8  *F27T3               `protobuf:"bytes,12,opt"`
	A9  int32                `protobuf:"zigzag32,20,opt"`
	A10 map[bool]*F27T2      `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F27T2 struct {
	A0 []uint32 `protobuf:"fixed32,5,rep"`
	A1 []*F27T3 `protobuf:"bytes,14,rep"`
	A2 *F27T0   `protobuf:"bytes,1,opt"`
	A3 *int32   `protobuf:"varint,7,opt"`
}

type F27T3 struct {
	A0 *F27T4                `protobuf:"bytes,3,opt"`
	A1 int32                 `protobuf:"zigzag32,16,opt"`
	A2 *F27T0                `protobuf:"bytes,14,opt"`
	A3 []uint64              `protobuf:"fixed64,9,rep"`
	A4 uint32                `protobuf:"varint,6,opt"`
	A5 []float64             `protobuf:"fixed64,7,rep"`
	A6 proto.Option[float32] `protobuf:"fixed32,20,opt"`
}

type F27T4 struct {
	A0 []int64             `protobuf:"fixed64,7,rep"`
	A1 proto.Option[int64] `protobuf:"varint,9,opt"`
	A2 []*F27T5            `protobuf:"bytes,15,rep"`
	A3 *F27T0              `protobuf:"bytes,12,opt"`
}

type F27T5 struct {
	A0 map[int64]int32   `protobuf:"bytes,17,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A1 map[bool]int64    `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag64,2,opt"`
	A2 map[uint64]uint32 `protobuf:"bytes,10,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A3 []*F27T0          `protobuf:"bytes,8,rep"`
	A4 *F27T0            `protobuf:"bytes,12,opt"`
}

type F28T0 struct {
	A0  map[int64]int32  `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A1  *int32           `protobuf:"zigzag32,5,opt"`
	A2  map[bool]int32   `protobuf:"bytes,15,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A3  Enum             `protobuf:"varint,14,opt"`
	A4  map[bool]float64 `protobuf:"bytes,35,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A5  float64          `protobuf:"fixed64,3,opt"`
	A6  bool             `protobuf:"varint,25,opt"`
	A7  []Enum           `protobuf:"varint,19,rep"`
	A8  *uint64          `protobuf:"varint,27,opt"`
	A9  *int64           `protobuf:"fixed64,22,opt"`
	A10 *float32         `protobuf:"fixed32,33,opt"`
	A11 *F28T1           `protobuf:"bytes,24,opt"`
}

type F28T1 struct {
	A0 *string           `protobuf:"bytes,15,opt"`
	A1 *float64          `protobuf:"fixed64,14,opt"`
	A2 int64             `protobuf:"zigzag64,2,opt"`
	A3 []uint64          `protobuf:"fixed64,7,rep"`
	A4 bool              `protobuf:"varint,6,opt"`
	A5 map[uint64]*F28T0 `protobuf:"bytes,18,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F29T0 struct {
	A0 proto.Option[int32] `protobuf:"zigzag32,11,opt"`
	A1 []uint64            `protobuf:"varint,15,rep"`
	A2 *F29T1              `protobuf:"bytes,3,opt"`
	A3 *F29T0              `protobuf:"bytes,12,opt"`
	A4 []*F29T0            `protobuf:"bytes,14,rep"`
}

type F29T1 struct {
	A0 map[int64]int32   `protobuf:"bytes,19,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"zigzag32,2,opt"`
	A1 map[uint32]int64  `protobuf:"bytes,17,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag64,2,opt"`
	A2 int64             `protobuf:"varint,16,opt"`
	A3 uint64            `protobuf:"fixed64,5,opt"`
	A4 *F29T0            `protobuf:"bytes,8,opt"`
	A5 map[uint64]*F29T1 `protobuf:"bytes,2,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
}

type F30T0 struct {
	A0  *int32               `protobuf:"fixed32,3,opt"`
	A1  *int32               `protobuf:"varint,21,opt"`
	A2  *int64               `protobuf:"fixed64,26,opt"`
	A3  *float64             `protobuf:"fixed64,16,opt"`
	A4  *uint64              `protobuf:"fixed64,6,opt"`
	A5  proto.Option[uint32] `protobuf:"varint,17,opt"`
	A6  []Enum               `protobuf:"varint,38,rep"`
	A7  uint64               `protobuf:"fixed64,34,opt"`
	A8  map[int32]*F30T0     `protobuf:"bytes,33,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A9  *F30T0               `protobuf:"bytes,14,opt"`
	A10 *F30T0               `protobuf:"bytes,39,opt"`
	A11 map[int32]*F30T0     `protobuf:"bytes,20,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F31T0 struct {
	A0 *uint64 `protobuf:"varint,4,opt"`
	A1 []Enum  `protobuf:"varint,10,rep"`
	A2 *F31T3  `protobuf:"bytes,13,opt"`
	A3 *F31T1  `protobuf:"bytes,18,opt"`
	A4 int32   `protobuf:"fixed32,17,opt"`
	A5 *Enum   `protobuf:"varint,8,opt"`
}

type F31T1 struct {
	A0 []uint32           `protobuf:"fixed32,18,rep"`
	A1 *F31T2             `protobuf:"bytes,3,opt"`
	A2 string             `protobuf:"bytes,16,opt"`
	A3 proto.Option[bool] `protobuf:"varint,21,opt"`
	A4 []float32          `protobuf:"fixed32,19,rep"`
	A5 *F31T3             `protobuf:"bytes,8,opt"`
}

type F31T2 struct {
	A0 []*F31T2          `protobuf:"bytes,7,rep"`
	A1 *F31T0            `protobuf:"bytes,4,opt"`
	A2 map[uint64]string `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A3 int64             `protobuf:"zigzag64,21,opt"`
	A4 []float32         `protobuf:"fixed32,20,rep"`
	A5 []*F31T3          `protobuf:"bytes,3,rep"`
}

type F31T3 struct {
	A0 map[int32]float64 `protobuf:"bytes,2,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"fixed64,2,opt"`
	A1 float32           `protobuf:"fixed32,19,opt"`
	A2 *F31T0            `protobuf:"bytes,1,opt"`
	A3 []*F31T1          `protobuf:"bytes,21,rep"`
	A4 *F31T0            `protobuf:"bytes,15,opt"`
	A5 *F31T1            `protobuf:"bytes,9,opt"`
}

type F32T0 struct {
	A0 []*F32T0 `protobuf:"bytes,1,rep"`
	A1 *F32T1   `protobuf:"bytes,2,opt"`
}

type F32T1 struct {
	A0 *F32T0 `protobuf:"bytes,7,opt"`
	A1 *F32T0 `protobuf:"bytes,6,opt"`
}

type F33T0 struct {
	A0  proto.Option[int64] `protobuf:"zigzag64,11,opt"`
	A1  *Enum               `protobuf:"varint,52,opt"`
	A2  map[int64]int32     `protobuf:"bytes,51,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A3  []int32             `protobuf:"fixed32,71,rep"`
	A4  []byte              `protobuf:"bytes,61,opt"`
	A5  map[int64]*F33T1    `protobuf:"bytes,53,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A6  *int32              `protobuf:"fixed32,45,opt"`
	A7  []int64             `protobuf:"zigzag64,21,rep"`
	A8  map[string]int32    `protobuf:"bytes,7,rep" protobuf_key:"bytes,1,opt" protobuf_val:"zigzag32,2,opt"`
	A9  *bool               `protobuf:"varint,14,opt"`
	A10 int64               `protobuf:"zigzag64,1,opt"`
	A11 []int64             `protobuf:"zigzag64,8,rep"`
	A12 bool                `protobuf:"varint,44,opt"`
	A13 map[int32]float64   `protobuf:"bytes,81,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A14 proto.Option[int32] `protobuf:"varint,67,opt"`
	A15 []*F33T1            `protobuf:"bytes,24,rep"`
	A16 int64               `protobuf:"fixed64,9,opt"`
	A17 []Enum              `protobuf:"varint,13,rep"`
	A18 map[int64]*F33T1    `protobuf:"bytes,77,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A19 []int64             `protobuf:"zigzag64,59,rep"`
	A20 proto.Option[int64] `protobuf:"zigzag64,56,opt"`
	A21 *uint64             `protobuf:"varint,49,opt"`
	A22 int64               `protobuf:"varint,16,opt"`
	A23 *bool               `protobuf:"varint,28,opt"`
	A24 map[uint32]uint64   `protobuf:"bytes,25,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A25 map[int64]uint64    `protobuf:"bytes,40,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
	A26 proto.Option[int32] `protobuf:"zigzag32,79,opt"`
	A27 int32               `protobuf:"fixed32,23,opt"`
}

type F33T1 struct {
	A0  map[string]uint64    `protobuf:"bytes,57,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	A1  map[int32]*F33T2     `protobuf:"bytes,16,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2  Enum                 `protobuf:"varint,54,opt"`
	A3  string               `protobuf:"bytes,5,opt"`
	A4  *uint64              `protobuf:"varint,69,opt"`
	A5  map[int64][]byte     `protobuf:"bytes,79,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A6  []float64            `protobuf:"fixed64,38,rep"`
	A7  []uint64             `protobuf:"fixed64,84,rep"`
	A8  string               `protobuf:"bytes,50,opt"`
	A9  *int32               `protobuf:"varint,48,opt"`
	A10 proto.Option[string] `protobuf:"bytes,81,opt"`
	A11 []byte               `protobuf:"bytes,15,opt"`
	A12 *uint32              `protobuf:"varint,23,opt"`
	A13 *F33T0               `protobuf:"bytes,13,opt"`
	A14 []Enum               `protobuf:"varint,33,rep"`
	A15 *F33T0               `protobuf:"bytes,18,opt"`
	A16 int32                `protobuf:"varint,21,opt"`
	A17 map[int32]int64      `protobuf:"bytes,73,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A18 *Enum                `protobuf:"varint,87,opt"`
	A19 Enum                 `protobuf:"varint,65,opt"`
	A20 []string             `protobuf:"bytes,19,rep"`
	A21 *float32             `protobuf:"fixed32,64,opt"`
	A22 uint64               `protobuf:"fixed64,76,opt"`
	A23 map[string]int32     `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	A24 *uint32              `protobuf:"fixed32,17,opt"`
	A25 uint64               `protobuf:"varint,14,opt"`
	A26 *int32               `protobuf:"zigzag32,47,opt"`
	A27 Enum                 `protobuf:"varint,27,opt"`
}

type F33T2 struct {
	A0  map[int64]float32     `protobuf:"bytes,99,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A1  []byte                `protobuf:"bytes,23,opt"`
	A2  map[uint32]float64    `protobuf:"bytes,36,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A3  []int64               `protobuf:"varint,16,rep"`
	A4  proto.Option[int32]   `protobuf:"zigzag32,80,opt"`
	A5  []bool                `protobuf:"varint,100,rep"`
	A6  *int64                `protobuf:"varint,107,opt"`
	A7  Enum                  `protobuf:"varint,53,opt"`
	A8  Enum                  `protobuf:"varint,25,opt"`
	A9  *Enum                 `protobuf:"varint,22,opt"`
	A10 proto.Option[int32]   `protobuf:"zigzag32,10,opt"`
	A11 proto.Option[uint64]  `protobuf:"fixed64,95,opt"`
	A12 int64                 `protobuf:"fixed64,68,opt"`
	A13 map[string]float32    `protobuf:"bytes,103,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed32,2,opt"`
	A14 proto.Option[uint32]  `protobuf:"fixed32,97,opt"`
	A15 Enum                  `protobuf:"varint,40,opt"`
	A16 []Enum                `protobuf:"varint,113,rep"`
	A17 int32                 `protobuf:"zigzag32,48,opt"`
	A18 *int64                `protobuf:"fixed64,3,opt"`
	A19 []uint64              `protobuf:"varint,31,rep"`
	A20 *Enum                 `protobuf:"varint,67,opt"`
	A21 []int32               `protobuf:"varint,57,rep"`
	A22 proto.Option[uint64]  `protobuf:"fixed64,86,opt"`
	A23 *bool                 `protobuf:"varint,43,opt"`
	A24 Enum                  `protobuf:"varint,51,opt"`
	A25 *Enum                 `protobuf:"varint,66,opt"`
	A26 *uint64               `protobuf:"varint,11,opt"`
	A27 []Enum                `protobuf:"varint,62,rep"`
	A28 proto.Option[bool]    `protobuf:"varint,42,opt"`
	A29 map[int64]string      `protobuf:"bytes,18,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A30 proto.Option[uint32]  `protobuf:"fixed32,78,opt"`
	A31 uint64                `protobuf:"varint,24,opt"`
	A32 proto.Option[float32] `protobuf:"fixed32,26,opt"`
	A33 proto.Option[uint64]  `protobuf:"varint,106,opt"`
	A34 *float32              `protobuf:"fixed32,1,opt"`
	A35 []int32               `protobuf:"fixed32,46,rep"`
	A36 *F33T0                `protobuf:"bytes,87,opt"`
}

type F34T0 struct {
	A0 Enum             `protobuf:"varint,4,opt"`
	A1 []*F34T1         `protobuf:"bytes,14,rep"`
	A2 *F34T1           `protobuf:"bytes,21,opt"`
	A3 *F34T2           `protobuf:"bytes,11,opt"`
	A4 map[int64]*F34T1 `protobuf:"bytes,15,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A5 []int64          `protobuf:"fixed64,18,rep"`
}

type F34T1 struct {
	A0  proto.Option[int64]   `protobuf:"zigzag64,34,opt"`
	A1  proto.Option[int32]   `protobuf:"fixed32,2,opt"`
	A2  int64                 `protobuf:"zigzag64,21,opt"`
	A3  *F34T2                `protobuf:"bytes,3,opt"`
	A4  []byte                `protobuf:"bytes,19,opt"`
	A5  proto.Option[float32] `protobuf:"fixed32,14,opt"`
	A6  Enum                  `protobuf:"varint,27,opt"`
	A7  []bool                `protobuf:"varint,17,rep"`
	A8  map[uint32]float64    `protobuf:"bytes,31,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A9  *Enum                 `protobuf:"varint,4,opt"`
	A10 map[int32]*F34T2      `protobuf:"bytes,29,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A11 uint32                `protobuf:"fixed32,37,opt"`
}

type F34T2 struct {
	A0  []int32               `protobuf:"varint,54,rep"`
	A1  []byte                `protobuf:"bytes,49,opt"`
	A2  map[int32]int64       `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag64,2,opt"`
	A3  proto.Option[float32] `protobuf:"fixed32,42,opt"`
	A4  *uint32               `protobuf:"fixed32,29,opt"`
	A5  []int64               `protobuf:"fixed64,18,rep"`
	A6  map[uint32]uint64     `protobuf:"bytes,34,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A7  []bool                `protobuf:"varint,50,rep"`
	A8  map[uint32]bool       `protobuf:"bytes,23,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A9  []Enum                `protobuf:"varint,36,rep"`
	A10 []byte                `protobuf:"bytes,55,opt"`
	A11 map[uint32][]byte     `protobuf:"bytes,39,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A12 bool                  `protobuf:"varint,3,opt"`
	A13 bool                  `protobuf:"varint,33,opt"`
	A14 []byte                `protobuf:"bytes,58,opt"`
	A15 []Enum                `protobuf:"varint,45,rep"`
	A16 []*F34T3              `protobuf:"bytes,40,rep"`
	A17 *F34T3                `protobuf:"bytes,21,opt"`
	A18 *F34T2                `protobuf:"bytes,52,opt"`
}

type F34T3 struct {
	A0  *int64              `protobuf:"varint,27,opt"`
	A1  map[string]uint32   `protobuf:"bytes,50,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed32,2,opt"`
	A2  Enum                `protobuf:"varint,22,opt"`
	A3  *int32              `protobuf:"fixed32,2,opt"`
	A4  *Enum               `protobuf:"varint,11,opt"`
	A5  proto.Option[int32] `protobuf:"varint,4,opt"`
	A6  int64               `protobuf:"varint,39,opt"`
	A7  uint64              `protobuf:"varint,13,opt"`
	A8  []float32           `protobuf:"fixed32,37,rep"`
	A9  []int64             `protobuf:"zigzag64,28,rep"`
	A10 []float32           `protobuf:"fixed32,43,rep"`
	A11 proto.Option[int64] `protobuf:"varint,40,opt"`
	A12 float32             `protobuf:"fixed32,48,opt"`
	A13 *F34T0              `protobuf:"bytes,21,opt"`
	A14 *F34T3              `protobuf:"bytes,25,opt"`
	A15 *F34T1              `protobuf:"bytes,1,opt"`
}

type F35T0 struct {
	A0 *F35T0           `protobuf:"bytes,16,opt"`
	A1 []int32          `protobuf:"fixed32,17,rep"`
	A2 map[int64]*F35T1 `protobuf:"bytes,10,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A3 *F35T1           `protobuf:"bytes,9,opt"`
	A4 []float64        `protobuf:"fixed64,18,rep"`
}

type F35T1 struct {
	A0 *F35T2 `protobuf:"bytes,2,opt"`
}

type F35T2 struct {
	A0 map[string]*F35T0 `protobuf:"bytes,5,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A1 []*F35T1          `protobuf:"bytes,6,rep"`
}

type F36T0 struct {
	A0  []float64         `protobuf:"fixed64,30,rep"`
	A1  []uint64          `protobuf:"varint,59,rep"`
	A2  float32           `protobuf:"fixed32,38,opt"`
	A3  []int32           `protobuf:"varint,44,rep"`
	A4  *bool             `protobuf:"varint,20,opt"`
	A5  uint32            `protobuf:"fixed32,35,opt"`
	A6  []uint32          `protobuf:"fixed32,31,rep"`
	A7  []byte            `protobuf:"bytes,48,opt"`
	A8  int32             `protobuf:"varint,58,opt"`
	A9  []float32         `protobuf:"fixed32,9,rep"`
	A10 Enum              `protobuf:"varint,13,opt"`
	A11 *int32            `protobuf:"varint,6,opt"`
	A12 *string           `protobuf:"bytes,26,opt"`
	A13 []float32         `protobuf:"fixed32,22,rep"`
	A14 map[string]uint32 `protobuf:"bytes,49,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed32,2,opt"`
	A15 []*F36T1          `protobuf:"bytes,46,rep"`
	A16 []*F36T1          `protobuf:"bytes,12,rep"`
	A17 map[int32]*F36T1  `protobuf:"bytes,2,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A18 map[uint64]*F36T1 `protobuf:"bytes,24,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F36T1 struct {
	A0  *F36T2               `protobuf:"bytes,64,opt"`
	A1  *F36T0               `protobuf:"bytes,41,opt"`
	A2  int32                `protobuf:"zigzag32,2,opt"`
	A3  map[uint32]uint64    `protobuf:"bytes,30,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A4  []byte               `protobuf:"bytes,42,opt"`
	A5  []byte               `protobuf:"bytes,40,opt"`
	A6  Enum                 `protobuf:"varint,21,opt"`
	A7  uint32               `protobuf:"fixed32,20,opt"`
	A8  *uint64              `protobuf:"fixed64,35,opt"`
	A9  []Enum               `protobuf:"varint,61,rep"`
	A10 float32              `protobuf:"fixed32,11,opt"`
	A11 proto.Option[int64]  `protobuf:"varint,55,opt"`
	A12 proto.Option[uint32] `protobuf:"varint,14,opt"`
	A13 []int32              `protobuf:"varint,8,rep"`
	A14 Enum                 `protobuf:"varint,5,opt"`
	A15 [][]byte             `protobuf:"bytes,49,rep"`
	A16 proto.Option[int64]  `protobuf:"varint,16,opt"`
	A17 *Enum                `protobuf:"varint,57,opt"`
	A18 []uint64             `protobuf:"fixed64,7,rep"`
	A19 int32                `protobuf:"zigzag32,24,opt"`
	A20 map[uint64]int32     `protobuf:"bytes,31,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
}

type F36T2 struct {
	A0 map[int64]*F36T0     `protobuf:"bytes,7,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A1 []*F36T0             `protobuf:"bytes,15,rep"`
	A2 *F36T1               `protobuf:"bytes,12,opt"`
	A3 []*F36T0             `protobuf:"bytes,11,rep"`
	A4 proto.Option[uint64] `protobuf:"varint,8,opt"`
}

type F37T0 struct {
	A0  *F37T1              `protobuf:"bytes,27,opt"`
	A1  *F37T1              `protobuf:"bytes,49,opt"`
	A2  map[bool]float32    `protobuf:"bytes,46,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A3  Enum                `protobuf:"varint,30,opt"`
	A4  map[string][]byte   `protobuf:"bytes,18,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A5  map[int64]string    `protobuf:"bytes,63,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A6  []uint64            `protobuf:"fixed64,33,rep"`
	A7  [][]byte            `protobuf:"bytes,32,rep"`
	A8  *string             `protobuf:"bytes,58,opt"`
	A9  *Enum               `protobuf:"varint,47,opt"`
	A10 []string            `protobuf:"bytes,52,rep"`
	A11 uint32              `protobuf:"fixed32,11,opt"`
	A12 proto.Option[int64] `protobuf:"zigzag64,60,opt"`
	A13 map[int64]int32     `protobuf:"bytes,62,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A14 []byte              `protobuf:"bytes,42,opt"`
	A15 []int32             `protobuf:"zigzag32,61,rep"`
	A16 *uint32             `protobuf:"varint,44,opt"`
	A17 int32               `protobuf:"varint,15,opt"`
	A18 map[int32]float32   `protobuf:"bytes,16,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"fixed32,2,opt"`
	A19 []int64             `protobuf:"zigzag64,54,rep"`
	A20 map[uint32]uint64   `protobuf:"bytes,37,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A21 *float64            `protobuf:"fixed64,71,opt"`
	A22 []float64           `protobuf:"fixed64,53,rep"`
}

type F37T1 struct {
	A0  *int64               `protobuf:"varint,58,opt"`
	A1  *int32               `protobuf:"varint,7,opt"`
	A2  Enum                 `protobuf:"varint,51,opt"`
	A3  map[int64]bool       `protobuf:"bytes,50,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A4  *float32             `protobuf:"fixed32,24,opt"`
	A5  map[int64]int64      `protobuf:"bytes,18,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"zigzag64,2,opt"`
	A6  *uint32              `protobuf:"varint,3,opt"`
	A7  map[uint32]int32     `protobuf:"bytes,62,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A8  uint32               `protobuf:"varint,60,opt"`
	A9  proto.Option[int64]  `protobuf:"fixed64,56,opt"`
	A10 map[uint64]int32     `protobuf:"bytes,54,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A11 proto.Option[uint64] `protobuf:"fixed64,29,opt"`
	A12 [][]byte             `protobuf:"bytes,28,rep"`
	A13 []uint64             `protobuf:"fixed64,53,rep"`
	A14 map[int32]int64      `protobuf:"bytes,14,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A15 map[string]uint64    `protobuf:"bytes,49,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed64,2,opt"`
	A16 map[uint64]int64     `protobuf:"bytes,64,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"zigzag64,2,opt"`
	A17 int32                `protobuf:"zigzag32,30,opt"`
	A18 Enum                 `protobuf:"varint,5,opt"`
	A19 []float32            `protobuf:"fixed32,46,rep"`
	A20 []*F37T0             `protobuf:"bytes,15,rep"`
	A21 *F37T0               `protobuf:"bytes,68,opt"`
}

type F38T0 struct {
	A0 *F38T3   `protobuf:"bytes,6,opt"`
	A1 []*F38T0 `protobuf:"bytes,3,rep"`
	A2 *F38T1   `protobuf:"bytes,7,opt"`
}

type F38T1 struct {
	A0 map[uint32]*F38T2 `protobuf:"bytes,15,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F38T1            `protobuf:"bytes,13,opt"`
	A2 map[uint64]*F38T0 `protobuf:"bytes,2,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A3 *F38T1            `protobuf:"bytes,4,opt"`
}

type F38T2 struct {
	A0 *bool    `protobuf:"varint,9,opt"`
	A1 []uint32 `protobuf:"fixed32,2,rep"`
	A2 []Enum   `protobuf:"varint,3,rep"`
	A3 uint64   `protobuf:"varint,19,opt"`
	A4 *F38T3   `protobuf:"bytes,8,opt"`
	A5 []*F38T2 `protobuf:"bytes,17,rep"`
}

type F38T3 struct {
	A0 map[bool]*F38T0 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F38T1          `protobuf:"bytes,12,opt"`
	A2 *F38T0          `protobuf:"bytes,7,opt"`
	A3 []byte          `protobuf:"bytes,10,opt"`
	A4 Enum            `protobuf:"varint,18,opt"`
	A5 map[int32]int32 `protobuf:"bytes,13,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed32,2,opt"`
}

type F39T0 struct {
	A0 *F39T1            `protobuf:"bytes,12,opt"`
	A1 map[int64]*F39T5  `protobuf:"bytes,2,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A2 map[uint64]*F39T2 `protobuf:"bytes,6,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A3 int32             `protobuf:"varint,1,opt"`
}

type F39T1 struct {
	A0 uint32           `protobuf:"fixed32,18,opt"`
	A1 map[bool]*F39T2  `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *F39T3           `protobuf:"bytes,4,opt"`
	A3 map[int32]*F39T2 `protobuf:"bytes,1,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A4 *F39T2           `protobuf:"bytes,15,opt"`
}

type F39T2 struct {
	A0 map[int64]*F39T3  `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 map[uint64]*F39T1 `protobuf:"bytes,11,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *F39T2            `protobuf:"bytes,5,opt"`
	A3 *F39T4            `protobuf:"bytes,16,opt"`
	A4 map[int64]float64 `protobuf:"bytes,10,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A5 *Enum             `protobuf:"varint,6,opt"`
}

type F39T3 struct {
	A0 map[int32]*F39T4 `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F39T2           `protobuf:"bytes,10,opt"`
	A2 []*F39T1         `protobuf:"bytes,3,rep"`
}

type F39T4 struct {
	A0 *F39T5               `protobuf:"bytes,9,opt"`
	A1 []*F39T4             `protobuf:"bytes,16,rep"`
	A2 map[string]*F39T0    `protobuf:"bytes,23,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A3 []*F39T0             `protobuf:"bytes,14,rep"`
	A4 Enum                 `protobuf:"varint,13,opt"`
	A5 Enum                 `protobuf:"varint,21,opt"`
	A6 proto.Option[uint64] `protobuf:"varint,15,opt"`
}

type F39T5 struct {
	A0 []uint64             `protobuf:"fixed64,7,rep"`
	A1 []*F39T0             `protobuf:"bytes,8,rep"`
	A2 proto.Option[uint64] `protobuf:"varint,1,opt"`
}

type F40T0 struct {
	A0 map[uint32]int32 `protobuf:"bytes,21,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A1 Enum             `protobuf:"varint,7,opt"`
	A2 map[uint64]int64 `protobuf:"bytes,24,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A3 []Enum           `protobuf:"varint,9,rep"`
	A4 []uint64         `protobuf:"varint,2,rep"`
	A5 *F40T0           `protobuf:"bytes,15,opt"`
	A6 []Enum           `protobuf:"varint,8,rep"`
}

type F41T0 struct {
	A0  []byte               `protobuf:"bytes,30,opt"`
	A1  []int64              `protobuf:"varint,10,rep"`
	A2  []byte               `protobuf:"bytes,20,opt"`
	A3  []int32              `protobuf:"zigzag32,4,rep"`
	A4  []float64            `protobuf:"fixed64,1,rep"`
	A5  *int32               `protobuf:"varint,17,opt"`
	A6  *F41T1               `protobuf:"bytes,21,opt"`
	A7  proto.Option[uint32] `protobuf:"fixed32,15,opt"`
	A8  map[int32]int32      `protobuf:"bytes,34,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A9  []byte               `protobuf:"bytes,31,opt"`
	A10 *float32             `protobuf:"fixed32,35,opt"`
	A11 []uint32             `protobuf:"fixed32,3,rep"`
}

type F41T1 struct {
	A0  *F41T0              `protobuf:"bytes,4,opt"`
	A1  []*F41T1            `protobuf:"bytes,50,rep"`
	A2  []uint64            `protobuf:"varint,45,rep"`
	A3  float32             `protobuf:"fixed32,17,opt"`
	A4  *int32              `protobuf:"varint,42,opt"`
	A5  proto.Option[int32] `protobuf:"varint,18,opt"`
	A6  proto.Option[int64] `protobuf:"varint,49,opt"`
	A7  Enum                `protobuf:"varint,12,opt"`
	A8  string              `protobuf:"bytes,53,opt"`
	A9  map[int32][]byte    `protobuf:"bytes,32,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A10 *uint32             `protobuf:"varint,22,opt"`
	A11 int64               `protobuf:"zigzag64,33,opt"`
	A12 string              `protobuf:"bytes,52,opt"`
	A13 int64               `protobuf:"varint,8,opt"`
	A14 map[int64]int64     `protobuf:"bytes,21,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A15 []float64           `protobuf:"fixed64,20,rep"`
	A16 map[uint64]uint64   `protobuf:"bytes,43,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
}

type F42T0 struct {
	A0 []*F42T1 `protobuf:"bytes,18,rep"`
	A1 int32    `protobuf:"zigzag32,6,opt"`
	A2 *F42T2   `protobuf:"bytes,4,opt"`
	A3 *F42T1   `protobuf:"bytes,19,opt"`
	A4 *F42T3   `protobuf:"bytes,5,opt"`
	A5 Enum     `protobuf:"varint,11,opt"`
}

type F42T1 struct {
	A0 *F42T2 `protobuf:"bytes,10,opt"`
	A1 *F42T5 `protobuf:"bytes,4,opt"`
	A2 bool   `protobuf:"varint,1,opt"`
}

type F42T2 struct {
	A0 *F42T3           `protobuf:"bytes,3,opt"`
	A1 []*F42T5         `protobuf:"bytes,9,rep"`
	A2 *F42T1           `protobuf:"bytes,6,opt"`
	A3 map[int32]*F42T4 `protobuf:"bytes,19,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A4 []Enum           `protobuf:"varint,4,rep"`
	A5 Enum             `protobuf:"varint,1,opt"`
}

type F42T3 struct {
	A0 Enum     `protobuf:"varint,6,opt"`
	A1 []*F42T4 `protobuf:"bytes,9,rep"`
}

type F42T4 struct {
	A0 *uint32 `protobuf:"fixed32,12,opt"`
	A1 *F42T5  `protobuf:"bytes,1,opt"`
	A2 *uint32 `protobuf:"fixed32,10,opt"`
}

type F42T5 struct {
	A0 *F42T0           `protobuf:"bytes,6,opt"`
	A1 []Enum           `protobuf:"varint,1,rep"`
	A2 map[int64]*F42T0 `protobuf:"bytes,13,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A3 []*F42T4         `protobuf:"bytes,14,rep"`
}

type F43T0 struct {
	A0 []int32             `protobuf:"fixed32,23,rep"`
	A1 *uint64             `protobuf:"fixed64,11,opt"`
	A2 []int64             `protobuf:"varint,4,rep"`
	A3 int32               `protobuf:"fixed32,22,opt"`
	A4 map[bool]int32      `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A5 proto.Option[int64] `protobuf:"varint,1,opt"`
	A6 *Enum               `protobuf:"varint,6,opt"`
	A7 *Enum               `protobuf:"varint,17,opt"`
	A8 map[uint32]*F43T1   `protobuf:"bytes,8,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A9 *F43T1              `protobuf:"bytes,31,opt"`
}

type F43T1 struct {
	A0 proto.Option[uint64] `protobuf:"varint,3,opt"`
	A1 proto.Option[uint32] `protobuf:"varint,14,opt"`
	A2 *Enum                `protobuf:"varint,25,opt"`
	A3 float64              `protobuf:"fixed64,21,opt"`
	A4 map[uint32]int64     `protobuf:"bytes,13,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A5 proto.Option[int64]  `protobuf:"zigzag64,5,opt"`
	A6 *F43T0               `protobuf:"bytes,9,opt"`
	A7 []*F43T0             `protobuf:"bytes,4,rep"`
}

type F44T0 struct {
	A0 *F44T1              `protobuf:"bytes,10,opt"`
	A1 *F44T2              `protobuf:"bytes,19,opt"`
	A2 map[uint64]*F44T0   `protobuf:"bytes,2,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A3 proto.Option[int64] `protobuf:"zigzag64,11,opt"`
	A4 []Enum              `protobuf:"varint,14,rep"`
	A5 map[bool]string     `protobuf:"bytes,9,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F44T1 struct {
	A0  map[uint32]uint64    `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A1  *string              `protobuf:"bytes,28,opt"`
	A2  []int32              `protobuf:"fixed32,46,rep"`
	A3  int32                `protobuf:"varint,11,opt"`
	A4  proto.Option[uint32] `protobuf:"fixed32,30,opt"`
	A5  []string             `protobuf:"bytes,9,rep"`
	A6  float64              `protobuf:"fixed64,61,opt"`
	A7  Enum                 `protobuf:"varint,7,opt"`
	A8  proto.Option[int64]  `protobuf:"zigzag64,21,opt"`
	A9  map[uint64]bool      `protobuf:"bytes,14,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A10 *F44T2               `protobuf:"bytes,62,opt"`
	A11 *int64               `protobuf:"fixed64,45,opt"`
	A12 []int32              `protobuf:"zigzag32,24,rep"`
	A13 bool                 `protobuf:"varint,12,opt"`
	A14 *uint32              `protobuf:"fixed32,31,opt"`
	A15 *int64               `protobuf:"fixed64,37,opt"`
	A16 []int64              `protobuf:"fixed64,13,rep"`
	A17 *float64             `protobuf:"fixed64,53,opt"`
	A18 *int64               `protobuf:"zigzag64,29,opt"`
	A19 []Enum               `protobuf:"varint,48,rep"`
	A20 []*F44T0             `protobuf:"bytes,43,rep"`
	A21 proto.Option[uint32] `protobuf:"varint,39,opt"`
}

type F44T2 struct {
	A0 map[bool]*F44T3 `protobuf:"bytes,8,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *Enum           `protobuf:"varint,1,opt"`
	A2 Enum            `protobuf:"varint,11,opt"`
}

type F44T3 struct {
	A0  string               `protobuf:"bytes,73,opt"`
	A1  proto.Option[int64]  `protobuf:"zigzag64,79,opt"`
	A2  uint32               `protobuf:"fixed32,67,opt"`
	A3  []float64            `protobuf:"fixed64,52,rep"`
	A4  map[int32]string     `protobuf:"bytes,66,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A5  *int32               `protobuf:"zigzag32,96,opt"`
	A6  proto.Option[uint32] `protobuf:"varint,90,opt"`
	A7  [][]byte             `protobuf:"bytes,6,rep"`
	A8  []float64            `protobuf:"fixed64,11,rep"`
	A9  int64                `protobuf:"fixed64,80,opt"`
	A10 bool                 `protobuf:"varint,20,opt"`
	A11 proto.Option[int64]  `protobuf:"zigzag64,77,opt"`
	A12 []int64              `protobuf:"zigzag64,93,rep"`
	A13 []Enum               `protobuf:"varint,9,rep"`
	A14 *int32               `protobuf:"fixed32,89,opt"`
	A15 int64                `protobuf:"zigzag64,50,opt"`
	A16 uint64               `protobuf:"varint,1,opt"`
	A17 []int32              `protobuf:"varint,35,rep"`
	A18 int32                `protobuf:"zigzag32,65,opt"`
	A19 *uint32              `protobuf:"varint,36,opt"`
	A20 *Enum                `protobuf:"varint,54,opt"`
	A21 *int32               `protobuf:"fixed32,57,opt"`
	A22 []int64              `protobuf:"varint,60,rep"`
	A23 map[int64]uint32     `protobuf:"bytes,38,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed32,2,opt"`
	A24 []int32              `protobuf:"zigzag32,23,rep"`
	A25 *bool                `protobuf:"varint,16,opt"`
	A26 uint32               `protobuf:"varint,56,opt"`
	A27 *Enum                `protobuf:"varint,31,opt"`
	A28 *F44T0               `protobuf:"bytes,26,opt"`
	A29 []*F44T3             `protobuf:"bytes,58,rep"`
	A30 map[bool]*F44T2      `protobuf:"bytes,69,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F45T0 struct {
	A0 []*F45T1             `protobuf:"bytes,10,rep"`
	A1 []*F45T1             `protobuf:"bytes,15,rep"`
	A2 proto.Option[uint64] `protobuf:"fixed64,1,opt"`
	A3 *uint32              `protobuf:"fixed32,8,opt"`
}

type F45T1 struct {
	A0 *F45T2 `protobuf:"bytes,5,opt"`
	A1 *F45T1 `protobuf:"bytes,7,opt"`
}

type F45T2 struct {
	A0 *Enum             `protobuf:"varint,20,opt"`
	A1 []int32           `protobuf:"varint,21,rep"`
	A2 map[uint32]*F45T3 `protobuf:"bytes,13,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A3 *F45T1            `protobuf:"bytes,8,opt"`
	A4 map[string]*F45T1 `protobuf:"bytes,12,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A5 *F45T1            `protobuf:"bytes,15,opt"`
}

type F45T3 struct {
	A0 *F45T1          `protobuf:"bytes,5,opt"`
	A1 int64           `protobuf:"fixed64,14,opt"`
	A2 *F45T0          `protobuf:"bytes,18,opt"`
	A3 map[int64]int64 `protobuf:"bytes,19,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"zigzag64,2,opt"`
	A4 []*F45T0        `protobuf:"bytes,1,rep"`
	A5 []*F45T3        `protobuf:"bytes,7,rep"`
}

type F46T0 struct {
	A0 int32               `protobuf:"zigzag32,11,opt"`
	A1 proto.Option[int32] `protobuf:"varint,26,opt"`
	A2 int64               `protobuf:"fixed64,16,opt"`
	A3 *int32              `protobuf:"varint,27,opt"`
	A4 []uint32            `protobuf:"fixed32,2,rep"`
	A5 *F46T1              `protobuf:"bytes,23,opt"`
	A6 map[int32]*F46T2    `protobuf:"bytes,10,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A7 map[bool]*F46T2     `protobuf:"bytes,14,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A8 []*F46T1            `protobuf:"bytes,13,rep"`
}

type F46T1 struct {
	A0 int32               `protobuf:"zigzag32,16,opt"`
	A1 *uint64             `protobuf:"varint,4,opt"`
	A2 proto.Option[int32] `protobuf:"fixed32,17,opt"`
	A3 map[bool]*F46T2     `protobuf:"bytes,11,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A4 []*F46T1            `protobuf:"bytes,10,rep"`
}

type F46T2 struct {
	A0 []*F46T0         `protobuf:"bytes,12,rep"`
	A1 map[int64]*F46T2 `protobuf:"bytes,9,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *Enum            `protobuf:"varint,5,opt"`
	A3 *int64           `protobuf:"varint,25,opt"`
	A4 *Enum            `protobuf:"varint,1,opt"`
	A5 []byte           `protobuf:"bytes,2,opt"`
	A6 []float32        `protobuf:"fixed32,15,rep"`
	A7 Enum             `protobuf:"varint,6,opt"`
}

type F47T0 struct {
	A0  []uint64            `protobuf:"varint,15,rep"`
	A1  map[int64]*F47T0    `protobuf:"bytes,24,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A2  []*F47T1            `protobuf:"bytes,14,rep"`
	A3  proto.Option[int64] `protobuf:"fixed64,25,opt"`
	A4  proto.Option[int32] `protobuf:"varint,39,opt"`
	A5  []int64             `protobuf:"zigzag64,31,rep"`
	A6  int64               `protobuf:"zigzag64,40,opt"`
	A7  map[uint64]string   `protobuf:"bytes,8,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A8  []float64           `protobuf:"fixed64,36,rep"`
	A9  map[int32]uint32    `protobuf:"bytes,1,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A10 *F47T1              `protobuf:"bytes,7,opt"`
	A11 int64               `protobuf:"fixed64,2,opt"`
	A12 []uint32            `protobuf:"varint,45,rep"`
	A13 []bool              `protobuf:"varint,3,rep"`
}

type F47T1 struct {
	A0  *Enum                 `protobuf:"varint,18,opt"`
	A1  *int64                `protobuf:"fixed64,108,opt"`
	A2  *uint64               `protobuf:"varint,69,opt"`
	A3  *uint32               `protobuf:"varint,57,opt"`
	A4  int64                 `protobuf:"zigzag64,97,opt"`
	A5  proto.Option[int32]   `protobuf:"fixed32,9,opt"`
	A6  proto.Option[float64] `protobuf:"fixed64,39,opt"`
	A7  proto.Option[uint32]  `protobuf:"varint,112,opt"`
	A8  []Enum                `protobuf:"varint,36,rep"`
	A9  *uint64               `protobuf:"varint,80,opt"`
	A10 map[int64]uint32      `protobuf:"bytes,95,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A11 *bool                 `protobuf:"varint,33,opt"`
	A12 *float64              `protobuf:"fixed64,109,opt"`
	A13 []byte                `protobuf:"bytes,32,opt"`
	A14 *int32                `protobuf:"fixed32,77,opt"`
	A15 proto.Option[int64]   `protobuf:"zigzag64,4,opt"`
	A16 int32                 `protobuf:"varint,28,opt"`
	A17 []byte                `protobuf:"bytes,23,opt"`
	A18 []float32             `protobuf:"fixed32,73,rep"`
	A19 int32                 `protobuf:"zigzag32,59,opt"`
	A20 []Enum                `protobuf:"varint,24,rep"`
	A21 []int64               `protobuf:"varint,12,rep"`
	A22 int32                 `protobuf:"zigzag32,82,opt"`
	A23 proto.Option[int64]   `protobuf:"varint,126,opt"`
	A24 []uint32              `protobuf:"varint,5,rep"`
	A25 map[int32]uint64      `protobuf:"bytes,1,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A26 *int64                `protobuf:"varint,35,opt"`
	A27 []int64               `protobuf:"zigzag64,42,rep"`
	A28 uint32                `protobuf:"varint,26,opt"`
	A29 []int32               `protobuf:"varint,110,rep"`
	A30 proto.Option[uint64]  `protobuf:"fixed64,17,opt"`
	A31 *Enum                 `protobuf:"varint,94,opt"`
	A32 map[int32]uint64      `protobuf:"bytes,53,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A33 *int32                `protobuf:"zigzag32,62,opt"`
	A34 *int64                `protobuf:"varint,125,opt"`
	A35 *Enum                 `protobuf:"varint,84,opt"`
	A36 Enum                  `protobuf:"varint,91,opt"`
	A37 []Enum                `protobuf:"varint,29,rep"`
	A38 uint64                `protobuf:"fixed64,30,opt"`
	A39 []int32               `protobuf:"fixed32,128,rep"`
	A40 *F47T2                `protobuf:"bytes,54,opt"`
	A41 []*F47T1              `protobuf:"bytes,16,rep"`
}

type F47T2 struct {
	A0  map[uint32]*F47T3   `protobuf:"bytes,50,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1  *F47T0              `protobuf:"bytes,4,opt"`
	A2  *Enum               `protobuf:"varint,60,opt"`
	A3  map[string]int64    `protobuf:"bytes,11,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed64,2,opt"`
	A4  map[uint64]uint64   `protobuf:"bytes,38,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A5  *uint64             `protobuf:"varint,57,opt"`
	A6  map[int64][]byte    `protobuf:"bytes,24,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A7  *Enum               `protobuf:"varint,46,opt"`
	A8  proto.Option[int64] `protobuf:"varint,23,opt"`
	A9  map[int64]int64     `protobuf:"bytes,10,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A10 []uint32            `protobuf:"fixed32,27,rep"`
	A11 Enum                `protobuf:"varint,44,opt"`
	A12 proto.Option[int32] `protobuf:"fixed32,25,opt"`
	A13 int32               `protobuf:"zigzag32,7,opt"`
	A14 Enum                `protobuf:"varint,26,opt"`
	A15 []float64           `protobuf:"fixed64,51,rep"`
	A16 proto.Option[int64] `protobuf:"fixed64,56,opt"`
	A17 []byte              `protobuf:"bytes,58,opt"`
	A18 *Enum               `protobuf:"varint,67,opt"`
	A19 []uint32            `protobuf:"fixed32,47,rep"`
	A20 map[int32]string    `protobuf:"bytes,22,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A21 []Enum              `protobuf:"varint,66,rep"`
}

type F47T3 struct {
	A0  []*F47T0            `protobuf:"bytes,94,rep"`
	A1  map[int64]int64     `protobuf:"bytes,54,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"zigzag64,2,opt"`
	A2  Enum                `protobuf:"varint,75,opt"`
	A3  []uint32            `protobuf:"fixed32,13,rep"`
	A4  []Enum              `protobuf:"varint,41,rep"`
	A5  []int32             `protobuf:"zigzag32,103,rep"`
	A6  []uint64            `protobuf:"fixed64,23,rep"`
	A7  []int32             `protobuf:"zigzag32,71,rep"`
	A8  map[int32]uint64    `protobuf:"bytes,90,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"fixed64,2,opt"`
	A9  *int64              `protobuf:"fixed64,96,opt"`
	A10 bool                `protobuf:"varint,89,opt"`
	A11 map[int64]uint64    `protobuf:"bytes,59,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed64,2,opt"`
	A12 map[int64]int32     `protobuf:"bytes,47,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A13 map[int32]int64     `protobuf:"bytes,106,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"zigzag64,2,opt"`
	A14 *int64              `protobuf:"varint,1,opt"`
	A15 []Enum              `protobuf:"varint,83,rep"`
	A16 []string            `protobuf:"bytes,52,rep"`
	A17 int32               `protobuf:"fixed32,79,opt"`
	A18 proto.Option[int64] `protobuf:"zigzag64,20,opt"`
	A19 map[uint64]string   `protobuf:"bytes,76,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A20 []Enum              `protobuf:"varint,24,rep"`
	A21 []int64             `protobuf:"fixed64,4,rep"`
	A22 float32             `protobuf:"fixed32,98,opt"`
	A23 map[uint32]uint32   `protobuf:"bytes,17,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A24 *int32              `protobuf:"varint,65,opt"`
	A25 []uint32            `protobuf:"varint,108,rep"`
	A26 proto.Option[bool]  `protobuf:"varint,10,opt"`
	A27 *uint64             `protobuf:"varint,99,opt"`
	A28 map[int32]uint32    `protobuf:"bytes,45,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A29 *float32            `protobuf:"fixed32,37,opt"`
	A30 map[int64]float64   `protobuf:"bytes,64,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
	A31 float32             `protobuf:"fixed32,44,opt"`
	A32 []int64             `protobuf:"fixed64,73,rep"`
	A33 int32               `protobuf:"fixed32,30,opt"`
	A34 int64               `protobuf:"varint,91,opt"`
	A35 *Enum               `protobuf:"varint,39,opt"`
}

type F48T0 struct {
	A0 []*F48T1  `protobuf:"bytes,19,rep"`
	A1 *F48T2    `protobuf:"bytes,10,opt"`
	A2 []Enum    `protobuf:"varint,9,rep"`
	A3 Enum      `protobuf:"varint,16,opt"`
	A4 []float32 `protobuf:"fixed32,12,rep"`
	A5 *uint32   `protobuf:"fixed32,4,opt"`
}

type F48T1 struct {
	A0 proto.Option[int32] `protobuf:"zigzag32,20,opt"`
	A1 bool                `protobuf:"varint,15,opt"`
	A2 float64             `protobuf:"fixed64,3,opt"`
	A3 *int32              `protobuf:"varint,5,opt"`
	A4 map[uint32]*F48T2   `protobuf:"bytes,11,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A5 []*F48T2            `protobuf:"bytes,18,rep"`
}

type F48T2 struct {
	A0 []byte              `protobuf:"bytes,16,opt"`
	A1 map[uint64]int32    `protobuf:"bytes,13,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A2 proto.Option[int64] `protobuf:"fixed64,21,opt"`
	A3 *Enum               `protobuf:"varint,2,opt"`
	A4 map[uint64]int64    `protobuf:"bytes,8,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
	A5 *Enum               `protobuf:"varint,11,opt"`
	A6 []Enum              `protobuf:"varint,26,rep"`
	A7 []*F48T3            `protobuf:"bytes,9,rep"`
	A8 []*F48T5            `protobuf:"bytes,27,rep"`
}

type F48T3 struct {
	A0 *int32    `protobuf:"fixed32,18,opt"`
	A1 []bool    `protobuf:"varint,12,rep"`
	A2 bool      `protobuf:"varint,20,opt"`
	A3 uint64    `protobuf:"fixed64,21,opt"`
	A4 *Enum     `protobuf:"varint,9,opt"`
	A5 *F48T4    `protobuf:"bytes,14,opt"`
	A6 []int32   `protobuf:"fixed32,4,rep"`
	A7 []float64 `protobuf:"fixed64,8,rep"`
}

type F48T4 struct {
	A0 []*F48T5 `protobuf:"bytes,9,rep"`
	A1 []int64  `protobuf:"zigzag64,12,rep"`
	A2 float32  `protobuf:"fixed32,2,opt"`
	A3 *int64   `protobuf:"zigzag64,20,opt"`
	A4 *Enum    `protobuf:"varint,10,opt"`
	A5 *Enum    `protobuf:"varint,7,opt"`
}

type F48T5 struct {
	A0 map[uint64]uint32    `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A1 proto.Option[uint32] `protobuf:"varint,30,opt"`
	A2 int32                `protobuf:"zigzag32,16,opt"`
	A3 []Enum               `protobuf:"varint,8,rep"`
	A4 map[int32]int32      `protobuf:"bytes,14,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"zigzag32,2,opt"`
	A5 int64                `protobuf:"zigzag64,4,opt"`
	A6 map[uint32]int64     `protobuf:"bytes,5,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A7 map[bool]uint64      `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A8 *F48T0               `protobuf:"bytes,27,opt"`
	A9 []*F48T2             `protobuf:"bytes,26,rep"`
}

type F49T0 struct {
	A0 uint64  `protobuf:"varint,23,opt"`
	A1 *F49T3  `protobuf:"bytes,6,opt"`
	A2 float64 `protobuf:"fixed64,4,opt"`
	A3 *string `protobuf:"bytes,20,opt"`
	A4 *F49T1  `protobuf:"bytes,24,opt"`
	A5 *F49T1  `protobuf:"bytes,19,opt"`
	A6 *int64  `protobuf:"fixed64,18,opt"`
}

type F49T1 struct {
	A0 map[string]*F49T2 `protobuf:"bytes,3,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F49T0            `protobuf:"bytes,10,opt"`
	A2 map[int64]*F49T4  `protobuf:"bytes,8,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
}

type F49T2 struct {
	A0 map[int32]*F49T3  `protobuf:"bytes,6,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F49T2            `protobuf:"bytes,2,opt"`
	A2 map[uint64]*F49T0 `protobuf:"bytes,5,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A3 map[int64]int32   `protobuf:"bytes,9,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
}

type F49T3 struct {
	A0 *F49T4 `protobuf:"bytes,5,opt"`
}

type F49T4 struct {
	A0 *F49T0            `protobuf:"bytes,1,opt"`
	A1 map[uint32]*F49T0 `protobuf:"bytes,11,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *F49T1            `protobuf:"bytes,24,opt"`
	A3 *float32          `protobuf:"fixed32,13,opt"`
	A4 *Enum             `protobuf:"varint,19,opt"`
	A5 uint32            `protobuf:"fixed32,7,opt"`
	A6 *Enum             `protobuf:"varint,4,opt"`
}

type F50T0 struct {
	A0 []*F50T1           `protobuf:"bytes,2,rep"`
	A1 map[int32]*F50T1   `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 proto.Option[bool] `protobuf:"varint,5,opt"`
}

type F50T1 struct {
	A0 proto.Option[int64] `protobuf:"fixed64,19,opt"`
	A1 []Enum              `protobuf:"varint,11,rep"`
	A2 uint64              `protobuf:"varint,6,opt"`
	A3 uint64              `protobuf:"varint,3,opt"`
	A4 *F50T2              `protobuf:"bytes,2,opt"`
	A5 []*F50T0            `protobuf:"bytes,14,rep"`
}

type F50T2 struct {
	A0 int64    `protobuf:"varint,11,opt"`
	A1 *F50T0   `protobuf:"bytes,15,opt"`
	A2 *F50T2   `protobuf:"bytes,1,opt"`
	A3 *F50T0   `protobuf:"bytes,13,opt"`
	A4 []*F50T1 `protobuf:"bytes,2,rep"`
}

type F51T0 struct {
	A0 []*F51T0          `protobuf:"bytes,10,rep"`
	A1 map[uint32]*F51T0 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 map[uint64]uint32 `protobuf:"bytes,8,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
}

type F52T0 struct {
	A0 map[bool]*F52T1  `protobuf:"bytes,5,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 map[int32]*F52T1 `protobuf:"bytes,2,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *F52T1           `protobuf:"bytes,3,opt"`
}

type F52T1 struct {
	A0 map[string]*F52T2     `protobuf:"bytes,1,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F52T2                `protobuf:"bytes,4,opt"`
	A2 []*F52T1              `protobuf:"bytes,30,rep"`
	A3 proto.Option[float64] `protobuf:"fixed64,29,opt"`
	A4 proto.Option[uint64]  `protobuf:"fixed64,2,opt"`
	A5 proto.Option[float64] `protobuf:"fixed64,8,opt"`
	A6 *int64                `protobuf:"zigzag64,22,opt"`
	A7 int64                 `protobuf:"varint,15,opt"`
	A8 map[uint32]bool       `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
}

type F52T2 struct {
	A0 *F52T0           `protobuf:"bytes,14,opt"`
	A1 []*F52T3         `protobuf:"bytes,6,rep"`
	A2 *F52T3           `protobuf:"bytes,15,opt"`
	A3 map[int64]*F52T2 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F52T3 struct {
	A0 []*F52T0          `protobuf:"bytes,10,rep"`
	A1 *F52T3            `protobuf:"bytes,15,opt"`
	A2 *F52T3            `protobuf:"bytes,5,opt"`
	A3 *F52T2            `protobuf:"bytes,1,opt"`
	A4 map[uint64]string `protobuf:"bytes,16,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A5 map[string]int32  `protobuf:"bytes,4,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
}

type F53T0 struct {
	A0 *string          `protobuf:"bytes,18,opt"`
	A1 []uint64         `protobuf:"varint,9,rep"`
	A2 map[bool]float64 `protobuf:"bytes,10,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A3 map[int32]int32  `protobuf:"bytes,17,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A4 *int64           `protobuf:"varint,15,opt"`
	A5 [][]byte         `protobuf:"bytes,19,rep"`
	A6 uint64           `protobuf:"varint,2,opt"`
	A7 []*F53T1         `protobuf:"bytes,7,rep"`
}

type F53T1 struct {
	A0 map[int64]*F53T2 `protobuf:"bytes,9,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A1 []Enum           `protobuf:"varint,17,rep"`
	A2 Enum             `protobuf:"varint,11,opt"`
	A3 float64          `protobuf:"fixed64,4,opt"`
	A4 uint64           `protobuf:"fixed64,8,opt"`
}

type F53T2 struct {
	A0 *int32   `protobuf:"zigzag32,16,opt"`
	A1 Enum     `protobuf:"varint,4,opt"`
	A2 []uint32 `protobuf:"varint,14,rep"`
	A3 *string  `protobuf:"bytes,15,opt"`
	A4 uint32   `protobuf:"varint,2,opt"`
	A5 *float32 `protobuf:"fixed32,9,opt"`
	A6 *F53T0   `protobuf:"bytes,3,opt"`
	A7 []*F53T1 `protobuf:"bytes,13,rep"`
}

type F54T0 struct {
	A0 []int32          `protobuf:"fixed32,6,rep"`
	A1 *F54T0           `protobuf:"bytes,11,opt"`
	A2 []byte           `protobuf:"bytes,9,opt"`
	A3 map[int32][]byte `protobuf:"bytes,12,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A4 string           `protobuf:"bytes,21,opt"`
	A5 map[int32]uint32 `protobuf:"bytes,22,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
	A6 uint32           `protobuf:"fixed32,10,opt"`
	A7 map[int64]*F54T0 `protobuf:"bytes,27,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A8 uint32           `protobuf:"fixed32,19,opt"`
}

type F55T0 struct {
	A0 map[int64]int64      `protobuf:"bytes,8,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A1 []bool               `protobuf:"varint,18,rep"`
	A2 proto.Option[int32]  `protobuf:"varint,24,opt"`
	A3 proto.Option[uint64] `protobuf:"varint,23,opt"`
	A4 []*F55T0             `protobuf:"bytes,14,rep"`
	A5 map[bool]*F55T0      `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A6 map[uint32]*F55T1    `protobuf:"bytes,6,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
}

type F55T1 struct {
	A0  map[int32]uint32      `protobuf:"bytes,26,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A1  []uint64              `protobuf:"varint,32,rep"`
	A2  bool                  `protobuf:"varint,89,opt"`
	A3  proto.Option[int64]   `protobuf:"zigzag64,2,opt"`
	A4  map[uint32]uint64     `protobuf:"bytes,10,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A5  proto.Option[int64]   `protobuf:"fixed64,82,opt"`
	A6  []Enum                `protobuf:"varint,57,rep"`
	A7  []Enum                `protobuf:"varint,7,rep"`
	A8  []uint32              `protobuf:"fixed32,68,rep"`
	A9  []float64             `protobuf:"fixed64,86,rep"`
	A10 *Enum                 `protobuf:"varint,99,opt"`
	A11 *string               `protobuf:"bytes,62,opt"`
	A12 *int64                `protobuf:"fixed64,54,opt"`
	A13 *Enum                 `protobuf:"varint,74,opt"`
	A14 float32               `protobuf:"fixed32,53,opt"`
	A15 map[uint64]bool       `protobuf:"bytes,59,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A16 map[int64]string      `protobuf:"bytes,81,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A17 proto.Option[int64]   `protobuf:"zigzag64,51,opt"`
	A18 map[int64]int64       `protobuf:"bytes,64,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
	A19 map[uint32]int64      `protobuf:"bytes,47,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A20 *int32                `protobuf:"zigzag32,45,opt"`
	A21 proto.Option[int32]   `protobuf:"varint,67,opt"`
	A22 *bool                 `protobuf:"varint,91,opt"`
	A23 uint32                `protobuf:"varint,65,opt"`
	A24 string                `protobuf:"bytes,97,opt"`
	A25 Enum                  `protobuf:"varint,76,opt"`
	A26 []Enum                `protobuf:"varint,98,rep"`
	A27 uint64                `protobuf:"varint,37,opt"`
	A28 *Enum                 `protobuf:"varint,75,opt"`
	A29 proto.Option[float32] `protobuf:"fixed32,61,opt"`
	A30 *F55T2                `protobuf:"bytes,71,opt"`
	A31 *F55T0                `protobuf:"bytes,94,opt"`
}

type F55T2 struct {
	A0  *int64                `protobuf:"varint,8,opt"`
	A1  proto.Option[int64]   `protobuf:"varint,6,opt"`
	A2  string                `protobuf:"bytes,42,opt"`
	A3  [][]byte              `protobuf:"bytes,28,rep"`
	A4  []Enum                `protobuf:"varint,15,rep"`
	A5  []Enum                `protobuf:"varint,18,rep"`
	A6  Enum                  `protobuf:"varint,3,opt"`
	A7  proto.Option[float32] `protobuf:"fixed32,25,opt"`
	A8  []float64             `protobuf:"fixed64,39,rep"`
	A9  *F55T0                `protobuf:"bytes,10,opt"`
	A10 []*F55T0              `protobuf:"bytes,24,rep"`
	A11 *F55T0                `protobuf:"bytes,20,opt"`
	A12 map[uint64]*F55T2     `protobuf:"bytes,5,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
}

type F56T0 struct {
	A0 map[int64]*F56T1    `protobuf:"bytes,10,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 []*F56T1            `protobuf:"bytes,20,rep"`
	A2 []int32             `protobuf:"fixed32,21,rep"`
	A3 proto.Option[int32] `protobuf:"zigzag32,29,opt"`
	A4 int64               `protobuf:"varint,33,opt"`
	A5 *Enum               `protobuf:"varint,17,opt"`
	A6 []uint64            `protobuf:"fixed64,11,rep"`
	A7 Enum                `protobuf:"varint,15,opt"`
	A8 proto.Option[int32] `protobuf:"fixed32,7,opt"`
	A9 *uint32             `protobuf:"varint,9,opt"`
}

type F56T1 struct {
	A0  uint64                `protobuf:"fixed64,36,opt"`
	A1  []Enum                `protobuf:"varint,19,rep"`
	A2  uint64                `protobuf:"varint,92,opt"`
	A3  proto.Option[int64]   `protobuf:"zigzag64,18,opt"`
	A4  *string               `protobuf:"bytes,44,opt"`
	A5  proto.Option[uint64]  `protobuf:"varint,99,opt"`
	A6  proto.Option[float64] `protobuf:"fixed64,39,opt"`
	A7  []uint32              `protobuf:"fixed32,13,rep"`
	A8  []Enum                `protobuf:"varint,47,rep"`
	A9  proto.Option[float32] `protobuf:"fixed32,71,opt"`
	A10 uint32                `protobuf:"fixed32,64,opt"`
	A11 proto.Option[int64]   `protobuf:"zigzag64,12,opt"`
	A12 uint64                `protobuf:"varint,52,opt"`
	A13 map[uint32]float32    `protobuf:"bytes,90,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A14 []Enum                `protobuf:"varint,34,rep"`
	A15 [][]byte              `protobuf:"bytes,75,rep"`
	A16 *uint64               `protobuf:"fixed64,26,opt"`
	A17 proto.Option[uint64]  `protobuf:"varint,9,opt"`
	A18 proto.Option[int64]   `protobuf:"zigzag64,38,opt"`
	A19 *float32              `protobuf:"fixed32,29,opt"`
	A20 map[bool]bool         `protobuf:"bytes,20,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A21 string                `protobuf:"bytes,62,opt"`
	A22 uint64                `protobuf:"fixed64,15,opt"`
	A23 map[uint32][]byte     `protobuf:"bytes,100,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A24 *int64                `protobuf:"varint,54,opt"`
	A25 uint32                `protobuf:"fixed32,55,opt"`
	A26 []Enum                `protobuf:"varint,63,rep"`
	A27 proto.Option[int64]   `protobuf:"fixed64,59,opt"`
	A28 float32               `protobuf:"fixed32,80,opt"`
	A29 *int32                `protobuf:"zigzag32,16,opt"`
	A30 *int64                `protobuf:"fixed64,43,opt"`
	A31 proto.Option[int64]   `protobuf:"zigzag64,49,opt"`
	A32 *F56T0                `protobuf:"bytes,6,opt"`
}

type F57T0 struct {
	A0  proto.Option[int32]   `protobuf:"zigzag32,33,opt"`
	A1  map[int32]uint64      `protobuf:"bytes,82,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A2  []byte                `protobuf:"bytes,49,opt"`
	A3  proto.Option[int64]   `protobuf:"zigzag64,26,opt"`
	A4  int32                 `protobuf:"fixed32,1,opt"`
	A5  uint64                `protobuf:"varint,12,opt"`
	A6  []Enum                `protobuf:"varint,8,rep"`
	A7  proto.Option[int32]   `protobuf:"varint,37,opt"`
	A8  proto.Option[uint32]  `protobuf:"varint,48,opt"`
	A9  Enum                  `protobuf:"varint,102,opt"`
	A10 map[int32]int32       `protobuf:"bytes,59,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"fixed32,2,opt"`
	A11 proto.Option[bool]    `protobuf:"varint,90,opt"`
	A12 *Enum                 `protobuf:"varint,76,opt"`
	A13 proto.Option[uint64]  `protobuf:"varint,65,opt"`
	A14 Enum                  `protobuf:"varint,38,opt"`
	A15 *int64                `protobuf:"varint,91,opt"`
	A16 proto.Option[float32] `protobuf:"fixed32,96,opt"`
	A17 []uint32              `protobuf:"varint,64,rep"`
	A18 float32               `protobuf:"fixed32,13,opt"`
	A19 *int32                `protobuf:"fixed32,15,opt"`
	A20 map[int64]int32       `protobuf:"bytes,97,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A21 proto.Option[int32]   `protobuf:"fixed32,88,opt"`
	A22 *bool                 `protobuf:"varint,66,opt"`
	A23 Enum                  `protobuf:"varint,30,opt"`
	A24 int32                 `protobuf:"zigzag32,44,opt"`
	A25 proto.Option[float64] `protobuf:"fixed64,81,opt"`
	A26 uint32                `protobuf:"varint,52,opt"`
	A27 *float64              `protobuf:"fixed64,73,opt"`
	A28 uint64                `protobuf:"fixed64,9,opt"`
	A29 []Enum                `protobuf:"varint,74,rep"`
	A30 Enum                  `protobuf:"varint,79,opt"`
	A31 *F57T1                `protobuf:"bytes,42,opt"`
	A32 *F57T0                `protobuf:"bytes,29,opt"`
	A33 *F57T1                `protobuf:"bytes,101,opt"`
	A34 *F57T0                `protobuf:"bytes,80,opt"`
}

type F57T1 struct {
	A0  *F57T0                `protobuf:"bytes,32,opt"`
	A1  *bool                 `protobuf:"varint,18,opt"`
	A2  []int64               `protobuf:"zigzag64,27,rep"`
	A3  map[uint32]string     `protobuf:"bytes,45,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A4  Enum                  `protobuf:"varint,22,opt"`
	A5  map[int64]uint64      `protobuf:"bytes,4,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed64,2,opt"`
	A6  *uint64               `protobuf:"fixed64,58,opt"`
	A7  int32                 `protobuf:"varint,49,opt"`
	A8  Enum                  `protobuf:"varint,8,opt"`
	A9  Enum                  `protobuf:"varint,64,opt"`
	A10 *Enum                 `protobuf:"varint,36,opt"`
	A11 proto.Option[uint64]  `protobuf:"varint,16,opt"`
	A12 *Enum                 `protobuf:"varint,79,opt"`
	A13 map[uint32]string     `protobuf:"bytes,56,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A14 proto.Option[int32]   `protobuf:"zigzag32,39,opt"`
	A15 *uint32               `protobuf:"varint,62,opt"`
	A16 proto.Option[int32]   `protobuf:"varint,38,opt"`
	A17 *uint64               `protobuf:"varint,70,opt"`
	A18 int64                 `protobuf:"zigzag64,21,opt"`
	A19 map[int32]uint32      `protobuf:"bytes,3,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A20 proto.Option[int64]   `protobuf:"zigzag64,43,opt"`
	A21 []uint64              `protobuf:"fixed64,82,rep"`
	A22 proto.Option[int64]   `protobuf:"zigzag64,41,opt"`
	A23 Enum                  `protobuf:"varint,85,opt"`
	A24 []uint32              `protobuf:"varint,92,rep"`
	A25 proto.Option[float32] `protobuf:"fixed32,12,opt"`
	A26 []Enum                `protobuf:"varint,72,rep"`
	A27 map[int32]uint64      `protobuf:"bytes,88,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A28 uint64                `protobuf:"varint,34,opt"`
	A29 []Enum                `protobuf:"varint,66,rep"`
}

type F58T0 struct {
	A0 []Enum `protobuf:"varint,8,rep"`
	A1 *F58T1 `protobuf:"bytes,4,opt"`
}

type F58T1 struct {
	A0 proto.Option[uint32] `protobuf:"varint,8,opt"`
	A1 []byte               `protobuf:"bytes,7,opt"`
	A2 []bool               `protobuf:"varint,9,rep"`
	A3 *F58T2               `protobuf:"bytes,11,opt"`
	A4 *F58T0               `protobuf:"bytes,2,opt"`
	A5 []*F58T2             `protobuf:"bytes,12,rep"`
}

type F58T2 struct {
	A0 *F58T0   `protobuf:"bytes,19,opt"`
	A1 *F58T2   `protobuf:"bytes,4,opt"`
	A2 []uint64 `protobuf:"varint,13,rep"`
	A3 []int32  `protobuf:"zigzag32,9,rep"`
	A4 *int64   `protobuf:"zigzag64,11,opt"`
	A5 *Enum    `protobuf:"varint,5,opt"`
}

type F59T0 struct {
	A0  []Enum               `protobuf:"varint,32,rep"`
	A1  proto.Option[uint64] `protobuf:"varint,48,opt"`
	A2  *F59T1               `protobuf:"bytes,42,opt"`
	A3  []byte               `protobuf:"bytes,16,opt"`
	A4  *Enum                `protobuf:"varint,31,opt"`
	A5  *uint64              `protobuf:"varint,46,opt"`
	A6  *uint32              `protobuf:"varint,14,opt"`
	A7  *float64             `protobuf:"fixed64,41,opt"`
	A8  map[int64]*F59T2     `protobuf:"bytes,40,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A9  proto.Option[int64]  `protobuf:"fixed64,36,opt"`
	A10 Enum                 `protobuf:"varint,51,opt"`
	A11 *string              `protobuf:"bytes,10,opt"`
	A12 map[int32]uint64     `protobuf:"bytes,38,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A13 map[int32]int64      `protobuf:"bytes,47,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"zigzag64,2,opt"`
	A14 []Enum               `protobuf:"varint,39,rep"`
	A15 []int64              `protobuf:"zigzag64,13,rep"`
}

type F59T1 struct {
	A0  string               `protobuf:"bytes,25,opt"`
	A1  map[bool]uint64      `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A2  Enum                 `protobuf:"varint,39,opt"`
	A3  *Enum                `protobuf:"varint,18,opt"`
	A4  map[int32]int32      `protobuf:"bytes,7,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed32,2,opt"`
	A5  []Enum               `protobuf:"varint,37,rep"`
	A6  []bool               `protobuf:"varint,34,rep"`
	A7  []uint64             `protobuf:"varint,29,rep"`
	A8  Enum                 `protobuf:"varint,22,opt"`
	A9  []string             `protobuf:"bytes,26,rep"`
	A10 map[int32]uint64     `protobuf:"bytes,4,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"fixed64,2,opt"`
	A11 proto.Option[string] `protobuf:"bytes,2,opt"`
	A12 []*F59T2             `protobuf:"bytes,20,rep"`
	A13 map[int32]*F59T2     `protobuf:"bytes,23,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F59T2 struct {
	A0 int32             `protobuf:"varint,12,opt"`
	A1 map[uint64]uint64 `protobuf:"bytes,1,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
	A2 *int32            `protobuf:"varint,18,opt"`
	A3 int64             `protobuf:"varint,4,opt"`
	A4 []byte            `protobuf:"bytes,20,opt"`
	A5 *F59T3            `protobuf:"bytes,23,opt"`
	A6 *F59T0            `protobuf:"bytes,10,opt"`
}

type F59T3 struct {
	A0 []byte                `protobuf:"bytes,16,opt"`
	A1 map[int64]int64       `protobuf:"bytes,26,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"zigzag64,2,opt"`
	A2 []uint32              `protobuf:"varint,21,rep"`
	A3 bool                  `protobuf:"varint,25,opt"`
	A4 proto.Option[int32]   `protobuf:"zigzag32,11,opt"`
	A5 map[string]float32    `protobuf:"bytes,6,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed32,2,opt"`
	A6 proto.Option[float32] `protobuf:"fixed32,13,opt"`
	A7 map[uint64]*F59T0     `protobuf:"bytes,17,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A8 *F59T2                `protobuf:"bytes,22,opt"`
}

type F60T0 struct {
	A0 map[int32]*F60T1 `protobuf:"bytes,1,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
}

type F60T1 struct {
	A0 map[int64]*F60T2 `protobuf:"bytes,5,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A1 []*F60T1         `protobuf:"bytes,7,rep"`
	A2 *F60T2           `protobuf:"bytes,1,opt"`
}

type F60T2 struct {
	A0 *F60T0               `protobuf:"bytes,21,opt"`
	A1 []*F60T0             `protobuf:"bytes,19,rep"`
	A2 *F60T0               `protobuf:"bytes,17,opt"`
	A3 map[int64]uint32     `protobuf:"bytes,6,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"varint,2,opt"`
	A4 Enum                 `protobuf:"varint,22,opt"`
	A5 []float64            `protobuf:"fixed64,8,rep"`
	A6 proto.Option[uint64] `protobuf:"fixed64,26,opt"`
	A7 *uint64              `protobuf:"varint,20,opt"`
	A8 []Enum               `protobuf:"varint,1,rep"`
}

type F61T0 struct {
	A0  *Enum                `protobuf:"varint,53,opt"`
	A1  map[int32]int32      `protobuf:"bytes,51,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A2  []byte               `protobuf:"bytes,31,opt"`
	A3  map[uint32]uint32    `protobuf:"bytes,25,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A4  []int64              `protobuf:"zigzag64,11,rep"`
	A5  int64                `protobuf:"varint,33,opt"`
	A6  proto.Option[int64]  `protobuf:"varint,30,opt"`
	A7  map[uint32]int32     `protobuf:"bytes,22,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed32,2,opt"`
	A8  map[uint32]bool      `protobuf:"bytes,37,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A9  map[int32]int32      `protobuf:"bytes,18,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
	A10 *int32               `protobuf:"varint,40,opt"`
	A11 proto.Option[uint64] `protobuf:"fixed64,2,opt"`
	A12 Enum                 `protobuf:"varint,8,opt"`
	A13 map[int32]uint32     `protobuf:"bytes,39,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A14 proto.Option[int32]  `protobuf:"varint,46,opt"`
	A15 *F61T1               `protobuf:"bytes,5,opt"`
	A16 *F61T2               `protobuf:"bytes,49,opt"`
}

type F61T1 struct {
	A0  uint64                `protobuf:"varint,22,opt"`
	A1  []uint64              `protobuf:"varint,6,rep"`
	A2  float32               `protobuf:"fixed32,30,opt"`
	A3  proto.Option[float64] `protobuf:"fixed64,56,opt"`
	A4  *Enum                 `protobuf:"varint,10,opt"`
	A5  map[int64]int64       `protobuf:"bytes,32,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed64,2,opt"`
	A6  []bool                `protobuf:"varint,47,rep"`
	A7  int32                 `protobuf:"fixed32,11,opt"`
	A8  *uint64               `protobuf:"varint,48,opt"`
	A9  *int64                `protobuf:"varint,15,opt"`
	A10 Enum                  `protobuf:"varint,21,opt"`
	A11 []uint32              `protobuf:"fixed32,23,rep"`
	A12 proto.Option[bool]    `protobuf:"varint,29,opt"`
	A13 *int64                `protobuf:"varint,74,opt"`
	A14 proto.Option[int32]   `protobuf:"zigzag32,52,opt"`
	A15 float32               `protobuf:"fixed32,60,opt"`
	A16 *F61T0                `protobuf:"bytes,34,opt"`
	A17 []uint32              `protobuf:"fixed32,42,rep"`
	A18 map[int32]int64       `protobuf:"bytes,28,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A19 int32                 `protobuf:"varint,20,opt"`
	A20 []byte                `protobuf:"bytes,24,opt"`
	A21 []bool                `protobuf:"varint,2,rep"`
	A22 []*F61T2              `protobuf:"bytes,27,rep"`
	A23 []int32               `protobuf:"zigzag32,14,rep"`
}

type F61T2 struct {
	A0  *F61T0               `protobuf:"bytes,76,opt"`
	A1  *F61T1               `protobuf:"bytes,102,opt"`
	A2  []*F61T0             `protobuf:"bytes,20,rep"`
	A3  map[int32]float64    `protobuf:"bytes,13,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A4  *int64               `protobuf:"varint,10,opt"`
	A5  map[string]float64   `protobuf:"bytes,16,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed64,2,opt"`
	A6  []int32              `protobuf:"zigzag32,96,rep"`
	A7  proto.Option[int32]  `protobuf:"varint,78,opt"`
	A8  map[string]string    `protobuf:"bytes,103,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A9  map[int32]int64      `protobuf:"bytes,38,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A10 Enum                 `protobuf:"varint,23,opt"`
	A11 proto.Option[uint64] `protobuf:"fixed64,4,opt"`
	A12 map[int64]uint32     `protobuf:"bytes,57,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A13 *uint64              `protobuf:"fixed64,19,opt"`
	A14 int64                `protobuf:"varint,22,opt"`
	A15 int32                `protobuf:"fixed32,98,opt"`
	A16 []Enum               `protobuf:"varint,30,rep"`
	A17 proto.Option[int32]  `protobuf:"zigzag32,94,opt"`
	A18 proto.Option[bool]   `protobuf:"varint,92,opt"`
	A19 map[uint64]int32     `protobuf:"bytes,67,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"zigzag32,2,opt"`
	A20 *int64               `protobuf:"varint,70,opt"`
	A21 map[int64]uint32     `protobuf:"bytes,8,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A22 int64                `protobuf:"fixed64,63,opt"`
	A23 Enum                 `protobuf:"varint,65,opt"`
	A24 []string             `protobuf:"bytes,55,rep"`
	A25 *uint32              `protobuf:"fixed32,104,opt"`
	A26 map[uint32]uint32    `protobuf:"bytes,50,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A27 []int64              `protobuf:"varint,35,rep"`
	A28 []uint64             `protobuf:"varint,1,rep"`
	A29 map[int64][]byte     `protobuf:"bytes,51,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A30 []byte               `protobuf:"bytes,11,opt"`
	A31 proto.Option[uint64] `protobuf:"varint,88,opt"`
	A32 proto.Option[int64]  `protobuf:"fixed64,59,opt"`
	A33 *int32               `protobuf:"varint,97,opt"`
}

type F62T0 struct {
	A0  *float32             `protobuf:"fixed32,77,opt"`
	A1  *uint64              `protobuf:"varint,13,opt"`
	A2  *string              `protobuf:"bytes,80,opt"`
	A3  *Enum                `protobuf:"varint,14,opt"`
	A4  map[string]float64   `protobuf:"bytes,46,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed64,2,opt"`
	A5  proto.Option[uint32] `protobuf:"fixed32,33,opt"`
	A6  []Enum               `protobuf:"varint,53,rep"`
	A7  proto.Option[int64]  `protobuf:"varint,51,opt"`
	A8  uint64               `protobuf:"varint,22,opt"`
	A9  []Enum               `protobuf:"varint,55,rep"`
	A10 *F62T1               `protobuf:"bytes,69,opt"`
	A11 []byte               `protobuf:"bytes,1,opt"`
	A12 int64                `protobuf:"zigzag64,64,opt"`
	A13 uint64               `protobuf:"varint,2,opt"`
	A14 []byte               `protobuf:"bytes,28,opt"`
	A15 *int64               `protobuf:"varint,56,opt"`
	A16 proto.Option[uint32] `protobuf:"varint,5,opt"`
	A17 float32              `protobuf:"fixed32,50,opt"`
	A18 *F62T0               `protobuf:"bytes,12,opt"`
	A19 proto.Option[int32]  `protobuf:"fixed32,27,opt"`
	A20 map[int32]int64      `protobuf:"bytes,30,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A21 map[int32][]byte     `protobuf:"bytes,36,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A22 Enum                 `protobuf:"varint,75,opt"`
	A23 proto.Option[int64]  `protobuf:"zigzag64,40,opt"`
	A24 proto.Option[int32]  `protobuf:"fixed32,67,opt"`
	A25 proto.Option[uint64] `protobuf:"varint,38,opt"`
	A26 map[uint32]string    `protobuf:"bytes,19,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A27 []byte               `protobuf:"bytes,57,opt"`
	A28 []byte               `protobuf:"bytes,74,opt"`
}

type F62T1 struct {
	A0  proto.Option[string]  `protobuf:"bytes,27,opt"`
	A1  *int64                `protobuf:"varint,32,opt"`
	A2  int32                 `protobuf:"varint,31,opt"`
	A3  uint64                `protobuf:"varint,37,opt"`
	A4  proto.Option[uint64]  `protobuf:"varint,5,opt"`
	A5  map[int64]string      `protobuf:"bytes,26,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A6  map[int64]*F62T2      `protobuf:"bytes,40,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A7  proto.Option[float32] `protobuf:"fixed32,34,opt"`
	A8  *int32                `protobuf:"zigzag32,8,opt"`
	A9  uint64                `protobuf:"fixed64,6,opt"`
	A10 proto.Option[uint32]  `protobuf:"varint,15,opt"`
	A11 []float64             `protobuf:"fixed64,2,rep"`
	A12 map[string]int32      `protobuf:"bytes,35,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	A13 int64                 `protobuf:"varint,47,opt"`
	A14 []uint32              `protobuf:"varint,39,rep"`
	A15 map[uint64]uint64     `protobuf:"bytes,49,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A16 string                `protobuf:"bytes,24,opt"`
}

type F62T2 struct {
	A0  *F62T0                `protobuf:"bytes,26,opt"`
	A1  []*F62T1              `protobuf:"bytes,53,rep"`
	A2  []*F62T1              `protobuf:"bytes,32,rep"`
	A3  []string              `protobuf:"bytes,72,rep"`
	A4  *int32                `protobuf:"fixed32,27,opt"`
	A5  *int64                `protobuf:"varint,42,opt"`
	A6  *Enum                 `protobuf:"varint,59,opt"`
	A7  []Enum                `protobuf:"varint,12,rep"`
	A8  int32                 `protobuf:"fixed32,33,opt"`
	A9  []int64               `protobuf:"varint,11,rep"`
	A10 *Enum                 `protobuf:"varint,54,opt"`
	A11 map[uint64]int64      `protobuf:"bytes,45,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"zigzag64,2,opt"`
	A12 []byte                `protobuf:"bytes,19,opt"`
	A13 *int64                `protobuf:"varint,20,opt"`
	A14 *uint64               `protobuf:"fixed64,61,opt"`
	A15 Enum                  `protobuf:"varint,43,opt"`
	A16 map[int64]bool        `protobuf:"bytes,5,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"varint,2,opt"`
	A17 *uint64               `protobuf:"varint,10,opt"`
	A18 *int32                `protobuf:"varint,71,opt"`
	A19 *int64                `protobuf:"varint,55,opt"`
	A20 proto.Option[bool]    `protobuf:"varint,57,opt"`
	A21 proto.Option[float64] `protobuf:"fixed64,52,opt"`
	A22 Enum                  `protobuf:"varint,14,opt"`
	A23 proto.Option[int32]   `protobuf:"fixed32,38,opt"`
}

type F63T0 struct {
	A0  map[uint64]*F63T1     `protobuf:"bytes,80,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1  []*F63T5              `protobuf:"bytes,96,rep"`
	A2  []int32               `protobuf:"fixed32,63,rep"`
	A3  Enum                  `protobuf:"varint,71,opt"`
	A4  *string               `protobuf:"bytes,70,opt"`
	A5  *float64              `protobuf:"fixed64,16,opt"`
	A6  int64                 `protobuf:"fixed64,27,opt"`
	A7  []float64             `protobuf:"fixed64,85,rep"`
	A8  proto.Option[int64]   `protobuf:"fixed64,58,opt"`
	A9  *uint32               `protobuf:"varint,46,opt"`
	A10 *Enum                 `protobuf:"varint,67,opt"`
	A11 *int64                `protobuf:"varint,43,opt"`
	A12 proto.Option[float32] `protobuf:"fixed32,6,opt"`
	A13 []Enum                `protobuf:"varint,60,rep"`
	A14 map[uint64]int32      `protobuf:"bytes,3,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"zigzag32,2,opt"`
	A15 *uint64               `protobuf:"varint,59,opt"`
	A16 Enum                  `protobuf:"varint,37,opt"`
	A17 []Enum                `protobuf:"varint,35,rep"`
	A18 Enum                  `protobuf:"varint,50,opt"`
	A19 *Enum                 `protobuf:"varint,4,opt"`
	A20 []uint64              `protobuf:"varint,2,rep"`
	A21 []int32               `protobuf:"varint,20,rep"`
	A22 []int64               `protobuf:"varint,90,rep"`
	A23 int32                 `protobuf:"fixed32,11,opt"`
	A24 []Enum                `protobuf:"varint,56,rep"`
	A25 int32                 `protobuf:"varint,98,opt"`
	A26 []int64               `protobuf:"zigzag64,29,rep"`
	A27 proto.Option[uint32]  `protobuf:"varint,52,opt"`
	A28 *int64                `protobuf:"varint,72,opt"`
	A29 *bool                 `protobuf:"varint,25,opt"`
	A30 []uint64              `protobuf:"fixed64,75,rep"`
	A31 map[int64]int32       `protobuf:"bytes,7,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"varint,2,opt"`
}

type F63T1 struct {
	A0  []Enum              `protobuf:"varint,37,rep"`
	A1  []byte              `protobuf:"bytes,35,opt"`
	A2  float64             `protobuf:"fixed64,58,opt"`
	A3  map[int64]bool      `protobuf:"bytes,12,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A4  []Enum              `protobuf:"varint,27,rep"`
	A5  float32             `protobuf:"fixed32,9,opt"`
	A6  *int64              `protobuf:"varint,24,opt"`
	A7  *F63T2              `protobuf:"bytes,13,opt"`
	A8  []uint64            `protobuf:"varint,19,rep"`
	A9  proto.Option[int64] `protobuf:"fixed64,36,opt"`
	A10 proto.Option[int64] `protobuf:"varint,26,opt"`
	A11 []int32             `protobuf:"zigzag32,28,rep"`
	A12 []float64           `protobuf:"fixed64,30,rep"`
	A13 map[int64]*F63T2    `protobuf:"bytes,55,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A14 bool                `protobuf:"varint,33,opt"`
	A15 *Enum               `protobuf:"varint,3,opt"`
	A16 int32               `protobuf:"fixed32,18,opt"`
	A17 int32               `protobuf:"zigzag32,14,opt"`
	A18 proto.Option[int32] `protobuf:"zigzag32,46,opt"`
}

type F63T2 struct {
	A0 *F63T3              `protobuf:"bytes,16,opt"`
	A1 map[int64]*F63T3    `protobuf:"bytes,23,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *F63T3              `protobuf:"bytes,1,opt"`
	A3 *Enum               `protobuf:"varint,3,opt"`
	A4 map[uint64]int32    `protobuf:"bytes,10,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"zigzag32,2,opt"`
	A5 proto.Option[int64] `protobuf:"varint,26,opt"`
	A6 []Enum              `protobuf:"varint,25,rep"`
	A7 *uint64             `protobuf:"varint,28,opt"`
	A8 []Enum              `protobuf:"varint,18,rep"`
}

type F63T3 struct {
	A0  *int64               `protobuf:"varint,70,opt"`
	A1  *Enum                `protobuf:"varint,5,opt"`
	A2  map[int32]uint64     `protobuf:"bytes,50,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A3  int32                `protobuf:"fixed32,56,opt"`
	A4  Enum                 `protobuf:"varint,63,opt"`
	A5  *float64             `protobuf:"fixed64,95,opt"`
	A6  map[int64]bool       `protobuf:"bytes,86,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"varint,2,opt"`
	A7  map[int32]int32      `protobuf:"bytes,71,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"zigzag32,2,opt"`
	A8  []string             `protobuf:"bytes,72,rep"`
	A9  *float32             `protobuf:"fixed32,39,opt"`
	A10 *Enum                `protobuf:"varint,30,opt"`
	A11 *F63T4               `protobuf:"bytes,98,opt"`
	A12 *bool                `protobuf:"varint,99,opt"`
	A13 *Enum                `protobuf:"varint,13,opt"`
	A14 *uint32              `protobuf:"varint,83,opt"`
	A15 proto.Option[uint64] `protobuf:"varint,45,opt"`
	A16 map[uint32]int64     `protobuf:"bytes,79,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A17 *uint32              `protobuf:"varint,3,opt"`
	A18 []byte               `protobuf:"bytes,34,opt"`
	A19 proto.Option[int32]  `protobuf:"zigzag32,61,opt"`
	A20 map[int64]int64      `protobuf:"bytes,24,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed64,2,opt"`
	A21 *F63T1               `protobuf:"bytes,14,opt"`
	A22 *uint64              `protobuf:"varint,43,opt"`
	A23 map[int64]uint32     `protobuf:"bytes,73,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A24 float32              `protobuf:"fixed32,97,opt"`
	A25 *Enum                `protobuf:"varint,82,opt"`
	A26 map[int32][]byte     `protobuf:"bytes,59,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A27 int64                `protobuf:"fixed64,20,opt"`
	A28 proto.Option[int32]  `protobuf:"fixed32,53,opt"`
	A29 *float64             `protobuf:"fixed64,37,opt"`
	A30 []Enum               `protobuf:"varint,23,rep"`
	A31 map[int32]uint64     `protobuf:"bytes,90,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
}

type F63T4 struct {
	A0 map[uint32]*F63T5     `protobuf:"bytes,22,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A1 map[uint32]*F63T1     `protobuf:"bytes,17,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *F63T2                `protobuf:"bytes,4,opt"`
	A3 map[int64]*F63T2      `protobuf:"bytes,1,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A4 *int64                `protobuf:"fixed64,6,opt"`
	A5 []float64             `protobuf:"fixed64,33,rep"`
	A6 proto.Option[float64] `protobuf:"fixed64,10,opt"`
	A7 *int32                `protobuf:"zigzag32,7,opt"`
	A8 int64                 `protobuf:"zigzag64,14,opt"`
	A9 proto.Option[bool]    `protobuf:"varint,24,opt"`
}

type F63T5 struct {
	A0  *Enum                `protobuf:"varint,58,opt"`
	A1  *uint32              `protobuf:"varint,44,opt"`
	A2  proto.Option[int32]  `protobuf:"zigzag32,39,opt"`
	A3  *string              `protobuf:"bytes,50,opt"`
	A4  float64              `protobuf:"fixed64,25,opt"`
	A5  map[int32]int64      `protobuf:"bytes,37,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"fixed64,2,opt"`
	A6  Enum                 `protobuf:"varint,60,opt"`
	A7  *Enum                `protobuf:"varint,57,opt"`
	A8  int64                `protobuf:"varint,56,opt"`
	A9  *F63T4               `protobuf:"bytes,49,opt"`
	A10 *F63T3               `protobuf:"bytes,18,opt"`
	A11 int64                `protobuf:"zigzag64,45,opt"`
	A12 []Enum               `protobuf:"varint,1,rep"`
	A13 *F63T0               `protobuf:"bytes,23,opt"`
	A14 map[bool]float32     `protobuf:"bytes,27,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A15 uint32               `protobuf:"varint,62,opt"`
	A16 *F63T1               `protobuf:"bytes,28,opt"`
	A17 map[uint32][]byte    `protobuf:"bytes,14,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A18 proto.Option[uint32] `protobuf:"varint,36,opt"`
	A19 []Enum               `protobuf:"varint,11,rep"`
}

type F64T0 struct {
	A0 []int64           `protobuf:"varint,2,rep"`
	A1 map[int32]int32   `protobuf:"bytes,26,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
	A2 map[uint32]uint32 `protobuf:"bytes,10,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A3 []int32           `protobuf:"varint,16,rep"`
	A4 []Enum            `protobuf:"varint,1,rep"`
	A5 map[uint64]*F64T1 `protobuf:"bytes,19,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A6 []*F64T1          `protobuf:"bytes,5,rep"`
	A7 map[uint32]*F64T4 `protobuf:"bytes,14,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F64T1 struct {
	A0  map[int32]int64      `protobuf:"bytes,41,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
	A1  map[uint32]bool      `protobuf:"bytes,14,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A2  proto.Option[uint32] `protobuf:"varint,6,opt"`
	A3  *int32               `protobuf:"varint,51,opt"`
	A4  proto.Option[int32]  `protobuf:"zigzag32,54,opt"`
	A5  []Enum               `protobuf:"varint,38,rep"`
	A6  proto.Option[int32]  `protobuf:"varint,55,opt"`
	A7  *bool                `protobuf:"varint,21,opt"`
	A8  proto.Option[int32]  `protobuf:"varint,39,opt"`
	A9  proto.Option[int64]  `protobuf:"zigzag64,27,opt"`
	A10 Enum                 `protobuf:"varint,20,opt"`
	A11 *uint32              `protobuf:"fixed32,1,opt"`
	A12 Enum                 `protobuf:"varint,52,opt"`
	A13 Enum                 `protobuf:"varint,23,opt"`
	A14 int64                `protobuf:"varint,50,opt"`
	A15 map[int32]*F64T2     `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A16 *F64T4               `protobuf:"bytes,13,opt"`
	A17 map[int64]*F64T1     `protobuf:"bytes,43,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F64T2 struct {
	A0  map[uint32]*F64T3    `protobuf:"bytes,18,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A1  map[int32]*F64T2     `protobuf:"bytes,35,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2  []string             `protobuf:"bytes,4,rep"`
	A3  []byte               `protobuf:"bytes,16,opt"`
	A4  []Enum               `protobuf:"varint,26,rep"`
	A5  []uint64             `protobuf:"fixed64,31,rep"`
	A6  []int64              `protobuf:"zigzag64,48,rep"`
	A7  *Enum                `protobuf:"varint,40,opt"`
	A8  proto.Option[bool]   `protobuf:"varint,33,opt"`
	A9  proto.Option[uint32] `protobuf:"fixed32,17,opt"`
	A10 int64                `protobuf:"fixed64,12,opt"`
	A11 []string             `protobuf:"bytes,36,rep"`
	A12 []Enum               `protobuf:"varint,37,rep"`
	A13 string               `protobuf:"bytes,32,opt"`
	A14 []uint64             `protobuf:"varint,27,rep"`
	A15 []Enum               `protobuf:"varint,38,rep"`
}

type F64T3 struct {
	A0  []*F64T4             `protobuf:"bytes,38,rep"`
	A1  []*F64T4             `protobuf:"bytes,52,rep"`
	A2  map[int64]string     `protobuf:"bytes,46,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A3  map[string]int32     `protobuf:"bytes,51,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed32,2,opt"`
	A4  proto.Option[uint32] `protobuf:"varint,27,opt"`
	A5  [][]byte             `protobuf:"bytes,14,rep"`
	A6  []uint64             `protobuf:"varint,55,rep"`
	A7  uint32               `protobuf:"fixed32,29,opt"`
	A8  map[int64]uint64     `protobuf:"bytes,59,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A9  uint32               `protobuf:"varint,22,opt"`
	A10 []byte               `protobuf:"bytes,28,opt"`
	A11 Enum                 `protobuf:"varint,15,opt"`
	A12 proto.Option[int64]  `protobuf:"fixed64,30,opt"`
	A13 []Enum               `protobuf:"varint,37,rep"`
	A14 uint64               `protobuf:"varint,2,opt"`
	A15 map[string]bool      `protobuf:"bytes,53,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	A16 map[string]uint32    `protobuf:"bytes,8,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed32,2,opt"`
	A17 *int32               `protobuf:"zigzag32,1,opt"`
	A18 *int64               `protobuf:"zigzag64,40,opt"`
}

type F64T4 struct {
	A0  map[uint64]int32     `protobuf:"bytes,4,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A1  []uint64             `protobuf:"varint,24,rep"`
	A2  proto.Option[int64]  `protobuf:"zigzag64,36,opt"`
	A3  *int32               `protobuf:"varint,8,opt"`
	A4  proto.Option[string] `protobuf:"bytes,53,opt"`
	A5  proto.Option[int32]  `protobuf:"fixed32,32,opt"`
	A6  proto.Option[int32]  `protobuf:"fixed32,56,opt"`
	A7  proto.Option[bool]   `protobuf:"varint,51,opt"`
	A8  string               `protobuf:"bytes,20,opt"`
	A9  int64                `protobuf:"zigzag64,48,opt"`
	A10 Enum                 `protobuf:"varint,2,opt"`
	A11 map[int64]int32      `protobuf:"bytes,55,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A12 uint32               `protobuf:"fixed32,49,opt"`
	A13 map[int64]*F64T4     `protobuf:"bytes,5,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A14 []Enum               `protobuf:"varint,13,rep"`
	A15 []int64              `protobuf:"zigzag64,11,rep"`
	A16 float64              `protobuf:"fixed64,42,opt"`
	A17 []int64              `protobuf:"zigzag64,7,rep"`
	A18 []*F64T0             `protobuf:"bytes,25,rep"`
	A19 proto.Option[int64]  `protobuf:"varint,37,opt"`
}

type F65T0 struct {
	A0 map[uint32]*F65T1 `protobuf:"bytes,21,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A1 []*F65T0          `protobuf:"bytes,10,rep"`
	A2 *Enum             `protobuf:"varint,19,opt"`
	A3 []byte            `protobuf:"bytes,4,opt"`
	A4 int32             `protobuf:"zigzag32,13,opt"`
	A5 []int64           `protobuf:"fixed64,11,rep"`
}

type F65T1 struct {
	A0  *Enum                `protobuf:"varint,11,opt"`
	A1  *float32             `protobuf:"fixed32,58,opt"`
	A2  []byte               `protobuf:"bytes,27,opt"`
	A3  uint32               `protobuf:"varint,33,opt"`
	A4  []byte               `protobuf:"bytes,79,opt"`
	A5  *bool                `protobuf:"varint,6,opt"`
	A6  int64                `protobuf:"varint,101,opt"`
	A7  Enum                 `protobuf:"varint,51,opt"`
	A8  []int32              `protobuf:"zigzag32,65,rep"`
	A9  []byte               `protobuf:"bytes,86,opt"`
	A10 []Enum               `protobuf:"varint,32,rep"`
	A11 *Enum                `protobuf:"varint,61,opt"`
	A12 int64                `protobuf:"zigzag64,67,opt"`
	A13 []int32              `protobuf:"zigzag32,96,rep"`
	A14 map[string]int64     `protobuf:"bytes,97,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	A15 map[int32]uint64     `protobuf:"bytes,5,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A16 uint64               `protobuf:"varint,3,opt"`
	A17 Enum                 `protobuf:"varint,34,opt"`
	A18 []uint64             `protobuf:"fixed64,93,rep"`
	A19 int32                `protobuf:"varint,102,opt"`
	A20 *float64             `protobuf:"fixed64,29,opt"`
	A21 *Enum                `protobuf:"varint,82,opt"`
	A22 map[string]uint32    `protobuf:"bytes,24,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	A23 proto.Option[uint32] `protobuf:"varint,10,opt"`
	A24 Enum                 `protobuf:"varint,38,opt"`
	A25 *F65T2               `protobuf:"bytes,8,opt"`
	A26 map[string]int64     `protobuf:"bytes,56,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed64,2,opt"`
	A27 proto.Option[int64]  `protobuf:"varint,47,opt"`
	A28 int32                `protobuf:"varint,54,opt"`
	A29 map[int32]int32      `protobuf:"bytes,91,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
	A30 [][]byte             `protobuf:"bytes,90,rep"`
	A31 proto.Option[uint64] `protobuf:"fixed64,4,opt"`
	A32 float64              `protobuf:"fixed64,40,opt"`
	A33 *int32               `protobuf:"fixed32,80,opt"`
	A34 *Enum                `protobuf:"varint,85,opt"`
	A35 []int64              `protobuf:"varint,69,rep"`
	A36 []int64              `protobuf:"zigzag64,110,rep"`
	A37 *float64             `protobuf:"fixed64,98,opt"`
}

type F65T2 struct {
	A0  string                `protobuf:"bytes,14,opt"`
	A1  proto.Option[int32]   `protobuf:"fixed32,81,opt"`
	A2  []byte                `protobuf:"bytes,15,opt"`
	A3  []uint64              `protobuf:"varint,12,rep"`
	A4  map[uint32]uint32     `protobuf:"bytes,41,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A5  []uint32              `protobuf:"fixed32,43,rep"`
	A6  float32               `protobuf:"fixed32,50,opt"`
	A7  proto.Option[bool]    `protobuf:"varint,57,opt"`
	A8  []int64               `protobuf:"zigzag64,85,rep"`
	A9  []uint32              `protobuf:"varint,63,rep"`
	A10 []float64             `protobuf:"fixed64,44,rep"`
	A11 string                `protobuf:"bytes,54,opt"`
	A12 *Enum                 `protobuf:"varint,86,opt"`
	A13 []uint32              `protobuf:"fixed32,33,rep"`
	A14 proto.Option[float64] `protobuf:"fixed64,55,opt"`
	A15 []int64               `protobuf:"varint,76,rep"`
	A16 map[uint32]string     `protobuf:"bytes,18,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A17 []float32             `protobuf:"fixed32,82,rep"`
	A18 map[bool]bool         `protobuf:"bytes,22,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A19 *int64                `protobuf:"fixed64,40,opt"`
	A20 []byte                `protobuf:"bytes,74,opt"`
	A21 map[uint32]int32      `protobuf:"bytes,64,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A22 map[int64]uint64      `protobuf:"bytes,87,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"varint,2,opt"`
	A23 map[uint32]uint32     `protobuf:"bytes,84,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A24 proto.Option[float32] `protobuf:"fixed32,8,opt"`
	A25 int64                 `protobuf:"fixed64,53,opt"`
	A26 *F65T0                `protobuf:"bytes,66,opt"`
	A27 map[int32]*F65T2      `protobuf:"bytes,52,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A28 []*F65T1              `protobuf:"bytes,24,rep"`
}

type F66T0 struct {
	A0 map[uint32]string `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F66T1            `protobuf:"bytes,7,opt"`
	A2 *F66T2            `protobuf:"bytes,14,opt"`
	A3 []*F66T1          `protobuf:"bytes,5,rep"`
	A4 *F66T4            `protobuf:"bytes,9,opt"`
}

type F66T1 struct {
	A0 *F66T1             `protobuf:"bytes,6,opt"`
	A1 *uint64            `protobuf:"varint,10,opt"`
	A2 []*F66T1           `protobuf:"bytes,20,rep"`
	A3 *F66T2             `protobuf:"bytes,1,opt"`
	A4 []*F66T2           `protobuf:"bytes,24,rep"`
	A5 proto.Option[bool] `protobuf:"varint,11,opt"`
	A6 *int64             `protobuf:"fixed64,14,opt"`
	A7 uint32             `protobuf:"fixed32,25,opt"`
}

type F66T2 struct {
	A0 *F66T3 `protobuf:"bytes,3,opt"`
}

type F66T3 struct {
	A0 *F66T5   `protobuf:"bytes,4,opt"`
	A1 []*F66T4 `protobuf:"bytes,12,rep"`
	A2 *F66T3   `protobuf:"bytes,2,opt"`
	A3 *F66T1   `protobuf:"bytes,11,opt"`
}

type F66T4 struct {
	A0 *uint32           `protobuf:"fixed32,4,opt"`
	A1 map[string]uint64 `protobuf:"bytes,15,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	A2 map[int64]*F66T5  `protobuf:"bytes,9,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A3 map[int64]*F66T4  `protobuf:"bytes,20,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A4 float64           `protobuf:"fixed64,14,opt"`
	A5 []*F66T2          `protobuf:"bytes,11,rep"`
}

type F66T5 struct {
	A0 *Enum             `protobuf:"varint,9,opt"`
	A1 *F66T0            `protobuf:"bytes,4,opt"`
	A2 map[int64]*F66T1  `protobuf:"bytes,15,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A3 map[uint32]*F66T3 `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F67T0 struct {
	A0 []*F67T1 `protobuf:"bytes,10,rep"`
	A1 []bool   `protobuf:"varint,11,rep"`
	A2 *F67T0   `protobuf:"bytes,5,opt"`
	A3 float32  `protobuf:"fixed32,8,opt"`
}

type F67T1 struct {
	A0 []int64  `protobuf:"varint,2,rep"`
	A1 *F67T2   `protobuf:"bytes,1,opt"`
	A2 []*F67T0 `protobuf:"bytes,9,rep"`
}

type F67T2 struct {
	A0 *F67T0          `protobuf:"bytes,11,opt"`
	A1 map[bool]*F67T1 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 []*F67T0        `protobuf:"bytes,7,rep"`
}

type F68T0 struct {
	A0 []*F68T1           `protobuf:"bytes,14,rep"`
	A1 *F68T0             `protobuf:"bytes,1,opt"`
	A2 *F68T2             `protobuf:"bytes,12,opt"`
	A3 map[int32]*F68T0   `protobuf:"bytes,16,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A4 []Enum             `protobuf:"varint,3,rep"`
	A5 map[uint32]float64 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
}

type F68T1 struct {
	A0 *F68T2 `protobuf:"bytes,4,opt"`
	A1 *F68T0 `protobuf:"bytes,1,opt"`
}

type F68T2 struct {
	A0 *F68T0 `protobuf:"bytes,9,opt"`
	A1 *int32 `protobuf:"varint,1,opt"`
	A2 *F68T0 `protobuf:"bytes,8,opt"`
}

type F69T0 struct {
	A0 Enum              `protobuf:"varint,2,opt"`
	A1 []int32           `protobuf:"varint,19,rep"`
	A2 map[uint64][]byte `protobuf:"bytes,13,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A3 *Enum             `protobuf:"varint,18,opt"`
	A4 map[int32]*F69T1  `protobuf:"bytes,14,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A5 []*F69T0          `protobuf:"bytes,9,rep"`
}

type F69T1 struct {
	A0 *F69T2               `protobuf:"bytes,7,opt"`
	A1 *F69T0               `protobuf:"bytes,1,opt"`
	A2 proto.Option[uint32] `protobuf:"varint,10,opt"`
}

type F69T2 struct {
	A0 *F69T3 `protobuf:"bytes,4,opt"`
}

type F69T3 struct {
	A0 *F69T4            `protobuf:"bytes,6,opt"`
	A1 *Enum             `protobuf:"varint,5,opt"`
	A2 map[string]*F69T0 `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}

type F69T4 struct {
	A0 *F69T1   `protobuf:"bytes,7,opt"`
	A1 []*F69T5 `protobuf:"bytes,8,rep"`
}

type F69T5 struct {
	A0 *F69T0            `protobuf:"bytes,4,opt"`
	A1 map[bool]uint32   `protobuf:"bytes,13,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A2 string            `protobuf:"bytes,14,opt"`
	A3 map[uint32]*F69T0 `protobuf:"bytes,10,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F70T0 struct {
	A0 []*F70T0 `protobuf:"bytes,2,rep"`
	A1 *F70T0   `protobuf:"bytes,5,opt"`
}

type F71T0 struct {
	A0 *F71T3            `protobuf:"bytes,5,opt"`
	A1 map[uint32]*F71T1 `protobuf:"bytes,7,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A2 map[uint32]int32  `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
}

type F71T1 struct {
	A0 map[uint32]int32 `protobuf:"bytes,7,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A1 int64            `protobuf:"zigzag64,4,opt"`
	A2 *F71T2           `protobuf:"bytes,8,opt"`
}

type F71T2 struct {
	A0  uint32            `protobuf:"varint,18,opt"`
	A1  *Enum             `protobuf:"varint,12,opt"`
	A2  *int64            `protobuf:"varint,7,opt"`
	A3  *Enum             `protobuf:"varint,33,opt"`
	A4  *Enum             `protobuf:"varint,37,opt"`
	A5  []bool            `protobuf:"varint,3,rep"`
	A6  []uint32          `protobuf:"varint,14,rep"`
	A7  int64             `protobuf:"zigzag64,30,opt"`
	A8  []*F71T3          `protobuf:"bytes,11,rep"`
	A9  map[uint64]*F71T0 `protobuf:"bytes,29,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A10 []*F71T1          `protobuf:"bytes,6,rep"`
	A11 *F71T1            `protobuf:"bytes,8,opt"`
}

type F71T3 struct {
	A0 []*F71T0            `protobuf:"bytes,14,rep"`
	A1 *F71T1              `protobuf:"bytes,9,opt"`
	A2 map[uint32]*F71T0   `protobuf:"bytes,2,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A3 Enum                `protobuf:"varint,3,opt"`
	A4 int32               `protobuf:"fixed32,19,opt"`
	A5 []byte              `protobuf:"bytes,23,opt"`
	A6 int32               `protobuf:"varint,28,opt"`
	A7 proto.Option[bool]  `protobuf:"varint,11,opt"`
	A8 proto.Option[int32] `protobuf:"zigzag32,31,opt"`
	A9 proto.Option[int32] `protobuf:"fixed32,20,opt"`
}

type F72T0 struct {
	A0  uint32               `protobuf:"fixed32,50,opt"`
	A1  map[uint64]float32   `protobuf:"bytes,79,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A2  []string             `protobuf:"bytes,80,rep"`
	A3  map[int64]int32      `protobuf:"bytes,89,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"varint,2,opt"`
	A4  *F72T2               `protobuf:"bytes,36,opt"`
	A5  []int64              `protobuf:"zigzag64,60,rep"`
	A6  uint64               `protobuf:"fixed64,95,opt"`
	A7  string               `protobuf:"bytes,29,opt"`
	A8  proto.Option[int32]  `protobuf:"fixed32,19,opt"`
	A9  *int32               `protobuf:"zigzag32,73,opt"`
	A10 proto.Option[uint64] `protobuf:"varint,31,opt"`
	A11 Enum                 `protobuf:"varint,35,opt"`
	A12 []int32              `protobuf:"fixed32,13,rep"`
	A13 []*F72T4             `protobuf:"bytes,7,rep"`
	A14 uint64               `protobuf:"varint,91,opt"`
	A15 map[int32]int32      `protobuf:"bytes,15,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A16 *Enum                `protobuf:"varint,38,opt"`
	A17 *int64               `protobuf:"zigzag64,34,opt"`
	A18 float32              `protobuf:"fixed32,93,opt"`
	A19 int64                `protobuf:"zigzag64,28,opt"`
	A20 []int32              `protobuf:"varint,26,rep"`
	A21 map[int64]int32      `protobuf:"bytes,25,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed32,2,opt"`
	A22 []Enum               `protobuf:"varint,90,rep"`
	A23 map[uint32]uint64    `protobuf:"bytes,48,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A24 *F72T1               `protobuf:"bytes,24,opt"`
	A25 int64                `protobuf:"zigzag64,68,opt"`
	A26 *Enum                `protobuf:"varint,33,opt"`
	A27 proto.Option[int64]  `protobuf:"varint,46,opt"`
	A28 []int32              `protobuf:"zigzag32,77,rep"`
	A29 []float32            `protobuf:"fixed32,42,rep"`
	A30 []uint32             `protobuf:"fixed32,32,rep"`
	A31 []int64              `protobuf:"fixed64,14,rep"`
	A32 uint32               `protobuf:"varint,9,opt"`
	A33 *F72T1               `protobuf:"bytes,64,opt"`
}

type F72T1 struct {
	A0 *F72T2   `protobuf:"bytes,7,opt"`
	A1 []*F72T0 `protobuf:"bytes,3,rep"`
	A2 *F72T2   `protobuf:"bytes,4,opt"`
}

type F72T2 struct {
	A0  *int64           `protobuf:"fixed64,10,opt"`
	A1  map[int32]uint32 `protobuf:"bytes,38,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A2  float64          `protobuf:"fixed64,1,opt"`
	A3  Enum             `protobuf:"varint,20,opt"`
	A4  float64          `protobuf:"fixed64,11,opt"`
	A5  map[int64]uint32 `protobuf:"bytes,22,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A6  *int64           `protobuf:"fixed64,28,opt"`
	A7  *int64           `protobuf:"zigzag64,35,opt"`
	A8  *uint32          `protobuf:"varint,21,opt"`
	A9  bool             `protobuf:"varint,46,opt"`
	A10 []byte           `protobuf:"bytes,36,opt"`
	A11 []*F72T3         `protobuf:"bytes,34,rep"`
	A12 *F72T1           `protobuf:"bytes,13,opt"`
	A13 []*F72T1         `protobuf:"bytes,23,rep"`
	A14 map[int64]*F72T3 `protobuf:"bytes,41,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F72T3 struct {
	A0 *F72T4           `protobuf:"bytes,22,opt"`
	A1 *F72T3           `protobuf:"bytes,2,opt"`
	A2 *F72T0           `protobuf:"bytes,20,opt"`
	A3 []*F72T4         `protobuf:"bytes,1,rep"`
	A4 int32            `protobuf:"varint,23,opt"`
	A5 map[int64]uint64 `protobuf:"bytes,8,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"varint,2,opt"`
	A6 *int64           `protobuf:"varint,27,opt"`
	A7 *Enum            `protobuf:"varint,12,opt"`
}

type F72T4 struct {
	A0  uint64              `protobuf:"varint,79,opt"`
	A1  *string             `protobuf:"bytes,1,opt"`
	A2  *float64            `protobuf:"fixed64,71,opt"`
	A3  map[int32]bool      `protobuf:"bytes,15,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
	A4  map[int32]int64     `protobuf:"bytes,57,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"zigzag64,2,opt"`
	A5  []uint64            `protobuf:"varint,66,rep"`
	A6  []string            `protobuf:"bytes,73,rep"`
	A7  map[int32]string    `protobuf:"bytes,83,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A8  []uint32            `protobuf:"varint,67,rep"`
	A9  map[uint64]bool     `protobuf:"bytes,21,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A10 *Enum               `protobuf:"varint,56,opt"`
	A11 map[int32]uint64    `protobuf:"bytes,26,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A12 []uint32            `protobuf:"varint,11,rep"`
	A13 []int64             `protobuf:"fixed64,68,rep"`
	A14 map[int64]int32     `protobuf:"bytes,39,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A15 proto.Option[int64] `protobuf:"zigzag64,24,opt"`
	A16 Enum                `protobuf:"varint,14,opt"`
	A17 []uint32            `protobuf:"fixed32,78,rep"`
	A18 int32               `protobuf:"fixed32,61,opt"`
	A19 *int64              `protobuf:"varint,47,opt"`
	A20 []uint32            `protobuf:"varint,6,rep"`
	A21 *int64              `protobuf:"varint,28,opt"`
	A22 []Enum              `protobuf:"varint,41,rep"`
	A23 *float32            `protobuf:"fixed32,80,opt"`
	A24 []*F72T0            `protobuf:"bytes,10,rep"`
	A25 *F72T3              `protobuf:"bytes,77,opt"`
	A26 []*F72T2            `protobuf:"bytes,29,rep"`
}

type F73T0 struct {
	A0  map[int32]uint32      `protobuf:"bytes,8,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A1  float64               `protobuf:"fixed64,76,opt"`
	A2  proto.Option[bool]    `protobuf:"varint,10,opt"`
	A3  *Enum                 `protobuf:"varint,88,opt"`
	A4  uint32                `protobuf:"fixed32,101,opt"`
	A5  bool                  `protobuf:"varint,52,opt"`
	A6  []uint32              `protobuf:"fixed32,60,rep"`
	A7  *int32                `protobuf:"zigzag32,66,opt"`
	A8  []uint32              `protobuf:"fixed32,38,rep"`
	A9  *F73T1                `protobuf:"bytes,80,opt"`
	A10 Enum                  `protobuf:"varint,115,opt"`
	A11 proto.Option[int64]   `protobuf:"varint,112,opt"`
	A12 proto.Option[int32]   `protobuf:"fixed32,44,opt"`
	A13 proto.Option[int64]   `protobuf:"varint,68,opt"`
	A14 map[bool]int64        `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A15 Enum                  `protobuf:"varint,61,opt"`
	A16 map[int64][]byte      `protobuf:"bytes,48,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A17 map[uint64]uint64     `protobuf:"bytes,13,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A18 []float64             `protobuf:"fixed64,96,rep"`
	A19 map[bool][]byte       `protobuf:"bytes,81,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A20 proto.Option[int64]   `protobuf:"fixed64,19,opt"`
	A21 map[int64]int32       `protobuf:"bytes,111,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A22 proto.Option[float64] `protobuf:"fixed64,116,opt"`
	A23 *Enum                 `protobuf:"varint,3,opt"`
	A24 int32                 `protobuf:"zigzag32,119,opt"`
	A25 []int32               `protobuf:"fixed32,2,rep"`
	A26 float32               `protobuf:"fixed32,6,opt"`
	A27 []Enum                `protobuf:"varint,71,rep"`
	A28 []float64             `protobuf:"fixed64,49,rep"`
	A29 proto.Option[int64]   `protobuf:"zigzag64,108,opt"`
	A30 *bool                 `protobuf:"varint,104,opt"`
	A31 int64                 `protobuf:"zigzag64,114,opt"`
	A32 int32                 `protobuf:"varint,63,opt"`
	A33 Enum                  `protobuf:"varint,85,opt"`
	A34 Enum                  `protobuf:"varint,36,opt"`
	A35 *F73T1                `protobuf:"bytes,77,opt"`
	A36 map[int64]int32       `protobuf:"bytes,21,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"zigzag32,2,opt"`
	A37 []int64               `protobuf:"fixed64,91,rep"`
	A38 *int64                `protobuf:"varint,92,opt"`
}

type F73T1 struct {
	A0  map[uint64]uint32     `protobuf:"bytes,59,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A1  proto.Option[float64] `protobuf:"fixed64,9,opt"`
	A2  *uint32               `protobuf:"varint,37,opt"`
	A3  []byte                `protobuf:"bytes,2,opt"`
	A4  Enum                  `protobuf:"varint,84,opt"`
	A5  *int64                `protobuf:"zigzag64,20,opt"`
	A6  float32               `protobuf:"fixed32,44,opt"`
	A7  proto.Option[uint64]  `protobuf:"varint,79,opt"`
	A8  []uint32              `protobuf:"varint,107,rep"`
	A9  *bool                 `protobuf:"varint,89,opt"`
	A10 []byte                `protobuf:"bytes,8,opt"`
	A11 float32               `protobuf:"fixed32,3,opt"`
	A12 []uint32              `protobuf:"varint,98,rep"`
	A13 *float64              `protobuf:"fixed64,42,opt"`
	A14 *F73T0                `protobuf:"bytes,110,opt"`
	A15 proto.Option[uint64]  `protobuf:"varint,90,opt"`
	A16 map[uint32]uint64     `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A17 [][]byte              `protobuf:"bytes,40,rep"`
	A18 map[uint64]int64      `protobuf:"bytes,50,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag64,2,opt"`
	A19 Enum                  `protobuf:"varint,61,opt"`
	A20 map[uint64]string     `protobuf:"bytes,100,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A21 map[string]int64      `protobuf:"bytes,103,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	A22 bool                  `protobuf:"varint,108,opt"`
	A23 proto.Option[int64]   `protobuf:"zigzag64,60,opt"`
	A24 *F73T0                `protobuf:"bytes,83,opt"`
	A25 []Enum                `protobuf:"varint,34,rep"`
	A26 proto.Option[uint32]  `protobuf:"varint,88,opt"`
	A27 proto.Option[int32]   `protobuf:"varint,38,opt"`
	A28 map[uint64][]byte     `protobuf:"bytes,80,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A29 []uint32              `protobuf:"fixed32,75,rep"`
	A30 *Enum                 `protobuf:"varint,39,opt"`
	A31 *int64                `protobuf:"fixed64,46,opt"`
	A32 []*F73T0              `protobuf:"bytes,7,rep"`
	A33 map[uint32]*F73T0     `protobuf:"bytes,95,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A34 proto.Option[uint32]  `protobuf:"varint,101,opt"`
	A35 map[int64]int64       `protobuf:"bytes,56,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
}

type F74T0 struct {
	A0 []uint32              `protobuf:"fixed32,31,rep"`
	A1 int32                 `protobuf:"zigzag32,12,opt"`
	A2 []Enum                `protobuf:"varint,21,rep"`
	A3 proto.Option[float32] `protobuf:"fixed32,7,opt"`
	A4 int64                 `protobuf:"zigzag64,8,opt"`
	A5 *uint32               `protobuf:"varint,9,opt"`
	A6 map[uint64]uint64     `protobuf:"bytes,20,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
	A7 proto.Option[uint64]  `protobuf:"varint,26,opt"`
	A8 map[int64]*F74T1      `protobuf:"bytes,18,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A9 *F74T5                `protobuf:"bytes,28,opt"`
}

type F74T1 struct {
	A0  *bool               `protobuf:"varint,42,opt"`
	A1  proto.Option[int32] `protobuf:"zigzag32,26,opt"`
	A2  []bool              `protobuf:"varint,22,rep"`
	A3  map[uint32]uint32   `protobuf:"bytes,36,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A4  float64             `protobuf:"fixed64,7,opt"`
	A5  map[uint64]uint32   `protobuf:"bytes,35,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A6  proto.Option[int64] `protobuf:"zigzag64,40,opt"`
	A7  []Enum              `protobuf:"varint,12,rep"`
	A8  *uint64             `protobuf:"fixed64,9,opt"`
	A9  [][]byte            `protobuf:"bytes,28,rep"`
	A10 map[int64]int32     `protobuf:"bytes,3,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"varint,2,opt"`
	A11 *F74T1              `protobuf:"bytes,51,opt"`
	A12 []Enum              `protobuf:"varint,48,rep"`
	A13 []Enum              `protobuf:"varint,13,rep"`
	A14 map[uint32]int64    `protobuf:"bytes,37,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A15 []uint64            `protobuf:"varint,38,rep"`
	A16 *F74T2              `protobuf:"bytes,19,opt"`
}

type F74T2 struct {
	A0  int32               `protobuf:"zigzag32,61,opt"`
	A1  Enum                `protobuf:"varint,11,opt"`
	A2  []*F74T3            `protobuf:"bytes,50,rep"`
	A3  []*F74T2            `protobuf:"bytes,41,rep"`
	A4  map[int64][]byte    `protobuf:"bytes,40,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A5  []Enum              `protobuf:"varint,4,rep"`
	A6  []uint64            `protobuf:"varint,36,rep"`
	A7  Enum                `protobuf:"varint,29,opt"`
	A8  []Enum              `protobuf:"varint,62,rep"`
	A9  int64               `protobuf:"zigzag64,47,opt"`
	A10 proto.Option[int32] `protobuf:"varint,31,opt"`
	A11 []uint64            `protobuf:"fixed64,45,rep"`
	A12 []bool              `protobuf:"varint,42,rep"`
	A13 []int64             `protobuf:"zigzag64,38,rep"`
	A14 proto.Option[int64] `protobuf:"zigzag64,30,opt"`
	A15 string              `protobuf:"bytes,53,opt"`
	A16 map[uint64]int32    `protobuf:"bytes,21,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A17 []uint32            `protobuf:"varint,22,rep"`
	A18 []Enum              `protobuf:"varint,58,rep"`
	A19 []bool              `protobuf:"varint,55,rep"`
	A20 *Enum               `protobuf:"varint,1,opt"`
}

type F74T3 struct {
	A0 int32               `protobuf:"zigzag32,29,opt"`
	A1 proto.Option[int32] `protobuf:"zigzag32,15,opt"`
	A2 []Enum              `protobuf:"varint,21,rep"`
	A3 *int64              `protobuf:"fixed64,13,opt"`
	A4 proto.Option[int32] `protobuf:"zigzag32,17,opt"`
	A5 Enum                `protobuf:"varint,24,opt"`
	A6 *Enum               `protobuf:"varint,4,opt"`
	A7 *F74T4              `protobuf:"bytes,5,opt"`
	A8 map[uint32]*F74T2   `protobuf:"bytes,20,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A9 []*F74T4            `protobuf:"bytes,18,rep"`
}

type F74T4 struct {
	A0 *F74T5              `protobuf:"bytes,23,opt"`
	A1 []*F74T0            `protobuf:"bytes,13,rep"`
	A2 proto.Option[int32] `protobuf:"varint,16,opt"`
	A3 int64               `protobuf:"zigzag64,3,opt"`
	A4 int64               `protobuf:"varint,4,opt"`
	A5 map[uint64]float64  `protobuf:"bytes,8,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
	A6 []bool              `protobuf:"varint,9,rep"`
}

type F74T5 struct {
	A0  []*F74T0             `protobuf:"bytes,37,rep"`
	A1  map[int32]*F74T3     `protobuf:"bytes,9,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A2  *Enum                `protobuf:"varint,5,opt"`
	A3  string               `protobuf:"bytes,32,opt"`
	A4  bool                 `protobuf:"varint,8,opt"`
	A5  *Enum                `protobuf:"varint,22,opt"`
	A6  []uint32             `protobuf:"varint,13,rep"`
	A7  map[string]int64     `protobuf:"bytes,50,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed64,2,opt"`
	A8  []int64              `protobuf:"zigzag64,28,rep"`
	A9  uint32               `protobuf:"fixed32,2,opt"`
	A10 *uint32              `protobuf:"fixed32,19,opt"`
	A11 proto.Option[uint64] `protobuf:"varint,33,opt"`
	A12 map[string]int32     `protobuf:"bytes,39,rep" protobuf_key:"bytes,1,opt" protobuf_val:"zigzag32,2,opt"`
	A13 map[uint32]uint64    `protobuf:"bytes,26,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A14 []uint32             `protobuf:"fixed32,1,rep"`
	A15 *int32               `protobuf:"zigzag32,35,opt"`
}

type F75T0 struct {
	A0 *int64          `protobuf:"zigzag64,4,opt"`
	A1 Enum            `protobuf:"varint,13,opt"`
	A2 *string         `protobuf:"bytes,6,opt"`
	A3 []Enum          `protobuf:"varint,2,rep"`
	A4 *F75T1          `protobuf:"bytes,10,opt"`
	A5 map[bool]*F75T1 `protobuf:"bytes,20,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F75T1 struct {
	A0 []Enum `protobuf:"varint,10,rep"`
	A1 *F75T2 `protobuf:"bytes,3,opt"`
	A2 *F75T0 `protobuf:"bytes,11,opt"`
}

type F75T2 struct {
	A0 []*F75T3 `protobuf:"bytes,5,rep"`
}

type F75T3 struct {
	A0 map[uint64]*F75T0    `protobuf:"bytes,13,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F75T3               `protobuf:"bytes,9,opt"`
	A2 *int64               `protobuf:"zigzag64,7,opt"`
	A3 proto.Option[uint64] `protobuf:"varint,6,opt"`
}

type F76T0 struct {
	A0 map[int64]*F76T1 `protobuf:"bytes,2,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F76T0           `protobuf:"bytes,7,opt"`
}

type F76T1 struct {
	A0 []Enum   `protobuf:"varint,14,rep"`
	A1 []*F76T1 `protobuf:"bytes,6,rep"`
	A2 *F76T0   `protobuf:"bytes,20,opt"`
	A3 *F76T0   `protobuf:"bytes,11,opt"`
	A4 *F76T2   `protobuf:"bytes,16,opt"`
	A5 *int64   `protobuf:"zigzag64,13,opt"`
}

type F76T2 struct {
	A0 map[int64]*F76T3 `protobuf:"bytes,11,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A1 []*F76T3         `protobuf:"bytes,10,rep"`
	A2 []*F76T0         `protobuf:"bytes,1,rep"`
}

type F76T3 struct {
	A0 proto.Option[int32] `protobuf:"varint,6,opt"`
	A1 []*F76T0            `protobuf:"bytes,4,rep"`
}

type F77T0 struct {
	A0 proto.Option[int32] `protobuf:"fixed32,27,opt"`
	A1 map[uint32]uint64   `protobuf:"bytes,7,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A2 float32             `protobuf:"fixed32,3,opt"`
	A3 *Enum               `protobuf:"varint,12,opt"`
	A4 map[int64]*F77T1    `protobuf:"bytes,4,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A5 []*F77T0            `protobuf:"bytes,25,rep"`
	A6 map[uint64]*F77T2   `protobuf:"bytes,16,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A7 *F77T1              `protobuf:"bytes,23,opt"`
}

type F77T1 struct {
	A0 map[int32]*F77T2 `protobuf:"bytes,7,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *int32           `protobuf:"zigzag32,2,opt"`
	A2 *uint64          `protobuf:"varint,4,opt"`
}

type F77T2 struct {
	A0 []*F77T0             `protobuf:"bytes,12,rep"`
	A1 map[int32]*F77T1     `protobuf:"bytes,21,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *F77T2               `protobuf:"bytes,4,opt"`
	A3 map[uint64]*F77T2    `protobuf:"bytes,23,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A4 *int32               `protobuf:"fixed32,10,opt"`
	A5 map[uint64]bool      `protobuf:"bytes,19,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A6 proto.Option[uint64] `protobuf:"varint,13,opt"`
	A7 []float32            `protobuf:"fixed32,16,rep"`
}

type F78T0 struct {
	A0  uint32              `protobuf:"varint,29,opt"`
	A1  []Enum              `protobuf:"varint,23,rep"`
	A2  *float64            `protobuf:"fixed64,7,opt"`
	A3  *float64            `protobuf:"fixed64,17,opt"`
	A4  int64               `protobuf:"varint,37,opt"`
	A5  *F78T1              `protobuf:"bytes,20,opt"`
	A6  uint32              `protobuf:"varint,36,opt"`
	A7  proto.Option[int64] `protobuf:"zigzag64,48,opt"`
	A8  []uint64            `protobuf:"varint,40,rep"`
	A9  *uint32             `protobuf:"varint,3,opt"`
	A10 []*F78T1            `protobuf:"bytes,6,rep"`
	A11 map[int64]int64     `protobuf:"bytes,12,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A12 *F78T0              `protobuf:"bytes,41,opt"`
	A13 proto.Option[int32] `protobuf:"fixed32,46,opt"`
	A14 string              `protobuf:"bytes,25,opt"`
}

type F78T1 struct {
	A0  *F78T0                `protobuf:"bytes,6,opt"`
	A1  string                `protobuf:"bytes,36,opt"`
	A2  proto.Option[int32]   `protobuf:"varint,9,opt"`
	A3  proto.Option[float32] `protobuf:"fixed32,32,opt"`
	A4  Enum                  `protobuf:"varint,21,opt"`
	A5  Enum                  `protobuf:"varint,42,opt"`
	A6  bool                  `protobuf:"varint,2,opt"`
	A7  []uint64              `protobuf:"fixed64,22,rep"`
	A8  proto.Option[int64]   `protobuf:"zigzag64,11,opt"`
	A9  proto.Option[uint64]  `protobuf:"fixed64,28,opt"`
	A10 proto.Option[int64]   `protobuf:"fixed64,39,opt"`
	A11 proto.Option[string]  `protobuf:"bytes,37,opt"`
	A12 *float32              `protobuf:"fixed32,18,opt"`
	A13 *Enum                 `protobuf:"varint,38,opt"`
	A14 map[int32]uint64      `protobuf:"bytes,27,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"fixed64,2,opt"`
	A15 int64                 `protobuf:"zigzag64,23,opt"`
}

type F79T0 struct {
	A0 uint32          `protobuf:"varint,6,opt"`
	A1 map[int64]int64 `protobuf:"bytes,8,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"zigzag64,2,opt"`
	A2 map[bool]*F79T1 `protobuf:"bytes,14,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A3 *F79T0          `protobuf:"bytes,16,opt"`
	A4 []*F79T1        `protobuf:"bytes,10,rep"`
}

type F79T1 struct {
	A0  map[int64]*F79T0      `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1  *Enum                 `protobuf:"varint,107,opt"`
	A2  proto.Option[string]  `protobuf:"bytes,12,opt"`
	A3  proto.Option[float64] `protobuf:"fixed64,51,opt"`
	A4  *Enum                 `protobuf:"varint,60,opt"`
	A5  int32                 `protobuf:"zigzag32,93,opt"`
	A6  []string              `protobuf:"bytes,97,rep"`
	A7  map[int64]uint32      `protobuf:"bytes,70,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A8  map[string]uint64     `protobuf:"bytes,11,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	A9  *int32                `protobuf:"varint,27,opt"`
	A10 []float64             `protobuf:"fixed64,32,rep"`
	A11 *string               `protobuf:"bytes,28,opt"`
	A12 []string              `protobuf:"bytes,57,rep"`
	A13 *float64              `protobuf:"fixed64,72,opt"`
	A14 *int32                `protobuf:"zigzag32,94,opt"`
	A15 map[int64]string      `protobuf:"bytes,33,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A16 map[int64]int64       `protobuf:"bytes,71,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag64,2,opt"`
	A17 *int64                `protobuf:"zigzag64,98,opt"`
	A18 map[uint32]int32      `protobuf:"bytes,35,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed32,2,opt"`
	A19 []float64             `protobuf:"fixed64,49,rep"`
	A20 *uint32               `protobuf:"varint,85,opt"`
	A21 Enum                  `protobuf:"varint,23,opt"`
	A22 map[bool][]byte       `protobuf:"bytes,88,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A23 []int64               `protobuf:"fixed64,54,rep"`
	A24 *int64                `protobuf:"zigzag64,8,opt"`
	A25 []Enum                `protobuf:"varint,101,rep"`
	A26 []Enum                `protobuf:"varint,38,rep"`
	A27 uint32                `protobuf:"varint,111,opt"`
	A28 Enum                  `protobuf:"varint,58,opt"`
	A29 proto.Option[bool]    `protobuf:"varint,2,opt"`
	A30 proto.Option[int64]   `protobuf:"zigzag64,1,opt"`
	A31 *int64                `protobuf:"varint,26,opt"`
	A32 int64                 `protobuf:"varint,55,opt"`
	A33 int32                 `protobuf:"fixed32,63,opt"`
	A34 *bool                 `protobuf:"varint,62,opt"`
	A35 map[uint64]uint64     `protobuf:"bytes,92,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A36 map[int64]int32       `protobuf:"bytes,109,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"varint,2,opt"`
	A37 proto.Option[float64] `protobuf:"fixed64,117,opt"`
	A38 string                `protobuf:"bytes,50,opt"`
}

type F80T0 struct {
	A0 proto.Option[int32] `protobuf:"varint,3,opt"`
	A1 *F80T1              `protobuf:"bytes,6,opt"`
	A2 []*F80T1            `protobuf:"bytes,5,rep"`
}

type F80T1 struct {
	A0 []byte           `protobuf:"bytes,11,opt"`
	A1 []byte           `protobuf:"bytes,5,opt"`
	A2 *F80T1           `protobuf:"bytes,18,opt"`
	A3 map[int64]*F80T1 `protobuf:"bytes,2,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A4 *F80T0           `protobuf:"bytes,7,opt"`
	A5 []*F80T1         `protobuf:"bytes,13,rep"`
}

type F81T0 struct {
	A0 map[uint32][]byte `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F81T1            `protobuf:"bytes,2,opt"`
	A2 *F81T4            `protobuf:"bytes,13,opt"`
	A3 *F81T4            `protobuf:"bytes,17,opt"`
	A4 map[string]*F81T2 `protobuf:"bytes,1,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}

type F81T1 struct {
	A0 *F81T4            `protobuf:"bytes,17,opt"`
	A1 map[bool]int32    `protobuf:"bytes,21,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A2 map[int64]*F81T3  `protobuf:"bytes,2,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A3 *uint64           `protobuf:"fixed64,18,opt"`
	A4 *F81T1            `protobuf:"bytes,20,opt"`
	A5 map[uint32]*F81T2 `protobuf:"bytes,5,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
}

type F81T2 struct {
	A0 map[int32]*F81T1 `protobuf:"bytes,17,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 []*F81T3         `protobuf:"bytes,11,rep"`
	A2 *int64           `protobuf:"varint,14,opt"`
	A3 *F81T4           `protobuf:"bytes,4,opt"`
	A4 *F81T1           `protobuf:"bytes,2,opt"`
}

type F81T3 struct {
	A0 uint64   `protobuf:"varint,6,opt"`
	A1 []*F81T4 `protobuf:"bytes,3,rep"`
}

type F81T4 struct {
	A0 *F81T0 `protobuf:"bytes,5,opt"`
	A1 *F81T4 `protobuf:"bytes,14,opt"`
	A2 *F81T4 `protobuf:"bytes,8,opt"`
	A3 *F81T3 `protobuf:"bytes,11,opt"`
}

type F82T0 struct {
	A0 *F82T1   `protobuf:"bytes,15,opt"`
	A1 *F82T2   `protobuf:"bytes,13,opt"`
	A2 *F82T2   `protobuf:"bytes,6,opt"`
	A3 int64    `protobuf:"varint,12,opt"`
	A4 *float32 `protobuf:"fixed32,2,opt"`
}

type F82T1 struct {
	A0 []*F82T2             `protobuf:"bytes,1,rep"`
	A1 *F82T0               `protobuf:"bytes,16,opt"`
	A2 *F82T1               `protobuf:"bytes,15,opt"`
	A3 map[uint64]*F82T2    `protobuf:"bytes,10,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A4 proto.Option[uint32] `protobuf:"fixed32,9,opt"`
}

type F82T2 struct {
	A0 proto.Option[float32] `protobuf:"fixed32,16,opt"`
	A1 string                `protobuf:"bytes,23,opt"`
	A2 *int32                `protobuf:"varint,10,opt"`
	A3 float32               `protobuf:"fixed32,18,opt"`
	A4 []uint64              `protobuf:"fixed64,25,rep"`
	A5 *F82T0                `protobuf:"bytes,20,opt"`
	A6 map[uint64]*F82T0     `protobuf:"bytes,27,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A7 *F82T1                `protobuf:"bytes,6,opt"`
}

type F83T0 struct {
	A0 *int64               `protobuf:"zigzag64,19,opt"`
	A1 proto.Option[uint64] `protobuf:"fixed64,16,opt"`
	A2 *uint64              `protobuf:"fixed64,6,opt"`
	A3 *F83T1               `protobuf:"bytes,7,opt"`
	A4 []*F83T1             `protobuf:"bytes,5,rep"`
	A5 []*F83T1             `protobuf:"bytes,23,rep"`
	A6 map[uint32]*F83T1    `protobuf:"bytes,18,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
}

type F83T1 struct {
	A0 *uint64              `protobuf:"varint,10,opt"`
	A1 []Enum               `protobuf:"varint,18,rep"`
	A2 map[int32]uint64     `protobuf:"bytes,14,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"fixed64,2,opt"`
	A3 proto.Option[uint32] `protobuf:"varint,2,opt"`
	A4 []Enum               `protobuf:"varint,28,rep"`
	A5 *Enum                `protobuf:"varint,22,opt"`
	A6 *Enum                `protobuf:"varint,3,opt"`
	A7 *F83T0               `protobuf:"bytes,12,opt"`
	A8 map[string]*F83T0    `protobuf:"bytes,17,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}

type F84T0 struct {
	A0 *F84T1           `protobuf:"bytes,15,opt"`
	A1 map[int32]*F84T1 `protobuf:"bytes,2,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A2 Enum             `protobuf:"varint,4,opt"`
	A3 []string         `protobuf:"bytes,7,rep"`
}

type F84T1 struct {
	A0 map[string]*F84T0 `protobuf:"bytes,3,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}

type F85T0 struct {
	A0  []string             `protobuf:"bytes,46,rep"`
	A1  *int32               `protobuf:"varint,22,opt"`
	A2  *uint32              `protobuf:"varint,24,opt"`
	A3  []int64              `protobuf:"fixed64,20,rep"`
	A4  []Enum               `protobuf:"varint,35,rep"`
	A5  []byte               `protobuf:"bytes,8,opt"`
	A6  proto.Option[int64]  `protobuf:"zigzag64,6,opt"`
	A7  *int32               `protobuf:"zigzag32,4,opt"`
	A8  proto.Option[uint64] `protobuf:"varint,40,opt"`
	A9  proto.Option[int32]  `protobuf:"zigzag32,45,opt"`
	A10 []uint64             `protobuf:"varint,21,rep"`
	A11 []int32              `protobuf:"zigzag32,49,rep"`
	A12 *F85T1               `protobuf:"bytes,28,opt"`
	A13 map[bool]*F85T1      `protobuf:"bytes,36,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A14 map[uint32]*F85T1    `protobuf:"bytes,23,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A15 *F85T1               `protobuf:"bytes,9,opt"`
}

type F85T1 struct {
	A0 *int32              `protobuf:"varint,32,opt"`
	A1 proto.Option[int32] `protobuf:"varint,4,opt"`
	A2 *F85T0              `protobuf:"bytes,11,opt"`
	A3 map[uint64]bool     `protobuf:"bytes,15,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A4 map[int64]uint32    `protobuf:"bytes,2,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"varint,2,opt"`
	A5 *int32              `protobuf:"fixed32,16,opt"`
	A6 *Enum               `protobuf:"varint,5,opt"`
	A7 []int32             `protobuf:"zigzag32,10,rep"`
	A8 proto.Option[int64] `protobuf:"varint,12,opt"`
	A9 map[uint32]uint64   `protobuf:"bytes,14,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
}

type F86T0 struct {
	A0 []*F86T1 `protobuf:"bytes,2,rep"`
	A1 *uint32  `protobuf:"varint,12,opt"`
	A2 *F86T4   `protobuf:"bytes,3,opt"`
}

type F86T1 struct {
	A0 *F86T2   `protobuf:"bytes,2,opt"`
	A1 []*F86T5 `protobuf:"bytes,3,rep"`
	A2 []Enum   `protobuf:"varint,8,rep"`
}

type F86T2 struct {
	A0 Enum     `protobuf:"varint,4,opt"`
	A1 [][]byte `protobuf:"bytes,12,rep"`
	A2 *F86T3   `protobuf:"bytes,5,opt"`
	A3 *F86T5   `protobuf:"bytes,1,opt"`
}

type F86T3 struct {
	A0 *F86T4           `protobuf:"bytes,11,opt"`
	A1 map[int64]*F86T0 `protobuf:"bytes,8,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *F86T4           `protobuf:"bytes,3,opt"`
}

type F86T4 struct {
	A0 *F86T5 `protobuf:"bytes,3,opt"`
	A1 *F86T0 `protobuf:"bytes,7,opt"`
	A2 []Enum `protobuf:"varint,11,rep"`
	A3 Enum   `protobuf:"varint,2,opt"`
}

type F86T5 struct {
	A0 *F86T0            `protobuf:"bytes,6,opt"`
	A1 float64           `protobuf:"fixed64,18,opt"`
	A2 map[uint32]*F86T3 `protobuf:"bytes,19,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A3 map[int64]*F86T2  `protobuf:"bytes,9,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A4 []int32           `protobuf:"zigzag32,15,rep"`
	A5 *F86T0            `protobuf:"bytes,13,opt"`
}

type F87T0 struct {
	A0 map[int64]*F87T0  `protobuf:"bytes,9,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A1 map[uint32]*F87T1 `protobuf:"bytes,8,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *F87T0            `protobuf:"bytes,10,opt"`
}

type F87T1 struct {
	A0 []*F87T0          `protobuf:"bytes,7,rep"`
	A1 map[int32]*F87T1  `protobuf:"bytes,1,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A2 []byte            `protobuf:"bytes,10,opt"`
	A3 map[int32]float64 `protobuf:"bytes,5,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
}

type F88T0 struct {
	A0 *F88T4             `protobuf:"bytes,12,opt"`
	A1 proto.Option[bool] `protobuf:"varint,19,opt"`
	A2 *int64             `protobuf:"zigzag64,17,opt"`
	A3 *uint32            `protobuf:"varint,16,opt"`
	A4 *uint64            `protobuf:"fixed64,9,opt"`
	A5 *F88T1             `protobuf:"bytes,15,opt"`
}

type F88T1 struct {
	A0 *F88T2            `protobuf:"bytes,9,opt"`
	A1 *F88T5            `protobuf:"bytes,17,opt"`
	A2 map[uint64][]byte `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A3 []Enum            `protobuf:"varint,8,rep"`
	A4 int32             `protobuf:"fixed32,7,opt"`
	A5 bool              `protobuf:"varint,19,opt"`
}

type F88T2 struct {
	A0 *F88T3                `protobuf:"bytes,2,opt"`
	A1 *F88T1                `protobuf:"bytes,9,opt"`
	A2 proto.Option[float32] `protobuf:"fixed32,3,opt"`
}

type F88T3 struct {
	A0 []*F88T1 `protobuf:"bytes,2,rep"`
	A1 []*F88T4 `protobuf:"bytes,5,rep"`
	A2 []Enum   `protobuf:"varint,11,rep"`
}

type F88T4 struct {
	A0 []byte           `protobuf:"bytes,2,opt"`
	A1 *Enum            `protobuf:"varint,16,opt"`
	A2 []uint64         `protobuf:"fixed64,13,rep"`
	A3 []Enum           `protobuf:"varint,3,rep"`
	A4 map[int32]*F88T5 `protobuf:"bytes,5,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
}

type F88T5 struct {
	A0 *Enum            `protobuf:"varint,14,opt"`
	A1 float64          `protobuf:"fixed64,7,opt"`
	A2 map[int32]*F88T0 `protobuf:"bytes,16,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A3 *F88T1           `protobuf:"bytes,1,opt"`
	A4 []*F88T0         `protobuf:"bytes,8,rep"`
}

type F89T0 struct {
	A0 []*F89T1 `protobuf:"bytes,4,rep"`
	A1 *F89T1   `protobuf:"bytes,3,opt"`
}

type F89T1 struct {
	A0 []Enum   `protobuf:"varint,2,rep"`
	A1 *F89T0   `protobuf:"bytes,4,opt"`
	A2 []*F89T0 `protobuf:"bytes,3,rep"`
}

type F90T0 struct {
	A0 proto.Option[float32] `protobuf:"fixed32,7,opt"`
	A1 *F90T1                `protobuf:"bytes,10,opt"`
	A2 *F90T2                `protobuf:"bytes,4,opt"`
}

type F90T1 struct {
	A0 []*F90T2         `protobuf:"bytes,8,rep"`
	A1 []*F90T2         `protobuf:"bytes,14,rep"`
	A2 map[uint64]int32 `protobuf:"bytes,9,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A3 *Enum            `protobuf:"varint,2,opt"`
}

type F90T2 struct {
	A0 *F90T0            `protobuf:"bytes,2,opt"`
	A1 *F90T0            `protobuf:"bytes,3,opt"`
	A2 *F90T0            `protobuf:"bytes,9,opt"`
	A3 map[bool]*F90T1   `protobuf:"bytes,17,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A4 map[string]string `protobuf:"bytes,12,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}

type F91T0 struct {
	A0 map[int32]uint32    `protobuf:"bytes,15,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A1 []*F91T1            `protobuf:"bytes,12,rep"`
	A2 []Enum              `protobuf:"varint,3,rep"`
	A3 proto.Option[int32] `protobuf:"fixed32,2,opt"`
	A4 bool                `protobuf:"varint,21,opt"`
	A5 map[int64]*F91T1    `protobuf:"bytes,9,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
}

type F91T1 struct {
	A0  int32             `protobuf:"zigzag32,29,opt"`
	A1  []int64           `protobuf:"zigzag64,31,rep"`
	A2  *F91T0            `protobuf:"bytes,23,opt"`
	A3  *F91T2            `protobuf:"bytes,2,opt"`
	A4  uint64            `protobuf:"varint,39,opt"`
	A5  *uint64           `protobuf:"fixed64,6,opt"`
	A6  *string           `protobuf:"bytes,24,opt"`
	A7  uint32            `protobuf:"fixed32,12,opt"`
	A8  *int64            `protobuf:"zigzag64,40,opt"`
	A9  *int32            `protobuf:"zigzag32,4,opt"`
	A10 *Enum             `protobuf:"varint,25,opt"`
	A11 *Enum             `protobuf:"varint,26,opt"`
	A12 map[uint32]*F91T1 `protobuf:"bytes,13,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F91T2 struct {
	A0  []int64              `protobuf:"fixed64,16,rep"`
	A1  map[uint32]int64     `protobuf:"bytes,41,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"zigzag64,2,opt"`
	A2  []byte               `protobuf:"bytes,14,opt"`
	A3  [][]byte             `protobuf:"bytes,25,rep"`
	A4  Enum                 `protobuf:"varint,13,opt"`
	A5  float32              `protobuf:"fixed32,49,opt"`
	A6  *int32               `protobuf:"fixed32,6,opt"`
	A7  proto.Option[string] `protobuf:"bytes,31,opt"`
	A8  proto.Option[int32]  `protobuf:"zigzag32,43,opt"`
	A9  int32                `protobuf:"fixed32,28,opt"`
	A10 []uint64             `protobuf:"fixed64,51,rep"`
	A11 *int32               `protobuf:"varint,60,opt"`
	A12 int64                `protobuf:"varint,63,opt"`
	A13 []bool               `protobuf:"varint,45,rep"`
	A14 *Enum                `protobuf:"varint,32,opt"`
	A15 proto.Option[uint32] `protobuf:"varint,11,opt"`
	A16 []uint32             `protobuf:"varint,8,rep"`
	A17 []*F91T0             `protobuf:"bytes,54,rep"`
	A18 map[bool]*F91T0      `protobuf:"bytes,23,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A19 *F91T1               `protobuf:"bytes,37,opt"`
	A20 map[int32]*F91T2     `protobuf:"bytes,12,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
}

type F92T0 struct {
	A0 *F92T1            `protobuf:"bytes,18,opt"`
	A1 *F92T2            `protobuf:"bytes,9,opt"`
	A2 map[uint64]*F92T4 `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A3 []*F92T3          `protobuf:"bytes,14,rep"`
	A4 []int64           `protobuf:"fixed64,11,rep"`
}

type F92T1 struct {
	A0 int64    `protobuf:"varint,18,opt"`
	A1 []*F92T4 `protobuf:"bytes,9,rep"`
	A2 []*F92T4 `protobuf:"bytes,10,rep"`
	A3 *F92T2   `protobuf:"bytes,8,opt"`
	A4 []*F92T1 `protobuf:"bytes,11,rep"`
}

type F92T2 struct {
	A0 proto.Option[int64] `protobuf:"varint,9,opt"`
	A1 uint64              `protobuf:"fixed64,12,opt"`
	A2 map[int64]int64     `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A3 *F92T3              `protobuf:"bytes,11,opt"`
	A4 []int64             `protobuf:"varint,13,rep"`
}

type F92T3 struct {
	A0 *F92T4                `protobuf:"bytes,13,opt"`
	A1 []uint32              `protobuf:"varint,6,rep"`
	A2 proto.Option[float64] `protobuf:"fixed64,8,opt"`
	A3 int32                 `protobuf:"varint,18,opt"`
	A4 []uint64              `protobuf:"varint,17,rep"`
}

type F92T4 struct {
	A0 *F92T0  `protobuf:"bytes,8,opt"`
	A1 *F92T0  `protobuf:"bytes,7,opt"`
	A2 *uint32 `protobuf:"varint,10,opt"`
	A3 *Enum   `protobuf:"varint,15,opt"`
	A4 *int64  `protobuf:"zigzag64,17,opt"`
}

type F93T0 struct {
	A0 *F93T0               `protobuf:"bytes,30,opt"`
	A1 []*F93T0             `protobuf:"bytes,3,rep"`
	A2 map[int64]*F93T0     `protobuf:"bytes,5,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A3 *int32               `protobuf:"varint,29,opt"`
	A4 *bool                `protobuf:"varint,28,opt"`
	A5 *uint64              `protobuf:"fixed64,8,opt"`
	A6 proto.Option[uint32] `protobuf:"fixed32,18,opt"`
	A7 *Enum                `protobuf:"varint,10,opt"`
	A8 []byte               `protobuf:"bytes,11,opt"`
}

type F94T0 struct {
	A0 *uint64          `protobuf:"fixed64,7,opt"`
	A1 map[int32]*F94T0 `protobuf:"bytes,2,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *F94T0           `protobuf:"bytes,6,opt"`
}

type F95T0 struct {
	A0 *F95T1                `protobuf:"bytes,9,opt"`
	A1 []int64               `protobuf:"zigzag64,4,rep"`
	A2 proto.Option[float64] `protobuf:"fixed64,16,opt"`
	A3 int64                 `protobuf:"zigzag64,14,opt"`
	A4 []int32               `protobuf:"varint,17,rep"`
	A5 proto.Option[float64] `protobuf:"fixed64,20,opt"`
	A6 float64               `protobuf:"fixed64,10,opt"`
}

type F95T1 struct {
	A0  *F95T0                `protobuf:"bytes,18,opt"`
	A1  *F95T1                `protobuf:"bytes,8,opt"`
	A2  *F95T1                `protobuf:"bytes,30,opt"`
	A3  *F95T1                `protobuf:"bytes,9,opt"`
	A4  uint32                `protobuf:"varint,17,opt"`
	A5  []string              `protobuf:"bytes,6,rep"`
	A6  []bool                `protobuf:"varint,2,rep"`
	A7  proto.Option[int32]   `protobuf:"zigzag32,27,opt"`
	A8  proto.Option[string]  `protobuf:"bytes,44,opt"`
	A9  []int64               `protobuf:"varint,59,rep"`
	A10 map[string][]byte     `protobuf:"bytes,24,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A11 int32                 `protobuf:"zigzag32,56,opt"`
	A12 int32                 `protobuf:"zigzag32,43,opt"`
	A13 map[int32]int32       `protobuf:"bytes,37,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A14 *bool                 `protobuf:"varint,21,opt"`
	A15 *Enum                 `protobuf:"varint,20,opt"`
	A16 []Enum                `protobuf:"varint,54,rep"`
	A17 []byte                `protobuf:"bytes,33,opt"`
	A18 proto.Option[bool]    `protobuf:"varint,3,opt"`
	A19 []float32             `protobuf:"fixed32,47,rep"`
	A20 proto.Option[float64] `protobuf:"fixed64,39,opt"`
	A21 map[uint64]int32      `protobuf:"bytes,31,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"zigzag32,2,opt"`
}

type F96T0 struct {
	A0 *F96T1           `protobuf:"bytes,8,opt"`
	A1 map[int64]*F96T0 `protobuf:"bytes,6,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A2 []*F96T4         `protobuf:"bytes,3,rep"`
	A3 *int32           `protobuf:"fixed32,11,opt"`
}

type F96T1 struct {
	A0 *F96T2                `protobuf:"bytes,8,opt"`
	A1 []*F96T2              `protobuf:"bytes,2,rep"`
	A2 proto.Option[float32] `protobuf:"fixed32,3,opt"`
	A3 *uint32               `protobuf:"varint,14,opt"`
}

type F96T2 struct {
	A0 map[bool]*F96T3 `protobuf:"bytes,7,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 bool            `protobuf:"varint,8,opt"`
	A2 []int64         `protobuf:"fixed64,12,rep"`
}

type F96T3 struct {
	A0 map[bool]*F96T4  `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 map[int64]*F96T2 `protobuf:"bytes,8,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F96T4 struct {
	A0 *F96T0            `protobuf:"bytes,13,opt"`
	A1 map[uint64]*F96T2 `protobuf:"bytes,14,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A2 []*F96T2          `protobuf:"bytes,15,rep"`
	A3 *F96T4            `protobuf:"bytes,4,opt"`
}

type F97T0 struct {
	A0 proto.Option[int64] `protobuf:"fixed64,7,opt"`
	A1 *F97T0              `protobuf:"bytes,11,opt"`
	A2 map[int64]*F97T1    `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F97T1 struct {
	A0 int64            `protobuf:"zigzag64,16,opt"`
	A1 *F97T0           `protobuf:"bytes,10,opt"`
	A2 map[int64]*F97T1 `protobuf:"bytes,7,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A3 *F97T0           `protobuf:"bytes,15,opt"`
	A4 *F97T0           `protobuf:"bytes,9,opt"`
}

type F98T0 struct {
	A0 *F98T1             `protobuf:"bytes,14,opt"`
	A1 *F98T4             `protobuf:"bytes,4,opt"`
	A2 *F98T2             `protobuf:"bytes,12,opt"`
	A3 *F98T1             `protobuf:"bytes,1,opt"`
	A4 map[uint32]float32 `protobuf:"bytes,13,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
}

type F98T1 struct {
	A0  []*F98T2             `protobuf:"bytes,21,rep"`
	A1  map[string]*F98T4    `protobuf:"bytes,11,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A2  map[uint32]uint64    `protobuf:"bytes,27,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A3  Enum                 `protobuf:"varint,36,opt"`
	A4  bool                 `protobuf:"varint,24,opt"`
	A5  proto.Option[uint32] `protobuf:"fixed32,5,opt"`
	A6  map[bool]int32       `protobuf:"bytes,16,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A7  proto.Option[uint64] `protobuf:"fixed64,4,opt"`
	A8  uint32               `protobuf:"fixed32,32,opt"`
	A9  int64                `protobuf:"fixed64,33,opt"`
	A10 proto.Option[int32]  `protobuf:"zigzag32,13,opt"`
	A11 []Enum               `protobuf:"varint,30,rep"`
}

type F98T2 struct {
	A0  *F98T3               `protobuf:"bytes,61,opt"`
	A1  map[int64]*F98T0     `protobuf:"bytes,100,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A2  *F98T2               `protobuf:"bytes,107,opt"`
	A3  []uint64             `protobuf:"varint,92,rep"`
	A4  []bool               `protobuf:"varint,91,rep"`
	A5  Enum                 `protobuf:"varint,108,opt"`
	A6  []Enum               `protobuf:"varint,93,rep"`
	A7  proto.Option[uint32] `protobuf:"varint,18,opt"`
	A8  []uint64             `protobuf:"varint,49,rep"`
	A9  float64              `protobuf:"fixed64,42,opt"`
	A10 proto.Option[uint64] `protobuf:"varint,17,opt"`
	A11 bool                 `protobuf:"varint,104,opt"`
	A12 proto.Option[uint32] `protobuf:"varint,94,opt"`
	A13 *string              `protobuf:"bytes,60,opt"`
	A14 proto.Option[string] `protobuf:"bytes,96,opt"`
	A15 map[bool]int64       `protobuf:"bytes,62,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A16 Enum                 `protobuf:"varint,75,opt"`
	A17 uint64               `protobuf:"fixed64,28,opt"`
	A18 *uint64              `protobuf:"varint,68,opt"`
	A19 []uint32             `protobuf:"varint,22,rep"`
	A20 []byte               `protobuf:"bytes,7,opt"`
	A21 []byte               `protobuf:"bytes,51,opt"`
	A22 map[bool]uint64      `protobuf:"bytes,35,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A23 *string              `protobuf:"bytes,114,opt"`
	A24 Enum                 `protobuf:"varint,12,opt"`
	A25 string               `protobuf:"bytes,43,opt"`
	A26 [][]byte             `protobuf:"bytes,55,rep"`
	A27 map[int64]bool       `protobuf:"bytes,31,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"varint,2,opt"`
	A28 map[int32]int32      `protobuf:"bytes,44,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"zigzag32,2,opt"`
	A29 int64                `protobuf:"fixed64,4,opt"`
	A30 []uint32             `protobuf:"fixed32,57,rep"`
	A31 []byte               `protobuf:"bytes,80,opt"`
	A32 map[uint64]uint64    `protobuf:"bytes,65,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A33 *float32             `protobuf:"fixed32,30,opt"`
	A34 map[int32]int64      `protobuf:"bytes,112,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
	A35 proto.Option[uint32] `protobuf:"varint,106,opt"`
	A36 int32                `protobuf:"zigzag32,54,opt"`
	A37 proto.Option[uint32] `protobuf:"varint,88,opt"`
}

type F98T3 struct {
	A0  map[int64]int64       `protobuf:"bytes,15,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed64,2,opt"`
	A1  []byte                `protobuf:"bytes,35,opt"`
	A2  [][]byte              `protobuf:"bytes,9,rep"`
	A3  proto.Option[float64] `protobuf:"fixed64,28,opt"`
	A4  *int32                `protobuf:"fixed32,10,opt"`
	A5  map[int32][]byte      `protobuf:"bytes,20,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A6  *bool                 `protobuf:"varint,33,opt"`
	A7  map[uint64]int64      `protobuf:"bytes,27,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A8  []float64             `protobuf:"fixed64,44,rep"`
	A9  *Enum                 `protobuf:"varint,7,opt"`
	A10 []uint64              `protobuf:"varint,29,rep"`
	A11 proto.Option[float64] `protobuf:"fixed64,14,opt"`
	A12 map[uint32]*F98T4     `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A13 Enum                  `protobuf:"varint,46,opt"`
	A14 *int64                `protobuf:"fixed64,6,opt"`
}

type F98T4 struct {
	A0  []byte                `protobuf:"bytes,41,opt"`
	A1  float64               `protobuf:"fixed64,75,opt"`
	A2  proto.Option[bool]    `protobuf:"varint,4,opt"`
	A3  *Enum                 `protobuf:"varint,15,opt"`
	A4  []uint64              `protobuf:"varint,95,rep"`
	A5  proto.Option[uint64]  `protobuf:"varint,59,opt"`
	A6  uint32                `protobuf:"varint,60,opt"`
	A7  []int64               `protobuf:"fixed64,3,rep"`
	A8  proto.Option[float32] `protobuf:"fixed32,24,opt"`
	A9  *int32                `protobuf:"fixed32,69,opt"`
	A10 proto.Option[int32]   `protobuf:"varint,87,opt"`
	A11 []Enum                `protobuf:"varint,89,rep"`
	A12 []bool                `protobuf:"varint,64,rep"`
	A13 []Enum                `protobuf:"varint,67,rep"`
	A14 proto.Option[int32]   `protobuf:"varint,88,opt"`
	A15 proto.Option[bool]    `protobuf:"varint,12,opt"`
	A16 []string              `protobuf:"bytes,26,rep"`
	A17 proto.Option[uint64]  `protobuf:"fixed64,92,opt"`
	A18 []float32             `protobuf:"fixed32,28,rep"`
	A19 float32               `protobuf:"fixed32,103,opt"`
	A20 *Enum                 `protobuf:"varint,61,opt"`
	A21 float64               `protobuf:"fixed64,102,opt"`
	A22 map[int32]uint64      `protobuf:"bytes,65,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A23 proto.Option[uint64]  `protobuf:"fixed64,86,opt"`
	A24 proto.Option[int32]   `protobuf:"zigzag32,20,opt"`
	A25 proto.Option[uint64]  `protobuf:"fixed64,101,opt"`
	A26 proto.Option[int32]   `protobuf:"zigzag32,98,opt"`
	A27 *int64                `protobuf:"fixed64,5,opt"`
	A28 *int64                `protobuf:"fixed64,104,opt"`
	A29 *int64                `protobuf:"fixed64,40,opt"`
	A30 map[uint64]int32      `protobuf:"bytes,108,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A31 uint64                `protobuf:"varint,45,opt"`
	A32 Enum                  `protobuf:"varint,1,opt"`
	A33 *string               `protobuf:"bytes,47,opt"`
	A34 proto.Option[int32]   `protobuf:"varint,34,opt"`
	A35 proto.Option[uint64]  `protobuf:"fixed64,72,opt"`
	A36 []Enum                `protobuf:"varint,107,rep"`
	A37 *F98T0                `protobuf:"bytes,81,opt"`
}

type F99T0 struct {
	A0 []*F99T1 `protobuf:"bytes,4,rep"`
	A1 *F99T1   `protobuf:"bytes,7,opt"`
}

type F99T1 struct {
	A0 map[int32]*F99T0 `protobuf:"bytes,9,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 []Enum           `protobuf:"varint,18,rep"`
	A2 *F99T0           `protobuf:"bytes,8,opt"`
	A3 float32          `protobuf:"fixed32,5,opt"`
	A4 *F99T0           `protobuf:"bytes,10,opt"`
}

type F100T0 struct {
	A0  proto.Option[int64]   `protobuf:"zigzag64,20,opt"`
	A1  proto.Option[bool]    `protobuf:"varint,82,opt"`
	A2  proto.Option[uint64]  `protobuf:"varint,79,opt"`
	A3  proto.Option[int64]   `protobuf:"zigzag64,7,opt"`
	A4  bool                  `protobuf:"varint,21,opt"`
	A5  *string               `protobuf:"bytes,29,opt"`
	A6  map[uint32]uint32     `protobuf:"bytes,42,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A7  *float64              `protobuf:"fixed64,72,opt"`
	A8  []int32               `protobuf:"varint,78,rep"`
	A9  *uint32               `protobuf:"varint,68,opt"`
	A10 []*F100T3             `protobuf:"bytes,9,rep"`
	A11 []Enum                `protobuf:"varint,13,rep"`
	A12 proto.Option[bool]    `protobuf:"varint,34,opt"`
	A13 map[string]int64      `protobuf:"bytes,36,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	A14 *F100T3               `protobuf:"bytes,77,opt"`
	A15 []int32               `protobuf:"zigzag32,92,rep"`
	A16 []byte                `protobuf:"bytes,19,opt"`
	A17 map[uint64]bool       `protobuf:"bytes,99,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A18 []uint64              `protobuf:"varint,97,rep"`
	A19 proto.Option[uint64]  `protobuf:"fixed64,45,opt"`
	A20 int64                 `protobuf:"fixed64,102,opt"`
	A21 map[int32][]byte      `protobuf:"bytes,31,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A22 []int64               `protobuf:"fixed64,89,rep"`
	A23 map[uint64]uint64     `protobuf:"bytes,87,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A24 proto.Option[int32]   `protobuf:"fixed32,52,opt"`
	A25 float32               `protobuf:"fixed32,57,opt"`
	A26 []int32               `protobuf:"varint,93,rep"`
	A27 Enum                  `protobuf:"varint,25,opt"`
	A28 []int32               `protobuf:"fixed32,69,rep"`
	A29 []Enum                `protobuf:"varint,83,rep"`
	A30 proto.Option[float64] `protobuf:"fixed64,46,opt"`
	A31 *F100T4               `protobuf:"bytes,85,opt"`
	A32 map[uint32]*F100T1    `protobuf:"bytes,10,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
}

type F100T1 struct {
	A0 *F100T0             `protobuf:"bytes,16,opt"`
	A1 *F100T2             `protobuf:"bytes,14,opt"`
	A2 proto.Option[int64] `protobuf:"fixed64,17,opt"`
	A3 []string            `protobuf:"bytes,8,rep"`
	A4 Enum                `protobuf:"varint,18,opt"`
}

type F100T2 struct {
	A0  []byte                `protobuf:"bytes,83,opt"`
	A1  map[int64]uint32      `protobuf:"bytes,20,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A2  map[int32]*F100T1     `protobuf:"bytes,52,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A3  []uint32              `protobuf:"varint,59,rep"`
	A4  *Enum                 `protobuf:"varint,16,opt"`
	A5  []int32               `protobuf:"zigzag32,4,rep"`
	A6  map[int32]int64       `protobuf:"bytes,62,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"zigzag64,2,opt"`
	A7  *int64                `protobuf:"fixed64,58,opt"`
	A8  map[uint64]int32      `protobuf:"bytes,29,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A9  map[uint32]bool       `protobuf:"bytes,31,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A10 map[bool]int64        `protobuf:"bytes,86,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag64,2,opt"`
	A11 map[int32]float32     `protobuf:"bytes,90,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"fixed32,2,opt"`
	A12 int32                 `protobuf:"fixed32,50,opt"`
	A13 []int32               `protobuf:"varint,97,rep"`
	A14 [][]byte              `protobuf:"bytes,51,rep"`
	A15 *F100T3               `protobuf:"bytes,34,opt"`
	A16 uint64                `protobuf:"varint,100,opt"`
	A17 *int32                `protobuf:"zigzag32,55,opt"`
	A18 map[uint32]float32    `protobuf:"bytes,36,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed32,2,opt"`
	A19 *int64                `protobuf:"fixed64,18,opt"`
	A20 *Enum                 `protobuf:"varint,54,opt"`
	A21 []float64             `protobuf:"fixed64,10,rep"`
	A22 []string              `protobuf:"bytes,56,rep"`
	A23 []Enum                `protobuf:"varint,53,rep"`
	A24 *uint64               `protobuf:"varint,25,opt"`
	A25 *Enum                 `protobuf:"varint,70,opt"`
	A26 int64                 `protobuf:"varint,47,opt"`
	A27 bool                  `protobuf:"varint,39,opt"`
	A28 []int64               `protobuf:"zigzag64,102,rep"`
	A29 string                `protobuf:"bytes,84,opt"`
	A30 []int64               `protobuf:"zigzag64,71,rep"`
	A31 map[uint32]float32    `protobuf:"bytes,26,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A32 proto.Option[float32] `protobuf:"fixed32,41,opt"`
}

type F100T3 struct {
	A0 map[uint64]float64 `protobuf:"bytes,14,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
	A1 map[int64][]byte   `protobuf:"bytes,3,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A2 map[bool]int32     `protobuf:"bytes,23,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A3 []Enum             `protobuf:"varint,11,rep"`
	A4 []int32            `protobuf:"fixed32,10,rep"`
	A5 *Enum              `protobuf:"varint,6,opt"`
	A6 *F100T4            `protobuf:"bytes,26,opt"`
	A7 *F100T3            `protobuf:"bytes,4,opt"`
	A8 *F100T2            `protobuf:"bytes,24,opt"`
	A9 *F100T3            `protobuf:"bytes,19,opt"`
}

type F100T4 struct {
	A0  map[uint32]int64     `protobuf:"bytes,33,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag64,2,opt"`
	A1  *int64               `protobuf:"fixed64,46,opt"`
	A2  proto.Option[int64]  `protobuf:"varint,30,opt"`
	A3  []Enum               `protobuf:"varint,5,rep"`
	A4  proto.Option[int64]  `protobuf:"fixed64,43,opt"`
	A5  uint32               `protobuf:"fixed32,21,opt"`
	A6  []byte               `protobuf:"bytes,40,opt"`
	A7  proto.Option[uint32] `protobuf:"varint,28,opt"`
	A8  []int32              `protobuf:"fixed32,38,rep"`
	A9  []float32            `protobuf:"fixed32,12,rep"`
	A10 float32              `protobuf:"fixed32,32,opt"`
	A11 proto.Option[uint32] `protobuf:"fixed32,13,opt"`
	A12 map[int32]*F100T0    `protobuf:"bytes,16,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A13 *F100T4              `protobuf:"bytes,8,opt"`
	A14 *F100T0              `protobuf:"bytes,14,opt"`
}

type F101T0 struct {
	A0 *F101T0         `protobuf:"bytes,10,opt"`
	A1 map[int32]int32 `protobuf:"bytes,14,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A2 []uint32        `protobuf:"fixed32,19,rep"`
	A3 *F101T3         `protobuf:"bytes,1,opt"`
	A4 *F101T1         `protobuf:"bytes,18,opt"`
	A5 *F101T2         `protobuf:"bytes,24,opt"`
	A6 *uint32         `protobuf:"varint,21,opt"`
}

type F101T1 struct {
	A0 []*F101T2          `protobuf:"bytes,7,rep"`
	A1 map[uint32]float64 `protobuf:"bytes,2,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
}

type F101T2 struct {
	A0 map[uint32]*F101T3 `protobuf:"bytes,8,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 []*F101T0          `protobuf:"bytes,4,rep"`
	A2 map[int64]bool     `protobuf:"bytes,5,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"varint,2,opt"`
	A3 []int32            `protobuf:"varint,11,rep"`
}

type F101T3 struct {
	A0 *F101T0           `protobuf:"bytes,4,opt"`
	A1 map[int32]*F101T3 `protobuf:"bytes,12,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *F101T0           `protobuf:"bytes,9,opt"`
	A3 *F101T3           `protobuf:"bytes,10,opt"`
}

type F102T0 struct {
	A0 []*F102T1            `protobuf:"bytes,23,rep"`
	A1 float64              `protobuf:"fixed64,31,opt"`
	A2 []int64              `protobuf:"varint,28,rep"`
	A3 *Enum                `protobuf:"varint,29,opt"`
	A4 map[int64]int32      `protobuf:"bytes,22,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A5 map[uint32]uint32    `protobuf:"bytes,8,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A6 []*F102T4            `protobuf:"bytes,1,rep"`
	A7 proto.Option[int64]  `protobuf:"zigzag64,16,opt"`
	A8 proto.Option[uint64] `protobuf:"varint,32,opt"`
	A9 *uint32              `protobuf:"fixed32,7,opt"`
}

type F102T1 struct {
	A0  map[bool]*F102T0     `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1  []int64              `protobuf:"fixed64,55,rep"`
	A2  *Enum                `protobuf:"varint,35,opt"`
	A3  proto.Option[uint64] `protobuf:"varint,43,opt"`
	A4  [][]byte             `protobuf:"bytes,11,rep"`
	A5  *int32               `protobuf:"zigzag32,19,opt"`
	A6  map[string]uint32    `protobuf:"bytes,66,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed32,2,opt"`
	A7  map[bool]int32       `protobuf:"bytes,7,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A8  map[int32]bool       `protobuf:"bytes,54,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
	A9  float32              `protobuf:"fixed32,32,opt"`
	A10 map[bool]float32     `protobuf:"bytes,28,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A11 []Enum               `protobuf:"varint,3,rep"`
	A12 proto.Option[int64]  `protobuf:"zigzag64,29,opt"`
	A13 uint64               `protobuf:"fixed64,65,opt"`
	A14 []*F102T2            `protobuf:"bytes,10,rep"`
	A15 *F102T3              `protobuf:"bytes,31,opt"`
	A16 proto.Option[bool]   `protobuf:"varint,27,opt"`
	A17 Enum                 `protobuf:"varint,53,opt"`
	A18 uint32               `protobuf:"varint,6,opt"`
	A19 []int64              `protobuf:"zigzag64,39,rep"`
	A20 []*F102T2            `protobuf:"bytes,30,rep"`
}

type F102T2 struct {
	A0  []uint64              `protobuf:"varint,42,rep"`
	A1  *F102T0               `protobuf:"bytes,50,opt"`
	A2  []float32             `protobuf:"fixed32,38,rep"`
	A3  float64               `protobuf:"fixed64,35,opt"`
	A4  map[bool]uint64       `protobuf:"bytes,51,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A5  *uint32               `protobuf:"fixed32,24,opt"`
	A6  map[int64]*F102T3     `protobuf:"bytes,4,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A7  []float32             `protobuf:"fixed32,39,rep"`
	A8  uint32                `protobuf:"fixed32,43,opt"`
	A9  []int32               `protobuf:"varint,11,rep"`
	A10 proto.Option[bool]    `protobuf:"varint,46,opt"`
	A11 proto.Option[float64] `protobuf:"fixed64,33,opt"`
	A12 map[int64]*F102T4     `protobuf:"bytes,48,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A13 map[string]uint64     `protobuf:"bytes,27,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed64,2,opt"`
	A14 []int64               `protobuf:"fixed64,29,rep"`
	A15 map[uint32]bool       `protobuf:"bytes,32,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A16 int32                 `protobuf:"varint,40,opt"`
}

type F102T3 struct {
	A0  *uint64               `protobuf:"fixed64,21,opt"`
	A1  []bool                `protobuf:"varint,13,rep"`
	A2  []bool                `protobuf:"varint,24,rep"`
	A3  proto.Option[uint64]  `protobuf:"fixed64,6,opt"`
	A4  proto.Option[string]  `protobuf:"bytes,20,opt"`
	A5  proto.Option[string]  `protobuf:"bytes,15,opt"`
	A6  proto.Option[float64] `protobuf:"fixed64,39,opt"`
	A7  []int64               `protobuf:"fixed64,3,rep"`
	A8  map[int64]int32       `protobuf:"bytes,4,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A9  uint64                `protobuf:"fixed64,16,opt"`
	A10 proto.Option[int32]   `protobuf:"fixed32,45,opt"`
	A11 *int32                `protobuf:"varint,30,opt"`
	A12 proto.Option[bool]    `protobuf:"varint,28,opt"`
	A13 []float64             `protobuf:"fixed64,14,rep"`
	A14 *F102T4               `protobuf:"bytes,49,opt"`
	A15 *F102T0               `protobuf:"bytes,31,opt"`
}

type F102T4 struct {
	A0  map[string]string `protobuf:"bytes,27,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A1  *string           `protobuf:"bytes,3,opt"`
	A2  []uint64          `protobuf:"varint,32,rep"`
	A3  int64             `protobuf:"varint,17,opt"`
	A4  int32             `protobuf:"zigzag32,7,opt"`
	A5  map[uint32]int64  `protobuf:"bytes,23,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag64,2,opt"`
	A6  map[uint64]uint32 `protobuf:"bytes,35,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A7  *F102T3           `protobuf:"bytes,39,opt"`
	A8  uint64            `protobuf:"varint,6,opt"`
	A9  *F102T0           `protobuf:"bytes,26,opt"`
	A10 map[int32]int64   `protobuf:"bytes,21,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
	A11 uint32            `protobuf:"fixed32,15,opt"`
}

type F103T0 struct {
	A0 *F103T1 `protobuf:"bytes,6,opt"`
}

type F103T1 struct {
	A0 map[int64]*F103T2  `protobuf:"bytes,9,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A1 map[bool]*F103T2   `protobuf:"bytes,8,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *F103T1            `protobuf:"bytes,10,opt"`
	A3 map[string]*F103T1 `protobuf:"bytes,13,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}

type F103T2 struct {
	A0 map[uint32]*F103T1 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F103T1            `protobuf:"bytes,7,opt"`
	A2 map[uint64]*F103T0 `protobuf:"bytes,4,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A3 []int32            `protobuf:"varint,9,rep"`
	A4 map[int32]*F103T2  `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F104T0 struct {
	A0 map[int32]*F104T1    `protobuf:"bytes,29,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 []int64              `protobuf:"fixed64,21,rep"`
	A2 *uint64              `protobuf:"fixed64,10,opt"`
	A3 []*F104T1            `protobuf:"bytes,26,rep"`
	A4 proto.Option[uint32] `protobuf:"fixed32,22,opt"`
	A5 *F104T0              `protobuf:"bytes,3,opt"`
	A6 *int32               `protobuf:"zigzag32,17,opt"`
	A7 map[int32]*F104T1    `protobuf:"bytes,1,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A8 []byte               `protobuf:"bytes,25,opt"`
}

type F104T1 struct {
	A0 proto.Option[int64] `protobuf:"fixed64,1,opt"`
	A1 *F104T1             `protobuf:"bytes,7,opt"`
	A2 proto.Option[int64] `protobuf:"zigzag64,16,opt"`
	A3 *F104T0             `protobuf:"bytes,5,opt"`
	A4 []int32             `protobuf:"fixed32,20,rep"`
	A5 proto.Option[bool]  `protobuf:"varint,6,opt"`
}

type F105T0 struct {
	A0  uint64              `protobuf:"varint,39,opt"`
	A1  *F105T2             `protobuf:"bytes,3,opt"`
	A2  []uint64            `protobuf:"fixed64,41,rep"`
	A3  map[int32]*F105T1   `protobuf:"bytes,14,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A4  proto.Option[int64] `protobuf:"varint,13,opt"`
	A5  map[uint64]uint32   `protobuf:"bytes,37,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A6  []Enum              `protobuf:"varint,8,rep"`
	A7  []byte              `protobuf:"bytes,24,opt"`
	A8  uint32              `protobuf:"varint,29,opt"`
	A9  *F105T2             `protobuf:"bytes,6,opt"`
	A10 map[int32]int32     `protobuf:"bytes,20,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"zigzag32,2,opt"`
	A11 *float32            `protobuf:"fixed32,28,opt"`
	A12 Enum                `protobuf:"varint,12,opt"`
}

type F105T1 struct {
	A0  []Enum               `protobuf:"varint,28,rep"`
	A1  int32                `protobuf:"zigzag32,38,opt"`
	A2  proto.Option[int32]  `protobuf:"zigzag32,39,opt"`
	A3  proto.Option[uint32] `protobuf:"varint,4,opt"`
	A4  []byte               `protobuf:"bytes,26,opt"`
	A5  proto.Option[uint32] `protobuf:"fixed32,37,opt"`
	A6  proto.Option[int32]  `protobuf:"fixed32,34,opt"`
	A7  *int32               `protobuf:"varint,9,opt"`
	A8  *F105T2              `protobuf:"bytes,2,opt"`
	A9  *F105T3              `protobuf:"bytes,11,opt"`
	A10 *F105T2              `protobuf:"bytes,7,opt"`
	A11 *F105T4              `protobuf:"bytes,6,opt"`
}

type F105T2 struct {
	A0  *F105T3               `protobuf:"bytes,29,opt"`
	A1  *F105T3               `protobuf:"bytes,47,opt"`
	A2  *int64                `protobuf:"zigzag64,19,opt"`
	A3  uint64                `protobuf:"fixed64,38,opt"`
	A4  []int32               `protobuf:"varint,51,rep"`
	A5  float64               `protobuf:"fixed64,16,opt"`
	A6  int32                 `protobuf:"zigzag32,20,opt"`
	A7  []string              `protobuf:"bytes,8,rep"`
	A8  map[int64]int32       `protobuf:"bytes,15,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A9  map[uint64]int64      `protobuf:"bytes,40,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A10 proto.Option[float64] `protobuf:"fixed64,30,opt"`
	A11 int64                 `protobuf:"zigzag64,1,opt"`
	A12 proto.Option[int32]   `protobuf:"zigzag32,5,opt"`
	A13 Enum                  `protobuf:"varint,28,opt"`
	A14 bool                  `protobuf:"varint,6,opt"`
	A15 *bool                 `protobuf:"varint,31,opt"`
}

type F105T3 struct {
	A0  []*F105T4            `protobuf:"bytes,37,rep"`
	A1  *Enum                `protobuf:"varint,21,opt"`
	A2  []uint32             `protobuf:"varint,18,rep"`
	A3  [][]byte             `protobuf:"bytes,20,rep"`
	A4  []byte               `protobuf:"bytes,17,opt"`
	A5  []Enum               `protobuf:"varint,14,rep"`
	A6  []Enum               `protobuf:"varint,2,rep"`
	A7  map[string]float32   `protobuf:"bytes,7,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed32,2,opt"`
	A8  uint64               `protobuf:"varint,1,opt"`
	A9  [][]byte             `protobuf:"bytes,4,rep"`
	A10 *Enum                `protobuf:"varint,32,opt"`
	A11 proto.Option[uint64] `protobuf:"varint,31,opt"`
	A12 int64                `protobuf:"zigzag64,9,opt"`
	A13 map[int32]int64      `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A14 *Enum                `protobuf:"varint,36,opt"`
	A15 *F105T4              `protobuf:"bytes,27,opt"`
}

type F105T4 struct {
	A0 *F105T0   `protobuf:"bytes,15,opt"`
	A1 *F105T4   `protobuf:"bytes,18,opt"`
	A2 *F105T3   `protobuf:"bytes,17,opt"`
	A3 []*F105T0 `protobuf:"bytes,5,rep"`
	A4 *int64    `protobuf:"zigzag64,4,opt"`
}

type F106T0 struct {
	A0  bool                 `protobuf:"varint,36,opt"`
	A1  proto.Option[uint32] `protobuf:"fixed32,61,opt"`
	A2  *int32               `protobuf:"varint,64,opt"`
	A3  *float32             `protobuf:"fixed32,60,opt"`
	A4  *int32               `protobuf:"fixed32,4,opt"`
	A5  *string              `protobuf:"bytes,11,opt"`
	A6  proto.Option[int32]  `protobuf:"zigzag32,19,opt"`
	A7  int64                `protobuf:"zigzag64,45,opt"`
	A8  *int32               `protobuf:"zigzag32,44,opt"`
	A9  map[bool]int64       `protobuf:"bytes,22,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A10 int32                `protobuf:"varint,56,opt"`
	A11 proto.Option[int32]  `protobuf:"zigzag32,27,opt"`
	A12 float64              `protobuf:"fixed64,7,opt"`
	A13 *int32               `protobuf:"fixed32,21,opt"`
	A14 map[uint32]float32   `protobuf:"bytes,51,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A15 proto.Option[string] `protobuf:"bytes,34,opt"`
	A16 float64              `protobuf:"fixed64,41,opt"`
	A17 *Enum                `protobuf:"varint,59,opt"`
	A18 *F106T1              `protobuf:"bytes,65,opt"`
	A19 map[uint32]*F106T2   `protobuf:"bytes,63,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A20 map[uint32]*F106T3   `protobuf:"bytes,24,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
}

type F106T1 struct {
	A0  proto.Option[int32]   `protobuf:"zigzag32,54,opt"`
	A1  int64                 `protobuf:"zigzag64,73,opt"`
	A2  map[uint32]float32    `protobuf:"bytes,50,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed32,2,opt"`
	A3  []Enum                `protobuf:"varint,44,rep"`
	A4  map[int64]uint32      `protobuf:"bytes,55,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A5  proto.Option[int64]   `protobuf:"varint,29,opt"`
	A6  map[int32]int32       `protobuf:"bytes,79,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"fixed32,2,opt"`
	A7  []int32               `protobuf:"varint,99,rep"`
	A8  int64                 `protobuf:"zigzag64,95,opt"`
	A9  *uint64               `protobuf:"varint,59,opt"`
	A10 proto.Option[uint64]  `protobuf:"fixed64,34,opt"`
	A11 []int32               `protobuf:"varint,111,rep"`
	A12 map[uint32]float64    `protobuf:"bytes,42,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A13 float64               `protobuf:"fixed64,71,opt"`
	A14 []Enum                `protobuf:"varint,48,rep"`
	A15 proto.Option[uint64]  `protobuf:"fixed64,106,opt"`
	A16 *string               `protobuf:"bytes,72,opt"`
	A17 [][]byte              `protobuf:"bytes,76,rep"`
	A18 proto.Option[float64] `protobuf:"fixed64,84,opt"`
	A19 map[int64]int64       `protobuf:"bytes,28,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
	A20 map[uint64]int32      `protobuf:"bytes,112,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A21 []int64               `protobuf:"fixed64,100,rep"`
	A22 []byte                `protobuf:"bytes,19,opt"`
	A23 []int32               `protobuf:"fixed32,40,rep"`
	A24 proto.Option[float64] `protobuf:"fixed64,66,opt"`
	A25 *bool                 `protobuf:"varint,108,opt"`
	A26 proto.Option[int32]   `protobuf:"varint,90,opt"`
	A27 proto.Option[string]  `protobuf:"bytes,85,opt"`
	A28 []Enum                `protobuf:"varint,102,rep"`
	A29 *Enum                 `protobuf:"varint,75,opt"`
	A30 []uint64              `protobuf:"varint,27,rep"`
	A31 Enum                  `protobuf:"varint,43,opt"`
	A32 *Enum                 `protobuf:"varint,123,opt"`
	A33 *Enum                 `protobuf:"varint,91,opt"`
	A34 *Enum                 `protobuf:"varint,35,opt"`
	A35 map[int32]uint64      `protobuf:"bytes,5,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"fixed64,2,opt"`
	A36 *float32              `protobuf:"fixed32,45,opt"`
	A37 *int64                `protobuf:"fixed64,68,opt"`
	A38 map[uint32]*F106T2    `protobuf:"bytes,116,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A39 *F106T2               `protobuf:"bytes,81,opt"`
}

type F106T2 struct {
	A0  []*F106T3             `protobuf:"bytes,56,rep"`
	A1  []int32               `protobuf:"fixed32,41,rep"`
	A2  map[uint32]float64    `protobuf:"bytes,26,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A3  proto.Option[int32]   `protobuf:"fixed32,73,opt"`
	A4  []int64               `protobuf:"fixed64,62,rep"`
	A5  map[bool]string       `protobuf:"bytes,38,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A6  *int64                `protobuf:"fixed64,69,opt"`
	A7  []int64               `protobuf:"zigzag64,31,rep"`
	A8  *Enum                 `protobuf:"varint,12,opt"`
	A9  *Enum                 `protobuf:"varint,45,opt"`
	A10 *uint64               `protobuf:"fixed64,7,opt"`
	A11 []int32               `protobuf:"varint,24,rep"`
	A12 []string              `protobuf:"bytes,83,rep"`
	A13 *float64              `protobuf:"fixed64,78,opt"`
	A14 proto.Option[float32] `protobuf:"fixed32,51,opt"`
	A15 int64                 `protobuf:"zigzag64,59,opt"`
	A16 []Enum                `protobuf:"varint,52,rep"`
	A17 []Enum                `protobuf:"varint,2,rep"`
	A18 Enum                  `protobuf:"varint,39,opt"`
	A19 Enum                  `protobuf:"varint,16,opt"`
	A20 []int32               `protobuf:"varint,77,rep"`
	A21 proto.Option[float32] `protobuf:"fixed32,8,opt"`
	A22 *int32                `protobuf:"zigzag32,40,opt"`
	A23 proto.Option[float64] `protobuf:"fixed64,36,opt"`
	A24 [][]byte              `protobuf:"bytes,23,rep"`
	A25 []Enum                `protobuf:"varint,64,rep"`
	A26 *float32              `protobuf:"fixed32,66,opt"`
}

type F106T3 struct {
	A0  uint32                `protobuf:"varint,8,opt"`
	A1  proto.Option[uint64]  `protobuf:"fixed64,4,opt"`
	A2  *Enum                 `protobuf:"varint,97,opt"`
	A3  []*F106T2             `protobuf:"bytes,104,rep"`
	A4  *int32                `protobuf:"varint,62,opt"`
	A5  int32                 `protobuf:"varint,67,opt"`
	A6  map[uint32]uint32     `protobuf:"bytes,27,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed32,2,opt"`
	A7  *int64                `protobuf:"zigzag64,105,opt"`
	A8  map[int64]uint64      `protobuf:"bytes,95,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A9  proto.Option[float32] `protobuf:"fixed32,36,opt"`
	A10 map[int64]uint32      `protobuf:"bytes,81,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A11 []byte                `protobuf:"bytes,14,opt"`
	A12 *uint32               `protobuf:"varint,54,opt"`
	A13 *int32                `protobuf:"fixed32,63,opt"`
	A14 proto.Option[uint64]  `protobuf:"varint,21,opt"`
	A15 map[int64]bool        `protobuf:"bytes,41,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A16 uint64                `protobuf:"varint,44,opt"`
	A17 []Enum                `protobuf:"varint,106,rep"`
	A18 []Enum                `protobuf:"varint,76,rep"`
	A19 *float32              `protobuf:"fixed32,13,opt"`
	A20 *F106T1               `protobuf:"bytes,77,opt"`
	A21 proto.Option[int64]   `protobuf:"zigzag64,52,opt"`
	A22 map[uint32]bool       `protobuf:"bytes,58,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A23 []Enum                `protobuf:"varint,11,rep"`
	A24 *int32                `protobuf:"zigzag32,46,opt"`
	A25 *F106T0               `protobuf:"bytes,18,opt"`
	A26 proto.Option[int32]   `protobuf:"varint,82,opt"`
	A27 *F106T3               `protobuf:"bytes,69,opt"`
	A28 []Enum                `protobuf:"varint,103,rep"`
	A29 []int32               `protobuf:"fixed32,12,rep"`
	A30 int32                 `protobuf:"zigzag32,101,opt"`
	A31 []uint32              `protobuf:"fixed32,55,rep"`
	A32 *int64                `protobuf:"varint,10,opt"`
	A33 []byte                `protobuf:"bytes,85,opt"`
	A34 map[int32]int32       `protobuf:"bytes,53,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"zigzag32,2,opt"`
}

type F107T0 struct {
	A0 *F107T0 `protobuf:"bytes,9,opt"`
	A1 *F107T0 `protobuf:"bytes,3,opt"`
}

type F108T0 struct {
	A0 *F108T1   `protobuf:"bytes,9,opt"`
	A1 []*F108T1 `protobuf:"bytes,4,rep"`
}

type F108T1 struct {
	A0 *int32  `protobuf:"fixed32,7,opt"`
	A1 *F108T2 `protobuf:"bytes,4,opt"`
}

type F108T2 struct {
	A0 *F108T3            `protobuf:"bytes,2,opt"`
	A1 *F108T2            `protobuf:"bytes,7,opt"`
	A2 map[string]*F108T1 `protobuf:"bytes,4,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A3 []Enum             `protobuf:"varint,3,rep"`
	A4 []bool             `protobuf:"varint,9,rep"`
}

type F108T3 struct {
	A0 []uint64 `protobuf:"fixed64,2,rep"`
	A1 *F108T0  `protobuf:"bytes,3,opt"`
	A2 *F108T3  `protobuf:"bytes,17,opt"`
	A3 *F108T0  `protobuf:"bytes,10,opt"`
	A4 *F108T3  `protobuf:"bytes,9,opt"`
}

type F109T0 struct {
	A0 map[int64]uint32      `protobuf:"bytes,18,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed32,2,opt"`
	A1 map[string][]byte     `protobuf:"bytes,23,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *bool                 `protobuf:"varint,4,opt"`
	A3 proto.Option[float64] `protobuf:"fixed64,15,opt"`
	A4 []byte                `protobuf:"bytes,6,opt"`
	A5 *F109T1               `protobuf:"bytes,8,opt"`
	A6 []*F109T2             `protobuf:"bytes,3,rep"`
	A7 *F109T0               `protobuf:"bytes,13,opt"`
}

type F109T1 struct {
	A0 *F109T2           `protobuf:"bytes,8,opt"`
	A1 *F109T1           `protobuf:"bytes,9,opt"`
	A2 *string           `protobuf:"bytes,21,opt"`
	A3 uint32            `protobuf:"fixed32,18,opt"`
	A4 []int64           `protobuf:"zigzag64,4,rep"`
	A5 map[int32]*F109T2 `protobuf:"bytes,14,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A6 []*F109T1         `protobuf:"bytes,1,rep"`
}

type F109T2 struct {
	A0 map[int32]*F109T0     `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 []*F109T1             `protobuf:"bytes,25,rep"`
	A2 []byte                `protobuf:"bytes,19,opt"`
	A3 int32                 `protobuf:"zigzag32,10,opt"`
	A4 proto.Option[float32] `protobuf:"fixed32,13,opt"`
	A5 Enum                  `protobuf:"varint,23,opt"`
	A6 map[uint64]float32    `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A7 int32                 `protobuf:"zigzag32,9,opt"`
}

type F110T0 struct {
	A0 map[int64]bool       `protobuf:"bytes,6,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"varint,2,opt"`
	A1 proto.Option[uint32] `protobuf:"fixed32,21,opt"`
	A2 bool                 `protobuf:"varint,5,opt"`
	A3 []uint32             `protobuf:"fixed32,29,rep"`
	A4 *int64               `protobuf:"zigzag64,23,opt"`
	A5 []*F110T1            `protobuf:"bytes,28,rep"`
	A6 *F110T0              `protobuf:"bytes,17,opt"`
	A7 *F110T0              `protobuf:"bytes,10,opt"`
	A8 map[uint32]*F110T0   `protobuf:"bytes,27,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
}

type F110T1 struct {
	A0 []Enum   `protobuf:"varint,3,rep"`
	A1 [][]byte `protobuf:"bytes,12,rep"`
	A2 *uint64  `protobuf:"fixed64,7,opt"`
	A3 [][]byte `protobuf:"bytes,8,rep"`
	A4 *F110T0  `protobuf:"bytes,2,opt"`
}

type F111T0 struct {
	A0 map[uint32]uint64 `protobuf:"bytes,6,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A1 map[int64]*F111T1 `protobuf:"bytes,1,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A2 map[uint64]int32  `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
}

type F111T1 struct {
	A0 *F111T2            `protobuf:"bytes,9,opt"`
	A1 *F111T4            `protobuf:"bytes,2,opt"`
	A2 proto.Option[bool] `protobuf:"varint,12,opt"`
	A3 uint64             `protobuf:"varint,14,opt"`
}

type F111T2 struct {
	A0 *F111T3           `protobuf:"bytes,5,opt"`
	A1 map[int64]*F111T3 `protobuf:"bytes,1,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *F111T4           `protobuf:"bytes,8,opt"`
	A3 map[int32]*F111T5 `protobuf:"bytes,14,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
}

type F111T3 struct {
	A0 *F111T4            `protobuf:"bytes,4,opt"`
	A1 *F111T1            `protobuf:"bytes,12,opt"`
	A2 map[uint64]*F111T5 `protobuf:"bytes,3,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A3 uint64             `protobuf:"varint,6,opt"`
}

type F111T4 struct {
	A0 int32   `protobuf:"varint,9,opt"`
	A1 *F111T5 `protobuf:"bytes,7,opt"`
	A2 *F111T4 `protobuf:"bytes,13,opt"`
	A3 *F111T4 `protobuf:"bytes,1,opt"`
}

type F111T5 struct {
	A0 []Enum    `protobuf:"varint,9,rep"`
	A1 []*F111T0 `protobuf:"bytes,8,rep"`
}

type F112T0 struct {
	A0  []float32            `protobuf:"fixed32,20,rep"`
	A1  map[string][]byte    `protobuf:"bytes,84,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A2  map[int64]int64      `protobuf:"bytes,18,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A3  []int64              `protobuf:"zigzag64,99,rep"`
	A4  map[int64]*F112T1    `protobuf:"bytes,86,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A5  []*F112T3            `protobuf:"bytes,4,rep"`
	A6  *string              `protobuf:"bytes,15,opt"`
	A7  proto.Option[int32]  `protobuf:"zigzag32,102,opt"`
	A8  Enum                 `protobuf:"varint,21,opt"`
	A9  float64              `protobuf:"fixed64,103,opt"`
	A10 []uint32             `protobuf:"varint,25,rep"`
	A11 []int32              `protobuf:"varint,76,rep"`
	A12 *uint64              `protobuf:"varint,6,opt"`
	A13 map[uint32]uint64    `protobuf:"bytes,61,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A14 Enum                 `protobuf:"varint,36,opt"`
	A15 map[uint32]int32     `protobuf:"bytes,34,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A16 uint32               `protobuf:"fixed32,69,opt"`
	A17 map[int32]uint64     `protobuf:"bytes,59,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A18 proto.Option[uint32] `protobuf:"varint,68,opt"`
	A19 int32                `protobuf:"varint,79,opt"`
	A20 proto.Option[string] `protobuf:"bytes,30,opt"`
	A21 []Enum               `protobuf:"varint,88,rep"`
	A22 int32                `protobuf:"fixed32,1,opt"`
	A23 int64                `protobuf:"zigzag64,8,opt"`
	A24 float64              `protobuf:"fixed64,90,opt"`
	A25 proto.Option[uint64] `protobuf:"fixed64,29,opt"`
	A26 *int32               `protobuf:"zigzag32,85,opt"`
	A27 []Enum               `protobuf:"varint,101,rep"`
	A28 proto.Option[uint64] `protobuf:"varint,50,opt"`
	A29 map[int32]int32      `protobuf:"bytes,10,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A30 map[int32]uint64     `protobuf:"bytes,97,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A31 *uint32              `protobuf:"fixed32,45,opt"`
	A32 uint64               `protobuf:"fixed64,40,opt"`
	A33 int64                `protobuf:"zigzag64,93,opt"`
}

type F112T1 struct {
	A0  *F112T2               `protobuf:"bytes,7,opt"`
	A1  uint64                `protobuf:"varint,6,opt"`
	A2  []bool                `protobuf:"varint,12,rep"`
	A3  map[uint64]float32    `protobuf:"bytes,27,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A4  []bool                `protobuf:"varint,8,rep"`
	A5  Enum                  `protobuf:"varint,36,opt"`
	A6  int32                 `protobuf:"varint,14,opt"`
	A7  map[uint32]int32      `protobuf:"bytes,25,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A8  []int64               `protobuf:"varint,5,rep"`
	A9  map[bool]uint64       `protobuf:"bytes,45,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A10 *string               `protobuf:"bytes,17,opt"`
	A11 *float32              `protobuf:"fixed32,9,opt"`
	A12 map[int32]int32       `protobuf:"bytes,10,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
	A13 proto.Option[float64] `protobuf:"fixed64,31,opt"`
}

type F112T2 struct {
	A0  proto.Option[int64]  `protobuf:"zigzag64,50,opt"`
	A1  proto.Option[int32]  `protobuf:"varint,38,opt"`
	A2  bool                 `protobuf:"varint,23,opt"`
	A3  []uint32             `protobuf:"varint,5,rep"`
	A4  map[int32]string     `protobuf:"bytes,8,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A5  int32                `protobuf:"zigzag32,69,opt"`
	A6  []byte               `protobuf:"bytes,48,opt"`
	A7  int64                `protobuf:"zigzag64,65,opt"`
	A8  []bool               `protobuf:"varint,44,rep"`
	A9  proto.Option[uint32] `protobuf:"fixed32,25,opt"`
	A10 *Enum                `protobuf:"varint,35,opt"`
	A11 proto.Option[int32]  `protobuf:"zigzag32,40,opt"`
	A12 *uint32              `protobuf:"fixed32,13,opt"`
	A13 map[uint32]int64     `protobuf:"bytes,33,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag64,2,opt"`
	A14 []uint32             `protobuf:"fixed32,2,rep"`
	A15 proto.Option[int64]  `protobuf:"varint,22,opt"`
	A16 *Enum                `protobuf:"varint,46,opt"`
	A17 Enum                 `protobuf:"varint,9,opt"`
	A18 *F112T3              `protobuf:"bytes,52,opt"`
	A19 map[int64]*F112T0    `protobuf:"bytes,24,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A20 []*F112T1            `protobuf:"bytes,28,rep"`
	A21 *F112T0              `protobuf:"bytes,59,opt"`
}

type F112T3 struct {
	A0  int64                 `protobuf:"zigzag64,26,opt"`
	A1  []int64               `protobuf:"zigzag64,19,rep"`
	A2  proto.Option[float32] `protobuf:"fixed32,41,opt"`
	A3  []Enum                `protobuf:"varint,20,rep"`
	A4  map[int32]uint32      `protobuf:"bytes,9,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A5  int32                 `protobuf:"zigzag32,23,opt"`
	A6  []Enum                `protobuf:"varint,45,rep"`
	A7  []Enum                `protobuf:"varint,2,rep"`
	A8  float32               `protobuf:"fixed32,31,opt"`
	A9  []byte                `protobuf:"bytes,36,opt"`
	A10 map[uint32]float64    `protobuf:"bytes,33,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A11 map[uint64]int64      `protobuf:"bytes,57,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A12 uint32                `protobuf:"fixed32,46,opt"`
	A13 [][]byte              `protobuf:"bytes,56,rep"`
	A14 *uint64               `protobuf:"fixed64,38,opt"`
	A15 bool                  `protobuf:"varint,32,opt"`
	A16 []*F112T4             `protobuf:"bytes,1,rep"`
	A17 *F112T1               `protobuf:"bytes,29,opt"`
}

type F112T4 struct {
	A0 bool                `protobuf:"varint,26,opt"`
	A1 map[int64]*F112T5   `protobuf:"bytes,16,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A2 uint32              `protobuf:"fixed32,9,opt"`
	A3 proto.Option[bool]  `protobuf:"varint,17,opt"`
	A4 []float64           `protobuf:"fixed64,8,rep"`
	A5 []bool              `protobuf:"varint,30,rep"`
	A6 proto.Option[int32] `protobuf:"zigzag32,1,opt"`
	A7 []*F112T5           `protobuf:"bytes,22,rep"`
	A8 map[int32]*F112T1   `protobuf:"bytes,20,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
}

type F112T5 struct {
	A0  int32                `protobuf:"varint,25,opt"`
	A1  string               `protobuf:"bytes,57,opt"`
	A2  *uint64              `protobuf:"fixed64,6,opt"`
	A3  uint32               `protobuf:"fixed32,17,opt"`
	A4  []uint32             `protobuf:"fixed32,68,rep"`
	A5  map[uint64]uint32    `protobuf:"bytes,55,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A6  map[bool]float64     `protobuf:"bytes,16,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A7  *Enum                `protobuf:"varint,64,opt"`
	A8  map[int64]uint64     `protobuf:"bytes,48,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A9  []Enum               `protobuf:"varint,46,rep"`
	A10 float32              `protobuf:"fixed32,72,opt"`
	A11 []Enum               `protobuf:"varint,59,rep"`
	A12 []byte               `protobuf:"bytes,80,opt"`
	A13 proto.Option[uint32] `protobuf:"fixed32,42,opt"`
	A14 proto.Option[uint32] `protobuf:"varint,78,opt"`
	A15 []bool               `protobuf:"varint,75,rep"`
	A16 *string              `protobuf:"bytes,44,opt"`
	A17 []byte               `protobuf:"bytes,67,opt"`
	A18 []float64            `protobuf:"fixed64,47,rep"`
	A19 *uint64              `protobuf:"fixed64,14,opt"`
	A20 *Enum                `protobuf:"varint,33,opt"`
	A21 map[uint32]uint64    `protobuf:"bytes,27,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A22 map[int32]int32      `protobuf:"bytes,31,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"zigzag32,2,opt"`
	A23 map[int64]*F112T0    `protobuf:"bytes,8,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A24 *F112T3              `protobuf:"bytes,74,opt"`
	A25 map[string]*F112T3   `protobuf:"bytes,23,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}

type F113T0 struct {
	A0  *Enum                 `protobuf:"varint,103,opt"`
	A1  *float64              `protobuf:"fixed64,116,opt"`
	A2  uint64                `protobuf:"varint,8,opt"`
	A3  *float32              `protobuf:"fixed32,124,opt"`
	A4  *Enum                 `protobuf:"varint,123,opt"`
	A5  *int64                `protobuf:"zigzag64,16,opt"`
	A6  map[int64]bool        `protobuf:"bytes,89,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A7  []Enum                `protobuf:"varint,122,rep"`
	A8  string                `protobuf:"bytes,81,opt"`
	A9  map[uint64]int32      `protobuf:"bytes,27,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A10 []byte                `protobuf:"bytes,45,opt"`
	A11 *int64                `protobuf:"varint,88,opt"`
	A12 *float32              `protobuf:"fixed32,52,opt"`
	A13 string                `protobuf:"bytes,58,opt"`
	A14 []int32               `protobuf:"fixed32,101,rep"`
	A15 []Enum                `protobuf:"varint,91,rep"`
	A16 proto.Option[int32]   `protobuf:"zigzag32,77,opt"`
	A17 proto.Option[float32] `protobuf:"fixed32,60,opt"`
	A18 int64                 `protobuf:"fixed64,18,opt"`
	A19 [][]byte              `protobuf:"bytes,104,rep"`
	A20 *bool                 `protobuf:"varint,61,opt"`
	A21 []Enum                `protobuf:"varint,31,rep"`
	A22 *float64              `protobuf:"fixed64,6,opt"`
	A23 *float32              `protobuf:"fixed32,44,opt"`
	A24 string                `protobuf:"bytes,17,opt"`
	A25 Enum                  `protobuf:"varint,98,opt"`
	A26 proto.Option[int64]   `protobuf:"varint,30,opt"`
	A27 proto.Option[int64]   `protobuf:"varint,118,opt"`
	A28 int32                 `protobuf:"fixed32,115,opt"`
	A29 []Enum                `protobuf:"varint,126,rep"`
	A30 *float64              `protobuf:"fixed64,43,opt"`
	A31 []byte                `protobuf:"bytes,1,opt"`
	A32 *uint64               `protobuf:"fixed64,51,opt"`
	A33 proto.Option[uint32]  `protobuf:"varint,41,opt"`
	A34 []uint64              `protobuf:"fixed64,96,rep"`
	A35 proto.Option[bool]    `protobuf:"varint,20,opt"`
	A36 int64                 `protobuf:"varint,40,opt"`
	A37 map[int32]uint64      `protobuf:"bytes,125,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A38 int64                 `protobuf:"fixed64,75,opt"`
	A39 []*F113T1             `protobuf:"bytes,76,rep"`
	A40 *F113T2               `protobuf:"bytes,23,opt"`
}

type F113T1 struct {
	A0 []*F113T2 `protobuf:"bytes,4,rep"`
}

type F113T2 struct {
	A0  []int64              `protobuf:"zigzag64,117,rep"`
	A1  proto.Option[int64]  `protobuf:"varint,92,opt"`
	A2  map[int64][]byte     `protobuf:"bytes,19,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A3  map[int32]float32    `protobuf:"bytes,17,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"fixed32,2,opt"`
	A4  []uint32             `protobuf:"fixed32,56,rep"`
	A5  proto.Option[int32]  `protobuf:"varint,95,opt"`
	A6  uint32               `protobuf:"fixed32,70,opt"`
	A7  proto.Option[int64]  `protobuf:"varint,46,opt"`
	A8  *uint64              `protobuf:"fixed64,4,opt"`
	A9  proto.Option[int32]  `protobuf:"zigzag32,3,opt"`
	A10 []uint32             `protobuf:"fixed32,100,rep"`
	A11 []uint64             `protobuf:"fixed64,69,rep"`
	A12 map[uint64]float64   `protobuf:"bytes,40,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
	A13 []int64              `protobuf:"zigzag64,29,rep"`
	A14 *Enum                `protobuf:"varint,50,opt"`
	A15 [][]byte             `protobuf:"bytes,77,rep"`
	A16 []float64            `protobuf:"fixed64,47,rep"`
	A17 proto.Option[int64]  `protobuf:"varint,24,opt"`
	A18 map[int64]int64      `protobuf:"bytes,10,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A19 []bool               `protobuf:"varint,8,rep"`
	A20 int64                `protobuf:"zigzag64,62,opt"`
	A21 int32                `protobuf:"fixed32,26,opt"`
	A22 *uint32              `protobuf:"fixed32,64,opt"`
	A23 []int32              `protobuf:"fixed32,61,rep"`
	A24 []uint32             `protobuf:"varint,52,rep"`
	A25 proto.Option[int32]  `protobuf:"zigzag32,28,opt"`
	A26 map[int64]int32      `protobuf:"bytes,67,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A27 []int32              `protobuf:"varint,102,rep"`
	A28 uint32               `protobuf:"fixed32,96,opt"`
	A29 *int32               `protobuf:"fixed32,2,opt"`
	A30 map[string]float32   `protobuf:"bytes,1,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed32,2,opt"`
	A31 uint32               `protobuf:"varint,37,opt"`
	A32 []uint64             `protobuf:"varint,55,rep"`
	A33 proto.Option[string] `protobuf:"bytes,103,opt"`
	A34 int32                `protobuf:"zigzag32,5,opt"`
	A35 []int64              `protobuf:"fixed64,53,rep"`
	A36 map[uint32]*F113T3   `protobuf:"bytes,82,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A37 map[uint32]*F113T2   `protobuf:"bytes,6,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
}

type F113T3 struct {
	A0  *F113T4               `protobuf:"bytes,35,opt"`
	A1  []*F113T1             `protobuf:"bytes,18,rep"`
	A2  map[int32]*F113T3     `protobuf:"bytes,4,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A3  *F113T3               `protobuf:"bytes,2,opt"`
	A4  *Enum                 `protobuf:"varint,8,opt"`
	A5  []byte                `protobuf:"bytes,26,opt"`
	A6  float64               `protobuf:"fixed64,24,opt"`
	A7  []byte                `protobuf:"bytes,16,opt"`
	A8  proto.Option[float64] `protobuf:"fixed64,27,opt"`
	A9  []Enum                `protobuf:"varint,21,rep"`
	A10 uint64                `protobuf:"fixed64,12,opt"`
}

type F113T4 struct {
	A0  *F113T0               `protobuf:"bytes,36,opt"`
	A1  []*F113T0             `protobuf:"bytes,5,rep"`
	A2  []*F113T1             `protobuf:"bytes,22,rep"`
	A3  []uint32              `protobuf:"fixed32,10,rep"`
	A4  *int64                `protobuf:"zigzag64,54,opt"`
	A5  map[uint32]string     `protobuf:"bytes,13,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A6  *uint64               `protobuf:"fixed64,18,opt"`
	A7  [][]byte              `protobuf:"bytes,29,rep"`
	A8  []bool                `protobuf:"varint,24,rep"`
	A9  map[uint64]uint64     `protobuf:"bytes,28,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
	A10 map[string]float32    `protobuf:"bytes,26,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed32,2,opt"`
	A11 uint32                `protobuf:"varint,49,opt"`
	A12 map[uint64]int64      `protobuf:"bytes,6,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A13 map[uint64]int32      `protobuf:"bytes,39,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A14 *uint64               `protobuf:"varint,12,opt"`
	A15 map[int32]int64       `protobuf:"bytes,44,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"zigzag64,2,opt"`
	A16 proto.Option[float32] `protobuf:"fixed32,31,opt"`
}

type F114T0 struct {
	A0 []*F114T0 `protobuf:"bytes,5,rep"`
	A1 *F114T0   `protobuf:"bytes,4,opt"`
	A2 []int32   `protobuf:"varint,12,rep"`
	A3 []*F114T0 `protobuf:"bytes,11,rep"`
	A4 *F114T0   `protobuf:"bytes,2,opt"`
}

type F115T0 struct {
	A0  map[int64]float64    `protobuf:"bytes,37,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
	A1  proto.Option[uint64] `protobuf:"fixed64,27,opt"`
	A2  []bool               `protobuf:"varint,39,rep"`
	A3  *uint32              `protobuf:"varint,42,opt"`
	A4  []int32              `protobuf:"varint,14,rep"`
	A5  map[int64]int32      `protobuf:"bytes,15,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A6  *uint64              `protobuf:"varint,40,opt"`
	A7  *F115T1              `protobuf:"bytes,38,opt"`
	A8  map[uint64]int32     `protobuf:"bytes,11,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A9  string               `protobuf:"bytes,56,opt"`
	A10 *uint64              `protobuf:"fixed64,17,opt"`
	A11 *F115T0              `protobuf:"bytes,47,opt"`
	A12 int64                `protobuf:"varint,48,opt"`
	A13 string               `protobuf:"bytes,57,opt"`
	A14 []float64            `protobuf:"fixed64,1,rep"`
	A15 []*F115T1            `protobuf:"bytes,21,rep"`
	A16 Enum                 `protobuf:"varint,32,opt"`
	A17 proto.Option[int64]  `protobuf:"fixed64,36,opt"`
	A18 []uint64             `protobuf:"varint,13,rep"`
}

type F115T1 struct {
	A0  map[bool]*F115T2    `protobuf:"bytes,48,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1  []*F115T2           `protobuf:"bytes,7,rep"`
	A2  map[uint32]int64    `protobuf:"bytes,14,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A3  map[int32]uint32    `protobuf:"bytes,33,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A4  []bool              `protobuf:"varint,30,rep"`
	A5  Enum                `protobuf:"varint,51,opt"`
	A6  *Enum               `protobuf:"varint,4,opt"`
	A7  map[uint32]uint32   `protobuf:"bytes,36,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A8  proto.Option[bool]  `protobuf:"varint,44,opt"`
	A9  int32               `protobuf:"varint,2,opt"`
	A10 proto.Option[int64] `protobuf:"varint,16,opt"`
	A11 map[int32]int64     `protobuf:"bytes,37,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"zigzag64,2,opt"`
	A12 proto.Option[int32] `protobuf:"fixed32,35,opt"`
	A13 *uint64             `protobuf:"varint,24,opt"`
	A14 *float64            `protobuf:"fixed64,8,opt"`
	A15 int64               `protobuf:"fixed64,43,opt"`
}

type F115T2 struct {
	A0  *F115T1           `protobuf:"bytes,36,opt"`
	A1  bool              `protobuf:"varint,41,opt"`
	A2  map[uint64]uint32 `protobuf:"bytes,37,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A3  []Enum            `protobuf:"varint,14,rep"`
	A4  []uint64          `protobuf:"fixed64,25,rep"`
	A5  *int32            `protobuf:"varint,4,opt"`
	A6  map[int32]uint64  `protobuf:"bytes,49,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"fixed64,2,opt"`
	A7  *Enum             `protobuf:"varint,45,opt"`
	A8  []*F115T0         `protobuf:"bytes,34,rep"`
	A9  *float32          `protobuf:"fixed32,11,opt"`
	A10 map[bool]uint32   `protobuf:"bytes,38,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A11 []*F115T0         `protobuf:"bytes,8,rep"`
	A12 []uint64          `protobuf:"varint,40,rep"`
	A13 *F115T2           `protobuf:"bytes,29,opt"`
	A14 *int32            `protobuf:"fixed32,43,opt"`
	A15 map[int64]float32 `protobuf:"bytes,27,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed32,2,opt"`
}

type F116T0 struct {
	A0  proto.Option[bool]    `protobuf:"varint,8,opt"`
	A1  []string              `protobuf:"bytes,45,rep"`
	A2  []int32               `protobuf:"fixed32,9,rep"`
	A3  Enum                  `protobuf:"varint,48,opt"`
	A4  *uint64               `protobuf:"varint,3,opt"`
	A5  map[uint32]uint32     `protobuf:"bytes,24,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A6  []uint32              `protobuf:"fixed32,52,rep"`
	A7  []int32               `protobuf:"fixed32,39,rep"`
	A8  [][]byte              `protobuf:"bytes,37,rep"`
	A9  []int64               `protobuf:"zigzag64,17,rep"`
	A10 *int32                `protobuf:"varint,27,opt"`
	A11 *Enum                 `protobuf:"varint,14,opt"`
	A12 proto.Option[uint32]  `protobuf:"fixed32,4,opt"`
	A13 proto.Option[int32]   `protobuf:"zigzag32,7,opt"`
	A14 proto.Option[float64] `protobuf:"fixed64,25,opt"`
	A15 proto.Option[int64]   `protobuf:"fixed64,20,opt"`
	A16 uint32                `protobuf:"varint,35,opt"`
	A17 []*F116T1             `protobuf:"bytes,18,rep"`
}

type F116T1 struct {
	A0  []*F116T2             `protobuf:"bytes,51,rep"`
	A1  map[bool]*F116T1      `protobuf:"bytes,47,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2  proto.Option[uint32]  `protobuf:"fixed32,20,opt"`
	A3  []string              `protobuf:"bytes,46,rep"`
	A4  map[bool]int32        `protobuf:"bytes,37,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A5  float64               `protobuf:"fixed64,22,opt"`
	A6  *int32                `protobuf:"zigzag32,24,opt"`
	A7  uint32                `protobuf:"varint,21,opt"`
	A8  []string              `protobuf:"bytes,11,rep"`
	A9  int64                 `protobuf:"varint,54,opt"`
	A10 int64                 `protobuf:"zigzag64,36,opt"`
	A11 map[bool]float32      `protobuf:"bytes,52,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A12 *float32              `protobuf:"fixed32,35,opt"`
	A13 *uint32               `protobuf:"fixed32,13,opt"`
	A14 []uint32              `protobuf:"fixed32,31,rep"`
	A15 proto.Option[float32] `protobuf:"fixed32,25,opt"`
	A16 map[int32]int32       `protobuf:"bytes,39,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"zigzag32,2,opt"`
}

type F116T2 struct {
	A0 map[int64]string   `protobuf:"bytes,14,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 map[int64]int32    `protobuf:"bytes,13,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A2 map[uint32]*F116T3 `protobuf:"bytes,10,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A3 map[int32]*F116T3  `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F116T3 struct {
	A0  *uint64           `protobuf:"fixed64,8,opt"`
	A1  string            `protobuf:"bytes,35,opt"`
	A2  Enum              `protobuf:"varint,36,opt"`
	A3  map[int64]int32   `protobuf:"bytes,21,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A4  uint64            `protobuf:"varint,1,opt"`
	A5  map[bool]uint32   `protobuf:"bytes,14,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A6  []int64           `protobuf:"zigzag64,44,rep"`
	A7  []int32           `protobuf:"fixed32,41,rep"`
	A8  map[uint32]uint32 `protobuf:"bytes,43,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A9  map[int32]string  `protobuf:"bytes,45,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A10 []*F116T1         `protobuf:"bytes,20,rep"`
	A11 map[int32]bool    `protobuf:"bytes,40,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
	A12 []*F116T0         `protobuf:"bytes,33,rep"`
	A13 uint64            `protobuf:"fixed64,16,opt"`
}

type F117T0 struct {
	A0 *int64               `protobuf:"varint,2,opt"`
	A1 proto.Option[uint32] `protobuf:"fixed32,12,opt"`
	A2 map[int64]*F117T1    `protobuf:"bytes,7,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A3 map[bool]*F117T3     `protobuf:"bytes,16,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A4 *F117T1              `protobuf:"bytes,6,opt"`
}

type F117T1 struct {
	A0 []*F117T2 `protobuf:"bytes,4,rep"`
}

type F117T2 struct {
	A0 []*F117T1             `protobuf:"bytes,1,rep"`
	A1 []*F117T3             `protobuf:"bytes,14,rep"`
	A2 proto.Option[float64] `protobuf:"fixed64,5,opt"`
	A3 []Enum                `protobuf:"varint,15,rep"`
}

type F117T3 struct {
	A0 []*F117T4         `protobuf:"bytes,13,rep"`
	A1 *F117T0           `protobuf:"bytes,1,opt"`
	A2 []*F117T3         `protobuf:"bytes,4,rep"`
	A3 map[int32]*F117T2 `protobuf:"bytes,2,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
}

type F117T4 struct {
	A0 map[uint64]*F117T5  `protobuf:"bytes,11,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A1 map[int64]*F117T4   `protobuf:"bytes,10,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A2 proto.Option[int64] `protobuf:"zigzag64,14,opt"`
	A3 map[bool]int32      `protobuf:"bytes,7,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
}

type F117T5 struct {
	A0 *F117T0 `protobuf:"bytes,3,opt"`
	A1 *F117T1 `protobuf:"bytes,1,opt"`
}

type F118T0 struct {
	A0  *F118T1            `protobuf:"bytes,25,opt"`
	A1  map[int32]int64    `protobuf:"bytes,36,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
	A2  []float32          `protobuf:"fixed32,32,rep"`
	A3  map[bool]float64   `protobuf:"bytes,35,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A4  map[uint32]float64 `protobuf:"bytes,22,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A5  *Enum              `protobuf:"varint,28,opt"`
	A6  int64              `protobuf:"fixed64,5,opt"`
	A7  []Enum             `protobuf:"varint,41,rep"`
	A8  map[uint32]int64   `protobuf:"bytes,38,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A9  bool               `protobuf:"varint,29,opt"`
	A10 []Enum             `protobuf:"varint,19,rep"`
	A11 []bool             `protobuf:"varint,21,rep"`
	A12 [][]byte           `protobuf:"bytes,2,rep"`
}

type F118T1 struct {
	A0 uint32    `protobuf:"fixed32,6,opt"`
	A1 *F118T2   `protobuf:"bytes,10,opt"`
	A2 *F118T2   `protobuf:"bytes,1,opt"`
	A3 []*F118T1 `protobuf:"bytes,12,rep"`
}

type F118T2 struct {
	A0 uint32               `protobuf:"fixed32,15,opt"`
	A1 *F118T2              `protobuf:"bytes,2,opt"`
	A2 proto.Option[uint32] `protobuf:"fixed32,16,opt"`
	A3 map[int64]*F118T0    `protobuf:"bytes,11,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A4 []string             `protobuf:"bytes,4,rep"`
}

type F119T0 struct {
	A0 map[uint32]int32  `protobuf:"bytes,8,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A1 *F119T1           `protobuf:"bytes,1,opt"`
	A2 []int64           `protobuf:"zigzag64,14,rep"`
	A3 map[int64]*F119T2 `protobuf:"bytes,7,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A4 *F119T2           `protobuf:"bytes,17,opt"`
}

type F119T1 struct {
	A0 []uint32          `protobuf:"fixed32,8,rep"`
	A1 *F119T2           `protobuf:"bytes,17,opt"`
	A2 []*F119T4         `protobuf:"bytes,4,rep"`
	A3 map[int64]*F119T2 `protobuf:"bytes,12,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A4 *F119T3           `protobuf:"bytes,9,opt"`
}

type F119T2 struct {
	A0 string  `protobuf:"bytes,3,opt"`
	A1 *F119T3 `protobuf:"bytes,7,opt"`
}

type F119T3 struct {
	A0 *F119T4 `protobuf:"bytes,4,opt"`
	A1 *F119T3 `protobuf:"bytes,7,opt"`
}

type F119T4 struct {
	A0 []*F119T5 `protobuf:"bytes,3,rep"`
	A1 *F119T5   `protobuf:"bytes,5,opt"`
}

type F119T5 struct {
	A0 map[uint64]int32 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A1 *string          `protobuf:"bytes,6,opt"`
	A2 []*F119T0        `protobuf:"bytes,11,rep"`
}

type F120T0 struct {
	A0 map[int64]*F120T1 `protobuf:"bytes,14,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 []*F120T5         `protobuf:"bytes,13,rep"`
	A2 []*F120T5         `protobuf:"bytes,2,rep"`
	A3 *F120T2           `protobuf:"bytes,12,opt"`
}

type F120T1 struct {
	A0 *F120T2 `protobuf:"bytes,6,opt"`
}

type F120T2 struct {
	A0 []int64            `protobuf:"fixed64,12,rep"`
	A1 *Enum              `protobuf:"varint,6,opt"`
	A2 *F120T3            `protobuf:"bytes,2,opt"`
	A3 map[uint32]*F120T4 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F120T3 struct {
	A0 []*F120T1          `protobuf:"bytes,10,rep"`
	A1 map[int64]*F120T4  `protobuf:"bytes,3,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A2 map[uint64]*F120T4 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F120T4 struct {
	A0 map[uint32]*F120T0 `protobuf:"bytes,10,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F120T4            `protobuf:"bytes,5,opt"`
	A2 uint32             `protobuf:"varint,13,opt"`
	A3 *F120T5            `protobuf:"bytes,14,opt"`
}

type F120T5 struct {
	A0 *F120T0 `protobuf:"bytes,3,opt"`
}

type F121T0 struct {
	A0 map[int32]*F121T1 `protobuf:"bytes,16,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F121T2           `protobuf:"bytes,24,opt"`
	A2 map[int32]*F121T0 `protobuf:"bytes,4,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A3 *F121T2           `protobuf:"bytes,22,opt"`
	A4 []uint64          `protobuf:"varint,15,rep"`
	A5 bool              `protobuf:"varint,3,opt"`
	A6 *int64            `protobuf:"fixed64,23,opt"`
}

type F121T1 struct {
	A0  *uint64              `protobuf:"fixed64,12,opt"`
	A1  []Enum               `protobuf:"varint,24,rep"`
	A2  map[int64]int32      `protobuf:"bytes,35,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed32,2,opt"`
	A3  proto.Option[uint32] `protobuf:"varint,16,opt"`
	A4  map[int64]float64    `protobuf:"bytes,17,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed64,2,opt"`
	A5  int64                `protobuf:"fixed64,33,opt"`
	A6  []byte               `protobuf:"bytes,21,opt"`
	A7  *F121T2              `protobuf:"bytes,1,opt"`
	A8  map[uint32]*F121T1   `protobuf:"bytes,31,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A9  *F121T1              `protobuf:"bytes,32,opt"`
	A10 *F121T2              `protobuf:"bytes,13,opt"`
}

type F121T2 struct {
	A0 Enum               `protobuf:"varint,15,opt"`
	A1 []int32            `protobuf:"zigzag32,8,rep"`
	A2 map[uint64]int64   `protobuf:"bytes,21,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"zigzag64,2,opt"`
	A3 proto.Option[bool] `protobuf:"varint,10,opt"`
	A4 map[uint64]float32 `protobuf:"bytes,18,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A5 *F121T0            `protobuf:"bytes,14,opt"`
}

type F122T0 struct {
	A0 *F122T0          `protobuf:"bytes,14,opt"`
	A1 map[int32]uint32 `protobuf:"bytes,3,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A2 string           `protobuf:"bytes,9,opt"`
	A3 []*F122T1        `protobuf:"bytes,8,rep"`
}

type F122T1 struct {
	A0 float64 `protobuf:"fixed64,8,opt"`
	A1 *F122T0 `protobuf:"bytes,4,opt"`
}

type F123T0 struct {
	A0 *F123T1 `protobuf:"bytes,4,opt"`
}

type F123T1 struct {
	A0 []Enum    `protobuf:"varint,6,rep"`
	A1 []*F123T0 `protobuf:"bytes,1,rep"`
	A2 []*F123T0 `protobuf:"bytes,4,rep"`
}

type F124T0 struct {
	A0 *F124T1 `protobuf:"bytes,4,opt"`
}

type F124T1 struct {
	A0 []*F124T2         `protobuf:"bytes,10,rep"`
	A1 map[int64]*F124T0 `protobuf:"bytes,7,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A2 []uint32          `protobuf:"fixed32,1,rep"`
}

type F124T2 struct {
	A0 int32              `protobuf:"fixed32,8,opt"`
	A1 []uint64           `protobuf:"fixed64,2,rep"`
	A2 map[int64]*F124T0  `protobuf:"bytes,7,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A3 *uint32            `protobuf:"fixed32,21,opt"`
	A4 []Enum             `protobuf:"varint,5,rep"`
	A5 map[uint32]*F124T0 `protobuf:"bytes,3,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
}

type F125T0 struct {
	A0 *F125T1            `protobuf:"bytes,10,opt"`
	A1 []*F125T4          `protobuf:"bytes,5,rep"`
	A2 Enum               `protobuf:"varint,8,opt"`
	A3 map[uint32]float32 `protobuf:"bytes,7,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
}

type F125T1 struct {
	A0 map[uint32]int32     `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A1 proto.Option[uint64] `protobuf:"varint,4,opt"`
	A2 map[uint64]string    `protobuf:"bytes,16,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A3 *F125T2              `protobuf:"bytes,8,opt"`
	A4 *F125T2              `protobuf:"bytes,13,opt"`
}

type F125T2 struct {
	A0 proto.Option[int64] `protobuf:"varint,18,opt"`
	A1 map[uint32]uint64   `protobuf:"bytes,26,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A2 proto.Option[int32] `protobuf:"zigzag32,2,opt"`
	A3 proto.Option[int64] `protobuf:"fixed64,12,opt"`
	A4 *F125T3             `protobuf:"bytes,9,opt"`
	A5 map[uint32]*F125T2  `protobuf:"bytes,24,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A6 []*F125T1           `protobuf:"bytes,14,rep"`
	A7 *F125T0             `protobuf:"bytes,22,opt"`
}

type F125T3 struct {
	A0 []*F125T4           `protobuf:"bytes,11,rep"`
	A1 map[uint64]*F125T4  `protobuf:"bytes,15,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *F125T0             `protobuf:"bytes,7,opt"`
	A3 *F125T4             `protobuf:"bytes,13,opt"`
	A4 proto.Option[int64] `protobuf:"fixed64,14,opt"`
	A5 map[uint64]int32    `protobuf:"bytes,3,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A6 uint64              `protobuf:"fixed64,8,opt"`
}

type F125T4 struct {
	A0 proto.Option[int32] `protobuf:"fixed32,13,opt"`
	A1 *int32              `protobuf:"zigzag32,4,opt"`
	A2 *F125T5             `protobuf:"bytes,9,opt"`
	A3 *F125T5             `protobuf:"bytes,10,opt"`
}

type F125T5 struct {
	A0 *F125T0              `protobuf:"bytes,2,opt"`
	A1 *F125T5              `protobuf:"bytes,9,opt"`
	A2 []bool               `protobuf:"varint,5,rep"`
	A3 *Enum                `protobuf:"varint,3,opt"`
	A4 proto.Option[string] `protobuf:"bytes,11,opt"`
}

type F126T0 struct {
	A0  map[uint32]*F126T1  `protobuf:"bytes,41,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A1  map[string]*F126T3  `protobuf:"bytes,1,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A2  []*F126T0           `protobuf:"bytes,46,rep"`
	A3  *uint64             `protobuf:"fixed64,45,opt"`
	A4  map[int64]float32   `protobuf:"bytes,12,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A5  proto.Option[int64] `protobuf:"varint,48,opt"`
	A6  map[int32]uint32    `protobuf:"bytes,55,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A7  int32               `protobuf:"fixed32,19,opt"`
	A8  map[int32]int32     `protobuf:"bytes,21,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A9  *Enum               `protobuf:"varint,28,opt"`
	A10 map[int32]uint32    `protobuf:"bytes,10,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A11 uint64              `protobuf:"varint,65,opt"`
	A12 []string            `protobuf:"bytes,62,rep"`
	A13 *uint64             `protobuf:"fixed64,54,opt"`
	A14 float32             `protobuf:"fixed32,33,opt"`
	A15 uint64              `protobuf:"varint,38,opt"`
	A16 map[uint64][]byte   `protobuf:"bytes,35,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A17 map[bool]uint64     `protobuf:"bytes,7,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A18 [][]byte            `protobuf:"bytes,66,rep"`
	A19 *Enum               `protobuf:"varint,39,opt"`
	A20 proto.Option[int64] `protobuf:"fixed64,52,opt"`
}

type F126T1 struct {
	A0 *F126T2   `protobuf:"bytes,12,opt"`
	A1 *F126T5   `protobuf:"bytes,18,opt"`
	A2 *F126T5   `protobuf:"bytes,13,opt"`
	A3 []*F126T0 `protobuf:"bytes,2,rep"`
	A4 bool      `protobuf:"varint,16,opt"`
}

type F126T2 struct {
	A0  *F126T3               `protobuf:"bytes,29,opt"`
	A1  map[int64]bool        `protobuf:"bytes,28,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"varint,2,opt"`
	A2  []int64               `protobuf:"zigzag64,26,rep"`
	A3  int64                 `protobuf:"zigzag64,35,opt"`
	A4  map[int32]uint64      `protobuf:"bytes,41,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A5  []int64               `protobuf:"varint,24,rep"`
	A6  *int32                `protobuf:"fixed32,59,opt"`
	A7  map[int32]uint32      `protobuf:"bytes,22,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A8  proto.Option[uint32]  `protobuf:"fixed32,27,opt"`
	A9  []uint32              `protobuf:"varint,34,rep"`
	A10 []uint32              `protobuf:"varint,49,rep"`
	A11 proto.Option[int32]   `protobuf:"zigzag32,12,opt"`
	A12 proto.Option[int64]   `protobuf:"varint,20,opt"`
	A13 map[int64]float64     `protobuf:"bytes,63,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed64,2,opt"`
	A14 int64                 `protobuf:"zigzag64,13,opt"`
	A15 proto.Option[float32] `protobuf:"fixed32,46,opt"`
	A16 int64                 `protobuf:"fixed64,16,opt"`
	A17 proto.Option[int32]   `protobuf:"zigzag32,62,opt"`
	A18 *Enum                 `protobuf:"varint,6,opt"`
	A19 proto.Option[uint32]  `protobuf:"varint,15,opt"`
}

type F126T3 struct {
	A0  *F126T4              `protobuf:"bytes,25,opt"`
	A1  []*F126T2            `protobuf:"bytes,8,rep"`
	A2  map[uint32]*F126T1   `protobuf:"bytes,35,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A3  uint32               `protobuf:"varint,19,opt"`
	A4  proto.Option[string] `protobuf:"bytes,2,opt"`
	A5  proto.Option[int64]  `protobuf:"varint,10,opt"`
	A6  proto.Option[uint64] `protobuf:"varint,31,opt"`
	A7  []int32              `protobuf:"zigzag32,36,rep"`
	A8  *int32               `protobuf:"varint,23,opt"`
	A9  *int32               `protobuf:"varint,11,opt"`
	A10 float64              `protobuf:"fixed64,13,opt"`
}

type F126T4 struct {
	A0  []*F126T5 `protobuf:"bytes,25,rep"`
	A1  []*F126T4 `protobuf:"bytes,11,rep"`
	A2  *F126T4   `protobuf:"bytes,28,opt"`
	A3  *float32  `protobuf:"fixed32,10,opt"`
	A4  *int32    `protobuf:"varint,13,opt"`
	A5  int64     `protobuf:"varint,14,opt"`
	A6  *int32    `protobuf:"zigzag32,20,opt"`
	A7  *uint32   `protobuf:"varint,12,opt"`
	A8  uint32    `protobuf:"fixed32,15,opt"`
	A9  []uint64  `protobuf:"fixed64,23,rep"`
	A10 []string  `protobuf:"bytes,29,rep"`
}

type F126T5 struct {
	A0  *F126T0              `protobuf:"bytes,13,opt"`
	A1  *F126T0              `protobuf:"bytes,25,opt"`
	A2  map[int32]*F126T0    `protobuf:"bytes,4,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A3  *int32               `protobuf:"varint,20,opt"`
	A4  *float32             `protobuf:"fixed32,47,opt"`
	A5  float32              `protobuf:"fixed32,54,opt"`
	A6  *Enum                `protobuf:"varint,7,opt"`
	A7  int64                `protobuf:"fixed64,16,opt"`
	A8  map[int64]int32      `protobuf:"bytes,53,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A9  [][]byte             `protobuf:"bytes,17,rep"`
	A10 map[uint64]uint32    `protobuf:"bytes,46,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A11 proto.Option[string] `protobuf:"bytes,52,opt"`
	A12 *float64             `protobuf:"fixed64,19,opt"`
	A13 *int32               `protobuf:"varint,56,opt"`
	A14 map[string]float32   `protobuf:"bytes,22,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed32,2,opt"`
	A15 []uint32             `protobuf:"fixed32,31,rep"`
	A16 proto.Option[int32]  `protobuf:"zigzag32,2,opt"`
	A17 [][]byte             `protobuf:"bytes,5,rep"`
}

type F127T0 struct {
	A0 *F127T1   `protobuf:"bytes,18,opt"`
	A1 *F127T2   `protobuf:"bytes,14,opt"`
	A2 []*F127T2 `protobuf:"bytes,17,rep"`
	A3 []*F127T1 `protobuf:"bytes,3,rep"`
	A4 *Enum     `protobuf:"varint,2,opt"`
}

type F127T1 struct {
	A0 map[int64]*F127T2   `protobuf:"bytes,15,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A1 []int32             `protobuf:"fixed32,11,rep"`
	A2 proto.Option[int64] `protobuf:"varint,17,opt"`
	A3 *F127T1             `protobuf:"bytes,4,opt"`
	A4 map[bool]int32      `protobuf:"bytes,18,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
}

type F127T2 struct {
	A0 *F127T0   `protobuf:"bytes,6,opt"`
	A1 *F127T2   `protobuf:"bytes,7,opt"`
	A2 []*F127T0 `protobuf:"bytes,9,rep"`
}

type F128T0 struct {
	A0 *F128T1 `protobuf:"bytes,12,opt"`
	A1 *F128T0 `protobuf:"bytes,1,opt"`
	A2 *F128T1 `protobuf:"bytes,10,opt"`
}

type F128T1 struct {
	A0 *F128T2   `protobuf:"bytes,10,opt"`
	A1 *F128T0   `protobuf:"bytes,14,opt"`
	A2 []*F128T1 `protobuf:"bytes,2,rep"`
	A3 *F128T2   `protobuf:"bytes,17,opt"`
	A4 []int32   `protobuf:"zigzag32,3,rep"`
}

type F128T2 struct {
	A0 []float32          `protobuf:"fixed32,12,rep"`
	A1 *Enum              `protobuf:"varint,6,opt"`
	A2 []Enum             `protobuf:"varint,15,rep"`
	A3 *uint32            `protobuf:"varint,8,opt"`
	A4 []uint64           `protobuf:"fixed64,13,rep"`
	A5 int32              `protobuf:"zigzag32,16,opt"`
	A6 map[uint32]*F128T0 `protobuf:"bytes,21,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A7 []*F128T0          `protobuf:"bytes,3,rep"`
	A8 *F128T0            `protobuf:"bytes,27,opt"`
}

type F129T0 struct {
	A0 *F129T1            `protobuf:"bytes,7,opt"`
	A1 map[uint32]*F129T1 `protobuf:"bytes,5,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F129T1 struct {
	A0 map[string]*F129T2 `protobuf:"bytes,1,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A1 []int32            `protobuf:"fixed32,5,rep"`
}

type F129T2 struct {
	A0 map[int64]*F129T0 `protobuf:"bytes,2,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A1 map[int64]*F129T2 `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F130T0 struct {
	A0 [][]byte        `protobuf:"bytes,2,rep"`
	A1 map[int64]int32 `protobuf:"bytes,10,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A2 []*F130T1       `protobuf:"bytes,4,rep"`
}

type F130T1 struct {
	A0 float32              `protobuf:"fixed32,17,opt"`
	A1 proto.Option[int64]  `protobuf:"fixed64,11,opt"`
	A2 []uint32             `protobuf:"varint,30,rep"`
	A3 map[bool]uint32      `protobuf:"bytes,16,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A4 int64                `protobuf:"zigzag64,27,opt"`
	A5 map[int64]string     `protobuf:"bytes,22,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A6 proto.Option[string] `protobuf:"bytes,4,opt"`
	A7 string               `protobuf:"bytes,21,opt"`
	A8 []*F130T0            `protobuf:"bytes,1,rep"`
	A9 map[int64]*F130T0    `protobuf:"bytes,24,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
}

type F131T0 struct {
	A0 []Enum                `protobuf:"varint,13,rep"`
	A1 proto.Option[float64] `protobuf:"fixed64,28,opt"`
	A2 *F131T1               `protobuf:"bytes,20,opt"`
	A3 proto.Option[string]  `protobuf:"bytes,15,opt"`
	A4 *Enum                 `protobuf:"varint,21,opt"`
	A5 []Enum                `protobuf:"varint,23,rep"`
	A6 proto.Option[uint32]  `protobuf:"varint,18,opt"`
	A7 *F131T1               `protobuf:"bytes,26,opt"`
	A8 []uint32              `protobuf:"fixed32,10,rep"`
	A9 map[int64]*F131T2     `protobuf:"bytes,19,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F131T1 struct {
	A0  *Enum                `protobuf:"varint,20,opt"`
	A1  []float64            `protobuf:"fixed64,22,rep"`
	A2  int32                `protobuf:"fixed32,30,opt"`
	A3  *Enum                `protobuf:"varint,11,opt"`
	A4  map[int64]int64      `protobuf:"bytes,18,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed64,2,opt"`
	A5  map[uint64]int64     `protobuf:"bytes,27,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"zigzag64,2,opt"`
	A6  proto.Option[string] `protobuf:"bytes,19,opt"`
	A7  map[int32]*F131T2    `protobuf:"bytes,23,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A8  map[uint64]*F131T0   `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A9  *F131T2              `protobuf:"bytes,33,opt"`
	A10 *F131T1              `protobuf:"bytes,6,opt"`
}

type F131T2 struct {
	A0 *F131T0 `protobuf:"bytes,4,opt"`
}

type F132T0 struct {
	A0 *F132T0            `protobuf:"bytes,13,opt"`
	A1 map[uint32]*F132T0 `protobuf:"bytes,7,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 []int32            `protobuf:"zigzag32,6,rep"`
	A3 Enum               `protobuf:"varint,8,opt"`
	A4 int64              `protobuf:"zigzag64,17,opt"`
	A5 []float64          `protobuf:"fixed64,18,rep"`
}

type F133T0 struct {
	A0 []*F133T3 `protobuf:"bytes,10,rep"`
	A1 *F133T0   `protobuf:"bytes,1,opt"`
	A2 []*F133T1 `protobuf:"bytes,5,rep"`
}

type F133T1 struct {
	A0 []*F133T0 `protobuf:"bytes,1,rep"`
	A1 *F133T2   `protobuf:"bytes,4,opt"`
}

type F133T2 struct {
	A0 *F133T3 `protobuf:"bytes,6,opt"`
}

type F133T3 struct {
	A0 *F133T0 `protobuf:"bytes,3,opt"`
}

type F134T0 struct {
	A0  map[int64]*F134T1   `protobuf:"bytes,13,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1  *float32            `protobuf:"fixed32,12,opt"`
	A2  Enum                `protobuf:"varint,43,opt"`
	A3  proto.Option[int32] `protobuf:"zigzag32,31,opt"`
	A4  map[int32]uint32    `protobuf:"bytes,60,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
	A5  []string            `protobuf:"bytes,55,rep"`
	A6  map[int32]int32     `protobuf:"bytes,44,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A7  *int64              `protobuf:"fixed64,61,opt"`
	A8  map[int64]float64   `protobuf:"bytes,25,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A9  map[uint64]int32    `protobuf:"bytes,63,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A10 *int64              `protobuf:"fixed64,17,opt"`
	A11 *int32              `protobuf:"zigzag32,42,opt"`
	A12 []int64             `protobuf:"zigzag64,6,rep"`
	A13 Enum                `protobuf:"varint,46,opt"`
	A14 *uint64             `protobuf:"varint,15,opt"`
	A15 []int32             `protobuf:"fixed32,16,rep"`
	A16 map[int64]string    `protobuf:"bytes,39,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A17 *string             `protobuf:"bytes,53,opt"`
	A18 *int32              `protobuf:"fixed32,28,opt"`
	A19 int32               `protobuf:"varint,8,opt"`
}

type F134T1 struct {
	A0 []uint32              `protobuf:"varint,4,rep"`
	A1 proto.Option[float64] `protobuf:"fixed64,5,opt"`
	A2 []uint64              `protobuf:"fixed64,10,rep"`
	A3 []*F134T2             `protobuf:"bytes,12,rep"`
	A4 uint64                `protobuf:"fixed64,7,opt"`
	A5 *int32                `protobuf:"fixed32,18,opt"`
}

type F134T2 struct {
	A0 map[int32]int32    `protobuf:"bytes,10,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"zigzag32,2,opt"`
	A1 map[string]int64   `protobuf:"bytes,5,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	A2 []float32          `protobuf:"fixed32,3,rep"`
	A3 []*F134T3          `protobuf:"bytes,6,rep"`
	A4 map[string]*F134T2 `protobuf:"bytes,13,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}

type F134T3 struct {
	A0 map[uint32]*F134T4 `protobuf:"bytes,5,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
}

type F134T4 struct {
	A0 map[uint64]*F134T5 `protobuf:"bytes,5,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F134T2            `protobuf:"bytes,7,opt"`
	A2 *F134T2            `protobuf:"bytes,4,opt"`
}

type F134T5 struct {
	A0  []*F134T0        `protobuf:"bytes,5,rep"`
	A1  []*F134T1        `protobuf:"bytes,12,rep"`
	A2  uint32           `protobuf:"varint,4,opt"`
	A3  Enum             `protobuf:"varint,20,opt"`
	A4  uint64           `protobuf:"fixed64,16,opt"`
	A5  []int32          `protobuf:"zigzag32,25,rep"`
	A6  map[uint32]int64 `protobuf:"bytes,29,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A7  Enum             `protobuf:"varint,6,opt"`
	A8  int32            `protobuf:"zigzag32,28,opt"`
	A9  map[int64]uint64 `protobuf:"bytes,32,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A10 *int64           `protobuf:"fixed64,2,opt"`
}

type F135T0 struct {
	A0 map[int32]int32     `protobuf:"bytes,14,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"zigzag32,2,opt"`
	A1 []*F135T1           `protobuf:"bytes,15,rep"`
	A2 *F135T1             `protobuf:"bytes,1,opt"`
	A3 proto.Option[int64] `protobuf:"zigzag64,18,opt"`
	A4 []*F135T1           `protobuf:"bytes,2,rep"`
	A5 map[int32]*F135T0   `protobuf:"bytes,27,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A6 *Enum               `protobuf:"varint,7,opt"`
	A7 proto.Option[int64] `protobuf:"zigzag64,25,opt"`
}

type F135T1 struct {
	A0 map[uint32]*F135T0  `protobuf:"bytes,13,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 map[int32]*F135T0   `protobuf:"bytes,5,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *int64              `protobuf:"fixed64,1,opt"`
	A3 *int64              `protobuf:"zigzag64,22,opt"`
	A4 proto.Option[int64] `protobuf:"zigzag64,16,opt"`
	A5 *F135T0             `protobuf:"bytes,24,opt"`
	A6 *F135T1             `protobuf:"bytes,19,opt"`
}

type F136T0 struct {
	A0  *F136T1              `protobuf:"bytes,85,opt"`
	A1  *F136T2              `protobuf:"bytes,100,opt"`
	A2  proto.Option[int32]  `protobuf:"zigzag32,88,opt"`
	A3  proto.Option[bool]   `protobuf:"varint,114,opt"`
	A4  [][]byte             `protobuf:"bytes,121,rep"`
	A5  *int64               `protobuf:"zigzag64,32,opt"`
	A6  Enum                 `protobuf:"varint,108,opt"`
	A7  map[int32]uint32     `protobuf:"bytes,71,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A8  []int64              `protobuf:"varint,105,rep"`
	A9  *string              `protobuf:"bytes,57,opt"`
	A10 []Enum               `protobuf:"varint,77,rep"`
	A11 []byte               `protobuf:"bytes,102,opt"`
	A12 map[uint32]string    `protobuf:"bytes,39,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A13 []Enum               `protobuf:"varint,110,rep"`
	A14 proto.Option[string] `protobuf:"bytes,24,opt"`
	A15 *int32               `protobuf:"varint,43,opt"`
	A16 bool                 `protobuf:"varint,115,opt"`
	A17 *uint64              `protobuf:"fixed64,17,opt"`
	A18 uint64               `protobuf:"fixed64,112,opt"`
	A19 []int64              `protobuf:"fixed64,2,rep"`
	A20 bool                 `protobuf:"varint,75,opt"`
	A21 *bool                `protobuf:"varint,99,opt"`
	A22 int64                `protobuf:"varint,52,opt"`
	A23 Enum                 `protobuf:"varint,65,opt"`
	A24 *int32               `protobuf:"zigzag32,21,opt"`
	A25 map[int32]string     `protobuf:"bytes,29,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A26 proto.Option[uint64] `protobuf:"varint,107,opt"`
	A27 *int64               `protobuf:"varint,120,opt"`
	A28 []int32              `protobuf:"varint,12,rep"`
	A29 map[int64]int32      `protobuf:"bytes,9,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A30 *int64               `protobuf:"varint,82,opt"`
	A31 *Enum                `protobuf:"varint,5,opt"`
	A32 *int64               `protobuf:"zigzag64,53,opt"`
	A33 []string             `protobuf:"bytes,73,rep"`
	A34 *int32               `protobuf:"varint,15,opt"`
	A35 map[uint32]int32     `protobuf:"bytes,11,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A36 proto.Option[uint64] `protobuf:"fixed64,96,opt"`
	A37 []byte               `protobuf:"bytes,56,opt"`
	A38 []uint32             `protobuf:"fixed32,91,rep"`
	A39 Enum                 `protobuf:"varint,35,opt"`
	A40 Enum                 `protobuf:"varint,76,opt"`
}

type F136T1 struct {
	A0 *float64            `protobuf:"fixed64,14,opt"`
	A1 proto.Option[int64] `protobuf:"zigzag64,6,opt"`
	A2 []*F136T2           `protobuf:"bytes,3,rep"`
	A3 []*F136T0           `protobuf:"bytes,7,rep"`
	A4 map[uint64]*F136T2  `protobuf:"bytes,8,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
}

type F136T2 struct {
	A0  map[uint64]*F136T3    `protobuf:"bytes,75,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1  map[int64]*F136T2     `protobuf:"bytes,80,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A2  *F136T2               `protobuf:"bytes,6,opt"`
	A3  *F136T3               `protobuf:"bytes,88,opt"`
	A4  *int64                `protobuf:"fixed64,7,opt"`
	A5  []int64               `protobuf:"fixed64,49,rep"`
	A6  *uint64               `protobuf:"varint,78,opt"`
	A7  Enum                  `protobuf:"varint,79,opt"`
	A8  proto.Option[float64] `protobuf:"fixed64,65,opt"`
	A9  *float64              `protobuf:"fixed64,44,opt"`
	A10 []uint64              `protobuf:"fixed64,70,rep"`
	A11 proto.Option[int32]   `protobuf:"zigzag32,87,opt"`
	A12 []uint32              `protobuf:"varint,64,rep"`
	A13 []byte                `protobuf:"bytes,58,opt"`
	A14 []int32               `protobuf:"zigzag32,16,rep"`
	A15 uint64                `protobuf:"varint,94,opt"`
	A16 []byte                `protobuf:"bytes,73,opt"`
	A17 proto.Option[uint32]  `protobuf:"varint,56,opt"`
	A18 map[string][]byte     `protobuf:"bytes,59,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A19 *uint64               `protobuf:"fixed64,23,opt"`
	A20 *int32                `protobuf:"varint,1,opt"`
	A21 []float32             `protobuf:"fixed32,86,rep"`
	A22 int32                 `protobuf:"varint,27,opt"`
	A23 map[string]int64      `protobuf:"bytes,76,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed64,2,opt"`
	A24 []int32               `protobuf:"varint,95,rep"`
	A25 Enum                  `protobuf:"varint,15,opt"`
	A26 *Enum                 `protobuf:"varint,97,opt"`
	A27 *int32                `protobuf:"zigzag32,50,opt"`
	A28 proto.Option[float32] `protobuf:"fixed32,41,opt"`
	A29 map[int64]int32       `protobuf:"bytes,54,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A30 []bool                `protobuf:"varint,55,rep"`
	A31 map[bool]int64        `protobuf:"bytes,68,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag64,2,opt"`
}

type F136T3 struct {
	A0  *float32             `protobuf:"fixed32,19,opt"`
	A1  proto.Option[uint32] `protobuf:"fixed32,24,opt"`
	A2  proto.Option[int64]  `protobuf:"zigzag64,56,opt"`
	A3  *float32             `protobuf:"fixed32,47,opt"`
	A4  map[int32]uint64     `protobuf:"bytes,46,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
	A5  []int32              `protobuf:"varint,2,rep"`
	A6  []float64            `protobuf:"fixed64,54,rep"`
	A7  map[uint64]float32   `protobuf:"bytes,5,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A8  map[uint32][]byte    `protobuf:"bytes,27,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A9  []int32              `protobuf:"fixed32,45,rep"`
	A10 map[uint64]float32   `protobuf:"bytes,14,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A11 map[int64]int64      `protobuf:"bytes,35,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"zigzag64,2,opt"`
	A12 map[int32][]byte     `protobuf:"bytes,33,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A13 float32              `protobuf:"fixed32,34,opt"`
	A14 *F136T0              `protobuf:"bytes,36,opt"`
	A15 map[string]*F136T2   `protobuf:"bytes,51,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A16 map[uint64]*F136T2   `protobuf:"bytes,30,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A17 *F136T2              `protobuf:"bytes,15,opt"`
}

type F137T0 struct {
	A0 map[uint64]uint32 `protobuf:"bytes,12,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A1 []*F137T1         `protobuf:"bytes,1,rep"`
	A2 []*F137T0         `protobuf:"bytes,15,rep"`
	A3 []*F137T2         `protobuf:"bytes,13,rep"`
	A4 []*F137T2         `protobuf:"bytes,2,rep"`
}

type F137T1 struct {
	A0 uint64             `protobuf:"fixed64,10,opt"`
	A1 map[uint64]string  `protobuf:"bytes,5,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 map[string]*F137T2 `protobuf:"bytes,15,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A3 *F137T1            `protobuf:"bytes,18,opt"`
	A4 *F137T1            `protobuf:"bytes,16,opt"`
}

type F137T2 struct {
	A0 []*F137T0        `protobuf:"bytes,7,rep"`
	A1 map[bool]*F137T2 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 map[bool]*F137T0 `protobuf:"bytes,10,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A3 []*F137T0        `protobuf:"bytes,4,rep"`
	A4 float32          `protobuf:"fixed32,2,opt"`
}

type F138T0 struct {
	A0 *float64              `protobuf:"fixed64,10,opt"`
	A1 proto.Option[float32] `protobuf:"fixed32,18,opt"`
	A2 proto.Option[int32]   `protobuf:"varint,14,opt"`
	A3 *int32                `protobuf:"zigzag32,19,opt"`
	A4 map[int64]*F138T1     `protobuf:"bytes,2,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A5 *F138T2               `protobuf:"bytes,11,opt"`
	A6 []*F138T2             `protobuf:"bytes,9,rep"`
}

type F138T1 struct {
	A0 []uint64          `protobuf:"varint,15,rep"`
	A1 *uint64           `protobuf:"fixed64,17,opt"`
	A2 map[uint32]int64  `protobuf:"bytes,3,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"zigzag64,2,opt"`
	A3 uint64            `protobuf:"fixed64,8,opt"`
	A4 []*F138T2         `protobuf:"bytes,14,rep"`
	A5 []*F138T2         `protobuf:"bytes,23,rep"`
	A6 map[int32]*F138T1 `protobuf:"bytes,13,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F138T2 struct {
	A0 []int32            `protobuf:"fixed32,1,rep"`
	A1 *Enum              `protobuf:"varint,4,opt"`
	A2 *F138T0            `protobuf:"bytes,13,opt"`
	A3 map[uint64]*F138T1 `protobuf:"bytes,6,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
}

type F139T0 struct {
	A0  *F139T1             `protobuf:"bytes,86,opt"`
	A1  *F139T2             `protobuf:"bytes,33,opt"`
	A2  []int64             `protobuf:"varint,84,rep"`
	A3  *int64              `protobuf:"zigzag64,37,opt"`
	A4  map[int32]uint32    `protobuf:"bytes,35,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed32,2,opt"`
	A5  []Enum              `protobuf:"varint,83,rep"`
	A6  uint32              `protobuf:"varint,78,opt"`
	A7  []int32             `protobuf:"fixed32,77,rep"`
	A8  *uint64             `protobuf:"varint,15,opt"`
	A9  *uint32             `protobuf:"varint,56,opt"`
	A10 map[uint32]uint64   `protobuf:"bytes,12,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A11 bool                `protobuf:"varint,81,opt"`
	A12 []int64             `protobuf:"fixed64,17,rep"`
	A13 []int64             `protobuf:"fixed64,27,rep"`
	A14 uint32              `protobuf:"varint,51,opt"`
	A15 map[int64]bool      `protobuf:"bytes,42,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A16 map[uint32]uint32   `protobuf:"bytes,43,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A17 []Enum              `protobuf:"varint,4,rep"`
	A18 []byte              `protobuf:"bytes,9,opt"`
	A19 []float64           `protobuf:"fixed64,46,rep"`
	A20 proto.Option[int64] `protobuf:"zigzag64,73,opt"`
	A21 []float32           `protobuf:"fixed32,20,rep"`
	A22 Enum                `protobuf:"varint,3,opt"`
	A23 []uint64            `protobuf:"fixed64,40,rep"`
	A24 []byte              `protobuf:"bytes,61,opt"`
	A25 uint64              `protobuf:"fixed64,10,opt"`
	A26 []int64             `protobuf:"fixed64,32,rep"`
	A27 float32             `protobuf:"fixed32,85,opt"`
}

type F139T1 struct {
	A0  uint64               `protobuf:"varint,18,opt"`
	A1  []uint64             `protobuf:"varint,31,rep"`
	A2  [][]byte             `protobuf:"bytes,48,rep"`
	A3  float32              `protobuf:"fixed32,26,opt"`
	A4  proto.Option[string] `protobuf:"bytes,27,opt"`
	A5  proto.Option[int64]  `protobuf:"fixed64,1,opt"`
	A6  *Enum                `protobuf:"varint,41,opt"`
	A7  Enum                 `protobuf:"varint,45,opt"`
	A8  proto.Option[int32]  `protobuf:"varint,8,opt"`
	A9  uint64               `protobuf:"fixed64,33,opt"`
	A10 proto.Option[int64]  `protobuf:"fixed64,25,opt"`
	A11 *F139T2              `protobuf:"bytes,32,opt"`
	A12 *F139T4              `protobuf:"bytes,44,opt"`
	A13 *F139T2              `protobuf:"bytes,5,opt"`
	A14 *F139T0              `protobuf:"bytes,7,opt"`
}

type F139T2 struct {
	A0  []*F139T3             `protobuf:"bytes,50,rep"`
	A1  map[uint64]*F139T0    `protobuf:"bytes,11,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2  *F139T1               `protobuf:"bytes,49,opt"`
	A3  *F139T0               `protobuf:"bytes,46,opt"`
	A4  []Enum                `protobuf:"varint,35,rep"`
	A5  proto.Option[uint32]  `protobuf:"fixed32,43,opt"`
	A6  proto.Option[float64] `protobuf:"fixed64,9,opt"`
	A7  []byte                `protobuf:"bytes,26,opt"`
	A8  proto.Option[float64] `protobuf:"fixed64,28,opt"`
	A9  []Enum                `protobuf:"varint,6,rep"`
	A10 *int32                `protobuf:"fixed32,33,opt"`
	A11 map[int32]uint32      `protobuf:"bytes,23,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
	A12 *bool                 `protobuf:"varint,18,opt"`
	A13 *int64                `protobuf:"zigzag64,40,opt"`
	A14 map[uint64]float64    `protobuf:"bytes,5,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
	A15 []Enum                `protobuf:"varint,30,rep"`
}

type F139T3 struct {
	A0  int64                 `protobuf:"varint,1,opt"`
	A1  int32                 `protobuf:"fixed32,105,opt"`
	A2  []int32               `protobuf:"zigzag32,14,rep"`
	A3  string                `protobuf:"bytes,87,opt"`
	A4  map[int64]int32       `protobuf:"bytes,96,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"varint,2,opt"`
	A5  [][]byte              `protobuf:"bytes,68,rep"`
	A6  *Enum                 `protobuf:"varint,12,opt"`
	A7  map[int32]float64     `protobuf:"bytes,77,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"fixed64,2,opt"`
	A8  proto.Option[uint32]  `protobuf:"varint,30,opt"`
	A9  []int32               `protobuf:"zigzag32,18,rep"`
	A10 []int32               `protobuf:"zigzag32,42,rep"`
	A11 []uint64              `protobuf:"fixed64,10,rep"`
	A12 map[uint64]int32      `protobuf:"bytes,97,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A13 *uint64               `protobuf:"varint,15,opt"`
	A14 proto.Option[bool]    `protobuf:"varint,86,opt"`
	A15 map[uint32]int64      `protobuf:"bytes,75,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A16 proto.Option[float64] `protobuf:"fixed64,36,opt"`
	A17 *uint32               `protobuf:"varint,49,opt"`
	A18 proto.Option[bool]    `protobuf:"varint,54,opt"`
	A19 uint64                `protobuf:"varint,95,opt"`
	A20 int64                 `protobuf:"varint,48,opt"`
	A21 proto.Option[int64]   `protobuf:"fixed64,46,opt"`
	A22 int64                 `protobuf:"fixed64,78,opt"`
	A23 proto.Option[int64]   `protobuf:"fixed64,76,opt"`
	A24 []int32               `protobuf:"fixed32,88,rep"`
	A25 [][]byte              `protobuf:"bytes,73,rep"`
	A26 map[int64]uint32      `protobuf:"bytes,23,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A27 []float32             `protobuf:"fixed32,26,rep"`
	A28 *uint64               `protobuf:"varint,27,opt"`
	A29 []float64             `protobuf:"fixed64,22,rep"`
	A30 proto.Option[int32]   `protobuf:"zigzag32,39,opt"`
	A31 *int32                `protobuf:"varint,44,opt"`
	A32 proto.Option[int32]   `protobuf:"varint,43,opt"`
	A33 *F139T4               `protobuf:"bytes,94,opt"`
}

type F139T4 struct {
	A0  proto.Option[int32] `protobuf:"zigzag32,7,opt"`
	A1  string              `protobuf:"bytes,33,opt"`
	A2  *int64              `protobuf:"varint,25,opt"`
	A3  map[string]uint32   `protobuf:"bytes,35,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed32,2,opt"`
	A4  map[int32]*F139T5   `protobuf:"bytes,16,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A5  *int32              `protobuf:"varint,53,opt"`
	A6  map[uint32]*F139T0  `protobuf:"bytes,64,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A7  Enum                `protobuf:"varint,51,opt"`
	A8  map[int32]int32     `protobuf:"bytes,50,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A9  int64               `protobuf:"fixed64,43,opt"`
	A10 *Enum               `protobuf:"varint,15,opt"`
	A11 *F139T1             `protobuf:"bytes,21,opt"`
	A12 []uint64            `protobuf:"varint,3,rep"`
	A13 map[int64]string    `protobuf:"bytes,32,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A14 string              `protobuf:"bytes,48,opt"`
	A15 uint64              `protobuf:"fixed64,30,opt"`
	A16 *F139T0             `protobuf:"bytes,9,opt"`
	A17 *Enum               `protobuf:"varint,27,opt"`
	A18 float64             `protobuf:"fixed64,62,opt"`
	A19 []byte              `protobuf:"bytes,8,opt"`
	A20 *Enum               `protobuf:"varint,10,opt"`
}

type F139T5 struct {
	A0  *uint64               `protobuf:"fixed64,59,opt"`
	A1  *Enum                 `protobuf:"varint,93,opt"`
	A2  []int64               `protobuf:"fixed64,77,rep"`
	A3  []uint32              `protobuf:"varint,62,rep"`
	A4  *F139T0               `protobuf:"bytes,54,opt"`
	A5  uint32                `protobuf:"varint,51,opt"`
	A6  proto.Option[bool]    `protobuf:"varint,21,opt"`
	A7  map[int32]int32       `protobuf:"bytes,52,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
	A8  map[int64]uint32      `protobuf:"bytes,85,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A9  proto.Option[int64]   `protobuf:"varint,32,opt"`
	A10 int32                 `protobuf:"zigzag32,89,opt"`
	A11 proto.Option[uint32]  `protobuf:"varint,92,opt"`
	A12 []Enum                `protobuf:"varint,55,rep"`
	A13 Enum                  `protobuf:"varint,1,opt"`
	A14 string                `protobuf:"bytes,83,opt"`
	A15 int64                 `protobuf:"zigzag64,75,opt"`
	A16 uint64                `protobuf:"fixed64,97,opt"`
	A17 []uint64              `protobuf:"varint,72,rep"`
	A18 proto.Option[float32] `protobuf:"fixed32,25,opt"`
	A19 []int64               `protobuf:"fixed64,45,rep"`
	A20 Enum                  `protobuf:"varint,22,opt"`
	A21 map[int64]int64       `protobuf:"bytes,81,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"zigzag64,2,opt"`
	A22 proto.Option[uint64]  `protobuf:"varint,11,opt"`
	A23 []uint64              `protobuf:"fixed64,17,rep"`
	A24 map[uint64]int32      `protobuf:"bytes,20,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A25 uint64                `protobuf:"fixed64,70,opt"`
	A26 []Enum                `protobuf:"varint,53,rep"`
	A27 []bool                `protobuf:"varint,48,rep"`
	A28 Enum                  `protobuf:"varint,15,opt"`
	A29 []int64               `protobuf:"varint,14,rep"`
	A30 *Enum                 `protobuf:"varint,65,opt"`
	A31 map[uint64]uint32     `protobuf:"bytes,23,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A32 Enum                  `protobuf:"varint,84,opt"`
}

type F140T0 struct {
	A0 *F140T1 `protobuf:"bytes,1,opt"`
	A1 bool    `protobuf:"varint,2,opt"`
	A2 *F140T0 `protobuf:"bytes,4,opt"`
}

type F140T1 struct {
	A0 map[string]*F140T2   `protobuf:"bytes,3,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F140T3              `protobuf:"bytes,6,opt"`
	A2 proto.Option[uint32] `protobuf:"varint,4,opt"`
}

type F140T2 struct {
	A0 *F140T3          `protobuf:"bytes,9,opt"`
	A1 *F140T2          `protobuf:"bytes,12,opt"`
	A2 *F140T3          `protobuf:"bytes,20,opt"`
	A3 *F140T0          `protobuf:"bytes,18,opt"`
	A4 *int64           `protobuf:"varint,17,opt"`
	A5 map[int32]uint64 `protobuf:"bytes,7,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
}

type F140T3 struct {
	A0 *F140T4             `protobuf:"bytes,10,opt"`
	A1 proto.Option[int64] `protobuf:"fixed64,4,opt"`
	A2 proto.Option[int64] `protobuf:"zigzag64,11,opt"`
	A3 map[uint32]*F140T0  `protobuf:"bytes,7,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
}

type F140T4 struct {
	A0 []*F140T0          `protobuf:"bytes,18,rep"`
	A1 map[uint64]*F140T0 `protobuf:"bytes,14,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A2 map[int64]*F140T3  `protobuf:"bytes,4,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A3 []byte             `protobuf:"bytes,16,opt"`
	A4 []int32            `protobuf:"fixed32,12,rep"`
}

type F141T0 struct {
	A0  Enum                `protobuf:"varint,50,opt"`
	A1  float32             `protobuf:"fixed32,16,opt"`
	A2  int32               `protobuf:"zigzag32,17,opt"`
	A3  []float32           `protobuf:"fixed32,14,rep"`
	A4  proto.Option[int64] `protobuf:"zigzag64,23,opt"`
	A5  *int64              `protobuf:"zigzag64,42,opt"`
	A6  []uint32            `protobuf:"varint,7,rep"`
	A7  bool                `protobuf:"varint,38,opt"`
	A8  Enum                `protobuf:"varint,30,opt"`
	A9  map[uint64][]byte   `protobuf:"bytes,13,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A10 []Enum              `protobuf:"varint,4,rep"`
	A11 []int64             `protobuf:"zigzag64,54,rep"`
	A12 []float32           `protobuf:"fixed32,41,rep"`
	A13 map[int32]float64   `protobuf:"bytes,18,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A14 int32               `protobuf:"fixed32,44,opt"`
	A15 proto.Option[bool]  `protobuf:"varint,36,opt"`
	A16 uint64              `protobuf:"varint,53,opt"`
	A17 []*F141T1           `protobuf:"bytes,10,rep"`
}

type F141T1 struct {
	A0  *F141T2               `protobuf:"bytes,70,opt"`
	A1  map[uint32]*F141T3    `protobuf:"bytes,9,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A2  []*F141T2             `protobuf:"bytes,73,rep"`
	A3  map[int32]*F141T1     `protobuf:"bytes,60,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A4  uint32                `protobuf:"fixed32,41,opt"`
	A5  *int32                `protobuf:"fixed32,15,opt"`
	A6  *uint64               `protobuf:"fixed64,30,opt"`
	A7  map[uint32]uint64     `protobuf:"bytes,59,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A8  *string               `protobuf:"bytes,11,opt"`
	A9  *float32              `protobuf:"fixed32,21,opt"`
	A10 *uint32               `protobuf:"varint,29,opt"`
	A11 []string              `protobuf:"bytes,62,rep"`
	A12 map[int64]float32     `protobuf:"bytes,49,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A13 []Enum                `protobuf:"varint,46,rep"`
	A14 []Enum                `protobuf:"varint,36,rep"`
	A15 []int64               `protobuf:"zigzag64,2,rep"`
	A16 map[int32]int64       `protobuf:"bytes,61,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"zigzag64,2,opt"`
	A17 map[int64]string      `protobuf:"bytes,55,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A18 int64                 `protobuf:"varint,26,opt"`
	A19 []int32               `protobuf:"fixed32,3,rep"`
	A20 proto.Option[float32] `protobuf:"fixed32,57,opt"`
	A21 *uint64               `protobuf:"varint,75,opt"`
	A22 int32                 `protobuf:"zigzag32,45,opt"`
	A23 *uint64               `protobuf:"fixed64,14,opt"`
}

type F141T2 struct {
	A0  int32                `protobuf:"fixed32,9,opt"`
	A1  proto.Option[uint64] `protobuf:"fixed64,13,opt"`
	A2  proto.Option[int64]  `protobuf:"zigzag64,2,opt"`
	A3  map[int64]*F141T1    `protobuf:"bytes,45,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A4  *int32               `protobuf:"varint,4,opt"`
	A5  []Enum               `protobuf:"varint,23,rep"`
	A6  *Enum                `protobuf:"varint,10,opt"`
	A7  []Enum               `protobuf:"varint,28,rep"`
	A8  proto.Option[int32]  `protobuf:"fixed32,6,opt"`
	A9  map[int32]*F141T3    `protobuf:"bytes,15,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A10 map[int32]*F141T2    `protobuf:"bytes,50,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A11 uint64               `protobuf:"varint,34,opt"`
	A12 map[uint64]*F141T3   `protobuf:"bytes,27,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A13 *Enum                `protobuf:"varint,16,opt"`
	A14 *uint32              `protobuf:"fixed32,32,opt"`
	A15 proto.Option[int64]  `protobuf:"zigzag64,39,opt"`
}

type F141T3 struct {
	A0 []*F141T4           `protobuf:"bytes,18,rep"`
	A1 *F141T2             `protobuf:"bytes,1,opt"`
	A2 float32             `protobuf:"fixed32,4,opt"`
	A3 []Enum              `protobuf:"varint,9,rep"`
	A4 proto.Option[int32] `protobuf:"zigzag32,17,opt"`
}

type F141T4 struct {
	A0  int64                `protobuf:"varint,34,opt"`
	A1  *uint64              `protobuf:"fixed64,4,opt"`
	A2  uint32               `protobuf:"fixed32,36,opt"`
	A3  proto.Option[string] `protobuf:"bytes,42,opt"`
	A4  *float64             `protobuf:"fixed64,3,opt"`
	A5  int64                `protobuf:"fixed64,31,opt"`
	A6  *int32               `protobuf:"varint,35,opt"`
	A7  *Enum                `protobuf:"varint,45,opt"`
	A8  *int64               `protobuf:"fixed64,2,opt"`
	A9  float64              `protobuf:"fixed64,13,opt"`
	A10 map[int32]*F141T0    `protobuf:"bytes,6,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A11 map[string]*F141T0   `protobuf:"bytes,38,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A12 *F141T1              `protobuf:"bytes,5,opt"`
	A13 map[uint64]*F141T1   `protobuf:"bytes,23,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
}

type F142T0 struct {
	A0  *uint32               `protobuf:"fixed32,95,opt"`
	A1  proto.Option[uint32]  `protobuf:"fixed32,20,opt"`
	A2  map[uint32]string     `protobuf:"bytes,93,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A3  *float64              `protobuf:"fixed64,104,opt"`
	A4  proto.Option[bool]    `protobuf:"varint,64,opt"`
	A5  *Enum                 `protobuf:"varint,55,opt"`
	A6  []Enum                `protobuf:"varint,86,rep"`
	A7  map[string]float32    `protobuf:"bytes,67,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed32,2,opt"`
	A8  *Enum                 `protobuf:"varint,21,opt"`
	A9  []uint64              `protobuf:"varint,71,rep"`
	A10 Enum                  `protobuf:"varint,119,opt"`
	A11 *Enum                 `protobuf:"varint,91,opt"`
	A12 []int32               `protobuf:"varint,78,rep"`
	A13 proto.Option[float64] `protobuf:"fixed64,31,opt"`
	A14 proto.Option[float64] `protobuf:"fixed64,70,opt"`
	A15 *int32                `protobuf:"varint,29,opt"`
	A16 Enum                  `protobuf:"varint,100,opt"`
	A17 Enum                  `protobuf:"varint,45,opt"`
	A18 proto.Option[int64]   `protobuf:"fixed64,9,opt"`
	A19 *bool                 `protobuf:"varint,5,opt"`
	A20 proto.Option[uint32]  `protobuf:"varint,2,opt"`
	A21 Enum                  `protobuf:"varint,99,opt"`
	A22 uint64                `protobuf:"varint,105,opt"`
	A23 map[string]string     `protobuf:"bytes,97,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A24 map[uint64]*F142T0    `protobuf:"bytes,18,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A25 []Enum                `protobuf:"varint,87,rep"`
	A26 *bool                 `protobuf:"varint,10,opt"`
	A27 proto.Option[int64]   `protobuf:"fixed64,48,opt"`
	A28 *int32                `protobuf:"zigzag32,52,opt"`
	A29 *uint32               `protobuf:"varint,82,opt"`
	A30 *uint64               `protobuf:"varint,80,opt"`
	A31 []int32               `protobuf:"zigzag32,56,rep"`
	A32 string                `protobuf:"bytes,58,opt"`
	A33 []byte                `protobuf:"bytes,23,opt"`
	A34 map[uint32][]byte     `protobuf:"bytes,57,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A35 proto.Option[int64]   `protobuf:"zigzag64,44,opt"`
	A36 map[int64]int32       `protobuf:"bytes,41,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A37 *string               `protobuf:"bytes,90,opt"`
	A38 proto.Option[uint32]  `protobuf:"varint,110,opt"`
}

type F143T0 struct {
	A0 int64               `protobuf:"fixed64,29,opt"`
	A1 *F143T0             `protobuf:"bytes,17,opt"`
	A2 Enum                `protobuf:"varint,8,opt"`
	A3 int32               `protobuf:"zigzag32,6,opt"`
	A4 proto.Option[int32] `protobuf:"zigzag32,1,opt"`
	A5 *Enum               `protobuf:"varint,3,opt"`
	A6 *F143T0             `protobuf:"bytes,14,opt"`
	A7 *Enum               `protobuf:"varint,10,opt"`
	A8 map[uint64][]byte   `protobuf:"bytes,13,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F144T0 struct {
	A0 []int64             `protobuf:"zigzag64,12,rep"`
	A1 proto.Option[int64] `protobuf:"fixed64,19,opt"`
	A2 *int64              `protobuf:"varint,3,opt"`
	A3 Enum                `protobuf:"varint,2,opt"`
	A4 *F144T0             `protobuf:"bytes,18,opt"`
	A5 map[uint64]*F144T0  `protobuf:"bytes,13,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type F145T0 struct {
	A0 *F145T0 `protobuf:"bytes,5,opt"`
	A1 *F145T1 `protobuf:"bytes,2,opt"`
	A2 uint32  `protobuf:"fixed32,8,opt"`
}

type F145T1 struct {
	A0 *F145T2              `protobuf:"bytes,17,opt"`
	A1 *F145T2              `protobuf:"bytes,15,opt"`
	A2 *uint64              `protobuf:"fixed64,23,opt"`
	A3 []Enum               `protobuf:"varint,19,rep"`
	A4 float32              `protobuf:"fixed32,7,opt"`
	A5 proto.Option[uint64] `protobuf:"fixed64,12,opt"`
	A6 []Enum               `protobuf:"varint,8,rep"`
}

type F145T2 struct {
	A0 int64           `protobuf:"zigzag64,1,opt"`
	A1 Enum            `protobuf:"varint,4,opt"`
	A2 map[int32]int64 `protobuf:"bytes,18,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag64,2,opt"`
	A3 *F145T3         `protobuf:"bytes,10,opt"`
	A4 []byte          `protobuf:"bytes,12,opt"`
}

type F145T3 struct {
	A0 int32     `protobuf:"fixed32,19,opt"`
	A1 float32   `protobuf:"fixed32,4,opt"`
	A2 *F145T4   `protobuf:"bytes,12,opt"`
	A3 Enum      `protobuf:"varint,16,opt"`
	A4 []*F145T2 `protobuf:"bytes,2,rep"`
	A5 *F145T4   `protobuf:"bytes,6,opt"`
}

type F145T4 struct {
	A0 *F145T0           `protobuf:"bytes,16,opt"`
	A1 map[int32]*F145T0 `protobuf:"bytes,11,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A2 []Enum            `protobuf:"varint,1,rep"`
	A3 *int32            `protobuf:"fixed32,9,opt"`
	A4 Enum              `protobuf:"varint,18,opt"`
}

type F146T0 struct {
	A0  map[int64]bool       `protobuf:"bytes,11,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"varint,2,opt"`
	A1  Enum                 `protobuf:"varint,50,opt"`
	A2  *uint32              `protobuf:"fixed32,20,opt"`
	A3  int64                `protobuf:"varint,25,opt"`
	A4  proto.Option[int32]  `protobuf:"zigzag32,3,opt"`
	A5  []int32              `protobuf:"fixed32,17,rep"`
	A6  []byte               `protobuf:"bytes,51,opt"`
	A7  *Enum                `protobuf:"varint,42,opt"`
	A8  Enum                 `protobuf:"varint,35,opt"`
	A9  *F146T1              `protobuf:"bytes,46,opt"`
	A10 proto.Option[string] `protobuf:"bytes,8,opt"`
	A11 proto.Option[int32]  `protobuf:"zigzag32,32,opt"`
	A12 *uint64              `protobuf:"varint,29,opt"`
	A13 proto.Option[int32]  `protobuf:"zigzag32,47,opt"`
	A14 *F146T1              `protobuf:"bytes,24,opt"`
	A15 []*F146T1            `protobuf:"bytes,6,rep"`
	A16 []*F146T1            `protobuf:"bytes,52,rep"`
	A17 map[int64]bool       `protobuf:"bytes,54,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"varint,2,opt"`
}

type F146T1 struct {
	A0 map[bool]*F146T0  `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *F146T0           `protobuf:"bytes,15,opt"`
	A2 *F146T0           `protobuf:"bytes,9,opt"`
	A3 map[int32]*F146T1 `protobuf:"bytes,4,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
}

type F147T0 struct {
	A0 *F147T1           `protobuf:"bytes,3,opt"`
	A1 map[int64]*F147T0 `protobuf:"bytes,6,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
}

type F147T1 struct {
	A0 map[int64]*F147T0 `protobuf:"bytes,15,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A1 []byte            `protobuf:"bytes,13,opt"`
	A2 map[int64]float64 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A3 Enum              `protobuf:"varint,5,opt"`
	A4 *int32            `protobuf:"zigzag32,4,opt"`
}

type F148T0 struct {
	A0 *F148T1  `protobuf:"bytes,9,opt"`
	A1 *F148T4  `protobuf:"bytes,7,opt"`
	A2 *uint32  `protobuf:"varint,4,opt"`
	A3 *float32 `protobuf:"fixed32,13,opt"`
}

type F148T1 struct {
	A0 []*F148T2 `protobuf:"bytes,7,rep"`
	A1 *F148T3   `protobuf:"bytes,9,opt"`
}

type F148T2 struct {
	A0 proto.Option[float32] `protobuf:"fixed32,6,opt"`
	A1 map[uint64]uint64     `protobuf:"bytes,5,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A2 *F148T3               `protobuf:"bytes,11,opt"`
}

type F148T3 struct {
	A0 *F148T4              `protobuf:"bytes,3,opt"`
	A1 proto.Option[bool]   `protobuf:"varint,1,opt"`
	A2 proto.Option[uint32] `protobuf:"fixed32,6,opt"`
}

type F148T4 struct {
	A0 []*F148T0           `protobuf:"bytes,17,rep"`
	A1 map[string]*F148T4  `protobuf:"bytes,6,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *F148T0             `protobuf:"bytes,14,opt"`
	A3 []*F148T0           `protobuf:"bytes,4,rep"`
	A4 proto.Option[int64] `protobuf:"zigzag64,8,opt"`
}

type F149T0 struct {
	A0 *F149T1   `protobuf:"bytes,12,opt"`
	A1 []*F149T4 `protobuf:"bytes,4,rep"`
	A2 *float64  `protobuf:"fixed64,11,opt"`
}

type F149T1 struct {
	A0  map[int64]*F149T2    `protobuf:"bytes,45,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A1  *F149T1              `protobuf:"bytes,23,opt"`
	A2  *F149T1              `protobuf:"bytes,29,opt"`
	A3  map[uint32]*F149T3   `protobuf:"bytes,2,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A4  *uint64              `protobuf:"varint,40,opt"`
	A5  []Enum               `protobuf:"varint,9,rep"`
	A6  map[int32]int64      `protobuf:"bytes,53,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A7  map[bool]int64       `protobuf:"bytes,36,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A8  []int64              `protobuf:"zigzag64,43,rep"`
	A9  proto.Option[bool]   `protobuf:"varint,14,opt"`
	A10 []Enum               `protobuf:"varint,7,rep"`
	A11 map[int64]int32      `protobuf:"bytes,49,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed32,2,opt"`
	A12 int64                `protobuf:"zigzag64,55,opt"`
	A13 []int32              `protobuf:"varint,62,rep"`
	A14 *Enum                `protobuf:"varint,37,opt"`
	A15 []byte               `protobuf:"bytes,44,opt"`
	A16 proto.Option[uint64] `protobuf:"fixed64,20,opt"`
	A17 map[int64]uint32     `protobuf:"bytes,34,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A18 *Enum                `protobuf:"varint,19,opt"`
	A19 bool                 `protobuf:"varint,22,opt"`
}

type F149T2 struct {
	A0 *int64              `protobuf:"varint,26,opt"`
	A1 []*F149T3           `protobuf:"bytes,5,rep"`
	A2 proto.Option[int32] `protobuf:"zigzag32,12,opt"`
	A3 Enum                `protobuf:"varint,11,opt"`
	A4 int32               `protobuf:"zigzag32,9,opt"`
	A5 int64               `protobuf:"zigzag64,2,opt"`
	A6 []*F149T4           `protobuf:"bytes,18,rep"`
	A7 *int32              `protobuf:"zigzag32,21,opt"`
}

type F149T3 struct {
	A0 []uint64          `protobuf:"varint,20,rep"`
	A1 *F149T4           `protobuf:"bytes,11,opt"`
	A2 *F149T3           `protobuf:"bytes,18,opt"`
	A3 map[int64]*F149T0 `protobuf:"bytes,17,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A4 []float64         `protobuf:"fixed64,8,rep"`
	A5 map[int32]float64 `protobuf:"bytes,16,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
}

type F149T4 struct {
	A0  int32                 `protobuf:"varint,28,opt"`
	A1  proto.Option[int32]   `protobuf:"zigzag32,22,opt"`
	A2  *int32                `protobuf:"varint,8,opt"`
	A3  map[int32]uint32      `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A4  proto.Option[float64] `protobuf:"fixed64,40,opt"`
	A5  proto.Option[string]  `protobuf:"bytes,7,opt"`
	A6  map[int32]float32     `protobuf:"bytes,21,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed32,2,opt"`
	A7  float32               `protobuf:"fixed32,39,opt"`
	A8  float32               `protobuf:"fixed32,1,opt"`
	A9  *uint32               `protobuf:"fixed32,3,opt"`
	A10 []Enum                `protobuf:"varint,41,rep"`
	A11 map[uint64]int64      `protobuf:"bytes,51,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A12 *uint32               `protobuf:"fixed32,43,opt"`
	A13 []int64               `protobuf:"varint,9,rep"`
	A14 *F149T0               `protobuf:"bytes,10,opt"`
	A15 []*F149T3             `protobuf:"bytes,29,rep"`
}

type F150T0 struct {
	A0  []int64              `protobuf:"fixed64,20,rep"`
	A1  bool                 `protobuf:"varint,27,opt"`
	A2  *int64               `protobuf:"zigzag64,48,opt"`
	A3  []float64            `protobuf:"fixed64,18,rep"`
	A4  *Enum                `protobuf:"varint,9,opt"`
	A5  *float32             `protobuf:"fixed32,53,opt"`
	A6  *Enum                `protobuf:"varint,40,opt"`
	A7  map[uint32]int32     `protobuf:"bytes,8,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A8  []int64              `protobuf:"zigzag64,13,rep"`
	A9  *int64               `protobuf:"varint,17,opt"`
	A10 Enum                 `protobuf:"varint,7,opt"`
	A11 float32              `protobuf:"fixed32,10,opt"`
	A12 *F150T1              `protobuf:"bytes,42,opt"`
	A13 proto.Option[uint64] `protobuf:"varint,54,opt"`
	A14 *uint64              `protobuf:"fixed64,60,opt"`
	A15 []float32            `protobuf:"fixed32,46,rep"`
	A16 []bool               `protobuf:"varint,23,rep"`
	A17 *int32               `protobuf:"zigzag32,52,opt"`
	A18 []uint32             `protobuf:"varint,12,rep"`
	A19 proto.Option[uint32] `protobuf:"fixed32,11,opt"`
}

type F150T1 struct {
	A0  proto.Option[uint32] `protobuf:"fixed32,32,opt"`
	A1  Enum                 `protobuf:"varint,28,opt"`
	A2  []Enum               `protobuf:"varint,16,rep"`
	A3  *int32               `protobuf:"zigzag32,24,opt"`
	A4  []int64              `protobuf:"zigzag64,26,rep"`
	A5  *int32               `protobuf:"varint,15,opt"`
	A6  *F150T2              `protobuf:"bytes,7,opt"`
	A7  int32                `protobuf:"varint,34,opt"`
	A8  proto.Option[uint64] `protobuf:"fixed64,31,opt"`
	A9  *uint32              `protobuf:"fixed32,11,opt"`
	A10 *F150T2              `protobuf:"bytes,23,opt"`
}

type F150T2 struct {
	A0  string              `protobuf:"bytes,82,opt"`
	A1  map[int64]string    `protobuf:"bytes,43,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2  *float64            `protobuf:"fixed64,40,opt"`
	A3  []int32             `protobuf:"fixed32,93,rep"`
	A4  int64               `protobuf:"zigzag64,11,opt"`
	A5  []byte              `protobuf:"bytes,52,opt"`
	A6  *float32            `protobuf:"fixed32,65,opt"`
	A7  uint32              `protobuf:"varint,9,opt"`
	A8  []Enum              `protobuf:"varint,85,rep"`
	A9  []int32             `protobuf:"zigzag32,73,rep"`
	A10 *bool               `protobuf:"varint,78,opt"`
	A11 map[bool]bool       `protobuf:"bytes,47,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A12 []byte              `protobuf:"bytes,17,opt"`
	A13 map[uint32]uint64   `protobuf:"bytes,91,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A14 map[uint64]int32    `protobuf:"bytes,49,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag32,2,opt"`
	A15 *int32              `protobuf:"fixed32,54,opt"`
	A16 Enum                `protobuf:"varint,63,opt"`
	A17 *float64            `protobuf:"fixed64,2,opt"`
	A18 []float32           `protobuf:"fixed32,29,rep"`
	A19 *uint64             `protobuf:"fixed64,81,opt"`
	A20 []Enum              `protobuf:"varint,8,rep"`
	A21 Enum                `protobuf:"varint,84,opt"`
	A22 *float64            `protobuf:"fixed64,76,opt"`
	A23 int32               `protobuf:"varint,19,opt"`
	A24 *uint32             `protobuf:"fixed32,25,opt"`
	A25 *float32            `protobuf:"fixed32,56,opt"`
	A26 *int32              `protobuf:"fixed32,75,opt"`
	A27 proto.Option[int32] `protobuf:"zigzag32,69,opt"`
	A28 []*F150T0           `protobuf:"bytes,39,rep"`
	A29 []*F150T0           `protobuf:"bytes,18,rep"`
}

type F151T0 struct {
	A0 *F151T1           `protobuf:"bytes,13,opt"`
	A1 *F151T2           `protobuf:"bytes,5,opt"`
	A2 map[int32]*F151T3 `protobuf:"bytes,12,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A3 []*F151T3         `protobuf:"bytes,10,rep"`
	A4 *Enum             `protobuf:"varint,9,opt"`
}

type F151T1 struct {
	A0 map[int64]*F151T2 `protobuf:"bytes,1,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
}

type F151T2 struct {
	A0 []int32            `protobuf:"fixed32,3,rep"`
	A1 map[string]*F151T3 `protobuf:"bytes,8,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A2 map[bool]float64   `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
}

type F151T3 struct {
	A0 proto.Option[uint32] `protobuf:"fixed32,10,opt"`
	A1 *Enum                `protobuf:"varint,8,opt"`
	A2 []*F151T4            `protobuf:"bytes,6,rep"`
}

type F151T4 struct {
	A0 []*F151T0 `protobuf:"bytes,10,rep"`
	A1 []*F151T0 `protobuf:"bytes,2,rep"`
	A2 []*F151T2 `protobuf:"bytes,11,rep"`
	A3 *F151T0   `protobuf:"bytes,6,opt"`
}

type F152T0 struct {
	A0 *Enum     `protobuf:"varint,1,opt"`
	A1 *F152T1   `protobuf:"bytes,9,opt"`
	A2 []*F152T0 `protobuf:"bytes,6,rep"`
}

type F152T1 struct {
	A0 *F152T2  `protobuf:"bytes,8,opt"`
	A1 [][]byte `protobuf:"bytes,1,rep"`
}

type F152T2 struct {
	A0 map[uint64][]byte `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1 *Enum             `protobuf:"varint,20,opt"`
	A2 [][]byte          `protobuf:"bytes,2,rep"`
	A3 []*F152T0         `protobuf:"bytes,14,rep"`
	A4 []*F152T2         `protobuf:"bytes,12,rep"`
	A5 []*F152T0         `protobuf:"bytes,1,rep"`
	A6 []*F152T1         `protobuf:"bytes,22,rep"`
}

type F153T0 struct {
	A0  proto.Option[uint32]  `protobuf:"varint,62,opt"`
	A1  *Enum                 `protobuf:"varint,6,opt"`
	A2  []*F153T0             `protobuf:"bytes,30,rep"`
	A3  []int32               `protobuf:"zigzag32,22,rep"`
	A4  []uint64              `protobuf:"varint,11,rep"`
	A5  proto.Option[uint64]  `protobuf:"varint,80,opt"`
	A6  float32               `protobuf:"fixed32,16,opt"`
	A7  map[uint32]uint64     `protobuf:"bytes,28,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A8  *Enum                 `protobuf:"varint,66,opt"`
	A9  []int64               `protobuf:"zigzag64,37,rep"`
	A10 proto.Option[float32] `protobuf:"fixed32,64,opt"`
	A11 uint64                `protobuf:"varint,23,opt"`
	A12 map[uint32]uint64     `protobuf:"bytes,31,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A13 map[int64]int32       `protobuf:"bytes,2,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"zigzag32,2,opt"`
	A14 []float64             `protobuf:"fixed64,75,rep"`
	A15 *Enum                 `protobuf:"varint,74,opt"`
	A16 []Enum                `protobuf:"varint,17,rep"`
	A17 *bool                 `protobuf:"varint,52,opt"`
	A18 uint32                `protobuf:"fixed32,25,opt"`
	A19 []uint32              `protobuf:"fixed32,85,rep"`
	A20 uint32                `protobuf:"varint,46,opt"`
	A21 Enum                  `protobuf:"varint,47,opt"`
	A22 []uint64              `protobuf:"varint,67,rep"`
	A23 []*F153T0             `protobuf:"bytes,43,rep"`
	A24 map[int32]uint32      `protobuf:"bytes,76,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A25 uint64                `protobuf:"varint,54,opt"`
	A26 *int64                `protobuf:"fixed64,60,opt"`
	A27 Enum                  `protobuf:"varint,39,opt"`
}

type F154T0 struct {
	A0  proto.Option[int32]  `protobuf:"fixed32,69,opt"`
	A1  *Enum                `protobuf:"varint,47,opt"`
	A2  []Enum               `protobuf:"varint,52,rep"`
	A3  map[int32]uint64     `protobuf:"bytes,67,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
	A4  []int32              `protobuf:"varint,5,rep"`
	A5  map[uint64]string    `protobuf:"bytes,50,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A6  []float64            `protobuf:"fixed64,10,rep"`
	A7  *float64             `protobuf:"fixed64,81,opt"`
	A8  int32                `protobuf:"varint,78,opt"`
	A9  float64              `protobuf:"fixed64,2,opt"`
	A10 proto.Option[uint32] `protobuf:"varint,42,opt"`
	A11 []float64            `protobuf:"fixed64,70,rep"`
	A12 int64                `protobuf:"fixed64,33,opt"`
	A13 Enum                 `protobuf:"varint,9,opt"`
	A14 []float64            `protobuf:"fixed64,84,rep"`
	A15 []int32              `protobuf:"zigzag32,1,rep"`
	A16 []int32              `protobuf:"zigzag32,60,rep"`
	A17 *string              `protobuf:"bytes,49,opt"`
	A18 int64                `protobuf:"zigzag64,17,opt"`
	A19 *uint64              `protobuf:"fixed64,54,opt"`
	A20 *Enum                `protobuf:"varint,40,opt"`
	A21 map[int64]int64      `protobuf:"bytes,13,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"zigzag64,2,opt"`
	A22 []byte               `protobuf:"bytes,39,opt"`
	A23 map[uint32]int64     `protobuf:"bytes,34,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed64,2,opt"`
	A24 Enum                 `protobuf:"varint,57,opt"`
	A25 map[int64]int64      `protobuf:"bytes,26,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A26 *F154T1              `protobuf:"bytes,43,opt"`
}

type F154T1 struct {
	A0  *F154T2              `protobuf:"bytes,58,opt"`
	A1  []byte               `protobuf:"bytes,46,opt"`
	A2  []uint64             `protobuf:"fixed64,34,rep"`
	A3  int32                `protobuf:"varint,3,opt"`
	A4  *int32               `protobuf:"varint,88,opt"`
	A5  uint32               `protobuf:"fixed32,42,opt"`
	A6  *bool                `protobuf:"varint,94,opt"`
	A7  *uint64              `protobuf:"fixed64,92,opt"`
	A8  map[int64]uint64     `protobuf:"bytes,15,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A9  int64                `protobuf:"zigzag64,11,opt"`
	A10 *uint64              `protobuf:"fixed64,27,opt"`
	A11 *int64               `protobuf:"zigzag64,17,opt"`
	A12 []int32              `protobuf:"fixed32,28,rep"`
	A13 *float32             `protobuf:"fixed32,82,opt"`
	A14 []uint32             `protobuf:"varint,40,rep"`
	A15 *float32             `protobuf:"fixed32,95,opt"`
	A16 map[string][]byte    `protobuf:"bytes,31,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A17 Enum                 `protobuf:"varint,89,opt"`
	A18 []uint32             `protobuf:"fixed32,61,rep"`
	A19 map[bool]float32     `protobuf:"bytes,71,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A20 []byte               `protobuf:"bytes,10,opt"`
	A21 *Enum                `protobuf:"varint,93,opt"`
	A22 []Enum               `protobuf:"varint,26,rep"`
	A23 proto.Option[int32]  `protobuf:"zigzag32,24,opt"`
	A24 map[bool][]byte      `protobuf:"bytes,35,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A25 proto.Option[uint32] `protobuf:"fixed32,53,opt"`
	A26 int32                `protobuf:"zigzag32,33,opt"`
	A27 map[bool]uint32      `protobuf:"bytes,13,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A28 int32                `protobuf:"zigzag32,86,opt"`
	A29 []*F154T0            `protobuf:"bytes,79,rep"`
	A30 float32              `protobuf:"fixed32,74,opt"`
	A31 []int64              `protobuf:"zigzag64,76,rep"`
}

type F154T2 struct {
	A0  *uint32               `protobuf:"fixed32,81,opt"`
	A1  []Enum                `protobuf:"varint,97,rep"`
	A2  int32                 `protobuf:"varint,15,opt"`
	A3  int32                 `protobuf:"zigzag32,107,opt"`
	A4  proto.Option[int32]   `protobuf:"varint,55,opt"`
	A5  *uint64               `protobuf:"varint,49,opt"`
	A6  []string              `protobuf:"bytes,100,rep"`
	A7  []string              `protobuf:"bytes,6,rep"`
	A8  map[bool]*F154T2      `protobuf:"bytes,51,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A9  int64                 `protobuf:"zigzag64,74,opt"`
	A10 []byte                `protobuf:"bytes,77,opt"`
	A11 map[int32]float64     `protobuf:"bytes,59,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A12 bool                  `protobuf:"varint,46,opt"`
	A13 proto.Option[float32] `protobuf:"fixed32,89,opt"`
	A14 *Enum                 `protobuf:"varint,101,opt"`
	A15 []*F154T4             `protobuf:"bytes,70,rep"`
	A16 []uint32              `protobuf:"varint,88,rep"`
	A17 []uint32              `protobuf:"varint,17,rep"`
	A18 []byte                `protobuf:"bytes,75,opt"`
	A19 map[uint32]float32    `protobuf:"bytes,67,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed32,2,opt"`
	A20 proto.Option[int64]   `protobuf:"varint,24,opt"`
	A21 *Enum                 `protobuf:"varint,43,opt"`
	A22 map[uint32][]byte     `protobuf:"bytes,30,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A23 []int32               `protobuf:"fixed32,83,rep"`
	A24 *Enum                 `protobuf:"varint,86,opt"`
	A25 []*F154T3             `protobuf:"bytes,93,rep"`
	A26 []float32             `protobuf:"fixed32,20,rep"`
	A27 *F154T1               `protobuf:"bytes,71,opt"`
	A28 *uint32               `protobuf:"fixed32,40,opt"`
	A29 int64                 `protobuf:"fixed64,5,opt"`
	A30 []string              `protobuf:"bytes,68,rep"`
	A31 map[int64]int32       `protobuf:"bytes,62,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"varint,2,opt"`
	A32 proto.Option[float32] `protobuf:"fixed32,3,opt"`
	A33 *Enum                 `protobuf:"varint,73,opt"`
	A34 *Enum                 `protobuf:"varint,60,opt"`
}

type F154T3 struct {
	A0 *F154T4 `protobuf:"bytes,4,opt"`
	A1 *int64  `protobuf:"varint,9,opt"`
}

type F154T4 struct {
	A0  *int64               `protobuf:"fixed64,35,opt"`
	A1  proto.Option[uint64] `protobuf:"varint,3,opt"`
	A2  *string              `protobuf:"bytes,28,opt"`
	A3  map[string]bool      `protobuf:"bytes,11,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	A4  []uint32             `protobuf:"fixed32,27,rep"`
	A5  []int32              `protobuf:"fixed32,36,rep"`
	A6  proto.Option[int32]  `protobuf:"fixed32,39,opt"`
	A7  []float64            `protobuf:"fixed64,25,rep"`
	A8  proto.Option[int32]  `protobuf:"fixed32,24,opt"`
	A9  map[int64]float64    `protobuf:"bytes,50,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed64,2,opt"`
	A10 proto.Option[int32]  `protobuf:"fixed32,31,opt"`
	A11 map[int32]string     `protobuf:"bytes,47,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A12 *int32               `protobuf:"fixed32,52,opt"`
	A13 []int32              `protobuf:"zigzag32,23,rep"`
	A14 *float64             `protobuf:"fixed64,12,opt"`
	A15 map[uint64]*F154T5   `protobuf:"bytes,21,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A16 *F154T5              `protobuf:"bytes,6,opt"`
}

type F154T5 struct {
	A0  *F154T0              `protobuf:"bytes,51,opt"`
	A1  []*F154T5            `protobuf:"bytes,28,rep"`
	A2  *F154T4              `protobuf:"bytes,36,opt"`
	A3  *F154T3              `protobuf:"bytes,29,opt"`
	A4  []int32              `protobuf:"fixed32,15,rep"`
	A5  []float32            `protobuf:"fixed32,17,rep"`
	A6  int32                `protobuf:"fixed32,65,opt"`
	A7  map[int32]int64      `protobuf:"bytes,7,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A8  int64                `protobuf:"varint,66,opt"`
	A9  *uint32              `protobuf:"varint,42,opt"`
	A10 bool                 `protobuf:"varint,9,opt"`
	A11 proto.Option[uint64] `protobuf:"fixed64,45,opt"`
	A12 proto.Option[uint64] `protobuf:"fixed64,26,opt"`
	A13 []int32              `protobuf:"zigzag32,1,rep"`
	A14 map[int64]int64      `protobuf:"bytes,14,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed64,2,opt"`
	A15 map[bool]float64     `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
	A16 map[int32]uint32     `protobuf:"bytes,20,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A17 map[int64]int64      `protobuf:"bytes,57,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A18 *int64               `protobuf:"fixed64,12,opt"`
	A19 uint32               `protobuf:"varint,48,opt"`
	A20 map[uint32]bool      `protobuf:"bytes,55,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
}

type F155T0 struct {
	A0  *F155T1              `protobuf:"bytes,9,opt"`
	A1  []*F155T1            `protobuf:"bytes,5,rep"`
	A2  *uint32              `protobuf:"varint,51,opt"`
	A3  map[int64]int64      `protobuf:"bytes,7,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"zigzag64,2,opt"`
	A4  float32              `protobuf:"fixed32,1,opt"`
	A5  []bool               `protobuf:"varint,6,rep"`
	A6  proto.Option[int64]  `protobuf:"varint,47,opt"`
	A7  Enum                 `protobuf:"varint,15,opt"`
	A8  *int32               `protobuf:"fixed32,21,opt"`
	A9  map[int64][]byte     `protobuf:"bytes,55,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A10 map[int64]uint64     `protobuf:"bytes,26,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
	A11 proto.Option[bool]   `protobuf:"varint,31,opt"`
	A12 []uint32             `protobuf:"fixed32,32,rep"`
	A13 uint64               `protobuf:"fixed64,52,opt"`
	A14 proto.Option[uint64] `protobuf:"varint,22,opt"`
	A15 map[uint64]uint32    `protobuf:"bytes,57,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A16 float32              `protobuf:"fixed32,11,opt"`
	A17 []int64              `protobuf:"fixed64,56,rep"`
	A18 *float32             `protobuf:"fixed32,25,opt"`
}

type F155T1 struct {
	A0  []Enum               `protobuf:"varint,10,rep"`
	A1  proto.Option[uint32] `protobuf:"varint,103,opt"`
	A2  Enum                 `protobuf:"varint,72,opt"`
	A3  *int32               `protobuf:"zigzag32,14,opt"`
	A4  *Enum                `protobuf:"varint,46,opt"`
	A5  *uint64              `protobuf:"varint,28,opt"`
	A6  []byte               `protobuf:"bytes,15,opt"`
	A7  []uint64             `protobuf:"fixed64,113,rep"`
	A8  []byte               `protobuf:"bytes,8,opt"`
	A9  *Enum                `protobuf:"varint,102,opt"`
	A10 int32                `protobuf:"fixed32,80,opt"`
	A11 *Enum                `protobuf:"varint,115,opt"`
	A12 proto.Option[uint64] `protobuf:"fixed64,116,opt"`
	A13 proto.Option[int64]  `protobuf:"zigzag64,39,opt"`
	A14 proto.Option[uint32] `protobuf:"fixed32,47,opt"`
	A15 []Enum               `protobuf:"varint,97,rep"`
	A16 [][]byte             `protobuf:"bytes,24,rep"`
	A17 uint32               `protobuf:"fixed32,87,opt"`
	A18 int64                `protobuf:"zigzag64,92,opt"`
	A19 bool                 `protobuf:"varint,4,opt"`
	A20 int64                `protobuf:"varint,33,opt"`
	A21 bool                 `protobuf:"varint,99,opt"`
	A22 Enum                 `protobuf:"varint,107,opt"`
	A23 *Enum                `protobuf:"varint,106,opt"`
	A24 []int32              `protobuf:"zigzag32,101,rep"`
	A25 *Enum                `protobuf:"varint,85,opt"`
	A26 *Enum                `protobuf:"varint,9,opt"`
	A27 proto.Option[uint64] `protobuf:"fixed64,76,opt"`
	A28 proto.Option[int64]  `protobuf:"fixed64,77,opt"`
	A29 []int32              `protobuf:"varint,22,rep"`
	A30 int32                `protobuf:"fixed32,45,opt"`
	A31 int32                `protobuf:"varint,73,opt"`
	A32 []uint32             `protobuf:"fixed32,91,rep"`
	A33 []byte               `protobuf:"bytes,104,opt"`
	A34 *int32               `protobuf:"varint,60,opt"`
	A35 []int64              `protobuf:"varint,13,rep"`
	A36 *F155T2              `protobuf:"bytes,63,opt"`
	A37 *F155T0              `protobuf:"bytes,84,opt"`
}

type F155T2 struct {
	A0  *Enum                `protobuf:"varint,40,opt"`
	A1  proto.Option[int64]  `protobuf:"zigzag64,87,opt"`
	A2  *Enum                `protobuf:"varint,106,opt"`
	A3  map[int64]uint64     `protobuf:"bytes,4,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed64,2,opt"`
	A4  map[int32]bool       `protobuf:"bytes,10,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"varint,2,opt"`
	A5  *F155T1              `protobuf:"bytes,20,opt"`
	A6  []uint32             `protobuf:"varint,1,rep"`
	A7  float32              `protobuf:"fixed32,48,opt"`
	A8  proto.Option[int32]  `protobuf:"fixed32,5,opt"`
	A9  proto.Option[string] `protobuf:"bytes,17,opt"`
	A10 *F155T1              `protobuf:"bytes,84,opt"`
	A11 *bool                `protobuf:"varint,72,opt"`
	A12 []*F155T0            `protobuf:"bytes,2,rep"`
	A13 proto.Option[int32]  `protobuf:"varint,62,opt"`
	A14 int32                `protobuf:"varint,46,opt"`
	A15 map[int64]uint32     `protobuf:"bytes,100,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A16 int64                `protobuf:"zigzag64,55,opt"`
	A17 map[string]uint32    `protobuf:"bytes,99,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	A18 *uint32              `protobuf:"varint,25,opt"`
	A19 map[int32][]byte     `protobuf:"bytes,33,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	A20 *Enum                `protobuf:"varint,82,opt"`
	A21 map[int64]uint64     `protobuf:"bytes,108,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed64,2,opt"`
	A22 *Enum                `protobuf:"varint,65,opt"`
	A23 *bool                `protobuf:"varint,83,opt"`
	A24 []Enum               `protobuf:"varint,86,rep"`
	A25 *int64               `protobuf:"varint,81,opt"`
	A26 []Enum               `protobuf:"varint,70,rep"`
	A27 []byte               `protobuf:"bytes,14,opt"`
	A28 []Enum               `protobuf:"varint,13,rep"`
	A29 proto.Option[int64]  `protobuf:"zigzag64,26,opt"`
	A30 int64                `protobuf:"fixed64,75,opt"`
	A31 Enum                 `protobuf:"varint,28,opt"`
	A32 map[string]uint32    `protobuf:"bytes,101,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed32,2,opt"`
	A33 []int32              `protobuf:"fixed32,92,rep"`
	A34 []float32            `protobuf:"fixed32,89,rep"`
	A35 *float64             `protobuf:"fixed64,51,opt"`
}

type F156T0 struct {
	A0 uint64             `protobuf:"fixed64,17,opt"`
	A1 map[uint32]*F156T0 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 uint64             `protobuf:"varint,14,opt"`
	A3 map[string]*F156T1 `protobuf:"bytes,16,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A4 []*F156T3          `protobuf:"bytes,1,rep"`
}

type F156T1 struct {
	A0 proto.Option[int32] `protobuf:"fixed32,11,opt"`
	A1 *F156T2             `protobuf:"bytes,3,opt"`
	A2 map[string]*F156T1  `protobuf:"bytes,9,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
}

type F156T2 struct {
	A0 proto.Option[float64] `protobuf:"fixed64,8,opt"`
	A1 map[uint64]int32      `protobuf:"bytes,15,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A2 map[uint64]*F156T3    `protobuf:"bytes,9,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A3 map[int64]*F156T1     `protobuf:"bytes,5,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
}

type F156T3 struct {
	A0 *F156T4         `protobuf:"bytes,1,opt"`
	A1 map[int32]int64 `protobuf:"bytes,5,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag64,2,opt"`
}

type F156T4 struct {
	A0 []*F156T5          `protobuf:"bytes,10,rep"`
	A1 map[uint64]*F156T1 `protobuf:"bytes,4,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A2 []*F156T1          `protobuf:"bytes,12,rep"`
	A3 *F156T0            `protobuf:"bytes,15,opt"`
	A4 string             `protobuf:"bytes,17,opt"`
}

type F156T5 struct {
	A0 *F156T0              `protobuf:"bytes,9,opt"`
	A1 map[uint64]int32     `protobuf:"bytes,12,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A2 proto.Option[uint32] `protobuf:"varint,5,opt"`
}

type F157T0 struct {
	A0  map[bool]*F157T1      `protobuf:"bytes,19,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A1  *F157T0               `protobuf:"bytes,68,opt"`
	A2  []*F157T0             `protobuf:"bytes,6,rep"`
	A3  *F157T1               `protobuf:"bytes,55,opt"`
	A4  []uint32              `protobuf:"fixed32,20,rep"`
	A5  map[string]bool       `protobuf:"bytes,69,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	A6  proto.Option[int32]   `protobuf:"varint,24,opt"`
	A7  *uint32               `protobuf:"fixed32,34,opt"`
	A8  proto.Option[float32] `protobuf:"fixed32,44,opt"`
	A9  proto.Option[string]  `protobuf:"bytes,65,opt"`
	A10 proto.Option[uint64]  `protobuf:"fixed64,10,opt"`
	A11 Enum                  `protobuf:"varint,25,opt"`
	A12 *uint32               `protobuf:"varint,60,opt"`
	A13 proto.Option[int32]   `protobuf:"varint,54,opt"`
	A14 *int32                `protobuf:"varint,41,opt"`
	A15 []uint32              `protobuf:"fixed32,67,rep"`
	A16 int32                 `protobuf:"varint,16,opt"`
	A17 []string              `protobuf:"bytes,33,rep"`
	A18 map[bool]int32        `protobuf:"bytes,39,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A19 proto.Option[uint32]  `protobuf:"varint,51,opt"`
	A20 map[string]float32    `protobuf:"bytes,40,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed32,2,opt"`
	A21 []int32               `protobuf:"varint,57,rep"`
}

type F157T1 struct {
	A0 *F157T0          `protobuf:"bytes,2,opt"`
	A1 []*F157T1        `protobuf:"bytes,15,rep"`
	A2 *F157T1          `protobuf:"bytes,21,opt"`
	A3 *F157T0          `protobuf:"bytes,4,opt"`
	A4 []int64          `protobuf:"fixed64,8,rep"`
	A5 map[int64]uint64 `protobuf:"bytes,19,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed64,2,opt"`
}

type F158T0 struct {
	A0 *F158T1           `protobuf:"bytes,2,opt"`
	A1 *F158T3           `protobuf:"bytes,10,opt"`
	A2 map[int32]*F158T1 `protobuf:"bytes,6,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
}

type F158T1 struct {
	A0 []*F158T2          `protobuf:"bytes,3,rep"`
	A1 map[string]*F158T1 `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	A2 map[bool]*F158T4   `protobuf:"bytes,13,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A3 *int32             `protobuf:"fixed32,5,opt"`
	A4 *Enum              `protobuf:"varint,10,opt"`
}

type F158T2 struct {
	A0 []float64         `protobuf:"fixed64,11,rep"`
	A1 []uint32          `protobuf:"fixed32,7,rep"`
	A2 map[int64]*F158T3 `protobuf:"bytes,4,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
}

type F158T3 struct {
	A0 uint32             `protobuf:"varint,6,opt"`
	A1 map[uint32]*F158T4 `protobuf:"bytes,9,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 *F158T2            `protobuf:"bytes,4,opt"`
}

type F158T4 struct {
	A0 []*F158T2 `protobuf:"bytes,7,rep"`
	A1 *F158T1   `protobuf:"bytes,4,opt"`
	A2 *F158T0   `protobuf:"bytes,2,opt"`
}

type F159T0 struct {
	A0  *string               `protobuf:"bytes,25,opt"`
	A1  map[bool]*F159T3      `protobuf:"bytes,14,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2  []int64               `protobuf:"varint,5,rep"`
	A3  *Enum                 `protobuf:"varint,74,opt"`
	A4  []int64               `protobuf:"varint,42,rep"`
	A5  *int32                `protobuf:"zigzag32,9,opt"`
	A6  []Enum                `protobuf:"varint,38,rep"`
	A7  *F159T1               `protobuf:"bytes,1,opt"`
	A8  map[uint32]uint32     `protobuf:"bytes,28,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A9  []byte                `protobuf:"bytes,36,opt"`
	A10 map[int64]int32       `protobuf:"bytes,19,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed32,2,opt"`
	A11 *int64                `protobuf:"zigzag64,39,opt"`
	A12 *int64                `protobuf:"fixed64,15,opt"`
	A13 int32                 `protobuf:"varint,32,opt"`
	A14 *Enum                 `protobuf:"varint,12,opt"`
	A15 *uint64               `protobuf:"varint,72,opt"`
	A16 proto.Option[float32] `protobuf:"fixed32,67,opt"`
	A17 map[uint32]uint32     `protobuf:"bytes,48,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"fixed32,2,opt"`
	A18 *float64              `protobuf:"fixed64,18,opt"`
	A19 *Enum                 `protobuf:"varint,6,opt"`
	A20 map[int64]*F159T2     `protobuf:"bytes,33,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A21 bool                  `protobuf:"varint,68,opt"`
	A22 []*F159T1             `protobuf:"bytes,16,rep"`
	A23 *Enum                 `protobuf:"varint,59,opt"`
}

type F159T1 struct {
	A0  *int64                `protobuf:"fixed64,5,opt"`
	A1  []byte                `protobuf:"bytes,46,opt"`
	A2  proto.Option[string]  `protobuf:"bytes,2,opt"`
	A3  *uint64               `protobuf:"varint,4,opt"`
	A4  proto.Option[bool]    `protobuf:"varint,36,opt"`
	A5  map[int64]*F159T2     `protobuf:"bytes,55,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A6  []string              `protobuf:"bytes,48,rep"`
	A7  uint32                `protobuf:"fixed32,56,opt"`
	A8  *uint64               `protobuf:"varint,47,opt"`
	A9  proto.Option[float64] `protobuf:"fixed64,53,opt"`
	A10 proto.Option[int32]   `protobuf:"varint,52,opt"`
	A11 int64                 `protobuf:"varint,9,opt"`
	A12 *float32              `protobuf:"fixed32,57,opt"`
	A13 proto.Option[int32]   `protobuf:"zigzag32,6,opt"`
	A14 proto.Option[bool]    `protobuf:"varint,26,opt"`
	A15 uint32                `protobuf:"varint,13,opt"`
	A16 map[int64]*F159T0     `protobuf:"bytes,15,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A17 int32                 `protobuf:"varint,31,opt"`
}

type F159T2 struct {
	A0 *F159T3          `protobuf:"bytes,11,opt"`
	A1 map[bool]*F159T3 `protobuf:"bytes,9,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 map[int64]int64  `protobuf:"bytes,4,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"zigzag64,2,opt"`
	A3 *Enum            `protobuf:"varint,10,opt"`
}

type F159T3 struct {
	A0 proto.Option[int32]   `protobuf:"fixed32,22,opt"`
	A1 [][]byte              `protobuf:"bytes,24,rep"`
	A2 proto.Option[float32] `protobuf:"fixed32,18,opt"`
	A3 map[bool]*F159T0      `protobuf:"bytes,11,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A4 []byte                `protobuf:"bytes,9,opt"`
	A5 map[int64]uint64      `protobuf:"bytes,20,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A6 []*F159T0             `protobuf:"bytes,8,rep"`
}

// Rec nests through every kind of edge.
type Rec struct {
	N int64           `protobuf:"varint,1,opt"`
	P *Rec            `protobuf:"bytes,2,opt"`
	L []*Rec          `protobuf:"bytes,3,rep"`
	M map[string]*Rec `protobuf:"bytes,4,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
	S string          `protobuf:"bytes,5,opt"`
	I []int32         `protobuf:"varint,6,rep"`
	B []byte          `protobuf:"bytes,7,opt"`
}

// Families lists the types of each family.
var Families = [][]reflect.Type{
	{reflect.TypeOf(F0T0{}), reflect.TypeOf(F0T1{})},
	{reflect.TypeOf(F1T0{}), reflect.TypeOf(F1T1{}), reflect.TypeOf(F1T2{}), reflect.TypeOf(F1T3{})},
	{reflect.TypeOf(F2T0{}), reflect.TypeOf(F2T1{}), reflect.TypeOf(F2T2{}), reflect.TypeOf(F2T3{}), reflect.TypeOf(F2T4{})},
	{reflect.TypeOf(F3T0{}), reflect.TypeOf(F3T1{})},
	{reflect.TypeOf(F4T0{}), reflect.TypeOf(F4T1{})},
	{reflect.TypeOf(F5T0{}), reflect.TypeOf(F5T1{})},
	{reflect.TypeOf(F6T0{}), reflect.TypeOf(F6T1{}), reflect.TypeOf(F6T2{})},
	{reflect.TypeOf(F7T0{}), reflect.TypeOf(F7T1{}), reflect.TypeOf(F7T2{})},
	{reflect.TypeOf(F8T0{}), reflect.TypeOf(F8T1{}), reflect.TypeOf(F8T2{})},
	{reflect.TypeOf(F9T0{}), reflect.TypeOf(F9T1{}), reflect.TypeOf(F9T2{})},
	{reflect.TypeOf(F10T0{}), reflect.TypeOf(F10T1{}), reflect.TypeOf(F10T2{})},
	{reflect.TypeOf(F11T0{}), reflect.TypeOf(F11T1{}), reflect.TypeOf(F11T2{}), reflect.TypeOf(F11T3{}), reflect.TypeOf(F11T4{})},
	{reflect.TypeOf(F12T0{}), reflect.TypeOf(F12T1{}), reflect.TypeOf(F12T2{})},
	{reflect.TypeOf(F13T0{}), reflect.TypeOf(F13T1{}), reflect.TypeOf(F13T2{})},
	{reflect.TypeOf(F14T0{}), reflect.TypeOf(F14T1{}), reflect.TypeOf(F14T2{}), reflect.TypeOf(F14T3{}), reflect.TypeOf(F14T4{})},
	{reflect.TypeOf(F15T0{}), reflect.TypeOf(F15T1{}), reflect.TypeOf(F15T2{}), reflect.TypeOf(F15T3{}), reflect.TypeOf(F15T4{}), reflect.TypeOf(F15T5{})},
	{reflect.TypeOf(F16T0{}), reflect.TypeOf(F16T1{}), reflect.TypeOf(F16T2{}), reflect.TypeOf(F16T3{})},
	{reflect.TypeOf(F17T0{}), reflect.TypeOf(F17T1{})},
	{reflect.TypeOf(F18T0{}), reflect.TypeOf(F18T1{})},
	{reflect.TypeOf(F19T0{}), reflect.TypeOf(F19T1{}), reflect.TypeOf(F19T2{}), reflect.TypeOf(F19T3{}), reflect.TypeOf(F19T4{})},
	{reflect.TypeOf(F20T0{}), reflect.TypeOf(F20T1{}), reflect.TypeOf(F20T2{}), reflect.TypeOf(F20T3{}), reflect.TypeOf(F20T4{}), reflect.TypeOf(F20T5{})},
	{reflect.TypeOf(F21T0{}), reflect.TypeOf(F21T1{}), reflect.TypeOf(F21T2{}), reflect.TypeOf(F21T3{})},
	{reflect.TypeOf(F22T0{}), reflect.TypeOf(F22T1{}), reflect.TypeOf(F22T2{}), reflect.TypeOf(F22T3{})},
	{reflect.TypeOf(F23T0{})},
	{reflect.TypeOf(F24T0{})},
	{reflect.TypeOf(F25T0{}), reflect.TypeOf(F25T1{})},
	{reflect.TypeOf(F26T0{}), reflect.TypeOf(F26T1{}), reflect.TypeOf(F26T2{}), reflect.TypeOf(F26T3{}), reflect.TypeOf(F26T4{}), reflect.TypeOf(F26T5{})},
	{reflect.TypeOf(F27T0{}), reflect.TypeOf(F27T1{}), reflect.TypeOf(F27T2{}), reflect.TypeOf(F27T3{}), reflect.TypeOf(F27T4{}), reflect.TypeOf(F27T5{})},
	{reflect.TypeOf(F28T0{}), reflect.TypeOf(F28T1{})},
	{reflect.TypeOf(F29T0{}), reflect.TypeOf(F29T1{})},
	{reflect.TypeOf(F30T0{})},
	{reflect.TypeOf(F31T0{}), reflect.TypeOf(F31T1{}), reflect.TypeOf(F31T2{}), reflect.TypeOf(F31T3{})},
	{reflect.TypeOf(F32T0{}), reflect.TypeOf(F32T1{})},
	{reflect.TypeOf(F33T0{}), reflect.TypeOf(F33T1{}), reflect.TypeOf(F33T2{})},
	{reflect.TypeOf(F34T0{}), reflect.TypeOf(F34T1{}), reflect.TypeOf(F34T2{}), reflect.TypeOf(F34T3{})},
	{reflect.TypeOf(F35T0{}), reflect.TypeOf(F35T1{}), reflect.TypeOf(F35T2{})},
	{reflect.TypeOf(F36T0{}), reflect.TypeOf(F36T1{}), reflect.TypeOf(F36T2{})},
	{reflect.TypeOf(F37T0{}), reflect.TypeOf(F37T1{})},
	{reflect.TypeOf(F38T0{}), reflect.TypeOf(F38T1{}), reflect.TypeOf(F38T2{}), reflect.TypeOf(F38T3{})},
	{reflect.TypeOf(F39T0{}), reflect.TypeOf(F39T1{}), reflect.TypeOf(F39T2{}), reflect.TypeOf(F39T3{}), reflect.TypeOf(F39T4{}), reflect.TypeOf(F39T5{})},
	{reflect.TypeOf(F40T0{})},
	{reflect.TypeOf(F41T0{}), reflect.TypeOf(F41T1{})},
	{reflect.TypeOf(F42T0{}), reflect.TypeOf(F42T1{}), reflect.TypeOf(F42T2{}), reflect.TypeOf(F42T3{}), reflect.TypeOf(F42T4{}), reflect.TypeOf(F42T5{})},
	{reflect.TypeOf(F43T0{}), reflect.TypeOf(F43T1{})},
	{reflect.TypeOf(F44T0{}), reflect.TypeOf(F44T1{}), reflect.TypeOf(F44T2{}), reflect.TypeOf(F44T3{})},
	{reflect.TypeOf(F45T0{}), reflect.TypeOf(F45T1{}), reflect.TypeOf(F45T2{}), reflect.TypeOf(F45T3{})},
	{reflect.TypeOf(F46T0{}), reflect.TypeOf(F46T1{}), reflect.TypeOf(F46T2{})},
	{reflect.TypeOf(F47T0{}), reflect.TypeOf(F47T1{}), reflect.TypeOf(F47T2{}), reflect.TypeOf(F47T3{})},
	{reflect.TypeOf(F48T0{}), reflect.TypeOf(F48T1{}), reflect.TypeOf(F48T2{}), reflect.TypeOf(F48T3{}), reflect.TypeOf(F48T4{}), reflect.TypeOf(F48T5{})},
	{reflect.TypeOf(F49T0{}), reflect.TypeOf(F49T1{}), reflect.TypeOf(F49T2{}), reflect.TypeOf(F49T3{}), reflect.TypeOf(F49T4{})},
	{reflect.TypeOf(F50T0{}), reflect.TypeOf(F50T1{}), reflect.TypeOf(F50T2{})},
	{reflect.TypeOf(F51T0{})},
	{reflect.TypeOf(F52T0{}), reflect.TypeOf(F52T1{}), reflect.TypeOf(F52T2{}), reflect.TypeOf(F52T3{})},
	{reflect.TypeOf(F53T0{}), reflect.TypeOf(F53T1{}), reflect.TypeOf(F53T2{})},
	{reflect.TypeOf(F54T0{})},
	{reflect.TypeOf(F55T0{}), reflect.TypeOf(F55T1{}), reflect.TypeOf(F55T2{})},
	{reflect.TypeOf(F56T0{}), reflect.TypeOf(F56T1{})},
	{reflect.TypeOf(F57T0{}), reflect.TypeOf(F57T1{})},
	{reflect.TypeOf(F58T0{}), reflect.TypeOf(F58T1{}), reflect.TypeOf(F58T2{})},
	{reflect.TypeOf(F59T0{}), reflect.TypeOf(F59T1{}), reflect.TypeOf(F59T2{}), reflect.TypeOf(F59T3{})},
	{reflect.TypeOf(F60T0{}), reflect.TypeOf(F60T1{}), reflect.TypeOf(F60T2{})},
	{reflect.TypeOf(F61T0{}), reflect.TypeOf(F61T1{}), reflect.TypeOf(F61T2{})},
	{reflect.TypeOf(F62T0{}), reflect.TypeOf(F62T1{}), reflect.TypeOf(F62T2{})},
	{reflect.TypeOf(F63T0{}), reflect.TypeOf(F63T1{}), reflect.TypeOf(F63T2{}), reflect.TypeOf(F63T3{}), reflect.TypeOf(F63T4{}), reflect.TypeOf(F63T5{})},
	{reflect.TypeOf(F64T0{}), reflect.TypeOf(F64T1{}), reflect.TypeOf(F64T2{}), reflect.TypeOf(F64T3{}), reflect.TypeOf(F64T4{})},
	{reflect.TypeOf(F65T0{}), reflect.TypeOf(F65T1{}), reflect.TypeOf(F65T2{})},
	{reflect.TypeOf(F66T0{}), reflect.TypeOf(F66T1{}), reflect.TypeOf(F66T2{}), reflect.TypeOf(F66T3{}), reflect.TypeOf(F66T4{}), reflect.TypeOf(F66T5{})},
	{reflect.TypeOf(F67T0{}), reflect.TypeOf(F67T1{}), reflect.TypeOf(F67T2{})},
	{reflect.TypeOf(F68T0{}), reflect.TypeOf(F68T1{}), reflect.TypeOf(F68T2{})},
	{reflect.TypeOf(F69T0{}), reflect.TypeOf(F69T1{}), reflect.TypeOf(F69T2{}), reflect.TypeOf(F69T3{}), reflect.TypeOf(F69T4{}), reflect.TypeOf(F69T5{})},
	{reflect.TypeOf(F70T0{})},
	{reflect.TypeOf(F71T0{}), reflect.TypeOf(F71T1{}), reflect.TypeOf(F71T2{}), reflect.TypeOf(F71T3{})},
	{reflect.TypeOf(F72T0{}), reflect.TypeOf(F72T1{}), reflect.TypeOf(F72T2{}), reflect.TypeOf(F72T3{}), reflect.TypeOf(F72T4{})},
	{reflect.TypeOf(F73T0{}), reflect.TypeOf(F73T1{})},
	{reflect.TypeOf(F74T0{}), reflect.TypeOf(F74T1{}), reflect.TypeOf(F74T2{}), reflect.TypeOf(F74T3{}), reflect.TypeOf(F74T4{}), reflect.TypeOf(F74T5{})},
	{reflect.TypeOf(F75T0{}), reflect.TypeOf(F75T1{}), reflect.TypeOf(F75T2{}), reflect.TypeOf(F75T3{})},
	{reflect.TypeOf(F76T0{}), reflect.TypeOf(F76T1{}), reflect.TypeOf(F76T2{}), reflect.TypeOf(F76T3{})},
	{reflect.TypeOf(F77T0{}), reflect.TypeOf(F77T1{}), reflect.TypeOf(F77T2{})},
	{reflect.TypeOf(F78T0{}), reflect.TypeOf(F78T1{})},
	{reflect.TypeOf(F79T0{}), reflect.TypeOf(F79T1{})},
	{reflect.TypeOf(F80T0{}), reflect.TypeOf(F80T1{})},
	{reflect.TypeOf(F81T0{}), reflect.TypeOf(F81T1{}), reflect.TypeOf(F81T2{}), reflect.TypeOf(F81T3{}), reflect.TypeOf(F81T4{})},
	{reflect.TypeOf(F82T0{}), reflect.TypeOf(F82T1{}), reflect.TypeOf(F82T2{})},
	{reflect.TypeOf(F83T0{}), reflect.TypeOf(F83T1{})},
	{reflect.TypeOf(F84T0{}), reflect.TypeOf(F84T1{})},
	{reflect.TypeOf(F85T0{}), reflect.TypeOf(F85T1{})},
	{reflect.TypeOf(F86T0{}), reflect.TypeOf(F86T1{}), reflect.TypeOf(F86T2{}), reflect.TypeOf(F86T3{}), reflect.TypeOf(F86T4{}), reflect.TypeOf(F86T5{})},
	{reflect.TypeOf(F87T0{}), reflect.TypeOf(F87T1{})},
	{reflect.TypeOf(F88T0{}), reflect.TypeOf(F88T1{}), reflect.TypeOf(F88T2{}), reflect.TypeOf(F88T3{}), reflect.TypeOf(F88T4{}), reflect.TypeOf(F88T5{})},
	{reflect.TypeOf(F89T0{}), reflect.TypeOf(F89T1{})},
	{reflect.TypeOf(F90T0{}), reflect.TypeOf(F90T1{}), reflect.TypeOf(F90T2{})},
	{reflect.TypeOf(F91T0{}), reflect.TypeOf(F91T1{}), reflect.TypeOf(F91T2{})},
	{reflect.TypeOf(F92T0{}), reflect.TypeOf(F92T1{}), reflect.TypeOf(F92T2{}), reflect.TypeOf(F92T3{}), reflect.TypeOf(F92T4{})},
	{reflect.TypeOf(F93T0{})},
	{reflect.TypeOf(F94T0{})},
	{reflect.TypeOf(F95T0{}), reflect.TypeOf(F95T1{})},
	{reflect.TypeOf(F96T0{}), reflect.TypeOf(F96T1{}), reflect.TypeOf(F96T2{}), reflect.TypeOf(F96T3{}), reflect.TypeOf(F96T4{})},
	{reflect.TypeOf(F97T0{}), reflect.TypeOf(F97T1{})},
	{reflect.TypeOf(F98T0{}), reflect.TypeOf(F98T1{}), reflect.TypeOf(F98T2{}), reflect.TypeOf(F98T3{}), reflect.TypeOf(F98T4{})},
	{reflect.TypeOf(F99T0{}), reflect.TypeOf(F99T1{})},
	{reflect.TypeOf(F100T0{}), reflect.TypeOf(F100T1{}), reflect.TypeOf(F100T2{}), reflect.TypeOf(F100T3{}), reflect.TypeOf(F100T4{})},
	{reflect.TypeOf(F101T0{}), reflect.TypeOf(F101T1{}), reflect.TypeOf(F101T2{}), reflect.TypeOf(F101T3{})},
	{reflect.TypeOf(F102T0{}), reflect.TypeOf(F102T1{}), reflect.TypeOf(F102T2{}), reflect.TypeOf(F102T3{}), reflect.TypeOf(F102T4{})},
	{reflect.TypeOf(F103T0{}), reflect.TypeOf(F103T1{}), reflect.TypeOf(F103T2{})},
	{reflect.TypeOf(F104T0{}), reflect.TypeOf(F104T1{})},
	{reflect.TypeOf(F105T0{}), reflect.TypeOf(F105T1{}), reflect.TypeOf(F105T2{}), reflect.TypeOf(F105T3{}), reflect.TypeOf(F105T4{})},
	{reflect.TypeOf(F106T0{}), reflect.TypeOf(F106T1{}), reflect.TypeOf(F106T2{}), reflect.TypeOf(F106T3{})},
	{reflect.TypeOf(F107T0{})},
	{reflect.TypeOf(F108T0{}), reflect.TypeOf(F108T1{}), reflect.TypeOf(F108T2{}), reflect.TypeOf(F108T3{})},
	{reflect.TypeOf(F109T0{}), reflect.TypeOf(F109T1{}), reflect.TypeOf(F109T2{})},
	{reflect.TypeOf(F110T0{}), reflect.TypeOf(F110T1{})},
	{reflect.TypeOf(F111T0{}), reflect.TypeOf(F111T1{}), reflect.TypeOf(F111T2{}), reflect.TypeOf(F111T3{}), reflect.TypeOf(F111T4{}), reflect.TypeOf(F111T5{})},
	{reflect.TypeOf(F112T0{}), reflect.TypeOf(F112T1{}), reflect.TypeOf(F112T2{}), reflect.TypeOf(F112T3{}), reflect.TypeOf(F112T4{}), reflect.TypeOf(F112T5{})},
	{reflect.TypeOf(F113T0{}), reflect.TypeOf(F113T1{}), reflect.TypeOf(F113T2{}), reflect.TypeOf(F113T3{}), reflect.TypeOf(F113T4{})},
	{reflect.TypeOf(F114T0{})},
	{reflect.TypeOf(F115T0{}), reflect.TypeOf(F115T1{}), reflect.TypeOf(F115T2{})},
	{reflect.TypeOf(F116T0{}), reflect.TypeOf(F116T1{}), reflect.TypeOf(F116T2{}), reflect.TypeOf(F116T3{})},
	{reflect.TypeOf(F117T0{}), reflect.TypeOf(F117T1{}), reflect.TypeOf(F117T2{}), reflect.TypeOf(F117T3{}), reflect.TypeOf(F117T4{}), reflect.TypeOf(F117T5{})},
	{reflect.TypeOf(F118T0{}), reflect.TypeOf(F118T1{}), reflect.TypeOf(F118T2{})},
	{reflect.TypeOf(F119T0{}), reflect.TypeOf(F119T1{}), reflect.TypeOf(F119T2{}), reflect.TypeOf(F119T3{}), reflect.TypeOf(F119T4{}), reflect.TypeOf(F119T5{})},
	{reflect.TypeOf(F120T0{}), reflect.TypeOf(F120T1{}), reflect.TypeOf(F120T2{}), reflect.TypeOf(F120T3{}), reflect.TypeOf(F120T4{}), reflect.TypeOf(F120T5{})},
	{reflect.TypeOf(F121T0{}), reflect.TypeOf(F121T1{}), reflect.TypeOf(F121T2{})},
	{reflect.TypeOf(F122T0{}), reflect.TypeOf(F122T1{})},
	{reflect.TypeOf(F123T0{}), reflect.TypeOf(F123T1{})},
	{reflect.TypeOf(F124T0{}), reflect.TypeOf(F124T1{}), reflect.TypeOf(F124T2{})},
	{reflect.TypeOf(F125T0{}), reflect.TypeOf(F125T1{}), reflect.TypeOf(F125T2{}), reflect.TypeOf(F125T3{}), reflect.TypeOf(F125T4{}), reflect.TypeOf(F125T5{})},
	{reflect.TypeOf(F126T0{}), reflect.TypeOf(F126T1{}), reflect.TypeOf(F126T2{}), reflect.TypeOf(F126T3{}), reflect.TypeOf(F126T4{}), reflect.TypeOf(F126T5{})},
	{reflect.TypeOf(F127T0{}), reflect.TypeOf(F127T1{}), reflect.TypeOf(F127T2{})},
	{reflect.TypeOf(F128T0{}), reflect.TypeOf(F128T1{}), reflect.TypeOf(F128T2{})},
	{reflect.TypeOf(F129T0{}), reflect.TypeOf(F129T1{}), reflect.TypeOf(F129T2{})},
	{reflect.TypeOf(F130T0{}), reflect.TypeOf(F130T1{})},
	{reflect.TypeOf(F131T0{}), reflect.TypeOf(F131T1{}), reflect.TypeOf(F131T2{})},
	{reflect.TypeOf(F132T0{})},
	{reflect.TypeOf(F133T0{}), reflect.TypeOf(F133T1{}), reflect.TypeOf(F133T2{}), reflect.TypeOf(F133T3{})},
	{reflect.TypeOf(F134T0{}), reflect.TypeOf(F134T1{}), reflect.TypeOf(F134T2{}), reflect.TypeOf(F134T3{}), reflect.TypeOf(F134T4{}), reflect.TypeOf(F134T5{})},
	{reflect.TypeOf(F135T0{}), reflect.TypeOf(F135T1{})},
	{reflect.TypeOf(F136T0{}), reflect.TypeOf(F136T1{}), reflect.TypeOf(F136T2{}), reflect.TypeOf(F136T3{})},
	{reflect.TypeOf(F137T0{}), reflect.TypeOf(F137T1{}), reflect.TypeOf(F137T2{})},
	{reflect.TypeOf(F138T0{}), reflect.TypeOf(F138T1{}), reflect.TypeOf(F138T2{})},
	{reflect.TypeOf(F139T0{}), reflect.TypeOf(F139T1{}), reflect.TypeOf(F139T2{}), reflect.TypeOf(F139T3{}), reflect.TypeOf(F139T4{}), reflect.TypeOf(F139T5{})},
	{reflect.TypeOf(F140T0{}), reflect.TypeOf(F140T1{}), reflect.TypeOf(F140T2{}), reflect.TypeOf(F140T3{}), reflect.TypeOf(F140T4{})},
	{reflect.TypeOf(F141T0{}), reflect.TypeOf(F141T1{}), reflect.TypeOf(F141T2{}), reflect.TypeOf(F141T3{}), reflect.TypeOf(F141T4{})},
	{reflect.TypeOf(F142T0{})},
	{reflect.TypeOf(F143T0{})},
	{reflect.TypeOf(F144T0{})},
	{reflect.TypeOf(F145T0{}), reflect.TypeOf(F145T1{}), reflect.TypeOf(F145T2{}), reflect.TypeOf(F145T3{}), reflect.TypeOf(F145T4{})},
	{reflect.TypeOf(F146T0{}), reflect.TypeOf(F146T1{})},
	{reflect.TypeOf(F147T0{}), reflect.TypeOf(F147T1{})},
	{reflect.TypeOf(F148T0{}), reflect.TypeOf(F148T1{}), reflect.TypeOf(F148T2{}), reflect.TypeOf(F148T3{}), reflect.TypeOf(F148T4{})},
	{reflect.TypeOf(F149T0{}), reflect.TypeOf(F149T1{}), reflect.TypeOf(F149T2{}), reflect.TypeOf(F149T3{}), reflect.TypeOf(F149T4{})},
	{reflect.TypeOf(F150T0{}), reflect.TypeOf(F150T1{}), reflect.TypeOf(F150T2{})},
	{reflect.TypeOf(F151T0{}), reflect.TypeOf(F151T1{}), reflect.TypeOf(F151T2{}), reflect.TypeOf(F151T3{}), reflect.TypeOf(F151T4{})},
	{reflect.TypeOf(F152T0{}), reflect.TypeOf(F152T1{}), reflect.TypeOf(F152T2{})},
	{reflect.TypeOf(F153T0{})},
	{reflect.TypeOf(F154T0{}), reflect.TypeOf(F154T1{}), reflect.TypeOf(F154T2{}), reflect.TypeOf(F154T3{}), reflect.TypeOf(F154T4{}), reflect.TypeOf(F154T5{})},
	{reflect.TypeOf(F155T0{}), reflect.TypeOf(F155T1{}), reflect.TypeOf(F155T2{})},
	{reflect.TypeOf(F156T0{}), reflect.TypeOf(F156T1{}), reflect.TypeOf(F156T2{}), reflect.TypeOf(F156T3{}), reflect.TypeOf(F156T4{}), reflect.TypeOf(F156T5{})},
	{reflect.TypeOf(F157T0{}), reflect.TypeOf(F157T1{})},
	{reflect.TypeOf(F158T0{}), reflect.TypeOf(F158T1{}), reflect.TypeOf(F158T2{}), reflect.TypeOf(F158T3{}), reflect.TypeOf(F158T4{})},
	{reflect.TypeOf(F159T0{}), reflect.TypeOf(F159T1{}), reflect.TypeOf(F159T2{}), reflect.TypeOf(F159T3{})},
}
