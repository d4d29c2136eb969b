// Code generated by tools/gen_broken.py. DO NOT EDIT.

package fam

import "reflect"

type X0T0 struct {
	F0 int32             `protobuf:"varint,1,opt"`
	F1 map[int32]*X0Leaf `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 complex64         `protobuf:"fixed64,3,opt"`
	F3 map[int32]*X0T0   `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F4 string            `protobuf:"bytes,5,opt"`
	F5 *X0T1             `protobuf:"bytes,6,opt"`
}

type X0T1 struct {
	F0 *X0Leaf `protobuf:"bytes,1,opt"`
	F1 *X0T0   `protobuf:"bytes,2,opt"`
	F2 int32   `protobuf:"varint,3,opt"`
}

type X0Leaf struct {
	F0   *bool   `protobuf:"varint,1,opt"`
	F1   []int64 `protobuf:"zigzag64,2,rep"`
	F2   int32   `protobuf:"varint,3,opt"`
	Next *X0Leaf `protobuf:"bytes,9,opt"`
}

type X1T0 struct {
	F0 [4]byte `protobuf:"bytes,1,opt"`
	F1 *X1Leaf `protobuf:"bytes,2,opt"`
	F2 *X1T1   `protobuf:"bytes,3,opt"`
}

type X1T1 struct {
	F0 map[int32]*X1Leaf `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 int32             `protobuf:"varint,2,opt"`
	F2 []byte            `protobuf:"bytes,3,opt"`
	F3 map[int32]*X1T0   `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type X1Leaf struct {
	F0   []int64 `protobuf:"zigzag64,1,rep"`
	F1   *bool   `protobuf:"varint,2,opt"`
	Next *X1Leaf `protobuf:"bytes,9,opt"`
}

type X2T0 struct {
	F0 []*X2T1         `protobuf:"bytes,1,rep"`
	F1 map[int32]*X2T0 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 int32           `protobuf:"varint,3,opt"`
	F3 uint64          `protobuf:"fixed64,4,opt"`
}

type X2T1 struct {
	F0 [4]byte `protobuf:"bytes,1,opt"`
	F1 []*X2T2 `protobuf:"bytes,2,rep"`
	F2 *X2T2   `protobuf:"bytes,3,opt"`
}

type X2T2 struct {
	F0 map[int32]*X2T0 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 int32           `protobuf:"varint,2,opt"`
	F2 map[int32]*X2T1 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F3 *X2Leaf         `protobuf:"bytes,4,opt"`
	F4 *bool           `protobuf:"varint,5,opt"`
}

type X2Leaf struct {
	F0   string  `protobuf:"bytes,1,opt"`
	Next *X2Leaf `protobuf:"bytes,9,opt"`
}

type X3T0 struct {
	F0 []*X3T1 `protobuf:"bytes,1,rep"`
	F1 string  `protobuf:"bytes,2,opt"`
	F2 *X3Leaf `protobuf:"bytes,3,opt"`
	F3 []byte  `protobuf:"bytes,4,opt"`
}

type X3T1 struct {
	F0 *X3Leaf `protobuf:"bytes,1,opt"`
	F1 []*X3T2 `protobuf:"bytes,2,rep"`
	F2 *X3T1   `protobuf:"bytes,3,opt"`
}

type X3T2 struct {
	F0 *X3T0             `protobuf:"bytes,1,opt"`
	F1 int32             `protobuf:"varint,2,opt"`
	F2 map[int32]*X3Leaf `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F3 int8              `protobuf:"varint,4,opt"`
}

type X3Leaf struct {
	F0   string  `protobuf:"bytes,1,opt"`
	F1   []byte  `protobuf:"bytes,2,opt"`
	F2   []int64 `protobuf:"zigzag64,3,rep"`
	Next *X3Leaf `protobuf:"bytes,9,opt"`
}

type X4T0 struct {
	F0 *X4Leaf `protobuf:"bytes,1,opt"`
	F1 *X4T1   `protobuf:"bytes,2,opt"`
}

type X4T1 struct {
	F0 chan int  `protobuf:"bytes,1,opt"`
	F1 uint64    `protobuf:"fixed64,2,opt"`
	F2 string    `protobuf:"bytes,3,opt"`
	F3 []*X4Leaf `protobuf:"bytes,4,rep"`
	F4 *X4T0     `protobuf:"bytes,5,opt"`
}

type X4Leaf struct {
	F0   *bool   `protobuf:"varint,1,opt"`
	F1   *bool   `protobuf:"varint,2,opt"`
	F2   []byte  `protobuf:"bytes,3,opt"`
	Next *X4Leaf `protobuf:"bytes,9,opt"`
}

type X5T0 struct {
	F0 *X5T3             `protobuf:"bytes,1,opt"`
	F1 map[int32]*X5Leaf `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 []int             `protobuf:"varint,3,rep"`
	F3 *X5T1             `protobuf:"bytes,4,opt"`
	F4 int32             `protobuf:"varint,5,opt"`
}

type X5T1 struct {
	F0 *X5Leaf `protobuf:"bytes,1,opt"`
	F1 *X5T2   `protobuf:"bytes,2,opt"`
}

type X5T2 struct {
	F0 int32 `protobuf:"varint,1,opt"`
	F1 int32 `protobuf:"varint,2,opt"`
	F2 *X5T3 `protobuf:"bytes,3,opt"`
}

type X5T3 struct {
	F0 int32           `protobuf:"varint,1,opt"`
	F1 map[int32]*X5T2 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 map[int32]*X5T0 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type X5Leaf struct {
	F0   string  `protobuf:"bytes,1,opt"`
	F1   int32   `protobuf:"varint,2,opt"`
	Next *X5Leaf `protobuf:"bytes,9,opt"`
}

type X6T0 struct {
	F0 int     `protobuf:"varint,1,opt"`
	F1 uint64  `protobuf:"fixed64,2,opt"`
	F2 []*X6T1 `protobuf:"bytes,3,rep"`
	F3 *X6Leaf `protobuf:"bytes,4,opt"`
	F4 *bool   `protobuf:"varint,5,opt"`
	F5 []*X6T1 `protobuf:"bytes,6,rep"`
}

type X6T1 struct {
	F0 *X6T0   `protobuf:"bytes,1,opt"`
	F1 *X6T0   `protobuf:"bytes,2,opt"`
	F2 *X6Leaf `protobuf:"bytes,3,opt"`
}

type X6Leaf struct {
	F0   []byte  `protobuf:"bytes,1,opt"`
	F1   uint64  `protobuf:"fixed64,2,opt"`
	Next *X6Leaf `protobuf:"bytes,9,opt"`
}

type X7T0 struct {
	F0 []int64         `protobuf:"zigzag64,1,rep"`
	F1 []*X7T1         `protobuf:"bytes,2,rep"`
	F2 map[int32]*X7T0 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type X7T1 struct {
	F0 *X7Leaf         `protobuf:"bytes,1,opt"`
	F1 map[int32]*X7T1 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 *X7T0           `protobuf:"bytes,3,opt"`
	F3 uint16          `protobuf:"varint,4,opt"`
}

type X7Leaf struct {
	F0   []byte  `protobuf:"bytes,1,opt"`
	F1   string  `protobuf:"bytes,2,opt"`
	Next *X7Leaf `protobuf:"bytes,9,opt"`
}

type X8T0 struct {
	F0 *X8T1   `protobuf:"bytes,1,opt"`
	F1 []int64 `protobuf:"zigzag64,2,rep"`
	F2 *int16  `protobuf:"varint,3,opt"`
	F3 uint64  `protobuf:"fixed64,4,opt"`
}

type X8T1 struct {
	F0 *X8T3   `protobuf:"bytes,1,opt"`
	F1 *X8T2   `protobuf:"bytes,2,opt"`
	F2 *X8Leaf `protobuf:"bytes,3,opt"`
}

type X8T2 struct {
	F0 []byte    `protobuf:"bytes,1,opt"`
	F1 []*X8Leaf `protobuf:"bytes,2,rep"`
	F2 *X8T3     `protobuf:"bytes,3,opt"`
}

type X8T3 struct {
	F0 []byte  `protobuf:"bytes,1,opt"`
	F1 *X8T0   `protobuf:"bytes,2,opt"`
	F2 int32   `protobuf:"varint,3,opt"`
	F3 *X8Leaf `protobuf:"bytes,4,opt"`
}

type X8Leaf struct {
	F0   uint64  `protobuf:"fixed64,1,opt"`
	F1   string  `protobuf:"bytes,2,opt"`
	Next *X8Leaf `protobuf:"bytes,9,opt"`
}

type X9T0 struct {
	F0 *X9T1   `protobuf:"bytes,1,opt"`
	F1 int     `protobuf:"varint,2,opt"`
	F2 *X9T1   `protobuf:"bytes,3,opt"`
	F3 *X9Leaf `protobuf:"bytes,4,opt"`
}

type X9T1 struct {
	F0 *X9T0           `protobuf:"bytes,1,opt"`
	F1 map[int32]*X9T2 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type X9T2 struct {
	F0 *X9T0   `protobuf:"bytes,1,opt"`
	F1 *X9Leaf `protobuf:"bytes,2,opt"`
	F2 []byte  `protobuf:"bytes,3,opt"`
}

type X9Leaf struct {
	F0   uint64  `protobuf:"fixed64,1,opt"`
	Next *X9Leaf `protobuf:"bytes,9,opt"`
}

type X10T0 struct {
	F0 map[int32]*X10T1   `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 int32              `protobuf:"varint,2,opt"`
	F2 []int              `protobuf:"varint,3,rep"`
	F3 map[int32]*X10Leaf `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F4 int32              `protobuf:"varint,5,opt"`
}

type X10T1 struct {
	F0 *bool            `protobuf:"varint,1,opt"`
	F1 map[int32]*X10T0 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type X10Leaf struct {
	F0   []int64  `protobuf:"zigzag64,1,rep"`
	Next *X10Leaf `protobuf:"bytes,9,opt"`
}

type X11T0 struct {
	F0 *X11T0 `protobuf:"bytes,1,opt"`
	F1 int32  `protobuf:"varint,2,opt"`
	F2 uint16 `protobuf:"varint,3,opt"`
}

type X11Leaf struct {
	F0   []byte   `protobuf:"bytes,1,opt"`
	Next *X11Leaf `protobuf:"bytes,9,opt"`
}

type X12T0 struct {
	F0 *X12T1   `protobuf:"bytes,1,opt"`
	F1 *X12Leaf `protobuf:"bytes,2,opt"`
}

type X12T1 struct {
	F0 *X12T2     `protobuf:"bytes,1,opt"`
	F1 []*X12Leaf `protobuf:"bytes,2,rep"`
	F2 []*X12T3   `protobuf:"bytes,3,rep"`
	F3 uint64     `protobuf:"fixed64,4,opt"`
	F4 uint64     `protobuf:"fixed64,5,opt"`
}

type X12T2 struct {
	F0 map[int32]*X12T3 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 func()           `protobuf:"bytes,2,opt"`
}

type X12T3 struct {
	F0 *X12Leaf `protobuf:"bytes,1,opt"`
	F1 *bool    `protobuf:"varint,2,opt"`
	F2 string   `protobuf:"bytes,3,opt"`
	F3 *X12T0   `protobuf:"bytes,4,opt"`
}

type X12Leaf struct {
	F0   string   `protobuf:"bytes,1,opt"`
	F1   int32    `protobuf:"varint,2,opt"`
	Next *X12Leaf `protobuf:"bytes,9,opt"`
}

type X13T0 struct {
	F0 []int64  `protobuf:"zigzag64,1,rep"`
	F1 string   `protobuf:"bytes,2,opt"`
	F2 []*X13T1 `protobuf:"bytes,3,rep"`
}

type X13T1 struct {
	F0 []*X13Leaf `protobuf:"bytes,1,rep"`
	F1 []int64    `protobuf:"zigzag64,2,rep"`
	F2 *int16     `protobuf:"varint,3,opt"`
	F3 uint64     `protobuf:"fixed64,4,opt"`
	F4 *X13T0     `protobuf:"bytes,5,opt"`
}

type X13Leaf struct {
	F0   uint64   `protobuf:"fixed64,1,opt"`
	F1   int32    `protobuf:"varint,2,opt"`
	F2   string   `protobuf:"bytes,3,opt"`
	Next *X13Leaf `protobuf:"bytes,9,opt"`
}

type X14T0 struct {
	F0 *X14T0  `protobuf:"bytes,1,opt"`
	F1 *X14T0  `protobuf:"bytes,2,opt"`
	F2 [4]byte `protobuf:"bytes,3,opt"`
}

type X14Leaf struct {
	F0   int32    `protobuf:"varint,1,opt"`
	F1   uint64   `protobuf:"fixed64,2,opt"`
	Next *X14Leaf `protobuf:"bytes,9,opt"`
}

type X15T0 struct {
	F0 []byte   `protobuf:"bytes,1,opt"`
	F1 *X15T0   `protobuf:"bytes,2,opt"`
	F2 *X15T1   `protobuf:"bytes,3,opt"`
	F3 uint64   `protobuf:"fixed64,4,opt"`
	F4 *X15Leaf `protobuf:"bytes,5,opt"`
}

type X15T1 struct {
	F0 *int16             `protobuf:"varint,1,opt"`
	F1 map[int32]*X15T0   `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 map[int32]*X15Leaf `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type X15Leaf struct {
	F0   []int64  `protobuf:"zigzag64,1,rep"`
	F1   *bool    `protobuf:"varint,2,opt"`
	F2   string   `protobuf:"bytes,3,opt"`
	Next *X15Leaf `protobuf:"bytes,9,opt"`
}

type X16T0 struct {
	F0 *X16T1   `protobuf:"bytes,1,opt"`
	F1 []byte   `protobuf:"bytes,2,opt"`
	F2 []byte   `protobuf:"bytes,3,opt"`
	F3 *X16Leaf `protobuf:"bytes,4,opt"`
}

type X16T1 struct {
	F0 []int64    `protobuf:"zigzag64,1,rep"`
	F1 []*X16Leaf `protobuf:"bytes,2,rep"`
	F2 string     `protobuf:"bytes,3,opt"`
	F3 int8       `protobuf:"varint,4,opt"`
	F4 *X16T2     `protobuf:"bytes,5,opt"`
}

type X16T2 struct {
	F0 *X16T3     `protobuf:"bytes,1,opt"`
	F1 []*X16Leaf `protobuf:"bytes,2,rep"`
	F2 []*X16T0   `protobuf:"bytes,3,rep"`
}

type X16T3 struct {
	F0 []*X16T2         `protobuf:"bytes,1,rep"`
	F1 uint64           `protobuf:"fixed64,2,opt"`
	F2 map[int32]*X16T0 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F3 *X16Leaf         `protobuf:"bytes,4,opt"`
}

type X16Leaf struct {
	F0   string   `protobuf:"bytes,1,opt"`
	F1   *bool    `protobuf:"varint,2,opt"`
	Next *X16Leaf `protobuf:"bytes,9,opt"`
}

type X17T0 struct {
	F0 []*X17Leaf `protobuf:"bytes,1,rep"`
	F1 *X17T1     `protobuf:"bytes,2,opt"`
}

type X17T1 struct {
	F0 any        `protobuf:"bytes,1,opt"`
	F1 []*X17Leaf `protobuf:"bytes,2,rep"`
	F2 *X17T2     `protobuf:"bytes,3,opt"`
}

type X17T2 struct {
	F0 *X17T3     `protobuf:"bytes,1,opt"`
	F1 uint64     `protobuf:"fixed64,2,opt"`
	F2 []*X17Leaf `protobuf:"bytes,3,rep"`
	F3 []byte     `protobuf:"bytes,4,opt"`
}

type X17T3 struct {
	F0 *X17Leaf `protobuf:"bytes,1,opt"`
	F1 *X17T0   `protobuf:"bytes,2,opt"`
	F2 *bool    `protobuf:"varint,3,opt"`
	F3 []byte   `protobuf:"bytes,4,opt"`
}

type X17Leaf struct {
	F0   int32    `protobuf:"varint,1,opt"`
	Next *X17Leaf `protobuf:"bytes,9,opt"`
}

type X18T0 struct {
	F0 *bool    `protobuf:"varint,1,opt"`
	F1 *X18Leaf `protobuf:"bytes,2,opt"`
	F2 int      `protobuf:"varint,3,opt"`
}

type X18Leaf struct {
	F0   string   `protobuf:"bytes,1,opt"`
	F1   int32    `protobuf:"varint,2,opt"`
	Next *X18Leaf `protobuf:"bytes,9,opt"`
}

type X19T0 struct {
	F0 []*X19T1 `protobuf:"bytes,1,rep"`
	F1 int32    `protobuf:"group,2,opt"`
}

type X19T1 struct {
	F0 *X19T2 `protobuf:"bytes,1,opt"`
}

type X19T2 struct {
	F0 *X19T0  `protobuf:"bytes,1,opt"`
	F1 []int64 `protobuf:"zigzag64,2,rep"`
}

type X19Leaf struct {
	F0   []byte   `protobuf:"bytes,1,opt"`
	F1   string   `protobuf:"bytes,2,opt"`
	Next *X19Leaf `protobuf:"bytes,9,opt"`
}

type X20T0 struct {
	F0 []byte             `protobuf:"bytes,1,opt"`
	F1 []byte             `protobuf:"bytes,2,opt"`
	F2 *X20T0             `protobuf:"bytes,3,opt"`
	F3 map[int32]*X20Leaf `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F4 chan int           `protobuf:"bytes,5,opt"`
}

type X20Leaf struct {
	F0   []byte   `protobuf:"bytes,1,opt"`
	F1   int32    `protobuf:"varint,2,opt"`
	Next *X20Leaf `protobuf:"bytes,9,opt"`
}

type X21T0 struct {
	F0 *X21T1  `protobuf:"bytes,1,opt"`
	F1 []int64 `protobuf:"zigzag64,2,rep"`
	F2 *X21T2  `protobuf:"bytes,3,opt"`
}

type X21T1 struct {
	F0 chan int         `protobuf:"bytes,1,opt"`
	F1 map[int32]*X21T2 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 []*X21T0         `protobuf:"bytes,3,rep"`
}

type X21T2 struct {
	F0 *X21T1 `protobuf:"bytes,1,opt"`
	F1 *X21T3 `protobuf:"bytes,2,opt"`
}

type X21T3 struct {
	F0 *bool              `protobuf:"varint,1,opt"`
	F1 map[int32]*X21T2   `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 string             `protobuf:"bytes,3,opt"`
	F3 map[int32]*X21Leaf `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F4 *X21T0             `protobuf:"bytes,5,opt"`
}

type X21Leaf struct {
	F0   int32    `protobuf:"varint,1,opt"`
	Next *X21Leaf `protobuf:"bytes,9,opt"`
}

type X22T0 struct {
	F0 map[int32]*X22T1 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 []*X22Leaf       `protobuf:"bytes,2,rep"`
	F2 *X22T1           `protobuf:"bytes,3,opt"`
}

type X22T1 struct {
	F0 []*X22T0   `protobuf:"bytes,1,rep"`
	F1 []*X22Leaf `protobuf:"bytes,2,rep"`
	F2 []int64    `protobuf:"zigzag64,3,rep"`
	F3 []*X22T2   `protobuf:"bytes,4,rep"`
}

type X22T2 struct {
	F0 *int16   `protobuf:"varint,1,opt"`
	F1 *X22Leaf `protobuf:"bytes,2,opt"`
	F2 *X22T0   `protobuf:"bytes,3,opt"`
	F3 int32    `protobuf:"varint,4,opt"`
	F4 string   `protobuf:"bytes,5,opt"`
}

type X22Leaf struct {
	F0   string   `protobuf:"bytes,1,opt"`
	F1   []byte   `protobuf:"bytes,2,opt"`
	F2   uint64   `protobuf:"fixed64,3,opt"`
	Next *X22Leaf `protobuf:"bytes,9,opt"`
}

type X23T0 struct {
	F0 []int64  `protobuf:"zigzag64,1,rep"`
	F1 *X23T1   `protobuf:"bytes,2,opt"`
	F2 *X23Leaf `protobuf:"bytes,3,opt"`
	F3 *X23T1   `protobuf:"bytes,4,opt"`
}

type X23T1 struct {
	F0 *X23T0 `protobuf:"bytes,1,opt"`
	F1 []any  `protobuf:"bytes,2,rep"`
	F2 *X23T1 `protobuf:"bytes,3,opt"`
}

type X23Leaf struct {
	F0   []int64  `protobuf:"zigzag64,1,rep"`
	Next *X23Leaf `protobuf:"bytes,9,opt"`
}

type X24T0 struct {
	F0 map[int32]*X24T1 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 *X24Leaf         `protobuf:"bytes,2,opt"`
	F2 string           `protobuf:"bytes,3,opt"`
	F3 *X24T1           `protobuf:"bytes,4,opt"`
	F4 []byte           `protobuf:"bytes,5,opt"`
}

type X24T1 struct {
	F0 *X24T2   `protobuf:"bytes,1,opt"`
	F1 uint16   `protobuf:"varint,2,opt"`
	F2 *X24Leaf `protobuf:"bytes,3,opt"`
	F3 []int64  `protobuf:"zigzag64,4,rep"`
	F4 *bool    `protobuf:"varint,5,opt"`
}

type X24T2 struct {
	F0 *bool    `protobuf:"varint,1,opt"`
	F1 *X24Leaf `protobuf:"bytes,2,opt"`
	F2 []*X24T0 `protobuf:"bytes,3,rep"`
}

type X24Leaf struct {
	F0   *bool    `protobuf:"varint,1,opt"`
	F1   uint64   `protobuf:"fixed64,2,opt"`
	Next *X24Leaf `protobuf:"bytes,9,opt"`
}

type X25T0 struct {
	F0 *X25T0   `protobuf:"bytes,1,opt"`
	F1 *X25Leaf `protobuf:"bytes,2,opt"`
	F2 []int    `protobuf:"varint,3,rep"`
	F3 int32    `protobuf:"varint,4,opt"`
}

type X25Leaf struct {
	F0   string   `protobuf:"bytes,1,opt"`
	Next *X25Leaf `protobuf:"bytes,9,opt"`
}

type X26T0 struct {
	F0 map[int32]*X26Leaf `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 int32              `protobuf:"varint,2,opt"`
	F2 map[int32]*X26T1   `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F3 *X26T1             `protobuf:"bytes,4,opt"`
}

type X26T1 struct {
	F0 []int64          `protobuf:"zigzag64,1,rep"`
	F1 []int64          `protobuf:"zigzag64,2,rep"`
	F2 uint16           `protobuf:"varint,3,opt"`
	F3 *X26Leaf         `protobuf:"bytes,4,opt"`
	F4 map[int32]*X26T0 `protobuf:"bytes,5,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type X26Leaf struct {
	F0   *bool    `protobuf:"varint,1,opt"`
	Next *X26Leaf `protobuf:"bytes,9,opt"`
}

type X27T0 struct {
	F0 *X27Leaf `protobuf:"bytes,1,opt"`
	F1 []any    `protobuf:"bytes,2,rep"`
}

type X27Leaf struct {
	F0   string   `protobuf:"bytes,1,opt"`
	F1   *bool    `protobuf:"varint,2,opt"`
	F2   []byte   `protobuf:"bytes,3,opt"`
	Next *X27Leaf `protobuf:"bytes,9,opt"`
}

type X28T0 struct {
	F0 map[int32]*X28Leaf `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 []*X28T1           `protobuf:"bytes,2,rep"`
	F2 *bool              `protobuf:"varint,3,opt"`
}

type X28T1 struct {
	F0 *X28T2 `protobuf:"bytes,1,opt"`
}

type X28T2 struct {
	F0 uintptr          `protobuf:"varint,1,opt"`
	F1 *X28T0           `protobuf:"bytes,2,opt"`
	F2 *X28Leaf         `protobuf:"bytes,3,opt"`
	F3 []byte           `protobuf:"bytes,4,opt"`
	F4 map[int32]*X28T1 `protobuf:"bytes,5,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type X28Leaf struct {
	F0   []byte   `protobuf:"bytes,1,opt"`
	F1   string   `protobuf:"bytes,2,opt"`
	F2   int32    `protobuf:"varint,3,opt"`
	Next *X28Leaf `protobuf:"bytes,9,opt"`
}

type X29T0 struct {
	F0 string             `protobuf:"bytes,1,opt"`
	F1 []*X29T0           `protobuf:"bytes,2,rep"`
	F2 uint16             `protobuf:"varint,3,opt"`
	F3 map[int32]*X29Leaf `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F4 *X29T0             `protobuf:"bytes,5,opt"`
	F5 []int64            `protobuf:"zigzag64,6,rep"`
}

type X29Leaf struct {
	F0   string   `protobuf:"bytes,1,opt"`
	Next *X29Leaf `protobuf:"bytes,9,opt"`
}

type X30T0 struct {
	F0 map[int32]*X30Leaf `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 chan int           `protobuf:"bytes,2,opt"`
	F2 *X30T1             `protobuf:"bytes,3,opt"`
}

type X30T1 struct {
	F0 *X30T2           `protobuf:"bytes,1,opt"`
	F1 *X30Leaf         `protobuf:"bytes,2,opt"`
	F2 []int64          `protobuf:"zigzag64,3,rep"`
	F3 *bool            `protobuf:"varint,4,opt"`
	F4 map[int32]*X30T2 `protobuf:"bytes,5,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type X30T2 struct {
	F0 *X30Leaf         `protobuf:"bytes,1,opt"`
	F1 []int64          `protobuf:"zigzag64,2,rep"`
	F2 uint64           `protobuf:"fixed64,3,opt"`
	F3 map[int32]*X30T3 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type X30T3 struct {
	F0 []*X30T2 `protobuf:"bytes,1,rep"`
	F1 *X30T0   `protobuf:"bytes,2,opt"`
}

type X30Leaf struct {
	F0   []byte   `protobuf:"bytes,1,opt"`
	Next *X30Leaf `protobuf:"bytes,9,opt"`
}

type X31T0 struct {
	F0 *X31T0     `protobuf:"bytes,1,opt"`
	F1 string     `protobuf:"bytes,2,opt"`
	F2 *X31T1     `protobuf:"bytes,3,opt"`
	F3 []int64    `protobuf:"zigzag64,4,rep"`
	F4 []*X31Leaf `protobuf:"bytes,5,rep"`
}

type X31T1 struct {
	F0 map[int32]*X31Leaf `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 []*X31T2           `protobuf:"bytes,2,rep"`
}

type X31T2 struct {
	F0 map[int32]*X31T0 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 *X31Leaf         `protobuf:"bytes,2,opt"`
	F2 func()           `protobuf:"bytes,3,opt"`
	F3 map[int32]*X31T1 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F4 []int64          `protobuf:"zigzag64,5,rep"`
	F5 uint64           `protobuf:"fixed64,6,opt"`
}

type X31Leaf struct {
	F0   []byte   `protobuf:"bytes,1,opt"`
	Next *X31Leaf `protobuf:"bytes,9,opt"`
}

type X32T0 struct {
	F0 chan int   `protobuf:"bytes,1,opt"`
	F1 []*X32T1   `protobuf:"bytes,2,rep"`
	F2 []*X32Leaf `protobuf:"bytes,3,rep"`
	F3 []*X32T0   `protobuf:"bytes,4,rep"`
}

type X32T1 struct {
	F0 []byte   `protobuf:"bytes,1,opt"`
	F1 *X32T2   `protobuf:"bytes,2,opt"`
	F2 *X32T2   `protobuf:"bytes,3,opt"`
	F3 []byte   `protobuf:"bytes,4,opt"`
	F4 *X32Leaf `protobuf:"bytes,5,opt"`
}

type X32T2 struct {
	F0 map[int32]*X32T0 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 []int64          `protobuf:"zigzag64,2,rep"`
	F2 *X32Leaf         `protobuf:"bytes,3,opt"`
}

type X32Leaf struct {
	F0   uint64   `protobuf:"fixed64,1,opt"`
	F1   int32    `protobuf:"varint,2,opt"`
	Next *X32Leaf `protobuf:"bytes,9,opt"`
}

type X33T0 struct {
	F0 []*X33T1 `protobuf:"bytes,1,rep"`
	F1 string   `protobuf:"bytes,2,opt"`
}

type X33T1 struct {
	F0 uint64   `protobuf:"fixed64,1,opt"`
	F1 *X33Leaf `protobuf:"bytes,2,opt"`
	F2 *X33T2   `protobuf:"bytes,3,opt"`
}

type X33T2 struct {
	F0 map[int32]*X33T2   `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 uint               `protobuf:"varint,2,opt"`
	F2 int32              `protobuf:"varint,3,opt"`
	F3 map[int32]*X33T3   `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F4 map[int32]*X33Leaf `protobuf:"bytes,5,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type X33T3 struct {
	F0 *X33Leaf `protobuf:"bytes,1,opt"`
	F1 []*X33T0 `protobuf:"bytes,2,rep"`
	F2 []int64  `protobuf:"zigzag64,3,rep"`
}

type X33Leaf struct {
	F0   string   `protobuf:"bytes,1,opt"`
	F1   *bool    `protobuf:"varint,2,opt"`
	Next *X33Leaf `protobuf:"bytes,9,opt"`
}

type X34T0 struct {
	F0 *X34T1   `protobuf:"bytes,1,opt"`
	F1 *X34Leaf `protobuf:"bytes,2,opt"`
	F2 []*X34T1 `protobuf:"bytes,3,rep"`
}

type X34T1 struct {
	F0 uint16           `protobuf:"varint,1,opt"`
	F1 map[int32]*X34T0 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 string           `protobuf:"bytes,3,opt"`
	F3 *X34Leaf         `protobuf:"bytes,4,opt"`
}

type X34Leaf struct {
	F0   int32    `protobuf:"varint,1,opt"`
	Next *X34Leaf `protobuf:"bytes,9,opt"`
}

type X35T0 struct {
	F0 uint64   `protobuf:"fixed64,1,opt"`
	F1 uint     `protobuf:"varint,2,opt"`
	F2 *X35Leaf `protobuf:"bytes,3,opt"`
	F3 []*X35T1 `protobuf:"bytes,4,rep"`
	F4 *X35T1   `protobuf:"bytes,5,opt"`
}

type X35T1 struct {
	F0 []*X35T2 `protobuf:"bytes,1,rep"`
	F1 int32    `protobuf:"varint,2,opt"`
	F2 []*X35T2 `protobuf:"bytes,3,rep"`
	F3 *X35Leaf `protobuf:"bytes,4,opt"`
	F4 int32    `protobuf:"varint,5,opt"`
}

type X35T2 struct {
	F0 *X35Leaf `protobuf:"bytes,1,opt"`
	F1 []*X35T0 `protobuf:"bytes,2,rep"`
	F2 int32    `protobuf:"varint,3,opt"`
}

type X35Leaf struct {
	F0   []byte   `protobuf:"bytes,1,opt"`
	F1   string   `protobuf:"bytes,2,opt"`
	Next *X35Leaf `protobuf:"bytes,9,opt"`
}

type X36T0 struct {
	F0 *bool            `protobuf:"varint,1,opt"`
	F1 map[int32]*X36T1 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 *X36Leaf         `protobuf:"bytes,3,opt"`
}

type X36T1 struct {
	F0 []any            `protobuf:"bytes,1,rep"`
	F1 []*X36T0         `protobuf:"bytes,2,rep"`
	F2 map[int32]*X36T0 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type X36Leaf struct {
	F0   []byte   `protobuf:"bytes,1,opt"`
	F1   string   `protobuf:"bytes,2,opt"`
	Next *X36Leaf `protobuf:"bytes,9,opt"`
}

type X37T0 struct {
	F0 map[int32]*X37T2   `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 any                `protobuf:"bytes,2,opt"`
	F2 []int64            `protobuf:"zigzag64,3,rep"`
	F3 map[int32]*X37Leaf `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F4 *X37T1             `protobuf:"bytes,5,opt"`
}

type X37T1 struct {
	F0 *X37T2   `protobuf:"bytes,1,opt"`
	F1 *X37Leaf `protobuf:"bytes,2,opt"`
}

type X37T2 struct {
	F0 *X37T2 `protobuf:"bytes,1,opt"`
	F1 uint64 `protobuf:"fixed64,2,opt"`
	F2 *X37T0 `protobuf:"bytes,3,opt"`
}

type X37Leaf struct {
	F0   []int64  `protobuf:"zigzag64,1,rep"`
	F1   int32    `protobuf:"varint,2,opt"`
	F2   *bool    `protobuf:"varint,3,opt"`
	Next *X37Leaf `protobuf:"bytes,9,opt"`
}

type X38T0 struct {
	F0 *X38Leaf `protobuf:"bytes,1,opt"`
	F1 *X38T1   `protobuf:"bytes,2,opt"`
	F2 uint64   `protobuf:"fixed64,3,opt"`
}

type X38T1 struct {
	F0 map[int32]*X38T1 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 chan int         `protobuf:"bytes,2,opt"`
	F2 []*X38T2         `protobuf:"bytes,3,rep"`
}

type X38T2 struct {
	F0 []int64 `protobuf:"zigzag64,1,rep"`
	F1 *X38T0  `protobuf:"bytes,2,opt"`
	F2 int32   `protobuf:"varint,3,opt"`
}

type X38Leaf struct {
	F0   []int64  `protobuf:"zigzag64,1,rep"`
	F1   *bool    `protobuf:"varint,2,opt"`
	F2   uint64   `protobuf:"fixed64,3,opt"`
	Next *X38Leaf `protobuf:"bytes,9,opt"`
}

type X39T0 struct {
	F0 []int64  `protobuf:"zigzag64,1,rep"`
	F1 uint64   `protobuf:"fixed64,2,opt"`
	F2 func()   `protobuf:"bytes,3,opt"`
	F3 *X39Leaf `protobuf:"bytes,4,opt"`
	F4 *X39T1   `protobuf:"bytes,5,opt"`
}

type X39T1 struct {
	F0 []*X39T2           `protobuf:"bytes,1,rep"`
	F1 *X39T0             `protobuf:"bytes,2,opt"`
	F2 *bool              `protobuf:"varint,3,opt"`
	F3 map[int32]*X39Leaf `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type X39T2 struct {
	F0 []int64          `protobuf:"zigzag64,1,rep"`
	F1 map[int32]*X39T2 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 *X39Leaf         `protobuf:"bytes,3,opt"`
	F3 uint64           `protobuf:"fixed64,4,opt"`
	F4 map[int32]*X39T0 `protobuf:"bytes,5,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type X39Leaf struct {
	F0   []int64  `protobuf:"zigzag64,1,rep"`
	F1   uint64   `protobuf:"fixed64,2,opt"`
	F2   []int64  `protobuf:"zigzag64,3,rep"`
	Next *X39Leaf `protobuf:"bytes,9,opt"`
}

type X40T0 struct {
	F0 *X40Leaf `protobuf:"bytes,1,opt"`
	F1 *X40T1   `protobuf:"bytes,2,opt"`
	F2 string   `protobuf:"bytes,3,opt"`
	F3 uint     `protobuf:"varint,4,opt"`
}

type X40T1 struct {
	F0 []byte `protobuf:"bytes,1,opt"`
	F1 *X40T2 `protobuf:"bytes,2,opt"`
}

type X40T2 struct {
	F0 *X40T2 `protobuf:"bytes,1,opt"`
	F1 *X40T0 `protobuf:"bytes,2,opt"`
}

type X40Leaf struct {
	F0   uint64   `protobuf:"fixed64,1,opt"`
	Next *X40Leaf `protobuf:"bytes,9,opt"`
}

type X41T0 struct {
	F0 *X41T1 `protobuf:"bytes,1,opt"`
	F1 int32  `protobuf:"varint,2,opt"`
	F2 uint64 `protobuf:"fixed64,3,opt"`
}

type X41T1 struct {
	F0 *X41Leaf `protobuf:"bytes,1,opt"`
	F1 []*X41T2 `protobuf:"bytes,2,rep"`
	F2 []*X41T2 `protobuf:"bytes,3,rep"`
	F3 uint64   `protobuf:"fixed64,4,opt"`
	F4 chan int `protobuf:"bytes,5,opt"`
}

type X41T2 struct {
	F0 []*X41T0           `protobuf:"bytes,1,rep"`
	F1 map[int32]*X41Leaf `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 uint64             `protobuf:"fixed64,3,opt"`
}

type X41Leaf struct {
	F0   string   `protobuf:"bytes,1,opt"`
	Next *X41Leaf `protobuf:"bytes,9,opt"`
}

type X42T0 struct {
	F0 []*X42T0           `protobuf:"bytes,1,rep"`
	F1 map[int32]*X42Leaf `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 []byte             `protobuf:"bytes,3,opt"`
	F3 int32              `protobuf:"varint,4,opt"`
	F4 chan int           `protobuf:"bytes,5,opt"`
}

type X42Leaf struct {
	F0   *bool    `protobuf:"varint,1,opt"`
	F1   uint64   `protobuf:"fixed64,2,opt"`
	Next *X42Leaf `protobuf:"bytes,9,opt"`
}

type X43T0 struct {
	F0 []*X43Leaf `protobuf:"bytes,1,rep"`
	F1 []*X43T1   `protobuf:"bytes,2,rep"`
}

type X43T1 struct {
	F0 *X43T0 `protobuf:"bytes,1,opt"`
	F1 int8   `protobuf:"varint,2,opt"`
	F2 *X43T1 `protobuf:"bytes,3,opt"`
	F3 uint64 `protobuf:"fixed64,4,opt"`
	F4 int32  `protobuf:"varint,5,opt"`
}

type X43Leaf struct {
	F0   uint64   `protobuf:"fixed64,1,opt"`
	F1   *bool    `protobuf:"varint,2,opt"`
	Next *X43Leaf `protobuf:"bytes,9,opt"`
}

type X44T0 struct {
	F0 map[int32]*X44Leaf `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 []*X44T1           `protobuf:"bytes,2,rep"`
	F2 string             `protobuf:"bytes,3,opt"`
	F3 string             `protobuf:"bytes,4,opt"`
	F4 uint               `protobuf:"varint,5,opt"`
}

type X44T1 struct {
	F0 uint64             `protobuf:"fixed64,1,opt"`
	F1 []int64            `protobuf:"zigzag64,2,rep"`
	F2 *X44T2             `protobuf:"bytes,3,opt"`
	F3 map[int32]*X44Leaf `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type X44T2 struct {
	F0 map[int32]*X44T3 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 []*X44Leaf       `protobuf:"bytes,2,rep"`
}

type X44T3 struct {
	F0 *X44T0   `protobuf:"bytes,1,opt"`
	F1 *X44Leaf `protobuf:"bytes,2,opt"`
	F2 string   `protobuf:"bytes,3,opt"`
	F3 *bool    `protobuf:"varint,4,opt"`
}

type X44Leaf struct {
	F0   int32    `protobuf:"varint,1,opt"`
	Next *X44Leaf `protobuf:"bytes,9,opt"`
}

type X45T0 struct {
	F0 *X45Leaf         `protobuf:"bytes,1,opt"`
	F1 map[int32]*X45T0 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 int              `protobuf:"varint,3,opt"`
}

type X45Leaf struct {
	F0   *bool    `protobuf:"varint,1,opt"`
	Next *X45Leaf `protobuf:"bytes,9,opt"`
}

type X46T0 struct {
	F0 map[int32]*X46T2   `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 *X46T1             `protobuf:"bytes,2,opt"`
	F2 int32              `protobuf:"varint,3,opt"`
	F3 map[int32]*X46Leaf `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type X46T1 struct {
	F0 *X46T2 `protobuf:"bytes,1,opt"`
	F1 *X46T2 `protobuf:"bytes,2,opt"`
}

type X46T2 struct {
	F0 int32      `protobuf:"varint,1,opt"`
	F1 func()     `protobuf:"bytes,2,opt"`
	F2 []*X46Leaf `protobuf:"bytes,3,rep"`
	F3 []*X46T0   `protobuf:"bytes,4,rep"`
	F4 int32      `protobuf:"varint,5,opt"`
}

type X46Leaf struct {
	F0   uint64   `protobuf:"fixed64,1,opt"`
	F1   int32    `protobuf:"varint,2,opt"`
	F2   *bool    `protobuf:"varint,3,opt"`
	Next *X46Leaf `protobuf:"bytes,9,opt"`
}

type X47T0 struct {
	F0 *X47T0 `protobuf:"bytes,1,opt"`
	F1 int8   `protobuf:"varint,2,opt"`
}

type X47Leaf struct {
	F0   string   `protobuf:"bytes,1,opt"`
	F1   *bool    `protobuf:"varint,2,opt"`
	Next *X47Leaf `protobuf:"bytes,9,opt"`
}

type X48T0 struct {
	F0 []*X48T1 `protobuf:"bytes,1,rep"`
	F1 *X48T1   `protobuf:"bytes,2,opt"`
	F2 int32    `protobuf:"varint,3,opt"`
	F3 int32    `protobuf:"varint,4,opt"`
}

type X48T1 struct {
	F0 *X48T0   `protobuf:"bytes,1,opt"`
	F1 *X48Leaf `protobuf:"bytes,2,opt"`
	F2 int8     `protobuf:"varint,3,opt"`
	F3 []*X48T0 `protobuf:"bytes,4,rep"`
}

type X48Leaf struct {
	F0   []byte   `protobuf:"bytes,1,opt"`
	Next *X48Leaf `protobuf:"bytes,9,opt"`
}

type X49T0 struct {
	F0 int32            `protobuf:"varint,1,opt"`
	F1 uintptr          `protobuf:"varint,2,opt"`
	F2 map[int32]*X49T0 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F3 int32            `protobuf:"varint,4,opt"`
}

type X49Leaf struct {
	F0   uint64   `protobuf:"fixed64,1,opt"`
	Next *X49Leaf `protobuf:"bytes,9,opt"`
}

type X50T0 struct {
	F0 *X50Leaf `protobuf:"bytes,1,opt"`
	F1 []any    `protobuf:"bytes,2,rep"`
	F2 *X50T1   `protobuf:"bytes,3,opt"`
	F3 []byte   `protobuf:"bytes,4,opt"`
	F4 int32    `protobuf:"varint,5,opt"`
}

type X50T1 struct {
	F0 *X50T0     `protobuf:"bytes,1,opt"`
	F1 int32      `protobuf:"varint,2,opt"`
	F2 []*X50T1   `protobuf:"bytes,3,rep"`
	F3 []*X50Leaf `protobuf:"bytes,4,rep"`
}

type X50Leaf struct {
	F0   *bool    `protobuf:"varint,1,opt"`
	F1   []int64  `protobuf:"zigzag64,2,rep"`
	F2   string   `protobuf:"bytes,3,opt"`
	Next *X50Leaf `protobuf:"bytes,9,opt"`
}

type X51T0 struct {
	F0 map[int32]*X51T1 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type X51T1 struct {
	F0 *bool    `protobuf:"varint,1,opt"`
	F1 []*X51T2 `protobuf:"bytes,2,rep"`
	F2 int32    `protobuf:"varint,3,opt"`
	F3 *X51Leaf `protobuf:"bytes,4,opt"`
}

type X51T2 struct {
	F0 int              `protobuf:"varint,1,opt"`
	F1 *X51T0           `protobuf:"bytes,2,opt"`
	F2 map[int32]*X51T0 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F3 int32            `protobuf:"varint,4,opt"`
	F4 []*X51Leaf       `protobuf:"bytes,5,rep"`
}

type X51Leaf struct {
	F0   string   `protobuf:"bytes,1,opt"`
	F1   *bool    `protobuf:"varint,2,opt"`
	F2   uint64   `protobuf:"fixed64,3,opt"`
	Next *X51Leaf `protobuf:"bytes,9,opt"`
}

type X52T0 struct {
	F0 []any    `protobuf:"bytes,1,rep"`
	F1 *X52Leaf `protobuf:"bytes,2,opt"`
	F2 []*X52T1 `protobuf:"bytes,3,rep"`
}

type X52T1 struct {
	F0 []*X52Leaf `protobuf:"bytes,1,rep"`
	F1 []byte     `protobuf:"bytes,2,opt"`
	F2 *X52T0     `protobuf:"bytes,3,opt"`
	F3 []*X52T0   `protobuf:"bytes,4,rep"`
}

type X52Leaf struct {
	F0   []int64  `protobuf:"zigzag64,1,rep"`
	F1   *bool    `protobuf:"varint,2,opt"`
	Next *X52Leaf `protobuf:"bytes,9,opt"`
}

type X53T0 struct {
	F0 uint64           `protobuf:"fixed64,1,opt"`
	F1 *X53Leaf         `protobuf:"bytes,2,opt"`
	F2 map[int32]*X53T2 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F3 []*X53T1         `protobuf:"bytes,4,rep"`
	F4 [4]byte          `protobuf:"bytes,5,opt"`
}

type X53T1 struct {
	F0 string           `protobuf:"bytes,1,opt"`
	F1 *bool            `protobuf:"varint,2,opt"`
	F2 map[int32]*X53T2 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F3 *X53Leaf         `protobuf:"bytes,4,opt"`
}

type X53T2 struct {
	F0 *bool    `protobuf:"varint,1,opt"`
	F1 uint64   `protobuf:"fixed64,2,opt"`
	F2 []*X53T0 `protobuf:"bytes,3,rep"`
	F3 *X53Leaf `protobuf:"bytes,4,opt"`
}

type X53Leaf struct {
	F0   string   `protobuf:"bytes,1,opt"`
	Next *X53Leaf `protobuf:"bytes,9,opt"`
}

type X54T0 struct {
	F0 []*X54Leaf `protobuf:"bytes,1,rep"`
	F1 int32      `protobuf:"varint,2,opt"`
	F2 []*X54T1   `protobuf:"bytes,3,rep"`
	F3 uint64     `protobuf:"fixed64,4,opt"`
}

type X54T1 struct {
	F0 map[int32]*X54Leaf `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 *X54T1             `protobuf:"bytes,2,opt"`
	F2 string             `protobuf:"bytes,3,opt"`
	F3 []*X54T0           `protobuf:"bytes,4,rep"`
	F4 uint16             `protobuf:"varint,5,opt"`
	F5 int32              `protobuf:"varint,6,opt"`
}

type X54Leaf struct {
	F0   int32    `protobuf:"varint,1,opt"`
	F1   uint64   `protobuf:"fixed64,2,opt"`
	Next *X54Leaf `protobuf:"bytes,9,opt"`
}

type X55T0 struct {
	F0 *X55T1 `protobuf:"bytes,1,opt"`
	F1 []byte `protobuf:"bytes,2,opt"`
}

type X55T1 struct {
	F0 any              `protobuf:"bytes,1,opt"`
	F1 map[int32]*X55T0 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 int32            `protobuf:"varint,3,opt"`
	F3 []int64          `protobuf:"zigzag64,4,rep"`
}

type X55Leaf struct {
	F0   []int64  `protobuf:"zigzag64,1,rep"`
	Next *X55Leaf `protobuf:"bytes,9,opt"`
}

type X56T0 struct {
	F0 *X56T1   `protobuf:"bytes,1,opt"`
	F1 []*X56T3 `protobuf:"bytes,2,rep"`
	F2 *X56Leaf `protobuf:"bytes,3,opt"`
}

type X56T1 struct {
	F0 int    `protobuf:"varint,1,opt"`
	F1 *X56T2 `protobuf:"bytes,2,opt"`
	F2 *X56T3 `protobuf:"bytes,3,opt"`
}

type X56T2 struct {
	F0 *bool    `protobuf:"varint,1,opt"`
	F1 *X56T0   `protobuf:"bytes,2,opt"`
	F2 []*X56T3 `protobuf:"bytes,3,rep"`
}

type X56T3 struct {
	F0 map[int32]*X56T3 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 *X56T0           `protobuf:"bytes,2,opt"`
	F2 uint64           `protobuf:"fixed64,3,opt"`
}

type X56Leaf struct {
	F0   *bool    `protobuf:"varint,1,opt"`
	F1   string   `protobuf:"bytes,2,opt"`
	F2   []byte   `protobuf:"bytes,3,opt"`
	Next *X56Leaf `protobuf:"bytes,9,opt"`
}

type X57T0 struct {
	F0 []*X57T0         `protobuf:"bytes,1,rep"`
	F1 []int64          `protobuf:"zigzag64,2,rep"`
	F2 map[int32]*X57T0 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F3 []any            `protobuf:"bytes,4,rep"`
	F4 *X57Leaf         `protobuf:"bytes,5,opt"`
}

type X57Leaf struct {
	F0   []int64  `protobuf:"zigzag64,1,rep"`
	F1   uint64   `protobuf:"fixed64,2,opt"`
	Next *X57Leaf `protobuf:"bytes,9,opt"`
}

type X58T0 struct {
	F0 []int64          `protobuf:"zigzag64,1,rep"`
	F1 []any            `protobuf:"bytes,2,rep"`
	F2 map[int32]*X58T1 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F3 uint64           `protobuf:"fixed64,4,opt"`
}

type X58T1 struct {
	F0 []int64          `protobuf:"zigzag64,1,rep"`
	F1 map[int32]*X58T1 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 []*X58T0         `protobuf:"bytes,3,rep"`
	F3 uint64           `protobuf:"fixed64,4,opt"`
}

type X58Leaf struct {
	F0   []byte   `protobuf:"bytes,1,opt"`
	F1   uint64   `protobuf:"fixed64,2,opt"`
	Next *X58Leaf `protobuf:"bytes,9,opt"`
}

type X59T0 struct {
	F0 []*X59T1   `protobuf:"bytes,1,rep"`
	F1 *X59T1     `protobuf:"bytes,2,opt"`
	F2 []*X59Leaf `protobuf:"bytes,3,rep"`
	F3 []int      `protobuf:"varint,4,rep"`
	F4 string     `protobuf:"bytes,5,opt"`
}

type X59T1 struct {
	F0 *X59T0   `protobuf:"bytes,1,opt"`
	F1 *X59T2   `protobuf:"bytes,2,opt"`
	F2 string   `protobuf:"bytes,3,opt"`
	F3 *X59Leaf `protobuf:"bytes,4,opt"`
	F4 uint64   `protobuf:"fixed64,5,opt"`
}

type X59T2 struct {
	F0 *X59T0 `protobuf:"bytes,1,opt"`
	F1 uint64 `protobuf:"fixed64,2,opt"`
	F2 uint64 `protobuf:"fixed64,3,opt"`
	F3 *X59T1 `protobuf:"bytes,4,opt"`
}

type X59Leaf struct {
	F0   *bool    `protobuf:"varint,1,opt"`
	F1   uint64   `protobuf:"fixed64,2,opt"`
	Next *X59Leaf `protobuf:"bytes,9,opt"`
}

type X60T0 struct {
	F0 string `protobuf:"bytes,1,opt"`
	F1 []byte `protobuf:"bytes,2,opt"`
	F2 *X60T1 `protobuf:"bytes,3,opt"`
}

type X60T1 struct {
	F0 []byte `protobuf:"bytes,1,opt"`
	F1 *X60T2 `protobuf:"bytes,2,opt"`
}

type X60T2 struct {
	F0 map[int32]*X60T1 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 map[int32]*X60T0 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 *X60Leaf         `protobuf:"bytes,3,opt"`
	F3 []int            `protobuf:"varint,4,rep"`
}

type X60Leaf struct {
	F0   []int64  `protobuf:"zigzag64,1,rep"`
	F1   uint64   `protobuf:"fixed64,2,opt"`
	F2   []int64  `protobuf:"zigzag64,3,rep"`
	Next *X60Leaf `protobuf:"bytes,9,opt"`
}

type X61T0 struct {
	F0 map[int32]*X61T1 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 complex64        `protobuf:"fixed64,2,opt"`
	F2 []byte           `protobuf:"bytes,3,opt"`
}

type X61T1 struct {
	F0 []*X61T1           `protobuf:"bytes,1,rep"`
	F1 uint64             `protobuf:"fixed64,2,opt"`
	F2 int32              `protobuf:"varint,3,opt"`
	F3 *X61T0             `protobuf:"bytes,4,opt"`
	F4 map[int32]*X61Leaf `protobuf:"bytes,5,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type X61Leaf struct {
	F0   uint64   `protobuf:"fixed64,1,opt"`
	F1   int32    `protobuf:"varint,2,opt"`
	Next *X61Leaf `protobuf:"bytes,9,opt"`
}

type X62T0 struct {
	F0 []*X62Leaf       `protobuf:"bytes,1,rep"`
	F1 map[int32]*X62T1 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 string           `protobuf:"bytes,3,opt"`
	F3 string           `protobuf:"bytes,4,opt"`
}

type X62T1 struct {
	F0 map[int32]*X62T0 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 uintptr          `protobuf:"varint,2,opt"`
	F2 map[int32]*X62T1 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F3 []*X62Leaf       `protobuf:"bytes,4,rep"`
}

type X62Leaf struct {
	F0   string   `protobuf:"bytes,1,opt"`
	F1   *bool    `protobuf:"varint,2,opt"`
	F2   string   `protobuf:"bytes,3,opt"`
	Next *X62Leaf `protobuf:"bytes,9,opt"`
}

type X63T0 struct {
	F0 []byte   `protobuf:"bytes,1,opt"`
	F1 *X63T1   `protobuf:"bytes,2,opt"`
	F2 *X63Leaf `protobuf:"bytes,3,opt"`
}

type X63T1 struct {
	F0 *X63T1             `protobuf:"bytes,1,opt"`
	F1 any                `protobuf:"bytes,2,opt"`
	F2 *X63T0             `protobuf:"bytes,3,opt"`
	F3 map[int32]*X63Leaf `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type X63Leaf struct {
	F0   []byte   `protobuf:"bytes,1,opt"`
	F1   int32    `protobuf:"varint,2,opt"`
	F2   *bool    `protobuf:"varint,3,opt"`
	Next *X63Leaf `protobuf:"bytes,9,opt"`
}

type X64T0 struct {
	F0 map[int32]*X64T2 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 *X64Leaf         `protobuf:"bytes,2,opt"`
	F2 []byte           `protobuf:"bytes,3,opt"`
	F3 *X64T1           `protobuf:"bytes,4,opt"`
	F4 []byte           `protobuf:"bytes,5,opt"`
}

type X64T1 struct {
	F0 int32    `protobuf:"varint,1,opt"`
	F1 []*X64T2 `protobuf:"bytes,2,rep"`
}

type X64T2 struct {
	F0 uintptr `protobuf:"varint,1,opt"`
	F1 []byte  `protobuf:"bytes,2,opt"`
	F2 *X64T0  `protobuf:"bytes,3,opt"`
	F3 string  `protobuf:"bytes,4,opt"`
}

type X64Leaf struct {
	F0   int32    `protobuf:"varint,1,opt"`
	F1   []int64  `protobuf:"zigzag64,2,rep"`
	Next *X64Leaf `protobuf:"bytes,9,opt"`
}

type X65T0 struct {
	F0 map[int32]*X65T1 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F1 *X65Leaf         `protobuf:"bytes,2,opt"`
	F2 int32            `protobuf:"varint,3,opt"`
	F3 int32            `protobuf:"varint,4,opt"`
}

type X65T1 struct {
	F0 []byte           `protobuf:"bytes,1,opt"`
	F1 *bool            `protobuf:"varint,2,opt"`
	F2 map[int32]*X65T2 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type X65T2 struct {
	F0 *int16           `protobuf:"varint,1,opt"`
	F1 map[int32]*X65T0 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 uint64           `protobuf:"fixed64,3,opt"`
	F3 *X65Leaf         `protobuf:"bytes,4,opt"`
}

type X65Leaf struct {
	F0   []byte   `protobuf:"bytes,1,opt"`
	Next *X65Leaf `protobuf:"bytes,9,opt"`
}

type X66T0 struct {
	F0 int8     `protobuf:"varint,1,opt"`
	F1 []*X66T1 `protobuf:"bytes,2,rep"`
	F2 *X66Leaf `protobuf:"bytes,3,opt"`
}

type X66T1 struct {
	F0 *X66T1   `protobuf:"bytes,1,opt"`
	F1 []*X66T2 `protobuf:"bytes,2,rep"`
	F2 []byte   `protobuf:"bytes,3,opt"`
}

type X66T2 struct {
	F0 *X66T3 `protobuf:"bytes,1,opt"`
	F1 *X66T3 `protobuf:"bytes,2,opt"`
	F2 int32  `protobuf:"varint,3,opt"`
}

type X66T3 struct {
	F0 []*X66T0 `protobuf:"bytes,1,rep"`
	F1 int32    `protobuf:"varint,2,opt"`
	F2 *bool    `protobuf:"varint,3,opt"`
}

type X66Leaf struct {
	F0   *bool    `protobuf:"varint,1,opt"`
	F1   uint64   `protobuf:"fixed64,2,opt"`
	F2   []int64  `protobuf:"zigzag64,3,rep"`
	Next *X66Leaf `protobuf:"bytes,9,opt"`
}

type X67T0 struct {
	F0 []int64          `protobuf:"zigzag64,1,rep"`
	F1 []int64          `protobuf:"zigzag64,2,rep"`
	F2 *X67T1           `protobuf:"bytes,3,opt"`
	F3 []any            `protobuf:"bytes,4,rep"`
	F4 map[int32]*X67T1 `protobuf:"bytes,5,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type X67T1 struct {
	F0 []*X67T2 `protobuf:"bytes,1,rep"`
	F1 []*X67T1 `protobuf:"bytes,2,rep"`
	F2 string   `protobuf:"bytes,3,opt"`
}

type X67T2 struct {
	F0 *bool  `protobuf:"varint,1,opt"`
	F1 *X67T0 `protobuf:"bytes,2,opt"`
	F2 []byte `protobuf:"bytes,3,opt"`
}

type X67Leaf struct {
	F0   string   `protobuf:"bytes,1,opt"`
	F1   *bool    `protobuf:"varint,2,opt"`
	F2   []int64  `protobuf:"zigzag64,3,rep"`
	Next *X67Leaf `protobuf:"bytes,9,opt"`
}

type X68T0 struct {
	F0 []*X68T1 `protobuf:"bytes,1,rep"`
	F1 *X68T1   `protobuf:"bytes,2,opt"`
}

type X68T1 struct {
	F0 *X68Leaf         `protobuf:"bytes,1,opt"`
	F1 complex64        `protobuf:"fixed64,2,opt"`
	F2 []*X68T1         `protobuf:"bytes,3,rep"`
	F3 map[int32]*X68T0 `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
}

type X68Leaf struct {
	F0   *bool    `protobuf:"varint,1,opt"`
	F1   int32    `protobuf:"varint,2,opt"`
	Next *X68Leaf `protobuf:"bytes,9,opt"`
}

type X69T0 struct {
	F0 uint64           `protobuf:"fixed64,1,opt"`
	F1 map[int32]*X69T1 `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F2 *X69Leaf         `protobuf:"bytes,3,opt"`
	F3 []*X69T1         `protobuf:"bytes,4,rep"`
	F4 string           `protobuf:"bytes,5,opt"`
}

type X69T1 struct {
	F0 *bool    `protobuf:"varint,1,opt"`
	F1 []*X69T2 `protobuf:"bytes,2,rep"`
}

type X69T2 struct {
	F0 string   `protobuf:"bytes,1,opt"`
	F1 *X69T0   `protobuf:"bytes,2,opt"`
	F2 *X69Leaf `protobuf:"bytes,3,opt"`
	F3 *bool    `protobuf:"varint,4,opt"`
	F4 *int16   `protobuf:"varint,5,opt"`
}

type X69Leaf struct {
	F0   int32    `protobuf:"varint,1,opt"`
	Next *X69Leaf `protobuf:"bytes,9,opt"`
}

type X70T0 struct {
	F0 []*X70Leaf       `protobuf:"bytes,1,rep"`
	F1 uint64           `protobuf:"fixed64,2,opt"`
	F2 map[int32]*X70T1 `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	F3 uint64           `protobuf:"fixed64,4,opt"`
	F4 *X70T1           `protobuf:"bytes,5,opt"`
}

type X70T1 struct {
	F0 func()   `protobuf:"bytes,1,opt"`
	F1 *X70T0   `protobuf:"bytes,2,opt"`
	F2 *X70Leaf `protobuf:"bytes,3,opt"`
}

type X70Leaf struct {
	F0   *bool    `protobuf:"varint,1,opt"`
	Next *X70Leaf `protobuf:"bytes,9,opt"`
}

type X71T0 struct {
	F0 []int64  `protobuf:"zigzag64,1,rep"`
	F1 *X71Leaf `protobuf:"bytes,2,opt"`
	F2 []*X71T1 `protobuf:"bytes,3,rep"`
}

type X71T1 struct {
	F0 *X71T2   `protobuf:"bytes,1,opt"`
	F1 *X71Leaf `protobuf:"bytes,2,opt"`
}

type X71T2 struct {
	F0 []byte   `protobuf:"bytes,1,opt"`
	F1 *X71Leaf `protobuf:"bytes,2,opt"`
	F2 *X71T0   `protobuf:"bytes,3,opt"`
	F3 []int    `protobuf:"varint,4,rep"`
}

type X71Leaf struct {
	F0   string   `protobuf:"bytes,1,opt"`
	F1   *bool    `protobuf:"varint,2,opt"`
	Next *X71Leaf `protobuf:"bytes,9,opt"`
}

// Broken lists the families. Every one of Types leads to the field that is not supported, Leaf does not.
var Broken = []struct {
	Leaf  reflect.Type
	Types []reflect.Type
}{
	{Leaf: reflect.TypeOf(X0Leaf{}), Types: []reflect.Type{reflect.TypeOf(X0T0{}), reflect.TypeOf(X0T1{})}},
	{Leaf: reflect.TypeOf(X1Leaf{}), Types: []reflect.Type{reflect.TypeOf(X1T0{}), reflect.TypeOf(X1T1{})}},
	{Leaf: reflect.TypeOf(X2Leaf{}), Types: []reflect.Type{reflect.TypeOf(X2T0{}), reflect.TypeOf(X2T1{}), reflect.TypeOf(X2T2{})}},
	{Leaf: reflect.TypeOf(X3Leaf{}), Types: []reflect.Type{reflect.TypeOf(X3T0{}), reflect.TypeOf(X3T1{}), reflect.TypeOf(X3T2{})}},
	{Leaf: reflect.TypeOf(X4Leaf{}), Types: []reflect.Type{reflect.TypeOf(X4T0{}), reflect.TypeOf(X4T1{})}},
	{Leaf: reflect.TypeOf(X5Leaf{}), Types: []reflect.Type{reflect.TypeOf(X5T0{}), reflect.TypeOf(X5T1{}), reflect.TypeOf(X5T2{}), reflect.TypeOf(X5T3{})}},
	{Leaf: reflect.TypeOf(X6Leaf{}), Types: []reflect.Type{reflect.TypeOf(X6T0{}), reflect.TypeOf(X6T1{})}},
	{Leaf: reflect.TypeOf(X7Leaf{}), Types: []reflect.Type{reflect.TypeOf(X7T0{}), reflect.TypeOf(X7T1{})}},
	{Leaf: reflect.TypeOf(X8Leaf{}), Types: []reflect.Type{reflect.TypeOf(X8T0{}), reflect.TypeOf(X8T1{}), reflect.TypeOf(X8T2{}), reflect.TypeOf(X8T3{})}},
	{Leaf: reflect.TypeOf(X9Leaf{}), Types: []reflect.Type{reflect.TypeOf(X9T0{}), reflect.TypeOf(X9T1{}), reflect.TypeOf(X9T2{})}},
	{Leaf: reflect.TypeOf(X10Leaf{}), Types: []reflect.Type{reflect.TypeOf(X10T0{}), reflect.TypeOf(X10T1{})}},
	{Leaf: reflect.TypeOf(X11Leaf{}), Types: []reflect.Type{reflect.TypeOf(X11T0{})}},
	{Leaf: reflect.TypeOf(X12Leaf{}), Types: []reflect.Type{reflect.TypeOf(X12T0{}), reflect.TypeOf(X12T1{}), reflect.TypeOf(X12T2{}), reflect.TypeOf(X12T3{})}},
	{Leaf: reflect.TypeOf(X13Leaf{}), Types: []reflect.Type{reflect.TypeOf(X13T0{}), reflect.TypeOf(X13T1{})}},
	{Leaf: reflect.TypeOf(X14Leaf{}), Types: []reflect.Type{reflect.TypeOf(X14T0{})}},
	{Leaf: reflect.TypeOf(X15Leaf{}), Types: []reflect.Type{reflect.TypeOf(X15T0{}), reflect.TypeOf(X15T1{})}},
	{Leaf: reflect.TypeOf(X16Leaf{}), Types: []reflect.Type{reflect.TypeOf(X16T0{}), reflect.TypeOf(X16T1{}), reflect.TypeOf(X16T2{}), reflect.TypeOf(X16T3{})}},
	{Leaf: reflect.TypeOf(X17Leaf{}), Types: []reflect.Type{reflect.TypeOf(X17T0{}), reflect.TypeOf(X17T1{}), reflect.TypeOf(X17T2{}), reflect.TypeOf(X17T3{})}},
	{Leaf: reflect.TypeOf(X18Leaf{}), Types: []reflect.Type{reflect.TypeOf(X18T0{})}},
	{Leaf: reflect.TypeOf(X19Leaf{}), Types: []reflect.Type{reflect.TypeOf(X19T0{}), reflect.TypeOf(X19T1{}), reflect.TypeOf(X19T2{})}},
	{Leaf: reflect.TypeOf(X20Leaf{}), Types: []reflect.Type{reflect.TypeOf(X20T0{})}},
	{Leaf: reflect.TypeOf(X21Leaf{}), Types: []reflect.Type{reflect.TypeOf(X21T0{}), reflect.TypeOf(X21T1{}), reflect.TypeOf(X21T2{}), reflect.TypeOf(X21T3{})}},
	{Leaf: reflect.TypeOf(X22Leaf{}), Types: []reflect.Type{reflect.TypeOf(X22T0{}), reflect.TypeOf(X22T1{}), reflect.TypeOf(X22T2{})}},
	{Leaf: reflect.TypeOf(X23Leaf{}), Types: []reflect.Type{reflect.TypeOf(X23T0{}), reflect.TypeOf(X23T1{})}},
	{Leaf: reflect.TypeOf(X24Leaf{}), Types: []reflect.Type{reflect.TypeOf(X24T0{}), reflect.TypeOf(X24T1{}), reflect.TypeOf(X24T2{})}},
	{Leaf: reflect.TypeOf(X25Leaf{}), Types: []reflect.Type{reflect.TypeOf(X25T0{})}},
	{Leaf: reflect.TypeOf(X26Leaf{}), Types: []reflect.Type{reflect.TypeOf(X26T0{}), reflect.TypeOf(X26T1{})}},
	{Leaf: reflect.TypeOf(X27Leaf{}), Types: []reflect.Type{reflect.TypeOf(X27T0{})}},
	{Leaf: reflect.TypeOf(X28Leaf{}), Types: []reflect.Type{reflect.TypeOf(X28T0{}), reflect.TypeOf(X28T1{}), reflect.TypeOf(X28T2{})}},
	{Leaf: reflect.TypeOf(X29Leaf{}), Types: []reflect.Type{reflect.TypeOf(X29T0{})}},
	{Leaf: reflect.TypeOf(X30Leaf{}), Types: []reflect.Type{reflect.TypeOf(X30T0{}), reflect.TypeOf(X30T1{}), reflect.TypeOf(X30T2{}), reflect.TypeOf(X30T3{})}},
	{Leaf: reflect.TypeOf(X31Leaf{}), Types: []reflect.Type{reflect.TypeOf(X31T0{}), reflect.TypeOf(X31T1{}), reflect.TypeOf(X31T2{})}},
	{Leaf: reflect.TypeOf(X32Leaf{}), Types: []reflect.Type{reflect.TypeOf(X32T0{}), reflect.TypeOf(X32T1{}), reflect.TypeOf(X32T2{})}},
	{Leaf: reflect.TypeOf(X33Leaf{}), Types: []reflect.Type{reflect.TypeOf(X33T0{}), reflect.TypeOf(X33T1{}), reflect.TypeOf(X33T2{}), reflect.TypeOf(X33T3{})}},
	{Leaf: reflect.TypeOf(X34Leaf{}), Types: []reflect.Type{reflect.TypeOf(X34T0{}), reflect.TypeOf(X34T1{})}},
	{Leaf: reflect.TypeOf(X35Leaf{}), Types: []reflect.Type{reflect.TypeOf(X35T0{}), reflect.TypeOf(X35T1{}), reflect.TypeOf(X35T2{})}},
	{Leaf: reflect.TypeOf(X36Leaf{}), Types: []reflect.Type{reflect.TypeOf(X36T0{}), reflect.TypeOf(X36T1{})}},
	{Leaf: reflect.TypeOf(X37Leaf{}), Types: []reflect.Type{reflect.TypeOf(X37T0{}), reflect.TypeOf(X37T1{}), reflect.TypeOf(X37T2{})}},
	{Leaf: reflect.TypeOf(X38Leaf{}), Types: []reflect.Type{reflect.TypeOf(X38T0{}), reflect.TypeOf(X38T1{}), reflect.TypeOf(X38T2{})}},
	{Leaf: reflect.TypeOf(X39Leaf{}), Types: []reflect.Type{reflect.TypeOf(X39T0{}), reflect.TypeOf(X39T1{}), reflect.TypeOf(X39T2{})}},
	{Leaf: reflect.TypeOf(X40Leaf{}), Types: []reflect.Type{reflect.TypeOf(X40T0{}), reflect.TypeOf(X40T1{}), reflect.TypeOf(X40T2{})}},
	{Leaf: reflect.TypeOf(X41Leaf{}), Types: []reflect.Type{reflect.TypeOf(X41T0{}), reflect.TypeOf(X41T1{}), reflect.TypeOf(X41T2{})}},
	{Leaf: reflect.TypeOf(X42Leaf{}), Types: []reflect.Type{reflect.TypeOf(X42T0{})}},
	{Leaf: reflect.TypeOf(X43Leaf{}), Types: []reflect.Type{reflect.TypeOf(X43T0{}), reflect.TypeOf(X43T1{})}},
	{Leaf: reflect.TypeOf(X44Leaf{}), Types: []reflect.Type{reflect.TypeOf(X44T0{}), reflect.TypeOf(X44T1{}), reflect.TypeOf(X44T2{}), reflect.TypeOf(X44T3{})}},
	{Leaf: reflect.TypeOf(X45Leaf{}), Types: []reflect.Type{reflect.TypeOf(X45T0{})}},
	{Leaf: reflect.TypeOf(X46Leaf{}), Types: []reflect.Type{reflect.TypeOf(X46T0{}), reflect.TypeOf(X46T1{}), reflect.TypeOf(X46T2{})}},
	{Leaf: reflect.TypeOf(X47Leaf{}), Types: []reflect.Type{reflect.TypeOf(X47T0{})}},
	{Leaf: reflect.TypeOf(X48Leaf{}), Types: []reflect.Type{reflect.TypeOf(X48T0{}), reflect.TypeOf(X48T1{})}},
	{Leaf: reflect.TypeOf(X49Leaf{}), Types: []reflect.Type{reflect.TypeOf(X49T0{})}},
	{Leaf: reflect.TypeOf(X50Leaf{}), Types: []reflect.Type{reflect.TypeOf(X50T0{}), reflect.TypeOf(X50T1{})}},
	{Leaf: reflect.TypeOf(X51Leaf{}), Types: []reflect.Type{reflect.TypeOf(X51T0{}), reflect.TypeOf(X51T1{}), reflect.TypeOf(X51T2{})}},
	{Leaf: reflect.TypeOf(X52Leaf{}), Types: []reflect.Type{reflect.TypeOf(X52T0{}), reflect.TypeOf(X52T1{})}},
	{Leaf: reflect.TypeOf(X53Leaf{}), Types: []reflect.Type{reflect.TypeOf(X53T0{}), reflect.TypeOf(X53T1{}), reflect.TypeOf(X53T2{})}},
	{Leaf: reflect.TypeOf(X54Leaf{}), Types: []reflect.Type{reflect.TypeOf(X54T0{}), reflect.TypeOf(X54T1{})}},
	{Leaf: reflect.TypeOf(X55Leaf{}), Types: []reflect.Type{reflect.TypeOf(X55T0{}), reflect.TypeOf(X55T1{})}},
	{Leaf: reflect.TypeOf(X56Leaf{}), Types: []reflect.Type{reflect.TypeOf(X56T0{}), reflect.TypeOf(X56T1{}), reflect.TypeOf(X56T2{}), reflect.TypeOf(X56T3{})}},
	{Leaf: reflect.TypeOf(X57Leaf{}), Types: []reflect.Type{reflect.TypeOf(X57T0{})}},
	{Leaf: reflect.TypeOf(X58Leaf{}), Types: []reflect.Type{reflect.TypeOf(X58T0{}), reflect.TypeOf(X58T1{})}},
	{Leaf: reflect.TypeOf(X59Leaf{}), Types: []reflect.Type{reflect.TypeOf(X59T0{}), reflect.TypeOf(X59T1{}), reflect.TypeOf(X59T2{})}},
	{Leaf: reflect.TypeOf(X60Leaf{}), Types: []reflect.Type{reflect.TypeOf(X60T0{}), reflect.TypeOf(X60T1{}), reflect.TypeOf(X60T2{})}},
	{Leaf: reflect.TypeOf(X61Leaf{}), Types: []reflect.Type{reflect.TypeOf(X61T0{}), reflect.TypeOf(X61T1{})}},
	{Leaf: reflect.TypeOf(X62Leaf{}), Types: []reflect.Type{reflect.TypeOf(X62T0{}), reflect.TypeOf(X62T1{})}},
	{Leaf: reflect.TypeOf(X63Leaf{}), Types: []reflect.Type{reflect.TypeOf(X63T0{}), reflect.TypeOf(X63T1{})}},
	{Leaf: reflect.TypeOf(X64Leaf{}), Types: []reflect.Type{reflect.TypeOf(X64T0{}), reflect.TypeOf(X64T1{}), reflect.TypeOf(X64T2{})}},
	{Leaf: reflect.TypeOf(X65Leaf{}), Types: []reflect.Type{reflect.TypeOf(X65T0{}), reflect.TypeOf(X65T1{}), reflect.TypeOf(X65T2{})}},
	{Leaf: reflect.TypeOf(X66Leaf{}), Types: []reflect.Type{reflect.TypeOf(X66T0{}), reflect.TypeOf(X66T1{}), reflect.TypeOf(X66T2{}), reflect.TypeOf(X66T3{})}},
	{Leaf: reflect.TypeOf(X67Leaf{}), Types: []reflect.Type{reflect.TypeOf(X67T0{}), reflect.TypeOf(X67T1{}), reflect.TypeOf(X67T2{})}},
	{Leaf: reflect.TypeOf(X68Leaf{}), Types: []reflect.Type{reflect.TypeOf(X68T0{}), reflect.TypeOf(X68T1{})}},
	{Leaf: reflect.TypeOf(X69Leaf{}), Types: []reflect.Type{reflect.TypeOf(X69T0{}), reflect.TypeOf(X69T1{}), reflect.TypeOf(X69T2{})}},
	{Leaf: reflect.TypeOf(X70Leaf{}), Types: []reflect.Type{reflect.TypeOf(X70T0{}), reflect.TypeOf(X70T1{})}},
	{Leaf: reflect.TypeOf(X71Leaf{}), Types: []reflect.Type{reflect.TypeOf(X71T0{}), reflect.TypeOf(X71T1{}), reflect.TypeOf(X71T2{})}},
}
