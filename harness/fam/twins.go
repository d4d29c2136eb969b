// Code generated by tools/gen_twins.py. DO NOT EDIT.

package fam

import (
	"reflect"

	"github.com/RomiChan/protobuf/proto"

	two "verif/fam/two/fam"
)

// List and Dict are named containers.
type List[T any] []T
type Dict[K comparable, V any] map[K]V

// Gen has instances that differ in their arguments alone.
type Gen[T, U any] struct {
	A0 T                    `protobuf:"varint,1,opt"`
	A1 []U                  `protobuf:"varint,2,rep"`
	A2 map[string]T         `protobuf:"bytes,3,rep" protobuf_key:"bytes,1,opt" protobuf_val:"varint,2,opt"`
	A3 *Gen[U, T]           `protobuf:"bytes,4,opt"`
	A4 []*Gen[T, U]         `protobuf:"bytes,5,rep"`
	A5 map[int32]*Gen[U, T] `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A6 *U                   `protobuf:"varint,7,opt"`
}

func twins0() []reflect.Type {
	type Leaf struct {
		A0 proto.Option[int32]  `protobuf:"zigzag32,1,opt"`
		A1 proto.Option[uint32] `protobuf:"varint,2,opt"`
		A2 string               `protobuf:"bytes,3,opt"`
	}
	type Node struct {
		A0 map[uint64]uint64   `protobuf:"bytes,1,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
		A1 Dict[uint32, *Leaf] `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
		A2 []*Node             `protobuf:"bytes,3,rep"`
		A3 List[uint64]        `protobuf:"fixed64,4,rep"`
		A4 Dict[bool, *Leaf]   `protobuf:"bytes,5,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	}
	return []reflect.Type{reflect.TypeOf(Leaf{}), reflect.TypeOf(Node{})}
}

func twins1() []reflect.Type {
	type Leaf struct {
		A0 Dict[uint32, bool]  `protobuf:"bytes,1,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
		A1 Dict[uint32, int64] `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
		A2 Dict[int64, uint64] `protobuf:"bytes,3,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed64,2,opt"`
	}
	type Node struct {
		A0 []int64              `protobuf:"varint,1,rep"`
		A1 map[int32]*Leaf      `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
		A2 *Node                `protobuf:"bytes,3,opt"`
		A3 Dict[uint64, uint64] `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
		A4 Dict[uint32, *Leaf]  `protobuf:"bytes,5,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	}
	return []reflect.Type{reflect.TypeOf(Leaf{}), reflect.TypeOf(Node{})}
}

func twins2() []reflect.Type {
	type Leaf struct {
		A0 proto.Option[uint32] `protobuf:"varint,1,opt"`
		A1 int32                `protobuf:"varint,2,opt"`
	}
	type Node struct {
		A0 proto.Option[string] `protobuf:"bytes,1,opt"`
		A1 Dict[uint32, *Leaf]  `protobuf:"bytes,2,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
		A2 Dict[string, *Node]  `protobuf:"bytes,3,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
		A3 uint64               `protobuf:"fixed64,4,opt"`
		A4 *Leaf                `protobuf:"bytes,5,opt"`
	}
	return []reflect.Type{reflect.TypeOf(Leaf{}), reflect.TypeOf(Node{})}
}

func twins3() []reflect.Type {
	type Leaf struct {
		A0 []float32 `protobuf:"fixed32,1,rep"`
		A1 string    `protobuf:"bytes,2,opt"`
	}
	type Node struct {
		A0 *int32               `protobuf:"varint,1,opt"`
		A1 List[*Leaf]          `protobuf:"bytes,2,rep"`
		A2 *Node                `protobuf:"bytes,3,opt"`
		A3 Dict[uint64, []byte] `protobuf:"bytes,4,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
		A4 *Leaf                `protobuf:"bytes,5,opt"`
	}
	return []reflect.Type{reflect.TypeOf(Leaf{}), reflect.TypeOf(Node{})}
}

func twins4() []reflect.Type {
	type Leaf struct {
		A0 List[uint32] `protobuf:"fixed32,1,rep"`
		A1 *float64     `protobuf:"fixed64,2,opt"`
		A2 []int32      `protobuf:"varint,3,rep"`
	}
	type Node struct {
		A0 *[]byte             `protobuf:"bytes,1,opt"`
		A1 *Leaf               `protobuf:"bytes,2,opt"`
		A2 List[*Node]         `protobuf:"bytes,3,rep"`
		A3 *float64            `protobuf:"fixed64,4,opt"`
		A4 Dict[uint64, *Leaf] `protobuf:"bytes,5,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	}
	return []reflect.Type{reflect.TypeOf(Leaf{}), reflect.TypeOf(Node{})}
}

func twins5() []reflect.Type {
	type Leaf struct {
		A0 *uint32           `protobuf:"varint,1,opt"`
		A1 map[string]uint32 `protobuf:"bytes,2,rep" protobuf_key:"bytes,1,opt" protobuf_val:"fixed32,2,opt"`
	}
	type Node struct {
		A0 Dict[int64, int64] `protobuf:"bytes,1,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"varint,2,opt"`
		A1 *Leaf              `protobuf:"bytes,2,opt"`
		A2 *Node              `protobuf:"bytes,3,opt"`
		A3 map[int64]bool     `protobuf:"bytes,4,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
		A4 *Leaf              `protobuf:"bytes,5,opt"`
	}
	return []reflect.Type{reflect.TypeOf(Leaf{}), reflect.TypeOf(Node{})}
}

func twins6() []reflect.Type {
	type Leaf struct {
		A0 map[int32]float64 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
		A1 *uint64           `protobuf:"varint,2,opt"`
		A2 *[]byte           `protobuf:"bytes,3,opt"`
	}
	type Node struct {
		A0 map[bool]float32   `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
		A1 List[*Leaf]        `protobuf:"bytes,2,rep"`
		A2 *Node              `protobuf:"bytes,3,opt"`
		A3 []int64            `protobuf:"varint,4,rep"`
		A4 Dict[int32, *Leaf] `protobuf:"bytes,5,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	}
	return []reflect.Type{reflect.TypeOf(Leaf{}), reflect.TypeOf(Node{})}
}

func twins7() []reflect.Type {
	type Leaf struct {
		A0 map[int32]string `protobuf:"bytes,1,rep" protobuf_key:"zigzag32,1,opt" protobuf_val:"bytes,2,opt"`
	}
	type Node struct {
		A0 Dict[int64, []byte] `protobuf:"bytes,1,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
		A1 Dict[bool, *Leaf]   `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
		A2 *Node               `protobuf:"bytes,3,opt"`
		A3 map[int64]float64   `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
		A4 *Leaf               `protobuf:"bytes,5,opt"`
	}
	return []reflect.Type{reflect.TypeOf(Leaf{}), reflect.TypeOf(Node{})}
}

func twins8() []reflect.Type {
	type Leaf struct {
		A0 uint32 `protobuf:"varint,1,opt"`
	}
	type Node struct {
		A0 map[int32]int64    `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
		A1 List[*Leaf]        `protobuf:"bytes,2,rep"`
		A2 List[*Node]        `protobuf:"bytes,3,rep"`
		A3 Dict[int64, int32] `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
		A4 []*Leaf            `protobuf:"bytes,5,rep"`
	}
	return []reflect.Type{reflect.TypeOf(Leaf{}), reflect.TypeOf(Node{})}
}

func twins9() []reflect.Type {
	type Leaf struct {
		A0 Dict[int32, uint32] `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
		A1 proto.Option[int64] `protobuf:"varint,2,opt"`
		A2 int64               `protobuf:"varint,3,opt"`
	}
	type Node struct {
		A0 Dict[uint32, bool]  `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
		A1 Dict[int64, *Leaf]  `protobuf:"bytes,2,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
		A2 Dict[string, *Node] `protobuf:"bytes,3,rep" protobuf_key:"bytes,1,opt" protobuf_val:"bytes,2,opt"`
		A3 *float32            `protobuf:"fixed32,4,opt"`
		A4 List[*Leaf]         `protobuf:"bytes,5,rep"`
	}
	return []reflect.Type{reflect.TypeOf(Leaf{}), reflect.TypeOf(Node{})}
}

func boxes0() []reflect.Type {
	type L []uint32
	type D map[uint64]uint64
	type Box struct {
		A0 L      `protobuf:"fixed32,1,rep"`
		A1 D      `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
		A2 []*Box `protobuf:"bytes,3,rep"`
	}
	return []reflect.Type{reflect.TypeOf(Box{})}
}

func boxes1() []reflect.Type {
	type L []int32
	type D map[int32]string
	type Box struct {
		A0 L      `protobuf:"fixed32,1,rep"`
		A1 D      `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
		A2 []*Box `protobuf:"bytes,3,rep"`
	}
	return []reflect.Type{reflect.TypeOf(Box{})}
}

func boxes2() []reflect.Type {
	type L []uint32
	type D map[int64]int32
	type Box struct {
		A0 L      `protobuf:"fixed32,1,rep"`
		A1 D      `protobuf:"bytes,2,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"fixed32,2,opt"`
		A2 []*Box `protobuf:"bytes,3,rep"`
	}
	return []reflect.Type{reflect.TypeOf(Box{})}
}

func boxes3() []reflect.Type {
	type L []uint64
	type D map[uint64]uint64
	type Box struct {
		A0 L      `protobuf:"varint,1,rep"`
		A1 D      `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
		A2 []*Box `protobuf:"bytes,3,rep"`
	}
	return []reflect.Type{reflect.TypeOf(Box{})}
}

type F0 struct {
	A0 map[uint32]uint64 `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"varint,2,opt"`
	A1 *F0               `protobuf:"bytes,2,opt"`
	A2 map[int32]int32   `protobuf:"bytes,3,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed32,2,opt"`
	A3 *two.F0           `protobuf:"bytes,4,opt"`
	A4 []*two.F0         `protobuf:"bytes,5,rep"`
	A5 bool              `protobuf:"varint,6,opt"`
}

type F1 struct {
	A0 int64             `protobuf:"fixed64,1,opt"`
	A1 Dict[uint32, *F1] `protobuf:"bytes,2,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A2 int64             `protobuf:"fixed64,3,opt"`
	A3 []*two.F3         `protobuf:"bytes,4,rep"`
	A4 *two.F1           `protobuf:"bytes,5,opt"`
	A5 map[uint64]int64  `protobuf:"bytes,6,rep" protobuf_key:"varint,1,opt" protobuf_val:"fixed64,2,opt"`
}

type F2 struct {
	A0 map[uint64]uint32   `protobuf:"bytes,1,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"fixed32,2,opt"`
	A1 List[*F2]           `protobuf:"bytes,2,rep"`
	A2 Dict[int64, uint32] `protobuf:"bytes,3,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"varint,2,opt"`
	A3 map[uint64]*two.F3  `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A4 *two.F2             `protobuf:"bytes,5,opt"`
	A5 *string             `protobuf:"bytes,6,opt"`
}

type F3 struct {
	A0 []int32              `protobuf:"zigzag32,1,rep"`
	A1 []*F3                `protobuf:"bytes,2,rep"`
	A2 []float64            `protobuf:"fixed64,3,rep"`
	A3 List[*two.F2]        `protobuf:"bytes,4,rep"`
	A4 Dict[int64, *two.F3] `protobuf:"bytes,5,rep" protobuf_key:"zigzag64,1,opt" protobuf_val:"bytes,2,opt"`
	A5 *uint64              `protobuf:"fixed64,6,opt"`
}

type F4 struct {
	A0 Dict[uint64, int64] `protobuf:"bytes,1,rep" protobuf_key:"varint,1,opt" protobuf_val:"zigzag64,2,opt"`
	A1 List[*F4]           `protobuf:"bytes,2,rep"`
	A2 *float32            `protobuf:"fixed32,3,opt"`
	A3 map[int32]*two.F5   `protobuf:"bytes,4,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A4 map[int64]*two.F4   `protobuf:"bytes,5,rep" protobuf_key:"fixed64,1,opt" protobuf_val:"bytes,2,opt"`
	A5 proto.Option[int32] `protobuf:"varint,6,opt"`
}

type F5 struct {
	A0 []int64              `protobuf:"varint,1,rep"`
	A1 *F5                  `protobuf:"bytes,2,opt"`
	A2 Dict[int32, uint32]  `protobuf:"bytes,3,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"varint,2,opt"`
	A3 Dict[int32, *two.F4] `protobuf:"bytes,4,rep" protobuf_key:"fixed32,1,opt" protobuf_val:"bytes,2,opt"`
	A4 Dict[bool, *two.F5]  `protobuf:"bytes,5,rep" protobuf_key:"varint,1,opt" protobuf_val:"bytes,2,opt"`
	A5 uint64               `protobuf:"fixed64,6,opt"`
}

// Twins lists them, the ones that look alike next to each other.
var Twins = []reflect.Type{
	reflect.TypeOf(Gen[bool, int32]{}),
	reflect.TypeOf(Gen[int32, bool]{}),
	reflect.TypeOf(Gen[int64, uint32]{}),
	reflect.TypeOf(Gen[uint32, uint64]{}),
	reflect.TypeOf(Gen[int32, int32]{}),
	reflect.TypeOf(Gen[uint64, bool]{}),
	reflect.TypeOf(Gen[uint64, int64]{}),
	reflect.TypeOf(F0{}), reflect.TypeOf(two.F0{}),
	reflect.TypeOf(F1{}), reflect.TypeOf(two.F1{}),
	reflect.TypeOf(F2{}), reflect.TypeOf(two.F2{}),
	reflect.TypeOf(F3{}), reflect.TypeOf(two.F3{}),
	reflect.TypeOf(F4{}), reflect.TypeOf(two.F4{}),
	reflect.TypeOf(F5{}), reflect.TypeOf(two.F5{}),
}

func init() {
	Twins = append(Twins, twins0()...)
	Twins = append(Twins, twins1()...)
	Twins = append(Twins, twins2()...)
	Twins = append(Twins, twins3()...)
	Twins = append(Twins, twins4()...)
	Twins = append(Twins, twins5()...)
	Twins = append(Twins, twins6()...)
	Twins = append(Twins, twins7()...)
	Twins = append(Twins, twins8()...)
	Twins = append(Twins, twins9()...)
	Twins = append(Twins, boxes0()...)
	Twins = append(Twins, boxes1()...)
	Twins = append(Twins, boxes2()...)
	Twins = append(Twins, boxes3()...)
}
