package main

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"syscall"
	"unsafe"

	"verif/fam"
	"verif/vf"
)

func init() {
	props["C19"] = prop{run: c19}
}

// threadNanos is the processor time of this thread.
func threadNanos() int64 {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&ts)), 0) // CLOCK_THREAD_CPUTIME_ID
	return ts.Nano()
}

// cost measures one call.
func cost(f func()) (cpu int64, alloc uint64) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	a0, t0 := totalAlloc(), threadNanos()
	f()
	return threadNanos() - t0, totalAlloc() - a0
}

// work counts what has to be looked at: every field and element of every message, once for each level it is nested in,
// and the bytes to copy.
func work(m *vf.MVal, depth int) (steps, maps, depths int) {
	one := func(f *vf.Field, v vf.Val) {
		if f.Kind == vf.Message {
			if v.M != nil {
				s, m, d := work(v.M, depth+1)
				steps += s
				maps += m
				if d > depths {
					depths = d
				}
			}
			return
		}
		steps += depth + len(v.S)/64
	}
	depths = depth
	for i, f := range m.T.Fields {
		x := &m.F[i]
		steps += depth
		switch f.Card {
		case vf.Rep:
			steps += len(x.L) * depth
			for _, e := range x.L {
				one(f, e)
			}
		case vf.Map:
			steps += 4 * len(x.KV) * depth
			maps += depth
			for _, e := range x.KV {
				steps += depth + len(e.K.S)/64
				one(f, e.V)
			}
		default:
			if x.Set || !f.Explicit() {
				one(f, x.V)
			}
		}
	}
	return steps, maps, depths
}

// chain is a value nested deeply through random edges of Rec, with so many bytes at the bottom.
func (c *Ctx) chain(levels, leaf int) *vf.MVal {
	t := fromGo(reflect.TypeOf(fam.Rec{}))
	var m *vf.MVal
	for i := 0; i < levels; i++ {
		o := vf.NewM(t)
		for j, f := range t.Fields {
			x := &o.F[j]
			switch f.GoIndex {
			case 0:
				x.V.U = uint64(c.R.Intn(100))
				x.Set = x.V.U != 0
			case 4:
				if i == 0 {
					x.V.S = string(make([]byte, leaf))
					x.Set = true
				} else if c.Chance(20) {
					x.V.S = "payload"
					x.Set = true
				}
			}
		}
		if m != nil {
			switch e := []int{1, 1, 2, 3}[c.R.Intn(4)]; e {
			case 1:
				o.F[e] = vf.FVal{Set: true, V: vf.Val{M: m}}
			case 2:
				o.F[e].L = []vf.Val{{M: m}}
			case 3:
				o.F[e].KV = []vf.KV{{K: vf.Val{S: "k"}, V: vf.Val{M: m}}}
			}
		}
		m = o
	}
	return m
}

// wide is a value of a type with thousands of fields.
func (c *Ctx) wide(n int) *vf.MVal {
	fields := make([]*vf.Field, n)
	sub := vf.NewMsg(c.R, "In", []*vf.Field{{Num: 1, Kind: vf.Int32}, {Num: 2, Kind: vf.Bytes}}, false)
	cards := []vf.Card{vf.Plain, vf.Plain, vf.Opt, vf.Rep}
	for i := range fields {
		f := &vf.Field{Num: int32(i + 1), Kind: vf.Kind(c.R.Intn(int(vf.Bytes))), Card: cards[c.R.Intn(len(cards))]}
		if i%97 == 0 {
			f.Kind, f.Sub = vf.Message, sub
			if f.Card == vf.Opt {
				f.Card = vf.Plain
			}
		}
		fields[i] = f
	}
	t := vf.NewMsg(c.R, "Wide", fields, false)
	b := n
	return vf.GenM(c.R, t, &vf.ValOpt{MaxList: 3, MaxStr: 9, Fill: []int{5, 50, 95}[c.R.Intn(3)], Budget: &b, MaxDepth: 3})
}

// c19 watches what sizing and encoding cost.
func c19(c *Ctx) {
	var v *vf.MVal
	switch k := c.Case % 8; k {
	case 0, 1:
		n := []int{30, 40, 60, 200, 900}[c.R.Intn(5)]
		leaf := 7
		if c.Chance(40) {
			leaf = 1 << uint(10+c.R.Intn(11))
			c.Cover("value:large leaf")
		}
		v = c.chain(n, leaf)
		c.Cover(fmt.Sprintf("nesting:%d", n))
	case 2, 3:
		t := c.normalType()
		v = c.value(t)
		c.Cover("value:usual")
	case 4:
		if c.Case%160 == 4 {
			n := 2000 << c.R.Intn(4)
			v = c.wide(n)
			c.Cover(fmt.Sprintf("type:%d fields", n))
			break
		}
		t := c.normalType()
		o := vf.DefaultVal(c.R)
		o.MaxDepth, *o.Budget, o.Fill = 40, 3000, 90
		v = vf.GenM(c.R, t, o)
		c.Cover("value:deep")
	default:
		t := c.normalType()
		v = c.value(t)
		elems, size := 60000, 4<<20
		if c.Tier == "thorough" && c.Chance(20) {
			elems, size = 1000000, 64<<20
		}
		if what := vf.Giant(c.R, v, elems, size); what != "" {
			c.Cover("value:giant " + what[:4])
			c.Trace("giant: %s", what)
		}
	}
	p := c.build(v)
	steps, maps, depth := work(v, 1)
	// first uses are over
	vf.MustMarshal(vf.New(v.T).Interface())
	for _, m := range v.T.All() {
		vf.MustMarshal(vf.New(m).Interface())
	}
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	var n int
	var b []byte
	var cpuS, cpuM int64
	var allocS, allocM uint64
	what := fmt.Sprintf("%d steps, nesting %d", steps, depth)
	budget := int64(30e6) + int64(steps)*1000
	for try := 0; ; try++ {
		cpuS, allocS = cost(func() { n = vf.Size(p.Interface()) })
		cpuM, allocM = cost(func() { b = vf.MustMarshal(p.Interface()) })
		if cpuS <= budget && cpuM <= budget || try == 2 {
			break
		}
	}
	runtime.GC()
	if len(b) != n {
		c.Fail("Size is %d, the encoding has %d bytes", n, len(b))
	}
	if cpuS > budget {
		c.Fail("sizing %d bytes (%s) took %d ms, allowance %d ms", n, what, cpuS/1e6, budget/1e6)
	}
	c.Eval()
	if cpuM > budget {
		c.Fail("encoding %d bytes (%s) took %d ms, allowance %d ms", n, what, cpuM/1e6, budget/1e6)
	}
	c.Eval()
	free := uint64(32<<10 + 1024*maps + 64*steps)
	if allocS > free {
		c.Fail("sizing %d bytes (%s) allocated %d bytes, allowance %d", n, what, allocS, free)
	}
	if allocM > free+8*uint64(len(b)) {
		c.Fail("encoding %d bytes (%s) allocated %d bytes, allowance %d", n, what, allocM, free+8*uint64(len(b)))
	}
	c.Eval()
	if len(b) < 4096 {
		// the first calls for a type may prepare something, others not
		const rounds = 64
		again := func(what string, bound uint64, f func()) {
			_, al := cost(func() {
				for i := 0; i < rounds; i++ {
					f()
				}
			})
			if al/rounds > bound {
				c.Fail("%s %d bytes allocates %d bytes each time, allowance %d", what, n, al/rounds, bound)
			}
			c.Eval()
		}
		again("sizing", 512+512*uint64(maps), func() { vf.Size(p.Interface()) })
		again("encoding", 512+512*uint64(maps)+4*uint64(len(b)), func() { vf.MustMarshal(p.Interface()) })
		c.Cover("repeated calls")
	}
	if !v.Empty() {
		c.Nontrivial(v.T.String(), v.String())
	}
	c.Sample("%s: size %d us, %d bytes allocated; encode %d us, %d bytes allocated for %d", what, cpuS/1000, allocS, cpuM/1000, allocM, n)
}
