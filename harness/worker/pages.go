package main

import (
	"reflect"
	"runtime/debug"
	"syscall"
	"unsafe"

	"verif/vf"
)

// pages is memory of its own, outside the Go heap, that ends at memory nobody may touch
// and can be made read-only. It is filled from the end.
type pages struct {
	mem  []byte
	left int
	keep []any // what is referred to from there only
}

const pageRoom = 1 << 20

var spare []*pages

func newPages() *pages {
	if n := len(spare); n > 0 {
		a := spare[n-1]
		spare = spare[:n-1]
		return a
	}
	mem, err := syscall.Mmap(-1, 0, pageRoom+1<<16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		harness("mmap: %v", err)
	}
	if err := syscall.Mprotect(mem[pageRoom:], syscall.PROT_NONE); err != nil {
		harness("mprotect: %v", err)
	}
	return &pages{mem: mem[:pageRoom:pageRoom], left: pageRoom}
}

// room takes memory of the size, or nil if there is none left.
func (a *pages) room(n, align int) unsafe.Pointer {
	l := (a.left - n) &^ (align - 1)
	if n < 0 || n > a.left || l < 64 {
		return nil
	}
	a.left = l
	return unsafe.Pointer(&a.mem[l:][:1][0])
}

func (a *pages) bytes(b []byte) []byte {
	if len(b) == 0 {
		return b[:0:0]
	}
	p := a.room(len(b), 1)
	if p == nil {
		return nil
	}
	c := unsafe.Slice((*byte)(p), len(b))
	copy(c, b)
	return c
}

// lock makes the memory read-only: writing to it is a fault, as is reading behind it.
func (a *pages) lock() {
	debug.SetPanicOnFault(true)
	if err := syscall.Mprotect(a.mem, syscall.PROT_READ); err != nil {
		harness("mprotect: %v", err)
	}
}

// done gives the memory back.
func (a *pages) done() {
	if err := syscall.Mprotect(a.mem, syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
		harness("mprotect: %v", err)
	}
	for i := a.left; i < len(a.mem); i++ {
		a.mem[i] = 0xdd
	}
	a.left, a.keep = len(a.mem), nil
	spare = append(spare, a)
}

// place copies an input to where it is read-only and nothing follows.
func (a *pages) place(b []byte) []byte {
	if len(b) == 0 || len(b) > pageRoom/2 {
		return b
	}
	in := a.bytes(b)
	a.lock()
	return in
}

// move copies a message with everything in it but its maps to the pages. The copy is not
// valid if there was not enough room.
func (a *pages) move(t *vf.Msg, p reflect.Value) reflect.Value {
	a.keep = append(a.keep, p)
	full := reflect.Value{}
	m := a.room(max(int(t.Go.Size()), 1), max(t.Go.Align(), 8))
	if m == nil {
		return full
	}
	q := reflect.NewAt(t.Go, m)
	q.Elem().Set(p.Elem())
	ok := true
	elem := func(f *vf.Field, d reflect.Value) {
		switch {
		case !ok:
		case f.Kind == vf.Message:
			if !d.IsNil() {
				e := a.move(f.Sub, d)
				if ok = e.IsValid(); ok {
					d.Set(e.Convert(d.Type()))
				}
			}
		case f.Kind == vf.String:
			if s := d.String(); s != "" {
				b := a.bytes([]byte(s))
				if ok = b != nil; ok {
					d.SetString(unsafe.String(&b[0], len(b)))
				}
			}
		case f.Kind == vf.Bytes:
			if d.Len() > 0 {
				b := a.bytes(d.Bytes())
				if ok = b != nil; ok {
					d.SetBytes(b)
				}
			}
		}
	}
	for _, f := range t.Fields {
		d := q.Elem().Field(f.GoIndex)
		switch f.Card {
		case vf.Plain:
			elem(f, d)
		case vf.Ptr:
			if d.IsNil() {
				continue
			}
			et := d.Type().Elem()
			m := a.room(int(et.Size()), 8)
			if m == nil {
				return full
			}
			n := reflect.NewAt(et, m)
			n.Elem().Set(d.Elem())
			elem(f, n.Elem())
			d.Set(n.Convert(d.Type()))
		case vf.Rep:
			n := d.Len()
			if n == 0 {
				continue
			}
			m := a.room(n*int(d.Type().Elem().Size()), 8)
			if m == nil {
				return full
			}
			h := (*struct {
				p        unsafe.Pointer
				len, cap int
			})(d.Addr().UnsafePointer())
			was := reflect.New(d.Type()).Elem()
			was.Set(d)
			h.p, h.len, h.cap = m, n, n
			reflect.Copy(d, was)
			for i := 0; i < n && ok; i++ {
				elem(f, d.Index(i))
			}
		case vf.Map:
			if d.Len() == 0 {
				continue
			}
			n := reflect.MakeMapWithSize(d.Type(), d.Len())
			a.keep = append(a.keep, n.Interface())
			for it := d.MapRange(); it.Next() && ok; {
				x := reflect.New(d.Type().Elem()).Elem()
				x.Set(it.Value())
				elem(f, x)
				n.SetMapIndex(it.Key(), x)
			}
			d.Set(n)
		}
		if !ok {
			return full
		}
	}
	return q
}

// readOnly encodes a message and decodes an input that lie in read-only memory, which shows
// writes that are undone before anybody can compare.
func (c *Ctx) readOnly(t *vf.Msg, v *vf.MVal) {
	a := newPages()
	defer a.done()
	p := c.build(v)
	q := a.move(t, p)
	if !q.IsValid() {
		return
	}
	if d := vf.Diff(v, vf.FromGoVal(t, q)); d != "" {
		harness("the copy outside the heap is another message: %s", d)
	}
	a.lock()
	n := vf.Size(q.Interface())
	b := vf.MustMarshal(q.Interface())
	got, prob := vf.Decode(t, b)
	if prob != nil || n != len(b) {
		c.Fail("a message in read-only memory encodes to garbage: size %d, %d bytes, %v (%s)", n, len(b), prob, hx(b))
	}
	if d := vf.Diff(v, got); d != "" {
		c.Fail("a message in read-only memory is encoded differently: %s (%s)", d, hx(b))
	}
	c.Eval()
	c.Cover("message in read-only memory")

	i := newPages()
	defer i.done()
	x := vf.EncodeVariant(c.R, v, vf.AllForms())
	want := vf.NewM(t)
	mergeBytes(t, want, x)
	in := i.place(x)
	m := vf.New(t)
	if err := vf.Unmarshal(in, m.Interface()); err != nil {
		c.Fail("decoding read-only input failed: %v (%s)", err, hx(x))
	}
	if d := vf.Diff(want, vf.Read(t, m)); d != "" {
		c.Fail("read-only input is decoded differently: %s (%s)", d, hx(x))
	}
	c.Eval()
	c.Cover("input in read-only memory")
}
