package vf

import (
	"math/rand"
	"reflect"
)

// Decorate changes how a Go message represents its value without changing the
// value: empty instead of nil lists and maps, nil instead of empty byte strings
// inside lists and maps, spare capacity full of left-overs, maps that once were
// bigger.
func Decorate(r *rand.Rand, t *Msg, p reflect.Value) {
	s := p.Elem()
	for _, f := range t.Fields {
		d := s.Field(f.GoIndex)
		switch f.Card {
		case Rep:
			if f.Kind == Message {
				for i := 0; i < d.Len(); i++ {
					if !d.Index(i).IsNil() {
						Decorate(r, f.Sub, d.Index(i))
					}
				}
			}
			if f.Kind == Bytes {
				for i := 0; i < d.Len(); i++ {
					if d.Index(i).Len() == 0 && r.Intn(2) == 0 {
						d.Index(i).SetBytes(nil)
					}
				}
			}
			if d.Len() == 0 {
				switch r.Intn(3) {
				case 0:
					d.Set(reflect.MakeSlice(d.Type(), 0, 0))
				case 1:
					d.Set(Spare(r, f, d, 1+r.Intn(5)))
				}
			} else if r.Intn(3) == 0 {
				d.Set(Spare(r, f, d, 1+r.Intn(12)))
			}
		case Map:
			if f.Kind == Message && d.Len() > 0 {
				seed := r.Int63() // the iteration order must not matter
				for it := d.MapRange(); it.Next(); {
					if !it.Value().IsNil() {
						Decorate(rand.New(rand.NewSource(seed)), f.Sub, it.Value())
					}
				}
			}
			if f.Kind == Bytes {
				for _, k := range d.MapKeys() {
					if d.MapIndex(k).Len() == 0 && r.Intn(2) == 0 {
						d.SetMapIndex(k, reflect.Zero(d.Type().Elem()))
					}
				}
			}
			if r.Intn(3) == 0 {
				if d.IsNil() {
					d.Set(reflect.MakeMapWithSize(d.Type(), r.Intn(20)))
				}
				if r.Intn(2) == 0 { // grow and shrink
					n := 1 + r.Intn(40)
					for i := 0; i < n; i++ {
						k := reflect.New(d.Type().Key()).Elem()
						setScalar(k, f.Key, junkVal(r, f.Key))
						if d.MapIndex(k).IsValid() {
							continue
						}
						d.SetMapIndex(k, reflect.Zero(d.Type().Elem()))
						d.SetMapIndex(k, reflect.Value{})
					}
				}
			}
		case Plain:
			if f.Kind == Message && !d.IsNil() {
				Decorate(r, f.Sub, d)
			}
			if f.Kind == Bytes && !d.IsNil() && r.Intn(3) == 0 {
				b := d.Bytes()
				n := append(make([]byte, 0, len(b)+9), b...)
				copy(n[len(n):cap(n)], "left over")
				d.SetBytes(n)
			}
		}
	}
}

func junkVal(r *rand.Rand, k Kind) Val {
	b := 10
	return GenVal(r, k, nil, &ValOpt{MaxStr: 10, Budget: &b})
}

// Spare returns a copy of list d with extra capacity whose hidden elements hold
// recognisable left-overs.
func Spare(r *rand.Rand, f *Field, d reflect.Value, extra int) reflect.Value {
	n := reflect.MakeSlice(d.Type(), d.Len()+extra, d.Len()+extra)
	reflect.Copy(n, d)
	for i := d.Len(); i < n.Len(); i++ {
		if f.Kind == Message {
			b := 12
			m := GenM(r, f.Sub, &ValOpt{MaxList: 3, MaxStr: 8, Fill: 80, Budget: &b, MaxDepth: 2})
			n.Index(i).Set(m.ToGo())
		} else {
			v := junkVal(r, f.Kind)
			if f.Kind == Bytes || f.Kind == String {
				v.S = "left over"
			}
			setScalar(n.Index(i), f.Kind, v)
		}
	}
	return n.Slice(0, d.Len())
}

// Gaps makes some of the empty messages in lists and maps nil, and tells how many.
func Gaps(r *rand.Rand, t *Msg, p reflect.Value) int {
	n := 0
	gap := func(f *Field, e reflect.Value) bool {
		if FromGoVal(f.Sub, e).Empty() {
			return r.Intn(3) > 0
		}
		n += Gaps(r, f.Sub, e)
		return false
	}
	s := p.Elem()
	for _, f := range t.Fields {
		d := s.Field(f.GoIndex)
		switch {
		case f.Kind != Message:
		case f.Card == Rep:
			for i := 0; i < d.Len(); i++ {
				if gap(f, d.Index(i)) {
					d.Index(i).Set(reflect.Zero(d.Type().Elem()))
					n++
				}
			}
		case f.Card == Map:
			for _, k := range d.MapKeys() {
				if gap(f, d.MapIndex(k)) {
					d.SetMapIndex(k, reflect.Zero(d.Type().Elem()))
					n++
				}
			}
		case !d.IsNil():
			n += Gaps(r, f.Sub, d)
		}
	}
	return n
}
