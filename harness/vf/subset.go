package vf

import (
	"fmt"
	"math/rand"
)

// Subset makes an older version of a type: some fields are missing, at every level;
// shared types stay shared. Recursive types cannot be rebuilt, so they are kept whole.
func Subset(r *rand.Rand, t *Msg, _ map[[2]any]bool) *Msg {
	rec := recursive(t)
	made := map[*Msg]*Msg{}
	var walk func(m *Msg, top bool) *Msg
	walk = func(m *Msg, top bool) *Msg {
		if rec[m] && !top {
			return m
		}
		if n := made[m]; n != nil {
			return n
		}
		var fs []*Field
		drop := []int{10, 40, 80}[r.Intn(3)]
		for _, f := range m.Fields {
			if r.Intn(100) < drop {
				continue
			}
			g := &Field{Num: f.Num, Kind: f.Kind, Card: f.Card, Key: f.Key}
			if f.Sub != nil {
				g.Sub = walk(f.Sub, false)
			}
			fs = append(fs, g)
		}
		r.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
		n := NewMsg(r, fmt.Sprintf("Old%s", m.Name), fs, r.Intn(2) == 0)
		made[m] = n
		return n
	}
	return walk(t, true)
}

// recursive gives the types that can reach themselves.
func recursive(t *Msg) map[*Msg]bool {
	out := map[*Msg]bool{}
	for _, m := range t.All() {
		for _, f := range m.Fields {
			if f.Sub == nil {
				continue
			}
			for _, n := range f.Sub.All() {
				if n == m {
					out[m] = true
				}
			}
		}
	}
	return out
}

// Project restricts a value to the fields of an older version of its type.
func Project(v *MVal, old *Msg) *MVal {
	if v.T == old {
		return v
	}
	m := NewM(old)
	for i, f := range old.Fields {
		s := &v.F[v.T.Index(f.Num)]
		d := &m.F[i]
		pv := func(x Val) Val {
			if x.M != nil {
				x.M = Project(x.M, f.Sub)
			}
			return x
		}
		d.Set, d.V = s.Set, pv(s.V)
		for _, e := range s.L {
			d.L = append(d.L, pv(e))
		}
		for _, e := range s.KV {
			d.KV = append(d.KV, KV{e.K, pv(e.V)})
		}
	}
	return m
}
