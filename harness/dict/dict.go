// Package dict knows the constants of the code under test, as hints for the generators.
package dict

import (
	"encoding/json"
	"math/rand"
	"os"
)

// The constants of the code under test, as hints; see driver/dictionary.py. Those that
// are new come up more often. No verdict depends on them.
type Dict struct {
	Ints       []uint64 `json:"ints"`
	Strings    []string `json:"strings"`
	NewInts    []uint64 `json:"new_ints"`
	NewStrings []string `json:"new_strings"`
}

// What the two parts of the code have.
var Runtime, Generator Dict

func init() {
	path := os.Getenv("VERIF_DICT")
	if path == "" {
		return
	}
	raw, err := os.ReadFile(path)
	var d struct{ Runtime, Generator Dict }
	if err == nil && json.Unmarshal(raw, &d) == nil {
		Runtime, Generator = d.Runtime, d.Generator
	}
}

// Int draws a number, or one next to it, from lo to hi; one time in n there is one, if
// there are new ones, otherwise much less often.
func (d *Dict) Int(r *rand.Rand, n int, lo, hi uint64) (uint64, bool) {
	from := d.NewInts
	if len(from) == 0 || r.Intn(8) == 0 {
		n *= 8
		from = d.Ints
	}
	if len(from) == 0 || r.Intn(n) > 0 {
		return 0, false
	}
	for try := 0; try < 5; try++ {
		u := from[r.Intn(len(from))]
		switch r.Intn(10) {
		case 0, 1:
			u--
		case 2, 3, 4:
			u++
		case 5:
			u -= 2
		case 6:
			u += 2
		}
		if u >= lo && u <= hi {
			return u, true
		}
	}
	return 0, false
}

// Count is Int for what is counted.
func (d *Dict) Count(r *rand.Rand, n, lo, hi int) (int, bool) {
	u, ok := d.Int(r, n, uint64(lo), uint64(hi))
	return int(u), ok
}

// String draws a text, one time in n, or less often.
func (d *Dict) String(r *rand.Rand, n int) (string, bool) {
	from := d.NewStrings
	if len(from) == 0 || r.Intn(8) == 0 {
		n *= 8
		from = d.Strings
	}
	if len(from) == 0 || r.Intn(n) > 0 {
		return "", false
	}
	return from[r.Intn(len(from))], true
}
