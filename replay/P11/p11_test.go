//pkg: xirc
package xirc

import (
	"fmt"
	"math/rand"
	"testing"
)

func verifFold(kind string, b byte) byte {
	if b >= 'A' && b <= 'Z' {
		return b + 32
	}
	if kind == "ascii" {
		return b
	}
	switch b {
	case '{':
		return '['
	case '}':
		return ']'
	case '\\':
		return '|'
	case '~':
		if kind == "rfc1459" {
			return '^'
		}
	}
	return b
}

func verifRandName(r *rand.Rand) string {
	const cs = "aAbBzZ@[`{}|\\~^]_#0\x00\xff"
	n := r.Intn(6)
	b := make([]byte, n)
	for i := range b {
		if r.Intn(3) == 0 {
			b[i] = byte(r.Intn(256))
		} else {
			b[i] = cs[r.Intn(len(cs))]
		}
	}
	return string(b)
}

func TestVerifCaseMappings(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for _, kind := range []string{"ascii", "rfc1459", "rfc1459-strict"} {
		cm := ParseCaseMapping(kind)
		if cm == nil {
			t.Fatalf("FAILING-INPUT ParseCaseMapping(%q) = nil", kind)
		}
		check := func(s string) {
			want := make([]byte, len(s))
			for i := range want {
				want[i] = verifFold(kind, s[i])
			}
			if got := cm(s); got != string(want) {
				t.Fatalf("FAILING-INPUT %s(%q) = %q, want %q", kind, s, got, want)
			}
		}
		for b := 0; b < 256; b++ {
			check(string([]byte{byte(b)}))
			check("x" + string([]byte{byte(b)}) + "Y")
		}
		for i := 0; i < 5000; i++ {
			check(verifRandName(r))
		}
		for n := 0; n < 600; n++ {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte('A' + (i*7)%60)
			}
			check(string(b))
		}
	}
	for _, s := range []string{"", "ASCII", "rfc1459 ", "strict", "rfc7613"} {
		if ParseCaseMapping(s) != nil {
			t.Fatalf("FAILING-INPUT ParseCaseMapping(%q) != nil", s)
		}
	}
}

func TestVerifCaseMappingMap(t *testing.T) {
	kinds := []string{"ascii", "rfc1459", "rfc1459-strict"}
	type ent struct {
		orig string
		val  int
	}
	for seed := int64(0); seed < 3000; seed++ {
		r := rand.New(rand.NewSource(seed))
		cm := ParseCaseMapping(kinds[r.Intn(3)])
		m := NewCaseMappingMap[int](cm)
		model := map[string]ent{}
		log := ""
		for step := 0; step < 30; step++ {
			n := verifRandName(r)
			switch r.Intn(8) {
			case 0, 1, 2:
				m.Set(n, step)
				log += fmt.Sprintf(" Set(%q,%d)", n, step)
				o := n
				if e, ok := model[cm(n)]; ok {
					o = e.orig
				}
				model[cm(n)] = ent{o, step}
			case 3:
				m.Del(n)
				log += fmt.Sprintf(" Del(%q)", n)
				delete(model, cm(n))
			case 4:
				k := kinds[r.Intn(3)]
				nc := ParseCaseMapping(k)
				// remap: colliding entries may keep any one of them
				m.SetCaseMapping(nc)
				log += " SetCaseMapping(" + k + ")"
				cand := map[string]map[ent]bool{}
				for _, e := range model {
					kk := nc(e.orig)
					if cand[kk] == nil {
						cand[kk] = map[ent]bool{}
					}
					cand[kk][e] = true
				}
				if m.Len() != len(cand) {
					t.Fatalf("FAILING-INPUT%s: Len = %d, want %d", log, m.Len(), len(cand))
				}
				nm := map[string]ent{}
				m.ForEach(func(name string, v int) {
					e := ent{name, v}
					if !cand[nc(name)][e] {
						t.Fatalf("FAILING-INPUT%s: unexpected entry %q=%d", log, name, v)
					}
					nm[nc(name)] = e
				})
				model, cm = nm, nc
			}
			if m.Len() != len(model) {
				t.Fatalf("FAILING-INPUT%s: Len = %d, want %d", log, m.Len(), len(model))
			}
			q := verifRandName(r)
			e, ok := model[cm(q)]
			if m.Has(q) != ok || m.Get(q) != e.val {
				t.Fatalf("FAILING-INPUT%s: Get(%q) = %v,%v want %v,%v", log, q, m.Get(q), m.Has(q), e.val, ok)
			}
			seen := map[string]bool{}
			m.ForEach(func(name string, v int) {
				if model[cm(name)] != (ent{name, v}) || seen[cm(name)] {
					t.Fatalf("FAILING-INPUT%s: ForEach gives %q=%d, want %v", log, name, v, model[cm(name)])
				}
				seen[cm(name)] = true
			})
			if len(seen) != len(model) {
				t.Fatalf("FAILING-INPUT%s: ForEach visited %d of %d", log, len(seen), len(model))
			}
		}
	}
}
