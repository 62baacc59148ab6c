//pkg: xirc
package xirc

import (
	"math/rand"
	"testing"
)

// Random histories of rank changes against a set kept in rank order.
func TestVerifMembershipSet(t *testing.T) {
	for seed := int64(0); seed < 4000; seed++ {
		r := rand.New(rand.NewSource(seed))
		all := []Membership{{'q', '~'}, {'a', '&'}, {'o', '@'}, {'h', '%'}, {'v', '+'}, {'y', '!'}, {'o', '!'}, {'x', '@'}}
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		avail := append([]Membership(nil), all[:1+r.Intn(len(all))]...)
		ms := make(MembershipSet, 0, r.Intn(4))
		want := map[Membership]bool{}
		for step := 0; step < 25; step++ {
			m := avail[r.Intn(len(avail))]
			op := "add"
			if r.Intn(3) == 0 {
				op = "remove"
				ms.Remove(m)
				delete(want, m)
			} else {
				ms.Add(avail, m)
				want[m] = true
			}
			var exp []Membership
			for _, a := range avail {
				if want[a] {
					exp = append(exp, a)
				}
			}
			ok := len(exp) == len(ms)
			for i := 0; ok && i < len(ms); i++ {
				ok = ms[i] == exp[i]
			}
			if !ok {
				t.Fatalf("FAILING-INPUT seed %d: ranks %v, after %s %v: got %v, want %v", seed, avail, op, m, ms, exp)
			}
		}
	}
}
