//pkg: .
package soju

import (
	"math/rand"
	"strings"
	"testing"

	"codeberg.org/emersion/soju/xirc"
)

func TestVerifUserModes(t *testing.T) {
	for seed := int64(0); seed < 3000; seed++ {
		r := rand.New(rand.NewSource(seed))
		var ms userModes
		want := map[byte]bool{}
		for step := 0; step < 30; step++ {
			c := "iwxoszB"[r.Intn(7)]
			if r.Intn(2) == 0 {
				ms.Add(c)
				want[c] = true
			} else {
				ms.Del(c)
				delete(want, c)
			}
			if len(ms) != len(want) {
				t.Fatalf("FAILING-INPUT seed %d step %d: modes %q, want the set %v", seed, step, ms, want)
			}
			for c := byte(1); c < 128; c++ {
				if ms.Has(c) != want[c] || want[c] != (strings.Count(string(ms), string(rune(c))) == 1) {
					t.Fatalf("FAILING-INPUT seed %d step %d: modes %q, want the set %v", seed, step, ms, want)
				}
			}
		}
	}
}

func TestVerifMemberPrefix(t *testing.T) {
	for seed := int64(0); seed < 5000; seed++ {
		r := rand.New(rand.NewSource(seed))
		uc := &upstreamConn{}
		for _, m := range stdMemberships {
			if r.Intn(3) > 0 {
				uc.availableMemberships = append(uc.availableMemberships, m)
			}
		}
		var set xirc.MembershipSet
		var prefixes string
		for _, m := range uc.availableMemberships {
			if r.Intn(2) == 0 {
				set = append(set, m)
				prefixes += string(rune(m.Prefix))
			}
		}
		nick := []string{"", "nick", "a@b", "n+"}[r.Intn(4)]
		got, rest := uc.parseMembershipPrefix(prefixes + nick)
		if rest != nick || len(got) != len(set) {
			t.Fatalf("FAILING-INPUT ranks %v, %q parsed as %v and %q", uc.availableMemberships, prefixes+nick, got, rest)
		}
		for i := range set {
			if got[i] != set[i] {
				t.Fatalf("FAILING-INPUT ranks %v, %q parsed as %v and %q", uc.availableMemberships, prefixes+nick, got, rest)
			}
		}
		dc := &downstreamConn{caps: xirc.NewCapRegistry()}
		one := ""
		if prefixes != "" {
			one = prefixes[:1]
		}
		if s := formatMemberPrefix(set, dc); s != one {
			t.Fatalf("FAILING-INPUT %v shown as %q without multi-prefix", set, s)
		}
		dc.caps.SetEnabled("multi-prefix", true)
		if s := formatMemberPrefix(set, dc); s != prefixes {
			t.Fatalf("FAILING-INPUT %v shown as %q with multi-prefix", set, s)
		}
	}
}
