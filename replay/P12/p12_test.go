//pkg: msgstore
package msgstore

import (
	"context"
	"fmt"
	"math/rand"
	"testing"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

func TestVerifMemoryStore(t *testing.T) {
	ctx := context.Background()
	type key struct {
		net int64
		ent string
	}
	for seed := int64(0); seed < 60; seed++ {
		r := rand.New(rand.NewSource(seed))
		ms := NewMemoryStore()
		nets := []*database.Network{{ID: 1}, {ID: 2}, {ID: 12}}
		ents := []string{"a", "b", "2a", ""}
		hist := map[key][]*irc.Message{}
		type mark struct {
			k   key
			id  string
			pos int // number of messages in hist before the mark
		}
		var marks []mark
		big := seed%3 == 0
		for step := 0; step < 300; step++ {
			n := nets[r.Intn(len(nets))]
			k := key{n.ID, ents[r.Intn(len(ents))]}
			if big {
				n, k = nets[0], key{1, "a"}
				if r.Intn(10) == 0 {
					n, k = nets[1], key{2, "a"}
				}
			}
			switch r.Intn(4) {
			case 0, 1:
				cnt := 1
				if big && r.Intn(4) == 0 {
					cnt = []int{4095, 4096, 4097, 10, 1}[r.Intn(5)]
				}
				for i := 0; i < cnt; i++ {
					cmd := "PRIVMSG"
					if r.Intn(5) == 0 {
						cmd = "NOTICE"
					}
					m := &irc.Message{Command: cmd, Params: []string{k.ent, fmt.Sprint(step, i)}}
					id, err := ms.Append(n, k.ent, m)
					if err != nil || id == "" {
						t.Fatalf("FAILING-INPUT seed %d: Append = %q, %v", seed, id, err)
					}
					hist[k] = append(hist[k], m)
					if i == cnt-1 {
						marks = append(marks, mark{k, id, len(hist[k])})
					}
				}
			case 2:
				if _, err := ms.Append(n, k.ent, &irc.Message{Command: "JOIN", Params: []string{k.ent}}); err != nil {
					t.Fatalf("FAILING-INPUT seed %d: Append(JOIN): %v", seed, err)
				}
				id, err := ms.LastMsgID(n, k.ent, time.Now())
				if err != nil {
					t.Fatalf("FAILING-INPUT seed %d: LastMsgID: %v", seed, err)
				}
				marks = append(marks, mark{k, id, len(hist[k])})
			}
			if len(marks) == 0 {
				continue
			}
			m := marks[r.Intn(len(marks))]
			limit := []int{0, 1, 2, 5, 100, 4095, 4096, 5000, 1 << 40}[r.Intn(9)]
			want := hist[m.k][m.pos:]
			if len(want) > 4096 {
				want = want[len(want)-4096:]
			}
			if len(want) > limit {
				want = want[len(want)-limit:]
			}
			got, err := ms.LoadLatestID(ctx, m.id, &LoadMessageOptions{Network: &database.Network{ID: m.k.net}, Entity: m.k.ent, Limit: limit})
			if err != nil {
				t.Fatalf("FAILING-INPUT seed %d step %d: LoadLatestID: %v", seed, step, err)
			}
			ok := len(got) == len(want)
			for i := 0; ok && i < len(got); i++ {
				ok = got[i] == want[i]
			}
			if !ok {
				t.Fatalf("FAILING-INPUT seed %d step %d: after %d messages (mark at %d, limit %d) LoadLatestID returned %d messages, want %d", seed, step, len(hist[m.k]), m.pos, limit, len(got), len(want))
			}
		}
	}
}
