//pkg: .
package soju

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/xirc"
)

// Random sequences of CAP requests and of capabilities that come and go,
// against an independent reading of the rules.
func TestVerifCap(t *testing.T) {
	srv := vServer(t, newVMemDB(), nil)
	ch := make(chan *irc.Message, 256)
	names := []string{"batch", "echo-message", "cap-notify", "soju.im/account-required", "away-notify", "setname", "unknown", "sasl"}
	rnd := rand.New(rand.NewSource(3))
	ctx := context.Background()
	for it := 0; it < 3000; it++ {
		reg := xirc.NewCapRegistry()
		avail := map[string]bool{}
		on := map[string]bool{}
		for _, n := range names {
			if rnd.Intn(3) > 0 && n != "unknown" {
				reg.Available[n] = ""
				avail[n] = true
			}
		}
		dc := &downstreamConn{conn: &conn{srv: srv, logger: srv.Logger, outgoingCh: ch, closedCh: make(chan struct{})}, caps: reg, nick: "n", registered: rnd.Intn(2) == 0}
		if !dc.registered {
			dc.registration = &downstreamRegistration{}
		}
		if rnd.Intn(2) == 0 {
			dc.capVersion = 302
		}
		var log []string
		fail := func(format string, args ...interface{}) {
			t.Fatalf("FAILING-INPUT: available %v, version %d, registered %v, then %s: %s", avail, dc.capVersion, dc.registered, strings.Join(log, "; "), fmt.Sprintf(format, args...))
		}
		recv := func() *irc.Message {
			select {
			case m := <-ch:
				return m
			default:
				return nil
			}
		}
		for step := 0; step < 8; step++ {
			if rnd.Intn(3) == 0 {
				n := names[rnd.Intn(len(names))]
				v := []string{"", "a", "b"}[rnd.Intn(3)]
				old, had := reg.Available[n]
				notify := on["cap-notify"]
				want := ""
				if rnd.Intn(2) == 0 {
					log = append(log, "set "+n+" "+v)
					dc.setSupportedCap(ctx, n, v)
					if !had || old != v {
						want = "NEW " + n
						if v != "" && dc.capVersion >= 302 {
							want += "=" + v
						}
					}
					if w, ok := reg.Available[n]; !ok || w != v {
						fail("available as %q, %v", w, ok)
					}
				} else {
					log = append(log, "unset "+n)
					dc.unsetSupportedCap(ctx, n)
					delete(on, n)
					notify = on["cap-notify"] // told through cap-notify only while it is there
					if had {
						want = "DEL " + n
					}
					if reg.IsAvailable(n) || reg.IsEnabled(n) {
						fail("still available or enabled")
					}
				}
				m := recv()
				got := ""
				if m != nil {
					got = strings.Join(m.Params[1:], " ")
				}
				if !notify {
					want = ""
				}
				if got != want {
					fail("announced %q, want %q", got, want)
				}
				continue
			}
			var words []string
			for n := rnd.Intn(4); n >= 0; n-- {
				w := names[rnd.Intn(len(names))]
				if rnd.Intn(3) == 0 {
					w = strings.ToUpper(w)
				}
				if rnd.Intn(3) == 0 {
					w = "-" + w
				}
				words = append(words, w)
			}
			req := strings.Join(words, " ")
			log = append(log, "CAP REQ :"+req)
			if err := dc.handleCap(ctx, &irc.Message{Command: "CAP", Params: []string{"REQ", req}}); err != nil {
				fail("error %v", err)
			}
			want := map[string]bool{}
			for k, v := range on {
				want[k] = v
			}
			ok := true
			free := map[string]bool{} // asked for both ways
			seen := map[string]bool{}
			for _, w := range words {
				w = strings.ToLower(w)
				enable := w[0] != '-'
				w = strings.TrimPrefix(w, "-")
				if s, ok := seen[w]; ok && s != enable {
					free[w] = true
				}
				seen[w] = enable
				if enable == on[w] {
					continue
				}
				if !reg.IsAvailable(w) || w == "soju.im/account-required" || (w == "cap-notify" && !enable && dc.capVersion >= 302) {
					ok = false
				}
				want[w] = enable
			}
			reply := recv()
			if reply == nil || reply.Command != "CAP" || recv() != nil {
				fail("not answered by one reply: %v", reply)
			}
			if (reply.Params[1] == "ACK") != ok {
				fail("answered %s", reply.Params[1])
			}
			for _, n := range names {
				w := on[n]
				if ok {
					w = want[n]
				}
				if reg.IsEnabled(n) != w && !(ok && free[n]) {
					fail("answered %s, and %s is enabled: %v", reply.Params[1], n, !w)
				}
				on[n] = reg.IsEnabled(n)
			}
			if !dc.registered && !dc.registration.negotiatingCaps {
				fail("registration is not held back")
			}
		}
	}
}
