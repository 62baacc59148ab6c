//pkg: .
package soju

import (
	"github.com/prometheus/client_golang/prometheus"
	"io"
	"math/rand"
	"testing"
	"testing/synctest"
	"time"

	"codeberg.org/emersion/soju/database"
)

// Delays computed for any failure/success history.
func TestVerifBackoffDelays(t *testing.T) {
	for seed := int64(0); seed < 3000; seed++ {
		r := rand.New(rand.NewSource(seed))
		min := time.Duration(1+r.Intn(1000)) * time.Millisecond
		max := min * time.Duration(1+r.Intn(100))
		jitter := time.Duration(r.Intn(1000)) * time.Millisecond
		if seed%4 == 0 {
			min, max, jitter = time.Minute, 10*time.Minute, time.Minute
		}
		if seed%4 == 1 {
			jitter = 0
		}
		b := newBackoffer(min, max, jitter)
		fails := 0
		base := time.Duration(0)
		for step := 0; step < 200; step++ {
			if r.Intn(60) == 0 {
				b.Reset()
				fails = 0
			}
			d := b.Next()
			if fails == 0 {
				if d != 0 {
					t.Fatalf("FAILING-INPUT seed %d: first delay is %v", seed, d)
				}
			} else {
				if fails == 1 {
					base = min
				} else {
					base *= 2
				}
				if base > max {
					base = max
				}
				if d < base || d > base+jitter {
					t.Fatalf("FAILING-INPUT min=%v max=%v jitter=%v: delay after %d failures is %v, want between %v and %v", min, max, jitter, fails, d, base, base+jitter)
				}
			}
			fails++
		}
	}
}

// Connection attempts of a network whose server refuses connections, in
// virtual time.
func TestVerifReconnectSpacing(t *testing.T) {
	synctest.Test(t, func(t *testing.T) {
		srv := NewServer(nil)
		srv.Logger = NewLogger(io.Discard, false)
		srv.MetricsRegistry = prometheus.NewRegistry()
		srv.registerMetrics()
		u := newUser(srv, &database.User{ID: 1, Username: "u", Nick: "u", Enabled: true})
		n := newNetwork(u, &database.Network{ID: 1, Name: "n", Addr: "irc+insecure://127.0.0.1:1", Enabled: true}, nil)
		done := make(chan struct{})
		go func() {
			n.run()
			close(done)
		}()
		var last time.Time
		base := time.Duration(0)
		for i := 0; i < 14; i++ {
			<-u.events
			now := time.Now()
			if i > 0 {
				d := now.Sub(last)
				if d < time.Minute || d < base {
					t.Fatalf("FAILING-INPUT attempt %d of a failing network came %v after attempt %d", i+1, d, i)
				}
				if d > 11*time.Minute+15*time.Second {
					t.Fatalf("FAILING-INPUT attempt %d of a failing network came %v after attempt %d", i+1, d, i)
				}
				base *= 2
				if base > 10*time.Minute {
					base = 10 * time.Minute
				}
			} else {
				base = time.Minute
			}
			last = now
		}
		n.stop()
		go func() {
			for range u.events {
			}
		}()
		<-done
		close(u.events)
		time.Sleep(time.Hour)
	})
}
