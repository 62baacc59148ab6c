//pkg: .
package soju

import (
	"context"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/xirc"
)

// SendMessage against an independent reading of the capability rules.
func TestVerifGate(t *testing.T) {
	srv := vServer(t, newVMemDB(), nil)
	ch := make(chan *irc.Message, 64)
	caps := []string{"message-tags", "server-time", "account-tag", "batch", "extended-join", "setname", "chghost", "away-notify", "account-notify", "draft/read-marker", "soju.im/read", "echo-message"}
	cmds := []string{"TAGMSG", "JOIN", "SETNAME", "CHGHOST", "AWAY", "ACCOUNT", "MARKREAD", "READ", "PRIVMSG", "NOTICE", "001", "433", "PART", "0A1", "BATCH"}
	needs := map[string]string{"TAGMSG": "message-tags", "SETNAME": "setname", "CHGHOST": "chghost", "AWAY": "away-notify", "ACCOUNT": "account-notify", "MARKREAD": "draft/read-marker", "READ": "soju.im/read"}
	tagNeeds := map[string]string{"time": "server-time", "account": "account-tag", "batch": "batch"}
	rnd := rand.New(rand.NewSource(1))
	for it := 0; it < 30000; it++ {
		reg := xirc.NewCapRegistry()
		for _, c := range caps {
			reg.SetEnabled(c, rnd.Intn(2) == 0)
		}
		dc := &downstreamConn{conn: &conn{srv: srv, logger: srv.Logger, outgoingCh: ch, closedCh: make(chan struct{})}, caps: reg, nick: "n", username: "u", hostname: "h"}
		msg := &irc.Message{Command: cmds[rnd.Intn(len(cmds))]}
		if msg.Command == "BATCH" && !reg.IsEnabled("batch") {
			continue
		}
		if rnd.Intn(4) > 0 {
			msg.Tags = irc.Tags{}
			for _, k := range []string{"time", "account", "batch", "msgid", "label", "+typing", "+draft/reply"} {
				if rnd.Intn(2) == 0 {
					msg.Tags[k] = []string{"x", "y"}[rnd.Intn(2)]
				}
			}
		}
		switch rnd.Intn(3) {
		case 0:
			msg.Prefix = &irc.Prefix{Name: "a", User: "b", Host: "c"}
		case 1:
			msg.Prefix = &irc.Prefix{Name: "*"}
		}
		for n := 1 + rnd.Intn(3); n > 0; n-- {
			msg.Params = append(msg.Params, fmt.Sprintf("p%d", rnd.Intn(5)))
		}
		before := msg.Copy()
		dc.SendMessage(context.Background(), msg)
		var got *irc.Message
		select {
		case got = <-ch:
		default:
		}
		in := fmt.Sprintf("%v (tags %v) with capabilities %v", before, before.Tags, reg.Enabled)
		if before.Command != msg.Command || !reflect.DeepEqual(before.Params, msg.Params) || (len(before.Tags)+len(msg.Tags) > 0 && !reflect.DeepEqual(before.Tags, msg.Tags)) || !reflect.DeepEqual(before.Prefix, msg.Prefix) {
			t.Fatalf("FAILING-INPUT: sending %s changed the message to %v", in, msg)
		}
		if c, ok := needs[msg.Command]; ok && !reg.IsEnabled(c) {
			if got != nil {
				t.Fatalf("FAILING-INPUT: %s: sent %v", in, got)
			}
			continue
		}
		if got == nil {
			t.Fatalf("FAILING-INPUT: %s: nothing sent", in)
		}
		for k, v := range before.Tags {
			c, known := tagNeeds[k]
			want := reg.IsEnabled("message-tags") || (known && reg.IsEnabled(c))
			if k == "batch" {
				want = reg.IsEnabled("batch")
			}
			if w, ok := got.Tags[k]; ok != want || (ok && w != v) {
				t.Fatalf("FAILING-INPUT: %s: tag %q sent as %q, %v", in, k, w, ok)
			}
		}
		if len(got.Tags) > len(before.Tags) {
			t.Fatalf("FAILING-INPUT: %s: new tags %v", in, got.Tags)
		}
		params := before.Params
		if msg.Command == "JOIN" && !reg.IsEnabled("extended-join") {
			params = params[:1]
		}
		if got.Command != before.Command || !reflect.DeepEqual(got.Params, params) {
			t.Fatalf("FAILING-INPUT: %s: sent %v", in, got)
		}
		if len(msg.Command) == 3 && strings.Trim(msg.Command, "0123456789") == "" && got.Prefix == nil {
			t.Fatalf("FAILING-INPUT: %s: numeric without a source", in)
		}
		if before.Prefix != nil && before.Prefix.Name != "*" && !reflect.DeepEqual(got.Prefix, before.Prefix) {
			t.Fatalf("FAILING-INPUT: %s: source %v", in, got.Prefix)
		}
	}
}

func TestVerifBatch(t *testing.T) {
	srv := vServer(t, newVMemDB(), nil)
	for _, on := range []bool{false, true} {
		ch := make(chan *irc.Message, 64)
		reg := xirc.NewCapRegistry()
		reg.SetEnabled("batch", on)
		dc := &downstreamConn{conn: &conn{srv: srv, logger: srv.Logger, outgoingCh: ch, closedCh: make(chan struct{})}, caps: reg}
		dc.SendBatch(context.Background(), "chathistory", []string{"#a"}, nil, func(ref string) {
			dc.SendMessage(context.Background(), &irc.Message{Tags: irc.Tags{"batch": ref}, Command: "PRIVMSG", Params: []string{"#a", "x"}})
		})
		close(ch)
		n := 0
		for m := range ch {
			if m.Command == "BATCH" {
				n++
			}
			if !on && (m.Command == "BATCH" || m.Tags["batch"] != "") {
				t.Fatalf("FAILING-INPUT: a batch was sent to a client without the batch capability: %v", m)
			}
		}
		if on && n != 2 {
			t.Fatalf("FAILING-INPUT: %d BATCH lines instead of 2", n)
		}
	}
}
