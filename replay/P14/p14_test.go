//pkg: .
package soju

import (
	"bytes"
	"context"
	"encoding/base64"
	"errors"
	"strings"
	"testing"

	"github.com/emersion/go-sasl"
	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/xirc"
)

type vSASL struct {
	got  [][]byte
	more int
}

func (s *vSASL) Next(resp []byte) ([]byte, bool, error) {
	s.got = append(s.got, append([]byte(nil), resp...))
	if s.more > 0 {
		s.more--
		return []byte("more"), false, nil
	}
	if bytes.HasPrefix(resp, []byte("bad")) {
		return nil, false, errors.New("refused")
	}
	return nil, true, nil
}

var vAuthSrv *Server

func vAuthConn(t *testing.T) (*downstreamConn, chan *irc.Message) {
	if vAuthSrv == nil {
		vAuthSrv = vServer(t, newVMemDB(), nil)
	}
	srv := vAuthSrv
	ch := make(chan *irc.Message, 64)
	dc := &downstreamConn{conn: &conn{srv: srv, logger: srv.Logger, outgoingCh: ch, closedCh: make(chan struct{})}, caps: xirc.NewCapRegistry(), nick: "n"}
	dc.caps.Available["sasl"] = ""
	dc.caps.SetEnabled("sasl", true)
	return dc, ch
}

func vAuth(dc *downstreamConn, param ...string) (*downstreamSASL, error) {
	return dc.handleAuthenticate(context.Background(), &irc.Message{Command: "AUTHENTICATE", Params: param})
}

func vResp(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%23)
	}
	return b
}

// Responses of any length are cut into chunks from which the other side puts
// the same response together.
func TestVerifSASLFraming(t *testing.T) {
	for n := 0; n < 1300; n++ {
		resp := vResp(n)
		enc := base64.StdEncoding.EncodeToString(resp)
		joined := ""
		msgs := xirc.GenerateSASL(resp)
		for i, m := range msgs {
			if m.Command != "AUTHENTICATE" || len(m.Params) != 1 {
				t.Fatalf("FAILING-INPUT: response of %d bytes: message %d: %v", n, i, m)
			}
			chunk := m.Params[0]
			if chunk == "" || len(chunk) > 400 || i+1 < len(msgs) && len(chunk) != 400 || i+1 == len(msgs) && len(chunk) == 400 {
				t.Fatalf("FAILING-INPUT: response of %d bytes: chunk %d of %d: %q", n, i+1, len(msgs), chunk)
			}
			if chunk != "+" {
				joined += chunk
			}
		}
		if joined != enc {
			t.Fatalf("FAILING-INPUT: response of %d bytes is sent as %q", n, joined)
		}
		for more := 0; more < 2; more++ {
			dc, _ := vAuthConn(t)
			srv := &vSASL{more: more}
			dc.sasl = &downstreamSASL{server: srv, mechanism: "X"}
			for round := 0; round <= more; round++ {
				for i, m := range msgs {
					res, err := vAuth(dc, m.Params[0])
					if err != nil {
						t.Fatalf("FAILING-INPUT: response of %d bytes, round %d: chunk %d refused: %v", n, round, i, err)
					}
					last := i+1 == len(msgs)
					if last != (len(srv.got) == round+1) || (res != nil) != (last && round == more) {
						t.Fatalf("FAILING-INPUT: response of %d bytes, round %d: after chunk %d of %d: mechanism consulted %d times, result %v", n, round, i+1, len(msgs), len(srv.got), res)
					}
				}
				if !bytes.Equal(srv.got[round], resp) {
					t.Fatalf("FAILING-INPUT: response of %d bytes arrives as %q in round %d", n, srv.got[round], round)
				}
			}
		}
	}
}

// What a client may make the server buffer is bounded; anything wrong ends the
// exchange.
func TestVerifSASLErrors(t *testing.T) {
	dc, _ := vAuthConn(t)
	dc.sasl = &downstreamSASL{server: &vSASL{}, mechanism: "X"}
	ended := false
	for i := 0; i < 200; i++ {
		if _, err := vAuth(dc, strings.Repeat("A", 400)); err != nil {
			if dc.sasl != nil {
				t.Fatalf("FAILING-INPUT: exchange kept after %v", err)
			}
			ended = true
			break
		}
		if n := dc.sasl.pendingResp.Len(); n > 10*1024 {
			t.Fatalf("FAILING-INPUT: %d bytes buffered", n)
		}
	}
	if !ended {
		t.Fatalf("FAILING-INPUT: 200 chunks buffered")
	}
	for _, c := range [][]string{{"*"}, {}, {"!!!!"}, {"YQ"}, {base64.StdEncoding.EncodeToString([]byte("bad"))}, {strings.Repeat("A", 11000)}} {
		for _, prefix := range []int{0, 1, 3} {
			dc, _ := vAuthConn(t)
			srv := &vSASL{}
			dc.sasl = &downstreamSASL{server: srv, mechanism: "X"}
			for i := 0; i < prefix; i++ {
				vAuth(dc, strings.Repeat("A", 400))
			}
			res, err := vAuth(dc, c...)
			if prefix > 0 && len(c) == 1 && strings.HasPrefix(c[0], "YmFk") {
				continue
			}
			if err == nil || res != nil || dc.sasl != nil {
				t.Fatalf("FAILING-INPUT: %d chunks, then AUTHENTICATE %v: %v %v, exchange going on: %v", prefix, c, res, err, dc.sasl != nil)
			}
		}
	}
	dc, _ = vAuthConn(t)
	dc.caps.SetEnabled("sasl", false)
	if _, err := vAuth(dc, "PLAIN"); err == nil || dc.sasl != nil {
		t.Fatalf("FAILING-INPUT: AUTHENTICATE without the capability: %v", err)
	}
}

// Credentials of any length reach the authenticator.
func TestVerifSASLPlain(t *testing.T) {
	for _, n := range []int{1, 10, 290, 297, 298, 299, 300, 301, 597, 598, 600, 1000, 4000} {
		dc, _ := vAuthConn(t)
		if _, err := vAuth(dc, "plain"); err != nil {
			t.Fatalf("FAILING-INPUT: PLAIN refused: %v", err)
		}
		pw := string(vResp(n))
		_, ir, _ := sasl.NewPlainClient("", "u", pw).Start()
		var res *downstreamSASL
		var err error
		for _, m := range xirc.GenerateSASL(ir) {
			if res, err = vAuth(dc, m.Params[0]); err != nil {
				t.Fatalf("FAILING-INPUT: password of %d bytes: %v", n, err)
			}
		}
		if res == nil || res.plain == nil || res.plain.Username != "u" || res.plain.Password != pw {
			t.Fatalf("FAILING-INPUT: password of %d bytes arrives as %v", n, res)
		}
	}
}
