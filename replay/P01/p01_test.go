//pkg: .
package soju

import (
	"context"
	"encoding/base64"
	"fmt"
	"testing"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/auth"
	"codeberg.org/emersion/soju/database"
)

type vTokens map[string]string

func (vt vTokens) AuthOAuthBearer(ctx context.Context, db database.Database, token string) (string, error) {
	if u, ok := vt[token]; ok {
		return u, nil
	}
	return "", fmt.Errorf("bad token")
}

// A disabled account cannot be used, and trying to harms nobody.
func TestVerifDisabled(t *testing.T) {
	for _, line := range []string{"PING x", "PRIVMSG BouncerServ :user update -nick hacked", "JOIN #a", "NICK q", "WHOIS x", "MODE x", "LIST", "AWAY :x", "BOUNCER LISTNETWORKS", "PRIVMSG BouncerServ :network create -addr irc+insecure://127.0.0.1:1"} {
		db := newVMemDB()
		u := db.addUser("alice", false)
		u.Enabled = false
		db.StoreUser(context.Background(), u)
		db.addUser("root", true)
		srv := vServer(t, db, nil)
		vc := vDial(t, srv)
		if vc.login("alice", "alice") {
			t.Fatalf("FAILING-INPUT: a disabled account was welcomed")
		}
		vc.send("%s", line)
		for {
			m := vc.next(100 * time.Millisecond)
			if m == nil {
				break
			}
			if m.Command != "ERROR" {
				t.Fatalf("FAILING-INPUT: a disabled account sent %q and was answered %v", line, m)
			}
		}
		if l, _ := db.ListNetworks(context.Background(), u.ID); len(l) != 0 {
			t.Fatalf("FAILING-INPUT: a disabled account created a network")
		}
		if srv.getUser("alice") == nil {
			t.Fatalf("FAILING-INPUT: a client of a disabled account sent %q, and the account's goroutine ended", line)
		}
	}
}

// SASL and PASS: who gets in, as whom.
func TestVerifRegistration(t *testing.T) {
	names := []string{"alice", "root", "bob", "ALICE"}
	b64 := func(s string) string {
		if s == "" {
			return "+"
		}
		return base64.StdEncoding.EncodeToString([]byte(s))
	}
	type step struct {
		mech, data string
	}
	plain := func(id, u, p string) step { return step{"PLAIN", b64(id + "\x00" + u + "\x00" + p)} }
	bearer := func(u, tok string) step {
		a := ""
		if u != "" {
			a = "a=" + u
		}
		return step{"OAUTHBEARER", b64("n," + a + ",\x01auth=Bearer " + tok + "\x01\x01")}
	}
	for _, c := range []struct {
		name  string
		pass  string
		user  string
		steps []step
		want  string
	}{
		{"pass", "alice", "alice", nil, "alice"},
		{"pass with network and client", "alice", "alice@c", nil, "alice"},
		{"wrong pass", "root", "alice", nil, ""},
		{"empty pass", "", "alice", nil, ""},
		{"pass for another", "alice", "root", nil, ""},
		{"no such user", "eve", "eve", nil, ""},
		{"plain", "", "x", []step{plain("", "alice", "alice")}, "alice"},
		{"plain same identity", "", "x", []step{plain("alice", "alice", "alice")}, "alice"},
		{"plain wrong", "", "x", []step{plain("", "alice", "bob")}, ""},
		{"plain wrong, good pass for another", "bob", "bob", []step{plain("", "alice", "bob")}, "bob"},
		{"plain empty password", "", "x", []step{plain("", "alice", "")}, ""},
		{"plain right then wrong", "", "x", []step{plain("", "alice", "alice"), plain("", "root", "wrong")}, "alice"},
		{"plain wrong then right", "", "x", []step{plain("", "root", "wrong"), plain("", "alice", "alice")}, "alice"},
		{"plain then USER of another", "", "root", []step{plain("", "alice", "alice")}, "alice"},
		{"plain then PASS of another", "root", "root", []step{plain("", "alice", "alice")}, "alice"},
		{"impersonation by non-admin", "", "x", []step{plain("root", "alice", "alice")}, ""},
		{"impersonation by non-admin of non-admin", "", "x", []step{plain("bob", "alice", "alice")}, ""},
		{"impersonation by admin", "", "x", []step{plain("alice", "root", "root")}, "alice"},
		{"impersonation by admin, wrong password", "", "x", []step{plain("alice", "root", "alice")}, ""},
		{"impersonation of nobody", "", "x", []step{plain("eve", "root", "root")}, ""},
		{"impersonation with the victim's... password of victim", "", "x", []step{plain("root", "alice", "root")}, ""},
		{"bearer", "", "x", []step{bearer("", "tok-alice")}, "alice"},
		{"bearer same name", "", "x", []step{bearer("alice", "tok-alice")}, "alice"},
		{"bearer other name", "", "x", []step{bearer("root", "tok-alice")}, ""},
		{"bearer name in another case", "", "x", []step{bearer("ALICE", "tok-alice")}, ""},
		{"bearer name with a network", "", "x", []step{bearer("bob/net", "tok-alice")}, ""},
		{"plain name in another case", "", "x", []step{plain("", "ALICE", "alice")}, ""},
		{"pass for a name in another case", "alice", "ALICE", nil, ""},
		{"bearer bad token", "", "x", []step{bearer("alice", "tok-x")}, ""},
		{"aborted", "", "alice", []step{{"PLAIN", "*"}}, ""},
		{"garbage", "", "alice", []step{{"PLAIN", "!!!"}}, ""},
		{"unknown mechanism", "", "alice", []step{{"SCRAM-SHA-256", b64("n,,n=alice,r=x")}}, ""},
		{"external", "", "alice", []step{{"EXTERNAL", b64("alice")}}, ""},
	} {
		db := newVMemDB()
		for _, n := range names {
			db.addUser(n, n == "root")
		}
		srv := vServer(t, db, func(cfg *Config) {
			cfg.Auth = &auth.Authenticator{Plain: auth.NewInternal().Plain, OAuthBearer: vTokens{"tok-alice": "alice"}}
		})
		vc := vDial(t, srv)
		if c.steps != nil {
			vc.send("CAP REQ :sasl")
			vc.until(5*time.Second, "CAP")
		}
		for _, s := range c.steps {
			vc.send("AUTHENTICATE %s", s.mech)
			l, _ := vc.until(5*time.Second, "AUTHENTICATE", irc.ERR_SASLFAIL, "ERROR")
			if n := len(l); n > 0 && l[n-1].Command == "AUTHENTICATE" {
				vc.send("AUTHENTICATE %s", s.data)
				vc.until(5*time.Second, irc.RPL_SASLSUCCESS, irc.ERR_SASLFAIL, irc.ERR_SASLABORTED, "ERROR")
			}
		}
		if c.pass != "" {
			vc.send("PASS :%s", c.pass)
		}
		vc.send("NICK nick")
		vc.send("USER %s 0 * :r", c.user)
		if c.steps != nil {
			vc.send("CAP END")
		}
		l, ok := vc.until(10*time.Second, irc.RPL_WELCOME, irc.ERR_PASSWDMISMATCH, "ERROR", "FAIL")
		got := ""
		if ok && l[len(l)-1].Command == irc.RPL_WELCOME {
			for _, n := range names {
				if u := srv.getUser(n); u != nil && u.numDownstreamConns.Load() > 0 {
					got += n
				}
			}
		}
		if got != c.want {
			t.Fatalf("FAILING-INPUT: %s (PASS %q, USER %q, SASL %v): registered as %q, want %q", c.name, c.pass, c.user, c.steps, got, c.want)
		}
	}
}
