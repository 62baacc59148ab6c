//pkg: .
package soju

import (
	"encoding/base64"
	"fmt"
	"strings"
	"testing"
	"time"

	"codeberg.org/emersion/soju/database"
)

// What NickServ is told teaches the bouncer credentials only in the commands
// which carry them.
func TestVerifNickServ(t *testing.T) {
	words := []string{"", "register", "REGISTER", "identify", "Identify", "set", "SET", "password", "PassWord", "email", "x", "login", "drop"}
	for _, a := range words {
		for _, b := range words {
			for _, c := range words {
				for _, d := range []string{"", "extra"} {
					text := strings.Join([]string{a, b, c, d}, " ")
					f := strings.Fields(text)
					var wu, wp string
					wok := false
					if len(f) >= 2 {
						switch strings.ToUpper(f[0]) {
						case "REGISTER":
							wu, wp, wok = "me", f[1], true
						case "IDENTIFY":
							wu, wp, wok = "me", f[1], true
							if len(f) > 2 {
								wu, wp = f[1], f[2]
							}
						case "SET":
							if len(f) == 3 && strings.EqualFold(f[1], "PASSWORD") {
								wu, wp, wok = "me", f[2], true
							}
						}
					}
					u, p, ok := parseNickServCredentials(text, "me")
					if ok != wok || ok && (u != wu || p != wp) {
						t.Fatalf("FAILING-INPUT: PRIVMSG NickServ :%s is taken for the credentials %q %q %v", text, u, p, ok)
					}
				}
			}
		}
	}
}

func init() { upstreamMessageDelay = time.Millisecond }

func vSASLOf(db *vMemDB, uid int64) database.SASL {
	db.lock.Lock()
	defer db.lock.Unlock()
	return db.networks[uid][0].SASL
}

// Saved credentials change on success only, and to those which succeeded.
func TestVerifAutoSave(t *testing.T) {
	for _, mech := range []string{"", "PLAIN", "EXTERNAL"} {
		db := newVMemDB()
		u := db.addUser("alice", false)
		up := newVUpstream(t)
		n := db.addNetwork(u, "net", up.addr)
		n.SASL.Mechanism = mech
		if mech == "PLAIN" {
			n.SASL.Plain.Username, n.SASL.Plain.Password = "old", "oldpw"
		}
		db.networks[u.ID][0] = *n
		srv := vServer(t, db, nil)
		uc := up.accept()
		welcomed := make(chan struct{})
		go func() {
			uc.welcome("sasl draft/account-registration")
			close(welcomed)
		}()
		if mech != "" {
			// the bouncer authenticates on its own
			go func() {}()
		}
		vc := vDial(t, srv)
		if !vc.login("alice/net", "alice") {
			t.Fatalf("cannot log in")
		}
		select {
		case <-welcomed:
		case <-time.After(3 * time.Second):
			if mech == "" {
				t.Fatalf("not connected")
			}
			// end the bouncer's own exchange
			uc.send(":up 904 * :failed")
			<-welcomed
		}
		vc.send("CAP LS 302")
		vc.sync()
		deadline := time.Now().Add(5 * time.Second)
		usable := false
		for time.Now().Before(deadline) && !usable {
			vc.send("CAP REQ :sasl")
			for _, m := range vc.sync() {
				usable = usable || m.Command == "CAP" && len(m.Params) > 1 && m.Params[1] == "ACK"
			}
		}
		if !usable {
			t.Fatalf("sasl is not on offer")
		}
		want := n.SASL
		check := func(what string) {
			t.Helper()
			vc.sync()
			if got := vSASLOf(db, u.ID); fmt.Sprint(got) != fmt.Sprint(want) {
				t.Fatalf("FAILING-INPUT: mechanism %q: after %s the saved credentials are %v, not %v", mech, what, got, want)
			}
		}
		saved := func(us, pw string) {
			if mech != "EXTERNAL" {
				want.Mechanism, want.Plain.Username, want.Plain.Password = "PLAIN", us, pw
			}
		}
		upSync := func() {
			uc.send("PING :vsync")
			uc.until(5*time.Second, "PONG")
		}
		plain := func(us, pw string) string {
			return base64.StdEncoding.EncodeToString([]byte("\x00" + us + "\x00" + pw))
		}
		exchange := func(us, pw, reply string) {
			vc.send("AUTHENTICATE PLAIN")
			vc.until(5*time.Second, "AUTHENTICATE")
			vc.send("AUTHENTICATE %s", plain(us, pw))
			uc.until(5*time.Second, "AUTHENTICATE")
			check("credentials were presented")
			uc.send("AUTHENTICATE +")
			uc.until(5*time.Second, "AUTHENTICATE")
			check("the server was given credentials")
			uc.send(":up %s me :reply", reply)
			upSync()
		}
		for _, r := range []string{"904", "905", "906", "902"} {
			exchange("bad", "badpw", r)
			check("SASL reply " + r)
		}
		for _, txt := range []string{"SET EMAIL a@b", "SET PASSWORD", "SET PASSWORD a b", "INFO x", "IDENTIFY", "REGISTER", "HELP"} {
			vc.send("PRIVMSG NickServ :%s", txt)
			check("PRIVMSG NickServ :" + txt)
		}
		vc.send("PRIVMSG somebody :IDENTIFY a b")
		check("PRIVMSG somebody :IDENTIFY a b")
		vc.send("NOTICE NickServ :IDENTIFY a b")
		check("NOTICE NickServ :IDENTIFY a b")
		vc.send("PRIVMSG NickServ :IDENTIFY acc pw1")
		saved("acc", "pw1")
		check("IDENTIFY")

		for _, r := range []string{"904", "905", "906", "902"} {
			exchange("bad", "badpw", r)
			check("SASL reply " + r)
		}
		exchange("good", "goodpw", "903")
		saved("good", "goodpw")
		check("SASL reply 903")

		// the client starts over before the server replies
		vc.send("AUTHENTICATE PLAIN")
		vc.until(5*time.Second, "AUTHENTICATE")
		vc.send("AUTHENTICATE %s", plain("again", "againpw"))
		uc.until(5*time.Second, "AUTHENTICATE")
		vc.send("AUTHENTICATE *")
		vc.sync()
		vc.send("AUTHENTICATE PLAIN")
		vc.until(5*time.Second, "AUTHENTICATE")
		uc.send(":up 903 me :reply")
		upSync()
		if l := vc.sync(); len(l) == 0 {
			t.Fatalf("FAILING-INPUT: AUTHENTICATE aborted and started again before the server's reply: the bouncer does not answer any more")
		}
		check("a reply to an exchange which was aborted")
		vc.send("AUTHENTICATE *")
		vc.sync()

		// account registration
		vc.send("REGISTER acc2 * regpw")
		uc.until(5*time.Second, "REGISTER")
		uc.send("FAIL REGISTER ACCOUNT_EXISTS acc2 :no")
		upSync()
		check("FAIL REGISTER")
		vc.send("REGISTER acc2 * regpw")
		uc.until(5*time.Second, "REGISTER")
		check("REGISTER without a reply")
		uc.send("REGISTER SUCCESS acc2 :ok")
		upSync()
		saved("acc2", "regpw")
		check("REGISTER SUCCESS")
		uc.send("REGISTER SUCCESS acc3 :ok")
		upSync()
		check("REGISTER SUCCESS out of the blue")
	}
}
