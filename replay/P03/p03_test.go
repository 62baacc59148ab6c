//pkg: .
package soju

import (
	"crypto/sha1"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"codeberg.org/emersion/soju/database"
)

func delToken(name string) string {
	h := sha1.Sum([]byte(name))
	return fmt.Sprintf("%x", h[0:3])
}

func vSnapshot(db *vMemDB) map[string]database.User {
	m := map[string]database.User{}
	db.lock.Lock()
	defer db.lock.Unlock()
	for k, u := range db.users {
		u.DownstreamInteractedAt = database.User{}.DownstreamInteractedAt
		m[k] = u
	}
	return m
}

// What a user who is no administrator asks for changes no account but their
// own, and not its privileges.
func TestVerifNonAdmin(t *testing.T) {
	cmds := []string{
		"user create -username eve -password eve",
		"user create -username eve -password eve -admin=true",
		"us c -username eve -password eve",
		"user update bob -password hacked",
		"user update bob -disable-password",
		"user update bob -admin true",
		"user update bob -enabled false",
		"user update bob -max-networks 5",
		"user update bob",
		"user update root -admin false",
		"user update root -password hacked",
		"user update -admin true",
		"user update alice -admin true",
		"user update alice -admin=true -nick x",
		"user update -max-networks 100",
		"user update alice -max-networks 100",
		"user update -max-networks -1",
		"user update -enabled false",
		"user update alice -enabled true",
		"user delete bob " + delToken("bob"),
		"user delete root " + delToken("root"),
		"user delete bob",
		"user delete Alice " + delToken("Alice"),
		"user update Alice -password hacked",
		"user update ALICE -max-networks 3",
		"user run bob user update -password hacked",
		"user run alice user update -max-networks 7",
		"user run bob network create -addr irc.example.org",
		"user run root user update alice -admin true",
		"user status",
		"user status bob",
		"server status",
		"server notice hello",
		"server debug true",
		"ser d true",
		"network create -addr irc+insecure://127.0.0.1:1 -enabled false -ignore-limit",
	}
	for _, cmd := range cmds {
		db := newVMemDB()
		alice := db.addUser("alice", false)
		alice.MaxNetworks = 0
		db.StoreUser(nil, alice)
		db.addUser("bob", false)
		db.addUser("Alice", false)
		db.addUser("root", true)
		srv := vServer(t, db, nil)
		bob := vDial(t, srv)
		if !bob.login("bob", "bob") {
			t.Fatal("login")
		}
		vc := vDial(t, srv)
		if !vc.login("alice", "alice") {
			t.Fatal("login")
		}
		before := vSnapshot(db)
		dbg := srv.Logger.debug.Load()
		replies := vc.serv(cmd)
		after := vSnapshot(db)
		if !reflect.DeepEqual(before, after) {
			t.Fatalf("FAILING-INPUT: non-admin sent %q: accounts went from %+v to %+v", cmd, before, after)
		}
		if srv.Logger.debug.Load() != dbg {
			t.Fatalf("FAILING-INPUT: non-admin sent %q: debug logs switched", cmd)
		}
		ok := false
		for _, r := range replies {
			if strings.HasPrefix(r, "error") {
				ok = true
			}
		}
		if !ok {
			t.Fatalf("FAILING-INPUT: non-admin sent %q and was not refused: %q", cmd, replies)
		}
		for _, m := range bob.sync() {
			if m.Command == "NOTICE" || m.Command == "PRIVMSG" {
				t.Fatalf("FAILING-INPUT: non-admin sent %q: other users got %v", cmd, m)
			}
		}
	}
}

// A user may change their own password, nick and realname, and delete their
// own account.
func TestVerifOwnAccount(t *testing.T) {
	for _, c := range []struct{ cmd, want string }{
		{"user update -nick x", "updated"}, {"user update alice -realname y", "updated"},
	} {
		db := newVMemDB()
		db.addUser("alice", false)
		db.addUser("bob", false)
		srv := vServer(t, db, nil)
		vc := vDial(t, srv)
		if !vc.login("alice", "alice") {
			t.Fatal("login")
		}
		before := vSnapshot(db)
		vc.serv(c.cmd)
		after := vSnapshot(db)
		if !reflect.DeepEqual(before["bob"], after["bob"]) || before["alice"].Admin != after["alice"].Admin || before["alice"].MaxNetworks != after["alice"].MaxNetworks || before["alice"].Password != after["alice"].Password {
			t.Fatalf("FAILING-INPUT: %q: accounts went from %+v to %+v", c.cmd, before, after)
		}
	}
}

// Registering creates no account unless the server is set up to.
func TestVerifNoCreateOnAuth(t *testing.T) {
	for _, enable := range []bool{false} {
		db := newVMemDB()
		srv := vServer(t, db, func(c *Config) { c.EnableUsersOnAuth = enable })
		vc := vDial(t, srv)
		vc.login("mallory", "mallory")
		if l := vSnapshot(db); len(l) != 0 {
			t.Fatalf("FAILING-INPUT: registration created accounts %v", l)
		}
	}
}

// Administrators can do all that.
func TestVerifAdmin(t *testing.T) {
	db := newVMemDB()
	db.addUser("root", true)
	db.addUser("bob", false)
	srv := vServer(t, db, nil)
	vc := vDial(t, srv)
	if !vc.login("root", "root") {
		t.Fatal("login")
	}
	for _, cmd := range []string{"user update bob -max-networks 5", "user create -username carol -password carol -admin=true", "user update bob -admin true", "user run bob user update -nick q", "user delete carol " + delToken("carol")} {
		r := vc.serv(cmd)
		if len(r) > 0 && strings.HasPrefix(r[0], "error") {
			t.Fatalf("FAILING-INPUT: admin's %q refused: %q", cmd, r)
		}
	}
	a := vSnapshot(db)
	if _, ok := a["carol"]; ok || !a["bob"].Admin || a["bob"].MaxNetworks != 5 || a["bob"].Nick != "q" {
		t.Fatalf("FAILING-INPUT: admin's commands not carried out: %+v", a)
	}
}
