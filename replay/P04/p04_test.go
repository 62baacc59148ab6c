//pkg: .
package soju

import (
	"context"
	"fmt"
	"strings"
	"testing"

	"codeberg.org/emersion/soju/database"
)

func vEnabled(db *vMemDB, uid int64) (n int, all []string) {
	db.lock.Lock()
	defer db.lock.Unlock()
	for _, net := range db.networks[uid] {
		if net.Enabled {
			n++
		}
		all = append(all, fmt.Sprintf("%d %q %q %v", net.ID, net.GetName(), net.Addr, net.Enabled))
	}
	return n, all
}

// A network is enabled only if the quota allows for it; an administrator may
// ignore it.
func TestVerifQuota(t *testing.T) {
	type lim struct{ server, user int }
	for _, l := range []lim{{-1, -1}, {0, -1}, {1, -1}, {2, -1}, {-1, 0}, {-1, 1}, {5, 2}, {1, 3}, {3, 0}} {
		for _, admin := range []bool{false, true} {
			db := newVMemDB()
			u := db.addUser("alice", admin)
			u.MaxNetworks = l.user
			db.users["alice"] = *u
			srv := vServer(t, db, func(c *Config) { c.MaxUserNetworks = l.server })
			max := l.user
			if max < 0 {
				max = l.server
			}
			vc := vDial(t, srv)
			if !vc.login("alice", "alice") {
				t.Fatalf("cannot log in")
			}
			vc.send("CAP REQ :soju.im/bouncer-networks")
			vc.sync()
			prev, _ := vEnabled(db, u.ID)
			forced := 0
			step := func(what string, f func(), ignore bool) {
				f()
				vc.sync()
				n, all := vEnabled(db, u.ID)
				if n > prev && ignore && admin {
					forced += n - prev
				} else if n > prev && max >= 0 && n > max {
					t.Fatalf("FAILING-INPUT: server limit %d, user limit %d, admin %v: %s: %d enabled networks: %v", l.server, l.user, admin, what, n, all)
				} else if n == prev && strings.HasPrefix(what, "+") && !ignore && (max < 0 || prev < max) {
					t.Fatalf("FAILING-INPUT: server limit %d, user limit %d, admin %v: %s: refused with %d enabled networks: %v", l.server, l.user, admin, what, n, all)
				} else if n > prev && ignore && !admin && max >= 0 && n > max {
					t.Fatalf("FAILING-INPUT: not an admin: %s: %v", what, all)
				}
				prev = n
			}
			cmd := func(c string, ignore bool) {
				step(c, func() { vc.serv(strings.TrimPrefix(c, "+")) }, ignore)
			}
			cmd("+network create -addr ircs://127.0.0.1:1 -name a", false)
			cmd("network create -addr ircs://127.0.0.1:1 -name off1 -enabled false", false)
			cmd("network create -addr ircs://127.0.0.1:1 -name off2 -enabled false", false)
			step("ADDNETWORK b", func() { vc.send("BOUNCER ADDNETWORK name=b;host=127.0.0.1;port=1") }, false)
			cmd("network update off1 -enabled true", false)
			cmd("network update off2 -enabled true -nick foo", false)
			cmd("network create -addr ircs://127.0.0.1:1 -name c -enabled true", false)
			cmd("network create -addr ircs://127.0.0.1:1 -name d -ignore-limit", true)
			cmd("network update off1 -enabled true -ignore-limit", true)
			cmd("network update off2 -ignore-limit -enabled", true)
			cmd("network update a -nick other", false)
			cmd("user update -realname somebody", false)
			step("implicit network", func() {
				v2 := vDial(t, srv)
				v2.login("alice/127.0.0.1", "alice")
			}, false)
			// a network which is enabled already may be changed
			db.lock.Lock()
			var name string
			for _, n := range db.networks[u.ID] {
				if n.Enabled {
					name = n.GetName()
				}
			}
			db.lock.Unlock()
			if name != "" {
				vc.serv("network update " + name + " -nick changed")
				vc.sync()
				ok := false
				db.lock.Lock()
				for _, n := range db.networks[u.ID] {
					ok = ok || n.GetName() == name && n.Nick == "changed"
				}
				db.lock.Unlock()
				if !ok {
					t.Fatalf("FAILING-INPUT: server limit %d, user limit %d: network %q which is enabled cannot be changed", l.server, l.user, name)
				}
			}
		}
	}
}

// Networks that are stored are well-formed, and lead to the local host's
// sockets only for administrators.
func TestVerifNetworkRecords(t *testing.T) {
	for _, admin := range []bool{false, true} {
		db := newVMemDB()
		u := db.addUser("alice", admin)
		n := database.NewNetwork("ircs://127.0.0.1:1")
		n.Name = "old"
		n.Enabled = false
		db.StoreNetwork(context.Background(), u.ID, n)
		srv := vServer(t, db, nil)
		vc := vDial(t, srv)
		if !vc.login("alice", "alice") {
			t.Fatalf("cannot log in")
		}
		vc.send("CAP REQ :soju.im/bouncer-networks")
		vc.sync()
		check := func() {
			names := map[string]bool{}
			db.lock.Lock()
			for _, n := range db.networks[u.ID] {
				addr := n.Addr
				if !strings.Contains(addr, "://") {
					addr = "ircs://" + addr
				}
				scheme, rest, _ := strings.Cut(addr, "://")
				local := strings.EqualFold(scheme, "unix") || strings.EqualFold(scheme, "irc+unix")
				switch {
				case local && !admin:
					t.Errorf("FAILING-INPUT: a user who is not an administrator has the network %q", n.Addr)
				case !local && scheme != "ircs" && scheme != "irc+insecure":
					t.Errorf("FAILING-INPUT: stored network address %q", n.Addr)
				case !local && (rest == "" || strings.ContainsAny(rest, "/@?#")):
					t.Errorf("FAILING-INPUT: stored network address %q", n.Addr)
				}
				name := n.GetName()
				if name == "" || strings.HasPrefix(name, "-") {
					t.Errorf("FAILING-INPUT: stored network name %q", name)
				}
				if names[name] {
					t.Errorf("FAILING-INPUT: two networks are named %q", name)
				}
				names[name] = true
			}
			db.lock.Unlock()
		}
		for i, c := range []string{
			"unix:///nonexistent/x", "irc+unix:///nonexistent/x", "unix:/nonexistent/x", "UNIX:///nonexistent/x", "Unix:///nonexistent/y",
			"http://127.0.0.1", "ircs://", "ircs:///x", "irc+insecure://127.0.0.1:1", "ircs://127.0.0.1:1/x", "ircs://u:p@127.0.0.1:1", "ircs://127.0.0.1:1?x=y", "ircs://127.0.0.1:1#x",
			"irc://127.0.0.1:1", "127.0.0.1:1", "127.0.0.1", "/nonexistent/x", "unix://127.0.0.1", "unix://127.0.0.1/nonexistent/x", "-x", "",
		} {
			vc.serv(fmt.Sprintf("network create -enabled false -name n%d -addr '%s'", i, c))
			check()
			vc.serv(fmt.Sprintf("network create -enabled false -addr '%s'", c))
			vc.serv(fmt.Sprintf("network update old -addr '%s'", c))
			check()
			vc.serv(fmt.Sprintf("network update old -enabled false -addr '%s' -name old", c))
			check()
			vc.send("BOUNCER ADDNETWORK name=b%d;host=%s;tls=0", i, c)
			vc.send("BOUNCER ADDNETWORK host=%s", c)
			vc.sync()
			check()
		}
		for _, c := range []string{"-dash", "*", "old", "n8", "'' "} {
			vc.serv(fmt.Sprintf("network create -enabled false -addr ircs://127.0.0.1:2 -name %s", c))
			vc.serv(fmt.Sprintf("network update n8 -enabled false -name %s", c))
			vc.send("BOUNCER ADDNETWORK name=%s;host=127.0.0.1", c)
			vc.sync()
		}
		check()
	}
}
