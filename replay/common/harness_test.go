//pkg: .
package soju

import (
	"context"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"golang.org/x/crypto/bcrypt"
	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// vMemDB is an in-memory database.
type vMemDB struct {
	database.Database
	lock     sync.Mutex
	next     int64
	users    map[string]database.User
	networks map[int64][]database.Network
	channels map[int64][]database.Channel
	read     map[string]database.ReadReceipt
	receipts map[string][]database.DeliveryReceipt
	deleted  []int64
}

func newVMemDB() *vMemDB {
	return &vMemDB{next: 1, users: map[string]database.User{}, networks: map[int64][]database.Network{}, channels: map[int64][]database.Channel{}, read: map[string]database.ReadReceipt{}, receipts: map[string][]database.DeliveryReceipt{}}
}

func (db *vMemDB) id() int64 { db.next++; return db.next }

func (db *vMemDB) Close() error { return nil }
func (db *vMemDB) Stats(ctx context.Context) (*database.DatabaseStats, error) {
	return &database.DatabaseStats{}, nil
}
func (db *vMemDB) ListUsers(ctx context.Context) ([]database.User, error) {
	db.lock.Lock()
	defer db.lock.Unlock()
	var l []database.User
	for _, u := range db.users {
		l = append(l, u)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Username < l[j].Username })
	return l, nil
}
func (db *vMemDB) GetUser(ctx context.Context, name string) (*database.User, error) {
	db.lock.Lock()
	defer db.lock.Unlock()
	u, ok := db.users[name]
	if !ok {
		return nil, fmt.Errorf("no such user")
	}
	return &u, nil
}
func (db *vMemDB) StoreUser(ctx context.Context, u *database.User) error {
	db.lock.Lock()
	defer db.lock.Unlock()
	if u.ID == 0 {
		if _, dup := db.users[u.Username]; dup {
			return fmt.Errorf("duplicate user")
		}
		u.ID = db.id()
	}
	db.users[u.Username] = *u
	return nil
}
func (db *vMemDB) DeleteUser(ctx context.Context, id int64) error {
	db.lock.Lock()
	defer db.lock.Unlock()
	for k, u := range db.users {
		if u.ID == id {
			delete(db.users, k)
		}
	}
	return nil
}
func (db *vMemDB) ListInactiveUsernames(ctx context.Context, limit time.Time) ([]string, error) {
	return nil, nil
}
func (db *vMemDB) ListNetworks(ctx context.Context, userID int64) ([]database.Network, error) {
	db.lock.Lock()
	defer db.lock.Unlock()
	return append([]database.Network(nil), db.networks[userID]...), nil
}
func (db *vMemDB) StoreNetwork(ctx context.Context, userID int64, n *database.Network) error {
	db.lock.Lock()
	defer db.lock.Unlock()
	if n.ID == 0 {
		n.ID = db.id()
		db.networks[userID] = append(db.networks[userID], *n)
		return nil
	}
	for i := range db.networks[userID] {
		if db.networks[userID][i].ID == n.ID {
			db.networks[userID][i] = *n
		}
	}
	return nil
}
func (db *vMemDB) DeleteNetwork(ctx context.Context, id int64) error {
	db.lock.Lock()
	defer db.lock.Unlock()
	db.deleted = append(db.deleted, id)
	for u, l := range db.networks {
		var o []database.Network
		for _, n := range l {
			if n.ID != id {
				o = append(o, n)
			}
		}
		db.networks[u] = o
	}
	return nil
}
func (db *vMemDB) ListChannels(ctx context.Context, networkID int64) ([]database.Channel, error) {
	db.lock.Lock()
	defer db.lock.Unlock()
	return append([]database.Channel(nil), db.channels[networkID]...), nil
}
func (db *vMemDB) StoreChannel(ctx context.Context, networkID int64, ch *database.Channel) error {
	db.lock.Lock()
	defer db.lock.Unlock()
	if ch.ID == 0 {
		ch.ID = db.id()
		db.channels[networkID] = append(db.channels[networkID], *ch)
		return nil
	}
	for i := range db.channels[networkID] {
		if db.channels[networkID][i].ID == ch.ID {
			db.channels[networkID][i] = *ch
		}
	}
	return nil
}
func (db *vMemDB) DeleteChannel(ctx context.Context, id int64) error {
	db.lock.Lock()
	defer db.lock.Unlock()
	for u, l := range db.channels {
		var o []database.Channel
		for _, n := range l {
			if n.ID != id {
				o = append(o, n)
			}
		}
		db.channels[u] = o
	}
	return nil
}
func (db *vMemDB) ListDeliveryReceipts(ctx context.Context, networkID int64) ([]database.DeliveryReceipt, error) {
	return nil, nil
}
func (db *vMemDB) StoreClientDeliveryReceipts(ctx context.Context, networkID int64, client string, receipts []database.DeliveryReceipt) error {
	return nil
}
func (db *vMemDB) GetReadReceipt(ctx context.Context, networkID int64, name string) (*database.ReadReceipt, error) {
	db.lock.Lock()
	defer db.lock.Unlock()
	r, ok := db.read[fmt.Sprintf("%d/%s", networkID, name)]
	if !ok {
		return nil, nil
	}
	return &r, nil
}
func (db *vMemDB) StoreReadReceipt(ctx context.Context, networkID int64, r *database.ReadReceipt) error {
	db.lock.Lock()
	defer db.lock.Unlock()
	if r.ID == 0 {
		r.ID = db.id()
	}
	db.read[fmt.Sprintf("%d/%s", networkID, r.Target)] = *r
	return nil
}
func (db *vMemDB) ListWebPushConfigs(ctx context.Context) ([]database.WebPushConfig, error) {
	return nil, nil
}
func (db *vMemDB) StoreWebPushConfig(ctx context.Context, config *database.WebPushConfig) error {
	return nil
}
func (db *vMemDB) ListWebPushSubscriptions(ctx context.Context, userID, networkID int64) ([]database.WebPushSubscription, error) {
	return nil, nil
}
func (db *vMemDB) StoreWebPushSubscription(ctx context.Context, userID, networkID int64, sub *database.WebPushSubscription) error {
	return nil
}
func (db *vMemDB) DeleteWebPushSubscription(ctx context.Context, id int64) error { return nil }

// addUser stores a user whose password is its name, hashed cheaply.
func (db *vMemDB) addUser(name string, admin bool) *database.User {
	u := database.NewUser(name)
	u.Admin = admin
	h, err := bcrypt.GenerateFromPassword([]byte(name), bcrypt.MinCost)
	if err != nil {
		panic(err)
	}
	u.Password = string(h)
	if err := db.StoreUser(context.Background(), u); err != nil {
		panic(err)
	}
	return u
}

func (db *vMemDB) addNetwork(u *database.User, name, addr string) *database.Network {
	n := database.NewNetwork(addr)
	n.Name = name
	if err := db.StoreNetwork(context.Background(), u.ID, n); err != nil {
		panic(err)
	}
	return n
}

func (db *vMemDB) user(name string) (database.User, bool) {
	db.lock.Lock()
	defer db.lock.Unlock()
	u, ok := db.users[name]
	return u, ok
}

func vServer(t *testing.T, db database.Database, conf func(*Config)) *Server {
	srv := NewServer(db)
	srv.Logger = NewLogger(io.Discard, false)
	if conf != nil {
		cfg := *srv.Config()
		conf(&cfg)
		srv.SetConfig(&cfg)
	}
	if err := srv.Start(); err != nil {
		t.Fatalf("failed to start server: %v", err)
	}
	t.Cleanup(func() {
		done := make(chan struct{})
		go func() { srv.Shutdown(); close(done) }()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
		}
	})
	return srv
}

// vConn is one end of an IRC connection, read by a goroutine of its own.
type vConn struct {
	c    ircConn
	msgs chan *irc.Message
	log  []string
}

func newVConn(c net.Conn) *vConn {
	vc := &vConn{c: newNetIRCConn(c), msgs: make(chan *irc.Message, 4096)}
	go func() {
		defer close(vc.msgs)
		for {
			m, err := vc.c.ReadMessage()
			if err != nil {
				return
			}
			vc.msgs <- m
		}
	}()
	return vc
}

func vDial(t *testing.T, srv *Server) *vConn {
	c1, c2 := net.Pipe()
	go srv.Handle(newNetIRCConn(c1))
	vc := newVConn(c2)
	t.Cleanup(func() { c2.Close() })
	return vc
}

func vDialAdmin(t *testing.T, srv *Server) *vConn {
	c1, c2 := net.Pipe()
	go srv.HandleAdmin(newNetIRCConn(c1))
	vc := newVConn(c2)
	t.Cleanup(func() { c2.Close() })
	return vc
}

func (vc *vConn) send(format string, a ...any) {
	m, err := irc.ParseMessage(fmt.Sprintf(format, a...))
	if err != nil {
		panic(err)
	}
	vc.write(m)
}

func (vc *vConn) write(m *irc.Message) {
	vc.c.SetWriteDeadline(time.Now().Add(5 * time.Second))
	vc.c.WriteMessage(m)
}

// next returns the next message, or nil if the connection was closed or
// nothing came in time.
func (vc *vConn) next(d time.Duration) *irc.Message {
	select {
	case m := <-vc.msgs:
		return m
	case <-time.After(d):
		return nil
	}
}

// until collects messages up to one with one of the commands; ok is false if
// none came.
func (vc *vConn) until(d time.Duration, cmds ...string) (l []*irc.Message, ok bool) {
	end := time.Now().Add(d)
	for {
		m := vc.next(time.Until(end))
		if m == nil {
			return l, false
		}
		l = append(l, m)
		for _, c := range cmds {
			if m.Command == c {
				return l, true
			}
		}
	}
}

// sync waits until everything sent so far has been answered.
func (vc *vConn) sync() []*irc.Message {
	vc.send("PING vsync")
	l, _ := vc.until(5*time.Second, "PONG")
	return l
}

// login registers with a password; it reports whether the server welcomed the
// client.
func (vc *vConn) login(user, pass string) bool {
	vc.send("PASS :%s", pass)
	vc.send("NICK %s", "n"+strings.Split(user, "/")[0])
	vc.send("USER %s 0 * :r", user)
	l, ok := vc.until(10*time.Second, irc.RPL_WELCOME, irc.ERR_PASSWDMISMATCH, "ERROR")
	return ok && l[len(l)-1].Command == irc.RPL_WELCOME
}

// serv sends a command to the service and returns the replies.
func (vc *vConn) serv(cmd string) []string {
	vc.sync()
	vc.send("PRIVMSG BouncerServ :%s", cmd)
	var l []string
	ms := vc.sync()
	for _, m := range ms {
		if m.Command == "PRIVMSG" && len(m.Params) == 2 {
			l = append(l, m.Params[1])
		}
	}
	return l
}

// vUpstream is a fake IRC server.
type vUpstream struct {
	t    *testing.T
	ln   net.Listener
	addr string
}

func newVUpstream(t *testing.T) *vUpstream {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatalf("listen: %v", err)
	}
	t.Cleanup(func() { ln.Close() })
	return &vUpstream{t: t, ln: ln, addr: "irc+insecure://" + ln.Addr().String()}
}

func (vu *vUpstream) accept() *vConn {
	vu.ln.(*net.TCPListener).SetDeadline(time.Now().Add(10 * time.Second))
	c, err := vu.ln.Accept()
	if err != nil {
		vu.t.Fatalf("upstream: no connection: %v", err)
	}
	vu.t.Cleanup(func() { c.Close() })
	return newVConn(c)
}

// welcome completes the registration of a bouncer's connection, with caps
// offered in CAP LS, and returns the nickname it uses.
func (vc *vConn) welcome(caps string, isupport ...string) string {
	nick := "*"
	end := time.Now().Add(10 * time.Second)
	user, capEnd := false, caps == ""
	for !(user && capEnd) {
		m := vc.next(time.Until(end))
		if m == nil {
			return nick
		}
		vc.log = append(vc.log, m.String())
		switch m.Command {
		case "CAP":
			switch m.Params[0] {
			case "LS":
				if caps != "" {
					vc.send(":up CAP * LS :%s", caps)
				}
			case "REQ":
				vc.send(":up CAP * ACK :%s", m.Params[1])
			case "END":
				capEnd = true
			}
		case "NICK":
			nick = m.Params[0]
		case "USER":
			user = true
		}
	}
	vc.send(":up 001 %s :Welcome", nick)
	vc.send(":up 002 %s :host", nick)
	vc.send(":up 003 %s :created", nick)
	vc.send(":up 004 %s up soju aiwroO OovaimnqpsrtklbeI", nick)
	for _, is := range isupport {
		vc.send(":up 005 %s %s :are supported", nick, is)
	}
	vc.send(":up 422 %s :No MOTD", nick)
	return nick
}
