//pkg: auth
package auth

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"testing"

	"golang.org/x/crypto/bcrypt"

	"codeberg.org/emersion/soju/database"
)

type vDB struct {
	database.Database
	users  map[string]database.User
	stored map[string]database.User
}

func (db *vDB) GetUser(ctx context.Context, name string) (*database.User, error) {
	u, ok := db.users[name]
	if !ok {
		return nil, fmt.Errorf("no such user")
	}
	return &u, nil
}

func (db *vDB) StoreUser(ctx context.Context, u *database.User) error {
	db.stored[u.Username] = *u
	return nil
}

func vHash(p string, cost int) string {
	h, err := bcrypt.GenerateFromPassword([]byte(p), cost)
	if err != nil {
		panic(err)
	}
	return string(h)
}

func TestVerifInternal(t *testing.T) {
	db := &vDB{users: map[string]database.User{
		"alice": {ID: 1, Username: "alice", Password: vHash("secret", bcrypt.MinCost)},
		"bob":   {ID: 2, Username: "bob", Password: vHash("hunter2", bcrypt.DefaultCost)},
		"nopw":  {ID: 3, Username: "nopw"},
		"bad":   {ID: 4, Username: "bad", Password: "garbage"},
		"empty": {ID: 5, Username: "empty", Password: vHash("", bcrypt.MinCost)},
	}}
	right := map[string]string{"alice": "secret", "bob": "hunter2", "empty": ""}
	names := []string{"alice", "bob", "nopw", "bad", "empty", "Alice", "", "carol"}
	pws := []string{"", "secret", "hunter2", "Secret", "secret ", "secre", "garbage", vHash("secret", bcrypt.MinCost), db.users["alice"].Password}
	for _, n := range names {
		for _, p := range pws {
			db.stored = map[string]database.User{}
			err := NewInternal().Plain.AuthPlain(context.Background(), db, n, p)
			want, known := right[n]
			if ok := known && want == p; (err == nil) != ok {
				t.Fatalf("FAILING-INPUT: internal authentication of %q with password %q: err=%v", n, p, err)
			}
			for _, u := range db.stored {
				if u.Username != n || err != nil || bcrypt.CompareHashAndPassword([]byte(u.Password), []byte(p)) != nil {
					t.Fatalf("FAILING-INPUT: authentication of %q with %q stored %+v", n, p, u)
				}
			}
		}
	}
}

func TestVerifHTTP(t *testing.T) {
	for code := 100; code < 600; code++ {
		if code < 200 || code == 204 || code == 304 {
			continue
		}
		var gotU, gotP string
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			gotU, gotP, _ = r.BasicAuth()
			w.WriteHeader(code)
		}))
		a, err := New("http", srv.URL)
		if err != nil {
			t.Fatal(err)
		}
		err = a.Plain.AuthPlain(context.Background(), nil, "alice", "pw")
		srv.Close()
		if (err == nil) != (code == 200) {
			t.Fatalf("FAILING-INPUT: HTTP auth server answered %d: err=%v", code, err)
		}
		if gotU != "alice" || gotP != "pw" {
			t.Fatalf("FAILING-INPUT: HTTP auth server was asked about %q %q", gotU, gotP)
		}
	}
}

func TestVerifOAuth2(t *testing.T) {
	for _, code := range []int{200, 201, 202, 301, 400, 401, 403, 404, 500} {
		for _, active := range []any{true, false, nil} {
			for _, name := range []any{"alice", "", nil, "Alice"} {
				var gotToken string
				srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
					gotToken = r.FormValue("token")
					w.WriteHeader(code)
					m := map[string]any{}
					if active != nil {
						m["active"] = active
					}
					if name != nil {
						m["username"] = name
					}
					json.NewEncoder(w).Encode(m)
				}))
				u, _ := url.Parse(srv.URL)
				o := &oauth2{introspectionURL: u}
				user, err := o.AuthOAuthBearer(context.Background(), nil, "tok")
				p := OAuthPlainAuthenticator{OAuthBearer: o}
				perr := p.AuthPlain(context.Background(), nil, "alice", "tok")
				eerr := p.AuthPlain(context.Background(), nil, "", "tok")
				srv.Close()
				want := code == 200 && active == true && name != nil && name != ""
				if (err == nil) != want || want && user != name {
					t.Fatalf("FAILING-INPUT: introspection status=%d active=%v username=%v: got %q, %v", code, active, name, user, err)
				}
				if want && gotToken != "tok" {
					t.Fatalf("FAILING-INPUT: introspected token %q", gotToken)
				}
				if (perr == nil) != (want && name == "alice") || eerr == nil {
					t.Fatalf("FAILING-INPUT: OAuth plain: introspection status=%d active=%v username=%v: %v, %v", code, active, name, perr, eerr)
				}
			}
		}
	}
}
