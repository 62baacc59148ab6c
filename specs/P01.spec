property P01
package soju
option inline 60
option exclude contrib/ cmd/

# accepted(name, pw): the configured authenticator accepted name and pw
ghost accepted(string, string) bool
# proven(name): the client proved to be name
ghost proven(string) bool
ghost isAdmin(string) bool
ghost known(string) bool

# mayUse(name): the client proved to be name, or an administrator, name being
# an existing account
ghost mayUse(string) bool
axiom all(v, string, proven(v) ==> mayUse(v))
axiom all(v, string, all(a, string, (proven(a) && isAdmin(a) && known(v)) ==> mayUse(v)))

trusted auth.PlainAuthenticator.AuthPlain(a, ctx, db, username, password) (err)
ensures err == nil ==> (accepted(username, password) && proven(username))
modifies nothing
trusted auth.OAuthBearerAuthenticator.AuthOAuthBearer(a, ctx, db, token) (username, err)
ensures err == nil ==> (username != "" && proven(username))
modifies nothing
assumption the authenticators honour property P02
trusted database.Database.GetUser(db, ctx, name) (u, err)
ensures err == nil ==> (u != nil && u.Username == name && known(name) && (u.Admin ==> isAdmin(name)))
modifies nothing

# the account a connection may use
store soju.downstreamRegistration.authUsername(o, v): v == "" || mayUse(v)
objinv soju.downstreamRegistration(g): g.authUsername == "" || mayUse(g.authUsername)
store soju.downstreamConn.registered(o, v): v ==> mayUse(o.registration.authUsername)

# USER names: what precedes the first "/" or "@"
trusted strings.IndexAny(s, chars) (i)
ensures i >= -1 && i < len(s)
ensures chars == "/@" ==> ((i >= 0 ==> (s[i] == '/' || s[i] == '@')) && forall(k, 0, ite(i >= 0, i, len(s)), s[k] != '/' && s[k] != '@'))
modifies nothing
trusted strings.LastIndexAny(s, chars) (i)
ensures i >= -1 && i < len(s)
ensures chars == "/@" ==> ((i >= 0 ==> (s[i] == '/' || s[i] == '@')) && forall(k, ite(i >= 0, i + 1, 0), len(s), s[k] != '/' && s[k] != '@'))
modifies nothing
func soju.unmarshalUsername(raw) (username, client, network)
ensures [prefix] len(username) <= len(raw) && username == raw[:len(username)]
ensures [plain] forall(k, 0, len(username), raw[k] != '/' && raw[k] != '@')
ensures [whole] len(username) < len(raw) ==> (raw[len(username)] == '/' || raw[len(username)] == '@')
modifies nothing

func (*soju.downstreamConn).register(dc, ctx) (err)
let raw = dc.registration.username
let pw = dc.registration.pass
let sasl = dc.registration.authUsername
assumes dc.registration != nil
ensures [registered] err == nil ==> dc.registered
ensures [kept] (err == nil && sasl != "") ==> dc.registration.authUsername == sasl
ensures [password] (err == nil && sasl == "") ==> (pw != "" && accepted(dc.registration.authUsername, pw) && dc.registration.authUsername == raw[:len(dc.registration.authUsername)])
ensures [name] err == nil ==> dc.username == dc.registration.authUsername
ensures [spent] dc.registration.pass == ""

# a connection is handed to the goroutine of the account it may use
send soju.eventDownstreamConnected(v, ch): v.dc.registered && some(u, *soju.user, u.events == ch && u.User.Username == v.dc.registration.authUsername)
helper (*soju.downstreamConn).runUntilRegistered(dc) (err)
ensures [registered] err == nil ==> dc.registered
helper (*soju.Server).getOrCreateUser(s, ctx, username) (u, err)
ensures [kept1] all(d, *soju.downstreamConn, d.registration == old(d.registration))
ensures [kept2] all(g, *soju.downstreamRegistration, g.authUsername == old(g.authUsername))
ensures [named] err == nil ==> (u != nil && u.User.Username == username)
helper (*soju.Server).getUser(s, name) (u)
assumes all(k, string, has(s.users, k) ==> (s.users[k] != nil && s.users[k].User.Username == k))
ensures [named] u == nil || u.User.Username == name
modifies nothing

# and used only if the account is enabled
helper (*soju.downstreamConn).welcome(dc, ctx, user) (err)
requires [enabled] user.User.Enabled
helper (*soju.Server).addUserLocked(s, user) (u)
ensures [kept1] all(d, *soju.downstreamConn, d.registration == old(d.registration))
ensures [kept2] all(g, *soju.downstreamRegistration, g.authUsername == old(g.authUsername))
ensures [named] u != nil && s.users[user.Username] == u && u.User.Username == user.Username
helper (*soju.Server).createUser(s, ctx, user) (u, err)
ensures [kept1] all(d, *soju.downstreamConn, d.registration == old(d.registration))
ensures [kept2] all(g, *soju.downstreamRegistration, g.authUsername == old(g.authUsername))
ensures [named] err == nil ==> (u != nil && u.User.Username == old(user.Username))
trusted database.Database.StoreUser(db, ctx, user) (err)
modifies user.ID
