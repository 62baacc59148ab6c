property P02
package auth
option inline 60
option autosinks off

# ---- internal database ----
# hash(name): the password hash stored for an account
ghost hash(string) string
# matches(h, p): h is a bcrypt hash of p
ghost matches(string, string) bool

trusted database.Database.GetUser(db, ctx, name) (u, err)
ensures err == nil ==> (u != nil && fresh(u) && u.Username == name && u.Password == hash(name))
modifies nothing
trusted database.Database.StoreUser(db, ctx, user) (err)
requires [same password] user.Password == hash(user.Username) || (some(p, string, matches(hash(user.Username), p) && matches(user.Password, p)))
modifies user.ID
trusted golang.org/x/crypto/bcrypt.CompareHashAndPassword(h, p) (err)
ensures err == nil ==> matches(str(h), str(p))
modifies nothing
trusted golang.org/x/crypto/bcrypt.GenerateFromPassword(p, cost) (h, err)
ensures err == nil ==> (matches(str(h), str(p)) && fresh(ref(h)) && len(h) > 0)
modifies nothing
trusted golang.org/x/crypto/bcrypt.Cost(h) (c, err)
modifies nothing

func (*database.User).CheckPassword(u, password) (upgraded, err)
ensures [accepted] err == nil ==> (old(u.Password) != "" && matches(old(u.Password), password))
ensures [kept] (err == nil && !upgraded) ==> u.Password == old(u.Password)
ensures [renewed] u.Password == old(u.Password) || matches(u.Password, password)
ensures [name] u.Username == old(u.Username)
modifies u.Password

func (*database.User).SetPassword(u, password) (err)
ensures [set] err == nil ==> (matches(u.Password, password) && u.Password != "")
ensures [kept] err != nil ==> u.Password == old(u.Password)
modifies u.Password

func (auth.internal).AuthPlain(a, ctx, db, username, password) (err)
ensures [accepted] err == nil ==> (hash(username) != "" && matches(hash(username), password))

# ---- HTTP ----
ghost basicAuth(*http.Request, string, string) bool
ghost answers(*http.Response, *http.Request) bool
trusted (*net/http.Request).SetBasicAuth(req, username, password)
ensures basicAuth(req, username, password)
modifies nothing
trusted (*net/http.Client).Do(c, req) (resp, err)
ensures err == nil ==> (resp != nil && answers(resp, req))
modifies nothing

func (*auth.httpAuth).AuthPlain(a, ctx, db, username, password) (err)
ensures [accepted] err == nil ==> some(req, *http.Request, basicAuth(req, username, password) && some(resp, *http.Response, answers(resp, req) && resp.StatusCode == 200))

# ---- OAuth 2.0 ----
# says(d, name): the document read by d says the token is active and issued to name
ghost says(*json.Decoder, string) bool
ghost reads(*json.Decoder, io.Reader) bool
trusted encoding/json.NewDecoder(r) (d)
ensures d != nil && reads(d, r)
modifies nothing
trusted (*encoding/json.Decoder).Decode(d, v) (err)
ensures (err == nil && istype(v, *auth.oauth2Introspection) && as(v, *auth.oauth2Introspection).Active) ==> says(d, as(v, *auth.oauth2Introspection).Username)

func (*auth.oauth2).AuthOAuthBearer(a, ctx, db, token) (username, err)
ensures [named] err == nil ==> username != ""
ensures [active] err == nil ==> some(d, *json.Decoder, says(d, username) && some(resp, *http.Response, resp.StatusCode == 200 && reads(d, resp.Body) && some(req, *http.Request, answers(resp, req))))

# tokenOf(t): the account an OAuth 2.0 token was issued to
ghost tokenOf(string) string
trusted auth.OAuthBearerAuthenticator.AuthOAuthBearer(a, ctx, db, token) (username, err)
ensures err == nil ==> tokenOf(token) == username
modifies nothing
func (auth.OAuthPlainAuthenticator).AuthPlain(a, ctx, db, username, password) (err)
ensures [same user] err == nil ==> tokenOf(password) == username

# ---- the configured driver is the one used ----
func auth.New(driver, source) (a, err)
ensures [internal] (err == nil && driver == "internal") ==> (istype(a.Plain, auth.internal) && a.OAuthBearer == nil)
ensures [http] (err == nil && driver == "http") ==> (istype(a.Plain, *auth.httpAuth) && as(a.Plain, *auth.httpAuth).url == source && a.OAuthBearer == nil)
ensures [oauth2] (err == nil && driver == "oauth2") ==> (istype(a.OAuthBearer, *auth.oauth2) && (a.Plain == nil || istype(a.Plain, auth.OAuthPlainAuthenticator)))
ensures [known] err == nil ==> (driver == "internal" || driver == "http" || driver == "oauth2" || driver == "pam")
func auth.newOAuth2(authURL) (a, err)
ensures [bearer] err == nil ==> (a != nil && istype(a.OAuthBearer, *auth.oauth2) && a.Plain == nil)
