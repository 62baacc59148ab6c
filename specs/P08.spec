property P08
package soju
option exclude contrib/ cmd/
option autosinks off
sink (*soju.conn).SendMessage

gvar nsent int
gvar sent *irc.Message

trusted (*gopkg.in/irc.v4.Message).Copy(m) (n)
ensures n != nil && fresh(n) && n.Command == m.Command
ensures n.Tags != nil && fresh(n.Tags) && all(k, string, has(n.Tags, k) == has(m.Tags, k) && n.Tags[k] == m.Tags[k])
ensures (n.Prefix == nil) == (m.Prefix == nil)
ensures m.Prefix != nil ==> (fresh(n.Prefix) && n.Prefix.Name == m.Prefix.Name && n.Prefix.User == m.Prefix.User && n.Prefix.Host == m.Prefix.Host)
ensures len(n.Params) == len(m.Params) && (len(m.Params) > 0 ==> fresh(n.Params)) && forall(i, 0, len(m.Params), n.Params[i] == m.Params[i])
modifies nothing

# what is handed to a client's connection
trusted (*soju.conn).SendMessage(c, ctx, msg)
requires [tagmsg] all(d, *soju.downstreamConn, (d.conn == c && !has(d.caps.Enabled, "message-tags")) ==> msg.Command != "TAGMSG")
requires [tags] all(d, *soju.downstreamConn, (d.conn == c && !has(d.caps.Enabled, "message-tags")) ==> all(k, string, has(msg.Tags, k) ==> (k == "time" || k == "account" || k == "batch")))
requires [tag time] all(d, *soju.downstreamConn, (d.conn == c && !has(d.caps.Enabled, "message-tags") && !has(d.caps.Enabled, "server-time")) ==> !has(msg.Tags, "time"))
requires [tag account] all(d, *soju.downstreamConn, (d.conn == c && !has(d.caps.Enabled, "message-tags") && !has(d.caps.Enabled, "account-tag")) ==> !has(msg.Tags, "account"))
requires [tag batch] all(d, *soju.downstreamConn, (d.conn == c && !has(d.caps.Enabled, "message-tags") && !has(d.caps.Enabled, "batch")) ==> !has(msg.Tags, "batch"))
requires [batch] all(d, *soju.downstreamConn, (d.conn == c && !has(d.caps.Enabled, "batch")) ==> msg.Tags["batch"] == "")
requires [join] all(d, *soju.downstreamConn, (d.conn == c && !has(d.caps.Enabled, "extended-join") && msg.Command == "JOIN") ==> len(msg.Params) == 1)
requires [setname] all(d, *soju.downstreamConn, (d.conn == c && !has(d.caps.Enabled, "setname")) ==> msg.Command != "SETNAME")
requires [chghost] all(d, *soju.downstreamConn, (d.conn == c && !has(d.caps.Enabled, "chghost")) ==> msg.Command != "CHGHOST")
requires [away] all(d, *soju.downstreamConn, (d.conn == c && !has(d.caps.Enabled, "away-notify")) ==> msg.Command != "AWAY")
requires [account] all(d, *soju.downstreamConn, (d.conn == c && !has(d.caps.Enabled, "account-notify")) ==> msg.Command != "ACCOUNT")
requires [markread] all(d, *soju.downstreamConn, (d.conn == c && !has(d.caps.Enabled, "draft/read-marker")) ==> msg.Command != "MARKREAD")
requires [read] all(d, *soju.downstreamConn, (d.conn == c && !has(d.caps.Enabled, "soju.im/read")) ==> msg.Command != "READ")
requires [batchline] all(d, *soju.downstreamConn, (d.conn == c && !has(d.caps.Enabled, "batch")) ==> msg.Command != "BATCH")
requires [source] all(d, *soju.downstreamConn, (d.conn == c && len(msg.Command) == 3 && forall(i, 0, 3, msg.Command[i] >= '0' && msg.Command[i] <= '9')) ==> msg.Prefix != nil)
ensures nsent == old(nsent) + 1 && sent == msg
modifies nothing
ghostmod nsent, sent

func soju.isNumeric(cmd) (res)
ensures res == (len(cmd) == 3 && forall(i, 0, 3, cmd[i] >= '0' && cmd[i] <= '9'))
modifies nothing
loopinv [i int] len(cmd) == 3 && i >= 0 && i <= 3 && forall(j, 0, i, cmd[j] >= '0' && cmd[j] <= '9')

helper (*soju.Server).prefix(s) (p)
ensures p != nil && fresh(p)
modifies nothing

func (*soju.downstreamConn).SendMessage(dc, ctx, msg)
let E = dc.caps.Enabled
let cmd = msg.Command
let tags = has(E, "message-tags")
let gated = (cmd == "TAGMSG" && !tags) || (cmd == "SETNAME" && !has(E, "setname")) || (cmd == "CHGHOST" && !has(E, "chghost")) || (cmd == "AWAY" && !has(E, "away-notify")) || (cmd == "ACCOUNT" && !has(E, "account-notify")) || (cmd == "MARKREAD" && !has(E, "draft/read-marker")) || (cmd == "READ" && !has(E, "soju.im/read"))
assumes all(d, *soju.downstreamConn, d.conn == dc.conn ==> d == dc)
requires [batchline] cmd == "BATCH" ==> has(E, "batch")
assumes cmd == "JOIN" ==> len(msg.Params) >= 1
ensures [delivered] !gated ==> (nsent == old(nsent) + 1 && sent.Command == cmd)
ensures [withheld] gated ==> nsent == old(nsent)
ensures [params] !gated ==> (ite(cmd == "JOIN" && !has(E, "extended-join"), len(sent.Params) == 1, len(sent.Params) == len(msg.Params)) && forall(i, 0, len(sent.Params), sent.Params[i] == msg.Params[i]))
ensures [source] (!gated && msg.Prefix != nil && msg.Prefix.Name != "*") ==> (sent.Prefix != nil && sent.Prefix.Name == msg.Prefix.Name && sent.Prefix.User == msg.Prefix.User && sent.Prefix.Host == msg.Prefix.Host)
ensures [keeptags] !gated ==> all(k, string, (has(msg.Tags, k) && ite(k == "batch", has(E, "batch"), tags || (k == "time" && has(E, "server-time")) || (k == "account" && has(E, "account-tag")))) ==> (has(sent.Tags, k) && sent.Tags[k] == msg.Tags[k]))
ensures [newtags] !gated ==> all(k, string, has(sent.Tags, k) ==> has(msg.Tags, k))
modifies nothing
ghostmod nsent, sent
loopinv [m *irc.Message] all(k, string, visited(k) ==> (has(m.Tags, k) ==> ((k == "time" && has(E, "server-time")) || (k == "account" && has(E, "account-tag")) || (k == "batch" && has(E, "batch")))))
loopinv [m *irc.Message] all(k, string, has(m.Tags, k) ==> (has(msg.Tags, k) && m.Tags[k] == msg.Tags[k]))
loopinv [m *irc.Message] all(k, string, (has(msg.Tags, k) && ((k == "time" && has(E, "server-time")) || (k == "account" && has(E, "account-tag")) || (k == "batch" && has(E, "batch")))) ==> has(m.Tags, k))

# connections that are not a client's
trusted soju.newConn(srv, ic, options) (c)
ensures c != nil && fresh(c) && all(d, *soju.downstreamConn, d.conn != c)
assumption a connection just created by newConn belongs to no client yet
func (*soju.upstreamConn).SendMessage(uc, ctx, msg)
assumes all(d, *soju.downstreamConn, d.conn != uc.conn)

root (*soju.downstreamConn).SendBatch
assumption BATCH lines are sent by SendBatch only
