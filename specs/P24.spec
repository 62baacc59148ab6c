property P24
package soju
option exclude contrib/ cmd/
option inline 30
option purefunc xirc.CaseMapping

ghost nfld(string) int
ghost fld(string, int) string
trusted strings.Fields(s) (l)
ensures len(l) == nfld(s) && fresh(l) && forall(i, 0, len(l), l[i] == fld(s, i) && len(l[i]) >= 1)
modifies nothing
# what was stored last
gvar nstored int
gvar storedUser string
gvar storedPass string
gvar storedMech string
trusted database.Database.StoreNetwork(db, ctx, userID, network) (err)
ensures nstored == old(nstored) + 1 && storedUser == network.SASL.Plain.Username && storedPass == network.SASL.Plain.Password && storedMech == network.SASL.Mechanism
modifies network.ID
ghostmod nstored, storedUser, storedPass, storedMech

# the client whose command was answered, and the command
gvar deq *soju.downstreamConn
gvar deqMsg *irc.Message
# the command answered since the function at hand was entered
gvar deqCmd string
global deqCmd == ""
# the server's command being handled (NICKSERV: a client's message to NickServ)
gvar curCmd string
func soju.parseNickServCredentials(text, nick) (username, password, ok)
let n = nfld(text)
let cmd = strings.ToUpper(fld(text, 0))
let known = n >= 2 && (cmd == "REGISTER" || cmd == "IDENTIFY" || (cmd == "SET" && n == 3 && strings.EqualFold(fld(text, 1), "PASSWORD")))
ensures [known] ok == known
ensures [password] ok ==> password == ite(cmd == "REGISTER" || (cmd == "IDENTIFY" && n == 2), fld(text, 1), fld(text, 2))
ensures [username] ok ==> username == ite(cmd == "IDENTIFY" && n > 2, fld(text, 1), nick)
ensures [nonempty] ok ==> password != ""
modifies nothing

trusted (*soju.upstreamConn).dequeueCommand(uc, cmd) (dc, msg)
ensures deq == dc && deqMsg == msg && deqCmd == cmd
modifies M:map[string][]soju.pendingUpstreamCommand, F:soju.pendingUpstreamCommand.*, E:soju.pendingUpstreamCommand
ghostmod deq, deqMsg, deqCmd
func (*soju.network).autoSaveSASLPlain(net, ctx, username, password)
requires [exchange] deqCmd == "AUTHENTICATE" ==> (deq != nil && deq.sasl != nil && deq.sasl.plain != nil && username == deq.sasl.plain.Username && password == deq.sasl.plain.Password)
requires [registration] deqCmd == "REGISTER" ==> (len(deqMsg.Params) > 2 && password == deqMsg.Params[2])
requires [success] (curCmd == "903" && deqCmd == "AUTHENTICATE" && deq != nil) || (curCmd == "REGISTER" && deqCmd == "REGISTER" && deq != nil) || (curCmd == "NICKSERV" && deqCmd == "")
let mech = net.Network.SASL.Mechanism
let other = mech != "" && mech != "PLAIN"
ensures [kept] other ==> (net.Network.SASL.Mechanism == mech && net.Network.SASL.Plain.Username == old(net.Network.SASL.Plain.Username) && net.Network.SASL.Plain.Password == old(net.Network.SASL.Plain.Password) && nstored == old(nstored))
ensures [set] !other ==> (net.Network.SASL.Mechanism == "PLAIN" && net.Network.SASL.Plain.Username == username && net.Network.SASL.Plain.Password == password)
ensures [stored] !other ==> (nstored == old(nstored) + 1 && storedUser == username && storedPass == password && storedMech == "PLAIN")

# a server's message makes the bouncer store credentials only as the success
# of an exchange
func (*soju.upstreamConn).handleMessage(uc, ctx, msg) (err)
assumes curCmd == msg.Command

func (*soju.downstreamConn).handleNickServPRIVMSG(dc, ctx, uc, text)
assumes curCmd == "NICKSERV"
let n = nfld(text)
let cmd = strings.ToUpper(fld(text, 0))
let known = n >= 2 && (cmd == "REGISTER" || cmd == "IDENTIFY" || (cmd == "SET" && n == 3 && strings.EqualFold(fld(text, 1), "PASSWORD")))
let mech = uc.network.Network.SASL.Mechanism
let pw = ite(cmd == "REGISTER" || (cmd == "IDENTIFY" && n == 2), fld(text, 1), fld(text, 2))
ensures [saved] (known && (mech == "" || mech == "PLAIN")) ==> (nstored == old(nstored) + 1 && storedPass == pw)
ensures [ignored] (!known || (mech != "" && mech != "PLAIN")) ==> (nstored == old(nstored) && uc.network.Network.SASL.Plain.Password == old(uc.network.Network.SASL.Plain.Password))


helper soju.parseMessageParams(msg, out) (err)
ensures [short] (err == nil) == (len(msg.Params) >= len(out))
ensures [last] (err == nil && len(out) > 0 && out[len(out)-1] != nil) ==> *out[len(out)-1] == msg.Params[len(out)-1]
modifies C:string
loopinv [i int] (i >= 0 && out[i] != nil) ==> *out[i] == msg.Params[i]
