property P09
package soju
option exclude contrib/ cmd/
option autosinks off

# the i-th blank-separated word of a string
ghost nfld(string) int
ghost fld(string, int) string
# asked(s, k, b): one of the words of s asks to enable (b) or disable (!b) k
ghost asked(string, string, bool) bool
ghost wname(string) string
ghost wants(string) bool
trusted strings.Fields(s) (l)
ensures len(l) == nfld(s) && fresh(l) && forall(i, 0, len(l), l[i] == fld(s, i) && len(l[i]) >= 1 && asked(s, wname(l[i]), wants(l[i])))
modifies nothing

# what the last CAP reply said
gvar reply string
gvar subject string
trusted (*soju.downstreamConn).SendMessage(dc, ctx, msg)
ensures reply == ite(msg.Command == "CAP" && len(msg.Params) == 3, msg.Params[1], old(reply))
ensures subject == ite(msg.Command == "CAP" && len(msg.Params) == 3, msg.Params[2], old(subject))
modifies nothing
ghostmod reply, subject

helper soju.parseMessageParams(msg, out) (err)
requires [distinct] forall(i, 0, len(out), forall(j, 0, i, out[i] == nil || out[i] != out[j]))
ensures [short] (err == nil) == (len(msg.Params) >= len(out))
ensures [params] err == nil ==> forall(i, 0, len(out), out[i] != nil ==> *out[i] == msg.Params[i])
modifies C:string
loopinv [i int] forall(j, 0, i + 1, out[j] != nil ==> *out[j] == msg.Params[j])

# wname and wants: the capability a word names, and whether it asks for it
ghost lower(string) string
trusted strings.ToLower(s) (r)
ensures r == lower(s)
# a word wants a capability unless it starts with "-"
ensures wants(s) == !strings.HasPrefix(r, "-") && wname(s) == ite(wants(s), r, r[1:])
modifies nothing

func (*soju.downstreamConn).handleCap(dc, ctx, msg) (err)
assumes dc.caps.Enabled != nil && dc.caps.Available != nil && (!dc.registered ==> dc.registration != nil)
let sub = strings.ToUpper(msg.Params[0])
let req = len(msg.Params) >= 2 && sub == "REQ"
let arg = msg.Params[1]
let n = nfld(arg)
let E = dc.caps.Enabled
let A = dc.caps.Available
ensures [answered] req ==> (err == nil && (reply == "ACK" || reply == "NAK"))
ensures [nak] (req && reply == "NAK") ==> all(k, string, has(E, k) == old(has(E, k)))
ensures [added] (req && reply == "ACK") ==> all(k, string, (has(E, k) && !old(has(E, k))) ==> (has(A, k) && k != "soju.im/account-required" && asked(arg, k, true)))
ensures [removed] (req && reply == "ACK") ==> all(k, string, (!has(E, k) && old(has(E, k))) ==> (k != "soju.im/account-required" && (k != "cap-notify" || dc.capVersion < 302) && asked(arg, k, false)))
ensures [done] (req && reply == "ACK") ==> forall(i, 0, n, has(E, wname(fld(arg, i))) == wants(fld(arg, i)) || asked(arg, wname(fld(arg, i)), !wants(fld(arg, i))))
ensures [reason] (req && reply == "NAK") ==> exists(i, 0, n, wants(fld(arg, i)) != old(has(E, wname(fld(arg, i)))) && (!has(A, wname(fld(arg, i))) || wname(fld(arg, i)) == "soju.im/account-required" || (wname(fld(arg, i)) == "cap-notify" && dc.capVersion >= 302)))
ensures [others] !req ==> all(k, string, has(E, k) == old(has(E, k)) || (sub == "LS" && k == "cap-notify" && has(E, k) && dc.capVersion >= 302))
ensures [same] dc.caps.Enabled == E && dc.caps.Available == A
ensures [offer] (sub != "LS" || dc.registered) ==> all(k, string, has(A, k) == old(has(A, k)) && A[k] == old(A[k]))
ensures [wait] (err == nil && !dc.registered && (sub == "LS" || sub == "REQ")) ==> dc.registration.negotiatingCaps
ensures [end] (len(msg.Params) >= 1 && !dc.registered && sub == "END") ==> !dc.registration.negotiatingCaps
# first loop: what has been collected so far
loopinv [i int] i >= -1 && i < n
loopinv [m =mm] all(k, string, has(m, k) ==> (has(A, k) && m[k] != has(E, k)))
loopinv [m =mm] all(k, string, has(m, k) ==> (k != "soju.im/account-required" && (k == "cap-notify" && dc.capVersion >= 302 ==> m[k])))
loopinv [m =mm] all(k, string, has(m, k) ==> asked(arg, k, m[k]))
loopinv [m =mm, i int] forall(j, 0, i + 1, wants(fld(arg, j)) == has(E, wname(fld(arg, j))) || has(m, wname(fld(arg, j))))
# second loop: what has been applied
loopinv [m =mm] all(k, string, visited(k) ==> has(m, k))
loopinv [m =mm] all(k, string, has(E, k) == ite(visited(k), m[k], old(has(E, k))))
let mm = nmap()
ghost nmap() map[string]bool

func (*soju.downstreamConn).setSupportedCap(dc, ctx, name, value)
assumes dc.caps.Enabled != nil && dc.caps.Available != nil
ensures [offered] has(dc.caps.Available, name) && dc.caps.Available[name] == value
ensures [others] all(k, string, k != name ==> (has(dc.caps.Available, k) == old(has(dc.caps.Available, k)) && dc.caps.Available[k] == old(dc.caps.Available[k])))
ensures [enabled] all(k, string, has(dc.caps.Enabled, k) == old(has(dc.caps.Enabled, k)))
let news = has(dc.caps.Enabled, "cap-notify") && (!has(dc.caps.Available, name) || dc.caps.Available[name] != value)
ensures [announced] news ==> (reply == "NEW" && subject == ite(value != "" && dc.capVersion >= 302, name + "=" + value, name))
ensures [quiet] !news ==> (reply == old(reply) && subject == old(subject))
ensures [same] dc.caps.Enabled == old(dc.caps.Enabled) && dc.caps.Available == old(dc.caps.Available)
func (*soju.downstreamConn).unsetSupportedCap(dc, ctx, name)
assumes dc.caps.Enabled != nil && dc.caps.Available != nil
ensures [withdrawn] !has(dc.caps.Available, name) && !has(dc.caps.Enabled, name)
ensures [others] all(k, string, k != name ==> (has(dc.caps.Available, k) == old(has(dc.caps.Available, k)) && dc.caps.Available[k] == old(dc.caps.Available[k]) && has(dc.caps.Enabled, k) == old(has(dc.caps.Enabled, k))))
ensures [same] dc.caps.Enabled == old(dc.caps.Enabled) && dc.caps.Available == old(dc.caps.Available)
let news = name != "cap-notify" && has(dc.caps.Enabled, "cap-notify") && has(dc.caps.Available, name)
ensures [announced] news ==> (reply == "DEL" && subject == name)
ensures [quiet] !news ==> (reply == old(reply) && subject == old(subject))

# registration is held back until the negotiation is over
sink (*soju.downstreamConn).register
trusted (*soju.downstreamConn).register(dc, ctx) (err)
requires [negotiated] !dc.registration.negotiatingCaps
requires [complete] dc.registration.nick != "" && dc.registration.username != ""
