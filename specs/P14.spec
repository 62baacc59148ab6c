property P14
package soju
option exclude contrib/ cmd/
option autosinks off

ghost b64(string) string
ghost unb64(string) string
ghost valid64(string) bool
# fed: what the mechanism was last given; nfed: how often
gvar fed string
gvar nfed int
gvar nsent int

trusted (*encoding/base64.Encoding).EncodeToString(enc, src) (s)
ensures s == b64(str(src))
modifies nothing
trusted (*encoding/base64.Encoding).DecodeString(enc, s) (b, err)
ensures (err == nil) == valid64(s)
ensures err == nil ==> (str(b) == unb64(s) && fresh(b))
modifies nothing
trusted github.com/emersion/go-sasl.Server.Next(s, response) (challenge, done, err)
ensures fed == str(response) && nfed == old(nfed) + 1
modifies F:soju.downstreamSASL.plain, F:soju.downstreamSASL.oauthBearer, C:*
ghostmod fed, nfed
trusted (*soju.downstreamConn).SendMessage(dc, ctx, msg)
ensures nsent == old(nsent) + 1
modifies nothing
ghostmod nsent

func (*soju.downstreamConn).handleAuthenticate(dc, ctx, msg) (result, err)
let param = msg.Params[0]
let chunk = ite(param == "+", "", param)
let going = dc.sasl != nil
let s = dc.sasl
let before = str(dc.sasl.pendingResp)
let whole = before + chunk
let fits = len(str(dc.sasl.pendingResp)) + len(chunk) <= 10240
let usable = has(dc.caps.Enabled, "sasl") && len(msg.Params) > 0 && param != "*"
ensures [dropped] err != nil ==> (dc.sasl == nil && result == nil)
ensures [unusable] !usable ==> (err != nil && nfed == old(nfed))
ensures [more] (usable && going && fits && len(chunk) == 400) ==> (err == nil && result == nil && dc.sasl == s && str(s.pendingResp) == whole && nfed == old(nfed) && nsent == old(nsent))
ensures [toolong] (usable && going && !fits) ==> (err != nil && nfed == old(nfed))
ensures [fed] (usable && going && fits && len(chunk) != 400 && valid64(whole)) ==> (nfed == old(nfed) + 1 && fed == unb64(whole))
ensures [invalid] (usable && going && fits && len(chunk) != 400 && !valid64(whole)) ==> (err != nil && nfed == old(nfed))
ensures [spent] (usable && going && len(chunk) != 400 && err == nil) ==> (dc.sasl == s && len(str(s.pendingResp)) == 0)
ensures [result] result != nil ==> result == dc.sasl
ensures [once] nfed <= old(nfed) + 1
ensures [answer] (err == nil && result == nil && !(going && len(chunk) == 400)) ==> nsent == old(nsent) + 1

package xirc
func xirc.GenerateSASL(resp) (msgs)
let e = b64(str(resp))
ensures [count] len(msgs) == len(e) / 400 + 1
ensures [chunks] forall(k, 0, len(msgs), msgs[k] != nil && msgs[k].Command == "AUTHENTICATE" && len(msgs[k].Params) == 1 && msgs[k].Params[0] == ite(400 * k == len(e), "+", e[400 * k:ite(400 * k + 400 > len(e), len(e), 400 * k + 400)]))
loopinv [i int, msgs []*irc.Message] i == 400 * len(msgs) && i >= 0 && i <= len(e) + 400 && forall(k, 0, len(msgs), msgs[k] != nil && live(msgs[k]) && live(msgs[k].Params) && msgs[k].Command == "AUTHENTICATE" && len(msgs[k].Params) == 1 && msgs[k].Params[0] == ite(400 * k == len(e), "+", e[400 * k:ite(400 * k + 400 > len(e), len(e), 400 * k + 400)]))
