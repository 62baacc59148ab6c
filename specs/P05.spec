property P05
package soju
option exclude contrib/ cmd/ database/
option autosinks off

# the network being connected to
gvar current *soju.network
# the scheme an address names
ghost declared(string) string
ghost hostOf(string) string
ghost hostPart(string) string
ghost hasPort(string) bool
# what the fingerprint of a certificate looks like, by algorithm
ghost digest(string, string) string
ghost hexOf(string) string

trusted net/url.Parse(s) (u, err)
ensures err == nil ==> (u != nil && fresh(u) && u.Scheme == declared(s) && u.Host == hostOf(s))
ensures strings.HasPrefix(s, "ircs://") ==> declared(s) == "ircs"
modifies nothing
trusted net.SplitHostPort(s) (host, port, err)
ensures (err == nil) == hasPort(s)
ensures err == nil ==> host == hostPart(s)
modifies nothing
trusted crypto/sha256.Sum256(data) (sum)
ensures str(sum) == digest("sha-256", str(data))
modifies nothing
trusted crypto/sha512.Sum512(data) (sum)
ensures str(sum) == digest("sha-512", str(data))
modifies nothing
trusted encoding/hex.EncodeToString(b) (s)
ensures s == hexOf(str(b)) && len(s) == 2 * len(b)
modifies nothing

trusted strings.SplitN(s, sep, n) (l)
ensures fresh(l) && len(l) >= 1
ensures (sep == ":" && n == 2 && strings.HasPrefix(s, "sha-256:")) ==> (len(l) == 2 && l[0] == "sha-256" && s == "sha-256:" + l[1])
ensures (sep == ":" && n == 2 && strings.HasPrefix(s, "sha-512:")) ==> (len(l) == 2 && l[0] == "sha-512" && s == "sha-512:" + l[1])
modifies nothing

sink crypto/tls.Client
trusted crypto/tls.Client(conn, config) (c)
let addr = ite(strings.Contains(current.Network.Addr, "://"), current.Network.Addr, "ircs://" + current.Network.Addr)
probe (certs, chains) (perr) = config.VerifyPeerCertificate
requires [pin] current.Network.CertFP == "" ==> !config.InsecureSkipVerify
requires [name] !config.InsecureSkipVerify ==> config.ServerName == ite(hasPort(hostOf(addr)), hostPart(hostOf(addr)), hostOf(addr))
requires [checked] current.Network.CertFP != "" ==> config.VerifyPeerCertificate != nil
requires [matches] (current.Network.CertFP != "" && perr == nil) ==> exists(i, 0, len(certs), current.Network.CertFP == "sha-256:" + hexOf(digest("sha-256", str(certs[i]))) || current.Network.CertFP == "sha-512:" + hexOf(digest("sha-512", str(certs[i]))))
requires [nocert] current.Network.SASL.Mechanism != "EXTERNAL" ==> len(config.Certificates) == 0
ensures c != nil && fresh(c) 
modifies nothing

# which network connection is underneath
ghost netOf(ircConn) net.Conn
trusted soju.newNetIRCConn(c) (ic)
ensures ic != nil && netOf(ic) == c
modifies nothing
trusted soju.newConn(srv, ic, options) (c)
ensures c != nil && fresh(c) && c.conn == ic
modifies nothing

func soju.connectToUpstream(ctx, network) (uc, err)
assumes current == network
assumes network.Network.CertFP == "" || strings.HasPrefix(network.Network.CertFP, "sha-256:") || strings.HasPrefix(network.Network.CertFP, "sha-512:")
let addr = ite(strings.Contains(current.Network.Addr, "://"), current.Network.Addr, "ircs://" + current.Network.Addr)
ensures [secured] err == nil ==> (uc != nil && (istype(netOf(uc.conn.conn), *tls.Conn) || declared(addr) == "irc+insecure" || declared(addr) == "irc+unix" || declared(addr) == "unix"))
ensures [network] err == nil ==> uc.network == network

# a pin is stored in a form the comparison understands
func (*soju.networkFlagSet).update(fs, network) (err)
ensures [pin] network.CertFP == old(network.CertFP) || network.CertFP == "" || (strings.HasPrefix(network.CertFP, "sha-256:") && len(network.CertFP) == 72) || (strings.HasPrefix(network.CertFP, "sha-512:") && len(network.CertFP) == 136)
ensures [kept] (fs.CertFP == nil || (err != nil)) ==> (network.CertFP == old(network.CertFP) || fs.CertFP != nil)
ensures [cleared] (old(network.CertFP) != "" && network.CertFP == "") ==> fs.CertFP != nil
assumption a network record read from the database holds what was stored there
