property P04
package soju
option exclude contrib/ cmd/ soju.user).updateUser
option inline 40

# wasEnabled(id): when this piece of code was entered, a network of that ID was enabled
ghost wasEnabled(int64) bool
global all(n, *soju.network, n.Network.Enabled ==> wasEnabled(n.Network.ID))
assumption wasEnabled is defined by the state in which a function is entered

# enabledOf(k): how many of the first k networks are enabled
ghost enabledOf(int) int

ghost declared(string) string
ghost hostOf(string) string
trusted net/url.Parse(s) (u, err)
ensures err == nil ==> (u != nil && fresh(u) && u.Scheme == declared(s) && u.Host == hostOf(s))
modifies nothing
trusted (*soju.Server).Config(s) (cfg)
ensures cfg != nil
pure
trusted database.Database.StoreNetwork(db, ctx, userID, network) (err)
modifies network.ID

func (*soju.user).canEnableNewNetwork(u) (err)
let lim = ite(u.User.MaxNetworks < 0, u.srv.Config().MaxUserNetworks, u.User.MaxNetworks)
requires [count] enabledOf(0) == 0 && forall(k, 0, len(u.networks), enabledOf(k + 1) == enabledOf(k) + ite(u.networks[k].Network.Enabled, 1, 0))
ensures [quota] err == nil ==> (lim < 0 || enabledOf(len(u.networks)) < lim)
ensures [free] err != nil ==> (lim >= 0 && enabledOf(len(u.networks)) >= lim)
modifies nothing
loopinv [n int, i2 int] n == enabledOf(i2 + 1) && i2 >= -1 && i2 < len(u.networks)

func (*soju.user).checkNetwork(u, record) (err)
let s = declared(ite(strings.Contains(record.Addr, "://"), record.Addr, "ircs://" + record.Addr))
let name = ite(record.Name != "", record.Name, record.Addr)
ensures [scheme] err == nil ==> (s == "ircs" || s == "irc+insecure" || s == "irc+unix" || s == "unix")
ensures [unix] (err == nil && (s == "irc+unix" || s == "unix")) ==> u.User.Admin
ensures [name] err == nil ==> (name != "" && !strings.HasPrefix(name, "-"))
ensures [unique] err == nil ==> forall(i, 0, len(u.networks), u.networks[i].Network.ID == record.ID || ite(u.networks[i].Network.Name != "", u.networks[i].Network.Name, u.networks[i].Network.Addr) != name)
modifies nothing
loopinv [i2 int] forall(i, 0, i2 + 1, u.networks[i].Network.ID == record.ID || ite(u.networks[i].Network.Name != "", u.networks[i].Network.Name, u.networks[i].Network.Addr) != name)

func (*soju.user).createNetwork(u, ctx, record, enforceLimit) (network, err)
requires [limit] enforceLimit || !record.Enabled || (istype(ctx, *soju.serviceContext) && as(ctx, *soju.serviceContext).admin)
assumes enabledOf(0) == 0 && forall(k, 0, len(u.networks), enabledOf(k + 1) == enabledOf(k) + ite(u.networks[k].Network.Enabled, 1, 0))
let lim = ite(u.User.MaxNetworks < 0, u.srv.Config().MaxUserNetworks, u.User.MaxNetworks)
let s = declared(ite(strings.Contains(record.Addr, "://"), record.Addr, "ircs://" + record.Addr))
let name = ite(record.Name != "", record.Name, record.Addr)
let admin = u.User.Admin
let en = record.Enabled
let have = enabledOf(len(u.networks))
ensures [quota] (err == nil && enforceLimit && en) ==> (lim < 0 || have < lim)
ensures [scheme] err == nil ==> (s == "ircs" || s == "irc+insecure" || s == "irc+unix" || s == "unix")
ensures [unix] (err == nil && (s == "irc+unix" || s == "unix")) ==> admin
ensures [name] err == nil ==> (name != "" && !strings.HasPrefix(name, "-"))

func (*soju.user).updateNetwork(u, ctx, record, enforceLimit) (network, err)
requires [limit] enforceLimit || !record.Enabled || wasEnabled(record.ID) || (istype(ctx, *soju.serviceContext) && as(ctx, *soju.serviceContext).admin)
assumes enabledOf(0) == 0 && forall(k, 0, len(u.networks), enabledOf(k + 1) == enabledOf(k) + ite(u.networks[k].Network.Enabled, 1, 0))
let lim = ite(u.User.MaxNetworks < 0, u.srv.Config().MaxUserNetworks, u.User.MaxNetworks)
let s = declared(ite(strings.Contains(record.Addr, "://"), record.Addr, "ircs://" + record.Addr))
let name = ite(record.Name != "", record.Name, record.Addr)
let admin = u.User.Admin
let en = record.Enabled
let have = enabledOf(len(u.networks))
ensures [quota] (err == nil && enforceLimit && en) ==> (lim < 0 || have < lim)
ensures [scheme] err == nil ==> (s == "ircs" || s == "irc+insecure" || s == "irc+unix" || s == "unix")
ensures [unix] (err == nil && (s == "irc+unix" || s == "unix")) ==> admin
ensures [name] err == nil ==> (name != "" && !strings.HasPrefix(name, "-"))

trusted database.Database.StoreUser(db, ctx, user) (err)
modifies user.ID
trusted encoding/hex.DecodeString(s) (b, err)
modifies nothing
trusted gopkg.in/irc.v4.ParseMessage(line) (msg, err)
modifies nothing
# parsing flags writes the flag set and the variables bound to it, nothing else
trusted (*flag.FlagSet).Parse(f, arguments) (err)
modifies F:soju.networkFlagSet.*, F:flag.FlagSet.*, C:*
ensures all(n, *soju.network, n.Network.Enabled == old(n.Network.Enabled) && n.Network.ID == old(n.Network.ID))
assumption parsing flags writes only the flag set and the variables bound to it
helper (*soju.networkFlagSet).update(fs, network) (err)
modifies network.Addr, network.Name, network.Nick, network.Username, network.Pass, network.Realname, network.CertFP, network.AutoAway, network.Enabled, network.ConnectCommands
# updateUser re-submits unmodified copies of the user's own network records, without the
# limit: not verified here (see DESIGN.md), covered by the bounded replay only
trusted (*soju.user).updateUser(u, ctx, update) (err)
assumption (*user).updateUser passes copies of the user's own networks to updateNetwork unchanged
option lift 2
