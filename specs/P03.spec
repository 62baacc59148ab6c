property P03
package soju
option inline 60
# operator tools that edit the database directly
option exclude contrib/ cmd/

# byAdmin: the request being processed was made by an administrator, on the
# admin socket or over the connection of a user whose admin flag is set.
gvar byAdmin bool
# requester: the name of the account on whose behalf it is processed
gvar requester string
ghost owner(int64) string

# handlers of the commands reserved to administrators
functype soju.serviceCommand.handle(ctx, params) (err)
requires [authority] ctx.admin ==> (byAdmin || (ctx.user != nil && ctx.user.User.Admin))
# within a handler, byAdmin stands for the authority established at dispatch
assumes ctx.admin ==> byAdmin
assumes ctx.user != nil ==> ctx.user.User.Username == requester
requires [reserved] (self == handleUserStatus || self == handleUserCreate || self == handleUserRun || self == handleServiceServerStatus || self == handleServiceServerNotice || self == handleServiceServerDebug) ==> ctx.admin

objinv soju.serviceCommand(cmd): [reserved] (cmd.handle == handleUserStatus || cmd.handle == handleUserCreate || cmd.handle == handleUserRun || cmd.handle == handleServiceServerStatus || cmd.handle == handleServiceServerNotice || cmd.handle == handleServiceServerDebug) ==> cmd.admin

helper soju.handleServiceCommand(ctx, words) (err)
requires [authority] ctx.admin ==> (byAdmin || (ctx.user != nil && ctx.user.User.Admin))

helper soju.handleServicePRIVMSG(ctx, text) (err)
requires [authority] ctx.admin ==> (byAdmin || (ctx.user != nil && ctx.user.User.Admin))

functype soju.serviceContext.print(text)
modifies nothing
assumption printing a command's reply does not change accounts

# where requests come from
helper (*soju.Server).HandleAdmin(s, ic)
assumes byAdmin
assumption the admin socket is only reachable by administrators (server configuration)

# requests handed over to another user's goroutine
send soju.eventUserUpdate(v): byAdmin || (v.admin == nil && v.password == nil && v.maxNetworks == nil && (v.enabled == nil || !*v.enabled))
recv soju.eventUserUpdate(v): byAdmin || (v.admin == nil && v.password == nil && v.maxNetworks == nil)
send soju.eventUserRun(v): byAdmin
recv soju.eventUserRun(v): byAdmin

# account changes
trusted (*soju.Server).Config(s) (cfg)
pure
forceinline (*soju.user).updateUser
store database.User.Admin(o, v): fresh(o) || v == o.Admin || byAdmin
store database.User.MaxNetworks(o, v): fresh(o) || v == o.MaxNetworks || byAdmin
store database.User.Username(o, v): fresh(o) || v == o.Username

func (*soju.Server).createUser(s, ctx, user) (u, err)
requires [authority] byAdmin || (!user.Admin && s.Config().EnableUsersOnAuth)
trusted database.Database.StoreUser(db, ctx, user) (err)
modifies user.ID
assumption the database stores the record it is given and changes nothing of it but a new record's ID

trusted database.Database.DeleteUser(db, ctx, id) (err)
modifies nothing
requires [authority] byAdmin || owner(id) == requester
helper (*soju.user).stop(u, ctx) (err)
requires [authority] byAdmin || u.User.Username == requester

# users are registered under their own name, and names never change
helper (*soju.Server).getUser(s, name) (u)
assumes all(k, string, has(s.users, k) ==> (s.users[k] != nil && s.users[k].User.Username == k && owner(s.users[k].User.ID) == k))
ensures [named] u == nil || (u.User.Username == name && owner(u.User.ID) == name)
modifies nothing
helper (*soju.Server).addUserLocked(s, user) (u)
ensures [keyed] s.users[user.Username] == u && u.User.Username == user.Username

# a password is changed by its owner, by an administrator, or when its hash is
# renewed in a record just read from the database
store database.User.Password(o, v): fresh(o) || v == o.Password || byAdmin || o.Username == requester
trusted database.Database.GetUser(db, ctx, name) (u, err)
ensures fresh(u)
modifies nothing
assumption the database returns records of its own
