property P16
package xirc
option inline 40
option autosinks off

# pos(m): position of a rank in the server's list, highest rank first. For any
# list of distinct ranks such a function exists; the contracts hold for each.
ghost pos(Membership) int
assumption the ranks announced by the server are distinct

func (*xirc.MembershipSet).Add(ms, availableMemberships, newMembership)
let a = availableMemberships
let l = *ms
assumes [ranks] forall(k, 0, len(a), pos(a[k]) == k)
assumes [known] pos(newMembership) >= 0 && pos(newMembership) < len(a) && a[pos(newMembership)] == newMembership
assumes [member] forall(i, 0, len(*ms), pos((*ms)[i]) >= 0 && pos((*ms)[i]) < len(a) && a[pos((*ms)[i])] == (*ms)[i])
assumes [sorted] forall(i, 0, len(*ms), forall(j, i + 1, len(*ms), pos((*ms)[i]) < pos((*ms)[j])))
ensures [present] exists(i, 0, len(*ms), (*ms)[i] == newMembership)
ensures [kept] forall(j, 0, len(l), (*ms)[j] == old((*ms)[j]) || (j + 1 < len(*ms) && (*ms)[j+1] == old((*ms)[j])))
ensures [nothingelse] forall(i, 0, len(*ms), (*ms)[i] == newMembership || exists(j, 0, len(l), (*ms)[i] == old((*ms)[j])))
ensures [sorted] forall(i, 0, len(*ms), forall(j, i + 1, len(*ms), pos((*ms)[i]) < pos((*ms)[j])))
loopinv [i int] i >= 0 && i <= len(l) && i <= iter && forall(j, 0, i, pos(old((*ms)[j])) < iter) && forall(j, i, len(l), pos(old((*ms)[j])) >= iter)
loopinv pos(newMembership) >= iter

func (*xirc.MembershipSet).Remove(ms, membership)
let l = *ms
assumes [sorted] forall(i, 0, len(*ms), forall(j, i + 1, len(*ms), pos((*ms)[i]) < pos((*ms)[j])))
ensures [absent] forall(i, 0, len(*ms), (*ms)[i] != membership)
ensures [kept] forall(j, 0, len(l), old((*ms)[j]) == membership || exists(i, 0, len(*ms), (*ms)[i] == old((*ms)[j])))
ensures [nothingelse] forall(i, 0, len(*ms), exists(j, 0, len(l), (*ms)[i] == old((*ms)[j])))
ensures [sorted] forall(i, 0, len(*ms), forall(j, i + 1, len(*ms), pos((*ms)[i]) < pos((*ms)[j])))
loopinv forall(j, 0, iter, old((*ms)[j]) != membership)

package soju
func (soju.userModes).Has(ms, c) (ok)
ensures [has] ok == exists(i, 0, len(ms), ms[i] == c)
modifies nothing

func (*soju.userModes).Add(ms, c)
assumes [ascii] c < 128
ensures [present] exists(i, 0, len(*ms), (*ms)[i] == c)
ensures [kept] forall(i, 0, len(old(*ms)), (*ms)[i] == old(*ms)[i])
ensures [nothingelse] len(*ms) <= len(old(*ms)) + 1 && forall(i, len(old(*ms)), len(*ms), (*ms)[i] == c)
ensures [once] (exists(i, 0, len(old(*ms)), old(*ms)[i] == c)) ==> *ms == old(*ms)

func (*soju.userModes).Del(ms, c)
assumes [once] forall(i, 0, len(*ms), forall(j, i + 1, len(*ms), (*ms)[i] != (*ms)[j]))
ensures [absent] forall(i, 0, len(*ms), (*ms)[i] != c)
ensures [kept] forall(i, 0, len(old(*ms)), old(*ms)[i] == c || (i < len(*ms) && (*ms)[i] == old(*ms)[i]) || (i >= 1 && i - 1 < len(*ms) && (*ms)[i-1] == old(*ms)[i]))
ensures [nothingelse] forall(i, 0, len(*ms), (*ms)[i] == old(*ms)[i] || (*ms)[i] == old(*ms)[i+1])

# the prefix shown to a client: all ranks with multi-prefix, else the highest
func soju.formatMemberPrefix(ms, dc) (s)
let multi = has(dc.caps.Enabled, "multi-prefix")
ensures [all] multi ==> (len(s) == len(ms) && forall(i, 0, len(ms), s[i] == ms[i].Prefix))
ensures [none] len(ms) == 0 ==> s == ""
ensures [highest] (!multi && len(ms) > 0 && ms[0].Prefix < 128) ==> (len(s) == 1 && s[0] == ms[0].Prefix)
loopinv [b []byte] forall(i, 0, iter, b[i] == ms[i].Prefix)

# NAMES replies: the ranks are those of the prefixes, in rank order, and the
# nickname is what follows them
func (*soju.upstreamConn).parseMembershipPrefix(uc, s) (ms, nick)
let a = uc.availableMemberships
assumes [ranks] forall(k, 0, len(a), pos(a[k]) == k)
ensures [rest] len(ms) <= len(s) && nick == s[len(ms):]
ensures [prefixes] forall(i, 0, len(ms), ms[i].Prefix == s[i])
ensures [known] forall(i, 0, len(ms), pos(ms[i]) >= 0 && pos(ms[i]) < len(a) && ms[i] == a[pos(ms[i])])
ensures [sorted] forall(i, 0, len(ms), forall(j, i + 1, len(ms), pos(ms[i]) < pos(ms[j])))
loopinv forall(k, 0, len(a), pos(a[k]) == k)
loopinv [memberships xirc.MembershipSet, i int] len(memberships) == i && i >= 0 && i <= len(s)
loopinv [memberships xirc.MembershipSet] forall(j, 0, len(memberships), memberships[j].Prefix == s[j])
loopinv [memberships xirc.MembershipSet] forall(j, 0, len(memberships), pos(memberships[j]) >= 0 && pos(memberships[j]) < iter)
loopinv [memberships xirc.MembershipSet] forall(j, 0, len(memberships), memberships[j] == a[pos(memberships[j])])
loopinv [memberships xirc.MembershipSet] forall(j, 0, len(memberships), forall(k, j + 1, len(memberships), pos(memberships[j]) < pos(memberships[k])))
