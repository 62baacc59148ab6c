property P11
package xirc

# --- the three case mappings, character by character ---
ghost lowerASCII(int) int

func xirc.CaseMappingASCII(name) (res)
ensures [length] len(res) == len(name)
ensures [chars] forall(i, 0, len(name), res[i] == ite('A' <= name[i] && name[i] <= 'Z', name[i] + 32, name[i]))
loopinv [out []byte] len(out) == len(name)
loopinv [out []byte] forall(i, 0, iter, out[i] == ite('A' <= name[i] && name[i] <= 'Z', name[i] + 32, name[i])) && forall(i, iter, len(name), out[i] == name[i])

func xirc.CaseMappingRFC1459(name) (res)
ensures [length] len(res) == len(name)
ensures [chars] forall(i, 0, len(name), res[i] == ite('A' <= name[i] && name[i] <= 'Z', name[i] + 32, ite(name[i] == '{', '[', ite(name[i] == '}', ']', ite(name[i] == '\\', '|', ite(name[i] == '~', '^', name[i]))))))
loopinv [out []byte] len(out) == len(name)
loopinv [out []byte] forall(i, 0, iter, out[i] == ite('A' <= name[i] && name[i] <= 'Z', name[i] + 32, ite(name[i] == '{', '[', ite(name[i] == '}', ']', ite(name[i] == '\\', '|', ite(name[i] == '~', '^', name[i])))))) && forall(i, iter, len(name), out[i] == name[i])

func xirc.CaseMappingRFC1459Strict(name) (res)
ensures [length] len(res) == len(name)
ensures [chars] forall(i, 0, len(name), res[i] == ite('A' <= name[i] && name[i] <= 'Z', name[i] + 32, ite(name[i] == '{', '[', ite(name[i] == '}', ']', ite(name[i] == '\\', '|', name[i])))))
loopinv [out []byte] len(out) == len(name)
loopinv [out []byte] forall(i, 0, iter, out[i] == ite('A' <= name[i] && name[i] <= 'Z', name[i] + 32, ite(name[i] == '{', '[', ite(name[i] == '}', ']', ite(name[i] == '\\', '|', name[i]))))) && forall(i, iter, len(name), out[i] == name[i])

func xirc.ParseCaseMapping(s) (res)
ensures s == "ascii" ==> res == CaseMappingASCII
ensures s == "rfc1459" ==> res == CaseMappingRFC1459
ensures s == "rfc1459-strict" ==> res == CaseMappingRFC1459Strict
ensures (s != "ascii" && s != "rfc1459" && s != "rfc1459-strict") ==> res == nil

# --- the case-mapped map ---
func (*xirc.CaseMappingMap[V]).Has(cmm, name) (res)
ensures res == has(cmm.m, cmm.casemap(name))

func (*xirc.CaseMappingMap[V]).Len(cmm) (res)
ensures res == len(cmm.m)

func (*xirc.CaseMappingMap[V]).Get(cmm, name) (res)
ensures res == cmm.m[cmm.casemap(name)].value

func (*xirc.CaseMappingMap[V]).Set(cmm, name, value)
assumes cmm.m != nil
let key = cmm.casemap(name)
ensures cmm.m == old(cmm.m) && cmm.casemap == old(cmm.casemap)
ensures [present] has(cmm.m, key)
ensures [value] cmm.m[key].value == value
ensures [original] cmm.m[key].originalKey == ite(old(has(cmm.m, key)), old(cmm.m[key].originalKey), name)
ensures [others] all(k, string, k != key ==> (has(cmm.m, k) == old(has(cmm.m, k)) && cmm.m[k].value == old(cmm.m[k].value) && cmm.m[k].originalKey == old(cmm.m[k].originalKey)))

func (*xirc.CaseMappingMap[V]).Del(cmm, name)
let key = cmm.casemap(name)
ensures [absent] !has(cmm.m, key)
ensures [others] all(k, string, k != key ==> (has(cmm.m, k) == old(has(cmm.m, k)) && cmm.m[k].value == old(cmm.m[k].value)))

func (*xirc.CaseMappingMap[V]).SetCaseMapping(cmm, newCasemap)
let oldm = cmm.m
loopinv [newm =cmm.m] all(k, string, visited(k) ==> has(newm, newCasemap(oldm[k].originalKey)))
loopinv [newm =cmm.m] all(k, string, has(newm, k) ==> k == newCasemap(newm[k].originalKey))
loopinv [newm =cmm.m] all(k, string, has(newm, k) ==> some(q, string, has(oldm, q) && newm[k].value == oldm[q].value && newm[k].originalKey == oldm[q].originalKey))
ensures [mapping] cmm.casemap == newCasemap
ensures [kept] all(k, string, old(has(cmm.m, k)) ==> has(cmm.m, newCasemap(old(cmm.m[k].originalKey))))
ensures [keyed] all(k, string, has(cmm.m, k) ==> k == newCasemap(cmm.m[k].originalKey))
ensures [from] all(k, string, has(cmm.m, k) ==> some(q, string, old(has(cmm.m, q)) && cmm.m[k].value == old(cmm.m[q].value) && cmm.m[k].originalKey == old(cmm.m[q].originalKey)))
