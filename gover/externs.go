package main

import (
	"go/types"
	"sort"
	"strings"
)

type externModel func(*callCtx) (Val, *State, *Term)

var externModels map[string]externModel

func tv(t types.Type, x *Term) Val { return Val{T: t, L: []*Term{x}} }

func (cc *callCtx) ret(x ...*Term) (Val, *State, *Term) {
	return Val{T: cc.res, L: x}, cc.st, cc.pc
}

func (cc *callCtx) s(i int) *Term { return cc.args[i].one() }

func hasPrefixT(s, p *Term) *Term {
	if s.op == "str" && p.op == "str" {
		return BoolT(strings.HasPrefix(s.sval, p.sval))
	}
	return And(Le(slen(p), slen(s)), Eq(ssub(s, IntT(0), slen(p)), p))
}

func hasSuffixT(s, p *Term) *Term {
	if s.op == "str" && p.op == "str" {
		return BoolT(strings.HasSuffix(s.sval, p.sval))
	}
	return And(Le(slen(p), slen(s)), Eq(ssub(s, Sub(slen(s), slen(p)), slen(s)), p))
}

// strIndex is strings.Index with its defining facts.
func (r *Run) strIndex(s, p, pc *Term) *Term {
	t := UF("strindex", IntS, s, p)
	if t.bound {
		return t
	}
	r.assume(True, And(Le(IntT(-1), t), Imp(Le(IntT(0), t), And(Le(Add(t, slen(p)), slen(s)), Eq(ssub(s, t, Add(t, slen(p))), p)))))
	if p.op == "str" && len(p.sval) == 1 {
		k := BoundVar("k", IntS)
		c := IntT(int64(p.sval[0]))
		r.assume(True, Imp(Le(IntT(0), t), Eq(sat(s, t), c)))
		r.assume(True, Forall([]*Term{k}, Imp(And(Le(IntT(0), k), Lt(k, slen(s)), Or(Lt(t, IntT(0)), Lt(k, t))), Neq(sat(s, k), c)), []*Term{sat(s, k)}))
	}
	return t
}

func (r *Run) strIndexByte(s, c *Term) *Term {
	if c.isInt() {
		return r.strIndex(s, StrLit(string([]byte{byte(c.ival.Int64())})), True)
	}
	t := UF("strindexbyte", IntS, s, c)
	if t.bound {
		return t
	}
	k := BoundVar("k", IntS)
	r.assume(True, And(Le(IntT(-1), t), Lt(t, slen(s)), Imp(Le(IntT(0), t), Eq(sat(s, t), c))))
	r.assume(True, Forall([]*Term{k}, Imp(And(Le(IntT(0), k), Lt(k, slen(s)), Or(Lt(t, IntT(0)), Lt(k, t))), Neq(sat(s, k), c)), []*Term{sat(s, k)}))
	return t
}

// newStrings makes a fresh []string result of unknown contents.
func (cc *callCtx) newStrings() Val {
	v := cc.r.freshVal("strs", cc.res, cc.pc, nil)
	ref := cc.r.newRef(cc.st, "strs")
	v.L[0], v.L[1] = ref, IntT(0)
	return v
}

func ufStr(name string) externModel {
	return func(cc *callCtx) (Val, *State, *Term) {
		var ts []*Term
		for _, a := range cc.args {
			ts = append(ts, a.L...)
		}
		ls := leavesOf(cc.res)
		v := Val{T: cc.res}
		for _, l := range ls {
			v.L = append(v.L, UF("ext:"+name, l.sort, ts...))
		}
		if !hasBound(v) {
			cc.r.assume(cc.pc, cc.r.typeFacts(v, nil))
		}
		return v, cc.st, cc.pc
	}
}

func noop(cc *callCtx) (Val, *State, *Term) {
	v := cc.r.freshVal("ret:"+cc.name, cc.res, cc.pc, cc.st.now)
	return v, cc.st, cc.pc
}

func (cc *callCtx) builder() (*Addr, *Term) {
	p := cc.args[0]
	if p.Addr != nil {
		return p.Addr, cc.r.loadAddr(cc.st, p.Addr, cc.pc).one()
	}
	a := cc.r.cellAddr(deref(p.T), p.one())
	return a, cc.r.loadAddr(cc.st, a, cc.pc).one()
}

func init() {
	bT := func(f func(s, p *Term) *Term) externModel {
		return func(cc *callCtx) (Val, *State, *Term) { return cc.ret(f(cc.s(0), cc.s(1))) }
	}
	nilErr := func(t types.Type) Val { return zeroVal(t) }
	externModels = map[string]externModel{
		"strings.HasPrefix": bT(hasPrefixT),
		"strings.HasSuffix": bT(hasSuffixT),
		"strings.TrimPrefix": func(cc *callCtx) (Val, *State, *Term) {
			s, p := cc.s(0), cc.s(1)
			return cc.ret(Ite(hasPrefixT(s, p), ssub(s, slen(p), slen(s)), s))
		},
		"strings.TrimSuffix": func(cc *callCtx) (Val, *State, *Term) {
			s, p := cc.s(0), cc.s(1)
			return cc.ret(Ite(hasSuffixT(s, p), ssub(s, IntT(0), Sub(slen(s), slen(p))), s))
		},
		"strings.CutPrefix": func(cc *callCtx) (Val, *State, *Term) {
			s, p := cc.s(0), cc.s(1)
			h := hasPrefixT(s, p)
			return Val{T: cc.res, Tup: []Val{tv(tString, Ite(h, ssub(s, slen(p), slen(s)), s)), tv(tBool, h)}}, cc.st, cc.pc
		},
		"strings.CutSuffix": func(cc *callCtx) (Val, *State, *Term) {
			s, p := cc.s(0), cc.s(1)
			h := hasSuffixT(s, p)
			return Val{T: cc.res, Tup: []Val{tv(tString, Ite(h, ssub(s, IntT(0), Sub(slen(s), slen(p))), s)), tv(tBool, h)}}, cc.st, cc.pc
		},
		"strings.Index": func(cc *callCtx) (Val, *State, *Term) { return cc.ret(cc.r.strIndex(cc.s(0), cc.s(1), cc.pc)) },
		"strings.Contains": func(cc *callCtx) (Val, *State, *Term) {
			return cc.ret(Le(IntT(0), cc.r.strIndex(cc.s(0), cc.s(1), cc.pc)))
		},
		"strings.IndexByte": func(cc *callCtx) (Val, *State, *Term) { return cc.ret(cc.r.strIndexByte(cc.s(0), cc.s(1))) },
		"strings.IndexRune": func(cc *callCtx) (Val, *State, *Term) {
			c := cc.s(1)
			if c.isInt() && c.ival.IsInt64() && c.ival.Int64() < 128 {
				return cc.ret(cc.r.strIndexByte(cc.s(0), c))
			}
			t := UF("strindexrune", IntS, cc.s(0), c)
			cc.r.assume(True, And(Le(IntT(-1), t), Lt(t, slen(cc.s(0)))))
			// for ASCII runes it is the byte search
			cc.r.assume(True, Imp(And(Le(IntT(0), c), Lt(c, IntT(128))), Eq(t, cc.r.strIndexByte(cc.s(0), c))))
			return cc.ret(t)
		},
		"strings.ContainsRune": func(cc *callCtx) (Val, *State, *Term) {
			c := cc.s(1)
			if c.isInt() && c.ival.IsInt64() && c.ival.Int64() < 128 {
				return cc.ret(Le(IntT(0), cc.r.strIndexByte(cc.s(0), c)))
			}
			return cc.ret(UF("strcontainsrune", BoolS, cc.s(0), c))
		},
		"strings.IndexAny": func(cc *callCtx) (Val, *State, *Term) {
			t := UF("strindexany", IntS, cc.s(0), cc.s(1))
			cc.r.indexAny(t, cc.s(0), cc.s(1))
			return cc.ret(t)
		},
		"strings.ContainsAny": func(cc *callCtx) (Val, *State, *Term) {
			t := UF("strindexany", IntS, cc.s(0), cc.s(1))
			cc.r.indexAny(t, cc.s(0), cc.s(1))
			return cc.ret(Le(IntT(0), t))
		},
		"strings.LastIndex": func(cc *callCtx) (Val, *State, *Term) {
			t := UF("strlastindex", IntS, cc.s(0), cc.s(1))
			s, p := cc.s(0), cc.s(1)
			cc.r.assume(True, And(Le(IntT(-1), t), Imp(Le(IntT(0), t), And(Le(Add(t, slen(p)), slen(s)), Eq(ssub(s, t, Add(t, slen(p))), p)))))
			return cc.ret(t)
		},
		"strings.LastIndexByte": func(cc *callCtx) (Val, *State, *Term) {
			t := UF("strlastindexbyte", IntS, cc.s(0), cc.s(1))
			cc.r.assume(True, And(Le(IntT(-1), t), Lt(t, slen(cc.s(0))), Imp(Le(IntT(0), t), Eq(sat(cc.s(0), t), cc.s(1)))))
			return cc.ret(t)
		},
		"strings.Cut": func(cc *callCtx) (Val, *State, *Term) {
			s, p := cc.s(0), cc.s(1)
			i := cc.r.strIndex(s, p, cc.pc)
			found := Le(IntT(0), i)
			before := Ite(found, ssub(s, IntT(0), i), s)
			after := Ite(found, ssub(s, Add(i, slen(p)), slen(s)), StrLit(""))
			return Val{T: cc.res, Tup: []Val{tv(tString, before), tv(tString, after), tv(tBool, found)}}, cc.st, cc.pc
		},
		"strings.ToLower": ufStr("strings.ToLower"),
		"strings.ToUpper": ufStr("strings.ToUpper"),
		"strings.EqualFold": func(cc *callCtx) (Val, *State, *Term) {
			a, b := cc.s(0), cc.s(1)
			t := UF("ext:strings.EqualFold", BoolS, a, b)
			if !t.bound {
				cc.r.assume(True, Imp(Eq(a, b), t))
			}
			return cc.ret(t)
		},
		"strings.TrimSpace": func(cc *callCtx) (Val, *State, *Term) {
			t := UF("ext:strings.TrimSpace", StrS, cc.s(0))
			cc.r.assume(True, Le(slen(t), slen(cc.s(0))))
			return cc.ret(t)
		},
		"strings.TrimLeft":   func(cc *callCtx) (Val, *State, *Term) { return cc.trim("left") },
		"strings.TrimRight":  func(cc *callCtx) (Val, *State, *Term) { return cc.trim("right") },
		"strings.Trim":       func(cc *callCtx) (Val, *State, *Term) { return cc.trim("both") },
		"strings.Repeat":     ufStr("strings.Repeat"),
		"strings.ReplaceAll": ufStr("strings.ReplaceAll"),
		"strings.Count": func(cc *callCtx) (Val, *State, *Term) {
			t := UF("ext:strings.Count", IntS, cc.s(0), cc.s(1))
			cc.r.assume(True, And(Le(IntT(0), t), Le(t, Add(slen(cc.s(0)), IntT(1)))))
			return cc.ret(t)
		},
		"strings.Split": func(cc *callCtx) (Val, *State, *Term) {
			v := cc.newStrings()
			cc.r.assume(cc.pc, Imp(Neq(cc.s(1), StrLit("")), Le(IntT(1), v.L[2])))
			return v, cc.st, cc.pc
		},
		"strings.SplitN": func(cc *callCtx) (Val, *State, *Term) {
			v := cc.newStrings()
			n := cc.s(2)
			cc.r.assume(cc.pc, Imp(And(Neq(cc.s(1), StrLit("")), Neq(n, IntT(0))), Le(IntT(1), v.L[2])))
			cc.r.assume(cc.pc, Imp(Lt(IntT(0), n), Le(v.L[2], n)))
			if n.isInt() && n.ival.Int64() == 2 {
				s, p := cc.s(0), cc.s(1)
				i := cc.r.strIndex(s, p, cc.pc)
				row := Select(cc.st.get("E:string", ArrS(IntS, ArrS(IntS, StrS))), v.L[0])
				found := Le(IntT(0), i)
				cc.r.assume(cc.pc, Imp(Neq(p, StrLit("")), And(
					Eq(v.L[2], Ite(found, IntT(2), IntT(1))),
					Eq(Select(row, IntT(0)), Ite(found, ssub(s, IntT(0), i), s)),
					Imp(found, Eq(Select(row, IntT(1)), ssub(s, Add(i, slen(p)), slen(s)))))))
			}
			return v, cc.st, cc.pc
		},
		"strings.Fields": func(cc *callCtx) (Val, *State, *Term) {
			v := cc.newStrings()
			row := Select(cc.st.get("E:string", ArrS(IntS, ArrS(IntS, StrS))), v.L[0])
			k := BoundVar("k", IntS)
			el := mkApp("select", StrS, row, k)
			cc.r.assume(cc.pc, Forall([]*Term{k}, Imp(And(Le(IntT(0), k), Lt(k, v.L[2])), Lt(IntT(0), slen(el))), []*Term{el}))
			return v, cc.st, cc.pc
		},
		"strings.Join": func(cc *callCtx) (Val, *State, *Term) {
			row := Select(cc.st.get("E:string", ArrS(IntS, ArrS(IntS, StrS))), cc.args[0].L[0])
			t := UF("strjoin", StrS, row, cc.args[0].L[1], cc.args[0].L[2], cc.s(1))
			cc.r.assume(True, Imp(Eq(cc.args[0].L[2], IntT(0)), Eq(t, StrLit(""))))
			cc.r.assume(True, Imp(Eq(cc.args[0].L[2], IntT(1)), Eq(t, Select(row, cc.args[0].L[1]))))
			return cc.ret(t)
		},

		"(*strings.Builder).WriteString": func(cc *callCtx) (Val, *State, *Term) {
			a, cur := cc.builder()
			cc.r.storeAddr(cc.st, a, tv(a.T, cc.r.cat(cur, cc.s(1))))
			tup := cc.res.(*types.Tuple)
			return Val{T: cc.res, Tup: []Val{tv(tInt, slen(cc.s(1))), nilErr(tup.At(1).Type())}}, cc.st, cc.pc
		},
		"(*strings.Builder).WriteByte": func(cc *callCtx) (Val, *State, *Term) {
			a, cur := cc.builder()
			cc.r.storeAddr(cc.st, a, tv(a.T, cc.r.cat(cur, cc.r.byteStr(cc.s(1)))))
			return nilErr(cc.res), cc.st, cc.pc
		},
		"(*strings.Builder).WriteRune": func(cc *callCtx) (Val, *State, *Term) {
			a, cur := cc.builder()
			rs := cc.r.convertV(tv(types.Typ[types.Rune], cc.s(1)), types.Typ[types.Rune], tString, cc.st, cc.pc).one()
			cc.r.storeAddr(cc.st, a, tv(a.T, cc.r.cat(cur, rs)))
			tup := cc.res.(*types.Tuple)
			return Val{T: cc.res, Tup: []Val{tv(tInt, slen(rs)), nilErr(tup.At(1).Type())}}, cc.st, cc.pc
		},
		"(*strings.Builder).String": func(cc *callCtx) (Val, *State, *Term) {
			_, cur := cc.builder()
			return cc.ret(cur)
		},
		"(*strings.Builder).Len": func(cc *callCtx) (Val, *State, *Term) {
			_, cur := cc.builder()
			return cc.ret(slen(cur))
		},
		"(*strings.Builder).Reset": func(cc *callCtx) (Val, *State, *Term) {
			a, _ := cc.builder()
			cc.r.storeAddr(cc.st, a, tv(a.T, StrLit("")))
			return Val{T: cc.res}, cc.st, cc.pc
		},
		"(*strings.Builder).Grow": noop,
		"(*bytes.Buffer).Write": func(cc *callCtx) (Val, *State, *Term) {
			a, cur := cc.builder()
			add := cc.r.convertV(cc.args[1], cc.args[1].T, tString, cc.st, cc.pc).one()
			cc.r.storeAddr(cc.st, a, tv(a.T, cc.r.cat(cur, add)))
			tup := cc.res.(*types.Tuple)
			return Val{T: cc.res, Tup: []Val{tv(tInt, cc.args[1].L[2]), nilErr(tup.At(1).Type())}}, cc.st, cc.pc
		},
		"(*bytes.Buffer).WriteString": func(cc *callCtx) (Val, *State, *Term) {
			a, cur := cc.builder()
			cc.r.storeAddr(cc.st, a, tv(a.T, cc.r.cat(cur, cc.s(1))))
			tup := cc.res.(*types.Tuple)
			return Val{T: cc.res, Tup: []Val{tv(tInt, slen(cc.s(1))), nilErr(tup.At(1).Type())}}, cc.st, cc.pc
		},
		"(*bytes.Buffer).String": func(cc *callCtx) (Val, *State, *Term) {
			_, cur := cc.builder()
			return cc.ret(cur)
		},
		"(*bytes.Buffer).Len": func(cc *callCtx) (Val, *State, *Term) {
			_, cur := cc.builder()
			return cc.ret(slen(cur))
		},
		"(*bytes.Buffer).Bytes": func(cc *callCtx) (Val, *State, *Term) {
			_, cur := cc.builder()
			return cc.r.convertV(tv(tString, cur), tString, cc.res, cc.st, cc.pc), cc.st, cc.pc
		},
		"(*bytes.Buffer).Reset": func(cc *callCtx) (Val, *State, *Term) {
			a, _ := cc.builder()
			cc.r.storeAddr(cc.st, a, tv(a.T, StrLit("")))
			return Val{T: cc.res}, cc.st, cc.pc
		},

		// time values are totally ordered points; the zero time is 0
		"(time.Time).Before": func(cc *callCtx) (Val, *State, *Term) { return cc.ret(Lt(cc.s(0), cc.s(1))) },
		"(time.Time).After":  func(cc *callCtx) (Val, *State, *Term) { return cc.ret(Lt(cc.s(1), cc.s(0))) },
		"(time.Time).Equal":  func(cc *callCtx) (Val, *State, *Term) { return cc.ret(Eq(cc.s(0), cc.s(1))) },
		"(time.Time).IsZero": func(cc *callCtx) (Val, *State, *Term) { return cc.ret(Eq(cc.s(0), IntT(0))) },
		"(time.Time).Add":    func(cc *callCtx) (Val, *State, *Term) { return cc.ret(Add(cc.s(0), cc.s(1))) },
		"(time.Time).Sub": func(cc *callCtx) (Val, *State, *Term) {
			v := cc.r.freshVal("timesub", cc.res, cc.pc, nil)
			cc.r.assume(cc.pc, And(Eq(Lt(IntT(0), v.one()), Lt(cc.s(1), cc.s(0))), Eq(Lt(v.one(), IntT(0)), Lt(cc.s(0), cc.s(1)))))
			return v, cc.st, cc.pc
		},
		"(time.Time).UTC":   func(cc *callCtx) (Val, *State, *Term) { return cc.ret(cc.s(0)) },
		"(time.Time).Local": func(cc *callCtx) (Val, *State, *Term) { return cc.ret(cc.s(0)) },
		"(time.Time).In":    func(cc *callCtx) (Val, *State, *Term) { return cc.ret(cc.s(0)) },

		"strconv.Itoa": ufStr("strconv.Itoa"),
		"encoding/hex.EncodeToString": func(cc *callCtx) (Val, *State, *Term) {
			v := cc.r.freshVal("hex", cc.res, cc.pc, nil)
			cc.r.assume(cc.pc, Eq(slen(v.one()), Mul(IntT(2), cc.args[0].L[2])))
			return v, cc.st, cc.pc
		},
		"context.Background":  nonNilRes,
		"context.TODO":        nonNilRes,
		"context.WithTimeout": nonNilRes, "context.WithCancel": nonNilRes, "context.WithDeadline": nonNilRes, "context.WithValue": nonNilRes,
		"(net/http.Header).Get": noop,
		"(net/http.Header).Set": noop,
		"flag.NewFlagSet":       nonNilRes,
		"net/http.Error":        noop,
		"regexp.MustCompile":    nonNilRes,
		"(*sync.Once).Do": func(cc *callCtx) (Val, *State, *Term) {
			cc.r.externHavoc(cc, cc.name)
			return Val{T: cc.res}, cc.st, cc.pc
		},
		"(*flag.FlagSet).Parse": func(cc *callCtx) (Val, *State, *Term) {
			old := map[string]*Term{}
			for n, s := range cc.r.eng.allHeaps() {
				if strings.HasPrefix(n, "C:") {
					old[n] = cc.st.get(n, s)
					cc.st.h[n] = Fresh("flags:"+n, s)
				}
			}
			// flags only write the variables they were given
			var keys []fieldKey
			for k := range cc.r.eng.noFlag {
				keys = append(keys, k)
			}
			sort.Slice(keys, func(i, j int) bool { return keys[i].st+"."+keys[i].f < keys[j].st+"."+keys[j].f })
			for _, k := range keys {
				t := cc.r.eng.noFlag[k]
				ls := leavesOf(t)
				for i := range ls {
					n := hname("C:"+typeKey(t), i, len(ls))
					if old[n] == nil {
						continue
					}
					o := BoundVar("o", IntS)
					a := UF("addr:"+k.st+"."+k.f, IntS, o)
					nv := Select(cc.st.h[n], a)
					cc.r.assume(cc.pc, Forall([]*Term{o}, Eq(nv, Select(old[n], a)), []*Term{nv}))
				}
			}
			return cc.r.freshVal("ret:"+cc.name, cc.res, cc.pc, cc.r.bump(cc.st)), cc.st, cc.pc
		},
		"(*flag.FlagSet).Var": noop, "(*flag.FlagSet).StringVar": noop, "(*flag.FlagSet).BoolVar": noop, "(*flag.FlagSet).IntVar": noop, "(*flag.FlagSet).SetOutput": noop,
		"unicode/utf8.RuneCountInString": func(cc *callCtx) (Val, *State, *Term) {
			v := cc.r.freshVal("rc", cc.res, cc.pc, nil)
			cc.r.assume(cc.pc, And(Le(IntT(0), v.one()), Le(v.one(), slen(cc.s(0))), Imp(Lt(IntT(0), slen(cc.s(0))), Lt(IntT(0), v.one()))))
			return v, cc.st, cc.pc
		},
		"unicode/utf8.DecodeLastRuneInString": func(cc *callCtx) (Val, *State, *Term) { return cc.decodeRune() },
		"unicode/utf8.DecodeRuneInString":     func(cc *callCtx) (Val, *State, *Term) { return cc.decodeRune() },
	}
}

func (cc *callCtx) decodeRune() (Val, *State, *Term) {
	v := cc.r.freshVal("rune", cc.res, cc.pc, nil)
	n := v.Tup[1].one()
	s := cc.s(0)
	cc.r.assume(cc.pc, And(Le(IntT(0), n), Le(n, IntT(4)), Le(n, slen(s)), Eq(Eq(n, IntT(0)), Eq(slen(s), IntT(0)))))
	return v, cc.st, cc.pc
}

func nonNilRes(cc *callCtx) (Val, *State, *Term) {
	v := cc.r.freshVal("ret:"+cc.name, cc.res, cc.pc, cc.r.bump(cc.st))
	nn := func(v Val) {
		if len(v.L) > 0 && v.L[0].sort == IntS {
			cc.r.assume(cc.pc, Neq(v.L[0], IntT(0)))
		}
	}
	if len(v.Tup) > 0 {
		for _, x := range v.Tup {
			nn(x)
		}
	} else {
		nn(v)
	}
	return v, cc.st, cc.pc
}

func (r *Run) byteStr(b *Term) *Term {
	if b.isInt() {
		return StrLit(string([]byte{byte(b.ival.Int64())}))
	}
	t := UF("bytestr", StrS, b)
	if !t.bound {
		r.assume(True, And(Eq(slen(t), IntT(1)), Eq(sat(t, IntT(0)), b)))
	}
	return t
}

func (r *Run) indexAny(t, s, set *Term) {
	if t.bound {
		return
	}
	r.assume(True, And(Le(IntT(-1), t), Lt(t, slen(s))))
	if set.op == "str" && len(set.sval) <= 16 {
		ascii := true
		for i := 0; i < len(set.sval); i++ {
			ascii = ascii && set.sval[i] < 128
		}
		if ascii {
			in := func(c *Term) *Term {
				var alts []*Term
				for i := 0; i < len(set.sval); i++ {
					alts = append(alts, Eq(c, IntT(int64(set.sval[i]))))
				}
				return Or(alts...)
			}
			k := BoundVar("k", IntS)
			r.assume(True, Imp(Le(IntT(0), t), in(sat(s, t))))
			r.assume(True, Forall([]*Term{k}, Imp(And(Le(IntT(0), k), Lt(k, slen(s)), Or(Lt(t, IntT(0)), Lt(k, t))), Not(in(sat(s, k)))), []*Term{sat(s, k)}))
		}
	}
}

// trim models strings.Trim*/cutset: a substring of the argument.
func (cc *callCtx) trim(side string) (Val, *State, *Term) {
	s, set := cc.s(0), cc.s(1)
	lo := UF("trimlo:"+side, IntS, s, set)
	hi := UF("trimhi:"+side, IntS, s, set)
	if side == "right" {
		lo = IntT(0)
	}
	if side == "left" {
		hi = slen(s)
	}
	cc.r.assume(True, And(Le(IntT(0), lo), Le(lo, hi), Le(hi, slen(s))))
	if set.op == "str" && len(set.sval) == 1 && set.sval[0] < 128 {
		c := IntT(int64(set.sval[0]))
		k := BoundVar("k", IntS)
		if side == "left" || side == "both" {
			cc.r.assume(True, Forall([]*Term{k}, Imp(And(Le(IntT(0), k), Lt(k, lo)), Eq(sat(s, k), c)), []*Term{sat(s, k)}))
			cc.r.assume(True, Imp(Lt(lo, hi), Neq(sat(s, lo), c)))
		}
		if side == "right" {
			cc.r.assume(True, Imp(Lt(lo, hi), Neq(sat(s, Sub(hi, IntT(1))), c)))
		}
	}
	return cc.ret(ssub(s, lo, hi))
}
