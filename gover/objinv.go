package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// ObjInv is an invariant of every live object of a struct type. It is assumed
// on entry of a verified function and must hold again at every exit; it may be
// relied on after a call only if it held before the call.
type ObjInv struct {
	Type string
	Obj  string
	Req  Clause
	Pkg  string
	Maps string // map types the invariant reads (their writers are verified too)
}

func (r *Run) objInvHeaps(oi *ObjInv) []string {
	if l, ok := r.eng.objHeaps[oi]; ok {
		return l
	}
	t := r.eng.namedType(oi.Type)
	if t == nil {
		specFail("objinv: unknown type %s", oi.Type)
	}
	var l []string
	r.quiet++
	body := r.objInvTerm(oi, &State{h: map[string]*Term{}, now: IntT(0)})
	r.quiet--
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if len(x.args) == 0 && strings.HasPrefix(x.op, "uf:H0:") {
			l = append(l, strings.TrimPrefix(x.op, "uf:H0:"))
		}
		for _, a := range x.args {
			rec(a)
		}
	}
	rec(body)
	sort.Strings(l)
	r.eng.objHeaps[oi] = l
	return l
}

func (r *Run) objKey(oi *ObjInv, st *State) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%p", oi)
	for _, n := range r.objInvHeaps(oi) {
		if t, ok := st.h[n]; ok && t.op != "uf:H0:"+n {
			fmt.Fprintf(&b, "|%s=%d", n, t.id)
		}
	}
	return b.String()
}

// The quantifier ranges over every identity, live or not: identities that are
// not (yet) objects of the type are never read before being initialised by an
// explicit store, so what the base heap holds there is irrelevant.
func (r *Run) objInvTerm(oi *ObjInv, st *State) *Term {
	t := r.eng.namedType(oi.Type)
	bv := BoundVar("o", IntS)
	e := &Env{r: r, st: st, old: st, pc: True, vars: map[string]Val{oi.Obj: {T: types.NewPointer(t), L: []*Term{bv}}}, pkg: r.eng.pkgByName(oi.Pkg), fr: r.rootFrame}
	body := e.bool(oi.Req.Expr)
	var pats [][]*Term
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] || !x.bound || len(pats) >= 6 {
			return
		}
		seen[x] = true
		if x.op == "select" && x.args[1] == bv && !x.args[0].bound {
			if x.args[0].op == "store" || x.args[0].op == "ite" {
				return
			}
			pats = append(pats, []*Term{x})
			return
		}
		for _, a := range x.args {
			rec(a)
		}
	}
	rec(body)
	return Forall([]*Term{bv}, Imp(Neq(bv, IntT(0)), body), pats...)
}

func (r *Run) objInvEntry(st *State) {
	r.invValid = map[string]bool{}
	for _, oi := range r.cfg.ObjInvs {
		r.assume(True, r.objInvTerm(oi, st))
		r.invValid[r.objKey(oi, st)] = true
	}
}

// aroundHavoc runs f, which forgets parts of st on behalf of a call; object
// invariants that held before hold after.
func (r *Run) aroundHavoc(st *State, f func()) {
	if len(r.cfg.ObjInvs) == 0 {
		f()
		return
	}
	var held []*ObjInv
	var keys []string
	for _, oi := range r.cfg.ObjInvs {
		k := r.objKey(oi, st)
		if r.invValid[k] {
			held = append(held, oi)
			keys = append(keys, k)
		}
	}
	f()
	for i, oi := range held {
		if k := r.objKey(oi, st); k != keys[i] {
			r.assume(True, r.objInvTerm(oi, st))
			r.invValid[k] = true
		}
	}
}

// objInvCall demands the object invariants before a call whose callee is
// verified (or summarised) under them.
func (r *Run) objInvCall(cc *callCtx, st *State, name string) {
	if cc.pc == False {
		return
	}
	for _, oi := range r.cfg.ObjInvs {
		k := r.objKey(oi, st)
		if r.invValid[k] {
			continue
		}
		r.check("objinv", cc.fr, cc.pos, cc.pc, r.objInvTerm(oi, st), "before the call of "+name+", "+oi.Type+": "+clauseName(oi.Req))
		r.invValid[k] = true
	}
}

// merge joins control-flow edges; an object invariant that holds on every edge
// holds after the join.
func (r *Run) merge(es []edge) (*Term, *State) {
	pc, st := mergeStates(es)
	if len(es) > 1 {
		for _, oi := range r.cfg.ObjInvs {
			ok := true
			for _, e := range es {
				ok = ok && (e.cond == False || r.invValid[r.objKey(oi, e.st)])
			}
			if ok {
				r.invValid[r.objKey(oi, st)] = true
			}
		}
	}
	return pc, st
}

// objInvExit emits the obligations at the exits of the root.
func (d *Driver) objInvExit(r *Run) {
	fr := r.rootFrame
	for _, oi := range r.cfg.ObjInvs {
		for _, ret := range fr.returns {
			if r.invValid[r.objKey(oi, ret.st)] {
				continue
			}
			r.obls = append(r.obls, &Obl{
				Name: fmt.Sprintf("%s/objinv@%s[%s: %s]", shortName(fr.fn.String()), r.pos(ret.pos), oi.Type, clauseName(oi.Req)),
				Kind: "objinv", Prop: d.prop, Fn: shortName(fr.fn.String()), Pos: r.pos(ret.pos), PC: ret.cond, Goal: r.objInvTerm(oi, ret.st),
				Assume: r.assumes[:len(r.assumes):len(r.assumes)], Text: oi.Type + ": " + clauseName(oi.Req),
			})
		}
	}
}

func clauseName(c Clause) string {
	if c.Name != "" {
		return c.Name
	}
	return c.Text
}
