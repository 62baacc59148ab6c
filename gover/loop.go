package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// refClass describes the possible origins of a reference written or held
// across iterations of a loop: a set of loop-invariant terms, and possibly
// objects allocated inside the loop; general means anything.
type refClass struct {
	havoc   bool // anything other code can reach
	general bool
	fresh   bool
	olds    map[*Term]bool
}

func (c *refClass) add(o *refClass) bool {
	ch := false
	if o.general && !c.general {
		c.general = true
		ch = true
	}
	if o.havoc && !c.havoc {
		c.havoc = true
		ch = true
	}
	if o.fresh && !c.fresh {
		c.fresh = true
		ch = true
	}
	for t := range o.olds {
		if !c.olds[t] {
			if c.olds == nil {
				c.olds = map[*Term]bool{}
			}
			c.olds[t] = true
			ch = true
		}
	}
	if len(c.olds) > 12 && !c.general {
		c.general = true
		ch = true
	}
	return ch
}

func isFreshName(op string) bool {
	return strings.HasPrefix(op, "uf:") && strings.Contains(op, "!") && !strings.HasPrefix(op, "uf:global:") && !strings.HasPrefix(op, "uf:fn:")
}

// oldTerm reports whether t only depends on symbols that existed at marker.
func oldTerm(t *Term, marker int, memo map[*Term]bool) bool {
	if t.id <= marker {
		return true
	}
	if v, ok := memo[t]; ok {
		return v
	}
	res := true
	if t.bound {
		res = false
	} else if len(t.args) == 0 {
		if isFreshName(t.op) {
			res = false
		}
	} else {
		for _, a := range t.args {
			if !oldTerm(a, marker, memo) {
				res = false
				break
			}
		}
	}
	memo[t] = res
	return res
}

type loopCtx struct {
	marker int
	memo   map[*Term]bool
	phiCls map[*Term]*refClass // header constants of reference phis
}

func (lc *loopCtx) classify(t *Term, seen int) *refClass {
	if seen > 30 {
		return &refClass{general: true}
	}
	if t.fresh && t.id > lc.marker {
		return &refClass{fresh: true}
	}
	if c, ok := lc.phiCls[t]; ok {
		return c
	}
	if oldTerm(t, lc.marker, lc.memo) {
		return &refClass{olds: map[*Term]bool{t: true}}
	}
	if t.op == "ite" {
		c := &refClass{}
		c.add(lc.classify(t.args[1], seen+1))
		c.add(lc.classify(t.args[2], seen+1))
		return c
	}
	if isInterior(t) {
		b := lc.classify(t.args[0], seen+1)
		if !b.general && len(b.olds) == 0 {
			return b // interior of an object allocated in the loop
		}
		if len(t.args) == 1 && !b.general {
			c := &refClass{fresh: b.fresh}
			c.olds = map[*Term]bool{}
			for o := range b.olds {
				c.olds[rebuild(t, []*Term{o})] = true
			}
			return c
		}
	}
	return &refClass{general: true}
}

// writes collects the class of indices written in term relative to hdr.
func (lc *loopCtx) writes(t, hdr *Term, out *refClass, seen map[*Term]bool) {
	for {
		if t == hdr || seen[t] || out.general {
			return
		}
		// store-over-store collapses: t may rest on a term below hdr, in
		// which case hdr's own stores above it count as written as well
		for h := hdr; h.op == "store" && h != t; {
			h = h.args[0]
			if h == t {
				for g := hdr; g != t; g = g.args[0] {
					out.add(lc.classify(g.args[1], 0))
				}
				return
			}
		}
		seen[t] = true
		if restored[t] {
			t = t.args[0]
			continue
		}
		if p, ok := havocOf[t]; ok {
			out.havoc = true
			t = p
			continue
		}
		switch t.op {
		case "store":
			out.add(lc.classify(t.args[1], 0))
			t = t.args[0]
			continue
		case "ite":
			lc.writes(t.args[1], hdr, out, seen)
			t = t.args[2]
			continue
		}
		if fc, ok := frameOf[t]; ok {
			// a heap havocked by an inner loop: written at classified indices only
			for o := range fc.cls.olds {
				out.add(lc.classify(o, 0))
			}
			if fc.cls.fresh {
				out.add(&refClass{fresh: true})
			}
			t = fc.pre
			continue
		}
		out.general = true
		return
	}
}

type frameInfo struct {
	pre *Term
	cls *refClass
}

// frameOf records, for heaps havocked by loops with a known frame, what they
// were before and which locations may differ.
var frameOf = map[*Term]frameInfo{}

type loopCand struct {
	key  string
	text string
	auto bool
	oi   *ObjInv
	eval func(v *loopView) *Term
}

// loopView is the state of a loop at one point (init, header, back edge).
type loopView struct {
	phis map[*ssa.Phi]Val
	st   *State
	iter *Term
	pc   *Term
}

func (r *Run) execLoop(fr *frame, l *loop, blocks []*ssa.BasicBlock) {
	outside := fr.in[l.header]
	pcPre, stPre := r.merge(outside)
	if pcPre == False {
		return
	}
	loopKey := fmt.Sprintf("%s|%s|L%d", fr.chain, shortName(fr.fn.String()), l.id)
	var phis []*ssa.Phi
	init := map[*ssa.Phi]Val{}
	for _, ins := range l.header.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		var vs []Val
		var cs []*Term
		for _, e := range outside {
			vs = append(vs, r.val(fr, phi.Edges[e.slot]))
			cs = append(cs, e.cond)
		}
		v := mergeVals(cs, vs)
		v.T = phi.Type()
		init[phi] = v
	}
	for _, p := range phis {
		r.leak(init[p])
	}
	marker := TT.n
	mods := map[string]*refClass{}
	modSort := map[string]Sort{}
	phiCls := map[*ssa.Phi][]*refClass{}
	for _, p := range phis {
		ls := leavesOf(p.Type())
		phiCls[p] = make([]*refClass, len(ls))
		for i, lf := range ls {
			if lf.kind == lkRef || lf.kind == lkSliceBase || lf.kind == lkPayload {
				phiCls[p][i] = &refClass{olds: map[*Term]bool{init[p].L[i]: true}}
			}
		}
	}
	// remember what the rest of the frame looked like
	inLen := map[*ssa.BasicBlock]int{}
	for b, es := range fr.in {
		inLen[b] = len(es)
	}
	nret, ndef := len(fr.returns), len(fr.defers)
	seqBase := r.loopSeq

	for attempt := 0; ; attempt++ {
		if attempt > 12 {
			for _, c := range mods {
				c.general = true
			}
			for _, cs := range phiCls {
				for i := range cs {
					if cs[i] != nil {
						cs[i].general = true
					}
				}
			}
		}
		if attempt > 30 {
			panic(unsupported("loop analysis does not stabilise in %v", fr.fn))
		}
		snap := r.snap()
		leaks0 := len(r.leaks)
		r.loopSeq = seqBase
		st := stPre.clone()
		now := Fresh("now", IntS)
		r.assume(True, Le(stPre.now, now))
		st.now = now
		lc := &loopCtx{marker: marker, memo: map[*Term]bool{}, phiCls: map[*Term]*refClass{}}
		// havoc
		var names []string
		for n := range mods {
			names = append(names, n)
		}
		sort.Strings(names)
		hdrH := map[string]*Term{}
		for _, n := range names {
			c := mods[n]
			pre := stPre.get(n, modSort[n])
			if !strings.HasPrefix(string(modSort[n]), "(Array") || strings.HasPrefix(n, "IT:") || strings.HasPrefix(n, "G:") {
				st.h[n] = Fresh("loop:"+n, modSort[n])
			} else if c.general {
				st.h[n] = Fresh("loop:"+n, modSort[n])
			} else if c.havoc {
				h := Fresh("loop:"+n, modSort[n])
				havocOf[h] = pre
				for _, o := range r.localIdx(pre) {
					if !c.olds[o] {
						nh := StoreT(h, o, Select(pre, o))
						restored[nh] = true
						h = nh
					}
				}
				st.h[n] = h
			} else if !c.fresh {
				h := pre
				for _, o := range sortedTerms(c.olds) {
					h = StoreT(h, o, Fresh("loopv:"+n, arrElem(modSort[n])))
				}
				st.h[n] = h
			} else {
				h := Fresh("loop:"+n, modSort[n])
				st.h[n] = h
				bv := BoundVar("r", IntS)
				var ne []*Term
				for _, o := range sortedTerms(c.olds) {
					ne = append(ne, Neq(bv, o))
				}
				body := Imp(And(append(ne, Le(birth(bv), stPre.now))...), Eq(mkApp("select", arrElem(h.sort), h, bv), mkApp("select", arrElem(h.sort), pre, bv)))
				r.assume(True, Forall([]*Term{bv}, body, []*Term{mkApp("select", arrElem(h.sort), h, bv)}))
				frameOf[h] = frameInfo{pre, c}
			}
			hdrH[n] = st.h[n]
		}
		// phis
		hdr := map[*ssa.Phi]Val{}
		for _, p := range phis {
			name := p.Comment
			if name == "" {
				name = p.Name()
			}
			iv := init[p]
			if iv.Iter != nil || iv.Addr != nil {
				hdr[p] = iv
				fr.regs[p] = iv
				continue
			}
			v := Val{T: p.Type()}
			for i, lf := range leavesOf(p.Type()) {
				t := Fresh("phi:"+name, lf.sort)
				v.L = append(v.L, t)
				if c := phiCls[p][i]; c != nil {
					lc.phiCls[t] = c
					if !c.general {
						var alts []*Term
						for _, o := range sortedTerms(c.olds) {
							alts = append(alts, Eq(t, o))
						}
						if c.fresh {
							alts = append(alts, And(Lt(stPre.now, birth(t)), Neq(t, IntT(0))))
						}
						r.assume(True, Or(alts...))
					}
				}
			}
			r.assume(True, r.typeFacts(v, now))
			hdr[p] = v
			fr.regs[p] = v
		}
		iter := Fresh("iter", IntS)
		r.assume(True, Le(IntT(0), iter))
		fr.loopIt[l] = iter
		// candidates
		hv := &loopView{phis: hdr, st: st, iter: iter, pc: pcPre}
		cands := r.loopCandidates(fr, l, loopKey, phis, init, stPre)
		var active []*loopCand
		// The initiation obligations use only what is known before the loop.
		iview := &loopView{phis: init, st: stPre, iter: IntT(0), pc: pcPre}
		initGoal := map[*loopCand]*Term{}
		for _, c := range cands {
			if !r.disabled[c.key] {
				initGoal[c] = r.evalCand(c, iview)
			}
		}
		initAssume := r.assumes[:len(r.assumes):len(r.assumes)]
		for _, c := range cands {
			if r.disabled[c.key] {
				continue
			}
			if c.oi != nil {
				if r.invValid[r.objKey(c.oi, st)] {
					continue
				}
				r.invValid[r.objKey(c.oi, st)] = true
			}
			t := r.evalCand(c, hv)
			if t == nil {
				continue
			}
			active = append(active, c)
			r.assume(pcPre, t)
		}
		// run the body
		for b := range l.blocks {
			if b != l.header {
				fr.in[b] = nil
			}
		}
		hst := st.clone()
		fr.in[l.header] = []edge{{slot: -1, cond: pcPre, st: st}}
		r.execBlocks(fr, blocks, l)
		back := fr.in[l.header]
		fr.in[l.header] = nil
		// what changed?
		grew := false
		for _, t := range r.leaks[leaks0:] {
			if t.id <= marker {
				grew = true
			}
		}
		for _, e := range back {
			for n, t := range e.st.h {
				ht := hst.get(n, t.sort)
				if t == ht {
					continue
				}
				if strings.HasPrefix(n, "IT:") {
					// iterators created inside the loop are re-initialised
					if _, ok := hst.h[n]; !ok {
						continue
					}
				}
				c := &refClass{}
				if strings.HasPrefix(string(t.sort), "(Array") && !strings.HasPrefix(n, "IT:") && !strings.HasPrefix(n, "G:") {
					lc.writes(t, ht, c, map[*Term]bool{})
				} else {
					c.general = true
				}
				if c.general && os.Getenv("GOVERDBG") != "" {
					fmt.Fprintln(os.Stderr, "GENERAL", n, t, "HDR", ht)
				}
				m := mods[n]
				if m == nil {
					m = &refClass{}
					mods[n] = m
					modSort[n] = t.sort
					grew = true
				}
				if m.add(c) {
					grew = true
				}
			}
			for _, p := range phis {
				pv := r.val(fr, p.Edges[e.slot])
				for i, c := range phiCls[p] {
					if c == nil || pv.Addr != nil {
						continue
					}
					if pv.L[i] == hdr[p].L[i] {
						continue
					}
					o := lc.classify(pv.L[i], 0)
					if c.add(o) {
						grew = true
					}
				}
			}
		}
		if grew {
			r.rollback(snap)
			for b := range fr.in {
				n := inLen[b]
				if l.blocks[b] {
					n = 0
				}
				if len(fr.in[b]) > n {
					fr.in[b] = fr.in[b][:n]
				}
			}
			fr.returns = fr.returns[:nret]
			fr.defers = fr.defers[:ndef]
			continue
		}
		if len(fr.defers) > ndef {
			r.note("defer inside a loop in %s", shortName(fr.fn.String()))
		}
		// candidate obligations
		for _, c := range active {
			cd := r.cands[c.key]
			if cd == nil {
				cd = &Candidate{Key: c.key, Text: c.text, Auto: c.auto}
				r.cands[c.key] = cd
			}
			r.candObl(fr, l, c, cd, "inv-init", initGoal[c], pcPre, initAssume)
			for _, e := range back {
				r.covers = append(r.covers, cover{"back edge of the loop at " + r.pos(l.header.Instrs[0].Pos()) + fr.chain, e.cond})
				bv := &loopView{phis: map[*ssa.Phi]Val{}, st: e.st, iter: Add(iter, IntT(1)), pc: e.cond}
				for _, p := range phis {
					bv.phis[p] = r.val(fr, p.Edges[e.slot])
				}
				r.candObl(fr, l, c, cd, "inv-step", r.evalCand(c, bv), e.cond, nil)
			}
		}
		return
	}
}

func (r *Run) evalCand(c *loopCand, v *loopView) (t *Term) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(specErr); ok {
				t = nil
				return
			}
			panic(e)
		}
	}()
	return c.eval(v)
}

func (r *Run) candObl(fr *frame, l *loop, c *loopCand, cd *Candidate, kind string, goal, pc *Term, as []*Term) {
	if as == nil {
		as = r.assumes[:len(r.assumes):len(r.assumes)]
	}
	if goal == nil {
		goal = False
	}
	if pc == False || r.quiet > 0 {
		return
	}
	r.obls = append(r.obls, &Obl{
		Name: fmt.Sprintf("%s/%s[%s]%s", shortName(fr.fn.String()), kind, c.text, fr.chain),
		Kind: kind, Prop: r.cfg.Prop, Fn: shortName(fr.fn.String()), Pos: r.pos(l.header.Instrs[0].Pos()),
		PC: pc, Goal: goal, Assume: as, Cand: cd, Text: c.text,
	})
}

func sortedTerms(m map[*Term]bool) []*Term {
	var l []*Term
	for t := range m {
		l = append(l, t)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

// loopCandidates builds the candidate invariants of a loop.
func (r *Run) loopCandidates(fr *frame, l *loop, key string, phis []*ssa.Phi, init map[*ssa.Phi]Val, stPre *State) []*loopCand {
	r.loopCount++
	var out []*loopCand
	add := func(text string, auto bool, f func(v *loopView) *Term) {
		out = append(out, &loopCand{key: key + "|" + text, text: text, auto: auto, eval: f})
	}
	pname := func(p *ssa.Phi) string {
		if p.Comment != "" {
			return p.Comment + "." + p.Name()
		}
		return p.Name()
	}
	if r.cfg.AutoInv {
		for _, p := range phis {
			p := p
			n := pname(p)
			if isInteger(p.Type()) {
				a0 := init[p].one()
				add("auto:"+n+">=init", true, func(v *loopView) *Term { return Le(a0, v.phis[p].one()) })
				add("auto:"+n+"<=init", true, func(v *loopView) *Term { return Le(v.phis[p].one(), a0) })
				add("auto:"+n+">=0", true, func(v *loopView) *Term { return Le(IntT(0), v.phis[p].one()) })
				for _, c := range []int64{1, -1, 2} {
					c := c
					if !hasStep(p, l, c) {
						continue
					}
					add(fmt.Sprintf("auto:%s==init+%d*iter", n, c), true, func(v *loopView) *Term {
						return Eq(v.phis[p].one(), Add(a0, Mul(IntT(c), v.iter)))
					})
				}
				for _, b := range r.boundsFor(fr, l, p) {
					b := b
					add(fmt.Sprintf("auto:%s<=%s", n, b.name), true, func(v *loopView) *Term { return Le(v.phis[p].one(), b.eval(v)) })
					add(fmt.Sprintf("auto:%s<%s", n, b.name), true, func(v *loopView) *Term { return Lt(v.phis[p].one(), b.eval(v)) })
				}
			}
			if _, ok := under(p.Type()).(*types.Slice); ok {
				iv := init[p]
				add("auto:len("+n+")==init+iter", true, func(v *loopView) *Term { return Eq(v.phis[p].L[2], Add(iv.L[2], v.iter)) })
				add("auto:len("+n+")<=init+iter", true, func(v *loopView) *Term { return Le(v.phis[p].L[2], Add(iv.L[2], v.iter)) })
				add("auto:off("+n+")==init", true, func(v *loopView) *Term { return Eq(v.phis[p].L[1], iv.L[1]) })
			}
		}
	}
	for _, oi := range r.cfg.ObjInvs {
		oi := oi
		text := "objinv:" + oi.Type + ":" + clauseName(oi.Req)
		out = append(out, &loopCand{key: key + "|" + text, text: text, auto: true, oi: oi, eval: func(v *loopView) *Term { return r.objInvTerm(oi, v.st) }})
	}
	for _, lc := range r.cfg.Cands {
		if lc.Func != "" && lc.Func != specName(fr.fn) && lc.Func != specName(r.root) {
			continue
		}
		out = append(out, r.instCand(fr, l, key, lc, phis, init, stPre)...)
	}
	return out
}

type loopBound struct {
	name string
	eval func(v *loopView) *Term
}

func hasStep(p *ssa.Phi, l *loop, c int64) bool {
	for i, e := range p.Edges {
		if !l.blocks[p.Block().Preds[i]] {
			continue
		}
		if b, ok := e.(*ssa.BinOp); ok {
			if k, ok := b.Y.(*ssa.Const); ok && k.Value != nil && isInteger(k.Type()) {
				n := k.Int64()
				if b.Op == token.SUB {
					n = -n
				}
				if n == c {
					return true
				}
			}
		} else {
			return c == 1
		}
	}
	return false
}

// boundsFor finds expressions the phi is compared with inside the loop.
func (r *Run) boundsFor(fr *frame, l *loop, p *ssa.Phi) []loopBound {
	var out []loopBound
	seen := map[string]bool{}
	isPhi := func(v ssa.Value) bool {
		for k := 0; k < 3; k++ {
			if v == p {
				return true
			}
			b, ok := v.(*ssa.BinOp)
			if !ok {
				return false
			}
			if _, ok := b.Y.(*ssa.Const); !ok {
				return false
			}
			v = b.X
		}
		return false
	}
	addB := func(v ssa.Value) {
		name := describe(v)
		if seen[name] {
			return
		}
		if c, ok := v.(*ssa.Const); ok {
			seen[name] = true
			t := r.constVal(c).one()
			out = append(out, loopBound{name, func(*loopView) *Term { return t }})
			return
		}
		in, isIns := v.(ssa.Instruction)
		if !isIns || !l.blocks[in.Block()] {
			if val, ok := fr.regs[v]; ok && len(val.L) == 1 {
				seen[name] = true
				t := val.one()
				out = append(out, loopBound{name, func(*loopView) *Term { return t }})
			}
			return
		}
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				arg := c.Call.Args[0]
				name = "len(" + describe(arg) + ")"
				if seen[name] {
					return
				}
				if ph, ok := arg.(*ssa.Phi); ok && ph.Block() == l.header {
					seen[name] = true
					if isString(ph.Type()) {
						out = append(out, loopBound{name, func(v *loopView) *Term { return slen(v.phis[ph].one()) }})
					} else if _, ok := under(ph.Type()).(*types.Slice); ok {
						out = append(out, loopBound{name, func(v *loopView) *Term { return v.phis[ph].L[2] }})
					}
					return
				}
				if ai, ok := arg.(ssa.Instruction); !ok || !l.blocks[ai.Block()] {
					if val, ok := fr.regs[arg]; ok {
						seen[name] = true
						if isString(arg.Type()) {
							t := slen(val.one())
							out = append(out, loopBound{name, func(*loopView) *Term { return t }})
						} else if len(val.L) == 4 {
							t := val.L[2]
							out = append(out, loopBound{name, func(*loopView) *Term { return t }})
						}
					}
					return
				}
				// len(x.f) re-read in the loop
				if u, ok := arg.(*ssa.UnOp); ok && u.Op == token.MUL {
					if fa, ok := u.X.(*ssa.FieldAddr); ok {
						if bi, ok := fa.X.(ssa.Instruction); !ok || !l.blocks[bi.Block()] {
							if base, ok := fr.regs[fa.X]; ok && base.Addr == nil {
								seen[name] = true
								t := deref(fa.X.Type())
								at := arg.Type()
								out = append(out, loopBound{name, func(v *loopView) *Term {
									x := r.load(v.st, r.fieldAddr(t, fa.Field, base.one()), at, True)
									if isString(at) {
										return slen(x.one())
									}
									return x.L[2]
								}})
							}
						}
					}
				}
			}
		}
	}
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			bo, ok := ins.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
				if isPhi(bo.X) {
					addB(bo.Y)
				}
				if isPhi(bo.Y) {
					addB(bo.X)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}
