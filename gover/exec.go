package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Run verifies one root function.
type Run struct {
	locals   map[*Term]bool // objects allocated here that no other code can reach
	leaks    []*Term
	covers   []cover
	invValid map[string]bool
	finals   map[*Term]Val // cells that are written once, and their value
	eng      *Engine
	cfg      *RunCfg
	root     *ssa.Function

	assumes    []*Term
	assumeSet  map[*Term]bool
	factDone   map[*Term]bool
	factLog    []*Term
	obls       []*Obl
	closures   map[*Term]*Closure
	stack      []*ssa.Function
	disabled   map[string]bool // disabled Houdini candidates
	cands      map[string]*Candidate
	inlined    map[*ssa.Function]bool
	abstracted map[string]bool
	assumedFns map[string]bool
	notes      map[string]bool
	loopSeq    int
	loopCount  int
	curPC      *Term
	noOrigin   bool
	steps      int
	rootFrame  *frame
	rootSt     *State // state at entry
	rootArgs   []Val
	oldSt      *State
	ghosts     map[string]Val
	quiet      int
	depthLimit int
	leaked     map[*ssa.Function]bool
	forced     map[*ssa.Function]bool
	reached    map[*ssa.Function]bool
}

type RunCfg struct {
	ObjInvs   []*ObjInv
	Prop      string
	Kinds     map[string]bool // obligation kinds to emit
	Contracts map[string]*FuncSpec
	OnStore   []*StoreSpec
	Inline    func(fn *ssa.Function, depth int) bool
	AutoInv   bool
	Cands     []*LoopCand
	PurePtr   bool
}

type Candidate struct {
	Key  string
	Text string
	Auto bool
}

type Closure struct {
	fn    *ssa.Function
	binds []Val
}

type edge struct {
	slot int
	cond *Term
	st   *State
}

type retval struct {
	cond *Term
	st   *State
	vals []Val
	pos  token.Pos
}

type deferred struct {
	cond *Term
	call *ssa.Defer
	fnv  Val
	args []Val
	recv Val
}

type frame struct {
	fn      *ssa.Function
	regs    map[ssa.Value]Val
	in      map[*ssa.BasicBlock][]edge
	returns []retval
	defers  []deferred
	li      *loopInfo
	chain   string
	args    []Val
	entry   *State
	spec    *FuncSpec
	depth   int
	loopIt  map[*loop]*Term
}

func newRun(eng *Engine, cfg *RunCfg, root *ssa.Function) *Run {
	return &Run{eng: eng, cfg: cfg, root: root,
		assumeSet: map[*Term]bool{}, factDone: map[*Term]bool{}, closures: map[*Term]*Closure{},
		disabled: map[string]bool{}, cands: map[string]*Candidate{}, inlined: map[*ssa.Function]bool{},
		abstracted: map[string]bool{}, assumedFns: map[string]bool{}, notes: map[string]bool{}, ghosts: map[string]Val{}, leaked: map[*ssa.Function]bool{}, forced: map[*ssa.Function]bool{}, reached: map[*ssa.Function]bool{}}
}

func (r *Run) reset() {
	r.assumes, r.assumeSet, r.factDone, r.factLog, r.obls = nil, map[*Term]bool{}, map[*Term]bool{}, nil, nil
	r.closures = map[*Term]*Closure{}
	r.stack = nil
	r.steps = 0
	r.loopSeq = 0
	r.loopCount = 0
	r.curPC = nil
	r.cands = map[string]*Candidate{}
	r.ghosts = map[string]Val{}
	r.invValid = map[string]bool{}
	r.finals = map[*Term]Val{}
	r.locals, r.leaks, r.covers = map[*Term]bool{}, nil, nil
}

func (r *Run) assume(pc, f *Term) {
	t := Imp(pc, f)
	if t.bound {
		return // facts about values under a quantifier are not ground
	}
	if t == True {
		return
	}
	if r.assumeSet[t] {
		if o := origin[t]; o != nil && o != r.curPC {
			delete(origin, t) // established on several paths
		}
		return
	}
	if f.op == "and" {
		for _, x := range f.args {
			r.assume(pc, x)
		}
		return
	}
	r.assumeSet[t] = true
	r.assumes = append(r.assumes, t)
	if pc == True && r.curPC != nil && !r.noOrigin {
		origin[t] = r.curPC
	} else {
		delete(origin, t)
	}
}

// origin: path condition under which an unguarded fact was first recorded; facts
// about other paths' values are of no use to an obligation.
var origin = map[*Term]*Term{}

type snapshot struct{ na, nf, no int }

func (r *Run) snap() snapshot { return snapshot{len(r.assumes), len(r.factLog), len(r.obls)} }
func (r *Run) rollback(s snapshot) {
	for _, t := range r.assumes[s.na:] {
		delete(r.assumeSet, t)
	}
	r.assumes = r.assumes[:s.na]
	for _, t := range r.factLog[s.nf:] {
		delete(r.factDone, t)
	}
	r.factLog = r.factLog[:s.nf]
	r.obls = r.obls[:s.no]
}

func (r *Run) note(f string, a ...any) { r.notes[fmt.Sprintf(f, a...)] = true }

func (r *Run) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := r.eng.prog.Fset.Position(p)
	return strings.TrimPrefix(ps.Filename, r.eng.dir+"/") + fmt.Sprintf(":%d", ps.Line)
}

// check emits an obligation (if its kind is enabled) and then assumes it.
func (r *Run) check(kind string, fr *frame, pos token.Pos, pc, goal *Term, text string) {
	if pc == False {
		return
	}
	if r.quiet == 0 && (kind == "objinv" || r.cfg.Kinds[kind]) {
		fn := ""
		chain := ""
		if fr != nil {
			fn = shortName(fr.fn.String())
			chain = fr.chain
		}
		r.obls = append(r.obls, &Obl{
			Name: fmt.Sprintf("%s/%s@%s[%s]%s", fn, kind, r.pos(pos), text, chain),
			Kind: kind, Prop: r.cfg.Prop, Fn: fn, Pos: r.pos(pos), PC: pc, Goal: goal,
			Assume: r.assumes[:len(r.assumes):len(r.assumes)], Text: text,
		})
	}
	r.assume(pc, goal)
}

// ---- loops ----

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
	id     int
}

type loopInfo struct {
	rpo   []*ssa.BasicBlock
	byHdr map[*ssa.BasicBlock]*loop
	inner map[*ssa.BasicBlock]*loop
}

func (e *Engine) loopInfo(fn *ssa.Function) *loopInfo {
	if li, ok := e.loops[fn]; ok {
		return li
	}
	li := &loopInfo{byHdr: map[*ssa.BasicBlock]*loop{}, inner: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			dfs(s)
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHdr[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}, id: len(li.byHdr)}
					li.byHdr[s] = l
				}
				// natural loop of the back edge b -> s
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	for _, l := range li.byHdr {
		for _, m := range li.byHdr {
			if l != m && m.blocks[l.header] {
				if l.parent == nil || len(m.blocks) < len(l.parent.blocks) {
					l.parent = m
				}
			}
		}
	}
	for _, b := range li.rpo {
		for _, l := range li.byHdr {
			if l.blocks[b] {
				if cur := li.inner[b]; cur == nil || len(l.blocks) < len(cur.blocks) {
					li.inner[b] = l
				}
			}
		}
	}
	e.loops[fn] = li
	return li
}

// ---- state merging ----

func mergeStates(es []edge) (*Term, *State) {
	if len(es) == 1 {
		return es[0].cond, es[0].st.clone()
	}
	var conds []*Term
	for _, e := range es {
		conds = append(conds, e.cond)
	}
	pc := Or(conds...)
	names := map[string]Sort{}
	for _, e := range es {
		for n, t := range e.st.h {
			names[n] = t.sort
		}
	}
	out := &State{h: map[string]*Term{}}
	for n, s := range names {
		t := es[len(es)-1].st.get(n, s)
		for i := len(es) - 2; i >= 0; i-- {
			t = Ite(es[i].cond, es[i].st.get(n, s), t)
		}
		out.h[n] = t
	}
	now := es[len(es)-1].st.now
	for i := len(es) - 2; i >= 0; i-- {
		now = Ite(es[i].cond, es[i].st.now, now)
	}
	out.now = now
	return pc, out
}

func mergeVals(conds []*Term, vs []Val) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	last := vs[len(vs)-1]
	out := Val{T: last.T}
	if len(last.Tup) > 0 {
		for j := range last.Tup {
			var sub []Val
			for _, v := range vs {
				sub = append(sub, v.Tup[j])
			}
			out.Tup = append(out.Tup, mergeVals(conds, sub))
		}
		return out
	}
	for _, v := range vs {
		if v.Addr != nil {
			panic(unsupported("phi of scalar addresses"))
		}
		if v.Iter != nil {
			return vs[0]
		}
	}
	for j := range last.L {
		t := last.L[j]
		for i := len(vs) - 2; i >= 0; i-- {
			t = Ite(conds[i], vs[i].L[j], t)
		}
		out.L = append(out.L, t)
	}
	return out
}

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...any) unsupportedErr { return unsupportedErr{fmt.Sprintf(f, a...)} }

// ---- function execution ----

const maxDepth = 60

func (r *Run) execFunc(fn *ssa.Function, args, binds []Val, st *State, pc *Term, chain string) (Val, *State, *Term) {
	if len(r.stack) > maxDepth {
		panic(unsupported("inlining too deep at %v", fn))
	}
	r.stack = append(r.stack, fn)
	defer func() { r.stack = r.stack[:len(r.stack)-1] }()
	r.inlined[fn] = true
	fr := &frame{fn: fn, regs: map[ssa.Value]Val{}, in: map[*ssa.BasicBlock][]edge{}, li: r.eng.loopInfo(fn), chain: chain, args: args, depth: len(r.stack), loopIt: map[*loop]*Term{}}
	for i, p := range fn.Params {
		a := args[i]
		a.T = p.Type()
		fr.regs[p] = a
	}
	for i, fv := range fn.FreeVars {
		fr.regs[fv] = binds[i]
	}
	fr.entry = st.clone()
	if len(r.stack) == 1 && chain == "" {
		r.rootFrame = fr
	}
	fr.in[fn.Blocks[0]] = []edge{{slot: -1, cond: pc, st: st}}
	r.execBlocks(fr, fr.li.rpo, nil)
	if len(fr.returns) == 0 {
		return zeroResults(fn), st, False
	}
	var es []edge
	var conds []*Term
	for _, x := range fr.returns {
		es = append(es, edge{cond: x.cond, st: x.st})
		conds = append(conds, x.cond)
	}
	rpc, rst := r.merge(es)
	sig := fn.Signature.Results()
	switch sig.Len() {
	case 0:
		return Val{T: sig}, rst, rpc
	}
	var res []Val
	for j := 0; j < sig.Len(); j++ {
		var vs []Val
		for _, x := range fr.returns {
			vs = append(vs, r.escapeAddr(x.vals[j]))
		}
		res = append(res, mergeVals(conds, vs))
	}
	if sig.Len() == 1 {
		return res[0], rst, rpc
	}
	return Val{T: sig, Tup: res}, rst, rpc
}

func (r *Run) escapeAddr(v Val) Val {
	if v.Addr != nil {
		panic(unsupported("address of scalar %s escapes", v.Addr.heap))
	}
	return v
}

func zeroResults(fn *ssa.Function) Val {
	sig := fn.Signature.Results()
	if sig.Len() == 1 {
		return zeroVal(sig.At(0).Type())
	}
	return zeroVal(sig)
}

func (r *Run) execBlocks(fr *frame, blocks []*ssa.BasicBlock, in *loop) {
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range blocks {
		if done[b] {
			continue
		}
		if in != nil && !in.blocks[b] {
			continue
		}
		if l := fr.li.byHdr[b]; l != nil && l != in {
			for x := range l.blocks {
				done[x] = true
			}
			if len(fr.in[b]) > 0 {
				r.execLoop(fr, l, blocks)
			}
			continue
		}
		es := fr.in[b]
		if len(es) == 0 {
			continue
		}
		if in != nil && b == in.header {
			// state prepared by execLoop
			e := es[0]
			fr.in[b] = nil
			r.execBlock(fr, b, e.cond, e.st, true)
			continue
		}
		pc, st := r.merge(es)
		if pc == False {
			continue
		}
		// phis
		for _, ins := range b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			var vs []Val
			var cs []*Term
			for _, e := range es {
				vs = append(vs, r.val(fr, phi.Edges[e.slot]))
				cs = append(cs, e.cond)
			}
			v := mergeVals(cs, vs)
			v.T = phi.Type()
			fr.regs[phi] = v
		}
		r.execBlock(fr, b, pc, st, true)
	}
}

func (r *Run) addEdge(fr *frame, from, to *ssa.BasicBlock, cond *Term, st *State, nth int) {
	if cond == False {
		return
	}
	slot := -1
	k := 0
	for j, p := range to.Preds {
		if p == from {
			if k == nth {
				slot = j
				break
			}
			k++
		}
	}
	fr.in[to] = append(fr.in[to], edge{slot, cond, st})
}

func (r *Run) execBlock(fr *frame, b *ssa.BasicBlock, pc *Term, st *State, skipPhi bool) {
	for _, ins := range b.Instrs {
		if pc == False {
			return
		}
		r.steps++
		if r.steps > 400000 {
			panic(unsupported("too many steps"))
		}
		switch x := ins.(type) {
		case *ssa.Phi:
			if !skipPhi {
				panic("phi")
			}
		case *ssa.If:
			c := r.val(fr, x.Cond).one()
			nth := 0
			if b.Succs[0] == b.Succs[1] {
				nth = 1
			}
			r.addEdge(fr, b, b.Succs[0], And(pc, c), st, 0)
			r.addEdge(fr, b, b.Succs[1], And(pc, Not(c)), st, nth)
			return
		case *ssa.Jump:
			r.addEdge(fr, b, b.Succs[0], pc, st, 0)
			return
		case *ssa.Return:
			var vs []Val
			for _, v := range x.Results {
				vs = append(vs, r.val(fr, v))
			}
			if len(r.stack) <= 1 {
				r.leak(vs...)
			} else {
				r.leakClosures(vs...)
			}
			fr.returns = append(fr.returns, retval{pc, st, vs, x.Pos()})
			return
		case *ssa.Panic:
			r.check("panic", fr, x.Pos(), pc, False, "explicit panic unreachable")
			return
		case *ssa.RunDefers:
			st, pc = r.runDefers(fr, st, pc)
		default:
			r.curPC = pc
			st, pc = r.instr(fr, ins, st, pc)
		}
	}
}

func (r *Run) runDefers(fr *frame, st *State, pc *Term) (*State, *Term) {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		c := And(pc, d.cond)
		if c == False {
			continue
		}
		before := st.clone()
		_, ast, apc := r.callCommon(fr, d.call, &d.call.Call, d.fnv, d.args, st.clone(), c)
		if apc == False {
			st = before
			pc = And(pc, Not(d.cond))
			continue
		}
		if d.cond == True || And(pc, Not(d.cond)) == False {
			st, pc = ast, apc
			continue
		}
		pc, st = r.merge([]edge{{cond: apc, st: ast}, {cond: And(pc, Not(d.cond)), st: before}})
	}
	return st, pc
}

// ---- values ----

func (r *Run) val(fr *frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return r.constVal(x)
	case *ssa.Function:
		return r.funcVal(x)
	case *ssa.Global:
		return r.globalVal(x)
	case *ssa.Builtin:
		return Val{T: x.Type()}
	}
	if val, ok := fr.regs[v]; ok {
		return val
	}
	panic(fmt.Sprintf("no value for %s = %v in %v", v.Name(), v, fr.fn))
}

func (r *Run) globalVal(g *ssa.Global) Val {
	name := g.Name()
	if g.Pkg != nil {
		name = g.Pkg.Pkg.Path() + "." + name
	}
	t := Const("global:"+shortName(name), IntS)
	if !r.factDone[t] {
		r.factDone[t] = true
		r.factLog = append(r.factLog, t)
		was := r.noOrigin
		r.noOrigin = true
		r.assume(True, And(Lt(IntT(0), t), Eq(birth(t), IntT(0))))
		r.noOrigin = was
	}
	return Val{T: g.Type(), L: []*Term{t}}
}

func (r *Run) funcVal(f *ssa.Function) Val {
	t := Const("fn:"+shortName(f.String()), IntS)
	r.closures[t] = &Closure{fn: f}
	id, ok := fnIDs[t]
	if !ok {
		id = len(fnIDs) + 1
		fnIDs[t] = id
	}
	was := r.noOrigin
	r.noOrigin = true
	r.assume(True, And(Lt(IntT(0), t), Eq(UF("fnid", IntS, t), IntT(int64(id)))))
	r.noOrigin = was
	return Val{T: f.Type(), L: []*Term{t}}
}

func (r *Run) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	return constTerm(c.Value, t)
}

func constTerm(cv constant.Value, t types.Type) Val {
	b, _ := under(t).(*types.Basic)
	if b == nil {
		panic(fmt.Sprintf("const of type %v", t))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return Val{T: t, L: []*Term{BoolT(constant.BoolVal(cv))}}
	case b.Info()&types.IsString != 0:
		return Val{T: t, L: []*Term{StrLit(constant.StringVal(cv))}}
	case b.Info()&types.IsInteger != 0:
		iv := constant.ToInt(cv)
		bi, ok := new(big.Int).SetString(iv.ExactString(), 10)
		if !ok {
			panic("bad int const " + cv.String())
		}
		return Val{T: t, L: []*Term{BigT(bi)}}
	}
	return Val{T: t, L: []*Term{Const("flt:"+cv.ExactString(), FltS)}}
}

// ---- strings ----

func slen(s *Term) *Term {
	if s.op == "str" {
		return IntT(int64(len(s.sval)))
	}
	if s.op == "uf:"+fnCat {
		return Add(slen(s.args[0]), slen(s.args[1]))
	}
	ensureStrDecl(fnSlen)
	return mkApp("uf:"+fnSlen, IntS, s)
}

func sat(s, i *Term) *Term {
	if s.op == "str" && i.isInt() && i.ival.IsInt64() {
		k := i.ival.Int64()
		if k >= 0 && k < int64(len(s.sval)) {
			return IntT(int64(s.sval[k]))
		}
	}
	ensureStrDecl(fnSat)
	return mkApp("uf:"+fnSat, IntS, s, i)
}

// cat is concatenation in the program: the result fits in memory.
func (r *Run) cat(a, b *Term) *Term {
	t := scat(a, b)
	if t.bound || t.op == "str" {
		return t
	}
	sum := IntT(0)
	for x := t; ; {
		if x.op == "uf:"+fnCat {
			sum = Add(sum, slen(x.args[0]))
			x = x.args[1]
			continue
		}
		sum = Add(sum, slen(x))
		break
	}
	pc := r.curPC
	if pc == nil {
		pc = True
	}
	r.assume(pc, Le(sum, IntT(maxLen)))
	return t
}

func scat(a, b *Term) *Term {
	if a.op == "str" && b.op == "str" {
		return StrLit(a.sval + b.sval)
	}
	if a.op == "str" && a.sval == "" {
		return b
	}
	if b.op == "str" && b.sval == "" {
		return a
	}
	// right-associate for canonical form
	if a.op == "uf:"+fnCat {
		return scat(a.args[0], scat(a.args[1], b))
	}
	if a.op == "str" && b.op == "uf:"+fnCat && b.args[0].op == "str" {
		return scat(StrLit(a.sval+b.args[0].sval), b.args[1])
	}
	ensureStrDecl(fnCat)
	return mkApp("uf:"+fnCat, StrS, a, b)
}

func ssub(s, i, j *Term) *Term {
	if s.op == "str" && i.isInt() && j.isInt() && i.ival.IsInt64() && j.ival.IsInt64() {
		a, b := i.ival.Int64(), j.ival.Int64()
		if 0 <= a && a <= b && b <= int64(len(s.sval)) {
			return StrLit(s.sval[a:b])
		}
	}
	if i.isInt() && i.ival.Sign() == 0 && j == slen(s) {
		return s
	}
	ensureStrDecl(fnSub)
	return mkApp("uf:"+fnSub, StrS, s, i, j)
}

func strEq(a, b *Term) *Term { return Eq(a, b) }

// ---- instructions ----

func deref(t types.Type) types.Type { return under(t).(*types.Pointer).Elem() }

func (r *Run) nilCheck(fr *frame, pos token.Pos, pc *Term, p Val, what string) {
	if p.Addr != nil {
		return
	}
	t := p.one()
	if t.fresh || isInterior(t) || isGlobalRef(t) {
		return
	}
	r.check("nil", fr, pos, pc, Neq(t, IntT(0)), "non-nil "+what)
}

func describe(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Name()
	case *ssa.FieldAddr:
		st := under(deref(x.X.Type())).(*types.Struct)
		return describe(x.X) + "." + st.Field(x.Field).Name()
	case *ssa.Field:
		st := under(x.X.Type()).(*types.Struct)
		return describe(x.X) + "." + st.Field(x.Field).Name()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return describe(x.X)
		}
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.Call:
		if c := x.Call.StaticCallee(); c != nil {
			return c.Name() + "()"
		}
		if x.Call.IsInvoke() {
			return x.Call.Method.Name() + "()"
		}
	case *ssa.Const:
		return x.Name()
	case *ssa.Global:
		return x.Name()
	case *ssa.Extract:
		return describe(x.Tuple)
	case *ssa.IndexAddr:
		return describe(x.X) + "[" + describe(x.Index) + "]"
	case *ssa.Lookup:
		return describe(x.X) + "[" + describe(x.Index) + "]"
	case *ssa.FreeVar:
		return x.Name()
	case *ssa.Alloc:
		return x.Comment
	case *ssa.BinOp:
		return describe(x.X) + x.Op.String() + describe(x.Y)
	case *ssa.Slice:
		return describe(x.X) + "[:]"
	}
	return v.Name()
}

func (r *Run) instr(fr *frame, ins ssa.Instruction, st *State, pc *Term) (*State, *Term) {
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := deref(x.Type())
		ref := r.newRef(st, t2name(t))
		if n := cellArray(x); n > 0 {
			et := under(t).(*types.Array).Elem()
			for i := 0; i < n; i++ {
				r.storeRef(st, et, r.interior(cellRef(et, ref, IntT(int64(i))), ref), zeroVal(et))
			}
		} else {
			r.storeRef(st, t, ref, zeroVal(t))
		}
		fr.regs[x] = Val{T: x.Type(), L: []*Term{ref}}
	case *ssa.BinOp:
		fr.regs[x] = r.binop(fr, x, st, pc)
	case *ssa.UnOp:
		st, pc = r.unop(fr, x, st, pc)
	case *ssa.Call:
		fnv, args := r.callArgs(fr, &x.Call)
		v, nst, npc := r.callCommon(fr, x, &x.Call, fnv, args, st, pc)
		v.T = x.Type()
		fr.regs[x] = v
		return nst, npc
	case *ssa.Defer:
		fnv, args := r.callArgs(fr, &x.Call)
		fr.defers = append(fr.defers, deferred{cond: pc, call: x, fnv: fnv, args: args})
	case *ssa.Go:
		if fnv, args := r.callArgs(fr, &x.Call); true {
			r.leak(fnv)
			r.leak(args...)
		}
		r.note("goroutine started in %s: body verified only as its own root", shortName(fr.fn.String()))
	case *ssa.ChangeInterface:
		v := r.val(fr, x.X)
		v.T = x.Type()
		fr.regs[x] = v
	case *ssa.ChangeType:
		v := r.val(fr, x.X)
		v.T = x.Type()
		fr.regs[x] = v
	case *ssa.Convert:
		fr.regs[x] = r.convert(fr, x, st, pc)
	case *ssa.Extract:
		tv := r.val(fr, x.Tuple)
		v := tv.Tup[x.Index]
		v.T = x.Type()
		fr.regs[x] = v
	case *ssa.Field:
		v := r.val(fr, x.X)
		s := under(x.X.Type()).(*types.Struct)
		k := 0
		for i := 0; i < x.Field; i++ {
			k += len(leavesOf(s.Field(i).Type()))
		}
		n := len(leavesOf(x.Type()))
		fr.regs[x] = Val{T: x.Type(), L: v.L[k : k+n]}
	case *ssa.FieldAddr:
		p := r.val(fr, x.X)
		r.nilCheck(fr, x.Pos(), pc, p, describe(x.X))
		v := r.fieldAddr(deref(x.X.Type()), x.Field, p.one())
		v.T = x.Type()
		fr.regs[x] = v
	case *ssa.Index:
		v := r.val(fr, x.X)
		i := r.val(fr, x.Index).one()
		if b, ok := under(x.X.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			r.check("index", fr, x.Pos(), pc, And(Le(IntT(0), i), Lt(i, slen(v.one()))), describe(x.X)+"["+describe(x.Index)+"] in range")
			fr.regs[x] = Val{T: x.Type(), L: []*Term{sat(v.one(), i)}}
			break
		}
		if a, ok := under(x.X.Type()).(*types.Array); ok {
			r.check("index", fr, x.Pos(), pc, And(Le(IntT(0), i), Lt(i, IntT(a.Len()))), describe(x.X)+"["+describe(x.Index)+"] in range")
			o := Val{T: x.Type()}
			for _, t := range v.L {
				o.L = append(o.L, Select(t, i))
			}
			fr.regs[x] = o
			break
		}
		panic(unsupported("index of %v", x.X.Type()))
	case *ssa.IndexAddr:
		v := r.val(fr, x.X)
		i := r.val(fr, x.Index).one()
		switch u := under(x.X.Type()).(type) {
		case *types.Slice:
			r.check("index", fr, x.Pos(), pc, And(Le(IntT(0), i), Lt(i, v.L[2])), describe(x.X)+"["+describe(x.Index)+"] in range")
			fr.regs[x] = r.elemAddr(u.Elem(), v.L[0], Add(v.L[1], i))
		case *types.Pointer:
			at := under(u.Elem()).(*types.Array)
			r.nilCheck(fr, x.Pos(), pc, v, describe(x.X))
			r.check("index", fr, x.Pos(), pc, And(Le(IntT(0), i), Lt(i, IntT(at.Len()))), describe(x.X)+"["+describe(x.Index)+"] in range")
			if al, ok := x.X.(*ssa.Alloc); ok && cellArray(al) > 0 {
				fr.regs[x] = Val{T: x.Type(), L: []*Term{r.interior(cellRef(at.Elem(), v.one(), i), v.one())}}
				break
			}
			fr.regs[x] = r.elemAddr(at.Elem(), v.one(), i)
		default:
			panic(unsupported("indexaddr of %v", x.X.Type()))
		}
	case *ssa.Lookup:
		m := r.val(fr, x.X)
		k := r.val(fr, x.Index)
		if b, ok := under(x.X.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			i := k.one()
			r.check("index", fr, x.Pos(), pc, And(Le(IntT(0), i), Lt(i, slen(m.one()))), describe(x.X)+"["+describe(x.Index)+"] in range")
			fr.regs[x] = Val{T: x.Type(), L: []*Term{sat(m.one(), i)}}
			break
		}
		v, has := r.mapGet(st, m, k, pc)
		if x.CommaOk {
			fr.regs[x] = Val{T: x.Type(), Tup: []Val{v, {T: types.Typ[types.Bool], L: []*Term{has}}}}
		} else {
			fr.regs[x] = v
		}
	case *ssa.MakeChan:
		ref := r.newRef(st, "chan")
		fr.regs[x] = Val{T: x.Type(), L: []*Term{ref}}
	case *ssa.MakeClosure:
		ref := r.newRef(st, "closure")
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.binds = append(c.binds, r.val(fr, b))
		}
		r.closures[ref] = c
		fr.regs[x] = Val{T: x.Type(), L: []*Term{ref}}
	case *ssa.MakeInterface:
		v := r.val(fr, x.X)
		v.T = x.X.Type()
		r.leak(v)
		fr.regs[x] = r.box(v, x.Type())
	case *ssa.MakeMap:
		fr.regs[x] = r.mapNew(st, x.Type())
	case *ssa.MakeSlice:
		ln, cp := r.val(fr, x.Len).one(), r.val(fr, x.Cap).one()
		r.check("index", fr, x.Pos(), pc, And(Le(IntT(0), ln), Le(ln, cp)), "make slice length")
		fr.regs[x] = r.newSlice(st, x.Type(), ln, cp)
		r.assume(pc, Le(cp, IntT(maxLen)))
	case *ssa.MapUpdate:
		m := r.val(fr, x.Map)
		r.check("nilmap", fr, x.Pos(), pc, Neq(m.one(), IntT(0)), "map "+describe(x.Map)+" non-nil on write")
		k, v := r.val(fr, x.Key), r.val(fr, x.Value)
		r.leak(v)
		r.mapSet(st, m, k, v)
	case *ssa.Next:
		return r.next(fr, x, st, pc)
	case *ssa.Range:
		r.rangeStart(fr, x, st, pc)
	case *ssa.Select:
		fr.regs[x] = r.freshVal("select", x.Type(), pc, st.now)
		idx := fr.regs[x].Tup[0].one()
		lo := IntT(0)
		if !x.Blocking {
			lo = IntT(-1)
		}
		r.assume(pc, And(Le(lo, idx), Lt(idx, IntT(int64(len(x.States))))))
		for _, s := range x.States {
			if s.Dir == types.SendOnly {
				r.onSend(fr, s.Chan, s.Send, x.Pos(), st, pc)
				r.leak(r.val(fr, s.Send))
			}
		}
	case *ssa.Send:
		r.onSend(fr, x.Chan, x.X, x.Pos(), st, pc)
		r.leak(r.val(fr, x.X))
	case *ssa.Slice:
		r.slice(fr, x, st, pc)
	case *ssa.SliceToArrayPointer:
		panic(unsupported("slice to array pointer"))
	case *ssa.Store:
		p := r.val(fr, x.Addr)
		v := r.val(fr, x.Val)
		r.nilCheck(fr, x.Pos(), pc, p, describe(x.Addr))
		v = r.firstClass(v, st, pc)
		t := deref(x.Addr.Type())
		r.onStore(fr, x, p, t, v, st, pc)
		r.leak(v)
		r.store(st, p, t, v)
		if a, ok := x.Addr.(*ssa.Alloc); ok && p.Addr == nil && len(p.L) == 1 && r.eng.finalCell(a) == x {
			r.finals[p.L[0]] = v
		}
	case *ssa.TypeAssert:
		return r.typeAssert(fr, x, st, pc)
	case *ssa.MultiConvert:
		panic(unsupported("multiconvert"))
	default:
		panic(unsupported("instruction %T", ins))
	}
	return st, pc
}

func t2name(t types.Type) string {
	s := typeKey(t)
	if len(s) > 40 {
		s = s[:40]
	}
	return s
}

func (r *Run) newSlice(st *State, t types.Type, ln, cp *Term) Val {
	et := under(t).(*types.Slice).Elem()
	ref := r.newRef(st, "backing")
	r.zeroBacking(st, et, ref)
	return Val{T: t, L: []*Term{ref, IntT(0), ln, cp}}
}

func (r *Run) zeroBacking(st *State, et types.Type, ref *Term) {
	if isStructObj(et) || isArrayObj(et) {
		// zero fields of every element
		if isStructObj(et) {
			i := BoundVar("i", IntS)
			r.structElemsEq(st, et, elemRef(et, ref, i), nil, i)
		}
		return
	}
	ls := leavesOf(et)
	for i, l := range ls {
		n := hname("E:"+typeKey(et), i, len(ls))
		h := st.get(n, ArrS(IntS, ArrS(IntS, l.sort)))
		st.h[n] = StoreT(h, ref, ConstArr(ArrS(IntS, l.sort), zeroLeaf(l)))
	}
}

// structElemsEq assumes (for all i) that the struct at ref equals the struct
// at other (or zero when other is nil).  Used for freshly allocated backing
// arrays, whose contents are unconstrained in the current heap.
func (r *Run) structElemsEq(st *State, et types.Type, ref, other *Term, i *Term, guard ...*Term) {
	s := under(et).(*types.Struct)
	for k := 0; k < s.NumFields(); k++ {
		f := s.Field(k)
		if isArrayObj(f.Type()) {
			continue
		}
		if isStructObj(f.Type()) {
			var o *Term
			if other != nil {
				o = subRef(et, f.Name(), other)
			}
			r.structElemsEq(st, f.Type(), subRef(et, f.Name(), ref), o, i, guard...)
			continue
		}
		fa := r.fieldAddr(et, k, ref)
		a := fa.Addr
		if a == nil {
			a = r.cellAddr(f.Type(), fa.L[0])
		}
		lhs := r.loadAddr(st, a, True)
		var rhs Val
		if other != nil {
			fb := r.fieldAddr(et, k, other)
			b := fb.Addr
			if b == nil {
				b = r.cellAddr(f.Type(), fb.L[0])
			}
			rhs = r.loadAddr(st, b, True)
		} else {
			rhs = zeroVal(f.Type())
		}
		for j := range lhs.L {
			r.assume(True, Forall([]*Term{i}, Imp(And(guard...), Eq(lhs.L[j], rhs.L[j])), []*Term{lhs.L[j]}))
		}
	}
}

func (r *Run) slice(fr *frame, x *ssa.Slice, st *State, pc *Term) {
	v := r.val(fr, x.X)
	get := func(e ssa.Value, def *Term) *Term {
		if e == nil {
			return def
		}
		return r.val(fr, e).one()
	}
	text := "slice bounds of " + describe(x.X)
	switch u := under(x.X.Type()).(type) {
	case *types.Basic: // string
		s := v.one()
		lo := get(x.Low, IntT(0))
		hi := get(x.High, slen(s))
		r.check("index", fr, x.Pos(), pc, And(Le(IntT(0), lo), Le(lo, hi), Le(hi, slen(s))), text)
		fr.regs[x] = Val{T: x.Type(), L: []*Term{ssub(s, lo, hi)}}
	case *types.Slice:
		lo := get(x.Low, IntT(0))
		hi := get(x.High, v.L[2])
		max := get(x.Max, v.L[3])
		r.check("index", fr, x.Pos(), pc, And(Le(IntT(0), lo), Le(lo, hi), Le(hi, max), Le(max, v.L[3])), text)
		fr.regs[x] = Val{T: x.Type(), L: []*Term{v.L[0], Add(v.L[1], lo), Sub(hi, lo), Sub(max, lo)}}
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		n := IntT(at.Len())
		lo := get(x.Low, IntT(0))
		hi := get(x.High, n)
		max := get(x.Max, n)
		r.check("index", fr, x.Pos(), pc, And(Le(IntT(0), lo), Le(lo, hi), Le(hi, max), Le(max, n)), text)
		fr.regs[x] = Val{T: x.Type(), L: []*Term{v.one(), lo, Sub(hi, lo), Sub(max, lo)}}
	default:
		panic(unsupported("slice of %v", x.X.Type()))
	}
}

func (r *Run) unop(fr *frame, x *ssa.UnOp, st *State, pc *Term) (*State, *Term) {
	v := r.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		r.nilCheck(fr, x.Pos(), pc, v, describe(x.X))
		if g, ok := x.X.(*ssa.Global); ok {
			if c, ok := r.eng.globalConst[g]; ok {
				fr.regs[x] = r.constVal(c)
				return st, pc
			}
			if f, ok := r.eng.globalFunc[g]; ok {
				o := r.funcVal(f)
				o.T = x.Type()
				fr.regs[x] = o
				return st, pc
			}
		}
		if v.Addr == nil && len(v.L) == 1 {
			if o, ok := r.finals[v.L[0]]; ok {
				o.T = x.Type()
				fr.regs[x] = o
				return st, pc
			}
		}
		o := r.load(st, v, x.Type(), pc)
		o.T = x.Type()
		if g, ok := x.X.(*ssa.Global); ok {
			r.globalFacts(g, o, st, pc)
		}
		fr.regs[x] = o
	case token.NOT:
		fr.regs[x] = Val{T: x.Type(), L: []*Term{Not(v.one())}}
	case token.SUB:
		if v.one().sort == FltS {
			fr.regs[x] = Val{T: x.Type(), L: []*Term{UF("flt-neg", FltS, v.one())}}
		} else {
			fr.regs[x] = Val{T: x.Type(), L: []*Term{r.wrap(Sub(IntT(0), v.one()), x.Type())}}
		}
	case token.XOR:
		fr.regs[x] = r.intUF("bitnot", x.Type(), v.one())
	case token.ARROW:
		o := r.freshVal("recv", x.Type(), pc, st.now)
		fr.regs[x] = o
	default:
		panic(unsupported("unop %v", x.Op))
	}
	return st, pc
}

func (r *Run) globalFacts(g *ssa.Global, o Val, st *State, pc *Term) {
	t := deref(g.Type())
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		r.assume(pc, Neq(o.L[0], IntT(0)))
	}
	if r.eng.nonnullGlobals[shortName(g.String())] {
		r.assume(pc, Neq(o.L[0], IntT(0)))
	}
	if g.Pkg != nil && !inModule(g.Pkg.Pkg.Path()) {
		if _, ok := under(t).(*types.Pointer); ok {
			r.assume(pc, Neq(o.L[0], IntT(0)))
		}
	}
	for _, f := range r.eng.globalInit[g] {
		f(r, o, st, pc)
	}
}

// wrap applies the machine-integer range of T to mathematical expression e.
func (r *Run) wrap(e *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return e
	}
	if e.isInt() {
		if e.ival.Cmp(lo) >= 0 && e.ival.Cmp(hi) <= 0 {
			return e
		}
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big.NewInt(1))
		v := new(big.Int).Sub(e.ival, lo)
		v.Mod(v, m)
		return BigT(v.Add(v, lo))
	}
	if e.bound {
		return e
	}
	m := new(big.Int).Sub(hi, lo)
	m.Add(m, big.NewInt(1))
	if lo.Sign() == 0 && m.BitLen() <= 33 {
		return Ite(inRange(e, t), e, mkApp("mod", IntS, e, BigT(m)))
	}
	w := UF("wrap:"+typeKey(under(t)), IntS, e)
	r.assume(True, inRange(w, t))
	return Ite(inRange(e, t), e, w)
}

func (r *Run) intUF(name string, t types.Type, args ...*Term) Val {
	v := UF("int:"+name, IntS, args...)
	if !v.bound {
		r.assume(True, inRange(v, t))
	}
	return Val{T: t, L: []*Term{v}}
}

func (r *Run) binop(fr *frame, x *ssa.BinOp, st *State, pc *Term) Val {
	a, b := r.val(fr, x.X), r.val(fr, x.Y)
	return r.binopV(fr, x.Op, a, b, x.X.Type(), x.Y.Type(), x.Type(), x.Pos(), pc)
}

func (r *Run) binopV(fr *frame, op token.Token, a, b Val, ta, tb, tr types.Type, pos token.Pos, pc *Term) Val {
	bv := func(t *Term) Val { return Val{T: tr, L: []*Term{t}} }
	switch op {
	case token.EQL, token.NEQ:
		e := r.eqVals(a, b, ta, tb)
		if op == token.NEQ {
			e = Not(e)
		}
		return bv(e)
	}
	bt, _ := under(ta).(*types.Basic)
	if bt == nil {
		panic(unsupported("binop %v on %v", op, ta))
	}
	x, y := a.one(), b.one()
	if bt.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			return bv(r.cat(x, y))
		case token.LSS:
			return bv(UF("strlt", BoolS, x, y))
		case token.GTR:
			return bv(UF("strlt", BoolS, y, x))
		case token.LEQ:
			return bv(Not(UF("strlt", BoolS, y, x)))
		case token.GEQ:
			return bv(Not(UF("strlt", BoolS, x, y)))
		}
	}
	if bt.Info()&types.IsBoolean != 0 {
		switch op {
		case token.AND, token.LAND:
			return bv(And(x, y))
		case token.OR, token.LOR:
			return bv(Or(x, y))
		}
	}
	if x.sort == FltS {
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return bv(UF("flt"+op.String(), BoolS, x, y))
		}
		return bv(UF("flt"+op.String(), FltS, x, y))
	}
	switch op {
	case token.ADD:
		return bv(r.wrap(Add(x, y), tr))
	case token.SUB:
		return bv(r.wrap(Sub(x, y), tr))
	case token.MUL:
		return bv(r.wrap(Mul(x, y), tr))
	case token.LSS:
		return bv(Lt(x, y))
	case token.GTR:
		return bv(Lt(y, x))
	case token.LEQ:
		return bv(Le(x, y))
	case token.GEQ:
		return bv(Le(y, x))
	case token.QUO, token.REM:
		if !y.isInt() {
			r.check("div", fr, pos, pc, Neq(y, IntT(0)), "divisor non-zero")
		}
		if x.isInt() && y.isInt() && y.ival.Sign() != 0 {
			q, m := new(big.Int), new(big.Int)
			q.QuoRem(x.ival, y.ival, m)
			if op == token.QUO {
				return bv(BigT(q))
			}
			return bv(BigT(m))
		}
		// truncated division from SMT's floor/euclidean div
		ax := Ite(Le(IntT(0), x), x, Sub(IntT(0), x))
		ay := Ite(Le(IntT(0), y), y, Sub(IntT(0), y))
		if op == token.QUO {
			q := mkApp("div", IntS, ax, ay)
			return bv(r.wrap(Ite(Eq(Le(IntT(0), x), Le(IntT(0), y)), q, Sub(IntT(0), q)), tr))
		}
		m := mkApp("mod", IntS, ax, ay)
		return bv(Ite(Le(IntT(0), x), m, Sub(IntT(0), m)))
	case token.SHL, token.SHR:
		if y.isInt() && y.ival.IsInt64() && y.ival.Int64() < 200 {
			p := BigT(new(big.Int).Lsh(big.NewInt(1), uint(y.ival.Int64())))
			if op == token.SHL {
				return bv(r.wrap(Mul(x, p), tr))
			}
			return bv(mkApp("div", IntS, x, p))
		}
		v := r.intUF("shift"+op.String(), tr, x, y)
		r.assume(pc, Imp(Le(IntT(0), x), Le(IntT(0), v.one())))
		return v
	case token.AND:
		if y.isInt() && x.isInt() {
			return bv(BigT(new(big.Int).And(x.ival, y.ival)))
		}
		v := r.intUF("bitand", tr, x, y)
		r.assume(pc, Imp(Le(IntT(0), y), And(Le(IntT(0), v.one()), Le(v.one(), y))))
		return v
	case token.OR:
		v := r.intUF("bitor", tr, x, y)
		return v
	case token.XOR:
		return r.intUF("bitxor", tr, x, y)
	case token.AND_NOT:
		v := r.intUF("bitclr", tr, x, y)
		return v
	}
	panic(unsupported("binop %v", op))
}

// eqVals compares two Go values.
func (r *Run) eqVals(a, b Val, ta, tb types.Type) *Term {
	ia, ib := types.IsInterface(ta), types.IsInterface(tb)
	if ia && !ib {
		b.T = tb
		b = r.box(b, ta)
	} else if ib && !ia {
		a.T = ta
		a = r.box(a, tb)
	}
	if _, ok := under(ta).(*types.Slice); ok {
		// comparison with nil only
		return Eq(a.L[0], b.L[0])
	}
	if a.Addr != nil || b.Addr != nil {
		if a.Addr == nil || b.Addr == nil {
			return False // address of a field compared with nil
		}
		panic(unsupported("comparison of scalar addresses"))
	}
	var fs []*Term
	for i := range a.L {
		fs = append(fs, Eq(a.L[i], b.L[i]))
	}
	return And(fs...)
}

func (r *Run) convert(fr *frame, x *ssa.Convert, st *State, pc *Term) Val {
	v := r.val(fr, x.X)
	return r.convertV(v, x.X.Type(), x.Type(), st, pc)
}

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isRuneSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// bytesOf is the array of bytes of a string.
func bytesOf(s *Term) *Term {
	t := UF("sbytes", ArrS(IntS, IntS), s)
	return t
}

// strOfBytes is the string made of n bytes of array a starting at off.
func strOfBytes(a, off, n *Term) *Term {
	if a.op == "uf:sbytes" && off.isInt() && off.ival.Sign() == 0 {
		return ssub(a.args[0], IntT(0), n)
	}
	return UF("strof", StrS, a, off, n)
}

func (r *Run) byteHeap(st *State) (string, *Term) {
	n := "E:uint8"
	return n, st.get(n, ArrS(IntS, ArrS(IntS, IntS)))
}

func (r *Run) convertV(v Val, from, to types.Type, st *State, pc *Term) Val {
	switch {
	case isString(from) && isByteSlice(to):
		n, h := r.byteHeap(st)
		ref := r.newRef(st, "bytes")
		s := v.one()
		st.h[n] = StoreT(h, ref, bytesOf(s))
		return Val{T: to, L: []*Term{ref, IntT(0), slen(s), slen(s)}}
	case isByteSlice(from) && isString(to):
		_, h := r.byteHeap(st)
		t := strOfBytes(Select(h, v.L[0]), v.L[1], v.L[2])
		r.assume(pc, Eq(slen(t), v.L[2]))
		if t.op == "uf:strof" {
			// bytes in memory are bytes
			x := BoundVar("i", IntS)
			b := Select(Select(h, v.L[0]), Add(v.L[1], x))
			r.assume(pc, ForallIdx(x, Imp(And(Le(IntT(0), x), Lt(x, v.L[2])), And(Le(IntT(0), b), Le(b, IntT(255))))))
		}
		return Val{T: to, L: []*Term{t}}
	case isString(from) && isRuneSlice(to), isRuneSlice(from) && isString(to):
		o := r.freshVal("runes", to, pc, st.now)
		if isRuneSlice(to) {
			ref := r.newRef(st, "runes")
			o.L[0], o.L[1] = ref, IntT(0)
			r.assume(pc, Le(o.L[2], slen(v.one())))
			r.assume(pc, Imp(Lt(IntT(0), slen(v.one())), Lt(IntT(0), o.L[2])))
		}
		return o
	case isInteger(from) && isString(to):
		t := UF("runestr", StrS, v.one())
		r.assume(pc, And(Le(IntT(1), slen(t)), Le(slen(t), IntT(4))))
		r.assume(pc, Imp(And(Le(IntT(0), v.one()), Lt(v.one(), IntT(128))), And(Eq(slen(t), IntT(1)), Eq(sat(t, IntT(0)), v.one()))))
		return Val{T: to, L: []*Term{t}}
	case isInteger(from) && isInteger(to):
		return Val{T: to, L: []*Term{r.wrap(v.one(), to)}}
	}
	lf, lt := leavesOf(from), leavesOf(to)
	if len(lf) == len(lt) {
		same := true
		for i := range lf {
			if lf[i].sort != lt[i].sort {
				same = false
			}
		}
		if same {
			v.T = to
			return v
		}
	}
	if isInteger(from) && lt[0].sort == FltS {
		return Val{T: to, L: []*Term{UF("int2flt", FltS, v.one())}}
	}
	if lf[0].sort == FltS && isInteger(to) {
		return r.intUF2("flt2int", to, v.one())
	}
	panic(unsupported("convert %v -> %v", from, to))
}

func (r *Run) intUF2(name string, t types.Type, a *Term) Val {
	v := UF(name+":"+typeKey(t), IntS, a)
	r.assume(True, inRange(v, t))
	return Val{T: t, L: []*Term{v}}
}

// ---- interfaces ----

func ptrLike(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

func (r *Run) box(v Val, it types.Type) Val {
	tag := IntT(int64(r.eng.typeTag(v.T)))
	if v.Addr != nil {
		panic(unsupported("boxing scalar address"))
	}
	if ptrLike(v.T) {
		return Val{T: it, L: []*Term{tag, v.one()}}
	}
	k := typeKey(v.T)
	p := UF("box:"+k, IntS, v.L...)
	if len(v.L) == 0 {
		p = Const("box:"+k, IntS)
	}
	if !p.bound {
		for i, l := range v.L {
			r.assume(True, Eq(UF(fmt.Sprintf("unbox%d:%s", i, k), l.sort, p), l))
		}
		r.assume(True, Lt(IntT(0), p))
		r.assume(True, Le(birth(p), IntT(0)))
	}
	return Val{T: it, L: []*Term{tag, p}}
}

func (r *Run) unbox(payload *Term, t types.Type, pc *Term, now *Term) Val {
	if ptrLike(t) {
		return Val{T: t, L: []*Term{payload}}
	}
	v := Val{T: t}
	k := typeKey(t)
	for i, l := range leavesOf(t) {
		var x *Term
		if payload.op == "uf:box:"+k && i < len(payload.args) {
			x = payload.args[i]
		} else {
			x = UF(fmt.Sprintf("unbox%d:%s", i, k), l.sort, payload)
		}
		v.L = append(v.L, x)
	}
	if !hasBound(v) {
		r.assume(pc, r.typeFacts(v, now))
	}
	return v
}

func (r *Run) implTerm(tag *Term, it types.Type) *Term {
	if tag.isInt() {
		if tag.ival.Sign() == 0 {
			return False
		}
		if t := r.eng.tagType(int(tag.ival.Int64())); t != nil {
			return BoolT(types.Implements(t, under(it).(*types.Interface)))
		}
	}
	return And(Neq(tag, IntT(0)), UF("implements:"+typeKey(it), BoolS, tag))
}

func (r *Run) typeAssert(fr *frame, x *ssa.TypeAssert, st *State, pc *Term) (*State, *Term) {
	v := r.val(fr, x.X)
	tag, pay := v.L[0], v.L[1]
	var ok *Term
	var res Val
	if types.IsInterface(x.AssertedType) {
		ok = r.implTerm(tag, x.AssertedType)
		res = Val{T: x.AssertedType, L: []*Term{tag, pay}}
	} else {
		ok = Eq(tag, IntT(int64(r.eng.typeTag(x.AssertedType))))
		res = r.unbox(pay, x.AssertedType, And(pc, ok), st.now)
		if r.eng.nonnullDyn && ptrLike(x.AssertedType) {
			r.assume(And(pc, ok), Neq(res.L[0], IntT(0)))
		}
		res.T = x.AssertedType
		r.onRecv(fr, x.AssertedType, res, st, And(pc, ok))
	}
	if x.CommaOk {
		z := zeroVal(x.AssertedType)
		o := Val{T: x.AssertedType}
		for i := range res.L {
			o.L = append(o.L, Ite(ok, res.L[i], z.L[i]))
		}
		fr.regs[x] = Val{T: x.Type(), Tup: []Val{o, {T: types.Typ[types.Bool], L: []*Term{ok}}}}
		return st, pc
	}
	r.check("assert", fr, x.Pos(), pc, ok, "type assertion to "+typeKey(x.AssertedType))
	fr.regs[x] = res
	return st, pc
}

// ---- range over maps and strings ----

type iterState struct {
	m     Val
	str   *Term
	name  string // ghost heap with the visited set / position
	isStr bool
	mt    *types.Map
	domAt *Term
}

func (r *Run) rangeStart(fr *frame, x *ssa.Range, st *State, pc *Term) {
	r.loopSeq++
	v := r.val(fr, x.X)
	it := &iterState{name: fmt.Sprintf("IT:%d", r.loopSeq)}
	if isString(x.X.Type()) {
		it.isStr, it.str = true, v.one()
		st.h[it.name] = IntT(0)
	} else {
		it.m = v
		it.mt = mapType(x.X.Type())
		ks := keySort(it.mt.Key())
		st.h[it.name] = ConstArr(ArrS(ks, BoolS), False)
		dom, domS, _, _, _ := mapHeaps(it.mt)
		it.domAt = Select(st.get(dom, domS), v.one())
	}
	fr.regs[x] = Val{T: x.Type(), Iter: it}
}

func (r *Run) next(fr *frame, x *ssa.Next, st *State, pc *Term) (*State, *Term) {
	it := r.val(fr, x.Iter).Iter
	tup := x.Type().(*types.Tuple)
	bt := types.Typ[types.Bool]
	if it.isStr {
		p := st.get(it.name, IntS)
		r.assume(pc, And(Le(IntT(0), p), Le(p, slen(it.str))))
		ok := Lt(p, slen(it.str))
		ru := Fresh("rune", IntS)
		w := Fresh("runew", IntS)
		b0 := sat(it.str, p)
		ascii := Lt(b0, IntT(128))
		r.assume(And(pc, ok), And(
			Le(IntT(1), w), Le(w, IntT(4)), Le(Add(p, w), slen(it.str)),
			Le(IntT(0), ru), Le(ru, IntT(0x10ffff)),
			Imp(ascii, And(Eq(ru, b0), Eq(w, IntT(1)))),
			Imp(Not(ascii), Le(IntT(128), ru))))
		st.h[it.name] = Ite(ok, Add(p, w), p)
		kt, vt := tup.At(1).Type(), tup.At(2).Type()
		_ = kt
		_ = vt
		fr.regs[x] = Val{T: tup, Tup: []Val{{T: bt, L: []*Term{ok}}, {T: types.Typ[types.Int], L: []*Term{p}}, {T: types.Typ[types.Rune], L: []*Term{ru}}}}
		return st, pc
	}
	ks := keySort(it.mt.Key())
	vis := st.get(it.name, ArrS(ks, BoolS))
	ok := Fresh("next", BoolS)
	dom, domS, _, _, _ := mapHeaps(it.mt)
	d := Select(st.get(dom, domS), it.m.one())
	// key
	kv := r.freshVal("key", it.mt.Key(), pc, st.now)
	kt := mapKeyTerm(kv)
	val, has := r.mapGet(st, it.m, kv, And(pc, ok))
	r.assume(And(pc, ok), And(has, Not(Select(vis, kt))))
	// exhaustion: every key that is (still) present has been visited, when no
	// key was added since the loop started
	bv := BoundVar("k", ks)
	adds, dels := r.mapChanges(fr, x, it.mt)
	if !adds || !dels {
		cond := Eq(d, it.domAt)
		if !adds {
			cond = True
		}
		r.assume(And(pc, Not(ok)), Imp(And(cond, Neq(it.m.one(), IntT(0))), Forall([]*Term{bv}, Imp(Select(d, bv), Select(vis, bv)), []*Term{Select(d, bv)}, []*Term{Select(vis, bv)})))
	}
	// a nil map yields nothing (covered by has)
	st.h[it.name] = Ite(ok, StoreT(vis, kt, True), vis)
	kk := kv
	if tup.At(1).Type() == types.Typ[types.Invalid] {
		kk = Val{T: types.Typ[types.Invalid], L: []*Term{IntT(0)}}
	}
	vv := val
	if tup.At(2).Type() == types.Typ[types.Invalid] {
		vv = Val{T: types.Typ[types.Invalid], L: []*Term{IntT(0)}}
	}
	fr.regs[x] = Val{T: tup, Tup: []Val{{T: bt, L: []*Term{ok}}, kk, vv}}
	return st, pc
}

// mapChanges tells whether the loop of a map iteration may add entries to, or
// delete entries from, a map of that type.
func (r *Run) mapChanges(fr *frame, x *ssa.Next, mt *types.Map) (adds, dels bool) {
	l := fr.li.inner[x.Block()]
	if l == nil {
		return true, true
	}
	dom, _, _, _, _ := mapHeaps(mt)
	for b := range l.blocks {
		for _, ins := range b.Instrs {
			switch y := ins.(type) {
			case *ssa.MapUpdate:
				if n, _, _, _, _ := mapHeaps(mapType(y.Map.Type())); n == dom {
					adds = true
				}
			case ssa.CallInstruction:
				c := y.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					if bi.Name() == "delete" || bi.Name() == "clear" {
						if n, _, _, _, _ := mapHeaps(mapType(c.Args[0].Type())); n == dom {
							dels = true
						}
					}
					continue
				}
				var m map[string]Sort
				if g := c.StaticCallee(); g != nil {
					if g.Blocks == nil {
						for _, a := range c.Args {
							if _, ok := under(a.Type()).(*types.Map); ok {
								return true, true
							}
						}
						continue
					}
					m = r.eng.mods(g)
				} else if c.IsInvoke() {
					m, _ = r.eng.modsByMethod(c.Value.Type(), c.Method)
				} else {
					m = r.eng.modsBySignature(c.Signature())
				}
				if _, ok := m[dom]; ok {
					return true, true
				}
			}
		}
	}
	return adds, dels
}

func (r *Run) leakClosures(vs ...Val) {
	for _, v := range vs {
		for _, t := range v.L {
			if cl := r.closures[t]; cl != nil {
				r.leak(Val{L: []*Term{t}})
			}
		}
		r.leakClosures(v.Tup...)
	}
}

// local tells whether object t (or the object it lies in) is out of reach of
// any code outside this analysis.
func (r *Run) local(t *Term) bool {
	for isInterior(t) {
		t = t.args[0]
	}
	return r.locals[t]
}

// localIdx lists the local objects a heap has been written at.
func (r *Run) localIdx(h *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(h *Term, d int)
	rec = func(h *Term, d int) {
		for n := 0; n < 400 && !seen[h]; n++ {
			seen[h] = true
			switch h.op {
			case "store":
				if r.local(h.args[1]) && !seen[h.args[1]] {
					seen[h.args[1]] = true
					out = append(out, h.args[1])
				}
				h = h.args[0]
				continue
			case "ite":
				if d < 20 {
					rec(h.args[1], d+1)
				}
				h = h.args[2]
				continue
			}
			if fc, ok := frameOf[h]; ok {
				h = fc.pre
				continue
			}
			return
		}
	}
	rec(h, 0)
	return out
}

// havocHeap is a heap other code may have changed arbitrarily, except for the
// objects it cannot reach.
func (r *Run) havocHeap(prefix, n string, s Sort, pre *Term) *Term {
	h := Fresh(prefix+n, s)
	if !strings.HasPrefix(string(s), "(Array Int") || strings.HasPrefix(n, "IT:") || strings.HasPrefix(n, "G:") {
		return h
	}
	havocOf[h] = pre
	for _, o := range r.localIdx(pre) {
		nh := StoreT(h, o, Select(pre, o))
		restored[nh] = true
		h = nh
	}
	return h
}

// havocOf: the heap before a call forgot it; restored: stores that only put
// the value of a local object back.
var havocOf = map[*Term]*Term{}
var restored = map[*Term]bool{}

// leak records that closures among vs may be called outside this analysis.
func (r *Run) leak(vs ...Val) {
	for _, v := range vs {
		for _, t := range v.L {
			r.leakTerm(t, 0)
		}
		r.leak(v.Tup...)
	}
}

func (r *Run) leakTerm(t *Term, d int) {
	if cl := r.closures[t]; cl != nil {
		if !r.leaked[cl.fn] || r.locals[t] {
			r.leaked[cl.fn] = true
			delete(r.locals, t)
			r.leak(cl.binds...)
		}
		return
	}
	if r.locals[t] {
		delete(r.locals, t)
		r.leaks = append(r.leaks, t)
		return
	}
	if (isInterior(t) || strings.HasPrefix(t.op, "uf:box:")) && d < 20 {
		for _, a := range t.args {
			r.leakTerm(a, d+1)
		}
		return
	}
	if t.op == "ite" && d < 20 {
		r.leakTerm(t.args[1], d+1)
		r.leakTerm(t.args[2], d+1)
	}
}

// cellArray returns the length of a local array of scalars some of whose
// elements have their address stored or passed on: its elements are modelled
// as separate variables.
func cellArray(a *ssa.Alloc) int {
	at, ok := under(deref(a.Type())).(*types.Array)
	if !ok || at.Len() > 16 || isStructObj(at.Elem()) || isArrayObj(at.Elem()) || a.Referrers() == nil {
		return 0
	}
	escapes := false
	for _, u := range *a.Referrers() {
		switch x := u.(type) {
		case *ssa.DebugRef:
		case *ssa.IndexAddr:
			for _, w := range *x.Referrers() {
				switch y := w.(type) {
				case *ssa.DebugRef, *ssa.UnOp:
				case *ssa.Store:
					if y.Val == ssa.Value(x) {
						escapes = true
					}
				default:
					escapes = true
				}
			}
		default:
			return 0
		}
	}
	if !escapes {
		return 0
	}
	return int(at.Len())
}

func cellRef(et types.Type, base, i *Term) *Term { return UF("cell:"+typeKey(et), IntS, base, i) }

// firstClass turns the address of a slice element (or other scalar inside an
// object) into a pointer value: a variable of its own holding the current
// contents. Later writes through one name are not seen through the other, which
// the evidence lists as an assumption.
func (r *Run) firstClass(v Val, st *State, pc *Term) Val {
	if v.Addr == nil {
		return v
	}
	a := v.Addr
	r.note("the address of %s is taken: the pointer is treated as one to a copy", a.heap)
	ref := r.newRef(st, "copy:"+typeKey(a.T))
	r.storeRef(st, a.T, ref, r.loadAddr(st, a, pc))
	return Val{T: v.T, L: []*Term{ref}}
}

// fnIDs numbers the functions used as values: distinct functions are distinct.
var fnIDs = map[*Term]int{}
