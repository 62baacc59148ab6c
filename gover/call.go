package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (r *Run) callArgs(fr *frame, c *ssa.CallCommon) (Val, []Val) {
	var fnv Val
	var args []Val
	if c.IsInvoke() {
		fnv = r.val(fr, c.Value)
	} else {
		switch c.Value.(type) {
		case *ssa.Builtin:
		default:
			fnv = r.val(fr, c.Value)
		}
	}
	for _, a := range c.Args {
		args = append(args, r.val(fr, a))
	}
	for i := range args {
		if args[i].T == nil {
			args[i].T = c.Args[i].Type()
		}
	}
	return fnv, args
}

type callCtx struct {
	r     *Run
	fr    *frame
	instr ssa.CallInstruction
	c     *ssa.CallCommon
	args  []Val
	st    *State
	pc    *Term
	fn    *ssa.Function
	res   types.Type
	pos   token.Pos
	name  string
	self  Val // the function value, for calls through one
}

func resultType(c *ssa.CallCommon) types.Type {
	res := c.Signature().Results()
	if res.Len() == 1 {
		return res.At(0).Type()
	}
	return res
}

func (r *Run) callCommon(fr *frame, instr ssa.CallInstruction, c *ssa.CallCommon, fnv Val, args []Val, st *State, pc *Term) (Val, *State, *Term) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		v, st2, pc2 := r.builtin(fr, instr, b, c, args, st, pc)
		return v, st2, pc2
	}
	cc := &callCtx{r: r, fr: fr, instr: instr, c: c, args: args, st: st, pc: pc, res: resultType(c), pos: instr.Pos()}
	if c.IsInvoke() {
		return r.invoke(cc, fnv)
	}
	if fn := c.StaticCallee(); fn != nil {
		var binds []Val
		if _, ok := c.Value.(*ssa.MakeClosure); ok {
			if cl := r.closures[fnv.L[0]]; cl != nil {
				binds = cl.binds
			}
		}
		return r.callFn(cc, fn, binds)
	}
	return r.callValue(cc, fnv)
}

// callValue calls a function value.
func (r *Run) callValue(cc *callCtx, fnv Val) (Val, *State, *Term) {
	t := fnv.one()
	type alt struct {
		c  *Term
		cl *Closure
	}
	var alts []alt
	ok := true
	var walk func(t, c *Term)
	walk = func(t, c *Term) {
		if c == False || len(alts) > 8 {
			return
		}
		if t.op == "ite" {
			walk(t.args[1], And(c, t.args[0]))
			walk(t.args[2], And(c, Not(t.args[0])))
			return
		}
		if t.isInt() && t.ival.Sign() == 0 {
			alts = append(alts, alt{c, nil})
			return
		}
		cl := r.closures[t]
		if cl == nil {
			ok = false
			return
		}
		alts = append(alts, alt{c, cl})
	}
	walk(t, cc.pc)
	if ok && len(alts) > 0 && len(alts) <= 8 {
		var es []edge
		var conds []*Term
		var vals []Val
		for _, a := range alts {
			if a.cl == nil {
				r.check("nil", cc.fr, cc.pos, a.c, False, "call of nil function")
				continue
			}
			sub := *cc
			sub.pc = a.c
			sub.st = cc.st.clone()
			v, st, pc := r.callFn(&sub, a.cl.fn, a.cl.binds)
			if pc == False {
				continue
			}
			es = append(es, edge{cond: pc, st: st})
			conds = append(conds, pc)
			vals = append(vals, v)
		}
		if len(es) == 0 {
			return zeroOf(cc.res), cc.st, False
		}
		pc, st := r.merge(es)
		return mergeVals(conds, vals), st, pc
	}
	r.check("nil", cc.fr, cc.pos, cc.pc, Neq(t, IntT(0)), "call of nil function "+describe(cc.c.Value))
	ft := typeKey(cc.c.Value.Type())
	if ft == "context.CancelFunc" {
		r.assumedFns["context.CancelFunc values only cancel their context"] = true
		return Val{T: cc.res}, cc.st, cc.pc
	}
	if spec := r.funcTypeSpec(ft, cc.c.Signature()); spec != nil {
		cc.self = fnv
		return r.applyContract(cc, spec, ft)
	}
	if r.eng.pureFuncTypes[ft] {
		// pure function value: uninterpreted application
		var targs []*Term
		targs = append(targs, t)
		for _, a := range cc.args {
			targs = append(targs, a.L...)
		}
		v := Val{T: cc.res}
		for i, l := range leavesOf(cc.res) {
			v.L = append(v.L, UF(fmt.Sprintf("apply%d:%s", i, ft), l.sort, targs...))
		}
		r.assume(cc.pc, r.typeFacts(v, cc.st.now))
		r.assumedFns["function values of type "+ft+" are pure"] = true
		return v, cc.st, cc.pc
	}
	// unknown: effects of every address-taken function of this signature
	name := "func value " + ft
	r.leak(cc.args...)
	r.abstracted[name] = true
	mods := r.eng.modsBySignature(cc.c.Signature())
	r.forgets(cc, name, mods)
	r.objInvCall(cc, cc.st, name)
	r.havocMods(cc.st, mods)
	return r.freshVal("dyncall", cc.res, cc.pc, r.bump(cc.st)), cc.st, cc.pc
}

func zeroOf(t types.Type) Val { return zeroVal(t) }

// bump advances the allocation clock by an unknown amount.
func (r *Run) bump(st *State) *Term {
	n := Fresh("now", IntS)
	r.assume(True, Le(st.now, n))
	st.now = n
	return n
}

func (r *Run) havocMods(st *State, mods map[string]Sort) {
	r.aroundHavoc(st, func() { r.havocRaw(st, mods) })
}

func (r *Run) havocRaw(st *State, mods map[string]Sort) {
	for _, n := range sortedKeys(mods) {
		st.h[n] = r.havocHeap("call:", n, mods[n], st.get(n, mods[n]))
	}
}

func (r *Run) onStack(fn *ssa.Function) bool {
	for _, f := range r.stack {
		if f == fn {
			return true
		}
	}
	return false
}

func (r *Run) callFn(cc *callCtx, fn *ssa.Function, binds []Val) (Val, *State, *Term) {
	cc.fn = fn
	name := shortName(fn.String())
	if o := fn.Origin(); o != nil {
		name = shortName(o.String())
	}
	cc.name = name
	if cc.pc != False {
		r.reached[fn] = true
	}
	if spec := r.eng.implements(fn); spec != nil {
		r.checkImpl(cc, fn, spec)
	}
	if spec := r.cfg.Contracts[name]; spec != nil {
		return r.applyContract(cc, spec, name)
	}
	if m, ok := externModels[name]; ok {
		r.assumedFns[name] = true
		return m(cc)
	}
	if len(fn.Blocks) > 0 && r.eng.hasBody(fn) && !r.onStack(fn) && r.cfg.Inline(fn, len(r.stack)) {
		args := append([]Val{}, cc.args...)
		for i := range args {
			args[i] = r.firstClass(args[i], cc.st, cc.pc)
		}
		if len(args) != len(fn.Params) {
			panic(unsupported("arity mismatch calling %s", name))
		}
		v, st, pc := r.execFunc(fn, args, binds, cc.st, cc.pc, cc.fr.chain+"<-"+shortName(cc.fr.fn.String())+r.lineOf(cc))
		r.copyOut(cc, args, st, pc)
		return v, st, pc
	}
	return r.abstractCall(cc, fn, name)
}

func (r *Run) lineOf(cc *callCtx) string {
	return ""
}

// abstractCall over-approximates a call: arbitrary results, and everything the
// callee may write is forgotten.
func (r *Run) abstractCall(cc *callCtx, fn *ssa.Function, name string) (Val, *State, *Term) {
	r.leak(cc.args...)
	if fn != nil && r.eng.hasBody(fn) {
		if fn.Signature.Recv() != nil && len(cc.args) > 0 && cc.args[0].Addr == nil {
			if _, ok := under(cc.args[0].T).(*types.Pointer); ok {
				r.nilCheck(cc.fr, cc.pos, cc.pc, cc.args[0], "receiver of "+name)
			}
		}
		r.abstracted[name] = true
		r.forgets(cc, name, r.eng.mods(fn))
		r.objInvCall(cc, cc.st, name)
		r.havocMods(cc.st, r.eng.mods(fn))
	} else {
		r.assumedFns[name+" (external: arbitrary result, writes only through its arguments)"] = true
		r.externHavoc(cc, name)
	}
	v := r.freshVal("ret:"+name, cc.res, cc.pc, r.bump(cc.st))
	r.externFacts(cc, name, v)
	return v, cc.st, cc.pc
}

var readonlyPkgs = map[string]bool{
	"strings": true, "fmt": true, "strconv": true, "errors": true, "time": true, "unicode": true,
	"encoding/hex": true, "crypto/sha1": true, "crypto/sha256": true, "crypto/sha512": true,
	"log": true, "net/url": true, "path/filepath": true, "path": true, "context": true, "sync": true,
	"sync/atomic": true, "mime": true, "net": true, "os": true, "math": true, "encoding/base64": true,
	"golang.org/x/crypto/bcrypt": true, "golang.org/x/time/rate": true, "unicode/utf8": true,
	"github.com/prometheus/client_golang/prometheus": true, "runtime/debug": true, "math/rand": true,
	"git.sr.ht/~sircmpwn/go-bare": true, "net/http": true, "github.com/coder/websocket": true,
	"crypto/x509": true, "encoding/pem": true, "crypto/rand": true, "crypto/tls": true, "github.com/emersion/go-sasl": true,
}

func pkgOfName(name string) string {
	n := strings.TrimPrefix(name, "(")
	n = strings.TrimPrefix(n, "*")
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		if j := strings.IndexByte(n[i:], '.'); j >= 0 {
			return n[:i+j]
		}
	}
	if j := strings.IndexByte(n, '.'); j >= 0 {
		return n[:j]
	}
	return n
}

func (r *Run) externHavoc(cc *callCtx, name string) {
	for _, a := range cc.args {
		// callbacks may run
		if a.T == nil || name == "time.AfterFunc" {
			continue
		}
		if sig, ok := under(a.T).(*types.Signature); ok && len(a.L) == 1 {
			r.objInvCall(cc, cc.st, name)
			if cl := r.closures[a.L[0]]; cl != nil && r.eng.hasBody(cl.fn) {
				r.havocMods(cc.st, r.eng.mods(cl.fn))
			} else if !a.L[0].isInt() {
				r.havocMods(cc.st, r.eng.modsBySignature(sig))
			}
		}
	}
	if readonlyPkgs[pkgOfName(name)] && !writesArgs[name] {
		return
	}
	for _, a := range cc.args {
		r.havocArg(cc.st, a, cc.pc, 0, writesArgs[name])
	}
}

// writesArgs: functions that store through the pointers given to them, also
// those boxed in an interface (errors.As, Unmarshal, Scan).
var writesArgs = map[string]bool{
	"encoding/hex.Decode": true, "fmt.Sscanf": true, "fmt.Sscan": true, "fmt.Fscanf": true, "fmt.Sscanln": true, "fmt.Fscan": true,
	"errors.As": true, "git.sr.ht/~sircmpwn/go-bare.Unmarshal": true, "encoding/json.Unmarshal": true,
	"(*encoding/json.Decoder).Decode": true, "(*database/sql.Row).Scan": true, "(*database/sql.Rows).Scan": true,
}

// havocArg forgets the memory directly reachable from an argument.
func (r *Run) havocArg(st *State, a Val, pc *Term, depth int, boxed bool) {
	if a.Addr != nil {
		r.storeAddr(st, a.Addr, r.freshVal("ext", a.Addr.T, pc, st.now))
		return
	}
	if a.T == nil {
		return
	}
	switch u := under(a.T).(type) {
	case *types.Pointer:
		if _, ok := opaqueSort(u.Elem()); ok {
			return
		}
		if a.L[0].isInt() {
			return
		}
		if isStructObj(u.Elem()) || !isArrayObj(u.Elem()) {
			r.storeRef(st, u.Elem(), a.L[0], r.freshVal("ext", u.Elem(), pc, st.now))
		}
	case *types.Slice:
		et := u.Elem()
		if types.IsInterface(et) {
			if !boxed {
				return
			}
			// variadic interface arguments: forget what the boxed pointers point to
			if n := a.L[2]; n.isInt() && n.ival.IsInt64() && n.ival.Int64() <= 32 {
				ls := leavesOf(et)
				for k := int64(0); k < n.ival.Int64(); k++ {
					v := Val{T: et}
					for i, l := range ls {
						h := st.get(hname("E:"+typeKey(et), i, len(ls)), ArrS(IntS, ArrS(IntS, l.sort)))
						v.L = append(v.L, Select(Select(h, a.L[0]), Add(a.L[1], IntT(k))))
					}
					r.havocArg(st, v, pc, 0, true)
				}
			}
			return
		}
		if isStructObj(et) || isArrayObj(et) {
			r.havocRaw(st, r.heapNamesOf(et, nil))
			return
		}
		ls := leavesOf(et)
		for i, l := range ls {
			n := hname("E:"+typeKey(et), i, len(ls))
			h := st.get(n, ArrS(IntS, ArrS(IntS, l.sort)))
			st.h[n] = StoreT(h, a.L[0], Fresh("ext:"+n, ArrS(IntS, l.sort)))
		}
	case *types.Interface:
		tag := a.L[0]
		if tag.isInt() && tag.ival.Sign() != 0 && depth == 0 {
			if t := r.eng.tagType(int(tag.ival.Int64())); t != nil {
				if p, ok := under(t).(*types.Pointer); ok {
					if !boxed && isStructObj(p.Elem()) && typeInModule(p.Elem()) {
						return // behaviour of our own types is called back, see notes
					}
					r.havocArg(st, Val{T: t, L: []*Term{a.L[1]}}, pc, 1, boxed)
				}
			}
		}
	}
}

func typeInModule(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return inModule(n.Obj().Pkg().Path())
	}
	return false
}

// externFacts adds the standard facts about results of external functions.
func (r *Run) externFacts(cc *callCtx, name string, v Val) {
	switch name {
	case "fmt.Errorf", "errors.New":
		r.assume(cc.pc, Neq(v.L[0], IntT(0)))
	}
	// (T, error): a pointer result is non-nil when the error is nil
	if len(v.Tup) == 2 && cc.fn != nil && !r.eng.hasBody(cc.fn) {
		if types.Identical(v.Tup[1].T, types.Universe.Lookup("error").Type()) {
			if _, ok := under(v.Tup[0].T).(*types.Pointer); ok {
				r.assume(cc.pc, Imp(Eq(v.Tup[1].L[0], IntT(0)), Neq(v.Tup[0].L[0], IntT(0))))
			}
			if types.IsInterface(v.Tup[0].T) {
				r.assume(cc.pc, Imp(Eq(v.Tup[1].L[0], IntT(0)), Neq(v.Tup[0].L[0], IntT(0))))
			}
		}
	}
	if len(v.Tup) == 0 && cc.fn != nil && !r.eng.hasBody(cc.fn) && v.T != nil {
		if _, ok := under(v.T).(*types.Pointer); ok {
			if externNonNil(name) {
				r.assume(cc.pc, Neq(v.L[0], IntT(0)))
			}
		}
	}
}

func externNonNil(name string) bool {
	i := strings.LastIndexByte(name, '.')
	base := name[i+1:]
	return strings.HasPrefix(base, "New") || strings.HasPrefix(base, "With") || name == "(*flag.FlagSet).String" || name == "(*flag.FlagSet).Int" || name == "(*flag.FlagSet).Bool" || name == "time.AfterFunc"
}

// invoke calls an interface method.
func (r *Run) invoke(cc *callCtx, recv Val) (Val, *State, *Term) {
	m := cc.c.Method
	r.check("nil", cc.fr, cc.pos, cc.pc, Neq(recv.L[0], IntT(0)), "interface "+describe(cc.c.Value)+" non-nil for "+m.Name())
	iname := typeKey(cc.c.Value.Type()) + "." + m.Name()
	cc.name = iname
	if spec := r.cfg.Contracts[iname]; spec != nil {
		cc.args = append([]Val{recv}, cc.args...)
		return r.applyContract(cc, spec, iname)
	}
	if mm, ok := externModels[iname]; ok {
		cc.args = append([]Val{recv}, cc.args...)
		r.assumedFns[iname] = true
		return mm(cc)
	}
	// devirtualise when the dynamic type is known
	if tag := recv.L[0]; tag.isInt() && tag.ival.Sign() != 0 {
		if t := r.eng.tagType(int(tag.ival.Int64())); t != nil {
			if fn := r.eng.prog.LookupMethod(t, m.Pkg(), m.Name()); fn != nil && fn.Blocks != nil {
				cc.args = append([]Val{r.unbox(recv.L[1], t, cc.pc, cc.st.now)}, cc.args...)
				return r.callFn(cc, fn, nil)
			}
		}
	}
	r.leak(cc.args...)
	r.abstracted["interface "+iname] = true
	mods, known := r.eng.modsByMethod(cc.c.Value.Type(), m)
	r.objInvCall(cc, cc.st, iname)
	r.forgets(cc, iname, mods)
	r.havocMods(cc.st, mods)
	if !known {
		r.assumedFns[iname+" (external interface)"] = true
		r.externHavoc(cc, iname)
	}
	v := r.freshVal("inv:"+iname, cc.res, cc.pc, r.bump(cc.st))
	r.invokeFacts(cc, iname, v)
	return v, cc.st, cc.pc
}

func (r *Run) invokeFacts(cc *callCtx, name string, v Val) {
	// (T, error) convention for interface methods as well
	if len(v.Tup) == 2 && types.Identical(v.Tup[1].T, types.Universe.Lookup("error").Type()) {
		if _, ok := under(v.Tup[0].T).(*types.Pointer); ok {
			if r.eng.ptrErrConvention {
				r.assume(cc.pc, Imp(Eq(v.Tup[1].L[0], IntT(0)), Neq(v.Tup[0].L[0], IntT(0))))
				r.assumedFns[name+": returns a non-nil pointer when its error is nil"] = true
			}
		}
	}
}

// ---- builtins ----

func (r *Run) builtin(fr *frame, instr ssa.CallInstruction, b *ssa.Builtin, c *ssa.CallCommon, args []Val, st *State, pc *Term) (Val, *State, *Term) {
	pos := instr.Pos()
	intT := types.Typ[types.Int]
	switch b.Name() {
	case "len":
		return Val{T: intT, L: []*Term{r.lenOf(args[0], c.Args[0].Type(), st, pc)}}, st, pc
	case "cap":
		switch u := under(c.Args[0].Type()).(type) {
		case *types.Slice:
			return Val{T: intT, L: []*Term{args[0].L[3]}}, st, pc
		case *types.Array:
			return Val{T: intT, L: []*Term{IntT(u.Len())}}, st, pc
		}
		return r.freshVal("cap", intT, pc, st.now), st, pc
	case "append":
		return r.appendV(fr, c, args, st, pc), st, pc
	case "copy":
		return r.copyV(c, args, st, pc), st, pc
	case "delete":
		r.mapDelete(st, args[0], args[1])
		return Val{}, st, pc
	case "close":
		return Val{}, st, pc
	case "panic":
		r.check("panic", fr, pos, pc, False, "explicit panic unreachable")
		return Val{}, st, False
	case "print", "println":
		return Val{}, st, pc
	case "recover":
		return r.freshVal("recover", types.NewInterfaceType(nil, nil), pc, st.now), st, pc
	case "min", "max":
		v := args[0].one()
		for _, a := range args[1:] {
			if b.Name() == "min" {
				v = Ite(Le(v, a.one()), v, a.one())
			} else {
				v = Ite(Le(v, a.one()), a.one(), v)
			}
		}
		return Val{T: c.Args[0].Type(), L: []*Term{v}}, st, pc
	case "ssa:wrapnilchk":
		r.nilCheck(fr, pos, pc, args[0], describe(c.Args[0]))
		return args[0], st, pc
	case "clear":
		if _, ok := under(c.Args[0].Type()).(*types.Map); ok {
			mt := mapType(args[0].T)
			dom, domS, ln, _, _ := mapHeaps(mt)
			st.h[dom] = StoreT(st.get(dom, domS), args[0].one(), ConstArr(arrElem(domS), False))
			st.h[ln] = StoreT(st.get(ln, ArrS(IntS, IntS)), args[0].one(), IntT(0))
			return Val{}, st, pc
		}
	}
	panic(unsupported("builtin %s", b.Name()))
}

func (r *Run) lenOf(v Val, t types.Type, st *State, pc *Term) *Term {
	switch u := under(t).(type) {
	case *types.Basic:
		return slen(v.one())
	case *types.Slice:
		return v.L[2]
	case *types.Map:
		v.T = t
		return r.mapLen(st, v, pc)
	case *types.Array:
		return IntT(u.Len())
	case *types.Pointer:
		return IntT(under(u.Elem()).(*types.Array).Len())
	case *types.Chan:
		x := Fresh("chanlen", IntS)
		r.assume(pc, Le(IntT(0), x))
		return x
	}
	panic(unsupported("len of %v", t))
}

func (r *Run) appendV(fr *frame, c *ssa.CallCommon, args []Val, st *State, pc *Term) Val {
	s := args[0]
	t := c.Args[0].Type()
	et := under(t).(*types.Slice).Elem()
	base, off, ln, cp := s.L[0], s.L[1], s.L[2], s.L[3]
	y := args[1]
	if isString(c.Args[1].Type()) {
		y = r.convertV(y, c.Args[1].Type(), t, st, pc)
	}
	n := y.L[2]
	if n.isInt() && n.ival.Sign() == 0 {
		s.T = t
		return s
	}
	ref := r.newRef(st, "append")
	newLen := Add(ln, n)
	r.assume(pc, Le(Add(off, newLen), IntT(maxLen)))
	inplace := Le(newLen, cp)
	nbase := Ite(inplace, base, ref)
	// appending nothing keeps the slice (nil stays nil)
	if !n.isInt() {
		nbase = Ite(Eq(n, IntT(0)), base, nbase)
	}
	ncap := Fresh("cap", IntS)
	r.assume(True, Imp(pc, And(Le(newLen, ncap), Le(Add(off, ncap), IntT(maxLen)), Imp(inplace, Eq(ncap, cp)))))
	res := Val{T: t, L: []*Term{nbase, off, newLen, ncap}}
	k := int64(-1)
	if n.isInt() && n.ival.IsInt64() && n.ival.Int64() <= 16 {
		k = n.ival.Int64()
	}
	if isStructObj(et) || isArrayObj(et) {
		if !isStructObj(et) {
			panic(unsupported("append of arrays"))
		}
		// contents of the new backing array equal the old ones
		i := BoundVar("i", IntS)
		r.structElemsEq(st, et, elemRef(et, ref, i), elemRef(et, base, i), i, Le(off, i), Lt(i, Add(off, ln)))
		if k >= 0 {
			for j := int64(0); j < k; j++ {
				src := r.loadRef(st, et, r.interior(elemRef(et, y.L[0], Add(y.L[1], IntT(j))), y.L[0]), pc)
				dst := r.interior(elemRef(et, nbase, Add(Add(off, ln), IntT(j))), nbase)
				r.storeRef(st, et, dst, src)
			}
		} else {
			r.appendStructs(st, et, nbase, Add(off, ln), y, n)
		}
		return res
	}
	ls := leavesOf(et)
	for i, l := range ls {
		hn := hname("E:"+typeKey(et), i, len(ls))
		h := st.get(hn, ArrS(IntS, ArrS(IntS, l.sort)))
		row := Select(h, base)
		src := Select(h, y.L[0])
		var nrow *Term
		if k >= 0 {
			nrow = row
			for j := int64(0); j < k; j++ {
				nrow = StoreT(nrow, Add(Add(off, ln), IntT(j)), Select(src, Add(y.L[1], IntT(j))))
			}
		} else {
			nrow = Fresh("appendrow", ArrS(IntS, l.sort))
			bi := BoundVar("i", IntS)
			selN := mkApp("select", l.sort, nrow, bi)
			end := Add(off, ln)
			r.assume(True, Forall([]*Term{bi}, Eq(selN, Ite(And(Le(end, bi), Lt(bi, Add(end, n))), Select(src, Add(y.L[1], Sub(bi, end))), mkApp("select", l.sort, row, bi))), []*Term{selN}))
		}
		st.h[hn] = StoreT(h, nbase, nrow)
	}
	return res
}

// appendStructs writes n struct elements of y at index at of backing nbase.
func (r *Run) appendStructs(st *State, et types.Type, nbase, at *Term, y Val, n *Term) {
	for hn, hs := range r.heapNamesOf(et, nil) {
		old := st.get(hn, hs)
		nh := Fresh("append:"+hn, hs)
		st.h[hn] = nh
		// frame: only elements of nbase in [at, at+n) change
		bv := BoundVar("r", IntS)
		op := "uf:elem:" + typeKey(et)
		b := UF("inv0:"+op, IntS, bv)
		idx := UF("inv1:"+op, IntS, bv)
		touched := And(Eq(b, nbase), Le(at, idx), Lt(idx, Add(at, n)))
		if !strings.HasPrefix(hn, "F:"+typeKey(et)+".") {
			touched = True // nested structs: forget
		}
		r.assume(True, Forall([]*Term{bv}, Imp(Not(touched), Eq(mkApp("select", arrElem(hs), nh, bv), mkApp("select", arrElem(hs), old, bv))), []*Term{mkApp("select", arrElem(hs), nh, bv)}))
		if touched != True {
			i := BoundVar("i", IntS)
			dst := elemRef(et, nbase, i)
			src := elemRef(et, y.L[0], Add(y.L[1], Sub(i, at)))
			r.assume(True, Forall([]*Term{i}, Imp(And(Le(at, i), Lt(i, Add(at, n))), Eq(mkApp("select", arrElem(hs), nh, dst), mkApp("select", arrElem(hs), old, src))), []*Term{mkApp("select", arrElem(hs), nh, dst)}))
		}
	}
}

func (r *Run) copyV(c *ssa.CallCommon, args []Val, st *State, pc *Term) Val {
	d, s := args[0], args[1]
	et := under(c.Args[0].Type()).(*types.Slice).Elem()
	if isString(c.Args[1].Type()) {
		s = r.convertV(s, c.Args[1].Type(), c.Args[0].Type(), st, pc)
	}
	n := Ite(Le(d.L[2], s.L[2]), d.L[2], s.L[2])
	if isStructObj(et) {
		old := st.clone()
		r.appendStructs(st, et, d.L[0], d.L[1], s, n)
		_ = old
		return Val{T: types.Typ[types.Int], L: []*Term{n}}
	}
	if isArrayObj(et) {
		panic(unsupported("copy of arrays"))
	}
	ls := leavesOf(et)
	for i, l := range ls {
		hn := hname("E:"+typeKey(et), i, len(ls))
		h := st.get(hn, ArrS(IntS, ArrS(IntS, l.sort)))
		row, src := Select(h, d.L[0]), Select(h, s.L[0])
		nrow := Fresh("copyrow", ArrS(IntS, l.sort))
		bi := BoundVar("i", IntS)
		selN := mkApp("select", l.sort, nrow, bi)
		r.assume(True, Forall([]*Term{bi}, Eq(selN, Ite(And(Le(d.L[1], bi), Lt(bi, Add(d.L[1], n))), Select(src, Add(s.L[1], Sub(bi, d.L[1]))), mkApp("select", l.sort, row, bi))), []*Term{selN}))
		st.h[hn] = Ite(Eq(n, IntT(0)), h, StoreT(h, d.L[0], nrow))
	}
	return Val{T: types.Typ[types.Int], L: []*Term{n}}
}

// checkImpl: a function that is also used as a function value is entitled to the
// precondition of its function type, also when called directly.
func (r *Run) checkImpl(cc *callCtx, fn *ssa.Function, spec *FuncSpec) {
	env := r.specEnv(spec, cc.args, cc.st, nil, cc.pc)
	env.fr = cc.fr
	env.vars["self"] = r.funcVal(fn)
	for _, q := range spec.Requires {
		txt := q.Text
		if q.Name != "" {
			txt = q.Name
		}
		r.check("requires", cc.fr, cc.pos, cc.pc, env.bool(q.Expr), "precondition of "+spec.Name+" for "+shortName(fn.String())+": "+txt)
	}
}

// copyOut writes back what a callee stored through the address of a scalar.
func (r *Run) copyOut(cc *callCtx, args []Val, st *State, pc *Term) {
	if pc == False {
		return
	}
	for i, a := range cc.args {
		if a.Addr != nil {
			r.storeAddr(st, a.Addr, r.load(st, args[i], a.Addr.T, pc))
		}
	}
}

// forgets reports, for debugging, the abstracted calls that forget a heap.
func (r *Run) forgets(cc *callCtx, name string, mods map[string]Sort) {
	d := os.Getenv("GOVER_MODS")
	if d == "" {
		return
	}
	for n := range mods {
		if strings.HasPrefix(n, d) {
			fmt.Fprintln(os.Stderr, "FORGETS", n, "calling", name, r.eng.prog.Fset.Position(cc.pos))
		}
	}
}
