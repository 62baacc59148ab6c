package main

import (
	"context"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Driver decides one property.
type Driver struct {
	eng     *Engine
	sf      *SpecFile
	prop    string
	tier    string
	verbose bool
	dump    string

	obls        []*Obl // final obligations (deduplicated by key)
	failures    []*Failure
	verified    map[string]bool // functions whose bodies were verified
	contracts   map[string]bool
	inlined     map[string]bool
	abstracted  map[string]bool
	assumed     map[string]bool
	notes       map[string]bool
	invs        map[string]bool
	units       int
	lifted      map[string]string
	memo        map[string][]*Obl
	safetySet   map[*ssa.Function]bool
	solverMS    int64
	deadline    time.Time
	replayDone  chan struct{}
	replayOut   string
	replayFound bool
	replayRan   int
	tryDisabled map[string]bool
}

type Failure struct {
	Obl  *Obl
	Root string
	Msg  string
	Out  string
}

func (f *Failure) Name() string {
	if f.Obl != nil {
		return f.Obl.Name
	}
	return f.Root + ": " + f.Msg
}

func oblKey(o *Obl) string { return o.Fn + "|" + o.Kind + "|" + o.Pos + "|" + o.Text }

func specName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return shortName(o.String())
	}
	return shortName(fn.String())
}

func (d *Driver) contractsMap(root *ssa.Function) map[string]*FuncSpec {
	m := map[string]*FuncSpec{}
	for n, s := range d.sf.Funcs {
		if s.Opaque {
			m[n] = s
		}
	}
	return m
}

func numInstrs(fn *ssa.Function) int {
	n := 0
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
	}
	return n
}

func (d *Driver) inlinePolicy(forced map[*ssa.Function]bool) func(fn *ssa.Function, depth int) bool {
	limit := 60
	if v, ok := d.sf.Options["inline"]; ok {
		fmt.Sscan(v, &limit)
	}
	maxd := 6
	if v, ok := d.sf.Options["depth"]; ok {
		fmt.Sscan(v, &maxd)
	}
	return func(fn *ssa.Function, depth int) bool {
		n := specName(fn)
		if forced[fn] || d.sf.ForceInl[n] {
			return true
		}
		for p := fn.Parent(); p != nil; p = p.Parent() {
			if forced[p] || d.sf.ForceInl[specName(p)] {
				return true
			}
		}
		if d.sf.NoInline[n] {
			return false
		}
		for pat := range d.sf.NoInline {
			if strings.HasSuffix(pat, "*") && strings.HasPrefix(n, strings.TrimSuffix(pat, "*")) {
				return false
			}
		}
		if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "instance") && !strings.HasPrefix(fn.Synthetic, "package") {
			return true
		}
		if depth > maxd {
			return false
		}
		if fn.Parent() != nil {
			return numInstrs(fn) <= 4*limit
		}
		return numInstrs(fn) <= limit
	}
}

type cover struct {
	what string
	cond *Term
}

type unitResult struct {
	run     *Run
	obls    []*Obl
	err     string
	vacuous bool
}

func (d *Driver) runUnit(fn *ssa.Function, forced map[*ssa.Function]bool, want map[string]bool) (res *unitResult) {
	res = &unitResult{}
	d.units++
	start := time.Now()
	if d.verbose {
		fmt.Fprintf(os.Stderr, "  begin %s\n", shortName(fn.String()))
	}
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case unsupportedErr:
				res.err = "outside the supported subset: " + x.msg
			case specErr:
				res.err = "contract does not apply: " + x.msg
			default:
				res.err = fmt.Sprintf("engine error: %v", e)
				if d.verbose {
					fmt.Fprintln(os.Stderr, string(debug.Stack()))
				}
			}
		}
		if d.verbose {
			fmt.Fprintf(os.Stderr, "  unit %s forced=%d obls=%d %s %.1fs\n", shortName(fn.String()), len(forced), len(res.obls), res.err, time.Since(start).Seconds())
		}
	}()
	name := specName(fn)
	cm := d.contractsMap(fn)
	spec := d.sf.Funcs[name]
	cfg := &RunCfg{Prop: d.prop, Kinds: d.sf.Kinds, Contracts: cm, OnStore: d.sf.Stores, Inline: d.inlinePolicy(forced), AutoInv: d.sf.AutoInv, Cands: d.sf.Cands, ObjInvs: d.sf.ObjInvs}
	r := newRun(d.eng, cfg, fn)
	r.forced = forced
	res.run = r
	quick, full := 3, 10
	if d.tier == "thorough" {
		quick, full = 5, 30
	}
	if d.unknownFailures() > 0 {
		quick, full = 1, 2
	} else if v, ok := d.sf.Options["timeout"]; ok {
		fmt.Sscan(v, &full)
		if d.tier == "thorough" {
			full *= 3
		}
	}
	// first without guessed invariants: many obligations need none
	if cfg.AutoInv {
		cfg.AutoInv = false
		needed := d.firstTry(r, fn, spec, forced, want)
		cfg.AutoInv = needed
		r.disabled = map[string]bool{}
		if !needed {
			r.disabled = d.tryDisabled
		}
	}
	for round := 0; ; round++ {
		d.execRoot(r, fn, spec)
		var cands []*Obl
		for _, o := range r.obls {
			if o.Cand != nil {
				cands = append(cands, o)
			}
		}
		if len(cands) == 0 {
			break
		}
		// nothing to prove: no need for invariants
		if len(d.filter(r, fn, forced, want)) == 0 {
			break
		}
		var auto, user []*Obl
		for _, o := range cands {
			if o.Cand.Auto {
				auto = append(auto, o)
			} else {
				user = append(user, o)
			}
		}
		solveAll(auto, SolveOpts{Quick: 1, NoFull: true, Dump: dumpDir(d.dump, "cand")})
		solveAll(user, SolveOpts{Quick: quick, Full: full, Dump: dumpDir(d.dump, "cand")})
		bad := 0
		for _, o := range cands {
			d.solverMS += o.Millis
			if o.Status != "proved" && !r.disabled[o.Cand.Key] {
				if d.verbose && (!o.Cand.Auto || strings.HasPrefix(o.Cand.Text, "objinv")) {
					fmt.Fprintf(os.Stderr, "    drop candidate %s (%s: %s)\n", o.Cand.Key, o.Kind, o.Status)
				}
				r.disabled[o.Cand.Key] = true
				bad++
			}
		}
		if bad == 0 {
			for _, o := range cands {
				if !o.Cand.Auto {
					d.invs[o.Fn+": "+o.Cand.Text] = true
				}
			}
			break
		}
		if round > 12 {
			res.err = "loop invariants do not stabilise"
			return
		}
	}
	res.obls = d.filter(r, fn, forced, want)
	// vacuity: some exit of the function must be reachable under its assumptions
	vac := make(chan bool, 1)
	if r.rootFrame != nil && len(r.rootFrame.returns) > 0 && len(res.obls) > 0 {
		var cs []*Term
		for _, x := range r.rootFrame.returns {
			cs = append(cs, x.cond)
		}
		assumes := r.assumes
		covers := append([]cover{}, r.covers...)
		for _, x := range r.rootFrame.returns {
			covers = append(covers, cover{"exit at " + r.pos(x.pos), x.cond})
		}
		var scs []string
		if *flagCover {
			have := map[token.Pos]bool{}
			for _, x := range r.rootFrame.returns {
				have[x.pos] = true
			}
			for _, b := range fn.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !have[rt.Pos()] {
					fmt.Fprintf(os.Stderr, "    UNREACHABLE (folded) return at %s in %s\n", r.pos(rt.Pos()), shortName(fn.String()))
				}
			}
			for _, c := range covers {
				scs = append(scs, Script(append(append([]*Term{}, assumes...), c.cond), scriptOpts{}))
			}
		}
		sc := Script(append(append([]*Term{}, assumes...), Or(cs...)), scriptOpts{})
		go func() {
			for i, s := range scs {
				if out, _ := runSolver(context.Background(), solvers[0], s, 1); out == "unsat" {
					fmt.Fprintf(os.Stderr, "    UNREACHABLE %s in %s\n", covers[i].what, shortName(fn.String()))
				}
			}
			out, _ := runSolver(context.Background(), solvers[0], sc, 1)
			vac <- out == "unsat"
		}()
	} else {
		vac <- false
	}
	solveAll(res.obls, SolveOpts{Quick: quick, Full: full, Dump: dumpDir(d.dump, "obl")})
	for _, o := range res.obls {
		d.solverMS += o.Millis
	}
	res.vacuous = <-vac
	return
}

// firstTry reports whether the obligations need guessed loop invariants.
func (d *Driver) firstTry(r *Run, fn *ssa.Function, spec *FuncSpec, forced map[*ssa.Function]bool, want map[string]bool) bool {
	r.disabled = map[string]bool{}
	for round := 0; round < 6; round++ {
		d.execRoot(r, fn, spec)
		if r.loopCount == 0 {
			return false
		}
		var cands []*Obl
		for _, o := range r.obls {
			if o.Cand != nil {
				if !o.Cand.Auto {
					return true
				}
				cands = append(cands, o)
			}
		}
		solveAll(cands, SolveOpts{Quick: 1, NoFull: true})
		bad := false
		for _, o := range cands {
			d.solverMS += o.Millis
			if o.Status != "proved" && !r.disabled[o.Cand.Key] {
				r.disabled[o.Cand.Key] = true
				bad = true
			}
		}
		if bad {
			continue
		}
		obls := d.filter(r, fn, forced, want)
		solveAll(obls, SolveOpts{Quick: 1, NoFull: true, Dump: dumpDir(d.dump, "try")})
		// a few obligations that are merely slow are cheaper to try again
		// than to find loop invariants for
		var slow []*Obl
		for _, o := range obls {
			if o.Status != "proved" {
				slow = append(slow, o)
			}
		}
		if len(slow) > 0 && len(slow) <= 3 {
			solveAll(slow, SolveOpts{Quick: 8, NoFull: true})
		}
		for _, o := range obls {
			d.solverMS += o.Millis
			if o.Status != "proved" {
				if d.verbose {
					fmt.Fprintf(os.Stderr, "    first try: %s: %s\n", o.Status, o.Name)
				}
				return true
			}
		}
		d.tryDisabled = r.disabled
		return false
	}
	return true
}

func dumpDir(d, s string) string {
	if d == "" {
		return ""
	}
	return path.Join(d, s)
}

// filter selects the obligations this unit is responsible for.
func (d *Driver) filter(r *Run, fn *ssa.Function, forced map[*ssa.Function]bool, want map[string]bool) []*Obl {
	var out []*Obl
	for _, o := range r.obls {
		if o.Cand != nil {
			continue
		}
		if want != nil {
			if !want[oblKey(o)] && !(o.Kind == "objinv" && wantsObjInv(want, o)) {
				continue
			}
		} else if len(d.safetySet) > 0 {
			g := d.eng.byName[o.Fn]
			if g != nil && g != fn && d.safetySet[g] && isSafetyKind(o.Kind) {
				continue // decided where g itself is verified
			}
		}
		out = append(out, o)
	}
	return out
}

// a broken object invariant is re-checked at the exits of the callers
func wantsObjInv(want map[string]bool, o *Obl) bool {
	for k := range want {
		if strings.Contains(k, "objinv") && strings.Contains(k, o.Text) {
			return true
		}
	}
	return false
}

func isSafetyKind(k string) bool {
	switch k {
	case "index", "nil", "nilmap", "panic", "assert", "div":
		return true
	}
	return false
}

// execRoot runs the symbolic execution of a root function under its contract.
func (d *Driver) execRoot(r *Run, fn *ssa.Function, spec *FuncSpec) {
	r.reset()
	r.rootFrame = nil
	st := &State{h: map[string]*Term{}, now: Const("now0", IntS)}
	pc := True
	r.assume(True, Le(IntT(0), st.now))
	var args, binds []Val
	for i, p := range fn.Params {
		v := r.freshVal("arg:"+p.Name(), p.Type(), True, st.now)
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := under(p.Type()).(*types.Pointer); ok {
				r.assume(True, Neq(v.L[0], IntT(0)))
			}
		}
		args = append(args, v)
	}
	for _, fv := range fn.FreeVars {
		v := r.freshVal("free:"+fv.Name(), fv.Type(), True, st.now)
		if _, ok := under(fv.Type()).(*types.Pointer); ok {
			// captured variables are cells: always valid
			if !types.Identical(fv.Type(), freeOrigType(fv)) {
				r.assume(True, Neq(v.L[0], IntT(0)))
			}
		}
		binds = append(binds, v)
	}
	r.rootArgs = args
	r.rootSt = st.clone()
	r.oldSt = r.rootSt
	r.stack = nil
	fakeFr := &frame{fn: fn, chain: "", args: args}
	r.rootFrame = fakeFr
	for _, ax := range d.sf.Axioms {
		e := &Env{r: r, st: st, old: st, pc: True, vars: map[string]Val{}, pkg: d.eng.pkgByName(d.sf.Pkg), fr: fakeFr}
		r.assume(True, e.bool(ax.Expr))
	}
	for _, g := range d.sf.Global {
		e := &Env{r: r, st: st, old: st, pc: True, vars: map[string]Val{}, pkg: d.eng.pkgByName(d.sf.Pkg), fr: fakeFr}
		r.assume(True, e.bool(g.Expr))
	}
	r.objInvEntry(st)
	var env *Env
	if spec != nil {
		env = r.specEnv(spec, args, st, nil, pc)
		env.fr = fakeFr
		for _, l := range spec.Lets {
			v := env.eval(l.Expr)
			env.vars[l.Name] = v
			r.ghosts["let:"+l.Name] = v
		}
		for _, q := range append(append([]Clause{}, spec.Requires...), spec.Assumes...) {
			r.assume(True, env.bool(q.Expr))
		}
	}
	if is := d.eng.implements(fn); is != nil {
		ie := r.specEnv(is, args, st, nil, pc)
		ie.fr = fakeFr
		ie.vars["self"] = r.funcVal(fn)
		for _, q := range append(append([]Clause{}, is.Requires...), is.Assumes...) {
			r.assume(True, ie.bool(q.Expr))
		}
	}
	_, _, _ = r.execFunc(fn, args, binds, st, pc, "")
	d.objInvExit(r)
	if spec == nil || (len(spec.Ensures) == 0 && !spec.ModSet) || spec.Trusted {
		return
	}
	fr := r.rootFrame
	for _, ret := range fr.returns {
		post := r.specEnv(spec, args, ret.st, r.rootSt, ret.cond)
		post.fr = fr
		for _, l := range spec.Lets {
			post.vars[l.Name] = env.vars[l.Name]
		}
		if len(ret.vals) == 1 {
			r.bindResults(post, spec, ret.vals[0])
		} else {
			r.bindResults(post, spec, Val{Tup: ret.vals})
		}
		for i, res := range spec.Results {
			if v, ok := post.vars[res]; ok && v.T == nil {
				v.T = fn.Signature.Results().At(i).Type()
				post.vars[res] = v
			}
		}
		if spec.ModSet && d.sf.Kinds["ensures"] {
			d.frameObls(r, fn, spec, env, ret.st, ret.cond, r.pos(ret.pos))
		}
		for _, q := range spec.Ensures {
			txt := q.Text
			if q.Name != "" {
				txt = q.Name
			}
			goal := post.bool(q.Expr)
			if d.sf.Kinds["ensures"] {
				r.obls = append(r.obls, &Obl{
					Name: fmt.Sprintf("%s/ensures@%s[%s]", shortName(fn.String()), r.pos(ret.pos), txt),
					Kind: "ensures", Prop: d.prop, Fn: shortName(fn.String()), Pos: r.pos(ret.pos), PC: ret.cond, Goal: goal,
					Assume: r.assumes[:len(r.assumes):len(r.assumes)], Text: txt,
				})
			}
		}
	}
}

func freeOrigType(fv *ssa.FreeVar) types.Type {
	// a captured variable appears as a pointer to its cell; a bound receiver
	// or by-value capture keeps its own type
	fn := fv.Parent()
	idx := -1
	for i, x := range fn.FreeVars {
		if x == fv {
			idx = i
		}
	}
	if fn.Parent() == nil {
		return fv.Type()
	}
	for _, b := range fn.Parent().Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == fn {
				switch mc.Bindings[idx].(type) {
				case *ssa.Alloc, *ssa.FreeVar:
					return types.Typ[types.Invalid]
				}
			}
		}
	}
	return fv.Type()
}

// prove discharges the obligations of fn; those that fail in isolation are
// re-tried in the context of every caller (with fn's body expanded there).
func (d *Driver) prove(fn *ssa.Function, forced map[*ssa.Function]bool, want map[string]bool, depth int) []*Failure {
	fs, _ := d.proveUnit(fn, forced, want, depth)
	return fs
}

func (d *Driver) proveUnit(fn *ssa.Function, forced map[*ssa.Function]bool, want map[string]bool, depth int) ([]*Failure, *Run) {
	res := d.runUnit(fn, forced, want)
	return d.settle(fn, res, forced, want, depth), res.run
}

func (d *Driver) settle(fn *ssa.Function, res *unitResult, forced map[*ssa.Function]bool, want map[string]bool, depth int) []*Failure {
	name := shortName(fn.String())
	if want == nil {
		d.verified[name] = true
	}
	if res.run != nil {
		for n := range res.run.abstracted {
			d.abstracted[n] = true
		}
		for n := range res.run.assumedFns {
			d.assumed[n] = true
		}
		for n := range res.run.notes {
			d.notes[n] = true
		}
		for f := range res.run.inlined {
			d.inlined[shortName(f.String())] = true
		}
	}
	if res.err != "" {
		return []*Failure{{Root: name, Msg: res.err}}
	}
	if res.vacuous {
		return []*Failure{{Root: name, Msg: "assumptions are contradictory: no exit of the function is reachable"}}
	}
	var fails []*Obl
	for _, o := range res.obls {
		if o.Status == "proved" {
			d.obls = append(d.obls, o)
		} else {
			fails = append(fails, o)
		}
	}
	if len(fails) == 0 {
		return nil
	}
	mk := func(os []*Obl) []*Failure {
		var l []*Failure
		for _, o := range os {
			l = append(l, &Failure{Obl: o, Root: name, Out: o.Out})
		}
		return l
	}
	maxLift := 4
	if v, ok := d.sf.Options["lift"]; ok {
		fmt.Sscan(v, &maxLift)
	}
	hasContract := d.sf.Funcs[specName(fn)] != nil && !d.sf.Funcs[specName(fn)].Trusted && len(d.sf.Funcs[specName(fn)].Requires) > 0
	if depth >= maxLift || hasContract {
		return mk(fails)
	}
	for _, o := range fails {
		if o.Kind == "ensures" {
			return mk(fails)
		}
	}
	var callers []*ssa.Function
	if fn.Parent() != nil {
		callers = []*ssa.Function{fn.Parent()}
	} else {
		if d.eng.dynUse[fn] {
			return mk(fails)
		}
		seen := map[*ssa.Function]bool{}
		for _, c := range d.eng.callers[fn] {
			if strings.HasPrefix(c.Synthetic, "wrapper") && len(d.eng.callers[c]) == 0 && !d.eng.dynUse[c] {
				continue // a promoted method nobody calls
			}
			if !seen[c] {
				seen[c] = true
				callers = append(callers, c)
			}
		}
	}
	if len(callers) == 0 {
		return mk(fails)
	}
	sort.Slice(callers, func(i, j int) bool { return callers[i].String() < callers[j].String() })
	nw := map[string]bool{}
	for _, o := range fails {
		nw[oblKey(o)] = true
	}
	nf := map[*ssa.Function]bool{fn: true}
	for f := range forced {
		nf[f] = true
	}
	var all []*Failure
	for _, c := range callers {
		if nf[c] {
			return mk(fails) // recursion
		}
		if d.verbose {
			fmt.Fprintf(os.Stderr, "  lifting %d obligation(s) of %s into %s\n", len(fails), name, shortName(c.String()))
			for _, o := range fails {
				fmt.Fprintf(os.Stderr, "     %s %s: %s\n", o.Status, o.Name, trunc(o.Out, 100))
			}
		}
		if fn.Parent() != nil {
			// closures: every call must be visible in the parent
			pr := d.runUnit(c, nf, nw)
			if pr.err != "" || pr.run.leaked[fn] || !pr.run.inlined[fn] {
				return mk(fails)
			}
		}
		fs, cr := d.proveUnit(c, nf, nw, depth+1)
		if len(fs) == 0 && cr != nil && cr.reached[fn] && !cr.inlined[fn] {
			// the caller was not checked with fn's body expanded
			return mk(fails)
		}
		all = append(all, fs...)
		if len(fs) > 0 {
			break
		}
	}
	if len(all) == 0 {
		for _, o := range fails {
			d.lifted[o.Name] = "discharged in the context of every caller"
		}
	}
	return all
}

// callName is the contract name of a call site.
func callName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return typeKey(c.Value.Type()) + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return specName(f)
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return ""
	}
	return typeKey(c.Value.Type())
}

// roots finds every function that must be verified for the property.
func (d *Driver) roots() []*ssa.Function {
	set := map[*ssa.Function]bool{}
	sinks := map[string]bool{}
	for _, n := range sortedKeys(d.sf.Funcs) {
		s := d.sf.Funcs[n]
		if len(s.Requires) > 0 && d.sf.Options["autosinks"] != "off" {
			sinks[n] = true
		}
		if s.Trusted {
			continue
		}
		found := false
		for fn := range d.eng.funcs {
			if specName(fn) == n && (fn.Origin() == nil || true) {
				if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "instance") {
					continue
				}
				if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
					continue // generic: its instances are verified
				}
				set[fn] = true
				found = true
			}
		}
		if !found {
			// a package-level function variable that is never reassigned
			for g, fn := range d.eng.globalFunc {
				if shortName(g.Pkg.Pkg.Path())+"."+g.Name() == n || g.Pkg.Pkg.Name()+"."+g.Name() == n {
					set[fn] = true
					found = true
					ns := *s
					ns.Name = specName(fn)
					if d.sf.Funcs[ns.Name] == nil {
						d.sf.Funcs[ns.Name] = &ns
						for _, c := range d.sf.Cands {
							if c.Func == n {
								c.Func = ns.Name
							}
						}
					}
				}
			}
		}
		if !found && !s.Optional {
			d.failures = append(d.failures, &Failure{Root: n, Msg: "function under contract not found in the program"})
		}
	}
	for _, s := range d.sf.Sinks {
		sinks[s] = true
	}
	stores := map[string]bool{}
	sends := map[string]bool{}
	for _, s := range d.sf.Stores {
		if s.Heap != "" {
			stores[s.Heap] = true
		} else if s.Send != "" {
			sends[s.Send] = true
		}
	}
	objs := map[string]bool{}
	for _, oi := range d.sf.ObjInvs {
		objs[oi.Type] = true
	}
	for fn := range d.eng.funcs {
		if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "instance") {
			continue
		}
		if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if len(objs) > 0 {
					switch x := ins.(type) {
					case *ssa.Alloc:
						if objs[typeKey(deref(x.Type()))] {
							set[fn] = true
						}
					case *ssa.MapUpdate:
						for _, oi := range d.sf.ObjInvs {
							if strings.Contains(oi.Maps, " "+typeKey(mapType(x.Map.Type()))+" ") {
								set[fn] = true
							}
						}
					case *ssa.Store:
						if fa, ok := x.Addr.(*ssa.FieldAddr); ok && objs[typeKey(deref(fa.X.Type()))] {
							set[fn] = true
						}
						if objs[typeKey(deref(x.Addr.Type()))] {
							set[fn] = true
						}
					}
				}
				if ci, ok := ins.(ssa.CallInstruction); ok && len(sinks) > 0 {
					if sinks[callName(ci.Common())] {
						set[fn] = true
					}
					if c := ci.Common(); d.sf.Options["autosinks"] != "off" && !c.IsInvoke() {
						if g := c.StaticCallee(); g == nil {
							if is := d.eng.implSpec(c.Signature()); is != nil && len(is.Requires) > 0 {
								set[fn] = true
							}
						} else if is := d.eng.implements(g); is != nil && len(is.Requires) > 0 {
							set[fn] = true
						}
					}
				}
				if st, ok := ins.(*ssa.Store); ok && len(stores) > 0 && d.storesTo(st, stores) {
					set[fn] = true
				}
				var sent []ssa.Value
				switch sd := ins.(type) {
				case *ssa.Send:
					sent = append(sent, sd.X)
				case *ssa.Select:
					for _, c := range sd.States {
						if c.Dir == types.SendOnly {
							sent = append(sent, c.Send)
						}
					}
				}
				for _, v := range sent {
					if len(sends) == 0 {
						break
					}
					if mi, ok := v.(*ssa.MakeInterface); ok {
						v = mi.X
					}
					if sends[typeKey(v.Type())] {
						set[fn] = true
					}
					if it, ok := under(v.Type()).(*types.Interface); ok {
						for n := range sends {
							if t := d.eng.namedType(n); t != nil && types.Implements(t, it) {
								set[fn] = true
							}
						}
					}
				}
			}
		}
	}
	for _, pat := range d.sf.Roots {
		for _, fn := range d.match(pat) {
			set[fn] = true
		}
	}
	d.safetySet = map[*ssa.Function]bool{}
	excl := map[*ssa.Function]bool{}
	for _, pat := range d.sf.Safety {
		if strings.HasPrefix(pat, "!") {
			for _, fn := range d.match(pat[1:]) {
				excl[fn] = true
			}
		}
	}
	for _, pat := range d.sf.Safety {
		if strings.HasPrefix(pat, "!") {
			continue
		}
		m := d.match(pat)
		if len(m) == 0 {
			d.failures = append(d.failures, &Failure{Root: pat, Msg: "no function matches"})
		}
		for _, fn := range m {
			if !excl[fn] {
				d.safetySet[fn] = true
				set[fn] = true
			}
		}
	}
	var l []*ssa.Function
	excluded := func(fn *ssa.Function) bool {
		n := strings.TrimLeft(shortName(fn.String()), "(*")
		for _, x := range strings.Fields(d.sf.Options["exclude"]) {
			if strings.HasPrefix(n, x) {
				return true
			}
		}
		return false
	}
	for fn := range set {
		if !excluded(fn) {
			l = append(l, fn)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

func (d *Driver) match(pat string) []*ssa.Function {
	re := regexp.MustCompile("^" + strings.ReplaceAll(regexp.QuoteMeta(pat), `\*`, ".*") + "$")
	if strings.HasPrefix(pat, "(*") {
		re = regexp.MustCompile(`^\(\*` + strings.ReplaceAll(regexp.QuoteMeta(pat[2:]), `\*`, ".*") + "$")
	}
	var l []*ssa.Function
	for fn := range d.eng.funcs {
		if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "instance") {
			continue
		}
		if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			continue
		}
		if re.MatchString(shortName(fn.String())) {
			l = append(l, fn)
		}
	}
	return l
}

func (d *Driver) storesTo(st *ssa.Store, stores map[string]bool) bool {
	if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
		t := deref(fa.X.Type())
		f := under(t).(*types.Struct).Field(fa.Field)
		if stores["F:"+typeKey(t)+"."+f.Name()] {
			return true
		}
	}
	t := deref(st.Addr.Type())
	for h := range stores {
		tn := strings.TrimPrefix(h, "F:")
		tn = tn[:strings.LastIndexByte(tn, '.')]
		if structContains(t, tn) {
			return true
		}
	}
	return false
}

func structContains(t types.Type, name string) bool {
	if typeKey(t) == name {
		return true
	}
	if !isStructObj(t) {
		return false
	}
	s := under(t).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if structContains(s.Field(i).Type(), name) {
			return true
		}
	}
	return false
}

// unknownFailures counts the failures that are not recorded findings.
func (d *Driver) unknownFailures() int {
	n := 0
	for _, f := range d.failures {
		if !isKnownFinding(d.prop, f) {
			n++
		}
	}
	return n
}

func (d *Driver) decide() {
	d.verified, d.contracts, d.inlined = map[string]bool{}, map[string]bool{}, map[string]bool{}
	d.abstracted, d.assumed, d.notes, d.invs = map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	d.lifted = map[string]string{}
	for n, s := range d.sf.Funcs {
		if !s.Trusted {
			d.contracts[n] = true
		}
	}
	limit := 600 * time.Second
	if d.tier == "thorough" {
		limit = 2 * time.Hour
	}
	began := time.Now()
	for _, fn := range d.roots() {
		if n := d.unknownFailures(); n > 0 && (n >= 3 || time.Since(began) > limit/6) {
			break // the answer is known
		}
		if time.Since(began) > limit {
			d.failures = append(d.failures, &Failure{Root: shortName(fn.String()), Msg: "time budget exhausted before this function was verified"})
			break
		}
		if *flagOnly != "" && !strings.Contains(shortName(fn.String()), *flagOnly) {
			continue
		}
		d.failures = append(d.failures, d.prove(fn, nil, nil, 0)...)
	}
}
