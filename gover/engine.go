package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Engine holds the program under verification.
type Engine struct {
	finalCells map[*ssa.Alloc]*ssa.Store
	objHeaps   map[*ObjInv][]string
	prog       *ssa.Program
	dir        string
	spec       *SpecFile
	funcs      map[*ssa.Function]bool
	byName     map[string]*ssa.Function
	pkgs       map[string]*types.Package
	loops      map[*ssa.Function]*loopInfo
	escaping   map[fieldKey]bool
	noFlag     map[fieldKey]types.Type // escaping fields that are never the target of a command-line flag

	nonnull          map[string]bool
	nonnullGlobals   map[string]bool
	nonnullDyn       bool
	globalConst      map[*ssa.Global]*ssa.Const
	globalFunc       map[*ssa.Global]*ssa.Function
	globalInit       map[*ssa.Global][]func(r *Run, o Val, st *State, pc *Term)
	pureFuncTypes    map[string]bool
	ptrErrConvention bool

	tags   map[string]int
	tagTyp []types.Type

	nodes   map[string]*modNode
	solved  bool
	all     map[string]Sort
	callers map[*ssa.Function][]*ssa.Function
	dynUse  map[*ssa.Function]bool
	taken   map[*ssa.Function]bool
	dynR    *Run
}

type modNode struct {
	mods  map[string]Sort
	succs map[string]bool
	keeps []string // ghost variables its contract says are left alone
}

func loadProgram(dir string, tags string, patterns ...string) (*ssa.Program, error) {
	cfg := &packages.Config{Dir: dir, BuildFlags: []string{"-tags=" + tags},
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedDeps}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load %s: %v", p.PkgPath, e)
		}
	}
	prog, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	return prog, nil
}

func newEngine(prog *ssa.Program, dir string, sf *SpecFile) *Engine {
	e := &Engine{finalCells: map[*ssa.Alloc]*ssa.Store{}, objHeaps: map[*ObjInv][]string{}, prog: prog, dir: dir, spec: sf, funcs: map[*ssa.Function]bool{}, byName: map[string]*ssa.Function{},
		pkgs: map[string]*types.Package{}, loops: map[*ssa.Function]*loopInfo{},
		nonnull: map[string]bool{}, nonnullGlobals: map[string]bool{}, globalConst: map[*ssa.Global]*ssa.Const{},
		globalFunc:    map[*ssa.Global]*ssa.Function{},
		globalInit:    map[*ssa.Global][]func(*Run, Val, *State, *Term){},
		pureFuncTypes: map[string]bool{"xirc.CaseMapping": true}, tags: map[string]int{}, tagTyp: []types.Type{nil},
		nodes: map[string]*modNode{}, callers: map[*ssa.Function][]*ssa.Function{}, dynUse: map[*ssa.Function]bool{}, taken: map[*ssa.Function]bool{}}
	for fn := range ssautil.AllFunctions(prog) {
		if len(fn.Blocks) == 0 || !fnInModule(fn) {
			continue
		}
		e.funcs[fn] = true
		e.byName[shortName(fn.String())] = fn
	}
	for _, p := range prog.AllPackages() {
		n := p.Pkg.Name()
		if _, dup := e.pkgs[n]; dup && !inModule(p.Pkg.Path()) && p.Pkg.Path() != n {
			continue
		}
		if old, dup := e.pkgs[n]; dup && inModule(old.Path()) && !inModule(p.Pkg.Path()) {
			continue
		}
		e.pkgs[n] = p.Pkg
	}
	e.escaping, e.noFlag = computeEscaping(e.funcs)
	for _, n := range sf.NonNull {
		if strings.HasPrefix(n, "global ") {
			e.nonnullGlobals[strings.TrimPrefix(n, "global ")] = true
		} else if n == "dyn" {
			e.nonnullDyn = true
		} else if n == "ptrerr" {
			e.ptrErrConvention = true
		} else {
			e.nonnull[n] = true
		}
	}
	e.dynR = newRun(e, &RunCfg{Kinds: map[string]bool{}}, nil)
	e.buildGraph()
	e.findGlobals()
	return e
}

func fnInModule(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return inModule(fn.Pkg.Pkg.Path())
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return inModule(o.Pkg.Pkg.Path())
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return inModule(o.Pkg().Path())
	}
	if fn.Parent() != nil {
		return fnInModule(fn.Parent())
	}
	return false
}

func (e *Engine) hasBody(fn *ssa.Function) bool { return len(fn.Blocks) > 0 && e.funcs[fn] }

func (e *Engine) typeTag(t types.Type) int {
	k := typeKey(t)
	if n, ok := e.tags[k]; ok {
		return n
	}
	e.tagTyp = append(e.tagTyp, t)
	e.tags[k] = len(e.tagTyp) - 1
	return len(e.tagTyp) - 1
}

func (e *Engine) tagType(i int) types.Type {
	if i > 0 && i < len(e.tagTyp) {
		return e.tagTyp[i]
	}
	return nil
}

func (e *Engine) pkgByName(n string) *types.Package { return e.pkgs[n] }

func (e *Engine) namedType(s string) types.Type {
	i := strings.LastIndexByte(s, '.')
	if i < 0 {
		return nil
	}
	pn := s[:i]
	if j := strings.LastIndexByte(pn, '/'); j >= 0 {
		pn = pn[j+1:]
	}
	if pn == "irc.v4" {
		pn = "irc"
	}
	p := e.pkgByName(pn)
	if p == nil {
		return nil
	}
	if o, ok := p.Scope().Lookup(s[i+1:]).(*types.TypeName); ok {
		return o.Type()
	}
	return nil
}

func (e *Engine) parseType(s string, pkg *types.Package) types.Type {
	x, err := parser.ParseExpr(s)
	if err != nil {
		specFail("bad type %q", s)
	}
	return e.parseTypeExpr(x, pkg)
}

func (e *Engine) parseTypeExpr(x ast.Expr, pkg *types.Package) types.Type {
	t := e.tryType(x, pkg)
	if t == nil {
		specFail("unknown type %s", exprStr(x))
	}
	return t
}

func (e *Engine) tryType(x ast.Expr, pkg *types.Package) types.Type {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.tryType(n.X, pkg)
	case *ast.Ident:
		if o, ok := types.Universe.Lookup(n.Name).(*types.TypeName); ok {
			return o.Type()
		}
		if pkg != nil {
			if o, ok := pkg.Scope().Lookup(n.Name).(*types.TypeName); ok {
				return o.Type()
			}
		}
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if p := e.pkgByName(id.Name); p != nil {
				if o, ok := p.Scope().Lookup(n.Sel.Name).(*types.TypeName); ok {
					return o.Type()
				}
			}
			// another package of that name; the shortest path wins
			var best *types.TypeName
			for _, sp := range e.prog.AllPackages() {
				if sp.Pkg.Name() != id.Name {
					continue
				}
				if o, ok := sp.Pkg.Scope().Lookup(n.Sel.Name).(*types.TypeName); ok && (best == nil || len(sp.Pkg.Path()) < len(best.Pkg().Path()) || len(sp.Pkg.Path()) == len(best.Pkg().Path()) && sp.Pkg.Path() < best.Pkg().Path()) {
					best = o
				}
			}
			if best != nil {
				return best.Type()
			}
		}
	case *ast.StarExpr:
		if t := e.tryType(n.X, pkg); t != nil {
			return types.NewPointer(t)
		}
	case *ast.ArrayType:
		t := e.tryType(n.Elt, pkg)
		if t == nil {
			return nil
		}
		if n.Len == nil {
			return types.NewSlice(t)
		}
	case *ast.MapType:
		k, v := e.tryType(n.Key, pkg), e.tryType(n.Value, pkg)
		if k != nil && v != nil {
			return types.NewMap(k, v)
		}
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.StructType:
		if n.Fields == nil || len(n.Fields.List) == 0 {
			return types.NewStruct(nil, nil)
		}
	case *ast.IndexExpr:
		g, ok := e.tryType(n.X, pkg).(*types.Named)
		a := e.tryType(n.Index, pkg)
		if ok && a != nil {
			t, err := types.Instantiate(nil, g, []types.Type{a}, false)
			if err == nil {
				return t
			}
		}
	}
	return nil
}

func (e *Engine) lookupMethod(t types.Type, name string) *ssa.Function {
	if types.IsInterface(t) {
		return nil
	}
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return e.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// ---- mod sets ----

func (e *Engine) node(k string) *modNode {
	n := e.nodes[k]
	if n == nil {
		n = &modNode{mods: map[string]Sort{}, succs: map[string]bool{}}
		e.nodes[k] = n
	}
	return n
}

func fnKey(fn *ssa.Function) string { return fmt.Sprintf("fn:%s@%p", fn.String(), fn) }

func sigKey(s *types.Signature) string {
	return "sig:" + typeKey(types.NewSignatureType(nil, nil, nil, stripNames(s.Params()), stripNames(s.Results()), s.Variadic()))
}

func stripNames(t *types.Tuple) *types.Tuple {
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, types.NewVar(token.NoPos, nil, "", t.At(i).Type()))
	}
	return types.NewTuple(vs...)
}

// localRoot reports whether the memory v designates was allocated by this
// function activation.
func localRoot(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		return true
	case *ssa.FieldAddr:
		return localRoot(x.X, seen)
	case *ssa.IndexAddr:
		return localRoot(x.X, seen)
	case *ssa.Slice:
		return localRoot(x.X, seen)
	case *ssa.ChangeType:
		return localRoot(x.X, seen)
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if !localRoot(ed, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return localRoot(x.Call.Args[0], seen)
		}
	case *ssa.UnOp:
		// content of a local, non-escaping variable holding a map/slice made here
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.Alloc); ok && !a.Heap {
				for _, ref := range *a.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
						if !localRoot(s.Val, seen) {
							return false
						}
					} else if _, ok := ref.(*ssa.UnOp); !ok {
						if _, ok := ref.(*ssa.DebugRef); !ok {
							return false
						}
					}
				}
				return true
			}
		}
	}
	return false
}

// writtenBy lists the heaps a write of type T through address v touches.
func (e *Engine) writtenBy(v ssa.Value, t types.Type) map[string]Sort {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := deref(x.X.Type())
		f := under(st).(*types.Struct).Field(x.Field)
		if isStructObj(f.Type()) || isArrayObj(f.Type()) {
			return e.dynR.heapNamesOf(f.Type(), nil)
		}
		base := "F:" + typeKey(st) + "." + f.Name()
		if e.escaping[fieldKey{typeKey(st), f.Name()}] {
			base = "C:" + typeKey(f.Type())
		}
		m := map[string]Sort{}
		ls := leavesOf(f.Type())
		for i, l := range ls {
			m[hname(base, i, len(ls))] = ArrS(IntS, l.sort)
		}
		return m
	case *ssa.IndexAddr:
		if al, ok := x.X.(*ssa.Alloc); ok && cellArray(al) > 0 {
			break
		}
		return e.elemHeaps(t)
	}
	return e.dynR.heapNamesOf(t, nil)
}

func (e *Engine) elemHeaps(et types.Type) map[string]Sort {
	if isStructObj(et) || isArrayObj(et) {
		return e.dynR.heapNamesOf(et, nil)
	}
	m := map[string]Sort{}
	ls := leavesOf(et)
	for i, l := range ls {
		m[hname("E:"+typeKey(et), i, len(ls))] = ArrS(IntS, ArrS(IntS, l.sort))
	}
	return m
}

func mapHeapSet(mt *types.Map) map[string]Sort {
	dom, domS, ln, vals, valS := mapHeaps(mt)
	m := map[string]Sort{dom: domS, ln: ArrS(IntS, IntS)}
	for i := range vals {
		m[vals[i]] = valS[i]
	}
	return m
}

func addAll(dst, src map[string]Sort) {
	for k, v := range src {
		dst[k] = v
	}
}

func containsTypeParam(t types.Type) bool {
	switch u := t.(type) {
	case *types.TypeParam:
		return true
	case *types.Pointer:
		return containsTypeParam(u.Elem())
	case *types.Slice:
		return containsTypeParam(u.Elem())
	case *types.Map:
		return containsTypeParam(u.Key()) || containsTypeParam(u.Elem())
	case *types.Named:
		for i := 0; i < u.TypeArgs().Len(); i++ {
			if containsTypeParam(u.TypeArgs().At(i)) {
				return true
			}
		}
	}
	return false
}

func (e *Engine) buildGraph() {
	e.all = map[string]Sort{}
	for fn := range e.funcs {
		n := e.node(fnKey(fn))
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				e.scanInstr(fn, n, ins)
			}
		}
	}
	// named functions of the interface method sets (for dynamic invocation)
	for fn := range e.taken {
		e.node(sigKey(fn.Signature)).succs[fnKey(fn)] = true
		e.dynUse[fn] = true
	}
	for name, g := range e.spec.Funcs {
		if fn := e.byName[name]; fn != nil {
			e.node(fnKey(fn)).keeps = g.Keeps
		} else if n := e.nodes["meth:"+name]; n != nil {
			n.keeps = g.Keeps
		}
		// ghost variables a contract says change, change in every caller too
		for _, m := range append(append([]string{}, g.Modifies...), g.GhostMod...) {
			if t, ok := e.spec.GVars[m]; ok {
				typ := e.parseType(t, e.pkgByName(g.Pkg))
				ls := leavesOf(typ)
				for i, l := range ls {
					hn := hname("G:"+m, i, len(ls))
					e.all[hn] = l.sort
					if fn := e.byName[name]; fn != nil {
						e.node(fnKey(fn)).mods[hn] = l.sort
					}
					e.node("ext:" + name).mods[hn] = l.sort
				}
			}
		}
	}
}

func (e *Engine) scanInstr(fn *ssa.Function, n *modNode, ins ssa.Instruction) {
	write := func(m map[string]Sort, local bool) {
		addAll(e.all, m)
		if !local {
			addAll(n.mods, m)
		}
	}
	// address-taken functions
	for _, op := range ins.Operands(nil) {
		f, ok := (*op).(*ssa.Function)
		if !ok {
			continue
		}
		if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().Value == f {
			continue
		}
		e.taken[f] = true
	}
	switch x := ins.(type) {
	case *ssa.Store:
		t := deref(x.Addr.Type())
		if containsTypeParam(t) {
			return
		}
		write(e.writtenBy(x.Addr, t), localRoot(x.Addr, map[ssa.Value]bool{}))
	case *ssa.MapUpdate:
		if containsTypeParam(x.Map.Type()) {
			return
		}
		write(mapHeapSet(mapType(x.Map.Type())), localRoot(x.Map, map[ssa.Value]bool{}))
	case *ssa.MakeMap:
		if !containsTypeParam(x.Type()) {
			write(mapHeapSet(mapType(x.Type())), true)
		}
	case *ssa.MakeClosure:
		e.taken[x.Fn.(*ssa.Function)] = true
	case *ssa.Go:
		if f := x.Call.StaticCallee(); f != nil {
			e.dynUse[f] = true
			e.callers[f] = append(e.callers[f], fn)
		}
	case ssa.CallInstruction:
		e.scanCall(fn, n, x, write)
	}
}

func (e *Engine) scanCall(fn *ssa.Function, n *modNode, ci ssa.CallInstruction, write func(map[string]Sort, bool)) {
	c := ci.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append", "copy":
			t, ok := under(c.Args[0].Type()).(*types.Slice)
			if ok && !containsTypeParam(t) {
				write(e.elemHeaps(t.Elem()), localRoot(c.Args[0], map[ssa.Value]bool{}))
			}
		case "delete", "clear":
			if mt, ok := under(c.Args[0].Type()).(*types.Map); ok && !containsTypeParam(mt) {
				write(mapHeapSet(mt), localRoot(c.Args[0], map[ssa.Value]bool{}))
			}
		}
		return
	}
	if c.IsInvoke() {
		n.succs[e.methNode(c.Value.Type(), c.Method)] = true
		n.succs["ext:"+typeKey(c.Value.Type())+"."+c.Method.Name()] = true
		e.node("ext:" + typeKey(c.Value.Type()) + "." + c.Method.Name())
		if !ifaceInModule(c.Value.Type()) {
			e.extArgs(n, typeKey(c.Value.Type())+"."+c.Method.Name(), c, write)
		}
		return
	}
	if f := c.StaticCallee(); f != nil {
		if e.funcs[f] {
			n.succs[fnKey(f)] = true
			e.callers[f] = append(e.callers[f], fn)
			return
		}
		name := shortName(f.String())
		n.succs["ext:"+name] = true
		e.node("ext:" + name)
		if name == "(*flag.FlagSet).Parse" {
			n.mods["C:*"] = ""
			return
		}
		e.extArgs(n, name, c, write)
		return
	}
	n.succs[sigKey(c.Signature())] = true
	e.node(sigKey(c.Signature()))
}

func ifaceInModule(t types.Type) bool { return typeInModule(t) }

// variadicElems returns the values stored in the argument slice of a variadic
// call.
func variadicElems(c *ssa.CallCommon) []ssa.Value {
	var res []ssa.Value
	for _, a := range c.Args {
		sl, ok := a.(*ssa.Slice)
		if !ok {
			continue
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			continue
		}
		for _, ref := range *al.Referrers() {
			ix, ok := ref.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, rr := range *ix.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ix {
					res = append(res, st.Val)
				}
			}
		}
	}
	return res
}

func (e *Engine) extArgs(n *modNode, name string, c *ssa.CallCommon, write func(map[string]Sort, bool)) {
	ro := readonlyPkgs[pkgOfName(name)] && !writesArgs[name]
	all := c.Args
	if writesArgs[name] {
		all = append(append([]ssa.Value{}, all...), variadicElems(c)...)
	}
	for _, a := range all {
		if sig, ok := under(a.Type()).(*types.Signature); ok {
			n.succs[sigKey(sig)] = true
			e.node(sigKey(sig))
		}
		if ro {
			continue
		}
		v := a
		if mi, ok := a.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		if containsTypeParam(v.Type()) {
			continue
		}
		switch u := under(v.Type()).(type) {
		case *types.Pointer:
			if _, ok := opaqueSort(u.Elem()); ok {
				continue
			}
			if _, ok := a.(*ssa.MakeInterface); ok && !writesArgs[name] && typeInModule(u.Elem()) && isStructObj(u.Elem()) {
				continue
			}
			if isStructObj(u.Elem()) || !isArrayObj(u.Elem()) {
				write(e.writtenBy(v, u.Elem()), localRoot(v, map[ssa.Value]bool{}))
			}
		case *types.Slice:
			if !types.IsInterface(u.Elem()) {
				write(e.elemHeaps(u.Elem()), localRoot(v, map[ssa.Value]bool{}))
			}
		}
	}
}

// methNode is the node standing for a dynamic call of an interface method.
func (e *Engine) methNode(it types.Type, m *types.Func) string {
	k := "meth:" + typeKey(it) + "." + m.Name()
	if _, ok := e.nodes[k]; ok {
		return k
	}
	n := e.node(k)
	iface, ok := under(it).(*types.Interface)
	if !ok {
		return k
	}
	for _, p := range e.prog.AllPackages() {
		if !inModule(p.Pkg.Path()) {
			continue
		}
		for _, mem := range p.Members {
			tn, ok := mem.(*ssa.Type)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 || types.IsInterface(nt) {
				continue
			}
			for _, t := range []types.Type{nt, types.NewPointer(nt)} {
				if !types.Implements(t, iface) {
					continue
				}
				if f := e.prog.LookupMethod(t, m.Pkg(), m.Name()); f != nil && len(f.Blocks) > 0 {
					n.succs[fnKey(f)] = true
					e.funcs[f] = true
					if _, ok := e.nodes[fnKey(f)]; !ok {
						fnode := e.node(fnKey(f))
						for _, b := range f.Blocks {
							for _, ins := range b.Instrs {
								e.scanInstr(f, fnode, ins)
							}
						}
					}
					e.dynUse[f] = true
					// the wrapped method too
					for _, b := range f.Blocks {
						for _, ins := range b.Instrs {
							if ci, ok := ins.(ssa.CallInstruction); ok && f.Synthetic != "" {
								if g := ci.Common().StaticCallee(); g != nil {
									e.dynUse[g] = true
								}
							}
						}
					}
				}
			}
		}
	}
	return k
}

func (n *modNode) keepsHeap(h string) bool {
	for _, g := range n.keeps {
		if h == "G:"+g || strings.HasPrefix(h, "G:"+g+"#") {
			return true
		}
	}
	return false
}

func (e *Engine) solve() {
	if e.solved {
		return
	}
	e.solved = true
	preds := map[string][]string{}
	var work []string
	inw := map[string]bool{}
	for k, n := range e.nodes {
		for s := range n.succs {
			preds[s] = append(preds[s], k)
		}
		work = append(work, k)
		inw[k] = true
	}
	for len(work) > 0 {
		k := work[len(work)-1]
		work = work[:len(work)-1]
		inw[k] = false
		n := e.nodes[k]
		if n == nil {
			continue
		}
		for _, p := range preds[k] {
			pn := e.nodes[p]
			ch := false
			for h, s := range n.mods {
				if pn.keepsHeap(h) {
					continue
				}
				if _, ok := pn.mods[h]; !ok {
					pn.mods[h] = s
					ch = true
				}
			}
			if ch && !inw[p] {
				inw[p] = true
				work = append(work, p)
			}
		}
	}
	for _, n := range e.nodes {
		if _, ok := n.mods["C:*"]; ok {
			for h, s := range e.all {
				if strings.HasPrefix(h, "C:") {
					n.mods[h] = s
				}
			}
		}
	}
	for _, n := range e.nodes {
		delete(n.mods, "C:*")
	}
}

func (e *Engine) modsOfNode(k string) map[string]Sort {
	e.solve()
	if n := e.nodes[k]; n != nil {
		return n.mods
	}
	return nil
}

func (e *Engine) mods(fn *ssa.Function) map[string]Sort { return e.modsOfNode(fnKey(fn)) }

func (e *Engine) modsBySignature(s *types.Signature) map[string]Sort {
	return e.modsOfNode(sigKey(s))
}

func (e *Engine) modsByMethod(it types.Type, m *types.Func) (map[string]Sort, bool) {
	k := "meth:" + typeKey(it) + "." + m.Name()
	if _, ok := e.nodes[k]; !ok {
		e.solved = false
		e.methNode(it, m)
	}
	mods := e.modsOfNode(k)
	return mods, ifaceInModule(it)
}

func (e *Engine) allHeaps() map[string]Sort { return e.all }

// ---- immutable globals ----

func (e *Engine) findGlobals() {
	type use struct {
		stores []*ssa.Store
		other  bool
		loads  []*ssa.UnOp
	}
	uses := map[*ssa.Global]*use{}
	var fns []*ssa.Function
	for fn := range e.funcs {
		fns = append(fns, fn)
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || !inModule(g.Pkg.Pkg.Path()) {
						continue
					}
					u := uses[g]
					if u == nil {
						u = &use{}
						uses[g] = u
					}
					switch x := ins.(type) {
					case *ssa.Store:
						if x.Addr == g {
							u.stores = append(u.stores, x)
							if fn.Name() != "init" || fn.Synthetic == "" {
								u.other = true
							}
						} else {
							u.other = true
						}
					case *ssa.UnOp:
						u.loads = append(u.loads, x)
					case *ssa.DebugRef:
					default:
						u.other = true
					}
				}
			}
		}
	}
	for g, u := range uses {
		if u.other || len(u.stores) != 1 {
			continue
		}
		switch v := u.stores[0].Val.(type) {
		case *ssa.Const:
			e.globalConst[g] = v
		case *ssa.Function:
			e.globalFunc[g] = v
		case *ssa.ChangeType:
			if f, ok := v.X.(*ssa.Function); ok {
				e.globalFunc[g] = f
			}
		case *ssa.MakeMap:
			e.globalMap(g, v, u.loads)
		case *ssa.Slice:
			e.globalSlice(g, v, u.loads)
		}
	}
}

// globalMap: a package-level map built in init from constant keys and only
// read afterwards.
func (e *Engine) globalMap(g *ssa.Global, m *ssa.MakeMap, loads []*ssa.UnOp) {
	type kv struct{ k, v *ssa.Const }
	var kvs []kv
	for _, ref := range *m.Referrers() {
		switch x := ref.(type) {
		case *ssa.MapUpdate:
			k, ok := x.Key.(*ssa.Const)
			if !ok {
				return
			}
			v, _ := x.Value.(*ssa.Const)
			kvs = append(kvs, kv{k, v})
		case *ssa.Store, *ssa.DebugRef:
		default:
			return
		}
	}
	for _, l := range loads {
		for _, ref := range *l.Referrers() {
			switch x := ref.(type) {
			case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
					return
				}
			default:
				return
			}
		}
	}
	mt := mapType(m.Type())
	if len(leavesOf(mt.Key())) != 1 {
		return
	}
	e.globalInit[g] = append(e.globalInit[g], func(r *Run, o Val, st *State, pc *Term) {
		dom, domS, ln, vals, valS := mapHeaps(mt)
		row := ConstArr(arrElem(domS), False)
		ref := o.L[0]
		for _, x := range kvs {
			kt := r.constVal(x.k).one()
			row = StoreT(row, kt, True)
			if x.v != nil {
				for i, l := range r.constVal(x.v).L {
					r.assume(pc, Eq(Select(Select(st.get(vals[i], valS[i]), ref), kt), l))
				}
			}
		}
		r.assume(pc, Neq(ref, IntT(0)))
		r.assume(pc, Eq(Select(st.get(dom, domS), ref), row))
		r.assume(pc, Eq(Select(st.get(ln, ArrS(IntS, IntS)), ref), IntT(int64(len(kvs)))))
	})
}

// globalSlice: a package-level slice literal of scalar constants, only read.
func (e *Engine) globalSlice(g *ssa.Global, s *ssa.Slice, loads []*ssa.UnOp) {
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return
	}
	at, ok := under(deref(al.Type())).(*types.Array)
	if !ok || s.Low != nil || s.High != nil {
		return
	}
	var readOnly func(v ssa.Value) bool
	readOnly = func(v ssa.Value) bool {
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.DebugRef, *ssa.Range:
			case *ssa.IndexAddr:
				for _, r2 := range *x.Referrers() {
					switch y := r2.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.FieldAddr:
						for _, r3 := range *y.Referrers() {
							if _, ok := r3.(*ssa.UnOp); !ok {
								return false
							}
						}
					default:
						return false
					}
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	lenOnly := false
	for _, l := range loads {
		if !readOnly(l) {
			lenOnly = true
		}
	}
	n := at.Len()
	et := at.Elem()
	type ent struct {
		i     int64
		field int
		c     *ssa.Const
	}
	var ents []ent
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return
		}
		for _, r2 := range *ia.Referrers() {
			switch y := r2.(type) {
			case *ssa.Store:
				if c, ok := y.Val.(*ssa.Const); ok {
					ents = append(ents, ent{k.Int64(), -1, c})
				}
			case *ssa.FieldAddr:
				for _, r3 := range *y.Referrers() {
					if s3, ok := r3.(*ssa.Store); ok {
						if c, ok := s3.Val.(*ssa.Const); ok {
							ents = append(ents, ent{k.Int64(), y.Field, c})
						}
					}
				}
			}
		}
	}
	sort.Slice(ents, func(i, j int) bool { return ents[i].i < ents[j].i })
	e.globalInit[g] = append(e.globalInit[g], func(r *Run, o Val, st *State, pc *Term) {
		r.assume(pc, Neq(o.L[0], IntT(0)))
		r.assume(pc, Eq(o.L[2], IntT(n)))
		if lenOnly {
			return
		}
		for _, x := range ents {
			a := r.elemAddr(et, o.L[0], Add(o.L[1], IntT(x.i)))
			t := et
			if x.field >= 0 {
				a = r.fieldAddr(et, x.field, a.one())
				t = under(et).(*types.Struct).Field(x.field).Type()
			}
			v := r.load(st, a, t, pc)
			for i, l := range r.constVal(x.c).L {
				r.assume(pc, Eq(v.L[i], l))
			}
		}
	})
}

// finalCell returns the only store to a variable that is captured by closures
// but never assigned again, nil if there is none. The store follows the
// allocation in the same block, before any other use.
func (e *Engine) finalCell(a *ssa.Alloc) *ssa.Store {
	if s, ok := e.finalCells[a]; ok {
		return s
	}
	e.finalCells[a] = nil
	t := deref(a.Type())
	if !a.Heap || isStructObj(t) || isArrayObj(t) {
		return nil
	}
	var st *ssa.Store
	ok := true
	var use func(v ssa.Value)
	use = func(v ssa.Value) {
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.Store:
				if x.Addr != v || x.Val == v || st != nil || v != ssa.Value(a) {
					ok = false
					return
				}
				st = x
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v {
						use(fn.FreeVars[i])
					}
				}
			default:
				ok = false
				return
			}
		}
	}
	use(a)
	if !ok || st == nil || st.Block() != a.Block() {
		return nil
	}
	for _, ins := range a.Block().Instrs {
		if ins == ssa.Instruction(st) {
			break
		}
		if ins == ssa.Instruction(a) {
			continue
		}
		for _, op := range ins.Operands(nil) {
			if *op == ssa.Value(a) {
				if _, dbg := ins.(*ssa.DebugRef); !dbg {
					return nil
				}
			}
		}
	}
	e.finalCells[a] = st
	return st
}
