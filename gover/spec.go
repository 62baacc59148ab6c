package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type specErr struct{ msg string }

func specFail(f string, a ...any) { panic(specErr{fmt.Sprintf(f, a...)}) }

type Clause struct {
	Text string
	Expr ast.Expr
	Name string
}

// FuncSpec is a contract.
type FuncSpec struct {
	Name     string
	Params   []string
	Results  []string
	Requires []Clause
	Assumes  []Clause // assumed on entry when verifying, not checked at callers
	Ensures  []Clause
	Checks   []Clause // extra, checked at every call site under another obligation kind
	Modifies []string
	ModSet   bool // Modifies given
	Trusted  bool
	GhostMod []string // ghost variables changed, besides the program state
	Keeps    []string // ghost variables proved to be left alone
	Pure     bool
	Inline   bool
	Property string
	Pkg      string
	Lets     []Clause
	FuncType bool
	Optional bool // no complaint when the program has no such function
	Opaque   bool // use the contract at call sites (default); false when "inline"
	Probes   []ProbeSpec
}

// ProbeSpec calls a function value handed to a trusted function, once, with
// arbitrary arguments, so that its requires clauses can speak of the outcome.
type ProbeSpec struct {
	Args, Results []string
	Fn            Clause
}

type StoreSpec struct {
	Heap string // F:type.field
	Obj  string
	Val  string
	Req  Clause
	Pkg  string
	Send string
	Chan string // name of the channel in a send clause
	Recv string // assumed of values of this type obtained from an interface
}

type LoopCand struct {
	Func string
	Wild []wild
	Text string
	Expr ast.Expr
	Pkg  string
}

type wild struct {
	Name string
	Type string
}

type ghostFn struct {
	Name string
	Args []string
	Res  string
	Pkg  string
}

type SpecFile struct {
	Property    string
	Funcs       map[string]*FuncSpec
	Order       []string
	Stores      []*StoreSpec
	Cands       []*LoopCand
	Ghosts      map[string]*ghostFn
	GVars       map[string]string
	Kinds       map[string]bool
	Roots       []string
	Sinks       []string
	NoInline    map[string]bool
	ForceInl    map[string]bool
	AutoInv     bool
	Options     map[string]string
	Axioms      []Clause
	Pkg         string
	Safety      []string // functions whose automatic safety obligations are in scope
	NonNull     []string
	Assumptions []string
	Global      []Clause // assumed at entry of every verified root
	ObjInvs     []*ObjInv
}

func newSpecFile() *SpecFile {
	return &SpecFile{Funcs: map[string]*FuncSpec{}, Ghosts: map[string]*ghostFn{}, GVars: map[string]string{}, Kinds: map[string]bool{"requires": true, "ensures": true, "store": true}, NoInline: map[string]bool{}, ForceInl: map[string]bool{}, Options: map[string]string{}, AutoInv: true, Pkg: "soju"}
}

var funcHdr = regexp.MustCompile(`^(.*?)\(([^()]*)\)\s*(?:\(([^()]*)\))?$`)

func splitNames(s string) []string {
	var l []string
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimSpace(x)
		if x != "" {
			l = append(l, x)
		}
	}
	return l
}

func parseClause(text string) Clause {
	name := ""
	if strings.HasPrefix(text, "[") {
		i := strings.Index(text, "]")
		name = text[1:i]
		text = strings.TrimSpace(text[i+1:])
	}
	e, err := parser.ParseExpr(rewriteImp(text))
	if err != nil {
		specFail("bad expression %q: %v", text, err)
	}
	return Clause{Text: text, Expr: e, Name: name}
}

// rewriteImp turns "a ==> b" into imp(a, b) (right associative, top level of
// each parenthesised group).
func rewriteImp(s string) string {
	depth := 0
	inStr := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if inStr != 0 {
			if c == '\\' {
				i++
			} else if c == inStr {
				inStr = 0
			}
			continue
		}
		switch c {
		case '"', '\'', '`':
			inStr = c
		case '(', '[', '{':
			// recurse into the group
			j := matchClose(s, i)
			inner := rewriteGroup(s[i+1 : j])
			s = s[:i+1] + inner + s[j:]
			i = i + 1 + len(inner)
			_ = depth
		case '=':
			if strings.HasPrefix(s[i:], "==>") {
				return "imp(" + strings.TrimSpace(s[:i]) + ", " + rewriteImp(strings.TrimSpace(s[i+3:])) + ")"
			}
		}
	}
	return s
}

// rewriteGroup handles comma-separated groups.
func rewriteGroup(s string) string {
	parts := splitTop(s)
	for i := range parts {
		parts[i] = rewriteImp(parts[i])
	}
	return strings.Join(parts, ",")
}

func splitTop(s string) []string {
	var parts []string
	start := 0
	inStr := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if inStr != 0 {
			if c == '\\' {
				i++
			} else if c == inStr {
				inStr = 0
			}
			continue
		}
		switch c {
		case '"', '\'', '`':
			inStr = c
		case '(', '[', '{':
			i = matchClose(s, i)
		case ',':
			parts = append(parts, s[start:i])
			start = i + 1
		}
	}
	return append(parts, s[start:])
}

func matchClose(s string, i int) int {
	d := 0
	inStr := byte(0)
	for ; i < len(s); i++ {
		c := s[i]
		if inStr != 0 {
			if c == '\\' {
				i++
			} else if c == inStr {
				inStr = 0
			}
			continue
		}
		switch c {
		case '"', '\'', '`':
			inStr = c
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
			if d == 0 {
				return i
			}
		}
	}
	specFail("unbalanced brackets in %q", s)
	return -1
}

func loadSpec(path string, sf *SpecFile) {
	data, err := os.ReadFile(path)
	if err != nil {
		specFail("%v", err)
	}
	var cur *FuncSpec
	lines := strings.Split(string(data), "\n")
	for ln := 0; ln < len(lines); ln++ {
		line := strings.TrimSpace(lines[ln])
		// continuation lines end with a backslash
		for strings.HasSuffix(line, "\\") && ln+1 < len(lines) {
			ln++
			line = strings.TrimSuffix(line, "\\") + " " + strings.TrimSpace(lines[ln])
		}
		if line == "" || strings.HasPrefix(line, "#") || strings.HasPrefix(line, "//") {
			continue
		}
		word, rest, _ := strings.Cut(line, " ")
		rest = strings.TrimSpace(rest)
		switch word {
		case "property":
			sf.Property = rest
		case "package":
			sf.Pkg = rest
		case "include":
			loadSpec(filepath.Join(filepath.Dir(path), rest), sf)
		case "kinds":
			for _, k := range splitNames(rest) {
				sf.Kinds[k] = true
			}
		case "func", "helper", "trusted", "functype":
			m := funcHdrParse(rest)
			cur = &FuncSpec{Name: m[0], Params: splitNames(m[1]), Results: splitNames(m[2]), Trusted: word == "trusted", Property: sf.Property, Pkg: sf.Pkg, FuncType: word == "functype", Opaque: true, Optional: word == "helper"}
			if cur.FuncType {
				cur.Trusted = true
			}
			sf.Funcs[cur.Name] = cur
			sf.Order = append(sf.Order, cur.Name)
		case "requires":
			cur.Requires = append(cur.Requires, parseClause(rest))
		case "assumes":
			cur.Assumes = append(cur.Assumes, parseClause(rest))
		case "ensures":
			cur.Ensures = append(cur.Ensures, parseClause(rest))
		case "let":
			n, e, _ := strings.Cut(rest, "=")
			c := parseClause(strings.TrimSpace(e))
			c.Name = strings.TrimSpace(n)
			cur.Lets = append(cur.Lets, c)
		case "modifies":
			cur.ModSet = true
			cur.Modifies = append(cur.Modifies, splitNames(rest)...)
		case "probe":
			// probe (args) (results) = function value
			lhs, rhs, _ := strings.Cut(rest, "=")
			a, b, _ := strings.Cut(lhs, ")")
			cur.Probes = append(cur.Probes, ProbeSpec{Args: splitNames(strings.Trim(a, " ()")), Results: splitNames(strings.Trim(b, " ()")), Fn: parseClause(strings.TrimSpace(rhs))})
		case "ghostmod":
			cur.GhostMod = append(cur.GhostMod, splitNames(rest)...)
		case "keeps":
			// ghost variables left alone, whatever else the function changes
			var cs []string
			for _, g := range splitNames(rest) {
				cur.Keeps = append(cur.Keeps, g)
				cs = append(cs, g+" == old("+g+")")
			}
			c := parseClause(strings.Join(cs, " && "))
			c.Name = "keeps"
			cur.Ensures = append(cur.Ensures, c)
		case "inline":
			cur.Opaque = false
		case "pure":
			cur.Pure = true
			cur.ModSet = true
		case "loopinv":
			lc := &LoopCand{Pkg: sf.Pkg}
			if cur != nil {
				lc.Func = cur.Name
			}
			if strings.HasPrefix(rest, "[") {
				i := matchClose(rest, 0)
				for _, w := range splitTop(rest[1:i]) {
					n, t, _ := strings.Cut(strings.TrimSpace(w), " ")
					lc.Wild = append(lc.Wild, wild{n, strings.TrimSpace(t)})
				}
				rest = strings.TrimSpace(rest[i+1:])
			}
			c := parseClause(rest)
			lc.Text, lc.Expr = c.Text, c.Expr
			sf.Cands = append(sf.Cands, lc)
		case "anyloop":
			cur = nil
		case "store":
			// store soju.T.f(obj, val): expr
			i := strings.Index(rest, "(")
			j := matchClose(rest, i)
			ns := splitNames(rest[i+1 : j])
			ex := strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(rest[j+1:]), ":"))
			sf.Stores = append(sf.Stores, &StoreSpec{Heap: "F:" + strings.TrimSpace(rest[:i]), Obj: ns[0], Val: ns[1], Req: parseClause(ex), Pkg: sf.Pkg})
			cur = nil
		case "objinv":
			i := strings.Index(rest, "(")
			j := matchClose(rest, i)
			ex := strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(rest[j+1:]), ":"))
			sf.ObjInvs = append(sf.ObjInvs, &ObjInv{Type: strings.TrimSpace(rest[:i]), Obj: strings.TrimSpace(rest[i+1 : j]), Req: parseClause(ex), Pkg: sf.Pkg})
			cur = nil
		case "objmaps":
			sf.ObjInvs[len(sf.ObjInvs)-1].Maps = " " + rest + " "
		case "send":
			i := strings.Index(rest, "(")
			j := matchClose(rest, i)
			ns := splitNames(rest[i+1 : j])
			ex := strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(rest[j+1:]), ":"))
			ss := &StoreSpec{Send: strings.TrimSpace(rest[:i]), Val: ns[0], Req: parseClause(ex), Pkg: sf.Pkg}
			if len(ns) > 1 {
				ss.Chan = ns[1]
			}
			sf.Stores = append(sf.Stores, ss)
			cur = nil
		case "recv":
			i := strings.Index(rest, "(")
			j := matchClose(rest, i)
			ns := splitNames(rest[i+1 : j])
			ex := strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(rest[j+1:]), ":"))
			sf.Stores = append(sf.Stores, &StoreSpec{Recv: strings.TrimSpace(rest[:i]), Val: ns[0], Req: parseClause(ex), Pkg: sf.Pkg})
			cur = nil
		case "ghost":
			i := strings.Index(rest, "(")
			j := matchClose(rest, i)
			g := &ghostFn{Name: strings.TrimSpace(rest[:i]), Args: splitNames(rest[i+1 : j]), Res: strings.TrimSpace(rest[j+1:]), Pkg: sf.Pkg}
			sf.Ghosts[g.Name] = g
			cur = nil
		case "gvar":
			n, t, _ := strings.Cut(rest, " ")
			sf.GVars[n] = strings.TrimSpace(t)
			cur = nil
		case "axiom":
			sf.Axioms = append(sf.Axioms, parseClause(rest))
			cur = nil
		case "global":
			sf.Global = append(sf.Global, parseClause(rest))
			cur = nil
		case "root":
			sf.Roots = append(sf.Roots, splitNames(rest)...)
			cur = nil
		case "sink":
			sf.Sinks = append(sf.Sinks, splitNames(rest)...)
		case "noinline":
			for _, n := range splitNames(rest) {
				sf.NoInline[n] = true
			}
		case "forceinline":
			for _, n := range splitNames(rest) {
				sf.ForceInl[n] = true
			}
		case "safety":
			sf.Safety = append(sf.Safety, splitNames(rest)...)
		case "nonnull":
			sf.NonNull = append(sf.NonNull, splitNames(rest)...)
		case "assumption":
			sf.Assumptions = append(sf.Assumptions, rest)
		case "option":
			k, v, _ := strings.Cut(rest, " ")
			sf.Options[k] = strings.TrimSpace(v)
		default:
			specFail("%s:%d: unknown directive %q", path, ln+1, word)
		}
	}
}

// funcHdrParse splits "name(params) (results)"; the name may itself contain
// parentheses (method receivers).
func funcHdrParse(s string) [3]string {
	s = strings.TrimSpace(s)
	// find the parameter list: the first "(" after the last "." of the name
	start := 0
	if strings.HasPrefix(s, "(") {
		start = matchClose(s, 0) + 1
	}
	i := strings.Index(s[start:], "(")
	if i < 0 {
		specFail("bad function header %q", s)
	}
	i += start
	j := matchClose(s, i)
	out := [3]string{strings.TrimSpace(s[:i]), s[i+1 : j], ""}
	rest := strings.TrimSpace(s[j+1:])
	rest = strings.TrimPrefix(rest, "(")
	rest = strings.TrimSuffix(rest, ")")
	out[2] = rest
	return out
}

// ---- evaluation ----

type Env struct {
	r     *Run
	st    *State
	old   *State
	pc    *Term
	vars  map[string]Val
	oldV  map[string]Val
	pkg   *types.Package
	fr    *frame
	facts []*Term
}

func (e *Env) sub() *Env {
	n := *e
	n.vars = map[string]Val{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	return &n
}

var (
	tInt    = types.Typ[types.Int]
	tBool   = types.Typ[types.Bool]
	tString = types.Typ[types.String]
)

func (e *Env) bool(x ast.Expr) *Term {
	v := e.eval(x)
	if len(v.L) != 1 || v.L[0].sort != BoolS {
		specFail("boolean expected: %s", exprStr(x))
	}
	return v.L[0]
}

func exprStr(x ast.Expr) string { return types.ExprString(x) }

func (e *Env) eval(x ast.Expr) Val {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.Ident:
		return e.ident(n.Name)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			i, _ := strconv.ParseInt(n.Value, 0, 64)
			return Val{T: types.Typ[types.UntypedInt], L: []*Term{IntT(i)}}
		case token.STRING:
			s, _ := strconv.Unquote(n.Value)
			return Val{T: tString, L: []*Term{StrLit(s)}}
		case token.CHAR:
			s, _, _, _ := strconv.UnquoteChar(n.Value[1:], '\'')
			return Val{T: types.Typ[types.UntypedRune], L: []*Term{IntT(int64(s))}}
		}
	case *ast.SelectorExpr:
		return e.selector(n)
	case *ast.StarExpr:
		p := e.eval(n.X)
		return e.r.load(e.st, p, deref(p.T), e.pc)
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return Val{T: tBool, L: []*Term{Not(e.bool(n.X))}}
		case token.SUB:
			return Val{T: tInt, L: []*Term{Sub(IntT(0), e.eval(n.X).one())}}
		}
	case *ast.BinaryExpr:
		return e.binary(n)
	case *ast.IndexExpr:
		return e.index(n)
	case *ast.SliceExpr:
		v := e.eval(n.X)
		if isString(v.T) {
			lo, hi := IntT(0), slen(v.one())
			if n.Low != nil {
				lo = e.eval(n.Low).one()
			}
			if n.High != nil {
				hi = e.eval(n.High).one()
			}
			return Val{T: v.T, L: []*Term{ssub(v.one(), lo, hi)}}
		}
		lo, hi := IntT(0), v.L[2]
		if n.Low != nil {
			lo = e.eval(n.Low).one()
		}
		if n.High != nil {
			hi = e.eval(n.High).one()
		}
		return Val{T: v.T, L: []*Term{v.L[0], Add(v.L[1], lo), Sub(hi, lo), Sub(v.L[3], lo)}}
	case *ast.CallExpr:
		return e.call(n)
	case *ast.CompositeLit:
		t := e.r.eng.parseType(exprStr(n.Type), e.pkg)
		s, ok := under(t).(*types.Struct)
		if !ok {
			specFail("unsupported literal %s", exprStr(x))
		}
		fv := map[string]Val{}
		for i, el := range n.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				fv[kv.Key.(*ast.Ident).Name] = e.eval(kv.Value)
			} else {
				fv[s.Field(i).Name()] = e.eval(el)
			}
		}
		v := Val{T: t}
		for i := 0; i < s.NumFields(); i++ {
			if x, ok := fv[s.Field(i).Name()]; ok {
				v.L = append(v.L, x.L...)
			} else {
				v.L = append(v.L, zeroVal(s.Field(i).Type()).L...)
			}
		}
		return v
	}
	specFail("unsupported spec expression %s", exprStr(x))
	return Val{}
}

func (e *Env) ident(name string) Val {
	switch name {
	case "true":
		return Val{T: tBool, L: []*Term{True}}
	case "false":
		return Val{T: tBool, L: []*Term{False}}
	case "nil":
		return Val{T: types.Typ[types.UntypedNil], L: []*Term{IntT(0)}}
	}
	if v, ok := e.vars[name]; ok {
		return v
	}
	if t, ok := e.r.eng.spec.GVars[name]; ok {
		return e.gvar(name, t)
	}
	if e.pkg != nil {
		if o := e.pkg.Scope().Lookup(name); o != nil {
			return e.object(o)
		}
	}
	specFail("unknown identifier %s", name)
	return Val{}
}

func (e *Env) gvar(name, t string) Val {
	typ := e.r.eng.parseType(t, e.pkg)
	v := Val{T: typ}
	ls := leavesOf(typ)
	for i, l := range ls {
		v.L = append(v.L, e.st.get(hname("G:"+name, i, len(ls)), l.sort))
	}
	return v
}

func (e *Env) object(o types.Object) Val {
	switch ob := o.(type) {
	case *types.Const:
		return constTerm(ob.Val(), ob.Type())
	case *types.Var:
		if sp := e.r.eng.prog.Package(ob.Pkg()); sp != nil {
			if g, ok := sp.Members[ob.Name()].(*ssa.Global); ok {
				if c, ok := e.r.eng.globalConst[g]; ok {
					return e.r.constVal(c)
				}
				if f, ok := e.r.eng.globalFunc[g]; ok {
					o := e.r.funcVal(f)
					o.T = ob.Type()
					return o
				}
				p := e.r.globalVal(g)
				v := e.r.load(e.st, p, ob.Type(), e.pc)
				v.T = ob.Type()
				e.r.globalFacts(g, v, e.st, e.pc)
				return v
			}
		}
	case *types.Func:
		if fn := e.r.eng.prog.FuncValue(ob); fn != nil {
			return e.r.funcVal(fn)
		}
	}
	specFail("cannot evaluate %v", o)
	return Val{}
}

func (e *Env) selector(n *ast.SelectorExpr) Val {
	if id, ok := n.X.(*ast.Ident); ok {
		if _, isVar := e.vars[id.Name]; !isVar {
			if _, isG := e.r.eng.spec.GVars[id.Name]; !isG && (e.pkg == nil || e.pkg.Scope().Lookup(id.Name) == nil) {
				if p := e.r.eng.pkgByName(id.Name); p != nil {
					if o := p.Scope().Lookup(n.Sel.Name); o != nil {
						return e.object(o)
					}
				}
			}
		}
	}
	v := e.eval(n.X)
	return e.field(v, n.Sel.Name)
}

// field selects a (possibly promoted) field.
func (e *Env) field(v Val, name string) Val {
	t := v.T
	if p, ok := under(t).(*types.Pointer); ok {
		st, ok := under(p.Elem()).(*types.Struct)
		if !ok {
			specFail("no field %s in %v", name, t)
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				fa := e.r.fieldAddr(p.Elem(), i, v.one())
				ft := st.Field(i).Type()
				o := e.r.load(e.st, fa, ft, e.pc)
				o.T = ft
				return o
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() && hasField(st.Field(i).Type(), name) {
				fa := e.r.fieldAddr(p.Elem(), i, v.one())
				ft := st.Field(i).Type()
				if isStructObj(ft) {
					return e.field(Val{T: types.NewPointer(ft), L: fa.L}, name)
				}
				o := e.r.load(e.st, fa, ft, e.pc)
				o.T = ft
				return e.field(o, name)
			}
		}
	}
	if st, ok := under(t).(*types.Struct); ok {
		k := 0
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			nl := len(leavesOf(ft))
			if st.Field(i).Name() == name {
				return Val{T: ft, L: v.L[k : k+nl]}
			}
			if st.Field(i).Embedded() && hasField(ft, name) {
				return e.field(Val{T: ft, L: v.L[k : k+nl]}, name)
			}
			k += nl
		}
	}
	specFail("no field %s in %v", name, t)
	return Val{}
}

func hasField(t types.Type, name string) bool {
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := under(t).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name || st.Field(i).Embedded() && hasField(st.Field(i).Type(), name) {
			return true
		}
	}
	return false
}

func (e *Env) binary(n *ast.BinaryExpr) Val {
	switch n.Op {
	case token.LAND:
		return Val{T: tBool, L: []*Term{And(e.bool(n.X), e.bool(n.Y))}}
	case token.LOR:
		return Val{T: tBool, L: []*Term{Or(e.bool(n.X), e.bool(n.Y))}}
	}
	a, b := e.eval(n.X), e.eval(n.Y)
	switch n.Op {
	case token.EQL, token.NEQ:
		var t *Term
		an, bn := isUntypedNil(a.T), isUntypedNil(b.T)
		switch {
		case an && bn:
			t = True
		case bn:
			t = Eq(nilLeaf(a), IntT(0))
		case an:
			t = Eq(nilLeaf(b), IntT(0))
		default:
			t = e.r.eqVals(a, b, a.T, b.T)
			if _, ok := under(a.T).(*types.Slice); ok {
				// spec equality of slices: same header
				var fs []*Term
				for i := range a.L {
					if i < 3 {
						fs = append(fs, Eq(a.L[i], b.L[i]))
					}
				}
				t = And(fs...)
			}
		}
		if n.Op == token.NEQ {
			t = Not(t)
		}
		return Val{T: tBool, L: []*Term{t}}
	}
	x, y := a.one(), b.one()
	bv := func(t *Term) Val { return Val{T: tBool, L: []*Term{t}} }
	if isString(a.T) {
		switch n.Op {
		case token.ADD:
			return Val{T: a.T, L: []*Term{e.r.cat(x, y)}}
		case token.LSS:
			return bv(UF("strlt", BoolS, x, y))
		}
	}
	switch n.Op {
	case token.ADD:
		return Val{T: tInt, L: []*Term{Add(x, y)}}
	case token.SUB:
		return Val{T: tInt, L: []*Term{Sub(x, y)}}
	case token.MUL:
		return Val{T: tInt, L: []*Term{Mul(x, y)}}
	case token.QUO:
		return Val{T: tInt, L: []*Term{mkApp("div", IntS, x, y)}}
	case token.REM:
		return Val{T: tInt, L: []*Term{mkApp("mod", IntS, x, y)}}
	case token.LSS:
		return bv(Lt(x, y))
	case token.LEQ:
		return bv(Le(x, y))
	case token.GTR:
		return bv(Lt(y, x))
	case token.GEQ:
		return bv(Le(y, x))
	}
	specFail("operator %v", n.Op)
	return Val{}
}

func isUntypedNil(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func nilLeaf(v Val) *Term {
	if v.Addr != nil {
		return IntT(1)
	}
	return v.L[0]
}

func (e *Env) index(n *ast.IndexExpr) Val {
	v := e.eval(n.X)
	switch u := under(v.T).(type) {
	case *types.Slice:
		i := e.eval(n.Index).one()
		el := e.r.elemAddr(u.Elem(), v.L[0], Add(v.L[1], i))
		o := e.r.load(e.st, el, u.Elem(), e.pc)
		o.T = u.Elem()
		return o
	case *types.Map:
		k := e.eval(n.Index)
		k.T = u.Key()
		o, _ := e.r.mapGet(e.st, v, k, e.pc)
		o.T = u.Elem()
		return o
	case *types.Basic:
		i := e.eval(n.Index).one()
		return Val{T: types.Typ[types.Byte], L: []*Term{sat(v.one(), i)}}
	case *types.Array:
		i := e.eval(n.Index).one()
		o := Val{T: u.Elem()}
		for _, t := range v.L {
			o.L = append(o.L, Select(t, i))
		}
		return o
	}
	specFail("index of %v", v.T)
	return Val{}
}

// addrOf gives the address of element for struct elems: &s[i].
func (e *Env) call(n *ast.CallExpr) Val {
	name := exprStr(n.Fun)
	bv := func(t *Term) Val { return Val{T: tBool, L: []*Term{t}} }
	arg := func(i int) Val { return e.eval(n.Args[i]) }
	switch name {
	case "imp":
		a := e.bool(n.Args[0])
		if a == False {
			return bv(True)
		}
		se := e.sub()
		se.pc = And(e.pc, a)
		b := se.bool(n.Args[1])
		return bv(Imp(a, b))
	case "iff":
		return bv(Eq(e.bool(n.Args[0]), e.bool(n.Args[1])))
	case "ite":
		c := e.bool(n.Args[0])
		a, b := arg(1), arg(2)
		o := Val{T: a.T}
		for i := range a.L {
			o.L = append(o.L, Ite(c, a.L[i], b.L[i]))
		}
		return o
	case "old":
		se := e.sub()
		if e.old == nil {
			specFail("old() not available")
		}
		se.st = e.old
		for k, v := range e.oldV {
			se.vars[k] = v
		}
		return se.eval(n.Args[0])
	case "len":
		v := arg(0)
		return Val{T: tInt, L: []*Term{e.r.lenOf(v, v.T, e.st, e.pc)}}
	case "cap":
		v := arg(0)
		return Val{T: tInt, L: []*Term{v.L[3]}}
	case "has":
		m, k := arg(0), arg(1)
		k.T = mapType(m.T).Key()
		_, h := e.r.mapGet(e.st, m, k, e.pc)
		return bv(h)
	case "forall", "exists":
		// forall(i, lo, hi, body): lo <= i < hi
		id := n.Args[0].(*ast.Ident).Name
		lo, hi := arg(1).one(), arg(2).one()
		x := BoundVar(id, IntS)
		se := e.sub()
		se.vars[id] = Val{T: tInt, L: []*Term{x}}
		body := se.bool(n.Args[3])
		rng := And(Le(lo, x), Lt(x, hi))
		if name == "forall" {
			return bv(ForallIdx(x, Imp(rng, body)))
		}
		return bv(ExistsIdx(x, And(rng, body)))
	case "all", "some":
		// all(x, T, body)
		id := n.Args[0].(*ast.Ident).Name
		typ := e.r.eng.parseTypeExpr(n.Args[1], e.pkg)
		v := Val{T: typ}
		var bvs []*Term
		for _, l := range leavesOf(typ) {
			x := BoundVar(id, l.sort)
			bvs = append(bvs, x)
			v.L = append(v.L, x)
		}
		se := e.sub()
		se.vars[id] = v
		body := se.bool(n.Args[2])
		if name == "all" {
			return bv(Forall(bvs, body))
		}
		return bv(Exists(bvs, body))
	case "istype":
		v := arg(0)
		typ := e.r.eng.parseTypeExpr(n.Args[1], e.pkg)
		return bv(Eq(v.L[0], IntT(int64(e.r.eng.typeTag(typ)))))
	case "as":
		v := arg(0)
		typ := e.r.eng.parseTypeExpr(n.Args[1], e.pkg)
		return e.r.unbox(v.L[1], typ, e.pc, e.st.now)
	case "nth":
		k := arg(0).one()
		v := arg(1)
		if k.op != "int" || int(k.ival.Int64()) >= len(v.Tup) {
			specFail("bad nth()")
		}
		return v.Tup[k.ival.Int64()]
	case "live":
		return bv(Le(birth(arg(0).L[0]), e.st.now))
	case "fresh":
		v := arg(0)
		if e.old == nil {
			specFail("fresh() needs an old state")
		}
		return bv(And(Lt(e.old.now, birth(v.L[0])), Neq(v.L[0], IntT(0))))
	case "eqslice":
		a, b := arg(0), arg(1)
		return bv(e.eqSlice(a, b, e.st, e.st))
	case "bytes_eq":
		// bytes_eq(slice, string)
		return bv(False)
	case "ref":
		v := arg(0)
		return Val{T: tInt, L: []*Term{v.L[0]}}
	case "off":
		v := arg(0)
		return Val{T: tInt, L: []*Term{v.L[1]}}
	case "str":
		// str(byteslice): string with the same bytes
		v := arg(0)
		if at, ok := under(v.T).(*types.Array); ok {
			return Val{T: tString, L: []*Term{UF("strof", StrS, v.one(), IntT(0), IntT(at.Len()))}}
		}
		if so, ok := opaqueSort(v.T); ok && so == StrS {
			return Val{T: tString, L: v.L}
		}
		o := e.r.convertV(v, v.T, tString, e.st, e.pc)
		return o
	case "visited":
		vs, ok := e.vars["visitedset"]
		if !ok {
			specFail("visited() outside a map loop")
		}
		k := arg(0)
		k.T = mapType(vs.T).Key()
		return bv(Select(vs.L[0], mapKeyTerm(k)))
	case "addr":
		// addr(s, i): pointer to the i-th struct element of a slice
		s := arg(0)
		et := under(s.T).(*types.Slice).Elem()
		return e.r.elemAddr(et, s.L[0], Add(s.L[1], arg(1).one()))
	case "unchanged":
		// unchanged(heap-name patterns...)
		var fs []*Term
		for _, a := range n.Args {
			pat := strings.Trim(exprStr(a), "\"")
			fs = append(fs, e.unchanged(pat))
		}
		return bv(And(fs...))
	}
	if g, ok := e.r.eng.spec.Ghosts[name]; ok {
		var ts []*Term
		for i, a := range n.Args {
			v := e.eval(a)
			if v.T == types.Typ[types.UntypedNil] {
				v = zeroVal(e.r.eng.parseType(g.Args[i], e.pkg))
			}
			ts = append(ts, v.L...)
		}
		rt := e.r.eng.parseType(g.Res, e.pkg)
		o := Val{T: rt}
		ls := leavesOf(rt)
		for i, l := range ls {
			o.L = append(o.L, UF(hname("ghost:"+g.Name, i, len(ls)), l.sort, ts...))
		}
		if !hasBound(o) {
			e.r.assume(True, e.r.typeFacts(o, nil))
		}
		return o
	}
	// conversion?
	if typ := e.r.eng.tryType(n.Fun, e.pkg); typ != nil && len(n.Args) == 1 {
		v := arg(0)
		o := e.r.convertV(v, v.T, typ, e.st, e.pc)
		o.T = typ
		return o
	}
	return e.goCall(n)
}

func (e *Env) unchanged(pat string) *Term {
	re := regexp.MustCompile("^" + strings.ReplaceAll(regexp.QuoteMeta(pat), `\*`, ".*") + "$")
	var fs []*Term
	seen := map[string]bool{}
	chk := func(n string, s Sort) {
		if seen[n] || !re.MatchString(n) {
			return
		}
		seen[n] = true
		fs = append(fs, Eq(e.st.get(n, s), e.old.get(n, s)))
	}
	for n, t := range e.st.h {
		chk(n, t.sort)
	}
	for n, t := range e.old.h {
		chk(n, t.sort)
	}
	return And(fs...)
}

func (e *Env) eqSlice(a, b Val, sa, sb *State) *Term {
	et := under(a.T).(*types.Slice).Elem()
	x := BoundVar("i", IntS)
	ea := e.r.load(sa, e.r.elemAddr(et, a.L[0], Add(a.L[1], x)), et, e.pc)
	eb := e.r.load(sb, e.r.elemAddr(et, b.L[0], Add(b.L[1], x)), et, e.pc)
	var fs []*Term
	for i := range ea.L {
		fs = append(fs, Eq(ea.L[i], eb.L[i]))
	}
	return And(Eq(a.L[2], b.L[2]), ForallIdx(x, Imp(And(Le(IntT(0), x), Lt(x, a.L[2])), And(fs...))))
}

// goCall evaluates a call to a real (side-effect free) Go function inside a
// specification by symbolic execution on a copy of the state.
func (e *Env) goCall(n *ast.CallExpr) Val {
	var fn *ssa.Function
	var args []Val
	switch f := n.Fun.(type) {
	case *ast.Ident:
		if v, ok := e.vars[f.Name]; ok {
			return e.callFuncVal(v, n)
		}
		if e.pkg != nil {
			if o, ok := e.pkg.Scope().Lookup(f.Name).(*types.Func); ok {
				fn = e.r.eng.prog.FuncValue(o)
			}
		}
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if _, isVar := e.vars[id.Name]; !isVar {
				if p := e.r.eng.pkgByName(id.Name); p != nil {
					if o, ok := p.Scope().Lookup(f.Sel.Name).(*types.Func); ok {
						fn = e.r.eng.prog.FuncValue(o)
					}
				}
			}
		}
		if fn == nil {
			recv := e.eval(f.X)
			if m := e.r.eng.lookupMethod(recv.T, f.Sel.Name); m != nil {
				fn = m
				args = append(args, recv)
			} else {
				// field of function type
				return e.callFuncVal(e.field(recv, f.Sel.Name), n)
			}
		}
	}
	if fn == nil {
		specFail("unknown function %s", exprStr(n.Fun))
	}
	for _, a := range n.Args {
		args = append(args, e.eval(a))
	}
	for i, p := range fn.Params {
		if isUntypedNil(args[i].T) {
			args[i] = zeroVal(p.Type())
		}
		args[i].T = p.Type()
	}
	r := e.r
	if spec := r.cfg.Contracts[specName(fn)]; spec != nil && spec.Pure {
		r.quiet++
		defer func() { r.quiet-- }()
		fr := e.fr
		if fr == nil {
			fr = r.rootFrame
		}
		v, _, _ := r.applyContract(&callCtx{r: r, fr: fr, args: args, st: e.st.clone(), pc: e.pc, fn: fn, res: sigRes(fn.Signature), name: specName(fn)}, spec, specName(fn))
		return v
	}
	for _, a := range args {
		if hasBound(a) {
			specFail("call of %s under a quantifier", fn.Name())
		}
	}
	r.quiet++
	defer func() { r.quiet-- }()
	fr := e.fr
	if fr == nil {
		fr = r.rootFrame
	}
	if fr == nil {
		fr = &frame{fn: fn, chain: ""}
	}
	name := shortName(fn.String())
	cc := &callCtx{r: r, fr: fr, args: args, st: e.st.clone(), pc: e.pc, fn: fn, res: sigRes(fn.Signature), name: name}
	if m, ok := externModels[name]; ok {
		v, _, _ := m(cc)
		v.T = cc.res
		return v
	}
	if len(fn.Blocks) == 0 {
		specFail("no body for %s", name)
	}
	v, _, _ := r.execFunc(fn, args, nil, e.st.clone(), e.pc, "<-spec")
	v.T = cc.res
	return v
}

func (e *Env) callFuncVal(fv Val, n *ast.CallExpr) Val {
	ft := typeKey(fv.T)
	sig, ok := under(fv.T).(*types.Signature)
	if !ok {
		specFail("call of non-function %s", exprStr(n.Fun))
	}
	if cl := e.r.closures[fv.L[0]]; cl != nil && cl.fn.Signature.Recv() == nil && len(cl.binds) == 0 {
		var args []Val
		bound := false
		for _, a := range n.Args {
			v := e.eval(a)
			bound = bound || hasBound(v)
			args = append(args, v)
		}
		if !bound {
			e.r.quiet++
			defer func() { e.r.quiet-- }()
			v, _, _ := e.r.execFunc(cl.fn, args, nil, e.st.clone(), e.pc, "<-spec")
			return v
		}
	}
	if !e.r.eng.pureFuncTypes[ft] {
		specFail("function type %s is not declared pure", ft)
	}
	ts := []*Term{fv.L[0]}
	for _, a := range n.Args {
		ts = append(ts, e.eval(a).L...)
	}
	rt := sigRes(sig)
	o := Val{T: rt}
	for i, l := range leavesOf(rt) {
		o.L = append(o.L, UF(fmt.Sprintf("apply%d:%s", i, ft), l.sort, ts...))
	}
	return o
}

func sigRes(s *types.Signature) types.Type {
	if s.Results().Len() == 1 {
		return s.Results().At(0).Type()
	}
	return s.Results()
}

// ---- contracts at call sites ----

// funcTypeSpec finds the contract of function values of a type: by the name of
// the type, or by a struct field "pkg.T.f" whose signature it is.
func (r *Run) funcTypeSpec(ft string, sig *types.Signature) *FuncSpec {
	if s := r.cfg.Contracts[ft]; s != nil && s.FuncType {
		return s
	}
	return r.eng.implSpec(sig)
}

func (e *Engine) implSpec(sig *types.Signature) *FuncSpec {
	for _, n := range sortedKeys(e.spec.Funcs) {
		s := e.spec.Funcs[n]
		if !s.FuncType || strings.Count(n, ".") < 2 {
			continue
		}
		i := strings.LastIndexByte(n, '.')
		t := e.namedType(n[:i])
		if t == nil {
			continue
		}
		if st, ok := under(t).(*types.Struct); ok {
			for k := 0; k < st.NumFields(); k++ {
				if st.Field(k).Name() == n[i+1:] {
					if fs, ok := under(st.Field(k).Type()).(*types.Signature); ok && types.Identical(types.NewSignatureType(nil, nil, nil, fs.Params(), fs.Results(), fs.Variadic()), types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) {
						return s
					}
				}
			}
		}
	}
	return nil
}

// implements returns the function-type contract a function falls under: it is
// used as a value and has the signature of that type.
func (e *Engine) implements(fn *ssa.Function) *FuncSpec {
	if !e.taken[fn] || fn.Signature.Recv() != nil {
		return nil
	}
	return e.implSpec(fn.Signature)
}

func (r *Run) specEnv(spec *FuncSpec, args []Val, st, old *State, pc *Term) *Env {
	e := &Env{r: r, st: st, old: old, pc: pc, vars: map[string]Val{}, pkg: r.eng.pkgByName(spec.Pkg)}
	for i, n := range spec.Params {
		if i < len(args) {
			e.vars[n] = args[i]
		}
	}
	return e
}

func (r *Run) bindResults(e *Env, spec *FuncSpec, v Val) {
	if len(spec.Results) == 1 && len(v.Tup) == 0 {
		e.vars[spec.Results[0]] = v
		return
	}
	for i, n := range spec.Results {
		if i < len(v.Tup) {
			e.vars[n] = v.Tup[i]
		}
	}
}

// keepsArgs: by its frame the function cannot have stored its arguments
// anywhere, nor can it return them.
func (s *FuncSpec) keepsArgs(res types.Type) bool {
	if !s.ModSet {
		return false
	}
	for _, m := range s.Modifies {
		if strings.Contains(m, ":") || strings.HasPrefix(m, "entries(") || strings.HasPrefix(m, "elems(") {
			return false
		}
	}
	var ts []types.Type
	if tup, ok := res.(*types.Tuple); ok {
		for i := 0; i < tup.Len(); i++ {
			ts = append(ts, tup.At(i).Type())
		}
	} else if res != nil {
		ts = append(ts, res)
	}
	for _, t := range ts {
		for _, l := range leavesOf(t) {
			if l.kind == lkRef || l.kind == lkSliceBase || l.kind == lkPayload {
				return false
			}
		}
	}
	return true
}

func (r *Run) applyContract(cc *callCtx, spec *FuncSpec, name string) (Val, *State, *Term) {
	if spec.Trusted {
		r.assumedFns[name+" (assumed contract)"] = true
	}
	orig := *cc
	cc.args = append([]Val{}, cc.args...)
	for i := range cc.args {
		cc.args[i] = r.firstClass(cc.args[i], cc.st, cc.pc)
	}
	if !spec.keepsArgs(cc.res) {
		r.leak(cc.args...)
	}
	pre := cc.st
	env := r.specEnv(spec, cc.args, pre, nil, cc.pc)
	env.fr = cc.fr
	if cc.self.T != nil {
		env.vars["self"] = cc.self
	}
	for _, l := range spec.Lets {
		env.vars[l.Name] = env.eval(l.Expr)
	}
	reqPC := cc.pc
	for _, p := range spec.Probes {
		reqPC = And(reqPC, r.probe(cc, env, p, name))
	}
	for _, q := range spec.Requires {
		txt := q.Text
		if q.Name != "" {
			txt = q.Name
		}
		r.check("requires", cc.fr, cc.pos, reqPC, env.bool(q.Expr), "precondition of "+name+": "+txt)
	}
	st := pre.clone()
	if (cc.fn != nil && r.eng.hasBody(cc.fn)) || (cc.fn == nil && !spec.Pure) {
		r.objInvCall(cc, st, name)
	}
	if spec.ModSet {
		r.aroundHavoc(st, func() { r.havocNames(st, env, spec.Modifies, cc.pc) })
	} else if cc.fn != nil && r.eng.hasBody(cc.fn) {
		r.havocMods(st, r.eng.mods(cc.fn))
	} else if !spec.Pure {
		sub := *cc
		sub.st = st
		if cc.fn == nil && cc.c != nil && cc.c.IsInvoke() {
			mods, known := r.eng.modsByMethod(cc.c.Value.Type(), cc.c.Method)
			r.havocMods(st, mods)
			if !known {
				r.externHavoc(&sub, name)
			}
		} else {
			r.externHavoc(&sub, name)
		}
	}
	r.havocNames(st, env, spec.GhostMod, cc.pc)
	for n := range st.h {
		for _, g := range spec.Keeps {
			if n == "G:"+g || strings.HasPrefix(n, "G:"+g+"#") {
				st.h[n] = pre.get(n, st.h[n].sort)
			}
		}
	}
	var v Val
	if spec.Pure {
		// a pure function is an uninterpreted function of its arguments
		var ts []*Term
		for _, a := range cc.args {
			ts = append(ts, a.L...)
		}
		mk := func(t types.Type, k int) Val {
			o := Val{T: t}
			for i, l := range leavesOf(t) {
				o.L = append(o.L, UF(fmt.Sprintf("pure%d.%d:%s", k, i, name), l.sort, ts...))
			}
			return o
		}
		if tup, ok := cc.res.(*types.Tuple); ok {
			v.T = tup
			for k := 0; k < tup.Len(); k++ {
				v.Tup = append(v.Tup, mk(tup.At(k).Type(), k))
			}
		} else {
			v = mk(cc.res, 0)
		}
		r.assume(cc.pc, r.typeFacts(v, st.now))
	} else {
		v = r.freshVal("ret:"+name, cc.res, cc.pc, r.bump(st))
	}
	post := r.specEnv(spec, cc.args, st, pre, cc.pc)
	post.fr = cc.fr
	post.oldV = map[string]Val{}
	for _, l := range spec.Lets {
		post.vars[l.Name] = env.vars[l.Name]
	}
	r.bindResults(post, spec, v)
	for _, q := range spec.Ensures {
		r.assume(cc.pc, post.bool(q.Expr))
	}
	if !spec.Pure && spec.Trusted {
		r.externFacts(cc, name, v)
	}
	r.copyOut(&orig, cc.args, st, cc.pc)
	return v, st, cc.pc
}

// probe runs a function value passed to a call on arbitrary arguments, in the
// state of the call (and discards the resulting state).
func (r *Run) probe(cc *callCtx, env *Env, p ProbeSpec, name string) *Term {
	fv := env.eval(p.Fn.Expr)
	sig, ok := under(fv.T).(*types.Signature)
	if !ok {
		specFail("probe of a non-function %s", p.Fn.Text)
	}
	sub := *cc
	sub.st = cc.st.clone()
	sub.pc = And(cc.pc, Neq(fv.one(), IntT(0)))
	sub.res = sigRes(sig)
	sub.fn = nil
	sub.args = nil
	for i := 0; i < sig.Params().Len(); i++ {
		a := r.freshVal(fmt.Sprintf("probe%d", i), sig.Params().At(i).Type(), cc.pc, cc.st.now)
		a.T = sig.Params().At(i).Type()
		if sl, ok := under(a.T).(*types.Slice); ok && len(a.L) == 4 {
			// the elements exist already, too
			if _, ok := under(sl.Elem()).(*types.Slice); ok {
				k := BoundVar("k", IntS)
				x := r.load(sub.st, r.elemAddr(sl.Elem(), a.L[0], k), sl.Elem(), True)
				r.assume(cc.pc, Forall([]*Term{k}, Le(birth(x.L[0]), cc.st.now), []*Term{x.L[0]}))
			}
		}
		sub.args = append(sub.args, a)
		if i < len(p.Args) {
			env.vars[p.Args[i]] = a
		}
	}
	var v Val
	done := sub.pc // where the probe returns
	if r.knownFunc(fv.one()) && sub.pc != False {
		v, _, done = r.callValue(&sub, fv)
	} else {
		v = r.freshVal("proberes", sub.res, cc.pc, cc.st.now)
	}
	if tup, ok := sub.res.(*types.Tuple); ok {
		for i := 0; i < tup.Len() && i < len(p.Results); i++ {
			x := v.Tup[i]
			x.T = tup.At(i).Type()
			env.vars[p.Results[i]] = x
		}
	} else if len(p.Results) > 0 {
		v.T = sub.res
		env.vars[p.Results[0]] = v
	}
	return Or(done, Eq(fv.one(), IntT(0)))
}

// knownFunc tells whether every function a value may denote is known.
func (r *Run) knownFunc(t *Term) bool {
	switch {
	case t.op == "ite":
		return r.knownFunc(t.args[1]) && r.knownFunc(t.args[2])
	case t.isInt() && t.ival.Sign() == 0:
		return true
	}
	return r.closures[t] != nil
}

// havocNames interprets a modifies clause: "F:T.f" / "E:T" / "C:T" / "M:T"
// heap names (with * wildcard), ghost variables, or lvalues like x.f.
func (r *Run) havocNames(st *State, env *Env, mods []string, pc *Term) {
	for _, m := range mods {
		if m == "nothing" {
			continue
		}
		if strings.Contains(m, ":") {
			re := regexp.MustCompile("^" + strings.ReplaceAll(regexp.QuoteMeta(m), `\*`, ".*") + "(#\\d+|\\.dom|\\.len|\\.val.*)?$")
			for n, s := range r.eng.allHeaps() {
				if re.MatchString(n) {
					st.h[n] = r.havocHeap("mod:", n, s, st.get(n, s))
				}
			}
			continue
		}
		if t, ok := r.eng.spec.GVars[m]; ok {
			typ := r.eng.parseType(t, env.pkg)
			ls := leavesOf(typ)
			for i, l := range ls {
				st.h[hname("G:"+m, i, len(ls))] = Fresh("ghost:"+m, l.sort)
			}
			continue
		}
		x, err := parser.ParseExpr(m)
		if err != nil {
			specFail("bad modifies %q", m)
		}
		switch n := x.(type) {
		case *ast.SelectorExpr:
			v := env.eval(n.X)
			p, ok := under(v.T).(*types.Pointer)
			if !ok {
				specFail("modifies %s: not a pointer", m)
			}
			s := under(p.Elem()).(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == n.Sel.Name {
					ft := s.Field(i).Type()
					r.store(st, r.fieldAddr(p.Elem(), i, v.one()), ft, r.freshVal("mod", ft, pc, nil))
				}
			}
		case *ast.CallExpr:
			// elems(slice), entries(map)
			v := env.eval(n.Args[0])
			switch exprStr(n.Fun) {
			case "elems":
				r.havocArg(st, v, pc, 0, false)
			case "entries":
				mt := mapType(v.T)
				dom, domS, ln, vals, valS := mapHeaps(mt)
				st.h[dom] = StoreT(st.get(dom, domS), v.one(), Fresh("mod:"+dom, arrElem(domS)))
				st.h[ln] = StoreT(st.get(ln, ArrS(IntS, IntS)), v.one(), Fresh("mod:"+ln, IntS))
				for i := range vals {
					st.h[vals[i]] = StoreT(st.get(vals[i], valS[i]), v.one(), Fresh("mod:"+vals[i], arrElem(valS[i])))
				}
			}
		default:
			specFail("bad modifies %q", m)
		}
	}
}

// ---- store and send hooks ----

func (r *Run) onStore(fr *frame, x *ssa.Store, p Val, t types.Type, v Val, st *State, pc *Term) {
	if len(r.cfg.OnStore) == 0 {
		return
	}
	if p.Addr != nil {
		r.storeHook(fr, x.Pos(), p.Addr.heap, p.Addr.idx, v, st, pc)
		return
	}
	// escaping scalar field
	ref := p.one()
	if strings.HasPrefix(ref.op, "uf:addr:") {
		r.storeHook(fr, x.Pos(), "F:"+ref.op[len("uf:addr:"):], ref.args[0], v, st, pc)
		return
	}
	if isStructObj(t) {
		r.storeHookStruct(fr, x.Pos(), t, ref, v, st, pc)
	}
}

func (r *Run) storeHookStruct(fr *frame, pos token.Pos, t types.Type, ref *Term, v Val, st *State, pc *Term) {
	s := under(t).(*types.Struct)
	k := 0
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		n := len(leavesOf(ft))
		fv := Val{T: ft, L: v.L[k : k+n]}
		k += n
		if isStructObj(ft) {
			r.storeHookStruct(fr, pos, ft, subRef(t, s.Field(i).Name(), ref), fv, st, pc)
		} else {
			r.storeHook(fr, pos, "F:"+typeKey(t)+"."+s.Field(i).Name(), ref, fv, st, pc)
		}
	}
}

func (r *Run) storeHook(fr *frame, pos token.Pos, heap string, obj *Term, v Val, st *State, pc *Term) {
	for _, s := range r.cfg.OnStore {
		if s.Heap != heap {
			continue
		}
		e := &Env{r: r, st: st, old: r.oldSt, pc: pc, vars: map[string]Val{}, pkg: r.eng.pkgByName(s.Pkg), fr: fr}
		e.vars[s.Val] = v
		tn := strings.TrimPrefix(heap, "F:")
		tn = tn[:strings.LastIndexByte(tn, '.')]
		if t := r.eng.namedType(tn); t != nil {
			e.vars[s.Obj] = Val{T: types.NewPointer(t), L: []*Term{obj}}
		} else {
			e.vars[s.Obj] = Val{T: tInt, L: []*Term{obj}}
		}
		r.check("store", fr, pos, pc, e.bool(s.Req.Expr), "write to "+strings.TrimPrefix(heap, "F:")+": "+s.Req.Text)
	}
}

func (r *Run) onSend(fr *frame, ch ssa.Value, x ssa.Value, pos token.Pos, st *State, pc *Term) {
	for _, s := range r.cfg.OnStore {
		if s.Send == "" {
			continue
		}
		v := r.val(fr, x)
		t := x.Type()
		typ := r.eng.namedType(s.Send)
		if typ == nil {
			continue
		}
		cond := pc
		var bv Val
		if it, ok := under(t).(*types.Interface); ok {
			if !types.Implements(typ, it) {
				continue
			}
			is := Eq(v.L[0], IntT(int64(r.eng.typeTag(typ))))
			cond = And(pc, is)
			if cond == False {
				continue
			}
			bv = r.unbox(v.L[1], typ, cond, st.now)
		} else if types.Identical(t, typ) {
			bv = v
		} else {
			continue
		}
		bv.T = typ
		e := &Env{r: r, st: st, old: r.oldSt, pc: cond, vars: map[string]Val{s.Val: bv}, pkg: r.eng.pkgByName(s.Pkg), fr: fr}
		if s.Chan != "" {
			e.vars[s.Chan] = r.val(fr, ch)
		}
		r.check("store", fr, pos, cond, e.bool(s.Req.Expr), "send of "+s.Send+": "+s.Req.Text)
	}
}

// onRecv assumes what every send of a type has established.
func (r *Run) onRecv(fr *frame, t types.Type, v Val, st *State, pc *Term) {
	for _, s := range r.cfg.OnStore {
		if s.Recv == "" || types.IsInterface(t) {
			continue
		}
		if typ := r.eng.namedType(s.Recv); typ == nil || !types.Identical(typ, t) {
			continue
		}
		e := &Env{r: r, st: st, pc: pc, vars: map[string]Val{s.Val: v}, pkg: r.eng.pkgByName(s.Pkg), fr: fr}
		r.assume(pc, e.bool(s.Req.Expr))
	}
}

// ---- loop candidates from specifications ----

// nameMatch reports whether a binding pairs wildcards with variables of the
// same name in the source.
func nameMatch(b map[string]ssa.Value, lc *LoopCand) bool {
	for _, w := range lc.Wild {
		p, ok := b[w.Name].(*ssa.Phi)
		if !ok || p.Comment != w.Name {
			return false
		}
	}
	return len(lc.Wild) > 0
}

func (r *Run) instCand(fr *frame, l *loop, key string, lc *LoopCand, phis []*ssa.Phi, init map[*ssa.Phi]Val, stPre *State) []*loopCand {
	pkg := r.eng.pkgByName(lc.Pkg)
	// bindings of wildcards to phis and loop-invariant values of the right type
	var scope []ssa.Value
	inScope := map[ssa.Value]bool{}
	ranged := map[ssa.Value]bool{}
	for _, p := range phis {
		scope = append(scope, p)
		inScope[p] = true
	}
	if len(lc.Wild) > 0 {
		for _, b := range fr.li.rpo {
			if !l.blocks[b] {
				continue
			}
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					v := *op
					if v == nil || inScope[v] {
						continue
					}
					switch v.(type) {
					case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
						continue
					}
					if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
						continue
					}
					if rg, ok := v.(*ssa.Range); ok && !inScope[rg.X] { // the map being ranged over
						if rv, ok := fr.regs[rg.X]; ok && rv.Addr == nil {
							inScope[rg.X] = true
							ranged[rg.X] = true
							scope = append(scope, rg.X)
						}
						continue
					}
					if rv, ok := fr.regs[v]; ok && rv.Addr == nil && rv.Iter == nil && len(rv.Tup) == 0 {
						inScope[v] = true
						scope = append(scope, v)
					}
				}
			}
		}
	}
	type binding = map[string]ssa.Value
	bs := []binding{{}}
	for _, w := range lc.Wild {
		var typ types.Type
		if strings.HasPrefix(w.Type, "=") {
			x, err := parser.ParseExpr(w.Type[1:])
			if err != nil {
				specFail("bad type expression %s", w.Type)
			}
			e := &Env{r: r, st: stPre, old: r.oldSt, pc: True, vars: map[string]Val{}, pkg: pkg, fr: fr}
			r.bindParams(e, fr)
			typ = e.eval(x).T
		} else {
			typ = r.eng.parseType(w.Type, pkg)
		}
		var nb []binding
		for _, b := range bs {
			for _, p := range scope {
				if !types.Identical(p.Type(), typ) || (ranged[p] && strings.HasPrefix(w.Name, "new")) {
					continue // a variable named new... never stands for the map being ranged over
				}
				dup := false
				for _, q := range b {
					if q == p {
						dup = true
					}
				}
				if dup {
					continue
				}
				m := binding{}
				for k, v := range b {
					m[k] = v
				}
				m[w.Name] = p
				nb = append(nb, m)
			}
		}
		bs = nb
	}
	if len(bs) > 40 {
		bs = bs[:40]
	}
	exact := false
	for _, b := range bs {
		if nameMatch(b, lc) {
			exact = true
		}
	}
	var out []*loopCand
	for _, b := range bs {
		b := b
		var names []string
		for _, w := range lc.Wild {
			names = append(names, w.Name+"="+describe(b[w.Name])+"."+b[w.Name].Name())
		}
		text := lc.Text
		if len(names) > 0 {
			text += " {" + strings.Join(names, ",") + "}"
		}
		// bindings that do not follow the source names get less solver time
		// when there is one that does
		auto := exact && !nameMatch(b, lc)
		out = append(out, &loopCand{key: key + "|" + text, text: text, auto: auto, eval: func(v *loopView) *Term {
			e := &Env{r: r, st: v.st, old: r.oldSt, pc: v.pc, vars: map[string]Val{}, pkg: pkg, fr: fr}
			r.bindParams(e, fr)
			for p, pv := range v.phis {
				if p.Comment != "" {
					if _, ok := e.vars[p.Comment]; !ok && len(lc.Wild) == 0 {
						pv.T = p.Type()
						e.vars[p.Comment] = pv
					}
				}
			}
			for n, x := range b {
				p, ok := x.(*ssa.Phi)
				if !ok || p.Block() != l.header {
					pv := fr.regs[x]
					pv.T = x.Type()
					e.vars[n] = pv
					e.vars[n+"_0"] = pv
					continue
				}
				pv := v.phis[p]
				pv.T = p.Type()
				e.vars[n] = pv
				iv := init[p]
				iv.T = p.Type()
				e.vars[n+"_0"] = iv
			}
			e.vars["iter"] = Val{T: tInt, L: []*Term{v.iter}}
			// the map iterator advanced by this loop, if any
			if it := r.loopIter(fr, l); it != nil && !it.isStr {
				e.vars["visitedset"] = Val{T: types.NewMap(it.mt.Key(), tBool), L: []*Term{v.st.get(it.name, ArrS(keySort(it.mt.Key()), BoolS))}}
			}
			return e.bool(lc.Expr)
		}})
	}
	return out
}

// bindParams binds the contract names of the root's and the current
// function's parameters (entry values).
func (r *Run) bindParams(e *Env, fr *frame) {
	if spec := r.eng.spec.Funcs[specName(r.root)]; spec != nil {
		for i, n := range spec.Params {
			if i < len(r.rootArgs) {
				e.vars[n] = r.rootArgs[i]
			}
		}
		for _, lt := range spec.Lets {
			e.vars[lt.Name] = r.rootLet(spec, lt)
		}
	}
	if spec := r.eng.spec.Funcs[specName(fr.fn)]; spec != nil && fr.fn != r.root {
		for i, n := range spec.Params {
			if i < len(fr.args) {
				e.vars[n] = fr.args[i]
			}
		}
	}
}

func (r *Run) loopIter(fr *frame, l *loop) *iterState {
	for _, ins := range l.header.Instrs {
		if nx, ok := ins.(*ssa.Next); ok {
			if v, ok := fr.regs[nx.Iter]; ok {
				return v.Iter
			}
		}
	}
	return nil
}

func (r *Run) rootLet(spec *FuncSpec, lt Clause) Val {
	if v, ok := r.ghosts["let:"+lt.Name]; ok {
		return v
	}
	specFail("let %s not available", lt.Name)
	return Val{}
}
