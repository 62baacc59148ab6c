package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// frameObls emits the obligations of a modifies clause at one exit: every
// location of an object that existed on entry and is not listed is unchanged.
func (d *Driver) frameObls(r *Run, fn *ssa.Function, spec *FuncSpec, env *Env, st *State, pc *Term, pos string) {
	allowedAll := func(n string) bool { return false }
	allowed := map[string][]*Term{} // heap -> indices
	for _, m := range spec.Modifies {
		if m == "nothing" {
			continue
		}
		if strings.Contains(m, ":") {
			re := regexp.MustCompile("^" + strings.ReplaceAll(regexp.QuoteMeta(m), `\*`, ".*") + "(#\\d+|\\.dom|\\.len|\\.val.*)?$")
			prev := allowedAll
			allowedAll = func(n string) bool { return prev(n) || re.MatchString(n) }
			continue
		}
		if _, ok := d.sf.GVars[m]; ok {
			prev, g := allowedAll, "G:"+m
			allowedAll = func(n string) bool { return prev(n) || n == g || strings.HasPrefix(n, g+"#") }
			continue
		}
		x, err := parser.ParseExpr(m)
		if err != nil {
			specFail("bad modifies %q", m)
		}
		switch n := x.(type) {
		case *ast.SelectorExpr:
			v := env.eval(n.X)
			pt, ok := under(v.T).(*types.Pointer)
			if !ok {
				specFail("modifies %s: not a pointer", m)
			}
			s := under(pt.Elem()).(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == n.Sel.Name {
					// compare the heaps before and after a havoc of the field
					tmp := &State{h: map[string]*Term{}, now: st.now}
					r.store(tmp, r.fieldAddr(pt.Elem(), i, v.one()), s.Field(i).Type(), r.freshVal("mod", s.Field(i).Type(), True, nil))
					for hn, t := range tmp.h {
						for t.op == "store" {
							allowed[hn] = append(allowed[hn], t.args[1])
							t = t.args[0]
						}
					}
				}
			}
		case *ast.CallExpr:
			v := env.eval(n.Args[0])
			switch exprStr(n.Fun) {
			case "elems":
				ref := v.L[0]
				prev := allowed
				_ = prev
				for _, hn := range sortedKeys(st.h) {
					if strings.HasPrefix(hn, "E:") {
						allowed[hn] = append(allowed[hn], ref)
					}
				}
			case "entries":
				dom, _, ln, vals, _ := mapHeaps(mapType(v.T))
				for _, hn := range append([]string{dom, ln}, vals...) {
					allowed[hn] = append(allowed[hn], v.one())
				}
			}
		}
	}
	var names []string
	for n := range st.h {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t := st.h[n]
		if strings.HasPrefix(n, "IT:") || allowedAll(n) || ghostAllowed(spec, n) {
			continue
		}
		pre := r.rootSt.get(n, t.sort)
		if t == pre {
			continue
		}
		var goal *Term
		if strings.HasPrefix(n, "G:") || !strings.HasPrefix(string(t.sort), "(Array") {
			goal = Eq(t, pre)
		} else {
			bv := BoundVar("o", IntS)
			cs := []*Term{Le(birth(bv), r.rootSt.now)}
			for _, a := range allowed[n] {
				cs = append(cs, Neq(bv, a))
			}
			goal = Forall([]*Term{bv}, Imp(And(cs...), Eq(Select(t, bv), Select(pre, bv))))
		}
		r.obls = append(r.obls, &Obl{
			Name: fmt.Sprintf("%s/frame@%s[%s]", shortName(fn.String()), pos, n),
			Kind: "frame", Prop: d.prop, Fn: shortName(fn.String()), Pos: pos, PC: pc, Goal: goal,
			Assume: r.assumes[:len(r.assumes):len(r.assumes)], Text: n,
		})
	}
}

func ghostAllowed(spec *FuncSpec, n string) bool {
	for _, g := range spec.GhostMod {
		if n == "G:"+g || strings.HasPrefix(n, "G:"+g+"#") {
			return true
		}
	}
	return false
}
