package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Terms are hash-consed SMT terms.  A Term is either an interpreted or
// uninterpreted application, a constant, a literal, or a quantifier.

type Sort string

const (
	BoolS Sort = "Bool"
	IntS  Sort = "Int"
	StrS  Sort = "Str"
	FltS  Sort = "Flt"
	OpqS  Sort = "Opq"
)

func ArrS(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// arrElem returns the value sort of an array sort.
func arrElem(s Sort) Sort {
	str := strings.TrimPrefix(string(s), "(Array ")
	str = strings.TrimSuffix(str, ")")
	// skip the key sort
	depth := 0
	for i, c := range str {
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
		} else if c == ' ' && depth == 0 {
			return Sort(str[i+1:])
		}
	}
	panic("not an array sort: " + string(s))
}

type Term struct {
	id    int
	op    string
	args  []*Term
	sort  Sort
	ival  *big.Int // op == "int"
	sval  string   // op == "str"
	fresh bool     // allocation constant
	bound bool     // is or contains a bound variable
	qvars []*Term  // quantifier
	pats  [][]*Term
	mark  int
}

type TermTable struct {
	tab  map[string]*Term
	n    int
	decl map[string]string // declared function symbols -> SMT declaration
	cnt  map[string]int
}

var TT = newTermTable()

func newTermTable() *TermTable {
	return &TermTable{tab: map[string]*Term{}, decl: map[string]string{}, cnt: map[string]int{}}
}

func (tt *TermTable) intern(key string, mk func() *Term) *Term {
	if t, ok := tt.tab[key]; ok {
		return t
	}
	t := mk()
	tt.n++
	t.id = tt.n
	for _, a := range t.args {
		if a.bound {
			t.bound = true
		}
	}
	tt.tab[key] = t
	return t
}

func mkApp(op string, sort Sort, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(string(sort))
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	return TT.intern(sb.String(), func() *Term {
		return &Term{op: op, args: append([]*Term(nil), args...), sort: sort}
	})
}

func smtSym(name string) string {
	return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(name) + "|"
}

// UF applies an uninterpreted function, declaring it if needed.
func UF(name string, sort Sort, args ...*Term) *Term {
	if _, ok := TT.decl[name]; !ok {
		var as []string
		for _, a := range args {
			as = append(as, string(a.sort))
		}
		TT.decl[name] = fmt.Sprintf("(declare-fun %s (%s) %s)", smtSym(name), strings.Join(as, " "), sort)
	}
	return mkApp("uf:"+name, sort, args...)
}

func Const(name string, sort Sort) *Term { return UF(name, sort) }

func Fresh(prefix string, sort Sort) *Term {
	TT.cnt[prefix]++
	return UF(fmt.Sprintf("%s!%d", prefix, TT.cnt[prefix]), sort)
}

func FreshRef(prefix string) *Term {
	t := Fresh("new:"+prefix, IntS)
	t.fresh = true
	return t
}

func BoundVar(prefix string, sort Sort) *Term {
	TT.cnt["?"+prefix]++
	name := fmt.Sprintf("?%s%d", prefix, TT.cnt["?"+prefix])
	t := mkApp("bv:"+name, sort)
	t.bound = true
	return t
}

var (
	True  = mkApp("true", BoolS)
	False = mkApp("false", BoolS)
)

func IntT(v int64) *Term { return BigT(big.NewInt(v)) }
func BigT(v *big.Int) *Term {
	return TT.intern("int|"+v.String(), func() *Term { return &Term{op: "int", sort: IntS, ival: new(big.Int).Set(v)} })
}

// StrLit is a Go string constant.
func StrLit(s string) *Term {
	return TT.intern("str|"+s, func() *Term { return &Term{op: "str", sort: StrS, sval: s} })
}

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}

func (t *Term) isInt() bool { return t.op == "int" }
func (t *Term) isLit() bool { return t.op == "int" || t.op == "str" || t == True || t == False }

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == "not":
		return a.args[0]
	}
	return mkApp("not", BoolS, a)
}

func And(as ...*Term) *Term {
	var l []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == True || seen[a] {
			return true
		}
		if a == False || seen[Not(a)] {
			return false
		}
		if a.op == "and" && len(l)+len(a.args) < 24 {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		l = append(l, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	if len(l) == 0 {
		return True
	}
	if len(l) == 1 {
		return l[0]
	}
	return mkApp("and", BoolS, l...)
}

func conj(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

func Or(as ...*Term) *Term {
	var l []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		xs := []*Term{a}
		if a.op == "or" && len(a.args) < 24 {
			xs = a.args
		}
		for _, x := range xs {
			if x == False || seen[x] {
				continue
			}
			if x == True || seen[Not(x)] {
				return True
			}
			seen[x] = true
			l = append(l, x)
		}
	}
	// (p & c) | (p & !c)  ->  p   (repeat)
	for changed := true; changed && len(l) > 1 && len(l) < 40; {
		changed = false
	outer:
		for i := 0; i < len(l); i++ {
			for j := i + 1; j < len(l); j++ {
				if r := resolve(l[i], l[j]); r != nil {
					l[i] = r
					l = append(l[:j], l[j+1:]...)
					changed = true
					if r == True {
						return True
					}
					break outer
				}
			}
		}
	}
	if len(l) == 0 {
		return False
	}
	if len(l) == 1 {
		return l[0]
	}
	return mkApp("or", BoolS, l...)
}

func resolve(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	sb := map[*Term]bool{}
	for _, x := range cb {
		sb[x] = true
	}
	sa := map[*Term]bool{}
	for _, x := range ca {
		sa[x] = true
	}
	var da, db []*Term
	for _, x := range ca {
		if !sb[x] {
			da = append(da, x)
		}
	}
	for _, x := range cb {
		if !sa[x] {
			db = append(db, x)
		}
	}
	if len(da) == 0 {
		return a // b implies a
	}
	if len(db) == 0 {
		return b
	}
	if len(da) == 1 && len(db) == 1 && Not(da[0]) == db[0] {
		var rest []*Term
		for _, x := range ca {
			if x != da[0] {
				rest = append(rest, x)
			}
		}
		return And(rest...)
	}
	return nil
}

func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	return mkApp("=>", BoolS, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.sort == BoolS {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == False {
			return And(c, a)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	if b.op == "ite" && b.args[0] == c {
		return Ite(c, a, b.args[2])
	}
	if a.op == "ite" && a.args[0] == c {
		return Ite(c, a.args[1], b)
	}
	if b.op == "ite" && b.args[1] == a && a.sort != BoolS {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts differ: %s vs %s (%s / %s)", a.sort, b.sort, a, b))
	}
	return mkApp("ite", a.sort, c, a, b)
}

// distinctRefs reports whether two reference terms are syntactically known to
// be different.
func distinctRefs(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.isInt() && b.isInt() {
		return true
	}
	if a.bound || b.bound {
		return false
	}
	if a.op == "str" && b.op == "str" {
		return true
	}
	if a.fresh && b.fresh {
		return true
	}
	if a.fresh && (b.id < a.id || isInterior(b)) {
		return true
	}
	if b.fresh && (a.id < b.id || isInterior(a)) {
		return true
	}
	ia, ib := isInterior(a), isInterior(b)
	if ia && ib {
		if a.op != b.op {
			return true
		}
		for i := range a.args {
			if distinctRefs(a.args[i], b.args[i]) {
				return true
			}
		}
	}
	ga, gb := isGlobalRef(a), isGlobalRef(b)
	if ga && gb || ga && (b.fresh || ib) || gb && (a.fresh || ia) {
		return true
	}
	if a.isInt() && a.ival.Sign() == 0 && (b.fresh || ib || gb) {
		return true
	}
	if b.isInt() && b.ival.Sign() == 0 && (a.fresh || ia || ga) {
		return true
	}
	// x + c1 vs x + c2
	if a.sort == IntS && b.sort == IntS {
		ba, ca := splitAdd(a)
		bb, cb := splitAdd(b)
		if ba == bb && ca.Cmp(cb) != 0 {
			return true
		}
	}
	return false
}

func isInterior(t *Term) bool {
	return strings.HasPrefix(t.op, "uf:sub:") || strings.HasPrefix(t.op, "uf:elem:") || strings.HasPrefix(t.op, "uf:addr:")
}
func isGlobalRef(t *Term) bool {
	return strings.HasPrefix(t.op, "uf:global:") || strings.HasPrefix(t.op, "uf:fn:")
}

func splitAdd(a *Term) (*Term, *big.Int) {
	if a.op == "+" && len(a.args) == 2 && a.args[1].isInt() {
		return a.args[0], a.args[1].ival
	}
	return a, new(big.Int)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts differ: %s vs %s (%s / %s)", a.sort, b.sort, a, b))
	}
	if a.sort == BoolS {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if Not(a) == b {
			return False
		}
	}
	if distinctRefs(a, b) {
		return False
	}
	if isInterior(a) && a.op == b.op {
		var l []*Term
		for i := range a.args {
			l = append(l, Eq(a.args[i], b.args[i]))
		}
		return And(l...)
	}
	// ite(c, lit1, lit2) == lit
	if b.isLit() && a.op == "ite" && (a.args[1].isLit() || a.args[2].isLit()) && a.sort != BoolS {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if a.isLit() && b.op == "ite" {
		return Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkApp("=", BoolS, a, b)
}

func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

func Add(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return BigT(new(big.Int).Add(a.ival, b.ival))
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() && b.ival.Sign() == 0 {
		return a
	}
	if b.isInt() && a.op == "+" && len(a.args) == 2 && a.args[1].isInt() {
		return Add(a.args[0], BigT(new(big.Int).Add(a.args[1].ival, b.ival)))
	}
	if !b.isInt() {
		if x, c := splitAdd(a); c.Sign() != 0 {
			return Add(Add(x, b), BigT(c))
		}
		if x, c := splitAdd(b); c.Sign() != 0 {
			return Add(Add(a, x), BigT(c))
		}
		// a + (b' - a) etc.
		if b.op == "-" && len(b.args) == 2 && b.args[1] == a {
			return b.args[0]
		}
		if a.op == "-" && len(a.args) == 2 && a.args[1] == b {
			return a.args[0]
		}
	}
	return mkApp("+", IntS, a, b)
}

func Sub(a, b *Term) *Term {
	if a == b {
		return IntT(0)
	}
	if b.isInt() {
		return Add(a, BigT(new(big.Int).Neg(b.ival)))
	}
	if x, c := splitAdd(a); c.Sign() != 0 {
		return Add(Sub(x, b), BigT(c))
	}
	if x, c := splitAdd(b); c.Sign() != 0 {
		return Add(Sub(a, x), BigT(new(big.Int).Neg(c)))
	}
	if a.op == "+" && a.args[0] == b {
		return a.args[1]
	}
	if a.op == "+" && a.args[1] == b {
		return a.args[0]
	}
	return mkApp("-", IntS, a, b)
}

func Mul(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return BigT(new(big.Int).Mul(a.ival, b.ival))
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() {
		if b.ival.Sign() == 0 {
			return b
		}
		if b.ival.Cmp(big.NewInt(1)) == 0 {
			return a
		}
	}
	return mkApp("*", IntS, a, b)
}

func cmpConst(op string, a, b *big.Int) bool {
	c := a.Cmp(b)
	switch op {
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	}
	panic(op)
}

func Lt(a, b *Term) *Term {
	if a == b {
		return False
	}
	if a.isInt() && b.isInt() {
		return BoolT(cmpConst("<", a.ival, b.ival))
	}
	return Not(Le(b, a))
}

func Le(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.isInt() && b.isInt() {
		return BoolT(cmpConst("<=", a.ival, b.ival))
	}
	xa, ca := splitAdd(a)
	xb, cb := splitAdd(b)
	if xa == xb {
		return BoolT(ca.Cmp(cb) <= 0)
	}
	return mkApp("<=", BoolS, a, b)
}

func Select(h, i *Term) *Term {
	for {
		if h.op == "store" {
			if h.args[1] == i {
				return h.args[2]
			}
			if distinctRefs(h.args[1], i) {
				h = h.args[0]
				continue
			}
		}
		if h.op == "constarr" {
			return h.args[0]
		}
		if h.op == "ite" {
			// push through when both branches resolve cheaply
			a, b := h.args[1], h.args[2]
			sa, sb := selQuick(a, i), selQuick(b, i)
			if sa != nil && sb != nil {
				return Ite(h.args[0], sa, sb)
			}
			if sa != nil || sb != nil {
				return Ite(h.args[0], Select(a, i), Select(b, i))
			}
		}
		break
	}
	return mkApp("select", arrElem(h.sort), h, i)
}

// selQuick returns the select if it is decided syntactically in a few steps.
func selQuick(h, i *Term) *Term {
	moved := false
	for n := 0; n < 200; n++ {
		if h.op == "store" {
			if h.args[1] == i {
				return h.args[2]
			}
			if distinctRefs(h.args[1], i) {
				h = h.args[0]
				moved = true
				continue
			}
			return nil
		}
		if h.op == "constarr" {
			return h.args[0]
		}
		if h.op == "ite" {
			a, b := selQuick(h.args[1], i), selQuick(h.args[2], i)
			if a != nil && b != nil {
				return Ite(h.args[0], a, b)
			}
			if a != nil || b != nil {
				if a == nil {
					a = mkApp("select", arrElem(h.sort), h.args[1], i)
				}
				if b == nil {
					b = mkApp("select", arrElem(h.sort), h.args[2], i)
				}
				return Ite(h.args[0], a, b)
			}
			return nil
		}
		break
	}
	if moved {
		return mkApp("select", arrElem(h.sort), h, i)
	}
	return nil
}

func StoreT(h, i, v *Term) *Term {
	if h.op == "store" && h.args[1] == i {
		return StoreT(h.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == h && v.args[1] == i {
		return h
	}
	if arrElem(h.sort) != v.sort {
		panic(fmt.Sprintf("store sort mismatch: %s <- %s", h.sort, v.sort))
	}
	return mkApp("store", h.sort, h, i, v)
}

func ConstArr(s Sort, v *Term) *Term { return mkApp("constarr", s, v) }

func quant(kind string, vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body == True || body == False {
		return body
	}
	// forall x. a => forall y. b  is  forall x y. a => b
	if kind == "forall" {
		if body.op == "forall" {
			return quant(kind, append(append([]*Term{}, vars...), body.qvars...), body.args[0])
		}
		if body.op == "=>" && body.args[1].op == "forall" {
			in := body.args[1]
			return quant(kind, append(append([]*Term{}, vars...), in.qvars...), Imp(body.args[0], in.args[0]))
		}
	}
	var sb strings.Builder
	sb.WriteString(kind)
	for _, v := range vars {
		fmt.Fprintf(&sb, ",%d", v.id)
	}
	fmt.Fprintf(&sb, ":%d", body.id)
	for _, p := range pats {
		sb.WriteByte('!')
		for _, x := range p {
			fmt.Fprintf(&sb, "%d,", x.id)
		}
	}
	t := TT.intern(sb.String(), func() *Term {
		return &Term{op: kind, args: []*Term{body}, sort: BoolS, qvars: vars, pats: pats}
	})
	t.bound = false
	// a quantifier nested under another one may still contain outer variables
	if hasFree(body, vars) {
		t.bound = true
	}
	return t
}

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("forall", vars, body, pats...)
}
func Exists(vars []*Term, body *Term) *Term { return quant("exists", vars, body) }

// ForallIdx is Forall over an index variable. Where the body indexes memory
// with off+x, x is replaced by a variable for the sum, so that the instances
// the solver needs can be found by matching on the index.
func ForallIdx(x, body *Term) *Term {
	alts := shifts(x, body)
	var cs []*Term
	for _, off := range alts {
		cs = append(cs, Forall([]*Term{x}, shiftBody(x, off, body)))
	}
	if len(cs) == 0 {
		return Forall([]*Term{x}, body)
	}
	return And(cs...)
}

func ExistsIdx(x, body *Term) *Term {
	alts := shifts(x, body)
	if len(alts) == 0 || alts[0] == nil {
		return Exists([]*Term{x}, body)
	}
	return Exists([]*Term{x}, shiftBody(x, alts[0], body))
}

func shiftBody(x, off, body *Term) *Term {
	if off == nil {
		return body
	}
	return Subst(body, map[*Term]*Term{x: Sub(x, off)})
}

// shifts returns the distinct offsets added to x where it indexes memory (nil
// for a plain x), at most three.
func shifts(x, body *Term) []*Term {
	var out []*Term
	plain := false
	seen := map[*Term]bool{}
	got := map[*Term]bool{}
	index := func(t *Term) {
		if t == x {
			plain = true
			return
		}
		if off := offsetOf(t, x); off != nil && !got[off] {
			got[off] = true
			out = append(out, off)
		}
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		if !t.bound || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "select" && t.args[1].sort == IntS {
			index(t.args[1])
		}
		if strings.HasPrefix(t.op, "uf:elem:") || t.op == "uf:"+fnSat {
			index(t.args[1])
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(body)
	if plain && len(out) > 0 {
		out = append(out, nil)
	}
	if len(out) > 3 {
		out = out[:3]
	}
	return out
}

// offsetOf returns the ground term o with t = o + x, if t is such a sum.
func offsetOf(t, x *Term) *Term {
	if t == x {
		return IntT(0)
	}
	if t.op != "+" || len(t.args) != 2 {
		return nil
	}
	a, b := t.args[0], t.args[1]
	if !b.bound {
		if o := offsetOf(a, x); o != nil {
			return Add(o, b)
		}
	}
	if !a.bound {
		if o := offsetOf(b, x); o != nil {
			return Add(a, o)
		}
	}
	return nil
}

func hasFree(t *Term, bvs []*Term) bool {
	seen := map[*Term]bool{}
	own := map[*Term]bool{}
	for _, b := range bvs {
		own[b] = true
	}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if !t.bound || seen[t] {
			return false
		}
		seen[t] = true
		if strings.HasPrefix(t.op, "bv:") {
			return !own[t]
		}
		for _, q := range t.qvars {
			own[q] = true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// Subst replaces terms (used to instantiate quantified candidates and specs).
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Imp(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "+":
		return Add(args[0], args[1])
	case "-":
		return Sub(args[0], args[1])
	case "*":
		return Mul(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return StoreT(args[0], args[1], args[2])
	case "forall", "exists":
		return quant(t.op, t.qvars, args[0])
	}
	return mkApp(t.op, t.sort, args...)
}

func (t *Term) String() string {
	p := &printer{inline: true, budget: 400}
	return p.str(t)
}

type printer struct {
	names  map[*Term]string
	inline bool
	budget int
}

func (p *printer) str(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	if p.inline {
		p.budget--
		if p.budget < 0 {
			return "..."
		}
	}
	switch {
	case t.op == "int":
		if t.ival.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.ival).String() + ")"
		}
		return t.ival.String()
	case t.op == "str":
		if p.inline {
			return fmt.Sprintf("%q", t.sval)
		}
		return litName(t)
	case t.op == "constarr":
		return "((as const " + string(t.sort) + ") " + p.str(t.args[0]) + ")"
	case strings.HasPrefix(t.op, "bv:"):
		return smtSym(t.op[3:])
	case t.op == "forall" || t.op == "exists":
		var vs []string
		for _, v := range t.qvars {
			vs = append(vs, "("+p.str(v)+" "+string(v.sort)+")")
		}
		body := p.str(t.args[0])
		pats := 0
		if len(t.pats) > 0 {
			for _, pt := range t.pats {
				var l []string
				bad := false
				for _, x := range pt {
					if !p.patOK(x) {
						bad = true
						break
					}
					l = append(l, p.str(x))
				}
				if bad {
					continue
				}
				pats++
				body += " :pattern (" + strings.Join(l, " ") + ")"
			}
			if pats > 0 {
				body = "(! " + body + ")"
			}
		}
		return "(" + t.op + " (" + strings.Join(vs, " ") + ") " + body + ")"
	}
	op := t.op
	if strings.HasPrefix(op, "uf:") {
		op = smtSym(op[3:])
	}
	if len(t.args) == 0 {
		return op
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(p.str(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

func (p *printer) patOK(t *Term) bool {
	if _, ok := p.names[t]; ok {
		return true
	}
	if notInPattern(t.op) {
		return false
	}
	for _, a := range t.args {
		if !p.patOK(a) {
			return false
		}
	}
	return true
}

func litName(t *Term) string { return fmt.Sprintf("lit!%d", t.id) }

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
