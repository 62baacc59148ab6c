package main

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

// Obl is one proof obligation: under the assumptions Assume (each already
// guarded by its own path condition) and the path condition PC, Goal holds.
type Obl struct {
	Name   string
	Kind   string // index, nil, panic, ensures, requires, inv-init, inv-step, store, ...
	Prop   string
	Fn     string
	Pos    string
	PC     *Term
	Goal   *Term
	Assume []*Term
	Cand   *Candidate // Houdini candidate this obligation belongs to
	Watch  map[string]*Term
	Text   string

	// result
	Status  string // proved, failed, unknown
	Backend string
	Millis  int64
	Model   string
	Out     string
	Script  string
	Sliced  string
}

var axiomDefs = []struct {
	needs []string // emitted when one of these symbols occurs
	decls []string
	text  string
}{}

const (
	fnSlen = "slen"
	fnSat  = "sat"
	fnCat  = "scat"
	fnSub  = "ssub"
)

// collect returns the terms reachable from roots in topological order.
func collect(roots []*Term) []*Term {
	seen := map[*Term]bool{}
	var order []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				rec(x)
			}
		}
		order = append(order, t)
	}
	for _, r := range roots {
		rec(r)
	}
	return order
}

// Script renders an SMT-LIB script asserting all of asserts.
func Script(asserts []*Term, opts scriptOpts) string {
	order := collect(asserts)
	used := map[string]bool{}
	refs := map[*Term]int{}
	var lits []*Term
	for _, t := range order {
		if strings.HasPrefix(t.op, "uf:") {
			used[t.op[3:]] = true
		}
		if t.op == "str" {
			lits = append(lits, t)
		}
		for _, a := range t.args {
			refs[a]++
		}
	}
	if len(lits) > 0 {
		used[fnSlen] = true
	}
	var sb strings.Builder
	if opts.model {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	sb.WriteString("(set-logic ALL)\n(declare-sort Str 0)\n(declare-sort Flt 0)\n(declare-sort Opq 0)\n")
	// string theory
	catSub := used[fnCat] && used[fnSub]
	strUsed := used["sbytes"] || used["strof"] || used[fnSlen] || used[fnSat] || used[fnCat] || used[fnSub] || len(lits) > 0
	if strUsed {
		for _, f := range []string{fnSlen, fnSat, fnCat, fnSub} {
			ensureStrDecl(f)
		}
		for _, f := range []string{fnSlen, fnSat, fnCat, fnSub} {
			sb.WriteString(TT.decl[f] + "\n")
			delete(used, f)
		}
		sb.WriteString("(declare-const str!empty Str)\n(assert (= (|slen| str!empty) 0))\n")
		sb.WriteString("(assert (forall ((s Str)) (! (and (>= (|slen| s) 0) (<= (|slen| s) 281474976710656) (=> (= (|slen| s) 0) (= s str!empty))) :pattern ((|slen| s)))))\n")
		chars := strings.Contains(fmt.Sprint(ufSet(order)), fnSat) || opts.chars
		if chars {
			sb.WriteString("(assert (forall ((s Str) (i Int)) (! (and (<= 0 (|sat| s i)) (<= (|sat| s i) 255)) :pattern ((|sat| s i)))))\n")
			sb.WriteString("(assert (forall ((a Str) (b Str) (i Int)) (! (= (|sat| (|scat| a b) i) (ite (< i (|slen| a)) (|sat| a i) (|sat| b (- i (|slen| a))))) :pattern ((|sat| (|scat| a b) i)))))\n")
			sb.WriteString("(assert (forall ((s Str) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 k) (< k (- j i))) (= (|sat| (|ssub| s i j) k) (|sat| s (+ i k)))) :pattern ((|sat| (|ssub| s i j) k)))))\n")
		}
		sb.WriteString("(assert (forall ((a Str) (b Str)) (! (=> (<= (+ (|slen| a) (|slen| b)) 281474976710656) (= (|slen| (|scat| a b)) (+ (|slen| a) (|slen| b)))) :pattern ((|scat| a b)))))\n")
		if catSub {
			sb.WriteString("(assert (forall ((a Str) (b Str)) (! (=> (<= (+ (|slen| a) (|slen| b)) 281474976710656) (and (= (|ssub| (|scat| a b) 0 (|slen| a)) a) (= (|ssub| (|scat| a b) (|slen| a) (+ (|slen| a) (|slen| b))) b))) :pattern ((|scat| a b)))))\n")
		}
		sb.WriteString("(assert (forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (|slen| s))) (and (= (|slen| (|ssub| s i j)) (- j i)) (=> (= (- j i) (|slen| s)) (= (|ssub| s i j) s)))) :pattern ((|ssub| s i j)))))\n")
		var names []string
		for _, l := range lits {
			n := litName(l)
			fmt.Fprintf(&sb, "(declare-const %s Str) ; %q\n", n, l.sval)
			if l.sval == "" {
				fmt.Fprintf(&sb, "(assert (= %s str!empty))\n", n)
			}
			fmt.Fprintf(&sb, "(assert (= (|slen| %s) %d))\n", n, len(l.sval))
			names = append(names, n)
			if chars && len(l.sval) <= 64 {
				for i := 0; i < len(l.sval); i++ {
					fmt.Fprintf(&sb, "(assert (= (|sat| %s %d) %d))\n", n, i, l.sval[i])
				}
			}
		}
		if len(names) > 1 {
			fmt.Fprintf(&sb, "(assert (distinct %s))\n", strings.Join(names, " "))
		}
	}
	for _, n := range sortedKeys(used) {
		if d, ok := TT.decl[n]; ok {
			sb.WriteString(d + "\n")
		}
	}
	// interior references under quantifiers: injectivity for all arguments
	refDone := map[string]bool{}
	for _, t := range order {
		if !t.bound || refDone[t.op] || !(strings.HasPrefix(t.op, "uf:elem:") || strings.HasPrefix(t.op, "uf:sub:") || strings.HasPrefix(t.op, "uf:addr:")) {
			continue
		}
		refDone[t.op] = true
		var bs, ns, eqs []string
		for i := range t.args {
			ns = append(ns, fmt.Sprintf("a%d", i))
			bs = append(bs, fmt.Sprintf("(a%d Int)", i))
		}
		app := "(" + smtSym(t.op[3:]) + " " + strings.Join(ns, " ") + ")"
		for i := range t.args {
			n := fmt.Sprintf("inv%d:%s", i, t.op)
			if !used[n] {
				fmt.Fprintf(&sb, "(declare-fun %s (Int) Int)\n", smtSym(n))
			}
			eqs = append(eqs, fmt.Sprintf("(= (%s %s) %s)", smtSym(n), app, ns[i]))
		}
		if used["birth"] {
			eqs = append(eqs, fmt.Sprintf("(= (birth %s) (birth a0))", app))
		}
		if k, ok := refKinds[t.op]; ok && used["kind"] {
			eqs = append(eqs, fmt.Sprintf("(= (kind %s) %d)", app, k))
		}
		eqs = append(eqs, fmt.Sprintf("(< 0 %s)", app))
		fmt.Fprintf(&sb, "(assert (forall (%s) (! (and %s) :pattern (%s))))\n", strings.Join(bs, " "), strings.Join(eqs, " "), app)
	}
	keyDone := map[string]bool{}
	for _, t := range order {
		if strings.HasPrefix(t.op, "uf:key:") && len(t.args) > 1 && !keyDone[t.op] {
			keyDone[t.op] = true
			var bs, ns, eqs []string
			for i, a := range t.args {
				n := fmt.Sprintf("k%d", i)
				ns = append(ns, n)
				bs = append(bs, fmt.Sprintf("(%s %s)", n, a.sort))
			}
			app := "(|" + t.op[3:] + "| " + strings.Join(ns, " ") + ")"
			for i, a := range t.args {
				f := fmt.Sprintf("|%s!inv%d|", t.op[3:], i)
				fmt.Fprintf(&sb, "(declare-fun %s (Int) %s)\n", f, a.sort)
				eqs = append(eqs, fmt.Sprintf("(= (%s %s) %s)", f, app, ns[i]))
			}
			fmt.Fprintf(&sb, "(assert (forall (%s) (! (and %s) :pattern (%s))))\n", strings.Join(bs, " "), strings.Join(eqs, " "), app)
		}
	}
	for _, ax := range axioms {
		ok := true
		for _, n := range ax.needs {
			if !used[n] {
				ok = false
			}
		}
		if ok {
			sb.WriteString(ax.text + "\n")
		}
	}
	p := &printer{names: map[*Term]string{}}
	// ground subterms of patterns with connectives get a constant of their own
	named := map[*Term]bool{}
	for _, t := range order {
		for _, pt := range t.pats {
			for _, x := range pt {
				patConsts(x, named)
			}
		}
	}
	for _, t := range order {
		if t.bound || len(t.args) == 0 || t.isLit() {
			continue
		}
		if t.op == "constarr" && !constValue(t) {
			n := fmt.Sprintf("n!%d", t.id)
			fmt.Fprintf(&sb, "(declare-fun %s () %s)\n(assert (forall ((i %s)) (! (= (select %s i) %s) :pattern ((select %s i)))))\n", n, t.sort, arrKey(t.sort), n, p.str(t.args[0]), n)
			p.names[t] = n
			continue
		}
		if named[t] {
			n := fmt.Sprintf("n!%d", t.id)
			fmt.Fprintf(&sb, "(declare-fun %s () %s)\n(assert (= %s %s))\n", n, t.sort, n, p.str(t))
			p.names[t] = n
			continue
		}
		if refs[t] < 2 && len(t.args) < 12 {
			continue
		}
		s := p.str(t)
		if len(s) < 24 {
			continue
		}
		n := fmt.Sprintf("n!%d", t.id)
		fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.sort, s)
		p.names[t] = n
	}
	for _, a := range asserts {
		if a == True {
			continue
		}
		sb.WriteString("(assert " + p.str(a) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if opts.model && len(opts.values) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range opts.values {
			sb.WriteString(p.str(v) + " ")
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

func notInPattern(op string) bool {
	switch op {
	case "ite", "and", "or", "not", "=", "<=", "<", "=>", "forall", "exists":
		return true
	}
	return false
}

func hasConnective(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if notInPattern(t.op) {
		return true
	}
	for _, a := range t.args {
		if hasConnective(a, seen) {
			return true
		}
	}
	return false
}

func patConsts(t *Term, named map[*Term]bool) {
	if !t.bound {
		if hasConnective(t, map[*Term]bool{}) {
			named[t] = true
		}
		return
	}
	for _, a := range t.args {
		patConsts(a, named)
	}
}

func ufSet(order []*Term) []string {
	m := map[string]bool{}
	for _, t := range order {
		if t.op == "uf:"+fnSat || t.op == "uf:sbytes" || t.op == "uf:strof" {
			m[fnSat] = true
		}
	}
	return sortedKeys(m)
}

type scriptOpts struct {
	model  bool
	chars  bool
	values []*Term
}

type axiom struct {
	needs []string
	text  string
}

var axioms = []axiom{
	{[]string{"sbytes"}, "(assert (forall ((s Str) (i Int)) (! (= (select (|sbytes| s) i) (|sat| s i)) :pattern ((select (|sbytes| s) i)))))"},
	{[]string{"strof"}, "(assert (forall ((a (Array Int Int)) (o Int) (n Int) (k Int)) (! (=> (and (<= 0 k) (< k n) (<= 0 (select a (+ o k))) (<= (select a (+ o k)) 255)) (= (|sat| (|strof| a o n) k) (select a (+ o k)))) :pattern ((|sat| (|strof| a o n) k)))))"},
	{[]string{"strof"}, "(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (and (<= 0 n) (<= n 281474976710656)) (= (|slen| (|strof| a o n)) n)) :pattern ((|strof| a o n)))))"},
}

func ensureStrDecl(f string) {
	if _, ok := TT.decl[f]; ok {
		return
	}
	switch f {
	case fnSlen:
		TT.decl[f] = "(declare-fun |slen| (Str) Int)"
	case fnSat:
		TT.decl[f] = "(declare-fun |sat| (Str Int) Int)"
	case fnCat:
		TT.decl[f] = "(declare-fun |scat| (Str Str) Str)"
	case fnSub:
		TT.decl[f] = "(declare-fun |ssub| (Str Int Int) Str)"
	}
}

// ---- solving ----

type solverCfg struct {
	name string
	args func(sec int) []string
}

var solvers = []solverCfg{
	{"z3-new", func(sec int) []string { return []string{"z3-new", fmt.Sprintf("-T:%d", sec), "-in"} }},
	{"z3", func(sec int) []string { return []string{"z3", fmt.Sprintf("-T:%d", sec), "-in"} }},
	{"cvc5", func(sec int) []string {
		return []string{"cvc5", fmt.Sprintf("--tlimit=%d", sec*1000), "--lang=smt2", "-"}
	}},
}

func runSolver(ctx context.Context, s solverCfg, script string, sec int) (string, string) {
	a := s.args(sec)
	c, cancel := context.WithTimeout(ctx, time.Duration(sec+2)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(c, a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(script)
	out, _ := cmd.CombinedOutput()
	o := string(out)
	first := strings.TrimSpace(o)
	for strings.HasPrefix(first, "WARNING") {
		i := strings.IndexByte(first, '\n')
		if i < 0 {
			break
		}
		first = strings.TrimSpace(first[i:])
	}
	if i := strings.IndexByte(first, '\n'); i >= 0 {
		first = first[:i]
	}
	switch first {
	case "unsat", "sat", "unknown", "timeout":
		return first, o
	}
	if strings.Contains(o, "error") {
		return "error", o
	}
	return "unknown", o
}

// slice keeps the assumptions connected to the goal through uninterpreted
// constants (transitively), up to the given number of rounds.
// symsOf lists the constants of a term (memoised).
var symMemo = map[*Term][]int{}
var symIDs = map[string]int{}

func symsOf(t *Term) []int {
	if l, ok := symMemo[t]; ok {
		return l
	}
	set := map[int]bool{}
	for _, x := range collect([]*Term{t}) {
		if k := symKey(x); k != "" {
			id, ok := symIDs[k]
			if !ok {
				id = len(symIDs) + 1
				symIDs[k] = id
			}
			set[id] = true
		}
	}
	l := make([]int, 0, len(set))
	for k := range set {
		l = append(l, k)
	}
	symMemo[t] = l
	return l
}

// flatConj lists the conjuncts of a (nested) conjunction.
func flatConj(t *Term, f func(*Term)) {
	if t.op == "and" {
		for _, a := range t.args {
			flatConj(a, f)
		}
		return
	}
	f(t)
}

// onPath drops assumptions guarded by a path condition that contradicts the
// obligation's (other cases of a switch, other branches).
func onPath(pc *Term, as []*Term) []*Term {
	pos := map[*Term]bool{}
	lit := map[*Term]*Term{} // x -> literal it equals on this path
	flatConj(pc, func(t *Term) {
		pos[t] = true
		if t.op == "=" && t.args[0].sort == StrS {
			if t.args[1].op == "str" {
				lit[t.args[0]] = t.args[1]
			} else if t.args[0].op == "str" {
				lit[t.args[1]] = t.args[0]
			}
		}
	})
	if len(pos) == 0 {
		return as
	}
	verdict := map[*Term]bool{}
	var refuted func(t *Term) bool
	refuted = func(t *Term) bool {
		if v, ok := verdict[t]; ok {
			return v
		}
		v := pos[Not(t)]
		switch {
		case v:
		case t.op == "and":
			for _, a := range t.args {
				if refuted(a) {
					v = true
					break
				}
			}
		case t.op == "or":
			v = true
			for _, a := range t.args {
				if !refuted(a) {
					v = false
					break
				}
			}
		case t.op == "=" && t.args[0].sort == StrS:
			x, y := t.args[0], t.args[1]
			if x.op == "str" {
				x, y = y, x
			}
			v = y.op == "str" && lit[x] != nil && lit[x] != y
		}
		verdict[t] = v
		return v
	}
	var l []*Term
	for _, a := range as {
		var g *Term
		if a.op == "=>" {
			g = a.args[0]
		} else if o := origin[a]; o != nil {
			g = o
		} else {
			l = append(l, a)
			continue
		}
		bad, ok := verdict[g]
		if !ok {
			bad = refuted(g)
		}
		if !bad {
			l = append(l, a)
		}
	}
	return l
}

func sliceAssumes(goal []*Term, as []*Term, rounds int) []*Term {
	syms := map[int]bool{}
	for _, g := range goal {
		for _, k := range symsOf(g) {
			syms[k] = true
		}
	}
	keep := make([]bool, len(as))
	for r := 0; r < rounds; r++ {
		ch := false
		var newly []int
		for i, a := range as {
			if keep[i] {
				continue
			}
			ks := symsOf(a)
			hit := len(ks) == 0
			for _, k := range ks {
				if syms[k] {
					hit = true
					break
				}
			}
			if hit {
				newly = append(newly, i)
			}
		}
		for _, i := range newly {
			keep[i] = true
			ch = true
			for _, k := range symsOf(as[i]) {
				syms[k] = true
			}
		}
		if !ch {
			break
		}
	}
	var l []*Term
	for i, a := range as {
		if keep[i] {
			l = append(l, a)
		}
	}
	return l
}

func symKey(t *Term) string {
	if strings.HasPrefix(t.op, "uf:") && len(t.args) == 0 && !strings.HasPrefix(t.op, "uf:H0:") && !strings.HasPrefix(t.op, "uf:now") {
		return t.op
	}
	return ""
}

type SolveOpts struct {
	Quick   int // seconds for the first attempt
	Full    int // seconds for the portfolio
	Workers int
	Dump    string
	NoFull  bool
}

var renderMu sync.Mutex

func solveAll(obls []*Obl, o SolveOpts) {
	if o.Workers == 0 {
		o.Workers = 8
	}
	// scripts are rendered sequentially (the term table is not thread safe)
	type job struct {
		ob     *Obl
		script string
		full   func() string
	}
	var jobs []*job
	cache := map[string]*Obl{}
	for _, ob := range obls {
		if ob.Status != "" {
			continue
		}
		ob.Script = ""
		if Imp(ob.PC, ob.Goal) == True || ob.PC == False {
			ob.Status, ob.Backend = "proved", "simplifier"
			continue
		}
		neg := []*Term{ob.PC, Not(ob.Goal)}
		as := onPath(ob.PC, ob.Assume)
		rounds := 3
		if v := os.Getenv("GOVER_ROUNDS"); v != "" {
			fmt.Sscan(v, &rounds)
		}
		sl := sliceAssumes(neg, as, rounds)
		j := &job{ob: ob}
		j.script = Script(append(append([]*Term{}, sl...), neg...), scriptOpts{})
		ob.Sliced = j.script
		if prev, ok := cache[j.script]; ok {
			ob.Status = "same"
			ob.Out = prev.Name
			_ = prev
		} else {
			cache[j.script] = ob
		}
		if len(sl) != len(as) {
			j.full = func() string {
				renderMu.Lock()
				defer renderMu.Unlock()
				if ob.Script == "" {
					ob.Script = Script(append(append([]*Term{}, as...), neg...), scriptOpts{})
				}
				return ob.Script
			}
		} else {
			ob.Script = j.script
		}
		if ob.Status == "same" {
			continue
		}
		jobs = append(jobs, j)
	}
	ch := make(chan *job)
	var wg sync.WaitGroup
	for w := 0; w < o.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				solveOne(j.ob, j.script, j.full, o)
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	byName := map[string]*Obl{}
	for _, ob := range obls {
		if ob.Status != "same" {
			byName[ob.Name] = ob
		}
	}
	for _, ob := range obls {
		if ob.Status == "same" {
			p := byName[ob.Out]
			if p == nil {
				ob.Status = "unknown"
				continue
			}
			ob.Status, ob.Backend, ob.Out = p.Status, p.Backend, p.Out
		}
	}
	if o.Dump != "" {
		os.MkdirAll(o.Dump, 0o755)
		for i, ob := range obls {
			if ob.Script == "" {
				ob.Script = ob.Sliced
			}
			if ob.Script != "" {
				n := regexp.MustCompile(`[^A-Za-z0-9_.-]+`).ReplaceAllString(ob.Name, "_")
				if len(n) > 120 {
					n = n[:120]
				}
				os.WriteFile(filepath.Join(o.Dump, fmt.Sprintf("%04d_%s_%s.smt2", i, ob.Status, n)), []byte("; "+ob.Name+"\n"+ob.Script), 0o644)
			}
		}
	}
}

func solveOne(ob *Obl, script string, fullf func() string, o SolveOpts) {
	start := time.Now()
	defer func() { ob.Millis = time.Since(start).Milliseconds() }()
	r, out := runSolver(context.Background(), solvers[0], script, o.Quick)
	if r == "unsat" {
		ob.Status, ob.Backend, ob.Out = "proved", solvers[0].name, r
		return
	}
	if r == "sat" && fullf == nil {
		ob.Status, ob.Backend, ob.Out = "failed", solvers[0].name, out
		return
	}
	if o.NoFull {
		ob.Status, ob.Out = "unknown", out
		return
	}
	// portfolio on the full script
	full := script
	if fullf != nil {
		full = fullf()
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type res struct{ s, r, out string }
	rc := make(chan res, 6)
	n := 0
	for _, s := range solvers {
		s := s
		n++
		go func() {
			r, out := runSolver(ctx, s, full, o.Full)
			rc <- res{s.name, r, out}
		}()
		if script != full {
			n++
			go func() {
				r, out := runSolver(ctx, s, script, o.Full)
				if r == "sat" {
					r = "unknown"
				}
				rc <- res{s.name, r, out}
			}()
		}
	}
	var outs []string
	sat := false
	for i := 0; i < n; i++ {
		x := <-rc
		if x.r == "unsat" {
			ob.Status, ob.Backend, ob.Out = "proved", x.s, x.r
			return
		}
		outs = append(outs, x.s+": "+trunc(x.out, 400))
		if x.r == "sat" {
			sat = true
			break
		}
	}
	sort.Strings(outs)
	ob.Out = strings.Join(outs, "\n")
	ob.Status = "unknown"
	if sat {
		ob.Status = "failed"
	}
	if strings.Contains(ob.Out, "error") && !sat {
		ob.Status = "error"
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// constValue: constant arrays must have value elements.
func constValue(t *Term) bool {
	if t.op == "constarr" {
		return constValue(t.args[0])
	}
	return t.op == "int" || t == True || t == False
}

func arrKey(s Sort) Sort {
	str := strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array "), ")")
	depth := 0
	for i, c := range str {
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
		} else if c == ' ' && depth == 0 {
			return Sort(str[:i])
		}
	}
	return Sort(str)
}
