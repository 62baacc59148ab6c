package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value: the flattened list of its scalar leaves.
type Val struct {
	T    types.Type
	L    []*Term
	Addr *Addr // pointer to a scalar location that is not first-class
	Tup  []Val
	Iter *iterState
}

func (v Val) one() *Term {
	if len(v.L) != 1 {
		panic(fmt.Sprintf("scalar expected, got %d leaves of %v", len(v.L), v.T))
	}
	return v.L[0]
}

// Addr designates a scalar memory location: heap (leaf arrays heap#0..) at
// index idx (one level) or idx,idx2 (element of a backing array).
type Addr struct {
	heap string
	T    types.Type
	idx  *Term
	idx2 *Term
}

type State struct {
	h   map[string]*Term
	now *Term
}

func (s *State) clone() *State {
	m := make(map[string]*Term, len(s.h))
	for k, v := range s.h {
		m[k] = v
	}
	return &State{h: m, now: s.now}
}

func (s *State) get(name string, sort Sort) *Term {
	if t, ok := s.h[name]; ok {
		return t
	}
	return Const("H0:"+name, sort)
}

const maxLen = 1 << 48

// ---- type helpers ----

func under(t types.Type) types.Type { return t.Underlying() }

func typeKey(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	s = shortName(s)
	switch s {
	case "byte":
		return "uint8"
	case "rune":
		return "int32"
	case "any":
		return "interface{}"
	}
	return strings.ReplaceAll(s, " ", "")
}

func shortName(s string) string {
	s = strings.ReplaceAll(s, "codeberg.org/emersion/soju/", "")
	s = strings.ReplaceAll(s, "codeberg.org/emersion/soju.", "soju.")
	return s
}

// opaqueSort returns the sort of struct types treated as a single scalar.
func opaqueSort(t types.Type) (Sort, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return "", false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return "", false
	}
	if n.Obj().Pkg() == nil {
		return "", false
	}
	path := n.Obj().Pkg().Path()
	switch path + "." + n.Obj().Name() {
	case "time.Time":
		return IntS, true
	case "strings.Builder", "bytes.Buffer":
		return StrS, true
	}
	if inModule(path) {
		return "", false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Exported() {
			return "", false
		}
	}
	return OpqS, true
}

func inModule(path string) bool {
	return strings.HasPrefix(path, "codeberg.org/emersion/soju") || path == "gopkg.in/irc.v4"
}

type leafKind int

const (
	lkInt leafKind = iota
	lkBool
	lkStr
	lkRef
	lkFunc
	lkOther
	lkArr
	lkSliceBase
	lkSliceOff
	lkSliceLen
	lkSliceCap
	lkTag
	lkPayload
)

type leaf struct {
	path string
	sort Sort
	kind leafKind
	typ  types.Type // for ints: the basic type
}

var leafCache = map[types.Type][]leaf{}

func leavesOf(t types.Type) []leaf {
	if l, ok := leafCache[t]; ok {
		return l
	}
	l := leavesOf1(t)
	leafCache[t] = l
	return l
}

func leavesOf1(t types.Type) []leaf {
	if s, ok := opaqueSort(t); ok {
		return []leaf{{sort: s, kind: lkOther, typ: t}}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []leaf{{sort: BoolS, kind: lkBool, typ: t}}
		case u.Info()&types.IsString != 0:
			return []leaf{{sort: StrS, kind: lkStr, typ: t}}
		case u.Info()&types.IsInteger != 0:
			return []leaf{{sort: IntS, kind: lkInt, typ: t}}
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return []leaf{{sort: IntS, kind: lkRef, typ: t}}
		case u.Kind() == types.Invalid:
			return []leaf{{sort: IntS, kind: lkOther, typ: t}}
		}
		return []leaf{{sort: FltS, kind: lkOther, typ: t}}
	case *types.Pointer, *types.Map, *types.Chan:
		return []leaf{{sort: IntS, kind: lkRef, typ: t}}
	case *types.Signature:
		return []leaf{{sort: IntS, kind: lkFunc, typ: t}}
	case *types.Slice:
		return []leaf{{"base", IntS, lkSliceBase, t}, {"off", IntS, lkSliceOff, t}, {"len", IntS, lkSliceLen, t}, {"cap", IntS, lkSliceCap, t}}
	case *types.Interface:
		return []leaf{{"tag", IntS, lkTag, t}, {"val", IntS, lkPayload, t}}
	case *types.Struct:
		var l []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, x := range leavesOf(u.Field(i).Type()) {
				x.path = u.Field(i).Name() + "." + x.path
				l = append(l, x)
			}
		}
		return l
	case *types.Array:
		var l []leaf
		for _, x := range leavesOf(u.Elem()) {
			l = append(l, leaf{x.path, ArrS(IntS, x.sort), lkArr, t})
		}
		return l
	case *types.Tuple:
		var l []leaf
		for i := 0; i < u.Len(); i++ {
			l = append(l, leavesOf(u.At(i).Type())...)
		}
		return l
	case *types.TypeParam:
		return []leaf{{sort: OpqS, kind: lkOther, typ: t}}
	}
	panic(fmt.Sprintf("leavesOf: %v (%T)", t, under(t)))
}

func isStructObj(t types.Type) bool {
	if _, ok := opaqueSort(t); ok {
		return false
	}
	_, ok := under(t).(*types.Struct)
	return ok
}
func isArrayObj(t types.Type) bool {
	_, ok := under(t).(*types.Array)
	return ok
}

// ---- zero values ----

func zeroLeaf(l leaf) *Term {
	switch {
	case l.sort == BoolS:
		return False
	case l.sort == IntS:
		return IntT(0)
	case l.sort == StrS:
		return StrLit("")
	case l.sort == FltS:
		return Const("flt!zero", FltS)
	case strings.HasPrefix(string(l.sort), "(Array"):
		inner := leaf{sort: arrElem(l.sort)}
		return ConstArr(l.sort, zeroLeaf(inner))
	}
	return Const("zero:"+string(l.sort)+":"+typeKey(l.typ), l.sort)
}

func zeroVal(t types.Type) Val {
	v := Val{T: t}
	if tup, ok := t.(*types.Tuple); ok {
		for i := 0; i < tup.Len(); i++ {
			v.Tup = append(v.Tup, zeroVal(tup.At(i).Type()))
		}
		return v
	}
	for _, l := range leavesOf(t) {
		v.L = append(v.L, zeroLeaf(l))
	}
	return v
}

// ---- integer ranges ----

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := under(t).(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := 64
	uns := b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	case types.UntypedInt, types.UntypedRune:
		return nil, nil, false
	}
	one := big.NewInt(1)
	if uns {
		return new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one), true
	}
	h := new(big.Int).Lsh(one, uint(bits-1))
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one), true
}

func inRange(e *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return True
	}
	return And(Le(BigT(lo), e), Le(e, BigT(hi)))
}

// ---- facts about well-typed values ----

func birth(t *Term) *Term { return UF("birth", IntS, t) }

// typeFacts returns the facts every well-typed value of type T satisfies.
func (r *Run) typeFacts(v Val, now *Term) *Term {
	if len(v.Tup) > 0 {
		var fs []*Term
		for _, x := range v.Tup {
			fs = append(fs, r.typeFacts(x, now))
		}
		return And(fs...)
	}
	var fs []*Term
	ls := leavesOf(v.T)
	for i, l := range ls {
		t := v.L[i]
		if t.isLit() || t.bound {
			continue
		}
		switch l.kind {
		case lkInt:
			if t.op == "uf:"+fnSat || t.op == "uf:"+fnSlen {
				continue
			}
			fs = append(fs, inRange(t, l.typ))
		case lkRef, lkSliceBase, lkTag:
			if t.fresh {
				continue
			}
			fs = append(fs, Le(IntT(0), t))
			if now != nil && l.kind != lkTag {
				fs = append(fs, Le(birth(t), now))
			}
		case lkPayload:
			if now != nil && !t.fresh {
				fs = append(fs, Le(birth(t), now))
			}
			tag := v.L[i-1]
			fs = append(fs, Imp(Eq(tag, IntT(0)), Eq(t, IntT(0))))
		case lkSliceOff:
			base, ln, cp := v.L[i-1], v.L[i+1], v.L[i+2]
			fs = append(fs, Le(IntT(0), t), Le(IntT(0), ln), Le(ln, cp), Le(Add(t, cp), IntT(maxLen)), Imp(Eq(base, IntT(0)), Eq(cp, IntT(0))))
		case lkArr:
		}
	}
	return And(fs...)
}

// freshVal makes an arbitrary value of type T.
func (r *Run) freshVal(prefix string, t types.Type, pc *Term, now *Term) Val {
	if tup, ok := t.(*types.Tuple); ok {
		v := Val{T: t}
		for i := 0; i < tup.Len(); i++ {
			v.Tup = append(v.Tup, r.freshVal(fmt.Sprintf("%s.%d", prefix, i), tup.At(i).Type(), pc, now))
		}
		return v
	}
	v := Val{T: t}
	for _, l := range leavesOf(t) {
		n := prefix
		if l.path != "" {
			n += "." + l.path
		}
		v.L = append(v.L, Fresh(n, l.sort))
	}
	r.assume(True, r.typeFacts(v, now))
	return v
}

// ---- memory ----

func subRef(st types.Type, field string, base *Term) *Term {
	return UF("sub:"+typeKey(st)+"."+field, IntS, base)
}

func elemRef(et types.Type, base, i *Term) *Term { return UF("elem:"+typeKey(et), IntS, base, i) }

type fieldKey struct {
	st string
	f  string
}

// fieldAddr computes the address of field i of the struct of type T at base.
func (r *Run) fieldAddr(t types.Type, i int, base *Term) Val {
	st := under(t).(*types.Struct)
	f := st.Field(i)
	pt := types.NewPointer(f.Type())
	if isStructObj(f.Type()) || isArrayObj(f.Type()) {
		return Val{T: pt, L: []*Term{r.interior(subRef(t, f.Name(), base), base)}}
	}
	if r.eng.escaping[fieldKey{typeKey(t), f.Name()}] {
		ref := r.interior(UF("addr:"+typeKey(t)+"."+f.Name(), IntS, base), base)
		return Val{T: pt, L: []*Term{ref}}
	}
	return Val{T: pt, Addr: &Addr{heap: "F:" + typeKey(t) + "." + f.Name(), T: f.Type(), idx: base}}
}

// refKinds numbers the kinds of interior references.
var refKinds = map[string]int{}

// interior registers the ground facts of an interior reference.
func (r *Run) interior(ref, base *Term) *Term {
	if ref.bound || r.factDone[ref] {
		return ref
	}
	r.factDone[ref] = true
	r.factLog = append(r.factLog, ref)
	kind := 0
	if k, ok := refKinds[ref.op]; ok {
		kind = k
	} else {
		kind = len(refKinds) + 1
		refKinds[ref.op] = kind
	}
	facts := []*Term{
		Lt(IntT(0), ref),
		Eq(UF("kind", IntS, ref), IntT(int64(kind))),
		Eq(birth(ref), birth(base)),
	}
	for i, a := range ref.args {
		facts = append(facts, Eq(UF(fmt.Sprintf("inv%d:%s", i, ref.op), IntS, ref), a))
	}
	was := r.noOrigin
	r.noOrigin = true
	r.assume(True, And(facts...))
	r.noOrigin = was
	return ref
}

// ptrAddr gives the location designated by pointer value p (elem type T), when
// T is scalar-like.
func (r *Run) cellAddr(t types.Type, ref *Term) *Addr {
	return &Addr{heap: "C:" + typeKey(t), T: t, idx: ref}
}

func heapSort(a *Addr, l leaf) Sort {
	if a.idx2 != nil {
		return ArrS(IntS, ArrS(IntS, l.sort))
	}
	return ArrS(IntS, l.sort)
}

func hname(base string, i, n int) string {
	if n == 1 {
		return base
	}
	return fmt.Sprintf("%s#%d", base, i)
}

func (r *Run) loadAddr(st *State, a *Addr, pc *Term) Val {
	v := Val{T: a.T}
	ls := leavesOf(a.T)
	for i, l := range ls {
		h := st.get(hname(a.heap, i, len(ls)), heapSort(a, l))
		t := Select(h, a.idx)
		if a.idx2 != nil {
			t = Select(t, a.idx2)
		}
		v.L = append(v.L, t)
	}
	if !hasBound(v) {
		r.assume(pc, r.typeFacts(v, st.now))
		// what the initial heap holds for an object that existed on entry
		// existed on entry as well
		for i, l := range ls {
			t := v.L[i]
			now0 := Const("now0", IntS)
			if (l.kind == lkRef || l.kind == lkSliceBase || l.kind == lkPayload) && st.now != now0 && !a.idx.fresh && !t.isLit() && !t.fresh && fromInitialHeap(t) {
				r.assume(pc, Imp(Le(birth(a.idx), now0), Le(birth(t), now0)))
			}
		}
		if r.eng.nonnull[a.heap] && len(v.L) == 1 {
			r.assume(pc, Neq(v.L[0], IntT(0)))
		}
	}
	return v
}

func fromInitialHeap(t *Term) bool {
	for t.op == "select" {
		t = t.args[0]
	}
	return strings.HasPrefix(t.op, "uf:H0:") && len(t.args) == 0
}

func hasBound(v Val) bool {
	for _, t := range v.L {
		if t.bound {
			return true
		}
	}
	return false
}

func (r *Run) storeAddr(st *State, a *Addr, v Val) {
	ls := leavesOf(a.T)
	if len(ls) != len(v.L) {
		panic(fmt.Sprintf("store: leaf mismatch %v (%d) <- %v (%d)", a.T, len(ls), v.T, len(v.L)))
	}
	for i, l := range ls {
		n := hname(a.heap, i, len(ls))
		h := st.get(n, heapSort(a, l))
		if a.idx2 != nil {
			st.h[n] = StoreT(h, a.idx, StoreT(Select(h, a.idx), a.idx2, v.L[i]))
		} else {
			st.h[n] = StoreT(h, a.idx, v.L[i])
		}
	}
}

// load reads a value of type T through pointer p.
func (r *Run) load(st *State, p Val, t types.Type, pc *Term) Val {
	if p.Addr != nil {
		return r.loadAddr(st, p.Addr, pc)
	}
	return r.loadRef(st, t, p.one(), pc)
}

func (r *Run) loadRef(st *State, t types.Type, ref *Term, pc *Term) Val {
	switch {
	case isStructObj(t):
		s := under(t).(*types.Struct)
		v := Val{T: t}
		for i := 0; i < s.NumFields(); i++ {
			fa := r.fieldAddr(t, i, ref)
			v.L = append(v.L, r.load(st, fa, s.Field(i).Type(), pc).L...)
		}
		return v
	case isArrayObj(t):
		et := under(t).(*types.Array).Elem()
		if isStructObj(et) || isArrayObj(et) {
			return r.freshVal("arrload", t, pc, st.now)
		}
		v := Val{T: t}
		ls := leavesOf(et)
		for i, l := range ls {
			h := st.get(hname("E:"+typeKey(et), i, len(ls)), ArrS(IntS, ArrS(IntS, l.sort)))
			v.L = append(v.L, Select(h, ref))
		}
		return v
	}
	return r.loadAddr(st, r.cellAddr(t, ref), pc)
}

func (r *Run) store(st *State, p Val, t types.Type, v Val) {
	if p.Addr != nil {
		r.storeAddr(st, p.Addr, v)
		return
	}
	r.storeRef(st, t, p.one(), v)
}

func (r *Run) storeRef(st *State, t types.Type, ref *Term, v Val) {
	switch {
	case isStructObj(t):
		s := under(t).(*types.Struct)
		k := 0
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			n := len(leavesOf(ft))
			fa := r.fieldAddr(t, i, ref)
			r.store(st, fa, ft, Val{T: ft, L: v.L[k : k+n]})
			k += n
		}
		return
	case isArrayObj(t):
		et := under(t).(*types.Array).Elem()
		if isStructObj(et) || isArrayObj(et) {
			return // contents of arrays of structs are left unconstrained
		}
		ls := leavesOf(et)
		for i, l := range ls {
			n := hname("E:"+typeKey(et), i, len(ls))
			h := st.get(n, ArrS(IntS, ArrS(IntS, l.sort)))
			st.h[n] = StoreT(h, ref, v.L[i])
		}
		return
	}
	r.storeAddr(st, r.cellAddr(t, ref), v)
}

// elemAddr is the address of element i (absolute index) of the backing array.
func (r *Run) elemAddr(et types.Type, base, i *Term) Val {
	pt := types.NewPointer(et)
	if isStructObj(et) || isArrayObj(et) {
		return Val{T: pt, L: []*Term{r.interior(elemRef(et, base, i), base)}}
	}
	return Val{T: pt, Addr: &Addr{heap: "E:" + typeKey(et), T: et, idx: base, idx2: i}}
}

// newRef allocates a fresh object.
func (r *Run) newRef(st *State, prefix string) *Term {
	ref := FreshRef(prefix)
	n := Add(st.now, IntT(1))
	st.now = n
	r.assume(True, And(Lt(IntT(0), ref), Eq(birth(ref), n), Eq(UF("kind", IntS, ref), IntT(0))))
	r.locals[ref] = true
	return ref
}

// heapNames lists the heap arrays (name -> sort) holding a value of type T at
// some reference; used for havoc.
func (r *Run) heapNamesOf(t types.Type, esc func(st types.Type, f string) bool) map[string]Sort {
	m := map[string]Sort{}
	var rec func(t types.Type)
	rec = func(t types.Type) {
		switch {
		case isStructObj(t):
			s := under(t).(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if isStructObj(f.Type()) || isArrayObj(f.Type()) {
					rec(f.Type())
					continue
				}
				base := "F:" + typeKey(t) + "." + f.Name()
				if r.eng.escaping[fieldKey{typeKey(t), f.Name()}] {
					base = "C:" + typeKey(f.Type())
				}
				ls := leavesOf(f.Type())
				for i, l := range ls {
					m[hname(base, i, len(ls))] = ArrS(IntS, l.sort)
				}
			}
		case isArrayObj(t):
			et := under(t).(*types.Array).Elem()
			if isStructObj(et) || isArrayObj(et) {
				rec(et)
				return
			}
			ls := leavesOf(et)
			for i, l := range ls {
				m[hname("E:"+typeKey(et), i, len(ls))] = ArrS(IntS, ArrS(IntS, l.sort))
			}
		default:
			ls := leavesOf(t)
			for i, l := range ls {
				m[hname("C:"+typeKey(t), i, len(ls))] = ArrS(IntS, l.sort)
			}
		}
	}
	rec(t)
	return m
}

// ---- maps ----

func keySort(kt types.Type) Sort {
	ls := leavesOf(kt)
	if len(ls) == 1 {
		return ls[0].sort
	}
	return IntS
}

func mapKeyTerm(k Val) *Term {
	if len(k.L) == 1 {
		return k.L[0]
	}
	return UF("key:"+typeKey(k.T), IntS, k.L...)
}

func mapHeaps(mt *types.Map) (dom string, domS Sort, lenN string, vals []string, valS []Sort) {
	key := "M:" + typeKey(mt)
	ks := keySort(mt.Key())
	dom, domS = key+".dom", ArrS(IntS, ArrS(ks, BoolS))
	lenN = key + ".len"
	ls := leavesOf(mt.Elem())
	for i, l := range ls {
		vals = append(vals, hname(key+".val", i, len(ls)))
		valS = append(valS, ArrS(IntS, ArrS(ks, l.sort)))
	}
	return
}

func mapType(t types.Type) *types.Map { return under(t).(*types.Map) }

// mapGet returns (value or zero, present).
func (r *Run) mapGet(st *State, m Val, k Val, pc *Term) (Val, *Term) {
	mt := mapType(m.T)
	dom, domS, _, vals, valS := mapHeaps(mt)
	kt := mapKeyTerm(k)
	ref := m.one()
	has := And(Neq(ref, IntT(0)), Select(Select(st.get(dom, domS), ref), kt))
	v := Val{T: mt.Elem()}
	z := zeroVal(mt.Elem())
	raw := Val{T: mt.Elem()}
	for i := range vals {
		t := Select(Select(st.get(vals[i], valS[i]), ref), kt)
		raw.L = append(raw.L, t)
		v.L = append(v.L, Ite(has, t, z.L[i]))
	}
	if !hasBound(raw) && !has.bound {
		r.assume(And(pc, has), r.typeFacts(raw, st.now))
		if r.eng.nonnull[dom[:len(dom)-4]] && len(raw.L) == 1 {
			r.assume(And(pc, has), Neq(raw.L[0], IntT(0)))
		}
	}
	return v, has
}

func (r *Run) mapLen(st *State, m Val, pc *Term) *Term {
	_, _, ln, _, _ := mapHeaps(mapType(m.T))
	ref := m.one()
	t := Select(st.get(ln, ArrS(IntS, IntS)), ref)
	if !t.bound {
		r.assume(pc, And(Le(IntT(0), t), Le(t, IntT(maxLen))))
		// an empty map has an empty domain, a non-empty one has some key
		dom, domS, _, _, _ := mapHeaps(mapType(m.T))
		ks := keySort(mapType(m.T).Key())
		d := Select(st.get(dom, domS), ref)
		w := UF("mapwit:"+string(ks), ks, d)
		r.assume(pc, Imp(Lt(IntT(0), t), Select(d, w)))
		bv := BoundVar("k", ks)
		r.assume(pc, Imp(Eq(t, IntT(0)), Forall([]*Term{bv}, Not(Select(d, bv)), []*Term{Select(d, bv)})))
	}
	return Ite(Eq(ref, IntT(0)), IntT(0), t)
}

func (r *Run) mapSet(st *State, m Val, k, v Val) {
	mt := mapType(m.T)
	dom, domS, ln, vals, valS := mapHeaps(mt)
	kt := mapKeyTerm(k)
	ref := m.one()
	d := st.get(dom, domS)
	row := Select(d, ref)
	lh := st.get(ln, ArrS(IntS, IntS))
	l := Select(lh, ref)
	st.h[ln] = StoreT(lh, ref, Ite(Select(row, kt), l, Add(l, IntT(1))))
	st.h[dom] = StoreT(d, ref, StoreT(row, kt, True))
	for i := range vals {
		h := st.get(vals[i], valS[i])
		st.h[vals[i]] = StoreT(h, ref, StoreT(Select(h, ref), kt, v.L[i]))
	}
}

func (r *Run) mapDelete(st *State, m Val, k Val) {
	mt := mapType(m.T)
	dom, domS, ln, _, _ := mapHeaps(mt)
	kt := mapKeyTerm(k)
	ref := m.one()
	d := st.get(dom, domS)
	row := Select(d, ref)
	lh := st.get(ln, ArrS(IntS, IntS))
	l := Select(lh, ref)
	isnil := Eq(ref, IntT(0))
	st.h[ln] = Ite(isnil, lh, StoreT(lh, ref, Ite(Select(row, kt), Sub(l, IntT(1)), l)))
	st.h[dom] = Ite(isnil, d, StoreT(d, ref, StoreT(row, kt, False)))
}

func (r *Run) mapNew(st *State, t types.Type) Val {
	ref := r.newRef(st, "map")
	mt := mapType(t)
	dom, domS, ln, _, _ := mapHeaps(mt)
	d := st.get(dom, domS)
	st.h[dom] = StoreT(d, ref, ConstArr(arrElem(domS), False))
	lh := st.get(ln, ArrS(IntS, IntS))
	st.h[ln] = StoreT(lh, ref, IntT(0))
	return Val{T: t, L: []*Term{ref}}
}

// ---- escape prepass ----

// computeEscaping finds struct fields (of scalar type) whose address is used
// other than for an immediate load or store.
func computeEscaping(fns map[*ssa.Function]bool) (map[fieldKey]bool, map[fieldKey]types.Type) {
	esc := map[fieldKey]bool{}
	flags := map[fieldKey]bool{}
	typ := map[fieldKey]types.Type{}
	for fn := range fns {
		usesFlags := callsPkg(fn, "flag")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				t := fa.X.Type().Underlying().(*types.Pointer).Elem()
				st := under(t).(*types.Struct)
				f := st.Field(fa.Field)
				if isStructObj(f.Type()) || isArrayObj(f.Type()) {
					continue
				}
				for _, ref := range *fa.Referrers() {
					switch x := ref.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if x.Addr == fa && x.Val != fa {
							continue
						}
					case *ssa.DebugRef:
						continue
					}
					k := fieldKey{typeKey(t), f.Name()}
					esc[k] = true
					typ[k] = f.Type()
					if usesFlags {
						flags[k] = true
					}
				}
			}
		}
	}
	for k := range flags {
		delete(typ, k)
	}
	return esc, typ
}

func callsPkg(fn *ssa.Function, pkg string) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == pkg {
					return true
				}
			}
		}
	}
	return false
}
