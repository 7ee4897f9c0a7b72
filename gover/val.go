package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: a term, an address, a tuple, a function value or an
// iterator.
type Val struct {
	T    Term
	Typ  types.Type
	L    *Lval
	Tup  []Val
	Fn   *ssa.Function
	Bind []Val
	Bnd  *Val // bound receiver (method values)
	Nat  string
	It   *iterVar
	Zero *Term  // guard under which the address is nil (unused when empty)
	Bad  string // unusable value (reported when used)
	Ch   string
	Org  *guardOrg // guarded field this value was reached through
}

type lkind int

const (
	lLocal lkind = iota
	lField
	lCell
	lElem
	lGlobal
	lAmb // through a pointer that may be a cell or a field address
)

// addrAlt is one kind of field whose address a pointer may hold.
type addrAlt struct {
	heap, inv, kind string
	tag             int
	own, ft         types.Type
	fi              int
}

// Lval is a memory location.
type Lval struct {
	Kind lkind
	Loc  *localVar
	Heap string
	Ref  Term
	Idx  Term
	Root types.Type // type stored at the root location
	Own  types.Type // struct type owning the field (lField)
	FI   int
	Path []int
	T    types.Type // type of the addressed location
	Alts []addrAlt
	Oth  bool
}

func sameVal(a, b Val) bool {
	if a.Fn != nil || b.Fn != nil {
		if a.Fn != b.Fn || len(a.Bind) != len(b.Bind) {
			return false
		}
		for i := range a.Bind {
			if !sameVal(a.Bind[i], b.Bind[i]) {
				return false
			}
		}
		return true
	}
	if (a.L == nil) != (b.L == nil) {
		return false
	}
	if a.L != nil {
		return lvKey(a.L) == lvKey(b.L)
	}
	if len(a.Tup) != len(b.Tup) {
		return false
	}
	for i := range a.Tup {
		if !sameVal(a.Tup[i], b.Tup[i]) {
			return false
		}
	}
	if a.It != b.It || a.Bad != b.Bad || a.Nat != b.Nat {
		return false
	}
	return a.T.S == b.T.S && a.T.Sort == b.T.Sort
}

func lvKey(l *Lval) string {
	return fmt.Sprintf("%d/%p/%s/%s/%s/%d/%v", l.Kind, l.Loc, l.Heap, l.Ref.S, l.Idx.S, l.FI, l.Path)
}

// isOpaque: struct types the verifier treats as having no readable content
// (locks, wait groups, external library structs).
func isOpaque(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	if isRepoPkg(n.Obj().Pkg()) {
		return false
	}
	_, isS := n.Underlying().(*types.Struct)
	if !isS {
		return false
	}
	k := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return !transparentExt[k]
}

// external structs whose fields the verifier models
var transparentExt = map[string]bool{
	"container/list.Element":                 true,
	"github.com/google/flatbuffers/go.Table": true,
	"net/http.Request":                       true,
	"github.com/gin-gonic/gin.Context":       true,
}

// asTerm turns a value into an SMT term.
func (v *VC) asTerm(st *State, x Val) Term {
	if x.Bad != "" {
		return Term{}
	}
	if x.L != nil {
		return v.addrTerm(x.L)
	}
	if x.Fn != nil || x.Nat != "" {
		// a function value that escapes: an opaque non-nil reference
		nm := x.Nat
		if x.Fn != nil {
			nm = funcKey(x.Fn)
		}
		var as []string
		var ts []Term
		for _, b := range x.Bind {
			t := v.asTerm(st, b)
			if !t.ok() {
				return Term{}
			}
			as = append(as, t.Sort)
			ts = append(ts, t)
		}
		f := v.declFun("fn:"+nm+fmt.Sprintf("/%d", len(as)), as, "Int")
		var r Term
		if len(ts) == 0 {
			r = Term{f, "Int"}
		} else {
			r = app("Int", f, ts...)
		}
		v.preDecl(fmt.Sprintf("(assert (distinct 0 %s))", func() string {
			if len(ts) == 0 {
				return f
			}
			return "1"
		}()))
		return r
	}
	return x.T
}

// addrTerm names an address; field addresses are injective negative integers.
func (v *VC) addrTerm(l *Lval) Term {
	switch l.Kind {
	case lCell:
		if len(l.Path) == 0 {
			return l.Ref
		}
	case lField:
		name := fmt.Sprintf("addr!%s.%d%v", typeKey(l.Own), l.FI, l.Path)
		f := v.declFun(name, []string{"Int"}, "Int")
		inv := v.declFun("inv"+name, []string{"Int"}, "Int")
		kind := v.declFun("addrkind", []string{"Int"}, "Int")
		tag, ok := v.tags[name]
		if !ok {
			tag = len(v.tags) + 1
			v.tags[name] = tag
		}
		v.preDecl(fmt.Sprintf("(assert (forall ((r Int)) (! (and (< (%s r) 0) (= (%s (%s r)) r) (= (%s (%s r)) %d)) :pattern ((%s r)))))", f, inv, f, kind, f, tag, f))
		if len(l.Path) == 0 {
			v.addAlt(l.T, addrAlt{l.Heap, inv, kind, tag, l.Own, l.T, l.FI})
		} else {
			v.otherAddr(l.T)
		}
		t := app("Int", f, l.Ref)
		v.allLvs[t.S] = l
		return t
	case lElem:
		name := fmt.Sprintf("addr!%s%v", l.Heap, l.Path)
		f := v.declFun(name, []string{"Int", "Int"}, "Int")
		v.preDecl(fmt.Sprintf("(assert (forall ((r Int) (i Int)) (! (< (%s r i) 0) :pattern ((%s r i)))))", f, f))
		v.otherAddr(l.T)
		t := app("Int", f, l.Ref, l.Idx)
		v.allLvs[t.S] = l
		return t
	case lGlobal:
		t := v.constant("addr!"+l.Heap+fmt.Sprint(l.Path), "Int")
		v.preDecl(fmt.Sprintf("(assert (< %s 0))", t.S))
		v.otherAddr(l.T)
		v.allLvs[t.S] = l
		return t
	}
	return Term{}
}

func (v *VC) addAlt(t types.Type, a addrAlt) {
	if t == nil || isOpaque(t) || isStructObj(t) {
		return
	}
	k := typeKey(t)
	for _, b := range v.addrAlts[k] {
		if b.tag == a.tag {
			return
		}
	}
	if v.cellUsed[k] {
		v.lateAddr(k)
	}
	v.addrAlts[k] = append(v.addrAlts[k], a)
}

func (v *VC) otherAddr(t types.Type) {
	if t == nil || isOpaque(t) || isStructObj(t) {
		return
	}
	k := typeKey(t)
	if !v.addrOther[k] && v.cellUsed[k] {
		v.lateAddr(k)
	}
	v.addrOther[k] = true
}

// lateAddr: pointers of this type were already read as plain cells.
func (v *VC) lateAddr(k string) {
	v.lateAddrs[k] = true
}

// declared lists the fields whose address may be held by pointers to et
// because a contract says so.
func (v *VC) declared(et types.Type) {
	k := typeKey(et)
	if v.addrDecl[k] {
		return
	}
	v.addrDecl[k] = true
	for _, d := range v.DB.Addressed {
		t, err := v.DB.lookupNamed(d.Type)
		if err != nil {
			continue
		}
		n, ok := t.(*types.Named)
		if !ok {
			continue
		}
		var own types.Type = n
		if n.TypeParams().Len() == 1 {
			own, err = types.Instantiate(nil, n, []types.Type{et}, false)
			if err != nil {
				continue
			}
		}
		s, ok := own.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == d.Field && typeKey(s.Field(i).Type()) == k {
				v.addrTerm(&Lval{Kind: lField, Heap: v.fieldHeap(own, i), Ref: tInt(0), Root: et, Own: own, FI: i, T: et})
			}
		}
	}
}

// rootVal reads the root location of an address.
func (v *VC) rootVal(st *State, l *Lval) Val {
	switch l.Kind {
	case lLocal:
		x, ok := st.locals[l.Loc]
		if !ok {
			return Val{Typ: l.Root, T: v.zero(l.Root)}
		}
		return x
	case lField, lCell:
		return Val{Typ: l.Root, T: tSel(v.getH(st, l.Heap), l.Ref)}
	case lElem:
		return Val{Typ: l.Root, T: tSel(tSel(v.getH(st, l.Heap), l.Ref), l.Idx)}
	case lGlobal:
		return Val{Typ: l.Root, T: v.getH(st, l.Heap)}
	case lAmb:
		var t Term
		if l.Oth {
			t = v.fresh("unk", v.sortOf(l.T))
		}
		for i, a := range l.Alts {
			x := tSel(v.getH(st, a.heap), app("Int", a.inv, l.Ref))
			if i == 0 && !t.ok() {
				t = x
				continue
			}
			t = tIte(l.isAlt(a), x, t)
		}
		return Val{Typ: l.Root, T: v.defAlways("cell", tIte(app("Bool", "<=", tInt(0), l.Ref), tSel(v.getH(st, l.Heap), l.Ref), t))}
	}
	panic("rootVal")
}

// readL reads an address.
func (v *VC) readL(st *State, l *Lval) Val {
	// a pointer to a heap struct object
	x := v.rootVal(st, l)
	if len(l.Path) == 0 {
		if x.Typ == nil {
			x.Typ = l.T
		}
		return x
	}
	t := x.T
	typ := l.Root
	for _, i := range l.Path {
		si := v.structOf(typ)
		t = si.sel(t, i)
		typ = si.T.Field(i).Type()
	}
	return Val{T: t, Typ: l.T}
}

func (v *VC) updPath(root Term, typ types.Type, path []int, x Term) Term {
	if len(path) == 0 {
		return x
	}
	si := v.structOf(typ)
	var fs []Term
	for i := range si.Sels {
		if i == path[0] {
			fs = append(fs, v.updPath(si.sel(root, i), si.T.Field(i).Type(), path[1:], x))
		} else {
			fs = append(fs, si.sel(root, i))
		}
	}
	return si.mk(fs)
}

// writeL writes an address.
func (v *VC) writeL(st *State, l *Lval, x Val) {
	if l.Kind == lLocal && len(l.Path) == 0 {
		if x.Fn == nil && x.L == nil && x.Tup == nil && x.T.ok() {
			x.T = v.def(l.Loc.name, x.T)
		}
		st.locals[l.Loc] = x
		for _, r := range v.recs {
			r.locals[l.Loc] = true
		}
		return
	}
	t := v.asTerm(st, x)
	if !t.ok() {
		v.unsupported(st, "store of an unmodelled value")
		return
	}
	if len(l.Path) > 0 {
		root := v.rootVal(st, l)
		t = v.updPath(root.T, l.Root, l.Path, t)
	}
	switch l.Kind {
	case lLocal:
		st.locals[l.Loc] = Val{T: v.def(l.Loc.name, t), Typ: l.Root}
		for _, r := range v.recs {
			r.locals[l.Loc] = true
		}
	case lField, lCell:
		v.storeAt(st, l.Heap, l.Ref, t)
	case lAmb:
		if l.Oth {
			v.unsupported(st, "store through a pointer that may address an element")
		}
		upd := func(heap string, c, r Term) {
			h := v.getH(st, heap)
			v.recAny(heap)
			v.setH(st, heap, tIte(c, tStore(h, r, t), h))
		}
		upd(l.Heap, app("Bool", "<=", tInt(0), l.Ref), l.Ref)
		for _, a := range l.Alts {
			upd(a.heap, l.isAlt(a), app("Int", a.inv, l.Ref))
		}
	case lElem:
		h := v.getH(st, l.Heap)
		v.recTarget(l.Heap, l.Ref, l.Idx)
		v.setH(st, l.Heap, tStore(h, l.Ref, tStore(tSel(h, l.Ref), l.Idx, t)))
	case lGlobal:
		v.recTarget(l.Heap, Term{}, Term{})
		v.setH(st, l.Heap, t)
	}
}

// isAlt: the pointer is the address of such a field.
func (l *Lval) isAlt(a addrAlt) Term {
	return tAnd(app("Bool", "<", l.Ref, tInt(0)), tEq(app("Int", a.kind, l.Ref), tInt(int64(a.tag))))
}

// isNew: the term is a reference allocated by the verified code itself.
func (v *VC) isNew(t Term) bool { return v.newRefs[t.S] }

// ptrLval turns a pointer value into the location it addresses. For pointers
// to (non-opaque) structs it returns nil unless the value is an address; use
// fieldOf to reach fields.
func (v *VC) ptrLval(p Val) *Lval {
	if p.L != nil {
		return p.L
	}
	if l, ok := v.allLvs[p.T.S]; ok {
		return l
	}
	et := under(p.Typ).(*types.Pointer).Elem()
	if !isStructObj(et) {
		v.declared(et)
		k := typeKey(et)
		if as := v.addrAlts[k]; (len(as) > 0 || v.addrOther[k]) && !v.isNew(p.T) {
			return &Lval{Kind: lAmb, Heap: v.cellHeap(et), Ref: p.T, Root: et, T: et, Alts: as, Oth: v.addrOther[k]}
		}
		if !v.isNew(p.T) {
			v.cellUsed[k] = true
		}
		return &Lval{Kind: lCell, Heap: v.cellHeap(et), Ref: p.T, Root: et, T: et}
	}
	return nil
}

// isStructObj: pointers to this type are references to per-field heaps.
func isStructObj(t types.Type) bool {
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false
	}
	_, ok := under(t).(*types.Struct)
	return ok
}

// fieldAddr is &p.f.
func (v *VC) fieldAddr(p Val, structT types.Type, i int) *Lval {
	s := under(structT).(*types.Struct)
	ft := s.Field(i).Type()
	l := p.L
	if l == nil {
		if k, ok := v.allLvs[p.T.S]; ok {
			l = k
		}
	}
	if l != nil {
		n := *l
		n.Path = append(append([]int(nil), l.Path...), i)
		n.T = ft
		return &n
	}
	return &Lval{Kind: lField, Heap: v.fieldHeap(structT, i), Ref: p.T, Root: ft, Own: structT, FI: i, T: ft}
}

// load reads through a pointer.
func (v *VC) load(st *State, p Val) Val {
	et := under(p.Typ).(*types.Pointer).Elem()
	if l := v.ptrLval(p); l != nil {
		x := v.readL(st, l)
		if x.Typ == nil {
			x.Typ = et
		}
		return x
	}
	si := v.structOf(et)
	var fs []Term
	for i := range si.Sels {
		if isOpaque(si.T.Field(i).Type()) {
			fs = append(fs, v.zeroOpaque(si.T.Field(i).Type()))
			continue
		}
		fs = append(fs, tSel(v.getH(st, v.fieldHeap(et, i)), p.T))
	}
	return Val{T: si.mk(fs), Typ: et}
}

func (v *VC) zeroOpaque(t types.Type) Term {
	return v.constant("opaque:"+v.sortOf(t), v.sortOf(t))
}

// store writes through a pointer.
func (v *VC) store(st *State, p Val, x Val) {
	et := under(p.Typ).(*types.Pointer).Elem()
	if l := v.ptrLval(p); l != nil {
		v.writeL(st, l, x)
		return
	}
	t := v.asTerm(st, x)
	if !t.ok() {
		v.unsupported(st, "store of an unmodelled value")
		return
	}
	si := v.structOf(et)
	for i := range si.Sels {
		if isOpaque(si.T.Field(i).Type()) {
			continue
		}
		v.storeAt(st, v.fieldHeap(et, i), p.T, si.sel(t, i))
	}
}

// allocObj allocates a zeroed object of type t and returns the pointer.
func (v *VC) allocObj(st *State, t types.Type) Val {
	r := v.newRef(st)
	pt := types.NewPointer(t)
	switch u := under(t).(type) {
	case *types.Struct:
		if _, tp := types.Unalias(t).(*types.TypeParam); tp {
			break
		}
		if isOpaque(t) {
			v.zeroGhosts(st, t, r)
			return Val{T: r, Typ: pt}
		}
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if isOpaque(ft) {
				l := &Lval{Kind: lField, Heap: v.fieldHeap(t, i), Ref: r, Root: ft, Own: t, FI: i, T: ft}
				v.zeroGhosts(st, ft, v.addrTerm(l))
				continue
			}
			h := v.fieldHeap(t, i)
			v.storeAt(st, h, r, v.zero(ft))
		}
		return Val{T: r, Typ: pt}
	case *types.Array:
		h := v.elemHeap(u.Elem())
		v.storeAt(st, h, r, v.zeroArray("Int", u.Elem()))
		return Val{T: r, Typ: pt}
	}
	v.storeAt(st, v.cellHeap(t), r, v.zero(t))
	return Val{T: r, Typ: pt}
}

// zeroGhosts resets the ghost state attached to a fresh opaque object.
func (v *VC) zeroGhosts(st *State, t types.Type, r Term) {
	k := typeKey(t)
	if k == "sync.WaitGroup" {
		v.storeAt(st, v.kHeap(kWg), r, tInt(0))
	}
	for _, g := range v.DB.GhostOf[k] {
		h, gt, _ := v.ghostHeap(g)
		at := gt.(*specType)
		v.storeAt(st, h, r, v.zero(at.elem))
	}
}

// ---- maps

func (v *VC) newMap(st *State, mt *types.Map) Term {
	d, x, l := v.mapHeaps(mt)
	r := v.newRef(st)
	v.storeAt(st, d, r, emptySet(v.sortOf(mt.Key())))
	v.storeAt(st, x, r, v.zeroArray(v.sortOf(mt.Key()), mt.Elem()))
	v.storeAt(st, l, r, tInt(0))
	return r
}

func (v *VC) mapDom(st *State, mt *types.Map, m Term) Term {
	d, _, _ := v.mapHeaps(mt)
	return tSel(v.getH(st, d), m)
}

func (v *VC) mapVals(st *State, mt *types.Map, m Term) Term {
	_, x, _ := v.mapHeaps(mt)
	return tSel(v.getH(st, x), m)
}

func (v *VC) mapLen(st *State, mt *types.Map, m Term) Term {
	_, _, l := v.mapHeaps(mt)
	return tSel(v.getH(st, l), m)
}

func (v *VC) mapPut(st *State, mt *types.Map, m, k, x Term) {
	dn, xn, ln := v.mapHeaps(mt)
	D, X, L := v.getH(st, dn), v.getH(st, xn), v.getH(st, ln)
	dom := tSel(D, m)
	v.storeAt(st, ln, m, tIte(tSel(dom, k), tSel(L, m), v.plus(tSel(L, m), 1)))
	v.storeAt(st, dn, m, tStore(dom, k, tTrue))
	v.storeAt(st, xn, m, tStore(tSel(X, m), k, x))
}

func (v *VC) mapDel(st *State, mt *types.Map, m, k Term) {
	dn, xn, ln := v.mapHeaps(mt)
	D, X, L := v.getH(st, dn), v.getH(st, xn), v.getH(st, ln)
	dom := tSel(D, m)
	v.storeAt(st, ln, m, tIte(tSel(dom, k), v.plus(tSel(L, m), -1), tSel(L, m)))
	v.storeAt(st, dn, m, tStore(dom, k, tFalse))
	v.storeAt(st, xn, m, tStore(tSel(X, m), k, v.zero(mt.Elem())))
}

// ---- interfaces

func (v *VC) typeTag(t types.Type) int {
	k := "T:" + typeKey(t)
	n, ok := v.tags[k]
	if !ok {
		n = len(v.tags) + 1
		v.tags[k] = n
	}
	return n
}

// boxFns declares the boxing functions of a concrete type.
func (v *VC) boxFns(t types.Type) (box, unbox string, tag int) {
	k := typeKey(t)
	s := v.sortOf(t)
	tag = v.typeTag(t)
	box = v.declFun("box:"+k, []string{s}, "Iface")
	unbox = v.declFun("unbox:"+k, []string{"Iface"}, s)
	v.preDecl(fmt.Sprintf("(assert (forall ((x %s)) (! (and (= (%s (%s x)) x) (= (typ (%s x)) %d)) :pattern ((%s x)))))", s, unbox, box, box, tag, box))
	v.preDecl(fmt.Sprintf("(assert (forall ((i Iface)) (! (=> (= (typ i) %d) (= (%s (%s i)) i)) :pattern ((%s i)))))", tag, box, unbox, unbox))
	return
}

func (v *VC) box(t Term, typ types.Type) Term {
	b, _, _ := v.boxFns(typ)
	return app("Iface", b, t)
}

func (v *VC) unbox(i Term, typ types.Type) Term {
	_, u, _ := v.boxFns(typ)
	b, _, _ := v.boxFns(typ)
	if strings.HasPrefix(i.S, "("+b+" ") {
		if a := sexprArgs(i.S); len(a) == 1 {
			return Term{a[0], v.sortOf(typ)}
		}
	}
	return app(v.sortOf(typ), u, i)
}

// slices
func sArr(t Term) Term { return sliceSel(t, "s.arr", 0) }
func sOff(t Term) Term { return sliceSel(t, "s.off", 1) }
func sLen(t Term) Term { return sliceSel(t, "s.len", 2) }
func sCap(t Term) Term { return sliceSel(t, "s.cap", 3) }

func sliceSel(t Term, f string, i int) Term {
	if t.S == "nilSlice" {
		return tInt(0)
	}
	if strings.HasPrefix(t.S, "(mkSlice ") {
		if a := sexprArgs(t.S); len(a) == 4 {
			return Term{a[i], "Int"}
		}
	}
	return app("Int", f, t)
}

func mkSlice(a, o, l, c Term) Term { return app("Slice", "mkSlice", a, o, l, c) }

func tAdd(a, b Term) Term {
	if a.S == "0" {
		return b
	}
	if b.S == "0" {
		return a
	}
	return app("Int", "+", a, b)
}

// tIx is the index of element i of a slice that starts at off.
func tIx(off, i Term) Term {
	if strings.HasPrefix(off.S, "(ixs ") {
		if a := sexprArgs(off.S); len(a) == 2 {
			return tIx(Term{a[0], "Int"}, tAdd(Term{a[1], "Int"}, i))
		}
	}
	return app("Int", "ix", off, i)
}

// tIxOff is the start of s[lo:].
func tIxOff(off, lo Term) Term {
	if lo.S == "0" {
		return off
	}
	if strings.HasPrefix(off.S, "(ixs ") {
		if a := sexprArgs(off.S); len(a) == 2 {
			return tIxOff(Term{a[0], "Int"}, tAdd(Term{a[1], "Int"}, lo))
		}
	}
	return app("Int", "ixs", off, lo)
}

func tSub(a, b Term) Term {
	if b.S == "0" {
		return a
	}
	return app("Int", "-", a, b)
}
