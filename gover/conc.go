package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Concurrency: goroutines are executed at the point where they are started;
// race obligations justify that order (see DESIGN.md).

type goSite struct {
	ins    ssa.Instruction
	wg     string
	sends  map[string]Term
	waited map[string]bool
	closes bool
	joined bool
	multi  bool
}

type gorInst struct {
	site  *goSite
	alloc Term
	snap  *State
}

type concInfo struct {
	cur     *gorInst
	sites   []*goSite
	used    bool
	localCh map[string]bool
	gorRecv map[string]bool // a goroutine receives from the channel
	closers map[string]map[string]bool
	parentW map[string]bool
	locked  map[string]bool
}

func newConc() *concInfo {
	return &concInfo{localCh: map[string]bool{}, gorRecv: map[string]bool{}, closers: map[string]map[string]bool{}, parentW: map[string]bool{}, locked: map[string]bool{}}
}

const kLock, kWg, kChN, kChCap, kChSent, kChClosed, kLive, kDone = "K!lock", "K!wg", "K!chn", "K!chcap", "K!nsent", "K!closed", "K!live", "K!done"

func (vc *VC) kHeap(name string) string {
	if _, ok := vc.heapS[name]; ok {
		return name
	}
	switch name {
	case kLock, kWg, kChN, kChCap, kChSent:
		vc.declHeap(name, arr("Int", "Int"), nil)
		if name == kLock {
			vc.preDecl(fmt.Sprintf("(declare-const %s (Array Int Int))", sym(name+"!0")))
			vc.consts[sym(name+"!0")] = true
			vc.preDecl(fmt.Sprintf("(assert (= %s ((as const (Array Int Int)) 0)))", sym(name+"!0")))
		}
	case kChClosed:
		vc.declHeap(name, arr("Int", "Bool"), nil)
	case kLive, kDone:
		vc.declHeap(name, "Bool", nil)
		n := sym(name + "!0")
		vc.consts[n] = true
		vc.preDecl(fmt.Sprintf("(define-fun %s () Bool false)", n))
	}
	return name
}

func (vc *VC) chSets(et types.Type) (sent, rcv string) {
	k := typeKey(et)
	sent, rcv = "K!sent]"+k, "K!rcv]"+k
	if _, ok := vc.heapS[sent]; !ok {
		s := vc.sortOf(et)
		vc.declHeap(sent, arr("Int", arr(s, "Bool")), nil)
		vc.declHeap(rcv, arr("Int", arr(s, "Bool")), nil)
	}
	return
}

// raceHeaps declares the access sets of a heap.
func (vc *VC) raceHeaps(h string) (w, r string, slots bool) {
	w, r = "K!WR!"+h, "K!RD!"+h
	slots = strings.HasPrefix(h, "A!")
	if _, ok := vc.heapS[w]; !ok {
		s := arr("Int", "Bool")
		z := emptySet("Int")
		if slots {
			s = arr("Int", s)
			z = Term{fmt.Sprintf("((as const %s) %s)", s, z.S), s}
		}
		for _, n := range []string{w, r} {
			vc.declHeap(n, s, nil)
			c := sym(n + "!0")
			vc.consts[c] = true
			vc.preDecl(fmt.Sprintf("(declare-const %s %s)", c, s))
			vc.preDecl(fmt.Sprintf("(assert (= %s %s))", c, z.S))
		}
	}
	return
}

func (fr *Frame) raceAccess(st *State, h string, ref, idx Term, cond Term, write bool, what string) {
	vc := fr.vc
	if !vc.conc.used || strings.HasPrefix(h, "X!") || vc.noDef > 0 {
		return
	}
	if !ref.ok() {
		ref = tInt(0)
	}
	w, r, slots := vc.raceHeaps(h)
	at := func(s *State, name string) Term {
		t := tSel(vc.getH(s, name), ref)
		if slots {
			if !idx.ok() {
				return tFalse
			}
			t = tSel(t, idx)
		}
		return t
	}
	kind := "read"
	if write {
		kind = "write"
	}
	if cur := vc.conc.cur; cur != nil {
		conf := at(cur.snap, w)
		if write {
			conf = tOr(conf, at(cur.snap, r))
		}
		old := app("Bool", "<", ref, cur.alloc)
		fr.safety(st, "data race: "+kind+" of "+what+" in a goroutine", tImp(tAnd(cond, old), tNot(conf)))
		if d := vc.getH(st, vc.kHeap(kDone)); d.S != sym(kDone+"!0") && d.S != "false" {
			fr.safety(st, "effect after WaitGroup.Done", tImp(cond, tNot(d)))
		}
		n := r
		if write {
			n = w
		}
		cur0 := vc.getH(st, n)
		var nv Term
		if slots {
			nv = tStore(cur0, ref, tStore(tSel(cur0, ref), idx, tTrue))
		} else {
			nv = tStore(cur0, ref, tTrue)
		}
		g := tAnd(cond, old)
		vc.recTarget(n, ref, idx)
		vc.setH(st, n, tIte(g, nv, cur0))
		return
	}
	live := vc.getH(st, vc.kHeap(kLive))
	conf := at(st, w)
	if write {
		conf = tOr(conf, at(st, r))
	}
	fr.safety(st, "data race: "+kind+" of "+what+" while goroutines run", tImp(tAnd(cond, live), tNot(conf)))
}

// access checks a read or write through a pointer.
func (fr *Frame) access(st *State, p Val, write bool) {
	vc := fr.vc
	if vc.noDef > 0 {
		return
	}
	l := p.L
	if l == nil {
		l = vc.ptrLval(p)
	}
	if l == nil {
		et := under(p.Typ).(*types.Pointer).Elem()
		if s, ok := under(et).(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if !isOpaque(s.Field(i).Type()) {
					fr.raceAccess(st, vc.fieldHeap(et, i), p.T, Term{}, tTrue, write, "a struct")
				}
			}
		}
		return
	}
	switch l.Kind {
	case lLocal:
		fr.localAccess(st, l.Loc, write)
	case lField:
		fr.guardField(st, l, write)
		fr.raceAccess(st, l.Heap, l.Ref, Term{}, tTrue, write, "field "+l.Heap[2:])
		fr.givenWrite(st, l.Ref, write)
	case lCell:
		fr.raceAccess(st, l.Heap, l.Ref, Term{}, tTrue, write, "a shared variable")
		if write {
			fr.ownRule(st, l.Ref, write, "a variable")
		}
	case lAmb:
		fr.raceAccess(st, l.Heap, l.Ref, Term{}, app("Bool", "<=", tInt(0), l.Ref), write, "a shared variable")
		for _, a := range l.Alts {
			fr.raceAccess(st, a.heap, app("Int", a.inv, l.Ref), Term{}, l.isAlt(a), write, "field "+a.heap[2:])
		}
	case lElem:
		fr.raceAccess(st, l.Heap, l.Ref, l.Idx, tTrue, write, "a slice element")
		if write {
			fr.ownRule(st, l.Ref, write, "a slice element")
		}
		fr.givenWrite(st, l.Ref, write)
	case lGlobal:
		fr.raceAccess(st, l.Heap, tInt(0), Term{}, tTrue, write, "a global variable")
		if write && vc.Prop == ownProp {
			vc.goal(st, "guard", "no write to a global variable", []string{ownProp}, tFalse)
		}
	}
	fr.guardOrg(st, p, write)
}

func (fr *Frame) accessMap(st *State, mv Val, mt *types.Map, m Term, write bool) {
	vc := fr.vc
	if vc.noDef > 0 {
		return
	}
	d, _, _ := vc.mapHeaps(mt)
	fr.raceAccess(st, d, m, Term{}, tTrue, write, "a map")
	fr.givenWrite(st, m, write)
	fr.ownRule(st, m, write, "a map")
	mv.T = m
	fr.guardOrg(st, mv, write)
}

func (fr *Frame) accessElems(st *State, sv Val, h string, ref, idx Term, cond Term, write bool) {
	fr.raceAccess(st, h, ref, idx, cond, write, "a slice element")
	fr.guardOrg(st, sv, write)
}

// givenWrite: data handed to another goroutine must not be changed any more.
func (fr *Frame) givenWrite(st *State, ref Term, write bool) {
	vc := fr.vc
	if !write || vc.TopC == nil || vc.TopC.Opts["given"] == "" {
		return
	}
	l := vc.TopC.Opts["given"]
	if !hasLabel(strings.Split(l, ","), vc.Prop) {
		return
	}
	h, _, ok := vc.ghostHeap("given")
	if !ok {
		return
	}
	fr.safety(st, "write to data that was handed over to another goroutine", tNot(tSel(vc.getH(st, h), ref)))
}

func (fr *Frame) localAccess(st *State, lv *localVar, write bool) {
	vc := fr.vc
	if !vc.conc.used {
		return
	}
	cur := vc.conc.cur
	if cur != nil {
		if lv.gor == cur || lv.gor != nil && lv.gor.site == cur.site {
			return // local to this goroutine
		}
		if write {
			if st.lcRead[lv] && !st.lcMine[lv] || st.lcWrite[lv] && !st.lcMine[lv] {
				fr.safety(st, "data race on captured variable "+lv.name, tFalse)
			}
			st.lcWrite[lv] = true
			st.lcMine[lv] = true
			for _, r := range vc.recs {
				r.lcW[lv] = true
			}
			return
		}
		if st.lcWrite[lv] && !st.lcMine[lv] {
			fr.safety(st, "data race on captured variable "+lv.name, tFalse)
		}
		st.lcRead[lv] = true
		st.lcMine[lv] = true
		for _, r := range vc.recs {
			r.lcR[lv] = true
		}
		return
	}
	live := vc.getH(st, vc.kHeap(kLive))
	if st.lcWrite[lv] || write && st.lcRead[lv] {
		fr.safety(st, "data race on captured variable "+lv.name, tNot(live))
	}
}

// ---- lock guards

type guardOrg struct {
	g   Guard
	ref Term
	own types.Type
}

func (vc *VC) guardOf(own types.Type, field string) *Guard {
	k := typeKey(own)
	if i := strings.IndexByte(k, '['); i >= 0 {
		k = k[:i]
	}
	for i := range vc.DB.Guards {
		if vc.DB.Guards[i].Prop == vc.Prop && vc.DB.Guards[i].Type == k && vc.DB.Guards[i].Field == field {
			return &vc.DB.Guards[i]
		}
	}
	return nil
}

func (vc *VC) lockTerm(st *State, own types.Type, ref Term, lock string) Term {
	s := under(own).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == lock {
			if p, ok := under(s.Field(i).Type()).(*types.Pointer); ok {
				_ = p
				return tSel(vc.getH(st, vc.fieldHeap(own, i)), ref)
			}
			ft := s.Field(i).Type()
			return vc.addrTerm(&Lval{Kind: lField, Heap: vc.fieldHeap(own, i), Ref: ref, Root: ft, Own: own, FI: i, T: ft})
		}
	}
	return Term{}
}

// The properties decided by lock guards: in the first every access is traced
// back to the guarded field it goes through; in the second every access of an
// operation to memory it has not allocated itself needs the owner's lock.
const (
	guardProp = "C12"
	ownProp   = "C26"
)

func lockProp(p string) bool { return p == guardProp || p == ownProp }

var lockProps = []string{guardProp, ownProp}

// lockOwner is the receiver whose lock protects all that an operation shares.
type lockOwner struct {
	ref  Term
	own  types.Type
	lock string
	alt  []lockAlt // a handler's own locks: what it writes while it holds one exclusively
}

type lockAlt struct {
	own  types.Type
	lock string
}

// isMutex: sync.Mutex or sync.RWMutex, or a pointer to one.
func isMutex(t types.Type) bool {
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

// setOwner finds the owner of a top-level operation: its receiver.
func (fr *Frame) setOwner(args []Val) {
	vc := fr.vc
	vc.owner = nil
	if vc.Prop == ownProp && (strings.HasPrefix(vc.TopC.Key, routePrefix) || vc.TopC.Background || sharedMethod(fr.fn)) {
		vc.owner = &lockOwner{} // a handler owns nothing: it writes what it allocated
		if fr.fn.Signature.Recv() != nil && len(args) > 0 {
			if p, ok := under(args[0].Typ).(*types.Pointer); ok {
				if s, ok := under(p.Elem()).(*types.Struct); ok {
					vc.owner.ref = args[0].T
					for i := 0; i < s.NumFields(); i++ {
						if isMutex(s.Field(i).Type()) {
							vc.owner.alt = append(vc.owner.alt, lockAlt{p.Elem(), s.Field(i).Name()})
						}
					}
				}
			}
		}
		if sharedMethod(fr.fn) { // the slices it is called with are its caller's, given for this call
			rest := args
			if fr.fn.Signature.Recv() != nil && len(args) > 0 {
				rest = args[1:]
			}
			for _, a := range rest {
				if _, ok := under(a.Typ).(*types.Slice); ok && a.T.ok() {
					vc.givenRefs = append(vc.givenRefs, sArr(a.T))
				}
			}
		}
		return
	}
	if vc.Prop != ownProp || fr.fn.Signature.Recv() == nil || len(args) == 0 {
		return
	}
	p, ok := under(args[0].Typ).(*types.Pointer)
	if !ok {
		return
	}
	for _, g := range vc.DB.Guards {
		if g.Prop == ownProp && g.Type == typeKey(p.Elem()) {
			vc.owner = &lockOwner{ref: args[0].T, own: p.Elem(), lock: g.Lock}
		}
	}
	if vc.owner == nil {
		return
	}
	for _, a := range args[1:] {
		vc.owner.given(vc, a.T, a.Typ, 0)
	}
}

// given lists the maps and pointers that come with an argument: the caller's.
func (o *lockOwner) given(vc *VC, t Term, ty types.Type, depth int) {
	if depth > 2 || !t.ok() {
		return
	}
	switch u := under(ty).(type) {
	case *types.Map, *types.Pointer:
		vc.givenRefs = append(vc.givenRefs, t)
	case *types.Struct:
		si := vc.structOf(ty)
		for i := 0; i < u.NumFields(); i++ {
			if !isOpaque(u.Field(i).Type()) {
				o.given(vc, si.sel(t, i), u.Field(i).Type(), depth+1)
			}
		}
	}
}

// ownRule: memory that the operation has not allocated is read under the
// owner's lock and written under its exclusive lock. What the caller passed
// in may be read without it.
func (fr *Frame) ownRule(st *State, ref Term, write bool, what string) {
	vc := fr.vc
	if vc.owner == nil || vc.noDef > 0 {
		return
	}
	if fr.fn.Pkg != nil && strings.HasSuffix(fr.fn.Pkg.Pkg.Path(), "/cache") || fr.fn.Origin() != nil && fr.fn.Origin().Pkg != nil && strings.HasSuffix(fr.fn.Origin().Pkg.Pkg.Path(), "/cache") {
		return // the caches have locks of their own (C12)
	}
	o := vc.owner
	if o.own == nil {
		if write {
			or := []Term{app("Bool", ">=", ref, vc.initAl)}
			for _, a := range o.alt {
				lt := vc.lockTerm(st, a.own, o.ref, a.lock)
				h := vc.kHeap(kLock)
				c := tEq(tSel(vc.getH(st, h), lt), tInt(2))
				if g := vc.conc.cur; g != nil { // a goroutine does not hold its creator's lock
					c = tAnd(c, tEq(tSel(vc.getH(g.snap, h), lt), tInt(0)))
				}
				or = append(or, c)
			}
			for _, g := range vc.givenRefs {
				or = append(or, tEq(ref, g))
			}
			vc.goal(st, "guard", "write to "+what+" that no other request shares", []string{ownProp}, tOr(or...))
		}
		return
	}
	lt := vc.lockTerm(st, o.own, o.ref, o.lock)
	if !lt.ok() {
		vc.unsupported(st, "guard lock "+o.lock+" not found in "+typeKey(o.own))
		return
	}
	held := tSel(vc.getH(st, vc.kHeap(kLock)), lt)
	or := []Term{app("Bool", ">=", ref, vc.initAl)}
	n := "read of " + what + " under the shared or exclusive lock"
	mine := vc.conc.cur == nil // a goroutine does not hold its creator's lock
	if write {
		n = "write to " + what + " under the exclusive lock"
		if mine {
			or = append(or, tEq(held, tInt(2)))
		}
	} else {
		or = append(or, tEq(ref, tInt(0)))
		if mine {
			or = append(or, app("Bool", ">=", held, tInt(1)))
		}
		for _, g := range vc.givenRefs {
			or = append(or, tEq(ref, g))
		}
	}
	vc.goal(st, "guard", n, []string{ownProp}, tOr(or...))
}

// escapes says that a result shares no memory with the store, except for the
// fields declared frozen, which no operation writes.
func (vc *VC) private(st *State, t Term, ty types.Type, depth int) Term {
	if depth > 3 || isOpaque(ty) {
		return tTrue
	}
	mine := app("Bool", ">=", t, vc.initAl)
	switch u := under(ty).(type) {
	case *types.Map:
		c := tTrue
		if hasRefs(u.Elem(), 0) {
			k := Term{"k!", vc.sortOf(u.Key())}
			vals := vc.mapVals(st, u, t)
			v := tSel(vals, k)
			b := tImp(tSel(vc.mapDom(st, u, t), k), vc.private(st, v, u.Elem(), depth+1))
			if b.S != "true" {
				c = Term{fmt.Sprintf("(forall ((%s %s)) (! %s :pattern (%s)))", k.S, k.Sort, b.S, v.S), "Bool"}
			}
		}
		return tOr(tEq(t, tInt(0)), tAnd(mine, c))
	case *types.Pointer:
		c := tTrue
		if s, ok := under(u.Elem()).(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if hasRefs(s.Field(i).Type(), 0) && !vc.DB.frozen(typeKey(u.Elem()), s.Field(i).Name()) {
					c = tAnd(c, vc.private(st, tSel(vc.getH(st, vc.fieldHeap(u.Elem(), i)), t), s.Field(i).Type(), depth+1))
				}
			}
		}
		return tOr(tEq(t, tInt(0)), tAnd(mine, c))
	case *types.Struct:
		c := tTrue
		si := vc.structOf(ty)
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type(), 0) && !vc.DB.frozen(typeKey(ty), u.Field(i).Name()) {
				c = tAnd(c, vc.private(st, si.sel(t, i), u.Field(i).Type(), depth+1))
			}
		}
		return c
	}
	return tTrue
}

func hasRefs(t types.Type, depth int) bool {
	if depth > 3 || isOpaque(t) {
		return false
	}
	switch u := under(t).(type) {
	case *types.Map, *types.Pointer:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

func (db *DB) frozen(typ, field string) bool {
	for _, g := range db.Frozen {
		if g.Type == typ && g.Field == field {
			return true
		}
	}
	return false
}

func (fr *Frame) guardCheck(st *State, o *guardOrg, write bool, what string) {
	vc := fr.vc
	if !lockProp(vc.Prop) || vc.noDef > 0 {
		return
	}
	lt := vc.lockTerm(st, o.own, o.ref, o.g.Lock)
	if !lt.ok() {
		vc.unsupported(st, "guard lock "+o.g.Lock+" not found in "+typeKey(o.own))
		return
	}
	held := tSel(vc.getH(st, vc.kHeap(kLock)), lt)
	c := app("Bool", ">=", held, tInt(1))
	kind := "shared or exclusive lock"
	if write {
		c = tEq(held, tInt(2))
		kind = "exclusive lock"
	}
	fresh := app("Bool", ">=", o.ref, vc.initAl)
	vc.goal(st, "guard", what+" "+o.g.Type+"."+o.g.Field+" under the "+kind, lockProps, tOr(fresh, c))
}

func (fr *Frame) guardField(st *State, l *Lval, write bool) {
	vc := fr.vc
	if !lockProp(vc.Prop) {
		return
	}
	s := under(l.Own).(*types.Struct)
	if vc.owner != nil && (write || strings.HasSuffix(typeKey(l.Own), "model.Set")) {
		fr.ownRule(st, l.Ref, write, "field "+s.Field(l.FI).Name()+" of a "+typeKey(l.Own))
	}
	if g := vc.guardOf(l.Own, s.Field(l.FI).Name()); g != nil {
		w := "read"
		if write {
			w = "write"
		}
		fr.guardCheck(st, &guardOrg{*g, l.Ref, l.Own}, write, w)
	}
}

func (fr *Frame) guardOrg(st *State, p Val, write bool) {
	if p.Org == nil || fr.vc.Prop != guardProp {
		return
	}
	w := "read through"
	if write {
		w = "write through"
	}
	fr.guardCheck(st, p.Org, write, w)
}

// contractAccess: a library call on data reached through a guarded field.
func (fr *Frame) contractAccess(st *State, ct *Contract, args []Val) {
	if fr.vc.Prop != guardProp {
		return
	}
	for _, a := range args {
		if a.Org != nil && isRefType(a.Typ) {
			w := len(ct.Mods) > 0
			n := "read"
			if w {
				n = "change"
			}
			fr.guardCheck(st, a.Org, w, n+" by "+ct.Key+" of")
		}
	}
}

// origin propagates the guarded field a value was reached through.
func (fr *Frame) origin(x ssa.Value, p Val) {
	vc := fr.vc
	if vc.Prop != guardProp {
		return
	}
	y := fr.env[x]
	if p.Org != nil {
		y.Org = p.Org
	} else if p.L != nil && p.L.Kind == lField {
		s := under(p.L.Own).(*types.Struct)
		if g := vc.guardOf(p.L.Own, s.Field(p.L.FI).Name()); g != nil {
			y.Org = &guardOrg{*g, p.L.Ref, p.L.Own}
		}
	}
	fr.env[x] = y
}

func (fr *Frame) copyOrg(x ssa.Value, o *guardOrg) {
	if o == nil {
		return
	}
	y := fr.env[x]
	y.Org = o
	for i := range y.Tup {
		y.Tup[i].Org = o
	}
	fr.env[x] = y
}

// ---- channels

func (fr *Frame) makeChan(st *State, x *ssa.MakeChan) {
	vc := fr.vc
	n := fr.term(st, x.Size)
	fr.safety(st, "make chan", app("Bool", "<=", tInt(0), n))
	t := fr.typ(x.Type())
	et := under(t).(*types.Chan).Elem()
	r := vc.newRef(st)
	sent, rcv := vc.chSets(et)
	es := vc.sortOf(et)
	vc.storeAt(st, vc.kHeap(kChN), r, tInt(0))
	vc.storeAt(st, vc.kHeap(kChCap), r, n)
	vc.storeAt(st, vc.kHeap(kChClosed), r, tFalse)
	vc.storeAt(st, sent, r, emptySet(es))
	if mt, ok := under(et).(*types.Map); ok {
		keys, _ := vc.carrySets(mt)
		vc.storeAt(st, keys, r, emptySet(vc.sortOf(mt.Key())))
	}
	vc.storeAt(st, rcv, r, emptySet(es))
	_, got := vc.chMsgs(et)
	vc.storeAt(st, got, r, emptySet("Int"))
	vc.storeAt(st, kChSent, r, tInt(0))
	vc.conc.localCh[r.S] = true
	fr.env[x] = Val{T: r, Typ: t}
}

func (fr *Frame) send(st *State, ch, x Val, ins ssa.Instruction) *State {
	vc := fr.vc
	c := vc.asTerm(st, ch)
	v := vc.asTerm(st, x)
	if !c.ok() || !v.ok() {
		vc.unsupported(st, "send of an unmodelled value")
		return st
	}
	et := under(fr.typ(ch.Typ)).(*types.Chan).Elem()
	if v.Sort != vc.sortOf(et) {
		v = vc.box(v, x.Typ)
	}
	sent, _ := vc.chSets(et)
	local := vc.conc.localCh[c.S]
	vc.kHeap(kChN)
	vc.kHeap(kChCap)
	vc.kHeap(kChClosed)
	if local {
		fr.safety(st, "send on a closed channel", tNot(tSel(vc.getH(st, kChClosed), c)))
		n := tSel(vc.getH(st, kChN), c)
		if vc.conc.cur == nil {
			fr.safety(st, "send blocks for ever", app("Bool", "<", n, tSel(vc.getH(st, kChCap), c)))
		} else if vc.conc.cur.site != nil {
			vc.conc.cur.site.sends[c.S] = c
			if d := vc.getH(st, vc.kHeap(kDone)); d.S != sym(kDone+"!0") && d.S != "false" {
				fr.safety(st, "send after WaitGroup.Done", tNot(d))
			}
		}
		vc.storeAt(st, kChN, c, vc.plus(n, 1))
	}
	vc.storeAt(st, sent, c, tStore(tSel(vc.getH(st, sent), c), v, tTrue))
	msg, _ := vc.chMsgs(et)
	ns := tSel(vc.getH(st, kChSent), c)
	vc.storeAt(st, msg, c, tStore(tSel(vc.getH(st, msg), c), ns, v))
	vc.storeAt(st, kChSent, c, vc.plus(ns, 1))
	if mt, ok := under(et).(*types.Map); ok {
		fr.carry(st, c, v, mt)
	}
	// references handed over
	if h, _, ok := vc.ghostHeap("given"); ok {
		for _, r := range vc.refsIn(v, et) {
			vc.setH(st, h, tStore(vc.getH(st, h), r, tTrue))
			vc.recAny(h)
		}
	}
	fr.onSend(st, ch, c, v, et)
	return st
}

// chMsgs: the messages of a channel in sending order, their number and the
// set of those already received.
func (vc *VC) chMsgs(et types.Type) (msg, got string) {
	k := typeKey(et)
	msg, got = "K!msg]"+k, "K!got]"+k
	if _, ok := vc.heapS[msg]; !ok {
		vc.declHeap(msg, arr("Int", arr("Int", vc.sortOf(et))), nil)
		vc.declHeap(got, arr("Int", arr("Int", "Bool")), nil)
	}
	vc.kHeap(kChSent)
	return
}

// carrySets: for a channel of maps, the keys that were carried by some
// message and, for each, the last message that carried it.
func (vc *VC) carrySets(mt *types.Map) (keys, by string) {
	k := typeKey(mt)
	keys, by = "K!ck]"+k, "K!cb]"+k
	if _, ok := vc.heapS[keys]; !ok {
		s := vc.sortOf(mt.Key())
		vc.declHeap(keys, arr("Int", arr(s, "Bool")), nil)
		vc.declHeap(by, arr("Int", arr(s, "Int")), nil)
	}
	return
}

func (fr *Frame) carry(st *State, c, v Term, mt *types.Map) {
	vc := fr.vc
	keys, by := vc.carrySets(mt)
	s := vc.sortOf(mt.Key())
	d, _, _ := vc.mapHeaps(mt)
	dom := tSel(vc.getH(st, d), v)
	ok, ob := tSel(vc.getH(st, keys), c), tSel(vc.getH(st, by), c)
	nk, nb := vc.fresh("ck", arr(s, "Bool")), vc.fresh("cb", arr(s, "Int"))
	q := Term{"k", s}
	vc.raw(Term{fmt.Sprintf("(forall ((k %s)) (! (= %s (or %s %s)) :pattern (%s)))", s, tSelRaw(nk, q).S, tSelRaw(ok, q).S, tSelRaw(dom, q).S, tSelRaw(nk, q).S), "Bool"}, "")
	vc.raw(Term{fmt.Sprintf("(forall ((k %s)) (! (= %s (ite %s %s %s)) :pattern (%s)))", s, tSelRaw(nb, q).S, tSelRaw(dom, q).S, v.S, tSelRaw(ob, q).S, tSelRaw(nb, q).S), "Bool"}, "")
	vc.storeAt(st, keys, c, nk)
	vc.storeAt(st, by, c, nb)
}

// refsIn lists the maps, slices and pointers inside a value.
func (vc *VC) refsIn(t Term, typ types.Type) []Term {
	switch u := under(typ).(type) {
	case *types.Map, *types.Pointer:
		return []Term{t}
	case *types.Slice:
		return []Term{sArr(t)}
	case *types.Struct:
		if isOpaque(typ) {
			return nil
		}
		si := vc.structOf(typ)
		var out []Term
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, vc.refsIn(si.sel(t, i), u.Field(i).Type())...)
		}
		return out
	}
	return nil
}

func (fr *Frame) closeChan(st *State, ch Val) *State {
	vc := fr.vc
	c := vc.asTerm(st, ch)
	if !c.ok() {
		vc.unsupported(st, "close")
		return st
	}
	vc.kHeap(kChClosed)
	fr.safety(st, "close of a closed channel", tNot(tSel(vc.getH(st, kChClosed), c)))
	fr.safety(st, "close of a nil channel", tNot(tEq(c, tInt(0))))
	var waited map[string]bool
	if cur := vc.conc.cur; cur != nil {
		waited = cur.site.waited
		cur.site.closes = true
	} else {
		waited = vc.conc.parentW
	}
	if vc.dry == 0 {
		w := map[string]bool{}
		for k := range waited {
			w[k] = true
		}
		vc.conc.closers[c.S] = w
		for _, s := range vc.conc.sites {
			if _, ok := s.sends[c.S]; ok && !(s.wg != "" && waited[s.wg]) && !(vc.conc.cur != nil && s == vc.conc.cur.site) && !s.joined {
				fr.safety(st, "close while a goroutine may still send", tFalse)
			}
		}
	}
	vc.storeAt(st, kChClosed, c, tTrue)
	return st
}

// recv is a receive expression.
func (fr *Frame) recv(st *State, x *ssa.UnOp) *State {
	vc := fr.vc
	ch := fr.val(st, x.X)
	c := vc.asTerm(st, ch)
	if !c.ok() {
		vc.unsupported(st, "receive from unmodelled channel")
		fr.env[x] = Val{Bad: "receive", Typ: fr.typ(x.Type())}
		return st
	}
	et := under(fr.typ(x.X.Type())).(*types.Chan).Elem()
	v, ok := fr.recvFrom(st, ch, c, et, x.CommaOk)
	if x.CommaOk {
		fr.env[x] = Val{Tup: []Val{{T: v, Typ: et}, {T: ok, Typ: boolT}}, Typ: x.Type()}
	} else {
		fr.env[x] = Val{T: v, Typ: et}
	}
	return st
}

func (fr *Frame) recvFrom(st *State, ch Val, c Term, et types.Type, commaOk bool) (Term, Term) {
	vc := fr.vc
	es := vc.sortOf(et)
	sent, rcv := vc.chSets(et)
	v := vc.fresh("rv", es)
	vc.assumeWF(st, v, et)
	if !vc.conc.localCh[c.S] {
		ok := tTrue
		if commaOk {
			ok = vc.fresh("rok", "Bool")
		}
		fr.onRecv(st, ch, c, v, et)
		return v, ok
	}
	vc.kHeap(kChN)
	vc.kHeap(kChCap)
	vc.kHeap(kChClosed)
	n := tSel(vc.getH(st, kChN), c)
	if cur := vc.conc.cur; cur != nil {
		fr.safety(st, "receive blocks for ever", tAnd(app("Bool", ">", n, tInt(0)), app("Bool", ">", tSel(vc.getH(st, kChCap), c), tInt(0))))
		vc.assume(st, tSel(tSel(vc.getH(st, sent), c), v), "received value was sent")
		vc.storeAt(st, kChN, c, vc.plus(n, -1))
		vc.conc.gorRecv[c.S] = true
		return v, tTrue
	}
	closed := tSel(vc.getH(st, kChClosed), c)
	S := tSel(vc.getH(st, sent), c)
	R := tSel(vc.getH(st, rcv), c)
	ok := vc.fresh("rok", "Bool")
	fr.safety(st, "receive blocks for ever", closed)
	vc.assume(st, tImp(ok, tSel(S, v)), "received value was sent")
	q := Term{"x", es}
	msg, got := vc.chMsgs(et)
	k, ns := vc.fresh("mi", "Int"), tSel(vc.getH(st, kChSent), c)
	G := tSel(vc.getH(st, got), c)
	vc.assume(st, tImp(ok, tAnd(app("Bool", "<=", tInt(0), k), app("Bool", "<", k, ns), tNot(tSel(G, k)), tEq(v, tSel(tSel(vc.getH(st, msg), c), k)))), "received message")
	ng := vc.fresh("got", arr("Int", "Bool"))
	kk := Term{"k", "Int"}
	vc.raw(Term{fmt.Sprintf("(forall ((k Int)) (! (= %s (or %s (and %s (= k %s)))) :pattern (%s)))", tSelRaw(ng, kk).S, tSelRaw(G, kk).S, ok.S, k.S, tSelRaw(ng, kk).S), "Bool"}, "")
	vc.raw(tImp(ok, tSelRaw(ng, k)), "")
	if !vc.conc.gorRecv[c.S] {
		vc.assume(st, tImp(tNot(ok), Term{fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= 0 k) (< k %s)) %s) :pattern (%s) :pattern (%s)))", ns.S, tSelRaw(G, kk).S, tSelRaw(G, kk).S, tSelRaw(tSel(vc.getH(st, msg), c), kk).S), "Bool"}), "channel drained")
	}
	vc.storeAt(st, got, c, ng)
	if !vc.conc.gorRecv[c.S] {
		vc.assume(st, tImp(tNot(ok), Term{fmt.Sprintf("(forall ((x %s)) (! (=> %s %s) :pattern (%s) :pattern (%s)))", es, tSelRaw(S, q).S, tSelRaw(R, q).S, tSelRaw(S, q).S, tSelRaw(R, q).S), "Bool"}), "channel drained")
	}
	vc.assume(st, tImp(tNot(ok), tEq(v, vc.zero(et))), "")
	vc.storeAt(st, rcv, c, tIte(ok, tStore(R, v, tTrue), R))
	// draining a channel closed after WaitGroup.Wait joins the goroutines
	if vc.dry == 0 {
		if w, is := vc.conc.closers[c.S]; is {
			for _, s := range vc.conc.sites {
				if s.joined || s.wg == "" || !w[s.wg] {
					continue
				}
				for _, k := range sortedKeys(s.sends) {
					if o := s.sends[k]; o.S != c.S {
						fr.safety(st, "goroutines block on a full channel", tImp(tNot(ok), app("Bool", "<=", tSel(vc.getH(st, kChN), o), tSel(vc.getH(st, kChCap), o))))
					}
				}
			}
			fr.join(st, w, tNot(ok))
		}
	} else if vc.conc.used {
		vc.recJoin(st)
	}
	return v, ok
}

// join marks the goroutines counted by the given wait groups as finished.
func (fr *Frame) join(st *State, waited map[string]bool, cond Term) {
	vc := fr.vc
	all := true
	for _, s := range vc.conc.sites {
		if s.joined {
			continue
		}
		if s.wg != "" && waited[s.wg] {
			s.joined = true
			continue
		}
		if s.closes && s.wg == "" {
			continue // only closes a channel
		}
		all = false
	}
	if !all {
		return
	}
	live := vc.getH(st, vc.kHeap(kLive))
	vc.setH(st, kLive, tAnd(live, tNot(cond)))
	for h := range vc.heapS {
		if strings.HasPrefix(h, "K!WR!") || strings.HasPrefix(h, "K!RD!") {
			if _, ok := st.heap[h]; ok {
				z := Term{sym(h + "!0"), vc.heapS[h]}
				vc.setH(st, h, tIte(cond, z, vc.getH(st, h)))
			}
		}
	}
}

func (vc *VC) recJoin(st *State) {
	for _, r := range vc.recs {
		r.heaps[vc.kHeap(kLive)] = true
		for h := range vc.heapS {
			if strings.HasPrefix(h, "K!WR!") || strings.HasPrefix(h, "K!RD!") {
				if _, ok := st.heap[h]; ok {
					r.heaps[h] = true
				}
			}
		}
	}
}

// ---- goroutines

func (fr *Frame) goInstr(st *State, x *ssa.Go) *State {
	vc := fr.vc
	c := x.Call
	var args []Val
	for _, a := range c.Args {
		v := fr.val(st, a)
		if v.Typ == nil {
			v.Typ = fr.typ(a.Type())
		}
		args = append(args, v)
	}
	if c.IsInvoke() {
		vc.unsupported(st, "go with an interface method")
		return st
	}
	f := fr.val(st, c.Value)
	if f.Fn == nil {
		vc.unsupported(st, "go with an unknown function")
		return st
	}
	if vc.conc.cur != nil {
		vc.unsupported(st, "nested goroutines")
		return st
	}
	key := funcKey(f.Fn)
	if ct := vc.DB.Contracts[key]; ct != nil && ct.Opts["background"] != "" || vc.background(f.Fn) {
		vc.trusted["goroutine "+key+" runs in the background: its effects are covered by its own contract"] = true
		return vc.started(fr, st, key, args)
	}
	vc.conc.used = true
	var site *goSite
	for _, s := range vc.conc.sites {
		if s.ins == x {
			site = s
		}
	}
	if site == nil || vc.dry > 0 {
		site = &goSite{ins: x, sends: map[string]Term{}, waited: map[string]bool{}}
		if vc.dry == 0 {
			vc.conc.sites = append(vc.conc.sites, site)
		}
	}
	site.multi = len(fr.active) > 0
	g := &gorInst{site: site, alloc: vc.alloc(st), snap: st.clone()}
	vc.conc.cur = g
	saveMine := st.lcMine
	st.lcMine = map[*localVar]bool{}
	vc.kHeap(kDone)
	saved, had := st.heap[kDone]
	st.heap[kDone] = tFalse
	pre := st.clone()
	ns, _ := fr.callVal(st, f, args, fr.typ(c.Signature()).(*types.Signature), x)
	vc.conc.cur = nil
	if ns == nil {
		vc.note("goroutine %s never returns", key)
		ns = pre
	}
	ns.lcMine = saveMine
	if had {
		ns.heap[kDone] = saved
	} else {
		delete(ns.heap, kDone)
	}
	vc.kHeap(kLive)
	vc.setH(ns, kLive, tTrue)
	return ns
}

// started applies the onstart events of a background function.
func (vc *VC) started(fr *Frame, st *State, key string, args []Val) *State {
	ct := vc.DB.Contracts[key]
	if ct == nil {
		return st
	}
	for _, cl := range ct.OnStart {
		if !vc.want(cl) {
			continue
		}
		ev := vc.DB.Contracts[cl.Event]
		if ev == nil {
			vc.specError(st, cl.Event, fmt.Errorf("no such event"))
			return st
		}
		st, _ = fr.applyContract(st, ev, args, nil, map[string]types.Type{}, nil)
	}
	return st
}

// background: a function that serves channels for ever.
func (vc *VC) background(fn *ssa.Function) bool {
	if ct := vc.DB.Contracts[funcKey(fn)]; ct != nil && len(ct.Always)+len(ct.OnTick) > 0 {
		return true
	}
	return isBackground(fn)
}

// isBackground: nobody waits for the function to end.
func isBackground(fn *ssa.Function) bool {
	if periodic(fn) {
		return true
	}
	for _, b := range fn.Blocks {
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				return false
			}
		}
	}
	return true
}

// periodic: the function has a loop that sleeps or waits for a tick, so nobody waits for its end.
func periodic(fn *ssa.Function) bool {
	reach := func(from, to *ssa.BasicBlock) bool {
		vis := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock) bool
		walk = func(b *ssa.BasicBlock) bool {
			for _, s := range b.Succs {
				if s == to {
					return true
				}
				if !vis[s] {
					vis[s] = true
					if walk(s) {
						return true
					}
				}
			}
			return false
		}
		return walk(from)
	}
	clock := func(t types.Type) bool {
		c, ok := t.Underlying().(*types.Chan)
		return ok && types.TypeString(c.Elem(), nil) == "time.Time"
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if u, ok := i.(*ssa.UnOp); ok && u.Op == token.ARROW && clock(u.X.Type()) && reach(b, b) {
				return true
			}
			if s, ok := i.(*ssa.Select); ok {
				for _, x := range s.States {
					if clock(x.Chan.Type()) && reach(b, b) {
						return true
					}
				}
			}
			if c, ok := i.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && f.String() == "time.Sleep" && reach(b, b) {
					return true
				}
			}
		}
	}
	return false
}

// ---- sync natives

func (fr *Frame) concNative(st *State, key string, fn *ssa.Function, args []Val, ins ssa.Instruction) (*State, Val, bool) {
	vc := fr.vc
	none := Val{}
	arg := func() Term {
		t := vc.asTerm(st, args[0])
		if !t.ok() {
			vc.unsupported(st, "receiver of "+key)
			return tInt(0)
		}
		return t
	}
	switch key {
	case "(*sync.WaitGroup).Add":
		r := arg()
		n := vc.asTerm(st, args[1])
		h := vc.kHeap(kWg)
		if cur := vc.conc.cur; cur != nil {
			fr.safety(st, "WaitGroup.Add inside the goroutine it counts", app("Bool", ">=", r, cur.alloc))
		}
		old := tSel(vc.getH(st, h), r)
		vc.storeAt(st, h, r, vc.def("wg", tAdd(old, n)))
		fr.safety(st, "negative WaitGroup counter", app("Bool", ">=", tAdd(old, n), tInt(0)))
		return st, none, true
	case "(*sync.WaitGroup).Done":
		r := arg()
		h := vc.kHeap(kWg)
		old := tSel(vc.getH(st, h), r)
		fr.safety(st, "negative WaitGroup counter", app("Bool", ">", old, tInt(0)))
		vc.storeAt(st, h, r, vc.plus(old, -1))
		if cur := vc.conc.cur; cur != nil {
			if cur.site.wg != "" && cur.site.wg != r.S {
				vc.unsupported(st, "goroutine signals two wait groups")
			}
			cur.site.wg = r.S
			st.heap[kDone] = tTrue
		}
		return st, none, true
	case "(*sync.WaitGroup).Wait":
		r := arg()
		h := vc.kHeap(kWg)
		fr.safety(st, "WaitGroup.Wait never returns", tEq(tSel(vc.getH(st, h), r), tInt(0)))
		if cur := vc.conc.cur; cur != nil {
			cur.site.waited[r.S] = true
			return st, none, true
		}
		if vc.dry == 0 {
			vc.conc.parentW[r.S] = true
			for _, s := range vc.conc.sites {
				if s.joined {
					continue
				}
				for _, c := range s.sends {
					fr.safety(st, "goroutines block on a full channel", app("Bool", "<=", tSel(vc.getH(st, vc.kHeap(kChN)), c), tSel(vc.getH(st, vc.kHeap(kChCap)), c)))
				}
			}
			fr.join(st, map[string]bool{r.S: true}, tTrue)
		} else if vc.conc.used {
			vc.recJoin(st)
		}
		return st, none, true
	case "(*sync.RWMutex).Lock", "(*sync.Mutex).Lock", "(*sync.RWMutex).RLock":
		r := arg()
		h := vc.kHeap(kLock)
		n := int64(2)
		if strings.HasSuffix(key, "RLock") {
			n = 1
		}
		fr.safety(st, "lock taken twice", tEq(tSel(vc.getH(st, h), r), tInt(0)))
		if vc.Prop == guardProp && vc.dry == 0 {
			cs := vc.constHeap("K!cs", arr("Int", "Bool"))
			vc.goal(st, "guard", "operation is one critical section", []string{guardProp}, tNot(tSel(vc.getH(st, cs), r)))
			vc.storeAt(st, cs, r, tTrue)
		} else if vc.Prop == guardProp {
			vc.recAny(vc.constHeap("K!cs", arr("Int", "Bool")))
		}
		vc.storeAt(st, h, r, tInt(n))
		return st, none, true
	case "(*sync.RWMutex).Unlock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).RUnlock":
		r := arg()
		h := vc.kHeap(kLock)
		n := int64(2)
		if strings.HasSuffix(key, "RUnlock") {
			n = 1
		}
		fr.safety(st, "unlock without lock", tEq(tSel(vc.getH(st, h), r), tInt(n)))
		if n == 2 && vc.TopC != nil && vc.TopC.Opts["unlock"] != "" {
			fr.crashCheck(st, "at unlock")
		}
		vc.storeAt(st, h, r, tInt(0))
		return st, none, true
	case "time.NewTicker":
		r := vc.newRef(st)
		t := fr.typ(fn.Signature.Results().At(0).Type())
		return st, Val{T: r, Typ: t}, true
	case "(*time.Ticker).Stop", "(*time.Ticker).Reset":
		return st, none, true
	}
	return st, none, false
}

// constHeap is a verifier heap that starts as false / zero everywhere.
func (vc *VC) constHeap(name, sort string) string {
	if _, ok := vc.heapS[name]; !ok {
		vc.declHeap(name, sort, nil)
		n := sym(name + "!0")
		vc.consts[n] = true
		_, e := splitArray(sort)
		z := "false"
		if e == "Int" {
			z = "0"
		}
		vc.preDecl(fmt.Sprintf("(declare-const %s %s)", n, sort))
		vc.preDecl(fmt.Sprintf("(assert (= %s ((as const %s) %s)))", n, sort, z))
	}
	return name
}

// concCands proposes invariants about access sets and channels.
func (fr *Frame) concCands(li *loopInst) {
	vc := fr.vc
	if li.rec.heaps[kLock] && lockProp(vc.Prop) {
		fr.addCand(li, "locks as at the start", false, func(x *candCtx) (Term, error) {
			a := tSelRaw(vc.getH(x.st, kLock), Term{"r", "Int"})
			o := tSelRaw(vc.getH(li.entry, kLock), Term{"r", "Int"})
			return Term{fmt.Sprintf("(forall ((r Int)) (! (= %s %s) :pattern (%s)))", a.S, o.S, a.S), "Bool"}, nil
		})
	}
	if !vc.conc.used {
		return
	}
	var hs []string
	for h := range li.rec.heaps {
		hs = append(hs, h)
	}
	sortStrings(hs)
	for _, h := range hs {
		h := h
		if strings.HasPrefix(h, "K!WR!") || strings.HasPrefix(h, "K!RD!") {
			fr.addCand(li, h+" unchanged", false, func(x *candCtx) (Term, error) {
				a, o := vc.getH(x.st, h), vc.getH(li.entry, h)
				r := Term{"r", "Int"}
				if !strings.HasPrefix(h[5:], "A!") {
					ar := tSelRaw(a, r)
					return Term{fmt.Sprintf("(forall ((r Int)) (! (= %s %s) :pattern (%s)))", ar.S, tSelRaw(o, r).S, ar.S), "Bool"}, nil
				}
				k := Term{"k", "Int"}
				ark := tSelRaw(tSelRaw(a, r), k)
				return Term{fmt.Sprintf("(forall ((r Int) (k Int)) (! (= %s %s) :pattern (%s)))", ark.S, tSelRaw(tSelRaw(o, r), k).S, ark.S), "Bool"}, nil
			})
		}
		if strings.HasPrefix(h, "K!WR!") || strings.HasPrefix(h, "K!RD!") {
			fr.addCand(li, h+" allocated", false, func(x *candCtx) (Term, error) {
				a, al := vc.getH(x.st, h), vc.alloc(x.st)
				r := Term{"r", "Int"}
				if !strings.HasPrefix(h[5:], "A!") {
					ar := tSelRaw(a, r)
					return Term{fmt.Sprintf("(forall ((r Int)) (! (=> %s (< r %s)) :pattern (%s)))", ar.S, al.S, ar.S), "Bool"}, nil
				}
				k := Term{"k", "Int"}
				ark := tSelRaw(tSelRaw(a, r), k)
				return Term{fmt.Sprintf("(forall ((r Int) (k Int)) (! (=> %s (< r %s)) :pattern (%s)))", ark.S, al.S, ark.S), "Bool"}, nil
			})
		}
		if !(strings.HasPrefix(h, "K!WR!A!") || strings.HasPrefix(h, "K!RD!A!")) {
			continue
		}
		seen := map[string]bool{}
		for _, k := range sortedKeys(li.rec.tgts[h]) {
			t := li.rec.tgts[h][k]
			if !t.ref.ok() || !invariantTerm(t.ref, li.rec.start) || seen[t.ref.S] {
				continue
			}
			seen[t.ref.S] = true
			ref := t.ref
			fr.addCand(li, h+" slots below the iteration", false, func(x *candCtx) (Term, error) {
				a := tSel(vc.getH(x.st, h), ref)
				o := tSel(vc.getH(li.entry, h), ref)
				k := Term{"k", "Int"}
				ak := tSelRaw(a, k)
				return Term{fmt.Sprintf("(forall ((k Int)) (! (=> %s (or %s (< k %s))) :pattern (%s)))", ak.S, tSelRaw(o, k).S, x.it.S, ak.S), "Bool"}, nil
			})
		}
	}
}

func sortedKeys[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}
