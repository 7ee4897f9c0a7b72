package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// item is one element of the generated SMT script.
type item struct {
	text  string // declaration or assertion
	goal  *Goal
	label string
}

// Goal is one proof obligation.
type Goal struct {
	Func   string // contracted function
	ID     string // stable name
	Kind   string // post, pre, safety, frame, inv-init, inv-keep, reach, lemma ...
	Props  []string
	Pos    string
	Term   string // formula that must hold (already guarded by reachability)
	Cand   *Cand
	Ctx    string
	idx    int // index in items
	Status string
	Solver string
	Ms     int64
	Output string
	Model  string
	negate bool // reachability goal: must NOT be refutable
}

// Cand is a candidate loop invariant (Houdini).
type Cand struct {
	ID      string
	Act     string // activation constant
	Desc    string
	Dead    bool
	Why     string
	Goals   []*Goal
	FromUsr bool
}

type VC struct {
	owner                                             *lockOwner // lock ownership (C26)
	givenRefs                                         []Term     // what the caller passed in
	planted                                           map[string]string
	retries                                           int
	infoMu                                            sync.Mutex
	infos                                             []*itemInfo
	declLoc                                           map[string]bool
	P                                                 *Program
	DB                                                *DB
	Prop                                              string
	Name                                              string
	TopC                                              *Contract
	TopEnv                                            *SpecEnv
	pre                                               []string
	preSeen                                           map[string]bool
	axioms                                            []string
	sorts                                             map[string]bool
	structs                                           map[string]*structInfo
	consts                                            map[string]bool
	lits                                              map[string]string
	litText                                           map[string]string // constant of a literal -> its text
	strDefs                                           map[string]Term
	litOrd                                            []string
	tags                                              map[string]int
	items                                             []item
	nfresh                                            int
	heapS                                             map[string]string
	heapT                                             map[string]types.Type // value type of heap cells, for well-formedness
	goals                                             []*Goal
	cands                                             []*Cand
	recs                                              []*recorder
	dry                                               int
	idCount                                           map[string]int
	trusted                                           map[string]bool
	unsup                                             []string
	inlined                                           map[string]bool
	usedCtr                                           map[string]bool
	frames                                            int
	entry                                             *State
	initAl                                            Term
	topTags                                           map[string]bool
	posHint                                           token.Pos
	inQuant                                           int
	allLvs                                            map[string]*Lval
	addrAlts                                          map[string][]addrAlt
	addrOther, cellUsed, addrDecl, newRefs, lateAddrs map[string]bool
	prov                                              map[string]Val
	conc                                              *concInfo
	natives                                           map[string]bool
	dictStr                                           map[string]bool
	dictInt                                           map[int64]bool
	limited                                           string
	loopsSeen                                         []*loopInst
	notes                                             []string
	topRegions                                        map[string][]Region
	noDef                                             int
	closureDepth                                      int
	usedLemmas                                        map[string]*Lemma
}

type writeTarget struct {
	heap string
	ref  Term
	idx  Term
}

type recorder struct {
	start  int // fresh counter at start
	heaps  map[string]bool
	tgts   map[string]map[string]writeTarget
	locals map[*localVar]bool
	iters  map[*iterVar]bool
	any    map[string]bool // heaps written without a known target
	lcR    map[*localVar]bool
	lcW    map[*localVar]bool
}

func newRecorder(n int) *recorder {
	return &recorder{start: n, heaps: map[string]bool{}, tgts: map[string]map[string]writeTarget{}, locals: map[*localVar]bool{}, iters: map[*iterVar]bool{}, any: map[string]bool{}, lcR: map[*localVar]bool{}, lcW: map[*localVar]bool{}}
}

func NewVC(p *Program, db *DB, prop, name string) *VC {
	v := &VC{P: p, DB: db, Prop: prop, Name: name, preSeen: map[string]bool{}, sorts: map[string]bool{}, structs: map[string]*structInfo{},
		consts: map[string]bool{}, lits: map[string]string{}, litText: map[string]string{}, strDefs: map[string]Term{}, tags: map[string]int{}, heapS: map[string]string{}, heapT: map[string]types.Type{},
		idCount: map[string]int{}, trusted: map[string]bool{}, inlined: map[string]bool{}, usedCtr: map[string]bool{}, topTags: map[string]bool{},
		allLvs: map[string]*Lval{}, addrAlts: map[string][]addrAlt{}, addrOther: map[string]bool{}, cellUsed: map[string]bool{}, addrDecl: map[string]bool{}, newRefs: map[string]bool{}, lateAddrs: map[string]bool{}, prov: map[string]Val{}, natives: map[string]bool{}, dictStr: map[string]bool{}, dictInt: map[int64]bool{}, usedLemmas: map[string]*Lemma{}}
	v.topRegions = map[string][]Region{}
	v.conc = newConc()
	for _, s := range []string{"Int", "Bool", "Real"} {
		v.sorts[s] = true
	}
	v.initAl = v.constant("alloc!0", "Int")
	v.preDecl("(assert (<= 1 alloc!0))")
	v.preDecl("(declare-sort Str 0)")
	v.preDecl("(declare-sort Iface 0)")
	v.preDecl("(declare-sort Blob 0)")
	v.preDecl("(declare-sort Any 0)")
	v.sorts["Str"], v.sorts["Iface"], v.sorts["Blob"], v.sorts["Any"] = true, true, true, true
	v.preDecl("(declare-datatypes ((Slice 0)) (((mkSlice (s.arr Int) (s.off Int) (s.len Int) (s.cap Int)))))")
	v.preDecl("(declare-fun ix (Int Int) Int)")
	v.preDecl("(assert (forall ((o Int) (i Int)) (! (= (ix o i) (+ o i)) :pattern ((ix o i)))))")
	v.preDecl("(declare-fun ixs (Int Int) Int)")
	v.preDecl("(assert (forall ((o Int) (i Int)) (! (= (ixs o i) (+ o i)) :pattern ((ixs o i)))))")
	v.preDecl("(assert (forall ((o Int) (a Int) (b Int)) (! (= (ix (ixs o a) b) (ix o (+ a b))) :pattern ((ix (ixs o a) b)))))")
	v.preDecl("(define-fun nilSlice () Slice (mkSlice 0 0 0 0))")
	v.preDecl("(declare-const nilIface Iface)")
	v.preDecl("(declare-fun typ (Iface) Int)")
	v.preDecl("(assert (= (typ nilIface) 0))")
	v.preDecl("(assert (forall ((i Iface)) (! (=> (= (typ i) 0) (= i nilIface)) :pattern ((typ i)))))")
	v.preDecl("(declare-fun strlen (Str) Int)")
	v.preDecl("(declare-fun scat (Str Str) Str)")
	v.preDecl("(declare-fun slt (Str Str) Bool)")
	e := v.strLit("")
	v.preDecl(fmt.Sprintf("(assert (forall ((s Str)) (! (and (>= (strlen s) 0) (=> (= (strlen s) 0) (= s %s))) :pattern ((strlen s)))))", e.S))
	v.preDecl(fmt.Sprintf("(assert (= (strlen %s) 0))", e.S))
	v.preDecl(fmt.Sprintf("(assert (forall ((s Str)) (! (= (scat s %s) s) :pattern ((scat s %s)))))", e.S, e.S))
	v.preDecl(fmt.Sprintf("(assert (forall ((s Str)) (! (= (scat %s s) s) :pattern ((scat %s s)))))", e.S, e.S))
	v.preDecl("(assert (forall ((a Str) (b Str)) (! (= (strlen (scat a b)) (+ (strlen a) (strlen b))) :pattern ((scat a b)))))")
	v.preDecl("(assert (forall ((a Str) (b Str) (c Str)) (! (= (scat a (scat b c)) (scat (scat a b) c)) :pattern ((scat a (scat b c))))))")
	v.preDecl("(declare-fun blob ((Array Int Int) Int Int) Blob)")
	v.preDecl("(declare-fun str2blob (Str) Blob)")
	v.preDecl("(declare-fun blob2str (Blob) Str)")
	v.preDecl("(assert (forall ((s Str)) (! (= (blob2str (str2blob s)) s) :pattern ((str2blob s)))))")
	v.preDecl("(assert (forall ((b Blob)) (! (= (str2blob (blob2str b)) b) :pattern ((blob2str b)))))")
	v.preDecl("(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (<= 0 n) (= (strlen (blob2str (blob a o n))) n)) :pattern ((blob2str (blob a o n))))))")
	return v
}

func (v *VC) preDecl(s string) {
	if v.preSeen[s] {
		return
	}
	v.preSeen[s] = true
	v.pre = append(v.pre, s)
}

func (v *VC) constant(name, sort string) Term {
	name = sym(name)
	if !v.consts[name] {
		v.consts[name] = true
		v.preDecl(fmt.Sprintf("(declare-const %s %s)", name, sort))
	}
	return Term{name, sort}
}

func (v *VC) strLit(s string) Term {
	if n, ok := v.lits[s]; ok {
		return Term{n, "Str"}
	}
	n := sym("str:" + fmt.Sprintf("%q", s))
	if len(n) > 60 {
		n = fmt.Sprintf("strlit%d", len(v.lits))
	}
	v.lits[s] = n
	v.litText[n] = s
	v.litOrd = append(v.litOrd, s)
	v.preDecl(fmt.Sprintf("(declare-const %s Str)", n))
	if s != "" {
		v.preDecl(fmt.Sprintf("(assert (= (strlen %s) %d))", n, len(s)))
		v.dictStr[s] = true
	}
	return Term{n, "Str"}
}

func (v *VC) litDistinct() string {
	if len(v.litOrd) < 2 {
		return ""
	}
	var b strings.Builder
	b.WriteString("(assert (distinct")
	for _, s := range v.litOrd {
		b.WriteString(" " + v.lits[s])
	}
	b.WriteString("))")
	return b.String()
}

// declFun declares an uninterpreted function once.
func (v *VC) declFun(name string, args []string, ret string) string {
	n := sym(name)
	v.preDecl(fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(args, " "), ret))
	return n
}

func (v *VC) fresh(prefix, sort string) Term {
	v.nfresh++
	n := sym(fmt.Sprintf("%s!%d", prefix, v.nfresh))
	v.items = append(v.items, item{text: fmt.Sprintf("(declare-const %s %s)", n, sort)})
	return Term{n, sort}
}

func (v *VC) raw(t Term, label string) {
	if t.S == "true" {
		return
	}
	v.items = append(v.items, item{text: "(assert " + t.S + ")", label: label})
}

// def names a term by a fresh constant.
func (v *VC) def(prefix string, t Term) Term {
	if v.noDef > 0 || len(t.S) < 40 || (len(t.S) < 80 && !isArray(t.Sort)) {
		return t
	}
	c := v.fresh(prefix, t.Sort)
	v.raw(tEq(c, t), "")
	if t.Sort == "Str" {
		v.strDefs[c.S] = t
	}
	return c
}

// scat concatenates strings in a canonical form: left-associated, with
// adjacent literals merged.
func (v *VC) scat(ts ...Term) Term {
	var parts []Term
	for _, t := range ts {
		for _, p := range v.scatParts(t) {
			if l, ok := v.litText[p.S]; ok {
				if l == "" {
					continue
				}
				if n := len(parts); n > 0 {
					if k, ok := v.litText[parts[n-1].S]; ok {
						parts[n-1] = v.strLit(k + l)
						continue
					}
				}
			}
			parts = append(parts, p)
		}
	}
	if len(parts) == 0 {
		return v.strLit("")
	}
	r := parts[0]
	for _, p := range parts[1:] {
		r = app("Str", "scat", r, p)
	}
	return r
}

func (v *VC) scatParts(t Term) []Term {
	if d, ok := v.strDefs[t.S]; ok && strings.HasPrefix(d.S, "(scat ") {
		return v.scatParts(d)
	}
	if strings.HasPrefix(t.S, "(scat ") {
		var out []Term
		for _, a := range sexprArgs(t.S) {
			out = append(out, v.scatParts(Term{a, "Str"})...)
		}
		return out
	}
	return []Term{t}
}

func (v *VC) assume(st *State, t Term, label string) {
	v.raw(tImp(st.reach, t), label)
}

func (v *VC) position(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := v.P.Prog.Fset.Position(p)
	f := strings.TrimPrefix(ps.Filename, v.P.RepoDir+"/")
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (v *VC) goalID(base string) string {
	v.idCount[base]++
	if n := v.idCount[base]; n > 1 {
		return fmt.Sprintf("%s#%d", base, n)
	}
	return base
}

// goal records the obligation reach => t, then assumes it.
func (v *VC) goal(st *State, kind, label string, props []string, t Term) *Goal {
	if v.dry > 0 {
		return nil
	}
	f := tImp(st.reach, t)
	if v.TopC != nil && v.TopC.Opts["guardonly"] != "" && kind != "guard" && kind != "post" && kind != "unsupported" && label != "lock taken twice" && label != "unlock without lock" {
		v.raw(f, "")
		return nil
	}
	g := &Goal{Func: v.Name, ID: v.goalID(v.Name + "/" + kind + "/" + label), Kind: kind, Props: props, Pos: v.position(v.posHint), Term: f.S}
	if f.S == "true" {
		g.Status = "proved"
		g.Solver = "syntactic"
		v.goals = append(v.goals, g)
		return g
	}
	g.idx = len(v.items)
	v.items = append(v.items, item{goal: g})
	v.goals = append(v.goals, g)
	v.raw(f, "")
	return g
}

// candGoal records a Houdini obligation (not assumed).
func (v *VC) candGoal(st *State, c *Cand, kind string, t Term) {
	if v.dry > 0 {
		return
	}
	f := tImp(st.reach, t)
	if f.S == "true" {
		return
	}
	g := &Goal{Func: v.Name, ID: v.goalID(v.Name + "/" + kind + "/" + c.ID), Kind: kind, Term: f.S, Cand: c, Pos: v.position(v.posHint)}
	g.idx = len(v.items)
	v.items = append(v.items, item{goal: g})
	c.Goals = append(c.Goals, g)
}

// unsupported code: an obligation that cannot be discharged.
func (v *VC) unsupported(st *State, what string) {
	if v.dry > 0 {
		return
	}
	v.unsup = append(v.unsup, what+" at "+v.position(v.posHint))
	v.goal(st, "unsupported", what, nil, tFalse)
}

// ---- state

type localVar struct {
	name string
	typ  types.Type
	gor  *gorInst
}

type iterVar struct {
	name   string
	m      Term       // map reference
	mt     *types.Map // map type
	startD Term       // domain at start
	startL Term
	loop   *loopInst // innermost loop that advances it
	org    *guardOrg
}

type iterState struct {
	visited Term
	count   Term
}

type State struct {
	reach   Term
	heap    map[string]Term
	locals  map[*localVar]Val
	iters   map[*iterVar]iterState
	defers  []deferred
	lcRead  map[*localVar]bool // captured locals read by live goroutines
	lcWrite map[*localVar]bool
	lcMine  map[*localVar]bool
}

type deferred struct {
	fr    *Frame
	guard Term
	block *ssa.BasicBlock
	run   func(st *State) *State
}

func (s *State) clone() *State {
	n := &State{reach: s.reach, heap: make(map[string]Term, len(s.heap)), locals: make(map[*localVar]Val, len(s.locals)), iters: make(map[*iterVar]iterState, len(s.iters))}
	for k, x := range s.heap {
		n.heap[k] = x
	}
	for k, x := range s.locals {
		n.locals[k] = x
	}
	for k, x := range s.iters {
		n.iters[k] = x
	}
	n.defers = append([]deferred(nil), s.defers...)
	cp := func(m map[*localVar]bool) map[*localVar]bool {
		o := map[*localVar]bool{}
		for k := range m {
			o[k] = true
		}
		return o
	}
	n.lcRead, n.lcWrite, n.lcMine = cp(s.lcRead), cp(s.lcWrite), cp(s.lcMine)
	return n
}

func (v *VC) newState() *State {
	return &State{reach: tTrue, heap: map[string]Term{}, locals: map[*localVar]Val{}, iters: map[*iterVar]iterState{}, lcRead: map[*localVar]bool{}, lcWrite: map[*localVar]bool{}, lcMine: map[*localVar]bool{}}
}

// declHeap registers a heap array.
func (v *VC) declHeap(name, sort string, valT types.Type) {
	if s, ok := v.heapS[name]; ok {
		if s != sort {
			panic("heap " + name + " redeclared: " + s + " vs " + sort)
		}
		return
	}
	v.heapS[name] = sort
	v.heapT[name] = valT
}

func (v *VC) initHeap(name string) Term {
	s, ok := v.heapS[name]
	if !ok {
		panic("unknown heap " + name)
	}
	n := sym(name + "!0")
	t := Term{n, s}
	if !v.consts[n] {
		v.consts[n] = true
		v.preDecl(fmt.Sprintf("(declare-const %s %s)", n, s))
		if w := v.heapWF(name, t, v.initAl); w.S != "true" {
			v.preDecl("(assert " + w.S + ")")
		}
	}
	return t
}

func (v *VC) getH(st *State, name string) Term {
	if t, ok := st.heap[name]; ok {
		return t
	}
	return v.initHeap(name)
}

func (v *VC) setH(st *State, name string, t Term) {
	if t.Sort != v.heapS[name] {
		panic(fmt.Sprintf("setH %s: %s vs %s", name, t.Sort, v.heapS[name]))
	}
	st.heap[name] = v.def(name, t)
	for _, r := range v.recs {
		r.heaps[name] = true
	}
}

func (v *VC) recTarget(name string, ref, idx Term) {
	for _, r := range v.recs {
		if r.tgts[name] == nil {
			r.tgts[name] = map[string]writeTarget{}
		}
		r.tgts[name][ref.S+"@"+idx.S] = writeTarget{name, ref, idx}
	}
}

func (v *VC) recAny(name string) {
	for _, r := range v.recs {
		r.any[name] = true
		r.heaps[name] = true
	}
}

// storeAt writes heap[ref] = x.
func (v *VC) storeAt(st *State, name string, ref, x Term) {
	v.recTarget(name, ref, Term{})
	v.setH(st, name, tStore(v.getH(st, name), ref, x))
}

// havocH replaces a heap by an arbitrary well-formed one.
func (v *VC) havocH(st *State, name string) (old, nw Term) {
	old = v.getH(st, name)
	nw = v.fresh(name, v.heapS[name])
	st.heap[name] = nw
	for _, r := range v.recs {
		r.heaps[name] = true
	}
	return
}

func (v *VC) assumeHeapWF(st *State, name string) {
	t := v.getH(st, name)
	w := v.heapWF(name, t, v.alloc(st))
	v.raw(tImp(st.reach, w), "wf")
}

func (v *VC) alloc(st *State) Term {
	if t, ok := st.heap["alloc"]; ok {
		return t
	}
	return v.initAl
}

func (v *VC) newRef(st *State) Term {
	a := v.alloc(st)
	v.newRefs[a.S] = true
	v.declHeap("alloc", "Int", nil)
	st.heap["alloc"] = v.def("alloc", v.plus(a, 1))
	for _, r := range v.recs {
		r.heaps["alloc"] = true
	}
	return a
}

// plus adds a constant, folding nested sums.
func (v *VC) plus(t Term, n int64) Term {
	if n == 0 {
		return t
	}
	var c int64
	if _, err := fmt.Sscanf(t.S, "%d", &c); err == nil && fmt.Sprintf("%d", c) == t.S {
		return tInt(c + n)
	}
	if strings.HasPrefix(t.S, "(+ ") {
		if a := sexprArgs(t.S); len(a) == 2 {
			if _, err := fmt.Sscanf(a[1], "%d", &c); err == nil && fmt.Sprintf("%d", c) == a[1] {
				return v.plus(Term{a[0], "Int"}, c+n)
			}
		}
	}
	if strings.HasPrefix(t.S, "(- ") {
		if a := sexprArgs(t.S); len(a) == 2 {
			if _, err := fmt.Sscanf(a[1], "%d", &c); err == nil && fmt.Sprintf("%d", c) == a[1] {
				return v.plus(Term{a[0], "Int"}, n-c)
			}
		} else if len(a) == 1 {
			if _, err := fmt.Sscanf(a[0], "%d", &c); err == nil && fmt.Sprintf("%d", c) == a[0] {
				return tInt(n - c)
			}
		}
	}
	if n < 0 {
		return app("Int", "-", t, tInt(-n))
	}
	return app("Int", "+", t, tInt(n))
}

// ---- well-formedness of values

// valWF says that references inside t are allocated and slices are sane.
func (v *VC) valWF(t Term, typ types.Type, alloc Term) Term {
	if typ == nil {
		return tTrue
	}
	typ = types.Unalias(typ)
	if _, ok := typ.(*types.TypeParam); ok {
		return tTrue
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		// addresses of fields are negative
		return app("Bool", "<", t, alloc)
	case *types.Map, *types.Chan, *types.Signature:
		return tAnd(app("Bool", "<=", tInt(0), t), app("Bool", "<", t, alloc))
	case *types.Slice:
		return tAnd(app("Bool", "<=", tInt(0), app("Int", "s.off", t)), app("Bool", "<=", tInt(0), app("Int", "s.len", t)),
			app("Bool", "<=", app("Int", "s.len", t), app("Int", "s.cap", t)),
			app("Bool", "<=", tInt(0), app("Int", "s.arr", t)),
			app("Bool", "<", app("Int", "s.arr", t), alloc),
			tImp(tEq(app("Int", "s.arr", t), tInt(0)), tEq(t, Term{"nilSlice", "Slice"})))
	case *types.Struct:
		if isOpaque(typ) {
			return tTrue
		}
		si := v.structOf(typ)
		var cs []Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, v.valWF(si.sel(t, i), u.Field(i).Type(), alloc))
		}
		return tAnd(cs...)
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			switch u.Kind() {
			case types.Uint, types.Uint64, types.Uintptr:
				return app("Bool", "<=", tInt(0), t)
			case types.Uint8:
				return tAnd(app("Bool", "<=", tInt(0), t), app("Bool", "<=", t, tInt(255)))
			case types.Uint16:
				return tAnd(app("Bool", "<=", tInt(0), t), app("Bool", "<=", t, tInt(65535)))
			case types.Uint32:
				return tAnd(app("Bool", "<=", tInt(0), t), app("Bool", "<=", t, tInt(4294967295)))
			case types.Int32:
				return tAnd(app("Bool", "<=", tInt(-2147483648), t), app("Bool", "<=", t, tInt(2147483647)))
			}
		}
	}
	return tTrue
}

// heapWF is the well-formedness axiom of a whole heap array.
func (v *VC) heapWF(name string, h Term, alloc Term) Term {
	vt := v.heapT[name]
	switch {
	case strings.HasPrefix(name, "F!"), strings.HasPrefix(name, "C!"):
		sel := app("", "select", h, Term{"r", "Int"})
		_, sel.Sort = splitArray(h.Sort)
		w := v.valWF(sel, vt, alloc)
		if w.S == "true" {
			return w
		}
		return Term{fmt.Sprintf("(forall ((r Int)) (! (=> (< r %s) %s) :pattern (%s)))", alloc.S, w.S, sel.S), "Bool"}
	case strings.HasPrefix(name, "G!"):
		return v.valWF(h, vt, alloc)
	case strings.HasPrefix(name, "A!"):
		_, in := splitArray(h.Sort)
		_, es := splitArray(in)
		sel := Term{fmt.Sprintf("(select (select %s r) i)", h.S), es}
		w := v.valWF(sel, vt, alloc)
		if w.S == "true" {
			return w
		}
		return Term{fmt.Sprintf("(forall ((r Int) (i Int)) (! (=> (< r %s) %s) :pattern (%s)))", alloc.S, w.S, sel.S), "Bool"}
	case strings.HasPrefix(name, "MV!"):
		mt := vt.(*types.Map)
		_, in := splitArray(h.Sort)
		ks, es := splitArray(in)
		sel := Term{fmt.Sprintf("(select (select %s r) k)", h.S), es}
		w := v.valWF(sel, mt.Elem(), alloc)
		if w.S == "true" {
			return w
		}
		return Term{fmt.Sprintf("(forall ((r Int) (k %s)) (! (=> (< r %s) %s) :pattern (%s)))", ks, alloc.S, w.S, sel.S), "Bool"}
	case strings.HasPrefix(name, "MD!"):
		return tEq(tSel(h, tInt(0)), emptySet(v.sortOf(vt.(*types.Map).Key())))
	case strings.HasPrefix(name, "ML!"):
		return Term{fmt.Sprintf("(and (= (select %s 0) 0) (forall ((r Int)) (! (<= 0 (select %s r)) :pattern ((select %s r)))))", h.S, h.S, h.S), "Bool"}
	}
	return tTrue
}

// mapCanon relates the three heaps of a map type: absent keys hold the zero
// value, and a map of length zero is empty.
func (v *VC) mapCanon(st *State, mt *types.Map) Term {
	d, x, l := v.mapHeaps(mt)
	D, X, L := v.getH(st, d), v.getH(st, x), v.getH(st, l)
	ks := v.sortOf(mt.Key())
	z := v.zero(mt.Elem())
	return Term{fmt.Sprintf("(and (forall ((r Int) (k %s)) (! (=> (not (select (select %s r) k)) (= (select (select %s r) k) %s)) :pattern ((select (select %s r) k)))) "+
		"(forall ((r Int) (k %s)) (! (=> (select (select %s r) k) (> (select %s r) 0)) :pattern ((select (select %s r) k) (select %s r)))))",
		ks, D.S, X.S, z.S, X.S, ks, D.S, L.S, D.S, L.S), "Bool"}
}

// mapHeaps declares and names the heaps of a map type.
func (v *VC) mapHeaps(mt *types.Map) (d, x, l string) {
	k := typeKey(mt.Key()) + "]" + typeKey(mt.Elem())
	d, x, l = "MD!"+k, "MV!"+k, "ML!"+k
	if _, ok := v.heapS[d]; !ok {
		ks := v.sortOf(mt.Key())
		es := v.sortOf(mt.Elem())
		v.declHeap(d, arr("Int", arr(ks, "Bool")), mt)
		v.declHeap(x, arr("Int", arr(ks, es)), mt)
		v.declHeap(l, arr("Int", "Int"), mt)
		s := v.newState()
		c := v.mapCanon(s, mt)
		v.preDecl("(assert " + c.S + ")")
	}
	return
}

func (v *VC) elemHeap(et types.Type) string {
	n := "A!" + typeKey(et)
	if _, ok := v.heapS[n]; !ok {
		v.declHeap(n, arr("Int", arr("Int", v.sortOf(et))), et)
	}
	return n
}

func (v *VC) cellHeap(t types.Type) string {
	n := "C!" + typeKey(t)
	if _, ok := v.heapS[n]; !ok {
		v.declHeap(n, arr("Int", v.sortOf(t)), t)
	}
	return n
}

func (v *VC) fieldHeap(st types.Type, i int) string {
	s := under(st).(*types.Struct)
	n := "F!" + typeKey(st) + "." + fieldName(s, i)
	if _, ok := v.heapS[n]; !ok {
		v.declHeap(n, arr("Int", v.sortOf(s.Field(i).Type())), s.Field(i).Type())
	}
	return n
}

func (v *VC) globalHeap(g *ssa.Global) string {
	et := g.Type().(*types.Pointer).Elem()
	n := "G!" + shortPath(g.Pkg.Pkg.Path()) + "." + g.Name()
	if _, ok := v.heapS[n]; !ok {
		v.declHeap(n, v.sortOf(et), et)
	}
	return n
}

// ghost heaps declared in contract files
func (v *VC) ghostHeap(name string) (string, types.Type, bool) {
	g, ok := v.DB.Ghosts[name]
	if !ok {
		return "", nil, false
	}
	n := "X!" + name
	if _, ok := v.heapS[n]; !ok {
		v.declHeap(n, v.sortOf(g), g)
	}
	return n, g, true
}

// ---- merging

type inEdge struct {
	st   *State
	from *ssa.BasicBlock
}

// merge joins states; each state's reach already includes its edge condition.
func (v *VC) merge(ins []*State) *State {
	if len(ins) == 1 {
		return ins[0]
	}
	out := &State{heap: map[string]Term{}, locals: map[*localVar]Val{}, iters: map[*iterVar]iterState{}, lcRead: map[*localVar]bool{}, lcWrite: map[*localVar]bool{}, lcMine: map[*localVar]bool{}}
	var rs []Term
	for _, s := range ins {
		rs = append(rs, s.reach)
		for k := range s.lcRead {
			out.lcRead[k] = true
		}
		for k := range s.lcWrite {
			out.lcWrite[k] = true
		}
		for k := range s.lcMine {
			out.lcMine[k] = true
		}
	}
	r := tOr(rs...)
	if r.S != "true" && v.noDef == 0 {
		c := v.fresh("R", "Bool")
		v.raw(tEq(c, r), "")
		r = c
	}
	out.reach = r
	names := map[string]bool{}
	for _, s := range ins {
		for k := range s.heap {
			names[k] = true
		}
	}
	var ns []string
	for k := range names {
		ns = append(ns, k)
	}
	sort.Strings(ns)
	for _, k := range ns {
		var vals []Term
		same := true
		for _, s := range ins {
			t := v.getHA(s, k)
			vals = append(vals, t)
			if t.S != vals[0].S {
				same = false
			}
		}
		if same {
			out.heap[k] = vals[0]
			continue
		}
		out.heap[k] = v.joinTerms(k, ins, vals)
	}
	lv := map[*localVar]bool{}
	var lvo []*localVar
	for _, s := range ins {
		for k := range s.locals {
			if !lv[k] {
				lv[k] = true
				lvo = append(lvo, k)
			}
		}
	}
	sort.Slice(lvo, func(i, j int) bool { return lvo[i].name < lvo[j].name })
	for _, k := range lvo {
		var vals []Val
		okAll := true
		var sts []*State
		for _, s := range ins {
			x, ok := s.locals[k]
			if !ok {
				okAll = false
				continue
			}
			vals = append(vals, x)
			sts = append(sts, s)
		}
		_ = okAll
		out.locals[k] = v.joinVals(k.name, sts, vals)
	}
	iv := map[*iterVar]bool{}
	var ivo []*iterVar
	for _, s := range ins {
		for k := range s.iters {
			if !iv[k] {
				iv[k] = true
				ivo = append(ivo, k)
			}
		}
	}
	sort.Slice(ivo, func(i, j int) bool { return ivo[i].name < ivo[j].name })
	for _, k := range ivo {
		var sts []*State
		var a, b []Term
		for _, s := range ins {
			if x, ok := s.iters[k]; ok {
				sts = append(sts, s)
				a = append(a, x.visited)
				b = append(b, x.count)
			}
		}
		out.iters[k] = iterState{v.joinTerms("vis", sts, a), v.joinTerms("cnt", sts, b)}
	}
	// deferred calls: union in order
	seen := map[string]bool{}
	for _, s := range ins {
		for _, d := range s.defers {
			key := fmt.Sprintf("%p", d.run)
			key = fmt.Sprintf("%p/%d/%p/%s", d.fr, d.block.Index, d.block, d.guard.S)
			if !seen[key] {
				seen[key] = true
				out.defers = append(out.defers, d)
			}
		}
	}
	return out
}

func (v *VC) getHA(s *State, k string) Term {
	if k == "alloc" {
		return v.alloc(s)
	}
	return v.getH(s, k)
}

func (v *VC) joinTerms(name string, ins []*State, vals []Term) Term {
	same := true
	for _, t := range vals {
		if t.S != vals[0].S {
			same = false
		}
	}
	if same {
		return vals[0]
	}
	if v.noDef > 0 {
		r := vals[len(vals)-1]
		for i := len(vals) - 2; i >= 0; i-- {
			r = tIte(ins[i].reach, vals[i], r)
		}
		return r
	}
	c := v.fresh(name, vals[0].Sort)
	for i, s := range ins {
		v.raw(tImp(s.reach, tEq(c, vals[i])), "")
	}
	return c
}

func (v *VC) joinVals(name string, ins []*State, vals []Val) Val {
	if len(vals) == 1 {
		return vals[0]
	}
	allEq := true
	for _, x := range vals {
		if !sameVal(x, vals[0]) {
			allEq = false
		}
	}
	if allEq {
		return vals[0]
	}
	if vals[0].Tup != nil {
		var out Val
		out.Typ = vals[0].Typ
		for i := range vals[0].Tup {
			var vs []Val
			for _, x := range vals {
				if i >= len(x.Tup) {
					return Val{Typ: vals[0].Typ, Bad: "tuple arity at join"}
				}
				vs = append(vs, x.Tup[i])
			}
			out.Tup = append(out.Tup, v.joinVals(name, ins, vs))
		}
		return out
	}
	var ts []Term
	for i := range vals {
		if vals[i].Bad != "" {
			return vals[i]
		}
		t := v.asTerm(ins[i], vals[i])
		if !t.ok() {
			return Val{Typ: vals[0].Typ, Bad: "join of different function values or addresses"}
		}
		ts = append(ts, t)
		if t.Sort != ts[0].Sort {
			return Val{Typ: vals[0].Typ, Bad: "join of different sorts"}
		}
	}
	r := Val{Typ: vals[0].Typ, T: v.joinTerms(name, ins, ts)}
	return r
}
