package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type candCtx struct {
	st  *State
	phi map[*ssa.Phi]Val
	it  Term
	li  *loopInst
}

type candInst struct {
	c    *Cand
	iter bool // a template over the iteration count
	eval func(x *candCtx) (Term, error)
}

type hardInv struct {
	cl   *Clause
	eval func(x *candCtx) (Term, error)
}

func (fr *Frame) freshPhis(ps map[*ssa.Phi]Val, st *State) map[*ssa.Phi]Val {
	vc := fr.vc
	out := map[*ssa.Phi]Val{}
	var keys []*ssa.Phi
	for p := range ps {
		keys = append(keys, p)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].Name() < keys[j].Name() })
	for _, p := range keys {
		t := fr.typ(p.Type())
		if ps[p].Fn != nil {
			out[p] = Val{Bad: "function value changing in a loop", Typ: t}
			continue
		}
		if ps[p].It != nil {
			out[p] = ps[p]
			continue
		}
		c := vc.fresh(p.Name(), vc.sortOf(t))
		vc.assumeWF(st, c, t)
		out[p] = Val{T: c, Typ: t}
	}
	return out
}

func (fr *Frame) enterLoop(info *loopInfo, st *State, init map[*ssa.Phi]Val) *State {
	vc := fr.vc
	if vc.dry > 0 {
		ph := fr.freshPhis(init, st)
		fr.insts = append(fr.insts, &loopInst{fr: fr, info: info, entry: st, phis: ph, dry: true, it: tInt(0)})
		for p, v := range ph {
			fr.env[p] = v
		}
		return st
	}
	entry := st.clone()
	// dry run: which locations does the body write?
	rec := newRecorder(vc.nfresh)
	nItems := len(vc.items)
	nInst := len(fr.insts)
	rets, rvals, blk, act := fr.rets, fr.rvals, fr.curBlk, fr.active
	vc.recs = append(vc.recs, rec)
	vc.dry++
	d := st.clone()
	ph := fr.freshPhis(init, d)
	fr.insts = append(fr.insts, &loopInst{fr: fr, info: info, entry: d, phis: ph, dry: true, it: tInt(0)})
	fr.run(info.header, d, info.body, ph)
	vc.dry--
	vc.recs = vc.recs[:len(vc.recs)-1]
	vc.items = vc.items[:nItems]
	fr.insts = fr.insts[:nInst]
	fr.rets, fr.rvals, fr.curBlk, fr.active = rets, rvals, blk, act
	for _, outer := range vc.recs {
		for h := range rec.heaps {
			outer.heaps[h] = true
		}
	}

	li := &loopInst{fr: fr, info: info, entry: entry, rec: rec, ord: len(vc.loopsSeen)}
	vc.loopsSeen = append(vc.loopsSeen, li)
	fr.insts = append(fr.insts, li)
	li.phis = init
	li.it = tInt(0)
	fr.popLoops(info.header)
	fr.buildCands(li, init)
	ctx := &candCtx{st: entry, phi: init, it: tInt(0), li: li}
	vc.posHint = blockPos(info.header)
	var live []*candInst
	for _, c := range li.cands {
		t, err := c.eval(ctx)
		if err != nil {
			vc.note("candidate %s: %v", c.c.ID, err)
			continue
		}
		if c.iter && staleChan(t.S, li.rec) {
			continue
		}
		vc.candGoal(entry, c.c, "inv-init", t)
		live = append(live, c)
	}
	li.cands = live
	for _, h := range li.hard {
		t, err := h.eval(ctx)
		if err != nil {
			vc.goal(entry, "always-init", h.cl.Src+" :: "+err.Error(), h.cl.Labels, tFalse)
			continue
		}
		vc.goal(entry, "always-init", clauseName(h.cl), h.cl.Labels, t)
	}

	// havoc
	for lv := range rec.lcR {
		st.lcRead[lv] = true
	}
	for lv := range rec.lcW {
		st.lcWrite[lv] = true
	}
	fr.havocMods(st, rec)
	it := vc.fresh("iter", "Int")
	vc.raw(app("Bool", "<=", tInt(0), it), "")
	ph = fr.freshPhis(init, st)
	for p := range ph {
		// a counter that only ever moves by a constant
		if k, ok := fr.stepOf(p, info); ok {
			i0 := vc.asTerm(entry, init[p])
			if n, lit := numeral(i0); lit && k == 1 {
				ph[p] = Val{T: vc.plus(it, n), Typ: ph[p].Typ}
			} else if i0.ok() {
				ph[p] = Val{T: tAdd(i0, ternT(k == 1, it, app("Int", "*", tInt(k), it))), Typ: ph[p].Typ}
			}
		}
	}
	for p, v := range ph {
		fr.env[p] = v
	}
	li.phis = ph
	li.it = it
	ctx = &candCtx{st: st, phi: ph, it: it, li: li}
	for _, c := range li.cands {
		t, err := c.eval(ctx)
		if err != nil {
			continue
		}
		vc.raw(tImp(Term{c.c.Act, "Bool"}, tImp(st.reach, t)), "cand")
	}
	for _, h := range li.hard {
		if t, err := h.eval(ctx); err == nil {
			vc.assume(st, t, "always")
		}
	}
	return st
}

// staleChan: a statement about iterations and channels in a loop that does
// not use these channels.
func staleChan(t string, rec *recorder) bool {
	chans := false
	for _, p := range strings.FieldsFunc(t, func(r rune) bool { return r == ' ' || r == '(' || r == ')' || r == '|' }) {
		if !strings.HasPrefix(p, "K!sent]") && !strings.HasPrefix(p, "K!rcv]") && !strings.HasPrefix(p, "K!ck]") && !strings.HasPrefix(p, "K!msg]") && !strings.HasPrefix(p, "K!nsent!") {
			continue
		}
		chans = true
		if i := strings.LastIndexByte(p, '!'); i > 0 && rec.heaps[p[:i]] {
			return false
		}
	}
	return chans
}

func clauseName(c *Clause) string {
	if c.Name != "" {
		return c.Name
	}
	s := c.Src
	if len(s) > 90 {
		s = s[:90] + "…"
	}
	return s
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return token.NoPos
}

func (vc *VC) note(f string, a ...any) {
	vc.notes = append(vc.notes, fmt.Sprintf(f, a...))
}

// havocMods replaces everything the recorder saw written by arbitrary
// well-formed values.
func (fr *Frame) havocMods(st *State, rec *recorder) {
	vc := fr.vc
	var hs []string
	for h := range rec.heaps {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	if rec.heaps["alloc"] {
		a := vc.alloc(st)
		n := vc.fresh("alloc", "Int")
		vc.raw(app("Bool", "<=", a, n), "")
		st.heap["alloc"] = n
	}
	maps := map[string]*types.Map{}
	for _, h := range hs {
		if h == "alloc" {
			continue
		}
		vc.havocH(st, h)
		if mt, ok := vc.heapT[h].(*types.Map); ok && h[0] == 'M' {
			maps[typeKey(mt)] = mt
		}
	}
	for _, h := range hs {
		if h != "alloc" {
			vc.assumeHeapWF(st, h)
		}
	}
	var mk []string
	for k := range maps {
		mk = append(mk, k)
	}
	sort.Strings(mk)
	for _, k := range mk {
		vc.raw(vc.mapCanon(st, maps[k]), "wf")
	}
	var lvs []*localVar
	for lv := range rec.locals {
		if _, ok := st.locals[lv]; ok {
			lvs = append(lvs, lv)
		}
	}
	sort.Slice(lvs, func(i, j int) bool { return lvs[i].name < lvs[j].name })
	for _, lv := range lvs {
		old := st.locals[lv]
		if old.Fn != nil || old.L != nil {
			st.locals[lv] = Val{Bad: "address or function stored in a loop", Typ: lv.typ}
			continue
		}
		c := vc.fresh(lv.name, vc.sortOf(lv.typ))
		vc.assumeWF(st, c, lv.typ)
		st.locals[lv] = Val{T: c, Typ: lv.typ}
		for _, r := range vc.recs {
			r.locals[lv] = true
		}
	}
	var ivs []*iterVar
	for iv := range rec.iters {
		if _, ok := st.iters[iv]; ok {
			ivs = append(ivs, iv)
		}
	}
	sort.Slice(ivs, func(i, j int) bool { return ivs[i].name < ivs[j].name })
	for _, iv := range ivs {
		is := st.iters[iv]
		n := iterState{vc.fresh("vis", is.visited.Sort), vc.fresh("cnt", "Int")}
		vc.raw(app("Bool", "<=", tInt(0), n.count), "")
		st.iters[iv] = n
		for _, r := range vc.recs {
			r.iters[iv] = true
		}
	}
}

func (fr *Frame) backEdge(li *loopInst, from *ssa.BasicBlock, st *State) {
	vc := fr.vc
	if li.dry || vc.dry > 0 {
		return
	}
	phi := map[*ssa.Phi]Val{}
	idx := predIndex(li.info.header, from)
	for p := range li.phis {
		v := fr.val(st, p.Edges[idx])
		v.Typ = fr.typ(p.Type())
		phi[p] = v
	}
	ctx := &candCtx{st: st, phi: phi, it: vc.plus(li.it, 1), li: li}
	for _, h := range li.hard {
		t, err := h.eval(ctx)
		if err != nil {
			vc.goal(st, "always-keep", h.cl.Src+" :: "+err.Error(), h.cl.Labels, tFalse)
			continue
		}
		vc.goal(st, "always-keep", clauseName(h.cl), h.cl.Labels, t)
	}
	for _, c := range li.cands {
		t, err := c.eval(ctx)
		if err != nil {
			vc.note("candidate %s at back edge: %v", c.c.ID, err)
			t = tFalse
		}
		vc.candGoal(st, c.c, "inv-keep", t)
	}
	fr.checkTerm(li, from, st, phi)
}

// ---- candidate construction

func (fr *Frame) addCand(li *loopInst, desc string, usr bool, eval func(x *candCtx) (Term, error)) {
	vc := fr.vc
	id := fmt.Sprintf("L%d.%d", li.ord, len(li.cands))
	act := sym(fmt.Sprintf("act!%s", id))
	c := &Cand{ID: id + " " + desc, Act: act, Desc: desc, FromUsr: usr}
	vc.preDecl(fmt.Sprintf("(declare-const %s Bool)", act))
	vc.cands = append(vc.cands, c)
	li.cands = append(li.cands, &candInst{c: c, eval: eval})
}

// lvalue-ish sources of values that a loop may change
type varSrc struct {
	name string
	typ  types.Type
	get  func(x *candCtx) (Val, bool)
	mod  bool // may change in the loop
	step bool // moves by a constant
	init Val
}

func (fr *Frame) steps(p *ssa.Phi, li *loopInst) bool {
	_, ok := fr.stepOf(p, li.info)
	return ok
}

// stepOf tells whether every back edge adds the same constant to p.
func (fr *Frame) stepOf(p *ssa.Phi, info *loopInfo) (int64, bool) {
	b, ok := fr.typ(p.Type()).Underlying().(*types.Basic)
	if !ok || b.Kind() != types.Int && b.Kind() != types.Int64 {
		return 0, false
	}
	var k int64
	n := 0
	for i, pr := range info.header.Preds {
		if !info.body[pr] {
			continue
		}
		x, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || x.X != ssa.Value(p) || x.Op != token.ADD && x.Op != token.SUB {
			return 0, false
		}
		c, ok := x.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return 0, false
		}
		m := c.Int64()
		if x.Op == token.SUB {
			m = -m
		}
		if n > 0 && m != k {
			return 0, false
		}
		k = m
		n++
	}
	return k, n > 0
}

func numeral(t Term) (int64, bool) {
	var n int64
	if _, err := fmt.Sscanf(t.S, "%d", &n); err == nil && fmt.Sprint(n) == t.S {
		return n, true
	}
	if _, err := fmt.Sscanf(t.S, "(- %d)", &n); err == nil && fmt.Sprintf("(- %d)", n) == t.S {
		return -n, true
	}
	return 0, false
}

// phisAndLocals lists the loop-carried variables.
func (fr *Frame) carried(li *loopInst, init map[*ssa.Phi]Val) []varSrc {
	var out []varSrc
	var ps []*ssa.Phi
	for p := range init {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Name() < ps[j].Name() })
	for _, p := range ps {
		p := p
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		out = append(out, varSrc{nm, fr.typ(p.Type()), func(x *candCtx) (Val, bool) { v, ok := x.phi[p]; return v, ok }, true, fr.steps(p, li), init[p]})
	}
	var lvs []*localVar
	for lv := range li.rec.locals {
		if v, ok := li.entry.locals[lv]; ok && v.Fn == nil && v.L == nil && v.Bad == "" {
			lvs = append(lvs, lv)
		}
	}
	sort.Slice(lvs, func(i, j int) bool { return lvs[i].name < lvs[j].name })
	for _, lv := range lvs {
		lv := lv
		out = append(out, varSrc{lv.name, lv.typ, func(x *candCtx) (Val, bool) {
			v, ok := x.st.locals[lv]
			return v, ok && v.Bad == "" && v.Fn == nil && v.L == nil
		}, true, false, li.entry.locals[lv]})
	}
	return out
}

func invariantTerm(t Term, start int) bool {
	s := t.S
	for {
		i := strings.IndexByte(s, '!')
		if i < 0 {
			return true
		}
		j := i + 1
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		if j > i+1 && (j == len(s) || s[j] == ' ' || s[j] == ')' || s[j] == '|') {
			n := 0
			fmt.Sscanf(s[i+1:j], "%d", &n)
			if n > start {
				return false
			}
		}
		s = s[i+1:]
	}
}

func (fr *Frame) buildCands(li *loopInst, init map[*ssa.Phi]Val) {
	vc := fr.vc
	entry := li.entry
	car := fr.carried(li, init)
	alloc0 := vc.initAl
	allocL := vc.alloc(entry)
	bounds := fr.loopBounds(li)
	ge := func(a, b Term) Term { return app("Bool", ">=", a, b) }
	le := func(a, b Term) Term { return app("Bool", "<=", a, b) }
	simple := func(desc string, s varSrc, f func(v, i0 Term, x *candCtx) Term) {
		fr.addCand(li, desc, false, func(x *candCtx) (Term, error) {
			v, ok := s.get(x)
			if !ok {
				return Term{}, fmt.Errorf("no value")
			}
			t := vc.asTerm(x.st, v)
			i0 := vc.asTerm(entry, s.init)
			if !t.ok() || !i0.ok() {
				return Term{}, fmt.Errorf("no term")
			}
			return f(t, i0, x), nil
		})
	}
	intCands := func(s varSrc) {
		if !s.step {
			simple(s.name+" = init + it", s, func(v, i0 Term, x *candCtx) Term { return tEq(v, tAdd(i0, x.it)) })
			simple(s.name+" = init - it", s, func(v, i0 Term, x *candCtx) Term { return tEq(v, tSub(i0, x.it)) })
			simple(s.name+" = init", s, func(v, i0 Term, x *candCtx) Term { return tEq(v, i0) })
			simple(s.name+" >= init", s, func(v, i0 Term, x *candCtx) Term { return ge(v, i0) })
			simple(s.name+" <= init", s, func(v, i0 Term, x *candCtx) Term { return le(v, i0) })
			simple(s.name+" <= init+it", s, func(v, i0 Term, x *candCtx) Term { return le(v, tAdd(i0, x.it)) })
		}
		simple(s.name+" >= 0", s, func(v, i0 Term, x *candCtx) Term { return ge(v, tInt(0)) })
		simple(s.name+" >= -1", s, func(v, i0 Term, x *candCtx) Term { return ge(tAdd(v, tInt(1)), tInt(0)) })
		for _, b := range bounds {
			b := b
			for _, op := range []string{"<=", "<", ">="} {
				op := op
				fr.addCand(li, s.name+" "+op+" "+b.name, false, func(x *candCtx) (Term, error) {
					v, ok := s.get(x)
					bv, ok2 := b.get(x)
					if !ok || !ok2 {
						return Term{}, fmt.Errorf("no value")
					}
					return app("Bool", op, vc.asTerm(x.st, v), vc.asTerm(x.st, bv)), nil
				})
			}
		}
	}
	for _, s := range car {
		if s.init.Bad != "" || s.init.Fn != nil || s.init.It != nil {
			continue
		}
		sort := vc.sortOf(s.typ)
		switch {
		case sort == "Int" && !isRefType(s.typ):
			intCands(s)
		case sort == "Real":
			simple(s.name+" >= 0", s, func(v, i0 Term, x *candCtx) Term { return app("Bool", ">=", v, Term{"0.0", "Real"}) })
		case sort == "Int":
			simple(s.name+" fresh", s, func(v, i0 Term, x *candCtx) Term { return ge(v, alloc0) })
			simple(s.name+" fresh in loop", s, func(v, i0 Term, x *candCtx) Term { return tOr(tEq(v, i0), ge(v, allocL)) })
			simple(s.name+" != nil", s, func(v, i0 Term, x *candCtx) Term { return tNot(tEq(v, tInt(0))) })
			simple(s.name+" = init", s, func(v, i0 Term, x *candCtx) Term { return tEq(v, i0) })
		case sort == "Slice":
			simple("len "+s.name+" = init + it", s, func(v, i0 Term, x *candCtx) Term { return tEq(sLen(v), tAdd(sLen(i0), x.it)) })
			simple("len "+s.name+" <= init + it", s, func(v, i0 Term, x *candCtx) Term { return le(sLen(v), tAdd(sLen(i0), x.it)) })
			simple("len "+s.name+" >= init", s, func(v, i0 Term, x *candCtx) Term { return ge(sLen(v), sLen(i0)) })
			simple(s.name+" = init", s, func(v, i0 Term, x *candCtx) Term { return tEq(v, i0) })
			simple("len "+s.name+" = len init", s, func(v, i0 Term, x *candCtx) Term { return tEq(sLen(v), sLen(i0)) })
			simple("off "+s.name+" = init", s, func(v, i0 Term, x *candCtx) Term { return tEq(sOff(v), sOff(i0)) })
			simple("arr "+s.name+" fresh in loop or init", s, func(v, i0 Term, x *candCtx) Term {
				return tOr(tEq(sArr(v), sArr(i0)), ge(sArr(v), allocL))
			})
			simple("arr "+s.name+" fresh or nil", s, func(v, i0 Term, x *candCtx) Term {
				return tOr(tEq(sArr(v), tInt(0)), ge(sArr(v), alloc0))
			})
		default:
			simple(s.name+" = init", s, func(v, i0 Term, x *candCtx) Term { return tEq(v, i0) })
		}
	}
	// iterators
	var ivs []*iterVar
	for iv := range li.rec.iters {
		if _, ok := entry.iters[iv]; ok {
			ivs = append(ivs, iv)
		}
	}
	sort.Slice(ivs, func(i, j int) bool { return ivs[i].name < ivs[j].name })
	for _, iv := range ivs {
		iv := iv
		fr.addCand(li, "count = it", false, func(x *candCtx) (Term, error) { return tEq(x.st.iters[iv].count, x.it), nil })
		fr.addCand(li, "visited within start domain", false, func(x *candCtx) (Term, error) {
			ks := vc.sortOf(iv.mt.Key())
			k := Term{"k", ks}
			vs := tSelRaw(x.st.iters[iv].visited, k)
			if x.st.iters[iv].visited.S == emptySet(ks).S {
				return tTrue, nil
			}
			return Term{fmt.Sprintf("(forall ((k %s)) (! (=> %s %s) :pattern (%s)))", ks, vs.S, tSelRaw(iv.startD, k).S, vs.S), "Bool"}, nil
		})
	}
	// frames of modified heaps
	var hs []string
	for h := range li.rec.heaps {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	for _, h := range hs {
		h := h
		s := vc.heapS[h]
		if h == "alloc" {
			continue
		}
		if !isArray(s) {
			if s == "Int" {
				src := varSrc{h, intT, func(x *candCtx) (Val, bool) { return Val{T: vc.getH(x.st, h), Typ: intT}, true }, true, false, Val{T: vc.getH(entry, h), Typ: intT}}
				intCands(src)
			}
			continue
		}
		ks, es := splitArray(s)
		reg := vc.topRegions[h]
		whole := false
		for _, r := range reg {
			if r.Cond == nil {
				whole = true
			}
		}
		ghost := strings.HasPrefix(h, "X!")
		if !whole {
			fr.addCand(li, "frame(fn) "+h, false, func(x *candCtx) (Term, error) {
				return vc.frameTerm(h, ks, vc.initHeap(h), vc.getH(x.st, h), reg, ternT(ghost, Term{}, alloc0)), nil
			})
		}
		// loop frame
		tg := li.rec.tgts[h]
		var refs []Term
		inv := true
		var keys []string
		for k := range tg {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		seen := map[string]bool{}
		for _, k := range keys {
			t := tg[k]
			if !t.ref.ok() {
				inv = false
				continue
			}
			if invariantTerm(t.ref, li.rec.start) {
				if !seen[t.ref.S] {
					seen[t.ref.S] = true
					refs = append(refs, t.ref)
				}
			} else {
				inv = false
			}
		}
		_ = inv
		lim := allocL
		if ghost && ks != "Int" {
			lim = Term{}
		}
		fr.addCand(li, "frame(loop) "+h, false, func(x *candCtx) (Term, error) {
			return vc.frameTerm(h, ks, vc.getH(entry, h), vc.getH(x.st, h), regionsOf(refs), lim), nil
		})
		// same with the initial values of loop-carried references
		var ext []Term
		for _, c := range car {
			if c.init.Bad != "" || c.init.Fn != nil || c.init.L != nil || !c.init.T.ok() {
				continue
			}
			switch u := under(c.typ).(type) {
			case *types.Slice:
				if vc.elemHeap(u.Elem()) == h {
					ext = append(ext, sArr(c.init.T))
				}
			case *types.Map:
				a, b, l := vc.mapHeaps(u)
				if a == h || b == h || l == h {
					ext = append(ext, c.init.T)
				}
			}
		}
		if len(ext) > 0 {
			fr.addCand(li, "frame(loop+init) "+h, false, func(x *candCtx) (Term, error) {
				return vc.frameTerm(h, ks, vc.getH(entry, h), vc.getH(x.st, h), regionsOf(append(append([]Term(nil), refs...), ext...)), lim), nil
			})
		}
		if ghost && ks == "Int" {
			fr.addCand(li, "frame(loop,all) "+h, false, func(x *candCtx) (Term, error) {
				return vc.frameTerm(h, ks, vc.getH(entry, h), vc.getH(x.st, h), regionsOf(refs), Term{}), nil
			})
		}
		// integer cells at fixed references
		if es == "Int" && ks == "Int" {
			for _, r := range refs {
				r := r
				src := varSrc{h + "[" + r.S + "]", intT, func(x *candCtx) (Val, bool) {
					return Val{T: tSel(vc.getH(x.st, h), r), Typ: intT}, true
				}, true, false, Val{T: tSel(vc.getH(entry, h), r), Typ: intT}}
				if strings.HasPrefix(h, "ML!") {
					simple("len map = init + it", src, func(v, i0 Term, x *candCtx) Term { return tEq(v, tAdd(i0, x.it)) })
					simple("len map <= init + it", src, func(v, i0 Term, x *candCtx) Term { return le(v, tAdd(i0, x.it)) })
				} else {
					simple(src.name+" = init + it", src, func(v, i0 Term, x *candCtx) Term { return tEq(v, tAdd(i0, x.it)) })
					simple(src.name+" = init", src, func(v, i0 Term, x *candCtx) Term { return tEq(v, i0) })
					simple(src.name+" = init - it", src, func(v, i0 Term, x *candCtx) Term { return tEq(v, tSub(i0, x.it)) })
				}
			}
		}
		if es == "Bool" && ks == "Int" {
			for _, r := range refs {
				r := r
				fr.addCand(li, h+"[..] = init", false, func(x *candCtx) (Term, error) {
					return tEq(tSel(vc.getH(x.st, h), r), tSel(vc.getH(entry, h), r)), nil
				})
			}
		}
		// value arrays at fixed references: unchanged below/above the written index
		if strings.HasPrefix(h, "MD!") || strings.HasPrefix(h, "MV!") || strings.HasPrefix(h, "A!") {
			for _, r := range refs {
				r := r
				fr.addCand(li, h+"[..] = init", false, func(x *candCtx) (Term, error) {
					return tEq(tSel(vc.getH(x.st, h), r), tSel(vc.getH(entry, h), r)), nil
				})
			}
		}
	}
	fr.concCands(li)
	// user templates
	if vc.TopC != nil {
		for _, cl := range vc.TopC.Invs {
			if len(cl.Labels) > 0 && !hasLabel(cl.Labels, vc.Prop) {
				continue
			}
			fr.template(li, cl, init)
		}
		if fr.isEventLoop(li) {
			for _, cl := range vc.TopC.Always {
				cl := cl
				if len(cl.Labels) > 0 && !hasLabel(cl.Labels, vc.Prop) {
					continue
				}
				li.hard = append(li.hard, &hardInv{cl, func(x *candCtx) (Term, error) {
					env := fr.tmplEnv(x)
					return env.Bool(cl.E)
				}})
			}
		}
	}
}

func tSelRaw(a, i Term) Term {
	_, e := splitArray(a.Sort)
	return app(e, "select", a, i)
}

func ternT(c bool, a, b Term) Term {
	if c {
		return a
	}
	return b
}

func regionsOf(refs []Term) []Region {
	var out []Region
	for _, r := range refs {
		out = append(out, Region{Cond: eqRef(r)})
	}
	return out
}

// frameTerm: outside the regions (and below lim) the heap is unchanged.
func (vc *VC) frameTerm(h, ks string, old, nw Term, regs []Region, lim Term) Term {
	if old.S == nw.S {
		return tTrue
	}
	r := Term{"r", ks}
	var ex []Term
	if lim.ok() && ks == "Int" {
		ex = append(ex, app("Bool", "<", r, lim))
	}
	for _, g := range regs {
		if g.Cond == nil {
			return tTrue
		}
		ex = append(ex, tNot(g.Cond(r)))
	}
	sn, so := tSelRaw(nw, r), tSelRaw(old, r)
	return Term{fmt.Sprintf("(forall ((r %s)) (! %s :pattern (%s)))", ks, tImp(tAnd(ex...), tEq(sn, so)).S, sn.S), "Bool"}
}

func hasLabel(ls []string, p string) bool {
	if p == "" {
		return true
	}
	for _, l := range ls {
		if l == p {
			return true
		}
	}
	return false
}

type boundSrc struct {
	name string
	get  func(x *candCtx) (Val, bool)
}

// loopBounds collects loop-invariant integers compared with in the loop.
func (fr *Frame) loopBounds(li *loopInst) []boundSrc {
	vc := fr.vc
	var out []boundSrc
	seen := map[string]bool{}
	add := func(v ssa.Value) {
		g := fr.invVal(li, v, 0)
		if g == nil {
			return
		}
		nm := v.Name()
		if c, ok := v.(*ssa.Const); ok {
			nm = c.String()
		}
		if seen[nm] {
			return
		}
		seen[nm] = true
		out = append(out, boundSrc{nm, g})
	}
	for _, b := range fr.order {
		if !li.info.body[b] {
			continue
		}
		for _, i := range b.Instrs {
			x, ok := i.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch x.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			if vc.sortOf(fr.typ(x.X.Type())) != "Int" || isRefType(fr.typ(x.X.Type())) {
				continue
			}
			add(x.X)
			add(x.Y)
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return out
}

// invVal evaluates v if it does not change during the loop.
func (fr *Frame) invVal(li *loopInst, v ssa.Value, depth int) func(x *candCtx) (Val, bool) {
	vc := fr.vc
	if depth > 4 {
		return nil
	}
	switch y := v.(type) {
	case *ssa.Const:
		if vc.sortOf(fr.typ(y.Type())) != "Int" || y.Value == nil {
			return nil
		}
		c := vc.constVal(y.Value, fr.typ(y.Type()))
		return func(*candCtx) (Val, bool) { return c, true }
	case *ssa.Parameter, *ssa.FreeVar:
		c := fr.val(li.entry, v)
		return func(*candCtx) (Val, bool) { return c, c.Bad == "" && c.T.ok() }
	case *ssa.Call:
		if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && li.info.body[y.Block()] {
			g := fr.invVal(li, y.Call.Args[0], depth+1)
			if g == nil {
				return nil
			}
			if _, ok := under(fr.typ(y.Call.Args[0].Type())).(*types.Slice); !ok {
				return nil
			}
			return func(x *candCtx) (Val, bool) {
				s, ok := g(x)
				if !ok {
					return Val{}, false
				}
				return Val{T: sLen(s.T), Typ: intT}, true
			}
		}
	case *ssa.UnOp:
		// load of a captured or local variable
		if y.Op == token.MUL && li.info.body[y.Block()] {
			p := y.X
			switch f := p.(type) {
			case *ssa.FieldAddr:
				l := fr.invField(li, f, 0)
				if l == nil {
					return nil
				}
				return func(x *candCtx) (Val, bool) {
					r := vc.readL(x.st, l)
					return r, r.Bad == "" && r.T.ok()
				}
			case *ssa.Alloc, *ssa.FreeVar:
				a, ok := fr.env[p]
				if !ok || a.L == nil || a.L.Kind != lLocal || len(a.L.Path) > 0 || li.rec.locals[a.L.Loc] {
					return nil
				}
				l := a.L
				return func(x *candCtx) (Val, bool) {
					r := vc.readL(x.st, l)
					return r, r.Bad == "" && r.T.ok()
				}
			}
		}
	case *ssa.BinOp:
		if li.info.body[y.Block()] && (y.Op == token.SUB || y.Op == token.ADD) {
			a, b := fr.invVal(li, y.X, depth+1), fr.invVal(li, y.Y, depth+1)
			if a == nil || b == nil || vc.sortOf(fr.typ(y.Type())) != "Int" {
				return nil
			}
			op := y.Op.String()
			return func(x *candCtx) (Val, bool) {
				u, ok1 := a(x)
				w, ok2 := b(x)
				if !ok1 || !ok2 {
					return Val{}, false
				}
				return Val{T: app("Int", op, u.T, w.T), Typ: intT}, true
			}
		}
	}
	ins, ok := v.(ssa.Instruction)
	if !ok || li.info.body[ins.Block()] {
		return nil
	}
	c, ok := fr.env[v]
	if !ok || c.Bad != "" || c.L != nil || c.Fn != nil || !c.T.ok() {
		return nil
	}
	return func(*candCtx) (Val, bool) { return c, true }
}

// invField is the place of a field that the loop does not write, of a local
// variable or of an object that is the same throughout the loop.
func (fr *Frame) invField(li *loopInst, f *ssa.FieldAddr, depth int) *Lval {
	own := under(fr.typ(f.X.Type())).(*types.Pointer).Elem()
	var b Val
	switch x := f.X.(type) {
	case *ssa.FieldAddr:
		if depth > 3 {
			return nil
		}
		l := fr.invField(li, x, depth+1)
		if l == nil {
			return nil
		}
		b = Val{L: l, Typ: fr.typ(x.Type())}
	case *ssa.Parameter, *ssa.Alloc, *ssa.FreeVar:
		v, ok := fr.env[f.X]
		if !ok || v.Bad != "" {
			return nil
		}
		b = v
	default:
		return nil
	}
	if b.L == nil && !b.T.ok() {
		return nil
	}
	l := fr.vc.fieldAddr(b, own, f.Field)
	if l == nil || l.Kind == lLocal && li.rec.locals[l.Loc] || l.Kind == lField && li.rec.heaps[l.Heap] || l.Kind != lLocal && l.Kind != lField {
		return nil
	}
	return l
}

// ---- user templates

func (fr *Frame) tmplEnv(x *candCtx) *SpecEnv {
	vc := fr.vc
	e := *vc.TopEnv
	e.st = x.st
	e.old = vc.entry
	e.loop = x.li.entry
	return &e
}

type roleSrc struct {
	key string
	get func(x *candCtx) (Val, bool)
}

// inScope lists values of the wanted type available at the loop head.
func (fr *Frame) inScope(li *loopInst, init map[*ssa.Phi]Val, want types.Type) []roleSrc {
	vc := fr.vc
	wk := typeKey(want)
	var out []roleSrc
	seen := map[string]bool{}
	add := func(key string, g func(x *candCtx) (Val, bool)) {
		if !seen[key] {
			seen[key] = true
			out = append(out, roleSrc{key, g})
		}
	}
	match := func(t types.Type) bool {
		k := typeKey(t)
		if k == wk {
			return true
		}
		if _, ok := under(want).(*types.Struct); ok {
			return false
		}
		return typeKey(under(t)) == wk && !isStructObj(t)
	}
	cur := fr
	blk := li.info.header
	var call ssa.Instruction
	for cur != nil {
		f := cur
		for p, v := range init {
			if f == fr && match(f.typ(p.Type())) {
				p := p
				_ = v
				add("phi:"+p.Name(), func(x *candCtx) (Val, bool) { r, ok := x.phi[p]; return r, ok && r.Bad == "" })
			}
		}
		visit := func(v ssa.Value) {
			w, ok := f.env[v]
			if !ok || w.Bad != "" || isVarargs(v) {
				return
			}
			t := f.typ(v.Type())
			if match(t) && w.L == nil && w.Fn == nil && w.T.ok() {
				if p, isPhi := v.(*ssa.Phi); isPhi {
					if _, carriedHere := init[p]; carriedHere && f == fr {
						return
					}
				}
				if _, isC := v.(*ssa.Const); isC {
					return
				}
				add("t:"+w.T.S, func(*candCtx) (Val, bool) { return w, true })
				return
			}
			// addresses of locals and objects
			pt, isP := under(t).(*types.Pointer)
			if !isP {
				return
			}
			if match(pt.Elem()) && w.L != nil {
				l := w.L
				if l.Kind == lLocal && !li.rec.locals[l.Loc] {
					if _, ok := li.entry.locals[l.Loc]; !ok {
						return
					}
					if c := vc.readL(li.entry, l); c.Bad == "" && c.Fn == nil && c.L == nil && c.T.ok() {
						if c.T.S == "0" && isRefType(pt.Elem()) {
							return // nil
						}
						add("t:"+c.T.S, func(*candCtx) (Val, bool) { return c, true })
						return
					}
				}
				add("l:"+lvKey(l), func(x *candCtx) (Val, bool) {
					if l.Kind == lLocal {
						if _, ok := x.st.locals[l.Loc]; !ok {
							return Val{}, false
						}
					}
					r := vc.readL(x.st, l)
					return r, r.Bad == "" && r.Fn == nil && r.L == nil && r.T.ok()
				})
			} else if match(pt.Elem()) && !isStructObj(pt.Elem()) && w.T.ok() {
				add("c:"+w.T.S, func(x *candCtx) (Val, bool) {
					r := vc.load(x.st, Val{T: w.T, Typ: t})
					return r, r.T.ok()
				})
			}
			if isStructObj(pt.Elem()) && !isOpaque(pt.Elem()) {
				if _, isAlloc := v.(*ssa.Alloc); !isAlloc {
					if _, isFV := v.(*ssa.FreeVar); !isFV {
						return
					}
				}
				s := under(pt.Elem()).(*types.Struct)
				for i := 0; i < s.NumFields(); i++ {
					if match(s.Field(i).Type()) {
						l := vc.fieldAddr(w, pt.Elem(), i)
						if l.Kind == lLocal && !li.rec.locals[l.Loc] {
							if _, ok := li.entry.locals[l.Loc]; !ok {
								continue
							}
							if c := vc.readL(li.entry, l); c.Bad == "" && c.Fn == nil && c.L == nil && c.T.ok() {
								if c.T.S == "0" && isRefType(s.Field(i).Type()) {
									continue // nil
								}
								add("t:"+c.T.S, func(*candCtx) (Val, bool) { return c, true })
								continue
							}
						}
						add("f:"+lvKey(l), func(x *candCtx) (Val, bool) {
							if l.Kind == lLocal {
								if _, ok := x.st.locals[l.Loc]; !ok {
									return Val{}, false
								}
							}
							r := vc.readL(x.st, l)
							return r, r.Bad == "" && r.T.ok()
						})
					}
				}
			}
		}
		for _, p := range f.fn.Params {
			visit(p)
		}
		for _, p := range f.fn.FreeVars {
			visit(p)
		}
		for _, b := range f.order {
			if !b.Dominates(blk) {
				continue
			}
			for _, i := range b.Instrs {
				if b == blk && f == fr {
					break // header: only phis, handled above
				}
				if b == blk && i == call {
					break
				}
				if v, ok := i.(ssa.Value); ok {
					visit(v)
				}
			}
		}
		if f.parent == nil {
			break
		}
		blk = f.call.Block()
		call = f.call
		cur = f.parent
	}
	return out
}

// seqOf finds the slices whose length bounds the loop.
func (fr *Frame) seqOf(li *loopInst, want types.Type) ([]roleSrc, bool) {
	var out []roleSrc
	seen := map[string]bool{}
	for b := range li.info.body {
		if len(b.Instrs) == 0 {
			continue
		}
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || li.info.body[b.Succs[0]] && li.info.body[b.Succs[1]] {
			continue
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, o := range []ssa.Value{c.X, c.Y} {
			cl, ok := o.(*ssa.Call)
			if !ok {
				continue
			}
			if bi, ok := cl.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				continue
			}
			a := cl.Call.Args[0]
			if typeKey(under(fr.typ(a.Type()))) != typeKey(under(want)) {
				continue
			}
			w, ok := fr.env[a]
			if !ok || w.Bad != "" || !w.T.ok() {
				return nil, false
			}
			if x, ok := a.(ssa.Instruction); ok && li.info.body[x.Block()] {
				return nil, false
			}
			if k := "t:" + w.T.S; !seen[k] {
				seen[k] = true
				out = append(out, roleSrc{k, func(*candCtx) (Val, bool) { return w, true }})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	return out, true
}

// isVarargs: the slice built for the variable arguments of a call.
func isVarargs(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return x.Comment == "varargs"
	case *ssa.Slice:
		return isVarargs(x.X)
	case *ssa.IndexAddr:
		return isVarargs(x.X)
	}
	return false
}

func (fr *Frame) template(li *loopInst, cl *Clause, init map[*ssa.Phi]Val) {
	vc := fr.vc
	type opt struct {
		role Role
		srcs []roleSrc
	}
	var opts []opt
	for _, r := range cl.Roles {
		o := opt{role: r}
		switch r.Kind {
		case "iter":
			o.srcs = []roleSrc{{"it", func(x *candCtx) (Val, bool) { return Val{T: x.it, Typ: intT}, true }}}
		case "outerit":
			for f := fr; f != nil; f = f.parent {
				for _, l := range f.active {
					if l == li {
						continue
					}
					l := l
					o.srcs = append(o.srcs, roleSrc{fmt.Sprintf("oit%d", l.ord), func(x *candCtx) (Val, bool) { return Val{T: l.it, Typ: intT}, true }})
				}
			}
		case "toploop", "inloop":
			nested := false
			for f := fr; f != nil; f = f.parent {
				for _, l := range f.active {
					if l != li {
						nested = true
					}
				}
			}
			if nested != (r.Kind == "inloop") {
				return
			}
			continue
		case "seq", "outerseq":
			want, err := vc.DB.resolveType(r.Typ, vc.TopEnv.tsub)
			if err != nil {
				vc.note("template %s: %v", clauseName(cl), err)
				return
			}
			if r.Kind == "seq" {
				if s, ok := fr.seqOf(li, want); ok {
					o.srcs = s
				} else {
					o.srcs = fr.inScope(li, init, want)
				}
				break
			}
			for f := fr; f != nil; f = f.parent {
				for _, l := range f.active {
					if l == li {
						continue
					}
					s, ok := f.seqOf(l, want)
					if !ok {
						s = fr.inScope(li, init, want)
					}
					for _, x := range s {
						o.srcs = append(o.srcs, roleSrc{fmt.Sprintf("osq%d:%s", l.ord, x.key), x.get})
					}
				}
			}
		case "visited", "outervis", "ranged":
			want, err := vc.DB.resolveType(r.Typ, vc.TopEnv.tsub)
			if err != nil {
				vc.note("template %s: %v", clauseName(cl), err)
				return
			}
			var ivs []*iterVar
			for iv := range li.entry.iters {
				if iv.mt == nil {
					continue
				}
				mine := li.rec.iters[iv]
				if r.Kind == "outervis" && mine || r.Kind != "outervis" && !mine {
					continue
				}
				ivs = append(ivs, iv)
			}
			sort.Slice(ivs, func(i, j int) bool { return ivs[i].name < ivs[j].name })
			for _, iv := range ivs {
				iv := iv
				if r.Kind == "ranged" {
					if typeKey(iv.mt) == typeKey(want) {
						o.srcs = append(o.srcs, roleSrc{iv.name, func(x *candCtx) (Val, bool) { return Val{T: iv.m, Typ: iv.mt}, true }})
					}
					continue
				}
				if typeKey(iv.mt.Key()) != typeKey(want) {
					continue
				}
				o.srcs = append(o.srcs, roleSrc{iv.name, func(x *candCtx) (Val, bool) {
					is, ok := x.st.iters[iv]
					return Val{T: is.visited, Typ: &specType{name: "set", key: iv.mt.Key(), elem: boolT}}, ok
				}})
			}
		default:
			want, err := vc.DB.resolveType(r.Typ, vc.TopEnv.tsub)
			if err != nil {
				vc.note("template %s: %v", clauseName(cl), err)
				return
			}
			o.srcs = fr.inScope(li, init, want)
		}
		if len(o.srcs) == 0 {
			return
		}
		opts = append(opts, o)
	}
	total := 1
	for _, o := range opts {
		total *= len(o.srcs)
	}
	if total > 400 {
		vc.note("template %s: %d instances, truncated", clauseName(cl), total)
	}
	idx := make([]int, len(opts))
	for n := 0; n < total && n < 400; n++ {
		pick := map[string]roleSrc{}
		names := ""
		dupl := false
		used := map[string]bool{}
		for i, o := range opts {
			s := o.srcs[idx[i]]
			pick[o.role.Name] = s
			names += " " + o.role.Name + "=" + s.key
			if o.role.Kind == "value" {
				if used[s.key] {
					dupl = true
				}
				used[s.key] = true
			}
		}
		// an outer sequence goes with the counter of the same loop
		osq, oit := "", ""
		for i, o := range opts {
			k := o.srcs[idx[i]].key
			switch o.role.Kind {
			case "outerseq":
				osq = strings.TrimPrefix(k[:strings.Index(k, ":")], "osq")
			case "outerit":
				oit = strings.TrimPrefix(k, "oit")
			}
		}
		if osq != "" && oit != "" && osq != oit {
			dupl = true
		}
		if !dupl {
			fr.addCand(li, "template "+clauseName(cl)+names, true, func(x *candCtx) (Term, error) {
				env := fr.tmplEnv(x)
				vars := map[string]Val{}
				for k, s := range pick {
					v, ok := s.get(x)
					if !ok {
						return Term{}, fmt.Errorf("role %s has no value", k)
					}
					vars[k] = v
				}
				return env.with(vars).Bool(cl.E)
			})
			for _, o := range opts {
				if o.role.Kind == "iter" {
					li.cands[len(li.cands)-1].iter = true
				}
			}
		}
		for i := len(idx) - 1; i >= 0; i-- {
			idx[i]++
			if idx[i] < len(opts[i].srcs) {
				break
			}
			idx[i] = 0
		}
	}
}

// isEventLoop: the outermost endless loop of the verified function (or of a
// function inlined into it) that waits on channels.
func (fr *Frame) isEventLoop(li *loopInst) bool {
	for b := range li.info.body {
		for _, i := range b.Instrs {
			switch i.(type) {
			case *ssa.Select:
				return li.info.parent == nil || !hasSelect(li.info.parent)
			}
		}
	}
	return false
}

func hasSelect(l *loopInfo) bool {
	for b := range l.body {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Select); ok {
				return true
			}
		}
	}
	return false
}

func (fr *Frame) checkTerm(li *loopInst, from *ssa.BasicBlock, st *State, phi map[*ssa.Phi]Val) {}
