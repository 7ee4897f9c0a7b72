package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame is one activation of a function body (the verified function or an
// inlined callee).
type Frame struct {
	vc      *VC
	id      int
	fn      *ssa.Function
	parent  *Frame
	call    ssa.Instruction // call site in parent
	env     map[ssa.Value]Val
	tsub    map[*types.TypeParam]types.Type
	loops   map[*ssa.BasicBlock]*loopInfo
	order   []*ssa.BasicBlock
	rets    []*State
	rvals   []Val
	active  []*loopInst
	gor     *gorInst // non-nil inside a goroutine body
	depth   int
	locals  map[*ssa.Alloc]*localVar
	curBlk  *ssa.BasicBlock
	nilSeen map[string]bool
	insts   []*loopInst
}

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *loopInfo
}

// loopInst is a loop being executed in a frame.
type loopInst struct {
	fr    *Frame
	info  *loopInfo
	entry *State
	it    Term
	phis  map[*ssa.Phi]Val
	rec   *recorder
	cands []*candInst
	ord   int
	hard  []*hardInv
	dry   bool
}

func (vc *VC) newFrame(fn *ssa.Function, parent *Frame) *Frame {
	vc.frames++
	fr := &Frame{vc: vc, id: vc.frames, fn: fn, parent: parent, env: map[ssa.Value]Val{}, tsub: map[*types.TypeParam]types.Type{}, locals: map[*ssa.Alloc]*localVar{}, nilSeen: map[string]bool{}}
	if parent != nil {
		fr.depth = parent.depth + 1
		fr.gor = parent.gor
	}
	fr.loops, fr.order = analyze(fn)
	return fr
}

// analyze finds natural loops and a reverse postorder.
func analyze(fn *ssa.Function) (map[*ssa.BasicBlock]*loopInfo, []*ssa.BasicBlock) {
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		order = append(order, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	loops := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := loops[s]
				if li == nil {
					li = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = li
				}
				// blocks reaching b without passing s
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if li.body[x] {
						continue
					}
					li.body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	for _, l := range loops {
		for _, m := range loops {
			if l != m && m.body[l.header] && (l.parent == nil || len(m.body) < len(l.parent.body)) {
				l.parent = m
			}
		}
	}
	return loops, order
}

func (fr *Frame) typ(t types.Type) types.Type {
	if len(fr.tsub) == 0 {
		return t
	}
	return substType(t, fr.tsub)
}

// substType replaces type parameters.
func substType(t types.Type, m map[*types.TypeParam]types.Type) types.Type {
	if len(m) == 0 || t == nil {
		return t
	}
	switch x := types.Unalias(t).(type) {
	case *types.TypeParam:
		if r, ok := m[x]; ok {
			return r
		}
		return x
	case *types.Pointer:
		return types.NewPointer(substType(x.Elem(), m))
	case *types.Slice:
		return types.NewSlice(substType(x.Elem(), m))
	case *types.Array:
		return types.NewArray(substType(x.Elem(), m), x.Len())
	case *types.Map:
		return types.NewMap(substType(x.Key(), m), substType(x.Elem(), m))
	case *types.Chan:
		return types.NewChan(x.Dir(), substType(x.Elem(), m))
	case *types.Tuple:
		var vs []*types.Var
		for i := 0; i < x.Len(); i++ {
			vs = append(vs, types.NewVar(x.At(i).Pos(), x.At(i).Pkg(), x.At(i).Name(), substType(x.At(i).Type(), m)))
		}
		return types.NewTuple(vs...)
	case *types.Signature:
		p, _ := substType(x.Params(), m).(*types.Tuple)
		r, _ := substType(x.Results(), m).(*types.Tuple)
		return types.NewSignatureType(nil, nil, nil, p, r, x.Variadic())
	case *types.Struct:
		var fs []*types.Var
		for i := 0; i < x.NumFields(); i++ {
			f := x.Field(i)
			fs = append(fs, types.NewField(f.Pos(), f.Pkg(), f.Name(), substType(f.Type(), m), f.Embedded()))
		}
		return types.NewStruct(fs, nil)
	case *types.Named:
		if x.TypeArgs().Len() == 0 {
			return t
		}
		var as []types.Type
		ch := false
		for i := 0; i < x.TypeArgs().Len(); i++ {
			a := substType(x.TypeArgs().At(i), m)
			if a != x.TypeArgs().At(i) {
				ch = true
			}
			as = append(as, a)
		}
		if !ch {
			return t
		}
		r, err := types.Instantiate(nil, x.Origin(), as, false)
		if err != nil {
			return t
		}
		return r
	}
	return t
}

// run executes the blocks reachable from entry; within restricts to a loop
// body (used by dry runs).
func (fr *Frame) run(entry *ssa.BasicBlock, st *State, within map[*ssa.BasicBlock]bool, phis map[*ssa.Phi]Val) {
	vc := fr.vc
	in := map[*ssa.BasicBlock][]inEdge{}
	for _, b := range fr.order {
		if within != nil && !within[b] {
			continue
		}
		var cur *State
		if b == entry {
			cur = st
			for p, v := range phis {
				fr.env[p] = v
			}
		} else {
			es := in[b]
			if len(es) == 0 {
				continue
			}
			// states arriving over dead edges
			var sts []*State
			for _, e := range es {
				sts = append(sts, e.st)
			}
			var ph []*ssa.Phi
			for _, i := range b.Instrs {
				p, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				ph = append(ph, p)
			}
			vals := make([]Val, len(ph))
			for k, p := range ph {
				var vs []Val
				for _, e := range es {
					vs = append(vs, fr.val(e.st, p.Edges[predIndex(b, e.from)]))
				}
				if len(vs) == 1 {
					vals[k] = vs[0]
				} else {
					vals[k] = vc.joinVals(p.Name(), sts, vs)
				}
				vals[k].Typ = fr.typ(p.Type())
			}
			cur = vc.merge(sts)
			if len(sts) == 1 {
				cur = sts[0]
			}
			if li := fr.loops[b]; li != nil {
				init := map[*ssa.Phi]Val{}
				for k, p := range ph {
					init[p] = vals[k]
				}
				// leave loops that do not contain this one
				fr.popLoops(b)
				cur = fr.enterLoop(li, cur, init)
			} else {
				for k, p := range ph {
					fr.env[p] = vals[k]
				}
			}
		}
		fr.popLoops(b)
		fr.curBlk = b
		fr.execBlock(b, cur, in)
	}
	fr.popLoops(nil)
}

// popLoops drops active loops that do not contain b. A loop stays active while
// some of its blocks may still run; because blocks are visited in reverse
// postorder we recompute the active stack from the block.
func (fr *Frame) popLoops(b *ssa.BasicBlock) {
	if b == nil {
		return
	}
	var act []*loopInst
	for _, l := range fr.allInst() {
		if l.info.body[b] {
			act = append(act, l)
		}
	}
	sort.SliceStable(act, func(i, j int) bool { return len(act[i].info.body) > len(act[j].info.body) })
	fr.active = act
}

func (fr *Frame) allInst() []*loopInst { return fr.insts }

func predIndex(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	panic("predIndex")
}

func (fr *Frame) inst(h *ssa.BasicBlock) *loopInst {
	for i := len(fr.insts) - 1; i >= 0; i-- {
		if fr.insts[i].info.header == h {
			return fr.insts[i]
		}
	}
	return nil
}

// edge sends a state to a successor.
func (fr *Frame) edge(from, to *ssa.BasicBlock, st *State, in map[*ssa.BasicBlock][]inEdge) {
	if st == nil || st.reach.S == "false" {
		return
	}
	if to.Dominates(from) {
		if li := fr.inst(to); li != nil {
			fr.backEdge(li, from, st)
			return
		}
	}
	in[to] = append(in[to], inEdge{st, from})
}

func (fr *Frame) setPos(i ssa.Instruction) {
	if i.Pos().IsValid() {
		fr.vc.posHint = i.Pos()
	}
}

func (fr *Frame) execBlock(b *ssa.BasicBlock, st *State, in map[*ssa.BasicBlock][]inEdge) {
	vc := fr.vc
	for _, ins := range b.Instrs {
		fr.setPos(ins)
		switch x := ins.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := fr.val(st, x.Cond)
			ct := vc.asTerm(st, c)
			if !ct.ok() {
				vc.unsupported(st, "branch on unmodelled value")
				return
			}
			if vc.dry > 0 && vc.noDef == 0 {
				ct = vc.fresh("dry", "Bool")
			}
			s1, s2 := st.clone(), st
			s1.reach = vc.namedReach(tAnd(st.reach, ct))
			s2.reach = vc.namedReach(tAnd(st.reach, tNot(ct)))
			fr.edge(b, b.Succs[0], s1, in)
			fr.edge(b, b.Succs[1], s2, in)
			return
		case *ssa.Jump:
			fr.edge(b, b.Succs[0], st, in)
			return
		case *ssa.Return:
			var vs []Val
			for _, r := range x.Results {
				vs = append(vs, fr.val(st, r))
			}
			var rv Val
			if len(vs) == 1 {
				rv = vs[0]
			} else {
				rv = Val{Tup: vs, Typ: fr.typ(fr.fn.Signature.Results())}
			}
			fr.rets = append(fr.rets, st)
			fr.rvals = append(fr.rvals, rv)
			return
		case *ssa.Panic:
			fr.panicGoal(st, "panic")
			return
		default:
			st = fr.instr(ins, st)
			if st == nil {
				return
			}
		}
	}
}

func (vc *VC) namedReach(t Term) Term {
	if len(t.S) < 24 || vc.noDef > 0 {
		return t
	}
	c := vc.fresh("R", "Bool")
	vc.raw(tEq(c, t), "")
	return c
}

// panicGoal: reaching a panic violates the function's contract unless the
// contract allows it.
func (fr *Frame) panicGoal(st *State, what string) {
	vc := fr.vc
	ok := tFalse
	if vc.TopC != nil {
		for _, c := range vc.TopC.MayPanic {
			t, err := vc.TopEnv.at(vc.entry).Bool(c.E)
			if err != nil {
				vc.unsup = append(vc.unsup, err.Error())
				continue
			}
			ok = tOr(ok, t)
		}
	}
	vc.goal(st, "safety", what, nil, ok)
}

func (fr *Frame) safety(st *State, what string, t Term) {
	vc := fr.vc
	if t.S == "true" || vc.dry > 0 {
		return
	}
	key := st.reach.S + "|" + t.S
	if fr.nilSeen[key] {
		return
	}
	fr.nilSeen[key] = true
	if vc.TopC != nil && len(vc.TopC.MayPanic) > 0 {
		for _, c := range vc.TopC.MayPanic {
			if p, err := vc.TopEnv.at(vc.entry).Bool(c.E); err == nil {
				t = tOr(p, t)
			}
		}
	}
	vc.goal(st, "safety", what, nil, t)
}

// val evaluates an SSA operand.
func (fr *Frame) val(st *State, v ssa.Value) Val {
	vc := fr.vc
	switch x := v.(type) {
	case *ssa.Const:
		t := fr.typ(x.Type())
		if x.Value == nil {
			if tup, ok := t.(*types.Tuple); ok {
				var vs []Val
				for i := 0; i < tup.Len(); i++ {
					vs = append(vs, Val{T: vc.zero(tup.At(i).Type()), Typ: tup.At(i).Type()})
				}
				return Val{Tup: vs, Typ: t}
			}
			return Val{T: vc.zero(t), Typ: t}
		}
		return vc.constVal(x.Value, t)
	case *ssa.Function:
		return Val{Fn: x, Typ: fr.typ(x.Type())}
	case *ssa.Builtin:
		return Val{Nat: "builtin:" + x.Name(), Typ: x.Type()}
	case *ssa.Global:
		h := vc.globalHeap(x)
		et := x.Type().(*types.Pointer).Elem()
		return Val{L: &Lval{Kind: lGlobal, Heap: h, Root: et, T: et}, Typ: x.Type()}
	}
	r, ok := fr.env[v]
	if !ok {
		return Val{Bad: "undefined register " + v.Name(), Typ: fr.typ(v.Type())}
	}
	if r.Typ == nil {
		r.Typ = fr.typ(v.Type())
	}
	return r
}

func (fr *Frame) term(st *State, v ssa.Value) Term {
	x := fr.val(st, v)
	t := fr.vc.asTerm(st, x)
	if !t.ok() {
		why := x.Bad
		if why == "" {
			why = "value without a term"
		}
		fr.vc.unsupported(st, why)
		return fr.vc.fresh("bad", fr.vc.sortOf(fr.typ(v.Type())))
	}
	return t
}

func (fr *Frame) set(v ssa.Value, x Val) {
	if x.Typ == nil {
		x.Typ = fr.typ(v.Type())
	}
	if x.L == nil && x.Tup == nil && x.Fn == nil && x.It == nil && x.T.ok() {
		x.T = fr.vc.def(v.Name(), x.T)
	}
	fr.env[v] = x
}

// setRead stores a value read from memory and assumes it well formed.
func (fr *Frame) setRead(st *State, v ssa.Value, x Val) {
	fr.set(v, x)
	y := fr.env[v]
	if y.L == nil && y.Fn == nil && y.Tup == nil && y.T.ok() {
		fr.vc.assumeWF(st, y.T, y.Typ)
	}
}

func (vc *VC) assumeWF(st *State, t Term, typ types.Type) {
	w := vc.valWF(t, typ, vc.alloc(st))
	if w.S != "true" {
		vc.assume(st, w, "wf")
	}
}

func (fr *Frame) nonNil(st *State, p Val, what string) {
	if p.L != nil || !p.T.ok() {
		return
	}
	if _, ok := fr.vc.allLvs[p.T.S]; ok {
		return
	}
	fr.safety(st, "nil "+what, tNot(tEq(p.T, tInt(0))))
}

// instr executes a non-control instruction.
func (fr *Frame) instr(ins ssa.Instruction, st *State) *State {
	vc := fr.vc
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := fr.typ(x.Type().(*types.Pointer).Elem())
		if lv := fr.scalarLocal(x, et); lv != nil {
			l := &Lval{Kind: lLocal, Loc: lv, Root: et, T: et}
			delete(st.lcRead, lv)
			delete(st.lcWrite, lv)
			vc.writeL(st, l, Val{T: vc.zero(et), Typ: et})
			fr.set(x, Val{L: l, Typ: fr.typ(x.Type())})
			return st
		}
		p := vc.allocObj(st, et)
		p.Typ = fr.typ(x.Type())
		fr.env[x] = p
		vc.markLocalObj(p.T)
	case *ssa.UnOp:
		return fr.unop(x, st)
	case *ssa.BinOp:
		fr.set(x, fr.binop(st, x))
	case *ssa.Store:
		p := fr.val(st, x.Addr)
		v := fr.val(st, x.Val)
		if p.Bad != "" || v.Bad != "" {
			vc.unsupported(st, "store: "+p.Bad+v.Bad)
			return st
		}
		fr.nonNil(st, p, "store")
		fr.access(st, p, true)
		vc.store(st, p, v)
	case *ssa.FieldAddr:
		p := fr.val(st, x.X)
		if p.Bad != "" {
			vc.unsupported(st, "field of "+p.Bad)
			fr.set(x, Val{Bad: p.Bad})
			return st
		}
		fr.nonNil(st, p, "field access")
		l := vc.fieldAddr(p, fr.typ(x.X.Type()).Underlying().(*types.Pointer).Elem(), x.Field)
		fr.env[x] = Val{L: l, Typ: fr.typ(x.Type()), Org: p.Org}
	case *ssa.Field:
		s := fr.term(st, x.X)
		si := vc.structOf(fr.typ(x.X.Type()))
		fr.setRead(st, x, Val{T: si.sel(s, x.Field)})
	case *ssa.IndexAddr:
		fr.indexAddr(st, x)
	case *ssa.Index:
		i := fr.term(st, x.Index)
		c := fr.term(st, x.X)
		if c.Sort == "Str" {
			f := vc.declFun("strat", []string{"Str", "Int"}, "Int")
			fr.safety(st, "string index", tAnd(app("Bool", "<=", tInt(0), i), app("Bool", "<", i, app("Int", "strlen", c))))
			fr.setRead(st, x, Val{T: app("Int", f, c, i)})
			return st
		}
		fr.set(x, Val{T: tSel(c, i)})
	case *ssa.Lookup:
		fr.lookup(st, x)
	case *ssa.Extract:
		t := fr.val(st, x.Tuple)
		if t.Bad != "" || x.Index >= len(t.Tup) {
			vc.unsupported(st, "extract "+t.Bad)
			fr.set(x, Val{T: vc.fresh("bad", vc.sortOf(fr.typ(x.Type())))})
			return st
		}
		y := t.Tup[x.Index]
		y.Typ = fr.typ(x.Type())
		fr.env[x] = y
	case *ssa.Range:
		fr.rangeInstr(st, x)
	case *ssa.Next:
		fr.next(st, x)
	case *ssa.ChangeType:
		y := fr.val(st, x.X)
		nt := fr.typ(x.Type())
		if y.L == nil && y.Fn == nil && y.T.ok() {
			// struct type changes rebuild the value
			if a, b := vc.sortOf(y.Typ), vc.sortOf(nt); a != b {
				y.T = vc.convStruct(y.T, y.Typ, nt)
			}
		}
		y.Typ = nt
		fr.env[x] = y
	case *ssa.ChangeInterface:
		y := fr.val(st, x.X)
		y.Typ = fr.typ(x.Type())
		fr.env[x] = y
	case *ssa.MakeInterface:
		y := fr.val(st, x.X)
		t := vc.asTerm(st, y)
		if !t.ok() {
			fr.env[x] = Val{Bad: "interface of an unmodelled value", Typ: fr.typ(x.Type())}
			return st
		}
		ty := fr.typ(x.X.Type())
		b := vc.box(t, ty)
		fr.env[x] = Val{T: b, Typ: fr.typ(x.Type())}
		vc.prov[b.S] = Val{T: t, Typ: ty, L: y.L}
	case *ssa.TypeAssert:
		fr.typeAssert(st, x)
		fr.copyOrg(x, fr.val(st, x.X).Org)
	case *ssa.MakeMap:
		mt := under(fr.typ(x.Type())).(*types.Map)
		fr.env[x] = Val{T: vc.newMap(st, mt), Typ: fr.typ(x.Type())}
	case *ssa.MakeChan:
		fr.makeChan(st, x)
	case *ssa.MakeSlice:
		n := fr.term(st, x.Len)
		c := fr.term(st, x.Cap)
		fr.safety(st, "make slice", tAnd(app("Bool", "<=", tInt(0), n), app("Bool", "<=", n, c)))
		et := under(fr.typ(x.Type())).(*types.Slice).Elem()
		r := vc.newRef(st)
		vc.storeAt(st, vc.elemHeap(et), r, vc.zeroArray("Int", et))
		fr.env[x] = Val{T: mkSlice(r, tInt(0), n, c), Typ: fr.typ(x.Type())}
	case *ssa.Slice:
		fr.slice(st, x)
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range x.Bindings {
			bs = append(bs, fr.val(st, b))
		}
		fr.env[x] = Val{Fn: x.Fn.(*ssa.Function), Bind: bs, Typ: fr.typ(x.Type())}
	case *ssa.Convert:
		fr.setRead(st, x, fr.convert(st, x))
	case *ssa.MultiConvert:
		y := fr.val(st, x.X)
		y.Typ = fr.typ(x.Type())
		fr.env[x] = y
	case *ssa.MapUpdate:
		mv := fr.val(st, x.Map)
		m := fr.term(st, x.Map)
		k := fr.term(st, x.Key)
		v := fr.term(st, x.Value)
		mt := under(fr.typ(x.Map.Type())).(*types.Map)
		fr.safety(st, "write to nil map", tNot(tEq(m, tInt(0))))
		fr.accessMap(st, mv, mt, m, true)
		vc.mapPut(st, mt, m, k, v)
	case *ssa.Call:
		ns, r := fr.callCommon(st, &x.Call, x)
		if ns == nil {
			return nil
		}
		if r.Typ == nil {
			r.Typ = fr.typ(x.Type())
		}
		fr.set(x, r)
		return ns
	case *ssa.Defer:
		return fr.deferInstr(st, x)
	case *ssa.RunDefers:
		return fr.runDefers(st, fr.curBlk)
	case *ssa.Go:
		return fr.goInstr(st, x)
	case *ssa.Send:
		return fr.send(st, fr.val(st, x.Chan), fr.val(st, x.X), x)
	case *ssa.Select:
		return fr.selectInstr(st, x)
	default:
		vc.unsupported(st, fmt.Sprintf("instruction %T", ins))
		if v, ok := ins.(ssa.Value); ok {
			fr.env[v] = Val{Bad: fmt.Sprintf("%T", ins), Typ: fr.typ(v.Type())}
		}
	}
	return st
}

// convStruct rebuilds a struct value under another struct type.
func (v *VC) convStruct(t Term, from, to types.Type) Term {
	fs, ok := under(from).(*types.Struct)
	if !ok {
		return t
	}
	a, b := v.structOf(from), v.structOf(to)
	var xs []Term
	for i := 0; i < fs.NumFields(); i++ {
		xs = append(xs, v.convStruct(a.sel(t, i), fs.Field(i).Type(), b.T.Field(i).Type()))
	}
	return b.mk(xs)
}

// scalarLocal decides whether an allocation is a plain local variable whose
// address never leaves inlined code.
func (fr *Frame) scalarLocal(a *ssa.Alloc, et types.Type) *localVar {
	if lv, ok := fr.locals[a]; ok {
		return lv
	}
	if isOpaque(et) || !fr.vc.addrLocal(a, map[ssa.Value]bool{}) {
		return nil
	}
	if _, ok := under(et).(*types.Array); ok {
		return nil
	}
	if s, ok := under(et).(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if isOpaque(s.Field(i).Type()) {
				return nil
			}
		}
	}
	lv := &localVar{name: fmt.Sprintf("L%d.%s.%s", fr.id, a.Name(), a.Comment), typ: et, gor: fr.vc.conc.cur}
	fr.locals[a] = lv
	return lv
}

// addrLocal: the address v is only loaded from, stored to, projected, or
// captured by closures for which the same holds.
func (vc *VC) addrLocal(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if x.Val == v {
				return false
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.FieldAddr:
			if !vc.addrLocal(x, seen) {
				return false
			}
		case *ssa.MakeClosure:
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v {
					if !vc.addrLocal(fn.FreeVars[i], seen) {
						return false
					}
				}
			}
			if !closureLocal(x) {
				return false
			}
		case *ssa.Call:
			// receiver or argument of an inlinable repository function
			if !vc.argInlinable(&x.Call, v, seen) {
				return false
			}
		case *ssa.Defer:
			if !vc.argInlinable(&x.Call, v, seen) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// closureLocal: the closure is only called, deferred, started as a goroutine
// or passed to a function the verifier runs in place.
func closureLocal(m *ssa.MakeClosure) bool {
	refs := m.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			if x.Call.Value == m {
				continue
			}
			if f := x.Call.StaticCallee(); f != nil && higherOrder[funcKey(f)] {
				continue
			}
			return false
		case *ssa.Defer:
			if x.Call.Value != m {
				return false
			}
		case *ssa.Go:
			if x.Call.Value != m {
				return false
			}
		default:
			return false
		}
	}
	return true
}

var higherOrder = map[string]bool{"sort.Slice": true, "sort.SliceStable": true}

func (vc *VC) argInlinable(c *ssa.CallCommon, v ssa.Value, seen map[ssa.Value]bool) bool {
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	key := funcKey(f)
	if ct := vc.DB.Contracts[key]; ct != nil && ct.Opts["guardonly"] == "" && !ct.Inline {
		return false
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil || !isRepoPkg(f.Pkg.Pkg) || len(f.Blocks) == 0 {
		return false
	}
	for i, a := range c.Args {
		if a == v {
			if i >= len(f.Params) || !vc.addrLocal(f.Params[i], seen) {
				return false
			}
		}
	}
	return true
}

func (vc *VC) markLocalObj(t Term) {}

// ---- operators

func goDiv(a, b Term) Term {
	// truncated division
	q := app("Int", "div", a, b)
	if isNonNegLit(a) && isNonNegLit(b) {
		return q
	}
	na := app("Int", "-", a)
	return tIte(app("Bool", ">=", a, tInt(0)), q, app("Int", "-", app("Int", "div", na, b)))
}

func isNonNegLit(t Term) bool { return t.S != "" && t.S[0] >= '0' && t.S[0] <= '9' }

func goMod(a, b Term) Term {
	na := app("Int", "-", a)
	return tIte(app("Bool", ">=", a, tInt(0)), app("Int", "mod", a, b), app("Int", "-", app("Int", "mod", na, b)))
}

// wrapInt reduces a mathematical integer to a sized integer type.
func (v *VC) wrapInt(t Term, typ types.Type) Term {
	b, ok := under(typ).(*types.Basic)
	if !ok {
		return t
	}
	var lo, hi string
	switch b.Kind() {
	case types.Int8:
		lo, hi = "(- 128)", "127"
	case types.Int16:
		lo, hi = "(- 32768)", "32767"
	case types.Int32:
		lo, hi = "(- 2147483648)", "2147483647"
	case types.Uint8:
		lo, hi = "0", "255"
	case types.Uint16:
		lo, hi = "0", "65535"
	case types.Uint32:
		lo, hi = "0", "4294967295"
	case types.Uint, types.Uint64, types.Uintptr:
		lo, hi = "0", "18446744073709551615"
	default:
		return t
	}
	if isNonNegLit(t) && len(t.S) < len(hi) {
		return t
	}
	n := "wrap:" + b.Name()
	f := v.declFun(n, []string{"Int"}, "Int")
	v.preDecl(fmt.Sprintf("(assert (forall ((x Int)) (! (and (<= %s (%s x)) (<= (%s x) %s) (=> (and (<= %s x) (<= x %s)) (= (%s x) x))) :pattern ((%s x)))))", lo, f, f, hi, lo, hi, f, f))
	return app("Int", f, t)
}

func narrow(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int8, types.Int16, types.Int32, types.Uint8, types.Uint16, types.Uint32:
		return true
	}
	return false
}

func (fr *Frame) binop(st *State, x *ssa.BinOp) Val {
	vc := fr.vc
	xv, yv := fr.val(st, x.X), fr.val(st, x.Y)
	rt := fr.typ(x.Type())
	xt := fr.typ(x.X.Type())
	switch x.Op {
	case token.EQL, token.NEQ:
		r := fr.equal(st, x, xv, yv, xt)
		if x.Op == token.NEQ {
			r = tNot(r)
		}
		return Val{T: r, Typ: rt}
	}
	a, b := fr.term(st, x.X), fr.term(st, x.Y)
	num := a.Sort == "Int" || a.Sort == "Real"
	switch x.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.Sort == "Str" {
			switch x.Op {
			case token.LSS:
				return Val{T: app("Bool", "slt", a, b), Typ: rt}
			case token.GTR:
				return Val{T: app("Bool", "slt", b, a), Typ: rt}
			case token.LEQ:
				return Val{T: tNot(app("Bool", "slt", b, a)), Typ: rt}
			default:
				return Val{T: tNot(app("Bool", "slt", a, b)), Typ: rt}
			}
		}
		if !num {
			break
		}
		return Val{T: app("Bool", x.Op.String(), a, b), Typ: rt}
	case token.ADD:
		if a.Sort == "Str" {
			return Val{T: vc.scat(a, b), Typ: rt}
		}
		if a.Sort == "Int" {
			r := app("Int", "+", a, b)
			var n int64
			if _, err := fmt.Sscanf(b.S, "%d", &n); err == nil && fmt.Sprint(n) == b.S {
				r = vc.plus(a, n)
			}
			if narrow(rt) {
				r = vc.wrapInt(r, rt)
			}
			return Val{T: r, Typ: rt}
		}
		if a.Sort == "Real" {
			return Val{T: app("Real", "+", a, b), Typ: rt}
		}
	case token.SUB, token.MUL:
		if num {
			op := "-"
			if x.Op == token.MUL {
				op = "*"
			}
			r := app(a.Sort, op, a, b)
			if a.Sort == "Int" && narrow(rt) {
				r = vc.wrapInt(r, rt)
			}
			return Val{T: r, Typ: rt}
		}
	case token.QUO:
		if a.Sort == "Int" {
			fr.safety(st, "division by zero", tNot(tEq(b, tInt(0))))
			return Val{T: goDiv(a, b), Typ: rt}
		}
		if a.Sort == "Real" {
			return Val{T: app("Real", "/", a, b), Typ: rt}
		}
	case token.REM:
		if a.Sort == "Int" {
			fr.safety(st, "division by zero", tNot(tEq(b, tInt(0))))
			return Val{T: goMod(a, b), Typ: rt}
		}
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if a.Sort == "Int" {
			f := vc.declFun("bit"+x.Op.String(), []string{"Int", "Int"}, "Int")
			t := app("Int", f, a, b)
			vc.assumeWF(st, t, rt)
			return Val{T: t, Typ: rt}
		}
	}
	vc.unsupported(st, "operator "+x.Op.String()+" on "+a.Sort)
	return Val{T: vc.fresh("bad", vc.sortOf(rt)), Typ: rt}
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (fr *Frame) equal(st *State, x *ssa.BinOp, xv, yv Val, xt types.Type) Term {
	vc := fr.vc
	if isNilConst(x.X) {
		xv, yv = yv, xv
	}
	if isNilConst(x.X) || isNilConst(x.Y) {
		switch under(xt).(type) {
		case *types.Slice:
			t := vc.asTerm(st, xv)
			if !t.ok() {
				break
			}
			return tEq(sArr(t), tInt(0))
		case *types.Signature:
			if xv.Fn != nil || xv.Nat != "" {
				return tFalse
			}
		case *types.Pointer:
			if xv.L != nil {
				return tFalse
			}
		}
	}
	a, b := vc.asTerm(st, xv), vc.asTerm(st, yv)
	if !a.ok() || !b.ok() {
		vc.unsupported(st, "comparison of unmodelled values "+xv.Bad+yv.Bad)
		return vc.fresh("bad", "Bool")
	}
	if a.Sort != b.Sort {
		// interface compared with a concrete value
		if a.Sort == "Iface" {
			b = vc.box(b, yv.Typ)
		} else if b.Sort == "Iface" {
			a = vc.box(a, xv.Typ)
		} else {
			vc.unsupported(st, "comparison "+a.Sort+" "+b.Sort)
			return vc.fresh("bad", "Bool")
		}
	}
	return tEq(a, b)
}

func (fr *Frame) unop(x *ssa.UnOp, st *State) *State {
	vc := fr.vc
	switch x.Op {
	case token.MUL:
		p := fr.val(st, x.X)
		if p.Bad != "" {
			vc.unsupported(st, "load: "+p.Bad)
			fr.set(x, Val{T: vc.fresh("bad", vc.sortOf(fr.typ(x.Type())))})
			return st
		}
		p.Typ = fr.typ(x.X.Type())
		fr.nonNil(st, p, "load")
		if isOpaque(fr.typ(x.Type())) {
			fr.set(x, Val{T: vc.zeroOpaque(fr.typ(x.Type()))})
			return st
		}
		fr.access(st, p, false)
		y := vc.load(st, p)
		y.Typ = fr.typ(x.Type())
		if y.L != nil || y.Fn != nil || y.Bad != "" {
			fr.env[x] = y
			return st
		}
		fr.setRead(st, x, y)
		fr.origin(x, p)
	case token.NOT:
		fr.set(x, Val{T: tNot(fr.term(st, x.X))})
	case token.SUB:
		t := fr.term(st, x.X)
		fr.set(x, Val{T: app(t.Sort, "-", t)})
	case token.ARROW:
		return fr.recv(st, x)
	case token.XOR:
		t := fr.term(st, x.X)
		f := vc.declFun("bitnot", []string{"Int"}, "Int")
		fr.setRead(st, x, Val{T: app("Int", f, t)})
	default:
		vc.unsupported(st, "unary "+x.Op.String())
	}
	return st
}

func (fr *Frame) indexAddr(st *State, x *ssa.IndexAddr) {
	vc := fr.vc
	i := fr.term(st, x.Index)
	ct := fr.typ(x.X.Type())
	c := fr.val(st, x.X)
	switch u := under(ct).(type) {
	case *types.Slice:
		t := fr.term(st, x.X)
		fr.safety(st, "index out of range", tAnd(app("Bool", "<=", tInt(0), i), app("Bool", "<", i, sLen(t))))
		fr.env[x] = Val{L: &Lval{Kind: lElem, Heap: vc.elemHeap(u.Elem()), Ref: sArr(t), Idx: tIx(sOff(t), i), Root: u.Elem(), T: u.Elem()}, Typ: fr.typ(x.Type())}
		return
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		fr.safety(st, "index out of range", tAnd(app("Bool", "<=", tInt(0), i), app("Bool", "<", i, tInt(at.Len()))))
		if c.L == nil {
			fr.env[x] = Val{L: &Lval{Kind: lElem, Heap: vc.elemHeap(at.Elem()), Ref: c.T, Idx: i, Root: at.Elem(), T: at.Elem()}, Typ: fr.typ(x.Type())}
			return
		}
	}
	vc.unsupported(st, "index address")
	fr.env[x] = Val{Bad: "index address", Typ: fr.typ(x.Type())}
}

func (fr *Frame) lookup(st *State, x *ssa.Lookup) {
	vc := fr.vc
	k := fr.term(st, x.Index)
	m := fr.term(st, x.X)
	if m.Sort == "Str" {
		f := vc.declFun("strat", []string{"Str", "Int"}, "Int")
		fr.safety(st, "string index", tAnd(app("Bool", "<=", tInt(0), k), app("Bool", "<", k, app("Int", "strlen", m))))
		fr.setRead(st, x, Val{T: app("Int", f, m, k)})
		return
	}
	mt := under(fr.typ(x.X.Type())).(*types.Map)
	fr.accessMap(st, fr.val(st, x.X), mt, m, false)
	v := vc.def(x.Name(), tSel(vc.mapVals(st, mt, m), k))
	vc.assumeWF(st, v, mt.Elem())
	if !x.CommaOk {
		fr.env[x] = Val{T: v, Typ: mt.Elem()}
		fr.copyOrg(x, fr.val(st, x.X).Org)
		return
	}
	ok := vc.def(x.Name()+"ok", tSel(vc.mapDom(st, mt, m), k))
	fr.env[x] = Val{Tup: []Val{{T: v, Typ: mt.Elem()}, {T: ok, Typ: boolT}}, Typ: x.Type()}
	fr.copyOrg(x, fr.val(st, x.X).Org)
	// a key that is present makes the map non-empty (canonical form)
	vc.assume(st, tImp(tNot(ok), tEq(v, vc.zero(mt.Elem()))), "absent")
}

func (fr *Frame) rangeInstr(st *State, x *ssa.Range) {
	vc := fr.vc
	t := fr.typ(x.X.Type())
	mt, ok := under(t).(*types.Map)
	if !ok {
		fr.env[x] = Val{It: &iterVar{name: "str"}, Typ: x.Type(), T: fr.term(st, x.X)}
		return
	}
	m := fr.term(st, x.X)
	iv := &iterVar{name: fmt.Sprintf("it%d.%s", fr.id, x.Name()), m: m, mt: mt, startD: vc.def("dom0", vc.mapDom(st, mt, m)), startL: vc.def("len0", vc.mapLen(st, mt, m)), org: fr.val(st, x.X).Org}
	st.iters[iv] = iterState{emptySet(vc.sortOf(mt.Key())), tInt(0)}
	fr.env[x] = Val{It: iv, Typ: x.Type()}
}

func (fr *Frame) next(st *State, x *ssa.Next) {
	vc := fr.vc
	r := fr.val(st, x.Iter)
	iv := r.It
	if iv == nil {
		vc.unsupported(st, "next without iterator")
		return
	}
	if iv.mt == nil {
		ok := vc.fresh("sok", "Bool")
		i := vc.fresh("si", "Int")
		c := vc.fresh("sr", "Int")
		vc.assume(st, tImp(ok, tAnd(app("Bool", "<=", tInt(0), i), app("Bool", "<", i, app("Int", "strlen", r.T)))), "")
		fr.env[x] = Val{Tup: []Val{{T: ok, Typ: boolT}, {T: i, Typ: intT}, {T: c, Typ: types.Typ[types.Rune]}}, Typ: x.Type()}
		return
	}
	is := st.iters[iv]
	ks, vs := vc.sortOf(iv.mt.Key()), vc.sortOf(iv.mt.Elem())
	_ = vs
	ok := vc.fresh("nok", "Bool")
	k := vc.fresh("nk", ks)
	dom := vc.mapDom(st, iv.mt, iv.m)
	fr.accessMap(st, Val{T: iv.m, Org: iv.org}, iv.mt, iv.m, false)
	val := vc.def("nv", tSel(vc.mapVals(st, iv.mt, iv.m), k))
	vc.assume(st, tImp(ok, tAnd(tSel(dom, k), tNot(tSel(is.visited, k)))), "next")
	vc.assumeWF(st, val, iv.mt.Elem())
	vc.assumeWF(st, k, iv.mt.Key())
	qk := Term{"k", ks}
	vc.assume(st, tImp(tNot(ok), Term{fmt.Sprintf("(forall ((k %s)) (! (=> (and %s %s) %s) :pattern (%s) :pattern (%s)))", ks,
		tSel(dom, qk).S, tSel(iv.startD, qk).S, tSel(is.visited, qk).S, tSel(iv.startD, qk).S, app("Bool", "select", is.visited, qk).S), "Bool"}), "exhausted")
	same := tEq(dom, iv.startD)
	vc.assume(st, tImp(same, tAnd(tImp(ok, app("Bool", "<", is.count, iv.startL)), tImp(tNot(ok), tEq(is.count, iv.startL)))), "count")
	nv := vc.def("vis", tIte(ok, tStore(is.visited, k, tTrue), is.visited))
	st.iters[iv] = iterState{nv, vc.def("cnt", tIte(ok, vc.plus(is.count, 1), is.count))}
	for _, rc := range vc.recs {
		rc.iters[iv] = true
	}
	if len(fr.active) > 0 {
		iv.loop = fr.active[len(fr.active)-1]
	}
	fr.env[x] = Val{Tup: []Val{{T: ok, Typ: boolT}, {T: k, Typ: iv.mt.Key()}, {T: val, Typ: iv.mt.Elem()}}, Typ: x.Type()}
	fr.copyOrg(x, iv.org)
}

func (fr *Frame) typeAssert(st *State, x *ssa.TypeAssert) {
	vc := fr.vc
	i := fr.term(st, x.X)
	t := fr.typ(x.AssertedType)
	if _, isI := under(t).(*types.Interface); isI {
		f := vc.declFun("impl:"+typeKey(t), []string{"Int"}, "Bool")
		ok := app("Bool", f, app("Int", "typ", i))
		vc.preDecl(fmt.Sprintf("(assert (not (%s 0)))", f))
		if x.CommaOk {
			fr.env[x] = Val{Tup: []Val{{T: tIte(ok, i, Term{"nilIface", "Iface"}), Typ: t}, {T: ok, Typ: boolT}}, Typ: x.Type()}
			return
		}
		fr.safety(st, "type assertion", ok)
		fr.env[x] = Val{T: i, Typ: t}
		return
	}
	_, _, tag := vc.boxFns(t)
	ok := tEq(app("Int", "typ", i), tInt(int64(tag)))
	v := vc.unbox(i, t)
	if x.CommaOk {
		okc := vc.def("isT", ok)
		r := vc.def("asT", tIte(okc, v, vc.zero(t)))
		vc.assumeWF(st, r, t)
		fr.env[x] = Val{Tup: []Val{{T: r, Typ: t}, {T: okc, Typ: boolT}}, Typ: x.Type()}
		return
	}
	fr.safety(st, "type assertion", ok)
	fr.setRead(st, x, Val{T: v, Typ: t})
}

func (fr *Frame) slice(st *State, x *ssa.Slice) {
	vc := fr.vc
	lo := tInt(0)
	if x.Low != nil {
		lo = fr.term(st, x.Low)
	}
	ct := fr.typ(x.X.Type())
	le := func(a, b Term) Term { return app("Bool", "<=", a, b) }
	switch u := under(ct).(type) {
	case *types.Slice:
		s := fr.term(st, x.X)
		hi := sLen(s)
		if x.High != nil {
			hi = fr.term(st, x.High)
		}
		mx := sCap(s)
		if x.Max != nil {
			mx = fr.term(st, x.Max)
		}
		fr.safety(st, "slice bounds", tAnd(le(tInt(0), lo), le(lo, hi), le(hi, mx), le(mx, sCap(s))))
		fr.set(x, Val{T: mkSlice(sArr(s), tIxOff(sOff(s), lo), tSub(hi, lo), tSub(mx, lo)), Typ: fr.typ(x.Type())})
		return
	case *types.Pointer:
		at := under(u.Elem()).(*types.Array)
		p := fr.val(st, x.X)
		if p.L == nil && p.T.ok() {
			hi := tInt(at.Len())
			if x.High != nil {
				hi = fr.term(st, x.High)
			}
			fr.safety(st, "slice bounds", tAnd(le(tInt(0), lo), le(lo, hi), le(hi, tInt(at.Len()))))
			fr.set(x, Val{T: mkSlice(p.T, lo, tSub(hi, lo), tSub(tInt(at.Len()), lo)), Typ: fr.typ(x.Type())})
			return
		}
	case *types.Basic:
		s := fr.term(st, x.X)
		hi := app("Int", "strlen", s)
		if x.High != nil {
			hi = fr.term(st, x.High)
		}
		fr.safety(st, "slice bounds", tAnd(le(tInt(0), lo), le(lo, hi), le(hi, app("Int", "strlen", s))))
		f := vc.declFun("substr", []string{"Str", "Int", "Int"}, "Str")
		vc.preDecl(fmt.Sprintf("(assert (forall ((s Str)) (! (= (%s s 0 (strlen s)) s) :pattern ((%s s 0 (strlen s))))))", f, f))
		vc.preDecl(fmt.Sprintf("(assert (forall ((s Str) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (strlen s))) (= (strlen (%s s a b)) (- b a))) :pattern ((%s s a b)))))", f, f))
		fr.set(x, Val{T: app("Str", f, s, lo, hi), Typ: fr.typ(x.Type())})
		return
	}
	vc.unsupported(st, "slice expression")
	fr.env[x] = Val{Bad: "slice", Typ: fr.typ(x.Type())}
}

func (fr *Frame) convert(st *State, x *ssa.Convert) Val {
	vc := fr.vc
	from, to := fr.typ(x.X.Type()), fr.typ(x.Type())
	t := fr.term(st, x.X)
	fs, ts := t.Sort, vc.sortOf(to)
	switch {
	case fs == "Int" && ts == "Int":
		// widening conversions keep the value
		fb, ok1 := under(from).(*types.Basic)
		tb, ok2 := under(to).(*types.Basic)
		if ok1 && ok2 && fits(fb, tb) {
			return Val{T: t, Typ: to}
		}
		if ok1 && ok2 {
			return Val{T: vc.wrapInt(t, to), Typ: to}
		}
	case fs == "Int" && ts == "Real":
		return Val{T: toReal(t), Typ: to}
	case fs == "Real" && ts == "Int":
		f := vc.declFun("truncReal", []string{"Real"}, "Int")
		vc.preDecl(fmt.Sprintf("(assert (forall ((x Real)) (! (= (%s x) (ite (>= x 0.0) (to_int x) (- (to_int (- x))))) :pattern ((%s x)))))", f, f))
		return Val{T: vc.wrapInt(app("Int", f, t), to), Typ: to}
	case fs == "Real" && ts == "Real":
		return Val{T: t, Typ: to}
	case fs == "Str" && ts == "Str":
		return Val{T: t, Typ: to}
	case fs == "Slice" && ts == "Str":
		u := under(from).(*types.Slice)
		if typeKey(u.Elem()) == "uint8" {
			b := vc.blobOf(st, u, t)
			return Val{T: app("Str", "blob2str", b), Typ: to}
		}
		f := vc.declFun("runes2str", []string{arr("Int", "Int"), "Int", "Int"}, "Str")
		return Val{T: app("Str", f, tSel(vc.getH(st, vc.elemHeap(u.Elem())), sArr(t)), sOff(t), sLen(t)), Typ: to}
	case fs == "Str" && ts == "Slice":
		u := under(to).(*types.Slice)
		r := vc.newRef(st)
		h := vc.elemHeap(u.Elem())
		_, in := splitArray(vc.heapS[h])
		if typeKey(u.Elem()) == "uint8" {
			f := vc.declFun("strbytes", []string{"Str"}, in)
			a := app(in, f, t)
			vc.storeAt(st, h, r, a)
			n := app("Int", "strlen", t)
			vc.assume(st, tEq(app("Blob", "blob", a, tInt(0), n), app("Blob", "str2blob", t)), "bytes of string")
			return Val{T: mkSlice(r, tInt(0), n, n), Typ: to}
		}
		f := vc.declFun("strrunes", []string{"Str"}, in)
		g := vc.declFun("runecount", []string{"Str"}, "Int")
		n := app("Int", g, t)
		vc.assume(st, tAnd(app("Bool", "<=", tInt(0), n), app("Bool", "<=", n, app("Int", "strlen", t))), "")
		vc.storeAt(st, h, r, app(in, f, t))
		return Val{T: mkSlice(r, tInt(0), n, n), Typ: to}
	case fs == "Int" && ts == "Str":
		f := vc.declFun("rune2str", []string{"Int"}, "Str")
		return Val{T: app("Str", f, t), Typ: to}
	}
	vc.unsupported(st, "conversion "+from.String()+" to "+to.String())
	return Val{T: vc.fresh("bad", ts), Typ: to}
}

func fits(a, b *types.Basic) bool {
	rng := func(k types.BasicKind) (int, bool) { // bits, signed
		switch k {
		case types.Int8:
			return 8, true
		case types.Int16:
			return 16, true
		case types.Int32, types.UntypedRune:
			return 32, true
		case types.Int, types.Int64, types.UntypedInt:
			return 64, true
		case types.Uint8:
			return 8, false
		case types.Uint16:
			return 16, false
		case types.Uint32:
			return 32, false
		case types.Uint, types.Uint64, types.Uintptr:
			return 64, false
		}
		return 0, false
	}
	ab, as := rng(a.Kind())
	bb, bs := rng(b.Kind())
	if as == bs {
		return ab <= bb
	}
	return bs && ab < bb
}

var _ = constant.BoolVal
var _ = strings.HasPrefix
