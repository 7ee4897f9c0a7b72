package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var _ = os.Stderr

const maxInline = 14

// want: the clause belongs to the property being checked.
func (vc *VC) want(c *Clause) bool { return len(c.Labels) == 0 || hasLabel(c.Labels, vc.Prop) }

func (fr *Frame) callCommon(st *State, c *ssa.CallCommon, ins ssa.Instruction) (*State, Val) {
	var args []Val
	for _, a := range c.Args {
		x := fr.val(st, a)
		if x.Typ == nil {
			x.Typ = fr.typ(a.Type())
		}
		args = append(args, x)
	}
	if c.IsInvoke() {
		rv := fr.val(st, c.Value)
		return fr.invoke(st, rv, fr.typ(c.Value.Type()), c.Method, args, ins)
	}
	f := fr.val(st, c.Value)
	return fr.callVal(st, f, args, fr.typ(c.Signature()).(*types.Signature), ins)
}

func (fr *Frame) invoke(st *State, rv Val, it types.Type, m *types.Func, args []Val, ins ssa.Instruction) (*State, Val) {
	vc := fr.vc
	rt := fr.typ(m.Type()).(*types.Signature)
	t := vc.asTerm(st, rv)
	if !t.ok() {
		vc.unsupported(st, "method call on an unmodelled value")
		return st, fr.freshResult(st, rt.Results())
	}
	if p, ok := vc.prov[t.S]; ok {
		sel := types.NewMethodSet(p.Typ).Lookup(m.Pkg(), m.Name())
		if sel == nil {
			sel = types.NewMethodSet(p.Typ).Lookup(nil, m.Name())
		}
		if sel != nil {
			if fn := vc.P.Prog.MethodValue(sel); fn != nil {
				return fr.callFn(st, fn, append([]Val{p}, args...), nil, ins)
			}
		}
	}
	fr.safety(st, "nil interface", tNot(tEq(t, Term{"nilIface", "Iface"})))
	key := methodKey(it, m.Name())
	rv.Typ = it
	all := append([]Val{rv}, args...)
	if ct := vc.DB.Contracts[key]; ct != nil && ct.Opts["guardonly"] == "" {
		return fr.applyContract(st, ct, all, rt.Results(), nil, ins)
	}
	if isErrorString(m) {
		f := vc.declFun("errstr", []string{"Iface"}, "Str")
		return st, Val{T: app("Str", f, t), Typ: strT}
	}
	if o := m.Pkg(); o != nil && !isRepoPkg(o) {
		return fr.externPure(st, key, all, rt.Results())
	}
	vc.unsupported(st, "call of interface method "+key+" without contract")
	return st, fr.freshResult(st, rt.Results())
}

func isErrorString(m *types.Func) bool {
	return m.Name() == "Error" && m.Type().(*types.Signature).Params().Len() == 0
}

func (fr *Frame) freshResult(st *State, res *types.Tuple) Val {
	vc := fr.vc
	if res == nil || res.Len() == 0 {
		return Val{Typ: types.NewTuple()}
	}
	mk := func(t types.Type) Val {
		t = fr.typ(t)
		c := vc.fresh("ret", vc.sortOf(t))
		vc.assumeWF(st, c, t)
		return Val{T: c, Typ: t}
	}
	if res.Len() == 1 {
		return mk(res.At(0).Type())
	}
	var vs []Val
	for i := 0; i < res.Len(); i++ {
		vs = append(vs, mk(res.At(i).Type()))
	}
	return Val{Tup: vs, Typ: res}
}

func (fr *Frame) callVal(st *State, f Val, args []Val, sig *types.Signature, ins ssa.Instruction) (*State, Val) {
	vc := fr.vc
	switch {
	case strings.HasPrefix(f.Nat, "builtin:"):
		return fr.builtin(st, f.Nat[8:], args, ins)
	case f.Fn != nil:
		return fr.callFn(st, f.Fn, args, f.Bind, ins)
	case f.Bad != "":
		vc.unsupported(st, "call of "+f.Bad)
		return st, fr.freshResult(st, sig.Results())
	}
	// a function value supplied from outside: assumed deterministic and free
	// of side effects
	vc.trusted["function values received from callers are deterministic and have no side effects"] = true
	fr.safety(st, "nil function", tNot(tEq(f.T, tInt(0))))
	var as []string
	ts := []Term{f.T}
	as = append(as, "Int")
	for _, a := range args {
		t := vc.asTerm(st, a)
		if !t.ok() {
			vc.unsupported(st, "function value argument")
			return st, fr.freshResult(st, sig.Results())
		}
		ts = append(ts, t)
		as = append(as, t.Sort)
	}
	if sig.Results().Len() != 1 {
		vc.unsupported(st, "function value with several results")
		return st, fr.freshResult(st, sig.Results())
	}
	rt := fr.typ(sig.Results().At(0).Type())
	fn := vc.declFun("applyfn:"+strings.Join(as, ",")+":"+vc.sortOf(rt), as, vc.sortOf(rt))
	r := app(vc.sortOf(rt), fn, ts...)
	vc.assumeWF(st, r, rt)
	return st, Val{T: r, Typ: rt}
}

// callFn calls a known function.
func (fr *Frame) callFn(st *State, fn *ssa.Function, args []Val, binds []Val, ins ssa.Instruction) (*State, Val) {
	vc := fr.vc
	key := funcKey(fn)
	var sub map[*types.TypeParam]types.Type
	body := fn
	if o := fn.Origin(); o != nil && o != fn {
		sub = map[*types.TypeParam]types.Type{}
		tp := o.TypeParams()
		ta := fn.TypeArgs()
		for i := 0; i < tp.Len() && i < len(ta); i++ {
			sub[tp.At(i)] = fr.typ(ta[i])
		}
		body = o
	} else if fn.TypeParams().Len() == 0 && fn.Parent() == nil {
		if rcv := fn.Signature.Recv(); rcv != nil {
			// method of a generic type called inside its own package body
			rt := types.Unalias(rcv.Type())
			if p, ok := rt.(*types.Pointer); ok {
				rt = types.Unalias(p.Elem())
			}
			if n, ok := rt.(*types.Named); ok && n.TypeParams().Len() > 0 && len(args) > 0 {
				at := types.Unalias(args[0].Typ)
				if p, ok := at.(*types.Pointer); ok {
					at = types.Unalias(p.Elem())
				}
				if m, ok := at.(*types.Named); ok && m.TypeArgs().Len() == n.TypeParams().Len() {
					sub = map[*types.TypeParam]types.Type{}
					rtp := fn.Signature.RecvTypeParams()
					for i := 0; i < rtp.Len(); i++ {
						sub[rtp.At(i)] = m.TypeArgs().At(i)
					}
				}
			}
		}
	}
	res := fn.Signature.Results()
	if ns, r, ok := fr.native(st, key, fn, args, ins); ok {
		return ns, r
	}
	if ct := vc.DB.Contracts[key]; ct != nil && ct.Opts["guardonly"] == "" && !ct.Inline {
		return fr.applyContract(st, ct, args, res, fr.namedSub(sub), ins)
	}
	if body.Pkg != nil && isRepoPkg(body.Pkg.Pkg) || body.Synthetic != "" || body.Parent() != nil {
		if len(body.Blocks) > 0 {
			return fr.inline(st, body, args, binds, sub, ins)
		}
	}
	return fr.externPure(st, key, args, res)
}

func (fr *Frame) namedSub(sub map[*types.TypeParam]types.Type) map[string]types.Type {
	if len(sub) == 0 {
		return nil
	}
	out := map[string]types.Type{}
	for k, t := range sub {
		out[k.Obj().Name()] = t
	}
	return out
}

// inline executes a callee's body in place.
func (fr *Frame) inline(st *State, fn *ssa.Function, args, binds []Val, sub map[*types.TypeParam]types.Type, ins ssa.Instruction) (*State, Val) {
	vc := fr.vc
	res := fn.Signature.Results()
	for f, n := fr, 0; f != nil; f = f.parent {
		n++
		if f.fn == fn || n > maxInline {
			vc.unsupported(st, "recursive or too deep call of "+funcKey(fn)+" without contract")
			return st, fr.freshResult(st, res)
		}
	}
	if isRepoFn(fn) {
		vc.inlined[funcKey(fn)] = true
	}
	nf := vc.newFrame(fn, fr)
	nf.call = ins
	for k, t := range sub {
		nf.tsub[k] = t
	}
	if fn.Parent() != nil || sub == nil {
		for k, t := range fr.tsub {
			if _, ok := nf.tsub[k]; !ok {
				nf.tsub[k] = t
			}
		}
	}
	for i, p := range fn.Params {
		if i < len(args) {
			a := args[i]
			a.Typ = nf.typ(p.Type())
			nf.env[p] = a
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			nf.env[p] = binds[i]
		}
	}
	pos := vc.posHint
	out, r := nf.runBody(st)
	vc.posHint = pos
	if out == nil {
		return nil, Val{}
	}
	return out, r
}

func isRepoFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && isRepoPkg(fn.Pkg.Pkg)
}

// runBody executes all blocks and joins the returns.
func (fr *Frame) runBody(st *State) (*State, Val) {
	vc := fr.vc
	entryDefers := len(st.defers)
	_ = entryDefers
	fr.run(fr.fn.Blocks[0], st, nil, nil)
	if len(fr.rets) == 0 {
		return nil, Val{}
	}
	var vals []Val
	for _, r := range fr.rvals {
		vals = append(vals, r)
	}
	res := fr.fn.Signature.Results()
	var r Val
	if res.Len() == 0 {
		r = Val{Typ: res}
	} else if len(vals) == 1 {
		r = vals[0]
	} else {
		r = vc.joinVals("ret", fr.rets, vals)
	}
	if res.Len() == 1 {
		r.Typ = fr.typ(res.At(0).Type())
	}
	out := vc.merge(fr.rets)
	// leftover defers of this frame never run twice
	var ds []deferred
	for _, d := range out.defers {
		if d.fr != fr {
			ds = append(ds, d)
		}
	}
	out.defers = ds
	return out, r
}

// ---- contracts at call sites

func (vc *VC) contractEnv(ct *Contract, args []Val, st, old *State, tsub map[string]types.Type) *SpecEnv {
	vars := map[string]Val{}
	for i, n := range ct.Params {
		if i < len(args) {
			vars[n] = args[i]
		}
	}
	if ct.Extern && vc.TopEnv != nil {
		// the contracts of library functions and events may speak of the type
		// parameters of the verified function, events also of its parameters
		m := map[string]types.Type{}
		for k, t := range vc.TopEnv.tsub {
			m[k] = t
		}
		for k, t := range tsub {
			m[k] = t
		}
		tsub = m
		if strings.HasPrefix(ct.Key, "event.") {
			for n, v := range vc.TopEnv.vars {
				if _, ok := vars[n]; !ok {
					vars[n] = v
				}
			}
		}
	}
	e := &SpecEnv{vc: vc, st: st, old: old, vars: vars, tsub: tsub, lets: map[string]*Expr{}}
	for _, l := range ct.Let {
		e.lets[l.Name] = l.E
	}
	for i, te := range ct.PTypes {
		if te != nil && i < len(args) {
			if t, err := vc.DB.resolveType(te, tsub); err == nil {
				v := vars[ct.Params[i]]
				v.Typ = t
				vars[ct.Params[i]] = v
			}
		}
	}
	return e
}

func (fr *Frame) applyContract(st *State, ct *Contract, args []Val, res *types.Tuple, tsub map[string]types.Type, ins ssa.Instruction) (*State, Val) {
	vc := fr.vc
	if ct.Extern {
		vc.trusted["contract of "+ct.Key] = true
	} else {
		vc.usedCtr[ct.Key] = true
	}
	for i, a := range args {
		if a.Bad != "" && i < len(ct.Params) && ct.Params[i] != "_" {
			vc.unsupported(st, "argument "+ct.Params[i]+" of "+ct.Key+": "+a.Bad)
		}
	}
	if tsub == nil {
		tsub = map[string]types.Type{}
		// generic receiver
		if len(args) > 0 && args[0].Typ != nil {
			at := types.Unalias(args[0].Typ)
			if p, ok := at.(*types.Pointer); ok {
				at = types.Unalias(p.Elem())
			}
			if n, ok := at.(*types.Named); ok && n.TypeArgs().Len() > 0 {
				tp := n.Origin().TypeParams()
				for i := 0; i < tp.Len(); i++ {
					tsub[tp.At(i).Obj().Name()] = n.TypeArgs().At(i)
				}
			}
		}
	}
	pre := st.clone()
	env := vc.contractEnv(ct, args, st, pre, tsub)
	short := ct.Key
	for _, c := range ct.Requires {
		if !vc.want(c) {
			continue
		}
		t, err := env.Bool(c.E)
		if err != nil {
			vc.specError(st, ct.Key, err)
			continue
		}
		vc.goal(st, "pre", short+"/"+clauseName(c), c.Labels, t)
	}
	for _, c := range ct.MayPanic {
		t, err := env.Bool(c.E)
		if err != nil {
			vc.specError(st, ct.Key, err)
			continue
		}
		fr.safety(st, "panic in "+short, tNot(t))
	}
	if ct.NoReturn {
		return nil, Val{}
	}
	fr.contractAccess(st, ct, args)
	// effects
	touched := map[string][]Region{}
	var order []string
	for _, m := range ct.Mods {
		if !vc.want(m) {
			continue
		}
		rs, err := env.regions(m)
		if err != nil {
			vc.specError(st, ct.Key, err)
			continue
		}
		for _, r := range rs {
			if r.Heap == "" {
				// a local variable passed by address
				p := env.vars[m.E.Args[0].Name]
				if p.L != nil && p.L.Kind == lLocal {
					c := vc.fresh("loc", vc.sortOf(p.L.T))
					vc.assumeWF(st, c, p.L.T)
					vc.writeL(st, p.L, Val{T: c, Typ: p.L.T})
				}
				continue
			}
			if _, ok := touched[r.Heap]; !ok {
				order = append(order, r.Heap)
			}
			touched[r.Heap] = append(touched[r.Heap], r)
			if ct.Extern && r.Cond != nil && strings.HasPrefix(r.Heap, "MD!") && vc.TopC != nil && vc.TopC.Opts["given"] != "" {
				if h, _, ok := vc.ghostHeap("given"); ok && hasLabel(strings.Split(vc.TopC.Opts["given"], ","), vc.Prop) {
					x := vc.fresh("w", "Int")
					fr.safety(st, "write to data that was handed over to another goroutine", app("Bool", "=>", r.Cond(x), tNot(tSel(vc.getH(st, h), x))))
				}
			}
		}
	}
	// the states a crash can leave inside the call: what the library function
	// says, or what the function is proved to keep
	if mids := append(append([]*Clause{}, ct.Mids...), ct.Crash...); len(mids) > 0 && vc.TopC != nil && len(vc.TopC.Crash) > 0 && vc.dry == 0 {
		ms := st.clone()
		fr.havocRegions(ms, touched, order, true)
		menv := *env
		menv.st = ms
		menv.old = pre
		mr := vc.fresh("mid", "Bool")
		ms.reach = tAnd(ms.reach, mr)
		for _, mid := range mids {
			if !vc.want(mid) {
				continue
			}
			t, err := menv.Bool(mid.E)
			if err != nil {
				vc.specError(st, ct.Key, err)
				continue
			}
			vc.assume(ms, t, "mid")
		}
		fr.crashCheck(ms, "during "+short)
	}
	if !ct.Pure {
		a := vc.alloc(st)
		n := vc.fresh("alloc", "Int")
		vc.raw(app("Bool", "<=", a, n), "")
		vc.declHeap("alloc", "Int", nil)
		st.heap["alloc"] = n
		for _, r := range vc.recs {
			r.heaps["alloc"] = true
		}
	}
	fr.havocRegions(st, touched, order, false)
	// results
	var rv Val
	sig := res
	n := 0
	if sig != nil {
		n = sig.Len()
	}
	var rs []Val
	for i := 0; i < n; i++ {
		t := fr.typ(substNamed(sig.At(i).Type(), tsub))
		c := vc.fresh("r."+lastName(ct.Key), vc.sortOf(t))
		vc.assumeWF(st, c, t)
		rs = append(rs, Val{T: c, Typ: t})
	}
	if n == 1 {
		rv = rs[0]
	} else {
		rv = Val{Tup: rs, Typ: sig}
	}
	env.st = st
	for i, nme := range ct.Results {
		if i < len(rs) {
			env.vars[nme] = rs[i]
		}
	}
	for _, c := range ct.Ensures {
		if !vc.want(c) {
			continue
		}
		t, err := env.Bool(c.E)
		if err != nil {
			vc.specError(st, ct.Key, err)
			continue
		}
		vc.assume(st, t, "ensures "+short)
	}
	crash := false
	for _, h := range order {
		if strings.HasPrefix(h, "X!fs") || strings.HasPrefix(h, "X!av") {
			crash = true
		}
	}
	if crash {
		fr.crashCheck(st, "after "+short)
	}
	return st, rv
}

func lastName(k string) string {
	if i := strings.LastIndex(k, "."); i >= 0 {
		return k[i+1:]
	}
	return k
}

// substNamed replaces type parameters by name (origin signatures).
func substNamed(t types.Type, sub map[string]types.Type) types.Type {
	if len(sub) == 0 {
		return t
	}
	m := map[*types.TypeParam]types.Type{}
	collectTP(t, sub, m, map[types.Type]bool{})
	return substType(t, m)
}

func collectTP(t types.Type, sub map[string]types.Type, m map[*types.TypeParam]types.Type, seen map[types.Type]bool) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	switch x := types.Unalias(t).(type) {
	case *types.TypeParam:
		if r, ok := sub[x.Obj().Name()]; ok && r != t {
			m[x] = r
		}
	case *types.Pointer:
		collectTP(x.Elem(), sub, m, seen)
	case *types.Slice:
		collectTP(x.Elem(), sub, m, seen)
	case *types.Map:
		collectTP(x.Key(), sub, m, seen)
		collectTP(x.Elem(), sub, m, seen)
	case *types.Chan:
		collectTP(x.Elem(), sub, m, seen)
	case *types.Named:
		for i := 0; i < x.TypeArgs().Len(); i++ {
			collectTP(x.TypeArgs().At(i), sub, m, seen)
		}
	}
}

func (vc *VC) specError(st *State, where string, err error) {
	if vc.dry > 0 {
		return
	}
	vc.unsup = append(vc.unsup, "contract of "+where+": "+err.Error())
	vc.goal(st, "contract", where+": "+err.Error(), nil, tFalse)
}

// havocRegions replaces the given regions by arbitrary values.
func (fr *Frame) havocRegions(st *State, touched map[string][]Region, order []string, mid bool) {
	vc := fr.vc
	maps := map[string]*types.Map{}
	var mk []string
	lim := vc.alloc(st)
	for _, h := range order {
		regs := touched[h]
		old := vc.getH(st, h)
		ghost := strings.HasPrefix(h, "X!")
		whole := false
		for _, r := range regs {
			if r.Cond == nil {
				whole = true
			}
		}
		s := vc.heapS[h]
		// a single fixed cell: store a fresh value
		if !whole && len(regs) == 1 && isArray(s) {
			ks, es := splitArray(s)
			if c := regs[0].Cond(Term{"r!!", ks}); strings.HasPrefix(c.S, "(= r!! ") {
				ref := Term{sexprArgs(c.S)[1], ks}
				x := vc.fresh("cell", es)
				vc.recTarget(h, ref, Term{})
				vc.setH(st, h, tStore(old, ref, x))
				if mt, ok := vc.heapT[h].(*types.Map); ok && h[0] == 'M' {
					if maps[typeKey(mt)] == nil {
						mk = append(mk, typeKey(mt))
					}
					maps[typeKey(mt)] = mt
				}
				if !ghost {
					vc.assumeHeapWF(st, h)
				}
				continue
			}
		}
		_, nw := vc.havocH(st, h)
		vc.recAny(h)
		if isArray(s) && !whole {
			ks, _ := splitArray(s)
			l := lim
			if ghost {
				l = Term{}
			}
			// unlike a loop frame, fresh cells of the callee are unconstrained
			vc.raw(vc.frameTerm(h, ks, old, nw, regs, l), "frame")
		}
		if mt, ok := vc.heapT[h].(*types.Map); ok && h[0] == 'M' {
			if maps[typeKey(mt)] == nil {
				mk = append(mk, typeKey(mt))
			}
			maps[typeKey(mt)] = mt
		}
		if !ghost {
			vc.assumeHeapWF(st, h)
		}
	}
	for _, k := range mk {
		vc.raw(vc.mapCanon(st, maps[k]), "wf")
	}
}

// crashCheck: the crash invariants of the verified function hold here.
func (fr *Frame) crashCheck(st *State, where string) {
	vc := fr.vc
	if vc.TopC == nil || vc.dry > 0 {
		return
	}
	for _, c := range vc.TopC.Crash {
		if !vc.want(c) {
			continue
		}
		env := vc.TopEnv.at(st)
		env.old = vc.entry
		t, err := env.Bool(c.E)
		if err != nil {
			vc.specError(st, "crash", err)
			continue
		}
		vc.goal(st, "crash", where+"/"+clauseName(c), c.Labels, t)
	}
}

// ---- library functions without contract

// externPure models an unknown library function whose arguments are plain
// values as a deterministic function of them.
func (fr *Frame) externPure(st *State, key string, args []Val, res *types.Tuple) (*State, Val) {
	vc := fr.vc
	var as []string
	var ts []Term
	for _, a := range args {
		t := vc.asTerm(st, a)
		plain := t.ok()
		if plain && a.Typ != nil {
			switch u := under(a.Typ).(type) {
			case *types.Basic:
			case *types.Struct:
				plain = isOpaque(a.Typ) || plainStruct(u)
			case *types.Slice:
				if typeKey(u.Elem()) == "uint8" {
					t = vc.blobOf(st, u, t)
				} else {
					plain = false
				}
			default:
				plain = false
			}
		}
		if !plain {
			vc.unsupported(st, "call of "+key+" without contract")
			return st, fr.freshResult(st, res)
		}
		ts = append(ts, t)
		as = append(as, t.Sort)
	}
	vc.trusted["library function "+key+" is deterministic and has no side effects"] = true
	var rs []Val
	for i := 0; res != nil && i < res.Len(); i++ {
		t := fr.typ(res.At(i).Type())
		rs = append(rs, fr.externResult(st, key, i, as, ts, t))
	}
	if len(rs) == 1 {
		return st, rs[0]
	}
	return st, Val{Tup: rs, Typ: res}
}

func plainStruct(s *types.Struct) bool {
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := under(s.Field(i).Type()).(*types.Basic); !ok {
			return false
		}
	}
	return true
}

func extName(key string, i int) string {
	if i > 0 {
		return fmt.Sprintf("ext:%s#%d", key, i)
	}
	return "ext:" + key
}

func (vc *VC) extApp(key string, i int, ts []Term, sort string) Term {
	var as []string
	for _, t := range ts {
		as = append(as, t.Sort)
	}
	f := vc.declFun(extName(key, i), as, sort)
	if len(ts) == 0 {
		return Term{f, sort}
	}
	return app(sort, f, ts...)
}

func (fr *Frame) externResult(st *State, key string, i int, as []string, ts []Term, t types.Type) Val {
	vc := fr.vc
	if u, ok := under(t).(*types.Slice); ok {
		h := vc.elemHeap(u.Elem())
		_, in := splitArray(vc.heapS[h])
		n := vc.extApp(key+".len", i, ts, "Int")
		c := vc.extApp(key+".elems", i, ts, in)
		r := vc.newRef(st)
		vc.storeAt(st, h, r, c)
		vc.assume(st, app("Bool", "<=", tInt(0), n), "")
		return Val{T: mkSlice(r, tInt(0), n, n), Typ: t}
	}
	if isRefType(t) {
		vc.trusted["opaque result of "+key] = true
		c := vc.fresh("opq", "Int")
		vc.assumeWF(st, c, t)
		return Val{T: c, Typ: t}
	}
	r := vc.extApp(key, i, ts, vc.sortOf(t))
	vc.assumeWF(st, r, t)
	return Val{T: r, Typ: t}
}

// ---- builtins

func (fr *Frame) builtin(st *State, name string, args []Val, ins ssa.Instruction) (*State, Val) {
	vc := fr.vc
	tm := func(i int) Term {
		t := vc.asTerm(st, args[i])
		if !t.ok() {
			vc.unsupported(st, "argument of "+name)
			return vc.fresh("bad", vc.sortOf(args[i].Typ))
		}
		return t
	}
	switch name {
	case "len":
		switch u := under(args[0].Typ).(type) {
		case *types.Slice:
			return st, Val{T: sLen(tm(0)), Typ: intT}
		case *types.Map:
			fr.accessMap(st, args[0], u, tm(0), false)
			t := vc.mapLen(st, u, tm(0))
			return st, Val{T: t, Typ: intT}
		case *types.Basic:
			return st, Val{T: app("Int", "strlen", tm(0)), Typ: intT}
		case *types.Array:
			return st, Val{T: tInt(u.Len()), Typ: intT}
		case *types.Chan:
			c := vc.fresh("chlen", "Int")
			vc.assume(st, app("Bool", "<=", tInt(0), c), "")
			return st, Val{T: c, Typ: intT}
		}
	case "cap":
		if _, ok := under(args[0].Typ).(*types.Slice); ok {
			return st, Val{T: sCap(tm(0)), Typ: intT}
		}
	case "append":
		return st, fr.appendB(st, args, ins)
	case "copy":
		return st, fr.copyB(st, args, ins)
	case "delete":
		mt := under(args[0].Typ).(*types.Map)
		m := tm(0)
		fr.accessMap(st, args[0], mt, m, true)
		s1 := tNot(tEq(m, tInt(0)))
		_ = s1
		vc.mapDel(st, mt, m, tm(1))
		return st, Val{}
	case "print", "println", "recover":
		if name == "recover" {
			return st, Val{T: Term{"nilIface", "Iface"}, Typ: types.NewInterfaceType(nil, nil)}
		}
		return st, Val{}
	case "close":
		return fr.closeChan(st, args[0]), Val{}
	case "min", "max":
		r := tm(0)
		op := "<="
		if name == "max" {
			op = ">="
		}
		for i := 1; i < len(args); i++ {
			b := tm(i)
			r = tIte(app("Bool", op, r, b), r, b)
		}
		return st, Val{T: r, Typ: args[0].Typ}
	case "clear":
		if mt, ok := under(args[0].Typ).(*types.Map); ok {
			m := tm(0)
			fr.accessMap(st, args[0], mt, m, true)
			d, x, l := vc.mapHeaps(mt)
			vc.storeAt(st, d, m, emptySet(vc.sortOf(mt.Key())))
			vc.storeAt(st, x, m, vc.zeroArray(vc.sortOf(mt.Key()), mt.Elem()))
			vc.storeAt(st, l, m, tInt(0))
			return st, Val{}
		}
	case "ssa:wrapnilchk":
		return st, args[0]
	}
	vc.unsupported(st, "builtin "+name)
	if v, ok := ins.(ssa.Value); ok {
		return st, Val{T: vc.fresh("bad", vc.sortOf(fr.typ(v.Type()))), Typ: fr.typ(v.Type())}
	}
	return st, Val{}
}

// constLen: the static length of a slice built from a literal argument list.
func constLen(t Term) (int, bool) {
	l := sLen(t)
	n := 0
	if _, err := fmt.Sscanf(l.S, "%d", &n); err == nil && fmt.Sprint(n) == l.S && n <= 8 {
		return n, true
	}
	return 0, false
}

func (fr *Frame) appendB(st *State, args []Val, ins ssa.Instruction) Val {
	vc := fr.vc
	stp := under(args[0].Typ).(*types.Slice)
	et := stp.Elem()
	s := vc.asTerm(st, args[0])
	if !s.ok() || len(args) < 2 {
		return args[0]
	}
	x := vc.asTerm(st, args[1])
	if !x.ok() {
		vc.unsupported(st, "append of an unmodelled value")
		return args[0]
	}
	h := vc.elemHeap(et)
	_, in := splitArray(vc.heapS[h])
	H := vc.getH(st, h)
	n := sLen(s)
	off := sOff(s)
	var m Term
	var content Term
	old := tSel(H, sArr(s))
	if x.Sort == "Str" {
		m = app("Int", "strlen", x)
		f := vc.declFun("strbytes", []string{"Str"}, in)
		content = fr.spliced(st, old, in, off, n, app(in, f, x), tInt(0), m)
	} else if k, ok := constLen(x); ok {
		m = tInt(int64(k))
		content = old
		for i := 0; i < k; i++ {
			v := tSel(tSel(H, sArr(x)), tIx(sOff(x), tInt(int64(i))))
			content = tStore(content, tIx(off, tAdd(n, tInt(int64(i)))), v)
		}
		if k == 0 {
			return args[0]
		}
	} else {
		m = sLen(x)
		content = fr.spliced(st, old, in, off, n, tSel(H, sArr(x)), sOff(x), m)
	}
	nl := tAdd(n, m)
	if k, ok := constLen(x); ok && x.Sort == "Slice" {
		nl = vc.plus(n, int64(k))
	}
	content = vc.def("app", content)
	inpl := vc.fresh("inplace", "Bool")
	// an append of nothing keeps the slice
	none := tEq(m, tInt(0))
	vc.raw(tEq(inpl, app("Bool", "<=", nl, sCap(s))), "")
	r := vc.newRef(st)
	capn := vc.fresh("cap", "Int")
	vc.raw(app("Bool", "<=", nl, capn), "")
	ref := vc.def("arr", tIte(inpl, sArr(s), r))
	fr.accessElems(st, args[0], h, sArr(s), vc.plus(off, 0), inpl, true)
	vc.storeAt(st, h, ref, content)
	res := mkSlice(ref, off, nl, tIte(inpl, sCap(s), capn))
	if none.S == "true" {
		return args[0]
	}
	if _, lit := constLen(x); !lit || x.Sort == "Str" {
		res = tIte(none, s, res)
	}
	res = vc.defAlways("sl", res)
	return Val{T: res, Typ: args[0].Typ}
}

func (v *VC) defAlways(prefix string, t Term) Term {
	if v.noDef > 0 {
		return t
	}
	c := v.fresh(prefix, t.Sort)
	v.raw(tEq(c, t), "")
	return c
}

// spliced is old with src[so..so+m) written at off+n.
func (fr *Frame) spliced(st *State, old Term, in string, off, n, src, so, m Term) Term {
	vc := fr.vc
	c := vc.fresh("spl", in)
	i := Term{"i", "Int"}
	base := tAdd(off, n)
	le := func(a, b Term) Term { return app("Bool", "<=", a, b) }
	lt := func(a, b Term) Term { return app("Bool", "<", a, b) }
	ci := tSelRaw(c, i)
	within := tAnd(le(base, i), lt(i, tAdd(base, m)))
	vc.raw(Term{fmt.Sprintf("(forall ((i Int)) (! (= %s %s) :pattern (%s)))", ci.S,
		tIte(within, tSelRaw(src, tIx(so, tSub(i, base))), tSelRaw(old, i)).S, ci.S), "Bool"}, "splice")
	return c
}

func (fr *Frame) copyB(st *State, args []Val, ins ssa.Instruction) Val {
	vc := fr.vc
	d := vc.asTerm(st, args[0])
	x := vc.asTerm(st, args[1])
	if !d.ok() || !x.ok() {
		vc.unsupported(st, "copy")
		return Val{T: tInt(0), Typ: intT}
	}
	et := under(args[0].Typ).(*types.Slice).Elem()
	h := vc.elemHeap(et)
	_, in := splitArray(vc.heapS[h])
	H := vc.getH(st, h)
	var m, src, so Term
	if x.Sort == "Str" {
		f := vc.declFun("strbytes", []string{"Str"}, in)
		m, src, so = app("Int", "strlen", x), app(in, f, x), tInt(0)
	} else {
		m, src, so = sLen(x), tSel(H, sArr(x)), sOff(x)
	}
	n := vc.def("ncopy", tIte(app("Bool", "<=", sLen(d), m), sLen(d), m))
	fr.accessElems(st, args[0], h, sArr(d), sOff(d), tTrue, true)
	c := fr.spliced(st, tSel(H, sArr(d)), in, sOff(d), tInt(0), src, so, n)
	nz := app("Bool", "<", tInt(0), n)
	vc.storeAt(st, h, sArr(d), tIte(nz, c, tSel(H, sArr(d))))
	return Val{T: n, Typ: intT}
}

// ---- defers

func (fr *Frame) deferInstr(st *State, x *ssa.Defer) *State {
	c := x.Call
	var args []Val
	for _, a := range c.Args {
		v := fr.val(st, a)
		if v.Typ == nil {
			v.Typ = fr.typ(a.Type())
		}
		args = append(args, v)
	}
	for _, l := range fr.active {
		if l.info.body[x.Block()] {
			fr.vc.unsupported(st, "defer inside a loop")
		}
	}
	var run func(s *State) *State
	if c.IsInvoke() {
		rv := fr.val(st, c.Value)
		it := fr.typ(c.Value.Type())
		run = func(s *State) *State { n, _ := fr.invoke(s, rv, it, c.Method, args, x); return n }
	} else {
		f := fr.val(st, c.Value)
		sig := fr.typ(c.Signature()).(*types.Signature)
		run = func(s *State) *State { n, _ := fr.callVal(s, f, args, sig, x); return n }
	}
	st.defers = append(st.defers, deferred{fr: fr, guard: st.reach, block: x.Block(), run: run})
	return st
}

func (fr *Frame) runDefers(st *State, blk *ssa.BasicBlock) *State {
	vc := fr.vc
	var mine []deferred
	var rest []deferred
	for _, d := range st.defers {
		if d.fr == fr {
			mine = append(mine, d)
		} else {
			rest = append(rest, d)
		}
	}
	st.defers = rest
	for i := len(mine) - 1; i >= 0; i-- {
		d := mine[i]
		if d.block.Dominates(blk) {
			st = d.run(st)
		} else {
			s1, s2 := st.clone(), st
			s1.reach = vc.namedReach(tAnd(st.reach, d.guard))
			s2.reach = vc.namedReach(tAnd(st.reach, tNot(d.guard)))
			s1 = d.run(s1)
			if s1 == nil {
				st = s2
			} else {
				st = vc.merge([]*State{s1, s2})
			}
		}
		if st == nil {
			return nil
		}
	}
	return st
}

// ---- functions handled natively

var noEffect = map[string]bool{
	"fmt.Println": true, "fmt.Printf": true, "fmt.Print": true, "log.Println": true, "log.Printf": true, "log.Print": true,
	"time.Sleep": true, "runtime.Gosched": true, "runtime.GC": true, "github.com/gin-gonic/gin.SetMode": true,
}
var endPath = map[string]bool{"log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "os.Exit": true, "log.Panic": true, "log.Panicf": true}

func (fr *Frame) native(st *State, key string, fn *ssa.Function, args []Val, ins ssa.Instruction) (*State, Val, bool) {
	vc := fr.vc
	res := fn.Signature.Results()
	switch {
	case noEffect[key]:
		vc.natives[key] = true
		return st, fr.freshResult(st, res), true
	case endPath[key]:
		if vc.DB.Contracts[key] != nil {
			break
		}
		vc.natives[key] = true
		if strings.HasPrefix(key, "log.Panic") {
			fr.panicGoal(st, key)
		}
		return nil, Val{}, true
	}
	switch key {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		if r, ok := fr.sprintf(st, key, args); ok {
			return st, r, true
		}
		vc.natives[key] = true
		return st, Val{T: vc.fresh("sprintf", "Str"), Typ: strT}, true
	case "errors.New", "fmt.Errorf":
		e := vc.fresh("err", "Iface")
		vc.assume(st, tNot(tEq(e, Term{"nilIface", "Iface"})), "")
		return st, Val{T: e, Typ: types.Universe.Lookup("error").Type()}, true
	case "time.Now", "time.Since":
		t := fr.typ(res.At(0).Type())
		return st, Val{T: vc.fresh("time", vc.sortOf(t)), Typ: t}, true
	case "(time.Time).Sub":
		t := fr.typ(res.At(0).Type())
		return st, Val{T: vc.fresh("dur", vc.sortOf(t)), Typ: t}, true
	case "(time.Duration).String":
		return st, Val{T: vc.fresh("durs", "Str"), Typ: strT}, true
	case "runtime.NumCPU":
		c := vc.constant("NumCPU", "Int")
		vc.preDecl("(assert (<= 1 NumCPU))")
		vc.trusted["runtime.NumCPU is positive"] = true
		return st, Val{T: c, Typ: intT}, true
	case "strings.FieldsFunc":
		s := vc.asTerm(st, args[0])
		if !s.ok() {
			break
		}
		p := vc.fresh("sepset", arr("Int", "Bool"))
		t, ok := fr.closureTerm(st, args[1], []string{"c!"}, []types.Type{types.Typ[types.Int32]}, ins)
		if !ok {
			vc.unsupported(st, "predicate of strings.FieldsFunc")
			t = tFalse
		}
		vc.raw(Term{fmt.Sprintf("(forall ((c! Int)) (! (= (select %s c!) %s) :pattern ((select %s c!))))", p.S, t.S, p.S), "Bool"}, "")
		vc.trusted["strings.FieldsFunc splits around the maximal runs of characters its predicate accepts"] = true
		vc.trusted["library function unicode.IsLetter/IsNumber"] = true
		return st, fr.externResult(st, key, 0, nil, []Term{s, p}, fr.typ(res.At(0).Type())), true
	case "sort.Slice", "sort.SliceStable":
		return fr.sortSlice(st, args, ins), Val{}, true
	case "sort.Strings":
		return fr.sortStrings(st, args, ins), Val{}, true
	}
	return fr.concNative(st, key, fn, args, ins)
}

// sprintf models fmt.Sprintf with a constant format and fmt.Sprint of one
// value: the literal parts and the rendered arguments are concatenated.
func (fr *Frame) sprintf(st *State, key string, args []Val) (Val, bool) {
	vc := fr.vc
	var format string
	x := vc.asTerm(st, args[len(args)-1])
	n, ok := constLen(x)
	if !ok {
		n = 0
		if x.S != "nilSlice" {
			return Val{}, false
		}
	}
	switch {
	case key == "fmt.Sprintf" && len(args) == 2:
		f := vc.asTerm(st, args[0])
		if format, ok = vc.litText[f.S]; !ok {
			return Val{}, false
		}
	case key == "fmt.Sprint" && n == 1:
		format = "%v"
	default:
		return Val{}, false
	}
	h := vc.elemHeap(types.NewInterfaceType(nil, nil))
	parts := []Term{vc.strLit("")}
	used := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			parts = append(parts, vc.strLit(format[i:]))
			break
		}
		if j > 0 {
			parts = append(parts, vc.strLit(format[i:i+j]))
		}
		i += j
		k := i + 1
		for k < len(format) && strings.IndexByte("+-# 0123456789.", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			return Val{}, false
		}
		verb := format[i : k+1]
		i = k + 1
		if verb == "%%" {
			parts = append(parts, vc.strLit("%"))
			continue
		}
		if used >= n {
			return Val{}, false
		}
		a := tSel(tSel(vc.getH(st, h), sArr(x)), tIx(sOff(x), tInt(int64(used))))
		used++
		name := "fmt." + verb
		if verb == "%v" {
			name = "fmt.Sprint"
		}
		r := vc.extApp(name, 0, []Term{a}, "Str")
		vc.trusted["fmt: "+name+" of a value is a deterministic text"] = true
		if verb == "%s" || verb == "%v" {
			// a string is rendered as itself
			bx, _, _ := vc.boxFns(strT)
			g := sym(extName(name, 0))
			vc.preDecl(fmt.Sprintf("(assert (forall ((s Str)) (! (= (%s (%s s)) s) :pattern ((%s (%s s))))))", g, bx, g, bx))
			_, ub, tag := vc.boxFns(strT)
			vc.preDecl(fmt.Sprintf("(assert (forall ((i Iface)) (! (=> (= (typ i) %d) (= (%s i) (%s i))) :pattern ((%s i)))))", tag, g, ub, g))
			if s, ok := vc.boxedStr(a); ok {
				r = s
			}
		}
		parts = append(parts, r)
	}
	if used != n {
		return Val{}, false
	}
	return Val{T: vc.scat(parts...), Typ: strT}, true
}

// boxedStr recognizes a string boxed into an interface.
func (vc *VC) boxedStr(a Term) (Term, bool) {
	bx, _, _ := vc.boxFns(strT)
	if strings.HasPrefix(a.S, "("+bx+" ") {
		if x := sexprArgs(a.S); len(x) == 1 {
			return Term{x[0], "Str"}, true
		}
	}
	return Term{}, false
}

// closureTerm evaluates a loop-free function on symbolic arguments and
// returns a term with the argument names free.
func (fr *Frame) closureTerm(st *State, f Val, names []string, typs []types.Type, ins ssa.Instruction) (Term, bool) {
	vc := fr.vc
	if f.Fn == nil {
		return Term{}, false
	}
	for _, b := range f.Fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return Term{}, false
			}
		}
	}
	var args []Val
	for i, n := range names {
		args = append(args, Val{T: Term{n, vc.sortOf(typs[i])}, Typ: typs[i]})
	}
	n := len(vc.items)
	g := len(vc.goals)
	vc.noDef++
	vc.dry++
	vc.closureDepth++
	s := st.clone()
	s.reach = tTrue
	out, r := fr.callVal(s, f, args, f.Fn.Signature, ins)
	vc.closureDepth--
	vc.dry--
	vc.noDef--
	_ = g
	vc.items = vc.items[:n]
	if out == nil {
		return Term{}, false
	}
	t := vc.asTerm(out, r)
	if !t.ok() {
		return Term{}, false
	}
	return t, true
}

func (fr *Frame) sortSlice(st *State, args []Val, ins ssa.Instruction) *State {
	vc := fr.vc
	it := vc.asTerm(st, args[0])
	p, ok := vc.prov[it.S]
	if !ok {
		vc.unsupported(st, "sort.Slice of an unknown slice")
		return st
	}
	s := p.T
	et := under(p.Typ).(*types.Slice).Elem()
	vc.trusted["sort.Slice permutes the slice into an order consistent with its less function"] = true
	fr.permute(st, s, et, p)
	if vc.dry == 0 {
		lt, ok := fr.closureTerm(st, args[1], []string{"j!", "i!"}, []types.Type{intT, intT}, ins)
		if !ok {
			vc.unsupported(st, "less function of sort.Slice")
			return st
		}
		n := sLen(s)
		h := vc.elemHeap(et)
		a := tSel(vc.getH(st, h), sArr(s))
		pi, pj := tSelRaw(a, tIx(sOff(s), Term{"i!", "Int"})), tSelRaw(a, tIx(sOff(s), Term{"j!", "Int"}))
		pat := fmt.Sprintf(":pattern (%s %s)", pi.S, pj.S)
		vc.assume(st, Term{fmt.Sprintf("(forall ((i! Int) (j! Int)) (! (=> (and (<= 0 i!) (< i! j!) (< j! %s)) (not %s)) %s))", n.S, lt.S, pat), "Bool"}, "sorted")
	}
	return st
}

// permute replaces the elements of s by a permutation of them.
func (fr *Frame) permute(st *State, s Term, et types.Type, p Val) {
	vc := fr.vc
	h := vc.elemHeap(et)
	_, in := splitArray(vc.heapS[h])
	H := vc.getH(st, h)
	old := tSel(H, sArr(s))
	c := vc.fresh("sorted", in)
	vc.nfresh++
	pf := vc.declFun(fmt.Sprintf("perm!%d", vc.nfresh), []string{"Int"}, "Int")
	qf := vc.declFun(fmt.Sprintf("mrep!%d", vc.nfresh), []string{"Int"}, "Int")
	off, n := sOff(s).S, sLen(s).S
	vc.raw(Term{fmt.Sprintf("(forall ((i Int)) (! (=> (or (< i %s) (>= i (+ %s %s))) (= (select %s i) (select %s i))) :pattern ((select %s i))))", off, off, n, c.S, old.S, c.S), "Bool"}, "")
	vc.raw(Term{fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (and (<= 0 (%s i)) (< (%s i) %s) (= (%s (%s i)) i))) :pattern ((%s i))))", n, pf, pf, n, qf, pf, pf), "Bool"}, "")
	vc.raw(Term{fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (and (<= 0 (%s i)) (< (%s i) %s) (= (%s (%s i)) i))) :pattern ((%s i))))", n, qf, qf, n, pf, qf, qf), "Bool"}, "")
	vc.raw(Term{fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= 0 k) (< k %s)) (= (select %s (ix %s k)) (select %s (ix %s (%s k))))) :pattern ((select %s (ix %s k)))))",
		n, c.S, off, old.S, off, pf, c.S, off), "Bool"}, "")
	vc.raw(Term{fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= 0 k) (< k %s)) (= (select %s (ix %s k)) (select %s (ix %s (%s k))))) :pattern ((select %s (ix %s k)))))",
		n, old.S, off, c.S, off, qf, old.S, off), "Bool"}, "")
	fr.accessElems(st, p, h, sArr(s), sOff(s), tTrue, true)
	vc.storeAt(st, h, sArr(s), c)
}

func (fr *Frame) sortStrings(st *State, args []Val, ins ssa.Instruction) *State {
	vc := fr.vc
	s := vc.asTerm(st, args[0])
	fr.permute(st, s, strT, args[0])
	vc.trusted["sort.Strings permutes its slice"] = true
	return st
}

var _ = token.NoPos
