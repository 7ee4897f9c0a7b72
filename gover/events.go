package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

func (fr *Frame) onSend(st *State, ch Val, c, v Term, et types.Type) {}
func (fr *Frame) onRecv(st *State, ch Val, c, v Term, et types.Type) {}

// selectInstr: a select waits until one of its channels is ready and takes any
// of the ready cases. What is received is arbitrary; the event contracts named
// by the onrecv and ontick clauses record it in the ghost state.
func (fr *Frame) selectInstr(st *State, x *ssa.Select) *State {
	vc := fr.vc
	n := len(x.States)
	lo := int64(0)
	if !x.Blocking {
		lo = -1
	}
	idx := vc.fresh("sel", "Int")
	vc.assume(st, tAnd(app("Bool", "<=", tInt(lo), idx), app("Bool", "<", idx, tInt(int64(n)))), "select")
	ok := vc.fresh("selok", "Bool")
	var vals []Val
	var outs []*State
	if !x.Blocking {
		b := st.clone()
		b.reach = vc.def("R", tAnd(st.reach, tEq(idx, tInt(-1))))
		outs = append(outs, b)
	}
	for i, s := range x.States {
		b := st.clone()
		b.reach = vc.def("R", tAnd(st.reach, tEq(idx, tInt(int64(i)))))
		if s.Dir != types.RecvOnly {
			vc.unsupported(st, "select with a send")
			return st
		}
		cv := fr.val(b, s.Chan)
		c := vc.asTerm(b, cv)
		et := under(fr.typ(s.Chan.Type())).(*types.Chan).Elem()
		if !c.ok() {
			vc.unsupported(st, "select on an unmodelled channel")
			return st
		}
		if vc.conc.localCh[c.S] {
			vc.unsupported(st, "select on a local channel")
			return st
		}
		v := vc.fresh("rv", vc.sortOf(et))
		vc.assumeWF(vc.entry, v, et)
		val := Val{T: v, Typ: et}
		b = fr.event(b, c, val, et)
		if b == nil {
			return st
		}
		outs = append(outs, b)
		vals = append(vals, val)
	}
	out := vc.merge(outs)
	tup := []Val{{T: idx, Typ: intT}, {T: ok, Typ: boolT}}
	fr.env[x] = Val{Tup: append(tup, vals...), Typ: x.Type()}
	*st = *out
	return st
}

// event applies the event contract of a received message.
func (fr *Frame) event(st *State, c Term, v Val, et types.Type) *State {
	vc := fr.vc
	if vc.TopC == nil {
		vc.unsupported(st, "select")
		return nil
	}
	tick := types.TypeString(et, nil) == "time.Time"
	cls := vc.TopC.OnRecv
	if tick {
		cls = vc.TopC.OnTick
	}
	for _, cl := range cls {
		if !vc.want(cl) {
			continue
		}
		ct := vc.DB.Contracts[cl.Event]
		if ct == nil {
			vc.specError(st, cl.Event, fmt.Errorf("no such event"))
			return nil
		}
		args := []Val{v}
		if tick {
			args = nil
		} else {
			env := vc.TopEnv.at(vc.entry)
			cv, err := env.Value(cl.E)
			if err != nil {
				vc.specError(st, cl.Event, err)
				return nil
			}
			ch, is := under(cv.Typ).(*types.Chan)
			if !is || !types.Identical(ch.Elem(), et) {
				continue
			}
			vc.goal(st, "event", "the channel waited for is the one of the contract", nil, tEq(c, vc.asTerm(vc.entry, cv)))
		}
		ns, _ := fr.applyContract(st, ct, args, nil, map[string]types.Type{}, nil)
		vc.trusted["the channels served by "+vc.TopC.Key+" are never closed"] = true
		return ns
	}
	if !tick {
		vc.unsupported(st, "select on a channel without event contract")
		return nil
	}
	return st
}
