package main

import (
	"sort"
	"strings"
)

// Slicing: before a goal is sent to a solver, assumptions that cannot matter
// (other paths, definitions of unused symbols) are left out. Leaving an
// assumption out is always sound.

type itemInfo struct {
	decl   string   // declared constant
	def    string   // constant defined by (= c t), possibly guarded
	guards []string // path literals ("R!3", "nok!47", "!nok!47")
	syms   []string // local constants mentioned
	locals []string // without guard literals
	act    string
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '(' || c == ')':
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|')
			out = append(out, s[i:i+j+2])
			i += j + 2
		case c == '"':
			j := strings.IndexByte(s[i+1:], '"')
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\t()|", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// sexprs splits the elements of a parenthesised expression.
func sexprs(s string) []string {
	s = strings.TrimSpace(s)
	if len(s) < 2 || s[0] != '(' {
		return nil
	}
	s = s[1 : len(s)-1]
	var out []string
	depth, start := 0, -1
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '|':
			if start < 0 {
				start = i
			}
			i += strings.IndexByte(s[i+1:], '|') + 1
		case '(':
			if depth == 0 && start < 0 {
				start = i
			}
			depth++
		case ')':
			depth--
		case ' ', '\n', '\t':
			if depth == 0 && start >= 0 {
				out = append(out, s[start:i])
				start = -1
			}
		default:
			if start < 0 {
				start = i
			}
		}
	}
	if start >= 0 {
		out = append(out, s[start:])
	}
	return out
}

func guardLits(g string) []string {
	if !strings.HasPrefix(g, "(") {
		return []string{g}
	}
	e := sexprs(g)
	if len(e) == 0 {
		return nil
	}
	switch e[0] {
	case "and":
		var out []string
		for _, x := range e[1:] {
			out = append(out, guardLits(x)...)
		}
		return out
	case "not":
		if len(e) == 2 && !strings.HasPrefix(e[1], "(") {
			return []string{"!" + e[1]}
		}
	}
	return nil
}

func uniq(s []string) []string {
	sort.Strings(s)
	var out []string
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			out = append(out, x)
		}
	}
	return out
}

func isR(s string) bool { return strings.HasPrefix(s, "R!") }

func (v *VC) itemInfos() []*itemInfo {
	v.infoMu.Lock()
	defer v.infoMu.Unlock()
	for i := len(v.infos); i < len(v.items); i++ {
		t := v.items[i].text
		in := &itemInfo{}
		v.infos = append(v.infos, in)
		switch {
		case strings.HasPrefix(t, "(declare-const "):
			e := sexprs(t)
			in.decl = e[1]
			if v.declLoc == nil {
				v.declLoc = map[string]bool{}
			}
			v.declLoc[e[1]] = true
		case strings.HasPrefix(t, "(assert "):
			body := strings.TrimSuffix(strings.TrimPrefix(t, "(assert "), ")")
			for _, s := range tokenize(body) {
				if v.declLoc[s] {
					in.syms = append(in.syms, s)
				}
			}
			in.syms = uniq(in.syms)
			for strings.HasPrefix(body, "(=> ") {
				e := sexprs(body)
				if len(e) != 3 {
					break
				}
				in.guards = append(in.guards, guardLits(e[1])...)
				body = e[2]
				break
			}
			if strings.HasPrefix(body, "(= ") {
				e := sexprs(body)
				if len(e) == 3 && v.declLoc[e[1]] && strings.Contains(e[1], "!") {
					in.def = e[1]
				}
			}
			for _, s := range in.syms {
				if !isR(s) {
					in.locals = append(in.locals, s)
				}
			}
		}
	}
	return v.infos
}

// slice returns the items needed for goals.
func (v *VC) slice(goals []*Goal) []bool {
	infos := v.itemInfos()
	max := 0
	S := map[string]bool{}
	for _, g := range goals {
		if g.idx > max {
			max = g.idx
		}
		for _, t := range tokenize(g.Term) {
			if v.declLoc[t] {
				S[t] = true
			}
		}
	}
	// path ancestors
	pos := map[string]bool{}
	note := func(x string) {
		for _, l := range pathLits(x) {
			pos[l] = true
		}
	}
	for _, g := range goals {
		note(g.Term)
	}
	rdef := map[string]string{}
	for i := 0; i < max; i++ {
		if in := infos[i]; isR(in.def) && len(in.guards) == 0 {
			rdef[in.def] = v.items[i].text
		}
	}
	var work []string
	for s := range S {
		if isR(s) {
			work = append(work, s)
		}
	}
	R := map[string]bool{}
	for len(work) > 0 {
		r := work[len(work)-1]
		work = work[:len(work)-1]
		if R[r] {
			continue
		}
		R[r] = true
		d := rdef[r]
		if d == "" {
			continue
		}
		note(d)
		for _, t := range tokenize(d) {
			if v.declLoc[t] {
				S[t] = true
				if isR(t) && !R[t] {
					work = append(work, t)
				}
			}
		}
	}
	keep := make([]bool, len(v.items))
	for {
		changed := false
		for i := max - 1; i >= 0; i-- {
			if keep[i] || v.items[i].text == "" {
				continue
			}
			in := infos[i]
			if in.decl != "" || len(in.syms) == 0 {
				keep[i] = true
				continue
			}
			if isR(in.def) && len(in.guards) == 0 {
				if R[in.def] {
					keep[i] = true
				}
				continue
			}
			ok := true
			for _, g := range in.guards {
				if isR(g) && !R[g] {
					ok = false
				}
				if n := neg(g); !isR(g) && pos[n] && !pos[g] {
					ok = false
				}
			}
			if !ok {
				continue
			}
			if in.def != "" && !S[in.def] {
				continue
			}
			if len(in.locals) > 0 {
				hit := false
				for _, s := range in.locals {
					if S[s] && !strings.HasPrefix(s, "act!") {
						hit = true
						break
					}
				}
				if !hit {
					continue
				}
			}
			keep[i] = true
			changed = true
			for _, s := range in.syms {
				if !isR(s) {
					S[s] = true
				}
			}
		}
		if !changed {
			break
		}
	}
	return keep
}

func neg(s string) string {
	if strings.HasPrefix(s, "!") {
		return s[1:]
	}
	return "!" + s
}

// pathLits lists the constants of a path condition with their polarity.
func pathLits(t string) []string {
	toks := tokenize(t)
	var out []string
	for i, x := range toks {
		if i > 0 && toks[i-1] == "not" {
			out = append(out, "!"+x)
		} else {
			out = append(out, x)
		}
	}
	return out
}
