package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- isomorphism
//
// A state that comes back to the head of a loop and differs from the one
// explored only in the names of objects and symbols made on the way behaves
// the same; joining them would forget how the new values are related.

// names calls f for every name of an object (#12) or symbol (+s12) made
// during the analysis, and returns the text with the results of f.
func names(s string, f func(tok string) string) string {
	var out []byte
	last := 0
	for i := 0; i+1 < len(s); i++ {
		j := i + 1
		switch s[i] {
		case '#':
		case '+', '-', '*':
			if s[j] != 's' {
				continue
			}
			j++
		default:
			continue
		}
		e := j
		for e < len(s) && s[e] >= '0' && s[e] <= '9' {
			e++
		}
		if e == j {
			continue
		}
		r := f(s[i:e])
		if r != "" {
			out = append(append(out, s[last:i]...), r...)
			last = e
		}
		i = e - 1
	}
	if last == 0 {
		return s
	}
	return string(append(out, s[last:]...))
}

// form is a state up to names: what must be equal, and what is known.
type form struct {
	body  string
	known map[string]bool
}

// covers: what holds in a holds in b as well.
func (a *form) covers(b *form) bool {
	if a.body == "" || a.body != b.body {
		return false
	}
	for k := range a.known {
		if !b.known[k] {
			return false
		}
	}
	return true
}

// shape describes the state with names of its own; it is empty if parts of it
// can not be named.
func (st *State) shape() *form {
	facts := map[string]bool{}
	in := st.in
	ids := map[string]string{}
	var syms []Sym
	fixed := func(tok string) bool {
		if tok[0] == '#' {
			n, _ := strconv.Atoi(tok[1:])
			return n <= in.nbaseKey
		}
		n, _ := strconv.Atoi(tok[2:])
		return n < in.nbase || in.skolems[Sym(n)]
	}
	id := func(tok string) string {
		if fixed(tok) {
			return tok
		}
		k := tok
		if tok[0] != '#' {
			k = tok[1:]
		}
		if _, ok := ids[k]; !ok {
			if k[0] == '#' {
				ids[k] = "#<" + strconv.Itoa(len(ids)) + ">"
			} else {
				ids[k] = "s<" + strconv.Itoa(len(ids)) + ">"
				n, _ := strconv.Atoi(k[1:])
				syms = append(syms, Sym(n))
			}
		}
		if tok[0] == '#' {
			return ids[k]
		}
		return tok[:1] + ids[k]
	}
	known := func(s string) bool {
		all := true
		names(s, func(tok string) string {
			k := tok
			if tok[0] != '#' {
				k = tok[1:]
			}
			if _, ok := ids[k]; !ok && !fixed(tok) {
				all = false
			}
			return ""
		})
		return all
	}
	text := func(s string) string { return names(s, id) }
	var out strings.Builder
	emit := func(s string) { out.WriteString(s + "\n") }

	for i, f := range st.frames {
		emit(fmt.Sprint("frame ", i, f.fn.String(), f.block.Index, f.idx, f.sub))
		var ks []string
		vs := map[string]Value{}
		for v, x := range f.env {
			k := v.Name() + " " + fmt.Sprint(v.Pos())
			if _, dup := vs[k]; dup {
				k += " " + v.String()
			}
			ks = append(ks, k)
			vs[k] = x
		}
		sort.Strings(ks)
		for _, k := range ks {
			if vs[k] != nil {
				emit(k + "=" + text(vs[k].key()))
			}
		}
		for _, d := range f.defers {
			emit("defer " + d.call.Name)
			for _, a := range append(append([]Value{}, d.call.Args...), d.call.Bind...) {
				if a != nil {
					emit(text(a.key()))
				}
			}
			for _, a := range []Value{d.call.Recv, d.call.FnVal} {
				if a != nil {
					emit(text(a.key()))
				}
			}
		}
	}
	for _, k := range sortedKeys(st.gv) {
		if v := st.gv[k]; v != nil {
			emit("gv " + text(k) + "=" + text(v.key()))
		}
	}
	for _, k := range sortedKeys(st.disc) {
		emit("disc " + text(k) + "=" + text(st.disc[k]))
	}
	// cells and facts, as soon as what they are about has a name
	type line struct{ key, val string }
	var todo []line
	add := func(kind, k, v string) { todo = append(todo, line{kind + k, v}) }
	for k, v := range st.heap {
		if v != nil {
			add("heap ", k, v.key())
		}
	}
	for k, q := range st.seqs {
		add("seq ", k, q.key())
	}
	for k, m := range st.maps {
		add("map ", k, m.key())
	}
	for k, T := range st.objT {
		add("type ", k, T.String())
	}
	for k, b := range st.facts {
		add("fact ", k, fmt.Sprint(b))
	}
	for k, b := range in.clean {
		if strings.Contains(k, "#") {
			add("clean ", k, fmt.Sprint(b))
		}
	}
	for k, l := range in.floats {
		if strings.Contains(k, "#") {
			add("float ", k, l.key())
		}
	}
	for k, v := range in.roles {
		if strings.Contains(k, "#") {
			add("role ", k, v)
		}
	}
	for k, s := range in.P.strSrc {
		if strings.Contains(k, "#") {
			add("str ", k, s.q.key()+s.off.key()+s.len.key())
		}
	}
	nsym := 0
	for {
		var ready []line
		rest := todo[:0]
		for _, l := range todo {
			if known(l.key) {
				ready = append(ready, line{text(l.key), l.val})
			} else {
				rest = append(rest, l)
			}
		}
		todo = rest
		sort.Slice(ready, func(i, j int) bool {
			if ready[i].key != ready[j].key {
				return ready[i].key < ready[j].key
			}
			return ready[i].val < ready[j].val
		})
		for _, l := range ready {
			if strings.HasPrefix(l.key, "fact ") || strings.HasPrefix(l.key, "clean ") && l.val == "true" {
				facts[l.key+"="+l.val] = true
			} else if !strings.HasPrefix(l.key, "clean ") {
				emit(l.key + "=" + text(l.val))
			}
		}
		grew := false
		for ; nsym < len(syms); nsym++ {
			s := syms[nsym]
			if int(s) >= len(in.syms.infos) {
				return &form{}
			}
			grew = true
			inf := &in.syms.infos[s]
			l := fmt.Sprint("sym ", ids["s"+strconv.Itoa(int(s))], inf.lo, inf.hi, inf.hasLo, inf.hasHi, inf.bits)
			if strings.Contains(inf.name, "#") {
				l += " " + text(inf.name)
			}
			for _, e := range inf.extra {
				l += " " + text(e.key())
			}
			if d := inf.def; d != nil {
				l += " def " + d.op + " " + text(d.base) + text(d.idx.key()) + text(d.src.key()) + strconv.Itoa(d.n)
				for _, w := range d.wb {
					l += text(w.key())
				}
			}
			emit(l)
		}
		if len(ready) == 0 && !grew {
			break
		}
	}
	// what is known about things nobody can name any more does not matter,
	// but constraints must all be comparable
	for _, c := range st.cons {
		if !known(c.key()) {
			return &form{}
		}
		facts["cons "+text(c.key())] = true
	}
	return &form{out.String(), facts}
}
