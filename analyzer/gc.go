package main

import "strings"

// gc forgets objects and symbols that the analysed code can not reach any
// more.  Forgetting only weakens a state.
func (st *State) gc() {
	in := st.in
	objs := map[string]bool{}
	var work []string
	mark := func(k string) {
		k = rootOf(k)
		if !objs[k] {
			objs[k] = true
			work = append(work, k)
		}
	}
	live := map[Sym]bool{}
	var syms []Sym
	markL := func(l Lin) {
		for _, t := range l.Ts {
			if !live[t.s] {
				live[t.s] = true
				syms = append(syms, t.s)
			}
		}
	}
	seenQ := map[*Seq]bool{}
	var markV func(v Value)
	var markQ func(q *Seq)
	markC := func(c Cond) { markL(c.L) }
	markQ = func(q *Seq) {
		if q == nil || seenQ[q] {
			return
		}
		seenQ[q] = true
		for _, e := range q.log {
			markL(e.off)
			markL(e.n)
			markL(e.srcOff)
			if e.val != nil {
				markV(e.val)
			}
			markQ(e.src)
		}
	}
	markV = func(v Value) {
		switch x := v.(type) {
		case VInt:
			markL(x.L)
		case VBool:
			markC(x.C)
		case VRef:
			mark(x.K)
		case VIface:
			markV(x.V)
		case VSlice:
			mark(x.Obj)
			markL(x.Off)
			markL(x.Len)
			markL(x.Cap)
		case VStr:
			if s, ok := in.syms.get("len(" + x.key() + ")"); ok {
				markL(symL(s))
			}
			if s, ok := in.P.strSrc[x.K]; ok {
				markL(s.off)
				markL(s.len)
				markQ(s.q)
			}
		case VFunc:
			for _, b := range x.Bind {
				markV(b)
			}
		case VStruct:
			for _, b := range x.F {
				markV(b)
			}
		case VTuple:
			for _, b := range x.V {
				markV(b)
			}
		case VElem:
			mark(x.Obj)
			markL(x.Idx)
		case VIter:
			markV(x.M)
		case VSeq:
			markQ(x.Q)
		}
	}
	for _, f := range st.frames {
		for _, v := range f.env {
			markV(v)
		}
		for _, d := range f.defers {
			for _, a := range d.call.Args {
				markV(a)
			}
			for _, a := range d.call.Bind {
				markV(a)
			}
			if d.call.Recv != nil {
				markV(d.call.Recv)
			}
			if d.call.FnVal != nil {
				markV(d.call.FnVal)
			}
		}
	}
	for _, v := range st.gv {
		markV(v)
	}
	// cells by root
	byRoot := map[string][]string{}
	for k, v := range st.heap {
		if !made1(k) {
			markV(v)
			continue
		}
		r := rootOf(k)
		byRoot[r] = append(byRoot[r], k)
	}
	seqsOf, mapsOf := map[string][]string{}, map[string][]string{}
	for k, q := range st.seqs {
		if made1(k) {
			seqsOf[rootOf(k)] = append(seqsOf[rootOf(k)], k)
		} else {
			markQ(q)
		}
	}
	for k, m := range st.maps {
		if made1(k) {
			mapsOf[rootOf(k)] = append(mapsOf[rootOf(k)], k)
		} else {
			for _, e := range m.log {
				markV(e.k)
				if e.v != nil {
					markV(e.v)
				}
			}
		}
	}
	for len(work) > 0 {
		k := work[len(work)-1]
		work = work[:len(work)-1]
		for _, c := range byRoot[k] {
			markV(st.heap[c])
		}
		for _, o := range seqsOf[k] {
			markQ(st.seqs[o])
		}
		for _, o := range mapsOf[k] {
			for _, e := range st.maps[o].log {
				markV(e.k)
				if e.v != nil {
					markV(e.v)
				}
			}
		}
	}
	for r, cs := range byRoot {
		if objs[r] {
			continue
		}
		for _, c := range cs {
			delete(st.heap, c)
		}
		delete(st.objT, r)
	}
	for k := range st.seqs {
		if made1(k) && !objs[rootOf(k)] {
			delete(st.seqs, k)
		}
	}
	for k := range st.maps {
		if made1(k) && !objs[rootOf(k)] {
			delete(st.maps, k)
		}
	}
	// symbols: operands of defined symbols stay
	for len(syms) > 0 {
		s := syms[len(syms)-1]
		syms = syms[:len(syms)-1]
		if int(s) >= len(in.syms.infos) {
			continue
		}
		inf := &in.syms.infos[s]
		for _, e := range inf.extra {
			markL(e)
		}
		if d := inf.def; d != nil {
			markL(d.idx)
			markL(d.src)
			for _, w := range d.wb {
				markL(w)
			}
		}
	}
	dead := func(s Sym) bool { return int(s) >= in.nbase && !live[s] && !in.skolems[s] }
	// equations define dead symbols away, what is left of them is dropped
	for changed := true; changed; {
		changed = false
		neg := map[string]bool{}
		for _, c := range st.cons {
			neg[c.key()] = true
		}
	outer:
		for _, c := range st.cons {
			if !neg[c.neg().key()] {
				continue
			}
			for _, t := range c.Ts {
				if (t.c == 1 || t.c == -1) && dead(t.s) {
					rest := c.addMul(symL(t.s), -t.c)
					val := rest.scale(-t.c)
					for i := range st.cons {
						st.cons[i] = st.cons[i].subst(t.s, val)
					}
					changed = true
					break outer
				}
			}
		}
		if changed {
			ncons, bad := normalize(st.cons)
			if bad {
				st.dead = true
				return
			}
			st.cons = ncons
		}
	}
	// one step of elimination for the others
	for {
		var pick Sym = -1
		for _, c := range st.cons {
			for _, t := range c.Ts {
				if dead(t.s) {
					pick = t.s
				}
			}
		}
		if pick < 0 {
			return
		}
		var p, n, o []Lin
		for _, c := range append(append([]Lin{}, st.cons...), in.syms.ranges(pick)...) {
			switch k := c.coef(pick); {
			case k > 0:
				p = append(p, c)
			case k < 0:
				n = append(n, c)
			default:
				o = append(o, c)
			}
		}
		if len(p)*len(n) <= 64 {
			for _, a := range p {
				for _, b := range n {
					x := cst(0).addMul(a, -b.coef(pick)).addMul(b, a.coef(pick)).tighten()
					if tooBig(x) || x.isConst() && x.K >= 0 {
						continue
					}
					o = append(o, x)
				}
			}
		}
		ncons, bad := normalize(o)
		if bad {
			st.dead = true
			return
		}
		st.cons = ncons
	}
}

// made1: the object came into being while the code was analysed.
func made1(k string) bool { return strings.Contains(k, "#") }

// rootOf is the object a cell of an object of that kind belongs to.
func rootOf(k string) string {
	i := strings.Index(k, "#")
	if i < 0 {
		return k
	}
	if j := strings.IndexAny(k[i:], ".[{|"); j > 0 {
		return k[:i+j]
	}
	return k
}
