package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- loop structure

type loopInfo struct {
	body map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> blocks
}

var loopCache = map[*ssa.Function]*loopInfo{}

func loopsOf(fn *ssa.Function) *loopInfo {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	l := &loopInfo{body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			m := l.body[h]
			if m == nil {
				m = map[*ssa.BasicBlock]bool{h: true}
				l.body[h] = m
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if m[x] {
					continue
				}
				m[x] = true
				stack = append(stack, x.Preds...)
			}
		}
	}
	loopCache[fn] = l
	return l
}

type loopRec struct {
	parts map[string]*loopPart
}

type loopPart struct {
	st      *State
	syms    map[Sym]bool    // symbols introduced by joins of this partition
	refs    map[string]bool // references introduced by joins
	n       int
	apart   int            // states of a turn that were not joined
	relaxed map[string]int // how often a bound was weakened
	seen    []*form        // the states explored from here, up to names
}

func (in *Interp) jump(st *State, to *ssa.BasicBlock) []*State {
	f := st.top()
	from := f.block
	// phis
	var pi int
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	vals := map[*ssa.Phi]Value{}
	n := 0
	for _, i := range to.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		vals[phi] = in.val(st, f, phi.Edges[pi])
		n++
	}
	for p, v := range vals {
		f.env[p] = v
	}
	f.prev, f.block, f.idx = from, to, n
	li := loopsOf(f.fn)
	var left []loopTok
	depth := 0
	for _, g := range st.frames {
		depth += len(g.loops)
	}
	for len(f.loops) > 0 && !li.body[f.loops[len(f.loops)-1].header][to] {
		left = append(left, f.loops[len(f.loops)-1])
		f.loops = f.loops[:len(f.loops)-1]
	}
	if len(left) > 0 {
		in.parked = append(in.parked, parkedState{st, left, depth})
		return nil
	}
	return in.arrive(st)
}

// arrive continues at the start of the current block, joining at the head of
// a loop.
func (in *Interp) arrive(st *State) []*State {
	f := st.top()
	from, to := f.prev, f.block
	body, isHeader := loopsOf(f.fn).body[to]
	if !isHeader {
		return []*State{st}
	}
	if !body[from] || len(f.loops) == 0 || f.loops[len(f.loops)-1].header != to {
		in.ntok++
		f.loops = append(f.loops, loopTok{header: to, id: in.ntok})
		in.loops[in.ntok] = &loopRec{parts: map[string]*loopPart{}}
	}
	// what the body defines is defined again before it is used
	for v := range f.env {
		if i, ok := v.(ssa.Instruction); ok && body[i.Block()] {
			if _, phi := v.(*ssa.Phi); !phi || i.Block() != to {
				delete(f.env, v)
			}
		}
	}
	st.gc()
	if st.dead {
		return nil
	}
	if in.leaves(st, to, body) {
		return []*State{st}
	}
	tok := f.loops[len(f.loops)-1]
	rec := in.loops[tok.id]
	pk := in.partKey(st, to)
	part := rec.parts[pk]
	if part == nil {
		part = &loopPart{st: st.clone(), syms: map[Sym]bool{}, refs: map[string]bool{}}
		part.seen = append(part.seen, st.shape())
		rec.parts[pk] = part
		f.loops[len(f.loops)-1].part, f.loops[len(f.loops)-1].gen = part, 0
		if _, ok := in.turn(st, to); ok {
			f.loops[len(f.loops)-1].part = nil
		}
		return []*State{st}
	}
	in.joins++
	if os.Getenv("UVDEBUG") == "2" {
		fmt.Fprintln(os.Stderr, "join", in.pos(instrPos(to.Instrs[len(to.Instrs)-1])), "n", part.n, "cons", len(st.cons), len(part.st.cons), "heap", len(st.heap), "env", len(st.top().env), pk, "steps", in.steps)
	}
	c := st.shape()
	for _, a := range part.seen {
		if a.covers(c) {
			return nil
		}
	}
	if _, ok := in.turn(st, to); ok && part.apart < 16 {
		// as if the turns were written one after the other
		part.apart++
		part.seen = append(part.seen, c)
		f.loops[len(f.loops)-1].part = nil
		return []*State{st}
	}
	g, changed := in.join(part, st, to)
	if !changed {
		return nil
	}
	part.n++
	if part.n > 60 {
		in.undecided(to.Instrs[len(to.Instrs)-1], "loop does not converge")
		return nil
	}
	if debugLevel == "3" || debugLevel == "4" && part.n > 40 {
		st.dump("in")
		g.dump("joined")
	}
	part.st = g.clone()
	part.seen = append(part.seen, g.shape())
	gt := g.top()
	gt.loops[len(gt.loops)-1].part, gt.loops[len(gt.loops)-1].gen = part, part.n
	return []*State{g}
}

// leaves: the head of the loop does nothing but decide, and it is known that
// this state leaves the loop.
func (in *Interp) leaves(st *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	f := st.top()
	t, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	var cond *ssa.BinOp
	for _, i := range h.Instrs[:len(h.Instrs)-1] {
		switch x := i.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.BinOp:
			if cond != nil || x != t.Cond || x.Op == token.QUO || x.Op == token.REM {
				return false
			}
			cond = x
		default:
			return false
		}
	}
	var v Value
	if cond != nil {
		v = in.binop(st, cond.Op, in.val(st, f, cond.X), in.val(st, f, cond.Y), cond.Type(), cond.X.Type())
	} else {
		v = in.val(st, f, t.Cond)
	}
	b, ok := v.(VBool)
	if !ok {
		return false
	}
	yes, known := st.eval(b.C)
	if !known {
		return false
	}
	to := h.Succs[1]
	if yes {
		to = h.Succs[0]
	}
	return !body[to]
}

func kindOf(v Value) string {
	s := fmt.Sprintf("%T", v)
	switch x := v.(type) {
	case VBool:
		if x.C.Kind == cConst {
			return s + fmt.Sprint(x.C.B)
		}
	case VFunc:
		return s + x.Fn.String()
	}
	return s
}

func (in *Interp) partKey(st *State, h *ssa.BasicBlock) string {
	var sb strings.Builder
	for _, k := range sortedKeys(st.disc) {
		sb.WriteString(k + "=" + st.disc[k] + ";")
	}
	f := st.top()
	if k, ok := in.turn(st, h); ok {
		sb.WriteString("turn " + strconv.FormatInt(k, 10) + ";")
	}
	lists := false // the loop makes a list
	for _, i := range h.Instrs {
		if phi, ok := i.(*ssa.Phi); ok {
			_, isSlice := phi.Type().Underlying().(*types.Slice)
			lists = lists || isSlice
		}
	}
	for _, i := range h.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		sb.WriteString(kindOf(f.env[phi]) + ",")
		if r, ok := f.env[phi].(VRef); ok && in.watched(r) {
			sb.WriteString(r.K + ",")
		}
		if n, ok := f.env[phi].(VInt); ok && lists {
			// before or after the elements the check asks about
			for _, o := range sortedKeys(in.splits) {
				for _, w := range in.splits[o] {
					if st.ge0(n.L.sub(w.at)) {
						sb.WriteString(">")
					} else if st.ge0(w.at.sub(n.L).addK(-1)) {
						sb.WriteString("<")
					} else {
						sb.WriteString("?")
					}
				}
			}
		}
		if l, ok := f.env[phi].(VSlice); ok {
			for _, m := range in.pins {
				if _, has := st.findIn(l, m); has {
					sb.WriteString("has " + m.key() + ",")
				}
			}
		}
	}
	return sb.String()
}

// turn: the loop counts to a small number; its turns are told apart.
func (in *Interp) turn(st *State, h *ssa.BasicBlock) (int64, bool) {
	const most = 4
	f := st.top()
	t, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return 0, false
	}
	cond, ok := t.Cond.(*ssa.BinOp)
	if !ok || cond.Op != token.LSS {
		return 0, false
	}
	x := cond.X
	if a, ok := x.(*ssa.BinOp); ok && a.Op == token.ADD && a.Block() == h {
		x = a.X
	}
	phi, ok := x.(*ssa.Phi)
	if !ok || phi.Block() != h {
		return 0, false
	}
	i, ok := f.env[phi].(VInt)
	if !ok || len(i.L.Ts) > 0 {
		return 0, false
	}
	var y Value
	if c, ok := cond.Y.(*ssa.Const); ok {
		y = in.val(st, f, c)
	} else {
		y = f.env[cond.Y]
	}
	n, ok := y.(VInt)
	if !ok || len(n.L.Ts) > 0 || n.L.K > most || i.L.K < -1 || i.L.K > most {
		return 0, false
	}
	return i.L.K, true
}

// watched: the reference is one of the elements the check asks about.
func (in *Interp) watched(r VRef) bool {
	for _, ws := range in.splits {
		for _, w := range ws {
			if w.v.key() == r.key() {
				return true
			}
		}
	}
	for _, m := range in.members {
		if m.key() == r.key() {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- join

type joiner struct {
	in      *Interp
	part    *loopPart
	a, b    *State
	out     *State
	bind    map[Sym]Lin      // part symbol -> value in b
	rbind   map[string]Value // part reference -> value in b
	pair    map[string]Value // (a,b) -> new value
	news    []newSym
	changed bool
}

type newSym struct {
	s    Sym
	a, b Lin
}

func (in *Interp) join(part *loopPart, b *State, h *ssa.BasicBlock) (*State, bool) {
	a := part.st
	j := &joiner{in: in, part: part, a: a, b: b, out: a.clone(), bind: map[Sym]Lin{}, rbind: map[string]Value{}, pair: map[string]Value{}}
	j.out.tr = b.tr
	top := len(a.frames) - 1
	fa, fb, fo := a.frames[top], b.frames[top], j.out.frames[top]
	fo.prev = fb.prev
	fo.defers = append([]deferred{}, fa.defers...)

	type loc struct {
		va, vb Value
		T      types.Type
		set    func(Value)
	}
	var locs []loc
	var keys []ssa.Value
	for k := range fa.env {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		return keys[i].Name()+fmt.Sprint(keys[i].Pos()) < keys[j].Name()+fmt.Sprint(keys[j].Pos())
	})
	for _, k := range keys {
		vb, ok := fb.env[k]
		if !ok {
			continue
		}
		k := k
		locs = append(locs, loc{fa.env[k], vb, k.Type(), func(v Value) { fo.env[k] = v }})
	}
	hk := map[string]bool{}
	for k := range a.heap {
		hk[k] = true
	}
	for k := range b.heap {
		hk[k] = true
	}
	for _, k := range sortedKeys(hk) {
		va, oka := a.heap[k]
		vb, okb := b.heap[k]
		if !oka {
			if isNew(k) {
				continue // allocated in the loop, or zero cell of an older object
			}
			T, ok := in.cellType(b, k)
			if !ok {
				continue
			}
			va = in.symbolic(k, T)
			if va.key() == vb.key() {
				continue
			}
		}
		if !okb {
			continue
		}
		k := k
		T, _ := in.cellType(a, k)
		if T == nil {
			T, _ = in.cellType(b, k)
		}
		locs = append(locs, loc{va, vb, T, func(v Value) { j.out.heap[k] = v }})
	}
	// zero cells of objects that exist in a
	for _, k := range sortedKeys(b.heap) {
		if _, ok := a.heap[k]; ok || !isNew(k) {
			continue
		}
		root := k
		if i := strings.IndexAny(root, ".["); i > 0 {
			root = root[:i]
		}
		if _, ok := a.objT[root]; !ok {
			continue
		}
		T, ok := in.cellType(b, k)
		if !ok {
			continue
		}
		k := k
		locs = append(locs, loc{zeroValue(T), b.heap[k], T, func(v Value) { j.out.heap[k] = v }})
	}
	for _, k := range sortedKeys(a.gv) {
		vb, ok := b.gv[k]
		if !ok {
			continue
		}
		k := k
		locs = append(locs, loc{a.gv[k], vb, nil, func(v Value) { j.out.gv[k] = v }})
	}
	// elements a check asks about keep their place in lists that grow
	for i := range locs {
		x, ok := locs[i].va.(VSlice)
		y, ok2 := locs[i].vb.(VSlice)
		if !ok || !ok2 || x.Obj == y.Obj {
			continue
		}
		for _, m := range in.pins {
			ia, oka := a.findIn(x, m)
			ib, okb := b.findIn(y, m)
			clean := oka == okb && a.cleanSlice(x, m) && b.cleanSlice(y, m)
			set, m := locs[i].set, m
			has := oka && okb
			var r VSlice
			locs[i].set = func(v Value) {
				r, _ = v.(VSlice)
				set(v)
			}
			locs = append(locs, loc{VInt{ia}, VInt{ib}, nil, func(v Value) {
				if r.Obj == "" || r.Obj == x.Obj && !part.refs[x.Obj] {
					return
				}
				base, q := r.Obj, a.seqs[x.Obj]
				if r.Obj != x.Obj {
					in.clean[cleanKey(base, m)] = clean
				} else {
					if q != nil {
						base = q.base
					}
					if in.clean[cleanKey(base, m)] && !clean {
						base = in.freshKey("joinseq")
						part.refs["seq:"+base] = true
						j.changed = true
					}
				}
				nq := &Seq{base: base, elem: r.T.Underlying().(*types.Slice).Elem()}
				if has {
					l := v.(VInt).L
					for _, t := range l.Ts {
						if part.syms[t.s] {
							in.skolems[t.s] = true
						}
					}
					nq = nq.with(seqEntry{off: r.Off.add(l), n: cst(1), val: m})
				} else if oka && r.Obj == x.Obj {
					j.changed = true
				}
				j.out.seqs[r.Obj] = nq
			}})
		}
	}
	// first the plain bound symbols, then everything else
	for _, l := range locs {
		j.bindAll(l.va, l.vb)
	}
	for _, l := range locs {
		l.set(j.merge(l.va, l.vb, l.T))
	}
	// contents
	for _, k := range sortedKeys(a.seqs) {
		qb, ok := b.seqs[k]
		if !ok || qb == a.seqs[k] || qb.key() == a.seqs[k].key() {
			continue
		}
		if nq, same := j.copied(a.seqs[k], qb); nq != nil {
			if !same {
				j.out.seqs[k] = nq
				j.changed = true
			}
			continue
		}
		var kept []seqEntry
		for _, m := range in.pins {
			ia, oka := a.placeOf(a.seqs[k], m)
			ib, okb := b.placeOf(qb, m)
			if oka && okb && b.eq0(j.toB(ia).sub(ib)) {
				kept = append(kept, seqEntry{off: ia, n: cst(1), val: m})
			}
		}
		was, is := true, true
		for _, m := range in.pins {
			was = was && in.clean[cleanKey(a.seqs[k].base, m)]
			is = is && a.cleanSeq(a.seqs[k], m, 0) && b.cleanSeq(qb, m, 0)
		}
		if part.refs["seq:"+a.seqs[k].base] && len(a.seqs[k].log) == len(kept) && (is || !was) {
			continue
		}
		nk := in.freshKey("joinseq")
		part.refs["seq:"+nk] = true
		for _, m := range in.pins {
			in.clean[cleanKey(nk, m)] = is
		}
		nq := &Seq{base: nk, elem: a.seqs[k].elem}
		for _, e := range kept {
			nq = nq.with(e)
		}
		j.out.seqs[k] = nq
		j.changed = true
	}
	for _, k := range sortedKeys(b.seqs) {
		if _, ok := a.seqs[k]; ok || isNew(k) && a.objT[k] == nil {
			continue
		}
		qb := b.seqs[k]
		if len(qb.log) == 0 && (qb.base == k || qb.zero) {
			continue
		}
		if nq, _ := j.copied(&Seq{base: k, elem: qb.elem, zero: isNew(k)}, qb); nq != nil {
			j.out.seqs[k] = nq
			j.changed = true
			continue
		}
		nk := in.freshKey("joinseq")
		part.refs["seq:"+nk] = true
		j.out.seqs[k] = &Seq{base: nk, elem: qb.elem}
		j.changed = true
	}
	for _, k := range sortedKeys(b.maps) {
		ma, ok := a.maps[k]
		if !ok {
			if isNew(k) {
				continue
			}
			ma = &MapC{base: k}
		}
		if b.maps[k].key() == ma.key() {
			continue
		}
		if part.refs["map:"+ma.base] && len(ma.log) == 0 {
			continue
		}
		nk := in.freshKey("joinmap")
		part.refs["map:"+nk] = true
		j.out.maps[k] = &MapC{base: nk}
		j.changed = true
	}
	// facts
	for _, k := range sortedKeys(a.facts) {
		v := a.facts[k]
		if vb, ok := b.facts[k]; ok && vb == v {
			continue
		}
		if strings.HasPrefix(k, "nil:") && part.refs[k[4:]] {
			if bv, ok := j.rbind[k[4:]]; ok {
				if r, known := b.eval(b.nilCond(bv)); known && r == v {
					continue
				}
			} else {
				continue // unused
			}
		}
		delete(j.out.facts, k)
		j.changed = true
	}
	// constraints of a that survive
	var keep []Lin
	for _, c := range a.cons {
		cb := j.toB(c)
		if b.ge0(cb) {
			keep = append(keep, c)
			continue
		}
		j.changed = true
		form := c.addK(-c.K).key()
		lim := 7
		if part.n > 6 {
			lim = 2
		}
		if part.relaxed == nil {
			part.relaxed = map[string]int{}
		}
		if part.relaxed[form]++; part.relaxed[form] > lim {
			if z := c.addK(-c.K); c.K < 0 && b.ge0(j.toB(z)) {
				keep = append(keep, z)
			}
			continue
		}
		// the weaker form that holds in both
		if lb, ok := b.lb(cb); ok && lb < 0 && lb >= -64 {
			keep = append(keep, c.addK(-lb))
		}
	}
	j.out.cons = keep
	// what was assumed about the initial values holds for ever
	for _, c := range in.base {
		if !j.out.ge0(c) {
			j.out.cons = append(j.out.cons, c)
		}
	}
	j.templates()
	if part.n > 25 && j.changed {
		// give up precision
	}
	return j.out, j.changed
}

// elemOf: the value is an element of the symbolic array base.
func (in *Interp) elemOf(v Value) (string, Lin, bool) {
	switch x := v.(type) {
	case VInt:
		if s, ok := single(x.L); ok {
			if d := in.syms.infos[s].def; d != nil && d.op == "elem" {
				return d.base, d.idx, true
			}
		}
	case VRef:
		if e, ok := in.elems[x.K]; ok && x.Path == "" {
			return e.base, e.idx, true
		}
	}
	return "", Lin{}, false
}

// copied joins the contents of an array into which a loop copies one element
// per turn: what was copied so far is one region whose length is counted by a
// variable of the loop.
func (j *joiner) copied(qa, qb *Seq) (*Seq, bool) {
	if len(j.in.pins) > 0 || len(qb.log) == 0 {
		return nil, false
	}
	n := len(qb.log) - 1
	e := qb.log[n]
	val := e.val
	if val == nil && e.n.equal(cst(1)) {
		if rs := j.b.clone().seqRead(e.src, e.srcOff); len(rs) == 1 {
			val = rs[0].v
		}
	}
	if val == nil {
		return nil, false
	}
	base, idx, ok := j.in.elemOf(val)
	if !ok {
		return nil, false
	}
	rest := &Seq{base: qb.base, zero: qb.zero, elem: qb.elem, log: qb.log[:n]}
	if rest.key() != qa.key() {
		return nil, false
	}
	fixed := func(l Lin) bool { return j.toB(l).equal(l) }
	if m := len(qa.log) - 1; m >= 0 && qa.log[m].src != nil && qa.log[m].src.base == base && len(qa.log[m].src.log) == 0 && !qa.log[m].src.zero {
		r := qa.log[m]
		if fixed(r.off) && fixed(r.srcOff) && j.b.eq0(e.off.sub(r.off).sub(r.n)) && j.b.eq0(idx.sub(r.srcOff).sub(r.n)) && j.b.eq0(j.toB(r.n).sub(r.n).addK(-1)) {
			return qa, true
		}
	}
	if !fixed(e.off) || !fixed(idx) {
		return nil, false
	}
	for _, x := range j.news {
		if !x.b.sub(x.a).equal(cst(1)) || !fixed(x.a) {
			continue
		}
		return qa.with(seqEntry{off: e.off, n: symL(x.s).sub(x.a), src: &Seq{base: base, elem: qa.elem}, srcOff: idx}), false
	}
	return nil, false
}

// bindAll notes what the symbols of earlier joins stand for in b.
func (j *joiner) bindAll(a, b Value) {
	lin := func(x, y Lin) {
		if s, ok := single(x); ok && j.part.syms[s] {
			if _, dup := j.bind[s]; !dup {
				j.bind[s] = y
			}
		}
	}
	switch x := a.(type) {
	case VInt:
		if y, ok := b.(VInt); ok {
			lin(x.L, y.L)
		}
	case VSlice:
		if y, ok := b.(VSlice); ok {
			lin(x.Off, y.Off)
			lin(x.Len, y.Len)
			lin(x.Cap, y.Cap)
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(x.F) == len(y.F) {
			for i := range x.F {
				j.bindAll(x.F[i], y.F[i])
			}
		}
	case VRef:
		if j.part.refs[x.K] && x.Path == "" && b != nil {
			if _, dup := j.rbind[x.K]; !dup {
				j.rbind[x.K] = b
			}
		}
	}
}

func (j *joiner) toB(l Lin) Lin {
	for _, t := range l.Ts {
		if v, ok := j.bind[t.s]; ok {
			l = l.subst(t.s, v)
		}
	}
	return l
}

func (j *joiner) merge(a, b Value, T types.Type) Value {
	if a == nil || b == nil {
		return a
	}
	if x, ok := a.(VInt); ok {
		if y, ok := b.(VInt); ok {
			return VInt{j.mergeInt(x.L, y.L)}
		}
	}
	if a.key() == b.key() {
		return a
	}
	pk := a.key() + "\x00" + b.key()
	if v, ok := j.pair[pk]; ok {
		return v
	}
	switch x := a.(type) {
	case VSlice:
		if y, ok := b.(VSlice); ok {
			r := VSlice{Obj: x.Obj, T: x.T}
			if x.Obj != y.Obj {
				if j.part.refs[x.Obj] {
					r.Obj = x.Obj
					if j.in.made[x.Obj] && !j.in.isMade(y.Obj) {
						j.in.made[x.Obj] = false
						j.changed = true
					}
				} else {
					r.Obj = j.in.freshKey("joinobj")
					j.in.made[r.Obj] = j.in.isMade(x.Obj) && j.in.isMade(y.Obj)
					j.part.refs[r.Obj] = true
					j.changed = true
				}
			}
			r.Off, r.Len, r.Cap = j.mergeInt(x.Off, y.Off), j.mergeInt(x.Len, y.Len), j.mergeInt(x.Cap, y.Cap)
			return r
		}
	case VStruct:
		if y, ok := b.(VStruct); ok && len(y.F) == len(x.F) {
			r := VStruct{T: x.T}
			for i := range x.F {
				r.F = append(r.F, j.merge(x.F[i], y.F[i], nil))
			}
			return r
		}
	case VTuple:
		if y, ok := b.(VTuple); ok && len(y.V) == len(x.V) {
			r := VTuple{}
			for i := range x.V {
				r.V = append(r.V, j.merge(x.V[i], y.V[i], nil))
			}
			return r
		}
	case VIface:
		if y, ok := b.(VIface); ok && types.Identical(x.Dyn, y.Dyn) {
			return VIface{Dyn: x.Dyn, V: j.merge(x.V, y.V, x.Dyn)}
		}
	case VRef:
		if j.part.refs[x.K] && x.Path == "" {
			if v, ok := j.rbind[x.K]; ok && v.key() == b.key() {
				return a
			}
		}
	case VBool:
		if x.C.Kind == cAtom && j.part.refs[x.C.A] {
			return a
		}
	case VStr:
		if j.part.refs[x.K] {
			return a
		}
	case VUnk:
		if j.part.refs[x.K] {
			return a
		}
	}
	if T == nil {
		switch x := a.(type) {
		case VRef:
			T = x.T
		case VNil:
			T = x.T
		case VSlice:
			T = x.T
		case VBool:
			T = types.Typ[types.Bool]
		case VStr:
			T = types.Typ[types.String]
		case VInt:
			T = types.Typ[types.Int]
		}
	}
	if T == nil {
		switch x := b.(type) {
		case VRef:
			T = x.T
		}
	}
	j.changed = true
	if T == nil {
		k := j.in.freshKey("join")
		j.part.refs[k] = true
		return VUnk{K: k}
	}
	k := j.in.freshKey("join")
	v := j.in.symbolic(k, T)
	j.part.refs[k] = true
	switch r := v.(type) {
	case VRef:
		na, ka := j.a.eval(j.a.nilCond(a))
		nb, kb := j.b.eval(j.b.nilCond(b))
		if ka && kb && na == nb {
			j.out.facts["nil:"+r.K] = na
		}
		j.rbind[r.K] = b
	case VInt:
		s, _ := single(r.L)
		j.part.syms[s] = true
	}
	j.pair[pk] = v
	return v
}

// isMade: the array was made by the code interpreted, on every way here.
func (in *Interp) isMade(obj string) bool { return isNew(obj) || in.made[obj] }

func (j *joiner) mergeInt(a, b Lin) Lin {
	if a.equal(b) {
		// the bound symbol keeps its name but may have another value in b
		if j.toB(a).equal(b) {
			return a
		}
	}
	if s, ok := single(a); ok && j.part.syms[s] {
		if v, ok := j.bind[s]; ok && (v.equal(b) || j.b.eq0(v.sub(b))) {
			return a
		}
	} else if j.b.eq0(j.toB(a).sub(b)) {
		return a
	}
	// keep the contribution of skolem symbols
	var keep Lin
	for s := range j.in.skolems {
		if c := a.coef(s); c != 0 && c == b.coef(s) {
			keep = keep.addMul(symL(s), c)
		}
	}
	pk := "int" + a.key() + "\x00" + b.key()
	if v, ok := j.pair[pk]; ok {
		return v.(VInt).L
	}
	s := j.in.syms.mk(j.in.freshKey("j"))
	j.in.syms.infos[s].bits = 64
	j.part.syms[s] = true
	j.changed = true
	j.news = append(j.news, newSym{s, a.sub(keep), b.sub(keep)})
	r := symL(s).add(keep)
	j.pair[pk] = VInt{r}
	return r
}

// templates derives the difference bounds of the new symbols that hold on
// both sides of the join.
func (j *joiner) templates() {
	if len(j.news) == 0 {
		return
	}
	type tm struct{ o, a, b Lin }
	ts := []tm{{cst(0), cst(0), cst(0)}}
	seen := map[Sym]bool{}
	addSym := func(s Sym) {
		if seen[s] {
			return
		}
		seen[s] = true
		ts = append(ts, tm{symL(s), symL(s), j.toB(symL(s))})
	}
	addL := func(l Lin) {
		for _, t := range l.Ts {
			addSym(t.s)
		}
	}
	for _, n := range j.news {
		seen[n.s] = true
		ts = append(ts, tm{symL(n.s), n.a, n.b})
		addL(n.a)
	}
	for _, c := range j.a.cons {
		addL(c)
	}
	for s := range j.in.skolems {
		addSym(s)
	}
	top := j.a.frames[len(j.a.frames)-1]
	var vk []string
	byK := map[string]Value{}
	for k, v := range top.env {
		s := k.Name()
		byK[s] = v
		vk = append(vk, s)
	}
	sort.Strings(vk)
	for _, k := range vk {
		switch x := byK[k].(type) {
		case VInt:
			addL(x.L)
		case VSlice:
			addL(x.Len)
			addL(x.Cap)
			addL(x.Off)
		}
	}
	for _, c := range j.b.cons {
		for _, t := range c.Ts {
			if !j.part.syms[t.s] {
				addSym(t.s)
			}
		}
	}
	if len(ts) > 48 {
		ts = ts[:48]
	}
	// compound values kept in memory
	seenE := map[string]bool{}
	addE := func(l Lin) {
		if len(l.Ts) > 1 && !seenE[l.key()] && len(seenE) < 12 {
			seenE[l.key()] = true
			ts = append(ts, tm{l, l, j.toB(l)})
		}
	}
	for _, k := range sortedKeys(j.a.heap) {
		switch x := j.a.heap[k].(type) {
		case VInt:
			if y, ok := j.b.heap[k].(VInt); ok && len(x.L.Ts) > 1 && j.b.eq0(y.L.sub(j.toB(x.L))) {
				addE(x.L)
			}
		case VSlice:
			if y, ok := j.b.heap[k].(VSlice); ok && len(x.Len.Ts) > 1 && j.b.eq0(y.Len.sub(j.toB(x.Len))) {
				addE(x.Len)
			}
		}
	}
	// values that move by the same or the opposite distance
	for i, n := range j.news {
		for _, m := range j.news[:i] {
			for _, sg := range []int64{-1, 1} {
				ra := n.a.addMul(m.a, sg)
				if sg < 0 {
					// a constant distance is a pair template
					lo, ok := j.a.lb(ra)
					hi, ok2 := j.a.lb(ra.neg())
					if ok && ok2 && lo == -hi {
						continue
					}
				}
				d := n.b.addMul(m.b, sg).sub(j.toB(ra))
				if d.isConst() && d.K != 0 || !j.b.eq0(d) {
					continue
				}
				c := symL(n.s).addMul(symL(m.s), sg).sub(ra)
				for _, x := range []Lin{c, c.neg()} {
					if !j.out.ge0(x) {
						j.out.cons = append(j.out.cons, x)
					}
				}
			}
		}
	}
	for _, n := range j.news {
		for _, t := range ts {
			if t.o.coef(n.s) != 0 {
				continue
			}
			for _, sg := range []int64{1, -1} {
				ea := n.a.sub(t.a).scale(sg)
				eb := n.b.sub(t.b).scale(sg)
				la, oka := j.a.lb(ea)
				if !oka {
					continue
				}
				lb, okb := j.b.lb(eb)
				if !okb {
					continue
				}
				if lb < la {
					la = lb
				}
				if la <= -linBig || la >= linBig {
					continue
				}
				if len(t.o.Ts) > 0 && (la < -1<<24 || la > 1<<24) {
					continue // follows from the ranges
				}
				c := symL(n.s).sub(t.o).scale(sg).addK(-la)
				// bounds by skolems are kept even where they follow from
				// symbols that may be forgotten before the next join
				// and so is the sign: it may follow only from bounds that will
				// be relaxed
				if sk, one := single(t.o); one && j.in.skolems[sk] || t.o.isConst() && sg == 1 && la == 0 || !j.out.ge0(c) {
					j.out.cons = append(j.out.cons, c)
				}
			}
		}
	}
}
