package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- contents

type seqEntry struct {
	off, n Lin
	val    Value // single element
	src    *Seq  // copied region
	srcOff Lin
}

// Seq is the immutable content of the backing array of a slice.
type Seq struct {
	base string // symbolic initial content
	zero bool
	elem types.Type
	log  []seqEntry
}

func (q *Seq) with(e seqEntry) *Seq {
	n := &Seq{base: q.base, zero: q.zero, elem: q.elem}
	n.log = append(append(make([]seqEntry, 0, len(q.log)+1), q.log...), e)
	return n
}

func (q *Seq) key() string {
	var sb strings.Builder
	if q.zero {
		sb.WriteString("0")
	} else {
		sb.WriteString(q.base)
	}
	for _, e := range q.log {
		sb.WriteString(";" + e.off.key() + "," + e.n.key() + "=")
		if e.val != nil {
			sb.WriteString(e.val.key())
		} else {
			sb.WriteString("<" + e.src.key() + "@" + e.srcOff.key() + ">")
		}
	}
	return sb.String()
}

type mapEntry struct {
	k, v Value
	del  bool
}

type MapC struct {
	base  string
	empty bool
	log   []mapEntry
}

func (m *MapC) with(e mapEntry) *MapC {
	n := &MapC{base: m.base, empty: m.empty}
	n.log = append(append(make([]mapEntry, 0, len(m.log)+1), m.log...), e)
	return n
}
func (m *MapC) key() string {
	var sb strings.Builder
	if m.empty {
		sb.WriteString("{}")
	} else {
		sb.WriteString(m.base)
	}
	for _, e := range m.log {
		if e.del {
			sb.WriteString(";del " + e.k.key())
		} else {
			sb.WriteString(";" + e.k.key() + "=" + e.v.key())
		}
	}
	return sb.String()
}

// ---------------------------------------------------------------- state

type deferred struct {
	instr *ssa.Defer
	call  *CallInfo
}

type loopTok struct {
	header *ssa.BasicBlock
	id     int
	part   *loopPart // the partition this iteration started from
	gen    int       // and how often it had been joined
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	defers []deferred
	loops  []loopTok
	res    ssa.Value // value in the caller that receives the result (may be nil)
	sub    bool      // a deferred call: the caller instruction is repeated
	post   int       // index of the model continuation

}

type traceNode struct {
	up  *traceNode
	msg string
}

type State struct {
	in     *Interp
	frames []*Frame
	heap   map[string]Value
	seqs   map[string]*Seq
	maps   map[string]*MapC
	objT   map[string]types.Type
	cons   []Lin
	facts  map[string]bool
	disc   map[string]string
	gv     map[string]Value
	tr     *traceNode
	dead   bool
}

func (in *Interp) newState() *State {
	return &State{in: in, heap: map[string]Value{}, seqs: map[string]*Seq{}, maps: map[string]*MapC{},
		objT: map[string]types.Type{}, facts: map[string]bool{}, disc: map[string]string{}, gv: map[string]Value{}}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m)+4)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (st *State) clone() *State {
	n := &State{in: st.in, heap: cp(st.heap), seqs: cp(st.seqs), maps: cp(st.maps), objT: cp(st.objT),
		facts: cp(st.facts), disc: cp(st.disc), gv: cp(st.gv), tr: st.tr}
	n.cons = append(make([]Lin, 0, len(st.cons)+4), st.cons...)
	for _, f := range st.frames {
		g := *f
		g.env = cp(f.env)
		g.defers = append([]deferred{}, f.defers...)
		g.loops = append([]loopTok{}, f.loops...)
		n.frames = append(n.frames, &g)
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) note(pos token.Pos, format string, a ...interface{}) {
	st.tr = &traceNode{st.tr, st.in.pos(pos) + ": " + fmt.Sprintf(format, a...)}
}

func (st *State) trace() []string {
	var out []string
	for n := st.tr; n != nil; n = n.up {
		out = append(out, n.msg)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---------------------------------------------------------------- numeric facts

func (st *State) withRanges(cs []Lin, q ...Lin) []Lin {
	seen := map[Sym]bool{}
	var todo []Sym
	push := func(l Lin) {
		for _, t := range l.Ts {
			if !seen[t.s] {
				seen[t.s] = true
				todo = append(todo, t.s)
			}
		}
	}
	for _, c := range q {
		push(c)
	}
	used := make([]bool, len(cs))
	var out []Lin
	for len(todo) > 0 {
		s := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, r := range st.in.syms.ranges(s) {
			out = append(out, r)
			push(r)
		}
		for i, c := range cs {
			if !used[i] && c.coef(s) != 0 {
				used[i] = true
				out = append(out, c)
				push(c)
			}
		}
	}
	return out
}

func (st *State) ge0(l Lin) bool {
	if l.isConst() {
		return l.K >= 0
	}
	return entails(st.withRanges(st.cons, l), l)
}
func (st *State) eq0(l Lin) bool {
	if l.isConst() {
		return l.K == 0
	}
	return st.ge0(l) && st.ge0(l.neg())
}
func (st *State) lb(l Lin) (int64, bool) {
	return lowerBound(st.withRanges(st.cons, l), l)
}

// addGE adds l >= 0; false if it contradicts.
func (st *State) addGE(l Lin) bool {
	if l.isConst() {
		if l.K < 0 {
			st.dead = true
		}
		return l.K >= 0
	}
	if st.ge0(l) {
		return true
	}
	if st.ge0(l.neg().addK(-1)) {
		st.dead = true
		return false
	}
	st.cons = append(st.cons, l)
	return true
}
func (st *State) addEQ(l Lin) bool { return st.addGE(l) && st.addGE(l.neg()) }

// ---------------------------------------------------------------- conditions

// eval returns (value, known).
func (st *State) eval(c Cond) (bool, bool) {
	switch c.Kind {
	case cConst:
		return c.B, true
	case cGE:
		if st.ge0(c.L) {
			return c.B, true
		}
		if st.ge0(c.L.neg().addK(-1)) {
			return !c.B, true
		}
	case cEQ:
		if st.eq0(c.L) {
			return c.B, true
		}
		if st.ge0(c.L.addK(-1)) || st.ge0(c.L.neg().addK(-1)) {
			return !c.B, true
		}
	case cAtom:
		if v, ok := st.facts[c.A]; ok {
			return v == c.B, true
		}
	}
	return false, false
}

// assume returns the states in which c holds (two for a disequality).
func (st *State) assume(c Cond) []*State {
	if v, known := st.eval(c); known {
		if v {
			return []*State{st}
		}
		return nil
	}
	switch c.Kind {
	case cGE:
		l := c.L
		if !c.B {
			l = l.neg().addK(-1)
		}
		if st.addGE(l) {
			return []*State{st}
		}
		return nil
	case cEQ:
		if c.B {
			if st.addEQ(c.L) {
				return []*State{st}
			}
			return nil
		}
		var out []*State
		o := st.clone()
		if st.addGE(c.L.addK(-1)) {
			out = append(out, st)
		}
		if o.addGE(c.L.neg().addK(-1)) {
			out = append(out, o)
		}
		return out
	case cAtom:
		st.facts[c.A] = c.B
		if c.B && strings.HasPrefix(c.A, "nil:") {
			k := c.A[4:]
			for _, sfx := range []string{"#len", "#cap"} {
				if s, ok := st.in.syms.get(k + sfx); ok {
					if !st.addEQ(symL(s)) {
						return nil
					}
				}
			}
		}
		return []*State{st}
	}
	return nil
}

// split returns the states where c holds and those where it does not.
func (st *State) split(c Cond) (yes, no []*State) {
	if v, known := st.eval(c); known {
		if v {
			return []*State{st}, nil
		}
		return nil, []*State{st}
	}
	o := st.clone()
	return st.assume(c), o.assume(c.not())
}

func isNew(k string) bool { return strings.HasPrefix(k, "new#") }

func (st *State) nilCond(v Value) Cond {
	switch x := v.(type) {
	case VNil:
		return boolC(true)
	case VRef:
		if x.Path != "" || isNew(x.K) || strings.HasPrefix(x.K, "global:") {
			return boolC(false)
		}
		return atomC("nil:" + x.K)
	case VSlice:
		if isNew(x.Obj) {
			return boolC(false)
		}
		if st.ge0(x.Len.addK(-1)) {
			return boolC(false)
		}
		return atomC("nil:" + x.Obj)
	case VUnk:
		return atomC("nil:" + x.K)
	}
	return boolC(false)
}

func orderedAtom(op, a, b string) Cond {
	if a > b {
		a, b = b, a
	}
	return atomC(op + ":" + a + "|" + b)
}

// initial reports whether the reference existed before the analysed code ran.
func initial(k string) bool {
	return !isNew(k) && !strings.Contains(k, "#")
}

func (st *State) eqCond(a, b Value) Cond {
	if a.key() == b.key() {
		return boolC(true)
	}
	if _, ok := a.(VNil); ok {
		return st.nilCond(b)
	}
	if _, ok := b.(VNil); ok {
		return st.nilCond(a)
	}
	switch x := a.(type) {
	case VInt:
		if y, ok := b.(VInt); ok {
			d := x.L.sub(y.L)
			if d.isConst() {
				return boolC(d.K == 0)
			}
			return eqC(d)
		}
	case VBool:
		if y, ok := b.(VBool); ok {
			if x.C.Kind == cConst {
				if x.C.B {
					return y.C
				}
				return y.C.not()
			}
			if y.C.Kind == cConst {
				if y.C.B {
					return x.C
				}
				return x.C.not()
			}
		}
	case VStr:
		if y, ok := b.(VStr); ok && x.Const != nil && y.Const != nil {
			return boolC(*x.Const == *y.Const)
		}
	case VRef:
		if y, ok := b.(VRef); ok {
			if isNew(x.K) && isNew(y.K) {
				return boolC(false)
			}
			if isNew(x.K) && initial(y.K) || isNew(y.K) && initial(x.K) {
				return boolC(false)
			}
			if da, ok := st.in.elems[x.K]; ok && x.Path == "" && y.Path == "" {
				if db, ok := st.in.elems[y.K]; ok && da.base == db.base && st.eq0(da.idx.sub(db.idx)) {
					return boolC(true)
				}
			}
		}
		if y, ok := b.(VIface); ok {
			if r, ok := y.V.(VRef); ok && isNew(r.K) && initial(x.K) {
				return boolC(false)
			}
		}
	case VIface:
		if y, ok := b.(VIface); ok {
			if !types.Identical(x.Dyn, y.Dyn) {
				return boolC(false)
			}
			return st.eqCond(x.V, y.V)
		}
		if _, ok := b.(VRef); ok {
			return st.eqCond(b, a)
		}
	}
	return orderedAtom("eq", a.key(), b.key())
}

// same: provably equal values.
func (st *State) same(a, b Value) bool {
	if a == nil || b == nil {
		return false
	}
	if a.key() == b.key() {
		return true
	}
	if x, ok := a.(VInt); ok {
		if y, ok := b.(VInt); ok {
			if st.eq0(x.L.sub(y.L)) {
				return true
			}
			return st.congruent(x.L, y.L)
		}
	}
	if x, ok := a.(VSlice); ok {
		if y, ok := b.(VSlice); ok {
			return x.Obj == y.Obj && st.eq0(x.Off.sub(y.Off)) && st.eq0(x.Len.sub(y.Len))
		}
	}
	if x, ok := a.(VStruct); ok {
		if y, ok := b.(VStruct); ok && len(x.F) == len(y.F) {
			for i := range x.F {
				if !st.same(x.F[i], y.F[i]) {
					return false
				}
			}
			return true
		}
	}
	v, known := st.eval(st.eqCond(a, b))
	return known && v
}

// congruent: the same operator applied to provably equal operands.
func (st *State) congruent(a, b Lin) bool {
	sa, ok1 := single(a)
	sb, ok2 := single(b)
	if !ok1 || !ok2 {
		return false
	}
	da, db := st.in.syms.infos[sa].def, st.in.syms.infos[sb].def
	if da == nil || db == nil || da.op != db.op {
		return false
	}
	switch da.op {
	case "elem":
		return da.base == db.base && st.eq0(da.idx.sub(db.idx))
	case "byte":
		return da.n == db.n && (st.eq0(da.src.sub(db.src)) || st.congruent(da.src, db.src))
	case "word":
		if len(da.wb) != len(db.wb) {
			return false
		}
		for i := range da.wb {
			if !st.eq0(da.wb[i].sub(db.wb[i])) && !st.congruent(da.wb[i], db.wb[i]) {
				return false
			}
		}
		return true
	}
	return da.base == db.base && da.n == db.n && st.eq0(da.idx.sub(db.idx)) && st.eq0(da.src.sub(db.src))
}

// ---------------------------------------------------------------- memory

// symbolic makes the value of type T named k.
func (in *Interp) symbolic(k string, T types.Type) Value {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{atomC(k)}
		case u.Info()&types.IsInteger != 0:
			return VInt{symL(in.syms.mkTyped(k, T, in.sizes))}
		case u.Info()&types.IsString != 0:
			return VStr{K: k}
		}
		return VUnk{K: k, T: T}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = in.symbolic(k+"."+u.Field(i).Name(), u.Field(i).Type())
		}
		return VStruct{T: T, F: f}
	case *types.Slice:
		l := in.lenSym(k + "#len")
		_, had := in.syms.get(k + "#cap")
		c := in.lenSym(k + "#cap")
		if !had {
			in.syms.infos[c].extra = append(in.syms.infos[c].extra, symL(c).sub(symL(l)))
		}
		return VSlice{Obj: k, Off: cst(0), Len: symL(l), Cap: symL(c), T: T}
	case *types.Tuple:
		f := make([]Value, u.Len())
		for i := range f {
			f[i] = in.symbolic(fmt.Sprintf("%s.%d", k, i), u.At(i).Type())
		}
		return VTuple{f}
	case *types.Array:
		return VUnk{K: k, T: T}
	}
	return VRef{K: k, T: T}
}

const maxLen = int64(1) << 31

func (in *Interp) lenSym(k string) Sym {
	s := in.syms.mk(k)
	i := &in.syms.infos[s]
	i.hasLo, i.lo, i.hasHi, i.hi, i.bits = true, 0, true, maxLen-1, 64
	return s
}

func (in *Interp) fresh(prefix string, T types.Type) Value {
	in.nfresh++
	return in.symbolic(fmt.Sprintf("%s#%d", prefix, in.nfresh), T)
}

func (in *Interp) freshKey(prefix string) string {
	in.nfresh++
	return fmt.Sprintf("%s#%d", prefix, in.nfresh)
}

func (st *State) alloc(T types.Type) string {
	k := st.in.freshKey("new")
	st.objT[k] = T
	return k
}

func structOf(T types.Type) (*types.Struct, bool) {
	s, ok := T.Underlying().(*types.Struct)
	return s, ok
}

func deref(T types.Type) types.Type {
	if p, ok := T.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return T
}

// load reads the value of type T at (k, path).
func (st *State) load(k, path string, T types.Type) Value {
	if s, ok := structOf(T); ok {
		if v, ok := st.heap[k+path]; ok { // opaque whole-struct cell
			return v
		}
		f := make([]Value, s.NumFields())
		for i := range f {
			f[i] = st.load(k, path+"."+s.Field(i).Name(), s.Field(i).Type())
		}
		return VStruct{T: T, F: f}
	}
	if v, ok := st.heap[k+path]; ok {
		return v
	}
	var v Value
	if isNew(k) {
		v = zeroValue(T)
		if _, isArr := T.Underlying().(*types.Array); isArr {
			v = VUnk{K: k + path, T: T}
		}
	} else {
		v = st.in.symbolic(k+path, T)
	}
	st.heap[k+path] = v
	return v
}

func (st *State) store(k, path string, T types.Type, v Value) {
	if s, ok := structOf(T); ok {
		if sv, ok := v.(VStruct); ok {
			for i := 0; i < s.NumFields(); i++ {
				st.store(k, path+"."+s.Field(i).Name(), s.Field(i).Type(), sv.F[i])
			}
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			st.store(k, path+"."+s.Field(i).Name(), s.Field(i).Type(), st.in.fresh("unk", s.Field(i).Type()))
		}
		return
	}
	st.heap[k+path] = v
}

func (st *State) seq(obj string, elem types.Type) *Seq {
	if q, ok := st.seqs[obj]; ok {
		return q
	}
	q := &Seq{base: obj, elem: elem, zero: isNew(obj)}
	st.seqs[obj] = q
	return q
}

// elemVal is the symbolic initial content at idx.
func (in *Interp) elemVal(base string, idx Lin, elem types.Type) Value {
	k := base + "[" + idx.key() + "]"
	v := in.symbolic(k, elem)
	switch x := v.(type) {
	case VInt:
		s, _ := single(x.L)
		if in.syms.infos[s].def == nil {
			in.syms.infos[s].def = &symDef{op: "elem", base: base, idx: idx}
		}
	case VRef:
		in.elems[k] = elemRef{base, idx}
	}
	return v
}

type elemRef struct {
	base string
	idx  Lin
}

type stVal struct {
	st *State
	v  Value
}

// seqRead reads the element, splitting the state where the position of a
// write relative to idx is not known.
func (st *State) seqRead(q *Seq, idx Lin) []stVal {
	for i := len(q.log) - 1; i >= 0; i-- {
		e := q.log[i]
		rel := idx.sub(e.off)
		below := geC(rel)
		yes, no := st.split(below)
		if len(no) > 0 && len(yes) > 0 {
			return st.readBoth(q, idx, yes, no)
		}
		if len(yes) == 0 {
			continue
		}
		yes, no = st.split(geC(e.n.sub(rel).addK(-1)))
		if len(no) > 0 && len(yes) > 0 {
			return st.readBoth(q, idx, yes, no)
		}
		if len(yes) == 0 {
			continue
		}
		if e.val != nil {
			return []stVal{{st, e.val}}
		}
		return st.seqRead(e.src, rel.add(e.srcOff))
	}
	if q.zero {
		return []stVal{{st, zeroValue(q.elem)}}
	}
	return []stVal{{st, st.in.elemVal(q.base, idx, q.elem)}}
}

func (st *State) readBoth(q *Seq, idx Lin, a, b []*State) []stVal {
	var out []stVal
	for _, s := range append(a, b...) {
		out = append(out, s.seqRead(q, idx)...)
	}
	return out
}

func (st *State) mapOf(k string) *MapC {
	if m, ok := st.maps[k]; ok {
		return m
	}
	m := &MapC{base: k}
	st.maps[k] = m
	return m
}

type mapRes struct {
	st *State
	v  Value
	ok Cond
}

func (st *State) mapGet(m *MapC, k Value, elem types.Type) []mapRes {
	for i := len(m.log) - 1; i >= 0; i-- {
		e := m.log[i]
		yes, no := st.split(st.eqCond(k, e.k))
		if len(yes) > 0 && len(no) > 0 {
			var out []mapRes
			for _, s := range yes {
				if e.del {
					out = append(out, mapRes{s, zeroValue(elem), boolC(false)})
				} else {
					out = append(out, mapRes{s, e.v, boolC(true)})
				}
			}
			rest := &MapC{base: m.base, empty: m.empty, log: m.log[:i]}
			for _, s := range no {
				out = append(out, s.mapGet(rest, k, elem)...)
			}
			return out
		}
		if len(yes) > 0 {
			if e.del {
				return []mapRes{{st, zeroValue(elem), boolC(false)}}
			}
			return []mapRes{{st, e.v, boolC(true)}}
		}
	}
	if m.empty {
		return []mapRes{{st, zeroValue(elem), boolC(false)}}
	}
	has := atomC("has:" + m.base + "|" + k.key())
	var out []mapRes
	yes, no := st.split(has)
	for _, s := range yes {
		v := s.in.symbolic(m.base+"{"+k.key()+"}", elem)
		out = append(out, mapRes{s, v, boolC(true)})
	}
	for _, s := range no {
		out = append(out, mapRes{s, zeroValue(elem), boolC(false)})
	}
	return out
}

// tableKept: the cell of the map still holds the map it held at first.
func (st *State) tableKept(cell string) bool {
	v, ok := st.heap[cell]
	return !ok || refKey(v) == cell
}

// findIn is the index in the slice of an element that is m.
func (st *State) findIn(s VSlice, m Value) (Lin, bool) {
	i, ok := st.placeOf(st.seqs[s.Obj], m)
	if !ok {
		return Lin{}, false
	}
	rel := i.sub(s.Off)
	if !st.ge0(rel) || !st.ge0(s.Len.sub(rel).addK(-1)) {
		return Lin{}, false
	}
	return rel, true
}

// placeOf is the index of an element of the sequence that is m.
func (st *State) placeOf(q *Seq, m Value) (Lin, bool) {
	i, ok := st.findSeq(q, m, 0)
	if !ok {
		return Lin{}, false
	}
	for _, g := range st.clone().seqRead(q, i) {
		if !g.st.same(g.v, m) {
			return Lin{}, false
		}
	}
	return i, true
}

func (st *State) findSeq(q *Seq, m Value, depth int) (Lin, bool) {
	if q == nil || depth > 6 {
		return Lin{}, false
	}
	for i := len(q.log) - 1; i >= 0; i-- {
		e := q.log[i]
		if e.val != nil {
			if e.val.key() == m.key() {
				return e.off, true
			}
			continue
		}
		if t, ok := st.findSeq(e.src, m, depth+1); ok && st.ge0(t.sub(e.srcOff)) && st.ge0(e.srcOff.add(e.n).sub(t).addK(-1)) {
			return e.off.add(t).sub(e.srcOff), true
		}
	}
	if x, ok := m.(VRef); ok && !q.zero {
		for k, e := range st.in.elems {
			if e.base != q.base {
				continue
			}
			if b, known := st.eval(st.eqCond(VRef{K: k, T: x.T}, x)); known && b {
				return e.idx, true
			}
		}
	}
	return Lin{}, false
}

func cleanKey(base string, m Value) string { return base + "|" + m.key() }

// cleanSlice: the elements of the slice not known to be m are not m.
func (st *State) cleanSlice(s VSlice, m Value) bool {
	return st.eq0(s.Len) || st.cleanSeq(st.seqs[s.Obj], m, 0)
}

func (st *State) cleanSeq(q *Seq, m Value, depth int) bool {
	if q == nil || depth > 6 || !q.zero && !st.in.clean[cleanKey(q.base, m)] {
		return false
	}
	for _, e := range q.log {
		if e.val == nil {
			if !st.cleanSeq(e.src, m, depth+1) {
				return false
			}
			continue
		}
		if _, known := st.eval(st.eqCond(e.val, m)); !known {
			return false
		}
	}
	return true
}

// cleanElem: an element of a list that has no m in it is not m.
func (st *State) cleanElem(e elemRef, v VRef) {
	for _, m := range st.in.pins {
		if st.in.clean[cleanKey(e.base, m)] {
			if c := st.eqCond(v, m); c.Kind == cAtom {
				st.facts[c.A] = false
			}
		}
	}
}
