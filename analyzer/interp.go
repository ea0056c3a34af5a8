package main

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// VElem is the address of an element of a backing array.
type VElem struct {
	Obj  string
	Idx  Lin
	Elem types.Type
	Path string
}

func (v VElem) key() string { return "&" + v.Obj + "[" + v.Idx.key() + "]" + v.Path }

// VIter is a map or string iterator.
type VIter struct {
	M    Value
	T    types.Type
	Done string
	C    *MapC
}

func (v VIter) key() string { return "iter:" + v.M.key() }

type CallInfo struct {
	Site   ssa.Instruction
	Pos    token.Pos
	Fn     *ssa.Function // resolved callee, nil if opaque
	Method *types.Func   // for interface calls
	Recv   Value         // interface calls on opaque receivers
	FnVal  Value         // dynamic function values
	Args   []Value       // includes the receiver for resolved methods
	Sig    *types.Signature
	Role   string // what the receiver is, if called by a foreign interface
	Name   string
	Bind   []Value
	Kind   string // call, go, defer
}

func (c *CallInfo) IsInvoke() bool { return c.Method != nil && c.Fn == nil }

// Client receives the events of one analysis.
type Client interface {
	Call(st *State, c *CallInfo) ([]stVal, bool)
	Load(st *State, at ssa.Instruction, p Value)
	Store(st *State, at ssa.Instruction, p, v Value)
	Bounds(st *State, at ssa.Instruction, what string, ok bool)
	Nil(st *State, at ssa.Instruction, v Value, what string)
	Send(st *State, at ssa.Instruction, ch, v Value, sel bool)
	Recv(st *State, at ssa.Instruction, ch Value, sel bool, T types.Type) Value
	Close(st *State, at ssa.Instruction, ch Value)
	Go(st *State, c *CallInfo)
	Panic(st *State, at ssa.Instruction, what string)
	Assert(st *State, at *ssa.TypeAssert, v Value, ok bool)
	SeqWrite(st *State, at ssa.Instruction, obj string, off, n Lin)
	SeqRead(st *State, at ssa.Instruction, obj string, off, n Lin)
	MapWrite(st *State, at ssa.Instruction, m Value, k, v Value, del bool)
	MapRead(st *State, at ssa.Instruction, m Value, k Value)
	Next(st *State, at ssa.Instruction, m Value, k Value, more bool)
	Select(st *State, at *ssa.Select, idx int, chosen *ssa.SelectState)
	End(st *State, res Value)
}

// NopClient ignores everything.
type NopClient struct{}

func (NopClient) Call(*State, *CallInfo) ([]stVal, bool)                      { return nil, false }
func (NopClient) Load(*State, ssa.Instruction, Value)                         {}
func (NopClient) Store(*State, ssa.Instruction, Value, Value)                 {}
func (NopClient) Bounds(*State, ssa.Instruction, string, bool)                {}
func (NopClient) Nil(*State, ssa.Instruction, Value, string)                  {}
func (NopClient) Send(*State, ssa.Instruction, Value, Value, bool)            {}
func (NopClient) Recv(*State, ssa.Instruction, Value, bool, types.Type) Value { return nil }
func (NopClient) Close(*State, ssa.Instruction, Value)                        {}
func (NopClient) Go(*State, *CallInfo)                                        {}
func (NopClient) Panic(*State, ssa.Instruction, string)                       {}
func (NopClient) Assert(*State, *ssa.TypeAssert, Value, bool)                 {}
func (NopClient) SeqWrite(*State, ssa.Instruction, string, Lin, Lin)          {}
func (NopClient) SeqRead(*State, ssa.Instruction, string, Lin, Lin)           {}
func (NopClient) MapWrite(*State, ssa.Instruction, Value, Value, Value, bool) {}
func (NopClient) MapRead(*State, ssa.Instruction, Value, Value)               {}
func (NopClient) Next(*State, ssa.Instruction, Value, Value, bool)            {}
func (NopClient) Select(*State, *ssa.Select, int, *ssa.SelectState)           {}
func (NopClient) End(*State, Value)                                           {}

type Interp struct {
	P        *Program
	prog     *ssa.Program
	fset     *token.FileSet
	sizes    types.Sizes
	syms     *SymTab
	roles    map[string]string // what an object is, where it is used by a foreign interface
	parked   []parkedState
	elems    map[string]elemRef
	floats   map[string]Lin // floats by key, times 1e9
	clean    map[string]bool
	made     map[string]bool // arrays of joins that were made by the code
	pins     []Value         // objects whose place in lists is kept at joins
	clock    Value           // the time, if it stands still
	onElem   func(*State, ssa.Instruction, VElem, Value)
	elemFact func(*State, elemRef, VRef)
	splits   map[string][]watch // array -> index of the element watched
	nfresh   int
	cl       Client
	work     []*State
	loops    map[int]*loopRec
	ntok     int
	steps    int
	paths    int
	max      int
	over     bool
	skolems  map[Sym]bool
	members  map[string]Value // map -> a key known to be in it
	undec    map[string]bool
	joins    int
	fns      map[*ssa.Function]bool
	posts    map[int]func(*State, Value) []stVal
	nposts   int
	nbase    int
	nbaseKey int
	base     []Lin
}

func newInterp(p *Program, cl Client) *Interp {
	return &Interp{P: p, prog: p.Prog, fset: p.Fset, sizes: p.Sizes, syms: newSymTab(), elems: map[string]elemRef{}, floats: map[string]Lin{}, clean: map[string]bool{}, made: map[string]bool{}, roles: map[string]string{}, splits: map[string][]watch{},
		cl: cl, loops: map[int]*loopRec{}, max: 3000000, skolems: map[Sym]bool{}, members: map[string]Value{}, undec: map[string]bool{}, fns: map[*ssa.Function]bool{}, posts: map[int]func(*State, Value) []stVal{}}
}

func (in *Interp) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := in.fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func instrPos(i ssa.Instruction) token.Pos {
	if i == nil {
		return token.NoPos
	}
	if p := i.Pos(); p.IsValid() {
		return p
	}
	if i.Block() != nil {
		// nearest instruction with a position
		seen := false
		for _, x := range i.Block().Instrs {
			if x == i {
				seen = true
			}
			if seen && x.Pos().IsValid() {
				return x.Pos()
			}
		}
		return i.Parent().Pos()
	}
	return token.NoPos
}

// ---------------------------------------------------------------- driver

func (in *Interp) Run(st *State) {
	in.nbase, in.nbaseKey = len(in.syms.infos), in.nfresh
	in.base = append([]Lin{}, st.cons...)
	in.work = append(in.work, st)
	for {
		if len(in.work) == 0 {
			if len(in.parked) == 0 {
				return
			}
			// the exits of the innermost loop first
			b := 0
			for i, p := range in.parked {
				if p.depth > in.parked[b].depth {
					b = i
				}
			}
			p := in.parked[b]
			in.parked = append(in.parked[:b:b], in.parked[b+1:]...)
			if !p.stale() {
				in.work = append(in.work, in.arrive(p.st)...)
			}
			continue
		}
		s := in.work[len(in.work)-1]
		in.work = in.work[:len(in.work)-1]
		if !s.stale() {
			in.runState(s)
		}
	}
}

// parked is a state that left a loop; it goes on when the loop is stable.
type parkedState struct {
	st    *State
	left  []loopTok
	depth int
}

func (p parkedState) stale() bool {
	for _, t := range p.left {
		if t.part != nil && t.part.n > t.gen {
			return true
		}
	}
	return p.st.stale()
}

// stale: the state belongs to an iteration whose initial state was widened
// since; what it does is repeated from the widened state.
func (st *State) stale() bool {
	for _, f := range st.frames {
		for _, t := range f.loops {
			if t.part != nil && t.part.n > t.gen {
				return true
			}
		}
	}
	return false
}

func (in *Interp) runState(st *State) {
	for {
		if st.dead || len(st.frames) == 0 {
			return
		}
		in.steps++
		if in.steps > in.max || in.steps&0xff == 0 && time.Since(checkStart) > checkTime {
			in.over = true
			return
		}
		if in.steps&0x3fff == 0 {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 6<<30 {
				in.over = true
				return
			}
		}
		f := st.top()
		if f.idx >= len(f.block.Instrs) {
			return
		}
		outs := in.step(st, f, f.block.Instrs[f.idx])
		if len(outs) == 1 && outs[0] == st {
			continue
		}
		in.work = append(in.work, outs...)
		return
	}
}

// Enter prepares a state that calls fn.
func (in *Interp) Enter(st *State, fn *ssa.Function, args []Value, bind []Value) {
	in.push(st, fn, args, bind, nil, nil)
}

func (in *Interp) push(st *State, fn *ssa.Function, args, bind []Value, res ssa.Value, _ func(*State, Value)) *Frame {
	f := &Frame{fn: fn, env: map[ssa.Value]Value{}, res: res}
	in.fns[fn] = true
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		} else {
			f.env[p] = in.fresh("arg", p.Type())
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			f.env[fv] = bind[i]
		} else {
			f.env[fv] = in.fresh("free", fv.Type())
		}
	}
	f.block = fn.Blocks[0]
	st.frames = append(st.frames, f)
	return f
}

func (in *Interp) val(st *State, f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return constValue(x)
	case *ssa.Function:
		return VFunc{Fn: x}
	case *ssa.Global:
		return VRef{K: "global:" + x.Name(), T: x.Type()}
	case *ssa.Builtin:
		return VUnk{K: "builtin:" + x.Name(), T: x.Type()}
	}
	if r, ok := f.env[v]; ok {
		return r
	}
	r := in.fresh("undef", v.Type())
	f.env[v] = r
	return r
}

func (in *Interp) set(st *State, v ssa.Value, x Value) {
	st.top().env[v] = x
}

func next(st *State) []*State {
	st.top().idx++
	return []*State{st}
}

func (in *Interp) undecided(at ssa.Instruction, msg string) {
	in.undec[in.pos(instrPos(at))+": "+msg] = true
}

// ---------------------------------------------------------------- step

func (in *Interp) step(st *State, f *Frame, i ssa.Instruction) []*State {
	switch x := i.(type) {
	case *ssa.DebugRef:
		return next(st)
	case *ssa.Alloc:
		k := st.alloc(deref(x.Type()))
		in.set(st, x, VRef{K: k, T: x.Type()})
		return next(st)
	case *ssa.Phi:
		// handled on block entry
		return next(st)
	case *ssa.BinOp:
		if (x.Op == token.QUO || x.Op == token.REM) && isInt(x.Type()) {
			if d, ok := in.val(st, f, x.Y).(VInt); ok && !st.ge0(d.L.addK(-1)) && !st.ge0(d.L.neg().addK(-1)) {
				in.cl.Panic(st, x, "integer divide by zero")
			}
		}
		in.set(st, x, in.binop(st, x.Op, in.val(st, f, x.X), in.val(st, f, x.Y), x.Type(), x.X.Type()))
		return next(st)
	case *ssa.UnOp:
		return in.unop(st, f, x)
	case *ssa.ChangeType:
		in.set(st, x, retype(in.val(st, f, x.X), x.Type()))
		return next(st)
	case *ssa.ChangeInterface:
		v := in.val(st, f, x.X)
		if n, ok := x.X.Type().(*types.Named); ok && n.Obj().Pkg() == in.P.Pkg.Pkg {
			if r, ok := v.(VRef); ok {
				in.roles[r.K] = n.Obj().Name()
			}
		}
		in.set(st, x, retype(v, x.Type()))
		return next(st)
	case *ssa.Convert:
		in.set(st, x, in.convert(st, in.val(st, f, x.X), x.X.Type(), x.Type()))
		return next(st)
	case *ssa.MultiConvert:
		in.set(st, x, in.fresh("conv", x.Type()))
		return next(st)
	case *ssa.MakeInterface:
		v := in.val(st, f, x.X)
		in.set(st, x, VIface{Dyn: x.X.Type(), V: v})
		return next(st)
	case *ssa.MakeClosure:
		var b []Value
		for _, y := range x.Bindings {
			b = append(b, in.val(st, f, y))
		}
		in.set(st, x, VFunc{Fn: x.Fn.(*ssa.Function), Bind: b})
		return next(st)
	case *ssa.MakeMap:
		k := st.alloc(x.Type())
		st.maps[k] = &MapC{empty: true}
		in.set(st, x, VRef{K: k, T: x.Type()})
		return next(st)
	case *ssa.MakeChan:
		k := st.alloc(x.Type())
		if l, ok := in.val(st, f, x.Size).(VInt); ok {
			in.cl.Bounds(st, x, "make: negative size of a channel", st.ge0(l.L))
			st.heap[k+".@cap"] = l
		}
		in.set(st, x, VRef{K: k, T: x.Type()})
		return next(st)
	case *ssa.MakeSlice:
		l, _ := in.val(st, f, x.Len).(VInt)
		c, _ := in.val(st, f, x.Cap).(VInt)
		ok := st.ge0(l.L) && st.ge0(c.L.sub(l.L))
		in.cl.Bounds(st, x, "make: negative or inverted size", ok)
		if !st.addGE(l.L) || !st.addGE(c.L.sub(l.L)) {
			return nil
		}
		in.set(st, x, st.mkSlice(x.Type(), l.L, c.L))
		return next(st)
	case *ssa.Slice:
		return in.slice(st, f, x)
	case *ssa.FieldAddr:
		return in.fieldAddr(st, f, x)
	case *ssa.Field:
		v := in.val(st, f, x.X)
		if s, ok := v.(VStruct); ok {
			in.set(st, x, s.F[x.Field])
		} else {
			in.set(st, x, in.symbolic(v.key()+"."+fieldName(x.X.Type(), x.Field), x.Type()))
		}
		return next(st)
	case *ssa.IndexAddr:
		return in.indexAddr(st, f, x)
	case *ssa.Index:
		in.set(st, x, in.fresh("index", x.Type()))
		return next(st)
	case *ssa.Lookup:
		return in.lookup(st, f, x)
	case *ssa.Range:
		m := in.val(st, f, x.X)
		it := VIter{M: m, T: x.X.Type()}
		if r, ok := m.(VRef); ok {
			it.C = st.mapOf(r.K)
			delete(st.disc, "seen:"+r.K)
		}
		in.set(st, x, it)
		return next(st)
	case *ssa.Next:
		return in.next(st, f, x)
	case *ssa.TypeAssert:
		return in.typeAssert(st, f, x)
	case *ssa.Extract:
		v := in.val(st, f, x.Tuple)
		if t, ok := v.(VTuple); ok && x.Index < len(t.V) {
			in.set(st, x, t.V[x.Index])
		} else {
			in.set(st, x, in.fresh("extract", x.Type()))
		}
		return next(st)
	case *ssa.Jump:
		return in.jump(st, f.block.Succs[0])
	case *ssa.If:
		c, _ := in.val(st, f, x.Cond).(VBool)
		if in.val(st, f, x.Cond) == nil {
			return nil
		}
		cond := c.C
		if _, ok := in.val(st, f, x.Cond).(VBool); !ok {
			cond = atomC(in.freshKey("cond"))
		}
		b := f.block
		_, known := st.eval(cond)
		yes, no := st.split(cond)
		var outs []*State
		for _, s := range yes {
			if !known {
				s.note(condPos(x), "%s", "condition true")
			}
			outs = append(outs, in.jump(s, b.Succs[0])...)
		}
		for _, s := range no {
			if !known {
				s.note(condPos(x), "%s", "condition false")
			}
			outs = append(outs, in.jump(s, b.Succs[1])...)
		}
		return outs
	case *ssa.Return:
		return in.ret(st, f, x)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			outs := in.doCall(st, d.call, nil, true)
			return outs
		}
		return next(st)
	case *ssa.Panic:
		in.cl.Panic(st, x, "panic")
		return nil
	case *ssa.Go:
		c := in.callInfo(st, f, x, &x.Call, "go")
		in.cl.Go(st, c)
		return next(st)
	case *ssa.Defer:
		c := in.callInfo(st, f, x, &x.Call, "defer")
		f.defers = append(f.defers, deferred{x, c})
		return next(st)
	case *ssa.Call:
		c := in.callInfo(st, f, x, &x.Call, "call")
		return in.doCall(st, c, x, false)
	case *ssa.Send:
		in.cl.Send(st, x, in.val(st, f, x.Chan), in.val(st, f, x.X), false)
		if st.dead {
			return nil
		}
		return next(st)
	case *ssa.Select:
		return in.sel(st, f, x)
	case *ssa.Store:
		return in.doStore(st, f, x)
	case *ssa.MapUpdate:
		m := in.val(st, f, x.Map)
		k, v := in.val(st, f, x.Key), in.val(st, f, x.Value)
		in.nonNil(st, x, m, "assignment to entry in nil map")
		in.cl.MapWrite(st, x, m, k, v, false)
		if r, ok := m.(VRef); ok {
			st.maps[r.K] = st.mapOf(r.K).with(mapEntry{k: k, v: v})
		}
		return next(st)
	case *ssa.SliceToArrayPointer:
		in.set(st, x, in.fresh("sap", x.Type()))
		return next(st)
	}
	if v, ok := i.(ssa.Value); ok {
		in.set(st, v, in.fresh("instr", v.Type()))
	}
	in.undecided(i, fmt.Sprintf("instruction %T not modelled", i))
	return next(st)
}

func condPos(x *ssa.If) token.Pos {
	if p := x.Cond.Pos(); p.IsValid() {
		return p
	}
	return instrPos(x)
}

func retype(v Value, T types.Type) Value {
	switch x := v.(type) {
	case VRef:
		x.T = T
		return x
	case VNil:
		x.T = T
		return x
	case VSlice:
		x.T = T
		return x
	case VStruct:
		x.T = T
		return x
	}
	return v
}

func fieldName(T types.Type, i int) string {
	s, _ := structOf(deref(T))
	return s.Field(i).Name()
}

func (st *State) mkSlice(T types.Type, l, c Lin) VSlice {
	k := st.alloc(T)
	st.seqs[k] = &Seq{zero: true, elem: T.Underlying().(*types.Slice).Elem(), base: k}
	return VSlice{Obj: k, Off: cst(0), Len: l, Cap: c, T: T}
}

// nonNil raises the nil obligation, then assumes it.
func (in *Interp) nonNil(st *State, at ssa.Instruction, v Value, what string) bool {
	c := st.nilCond(v)
	if b, known := st.eval(c); known {
		if b {
			in.cl.Nil(st, at, v, what)
			st.dead = true
			return false
		}
		return true
	}
	in.cl.Nil(st, at, v, what)
	if len(st.assume(c.not())) == 0 {
		st.dead = true
		return false
	}
	return true
}

func (in *Interp) fieldAddr(st *State, f *Frame, x *ssa.FieldAddr) []*State {
	p := in.val(st, f, x.X)
	name := fieldName(x.X.Type(), x.Field)
	switch r := p.(type) {
	case VRef:
		if r.Path == "" {
			if !in.nonNil(st, x, r, "nil pointer dereference") {
				return nil
			}
			in.ensureObj(st, r.K, deref(x.X.Type()))
		}
		in.set(st, x, VRef{K: r.K, Path: r.Path + "." + name, T: x.Type()})
		return next(st)
	case VElem:
		r.Path += "." + name
		in.set(st, x, r)
		return next(st)
	case VNil:
		in.cl.Nil(st, x, p, "nil pointer dereference")
		return nil
	}
	in.set(st, x, in.fresh("fa", x.Type()))
	return next(st)
}

func (in *Interp) indexAddr(st *State, f *Frame, x *ssa.IndexAddr) []*State {
	s := in.val(st, f, x.X)
	idx, _ := in.val(st, f, x.Index).(VInt)
	switch r := s.(type) {
	case VSlice:
		ok := st.ge0(idx.L) && st.ge0(r.Len.sub(idx.L).addK(-1))
		in.cl.Bounds(st, x, "index out of range", ok)
		if !st.addGE(idx.L) || !st.addGE(r.Len.sub(idx.L).addK(-1)) {
			return nil
		}
		in.set(st, x, VElem{Obj: r.Obj, Idx: r.Off.add(idx.L), Elem: deref(x.Type())})
	case VRef: // pointer to array
		n := int64(0)
		if a, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
			n = a.Len()
		}
		ok := st.ge0(idx.L) && st.ge0(cst(n-1).sub(idx.L))
		in.cl.Bounds(st, x, "index out of range", ok)
		if !st.addGE(idx.L) || !st.addGE(cst(n-1).sub(idx.L)) {
			return nil
		}
		in.set(st, x, VElem{Obj: r.K + r.Path, Idx: idx.L, Elem: deref(x.Type())})
	case VNil:
		in.cl.Bounds(st, x, "index of nil slice", false)
		return nil
	default:
		in.set(st, x, VElem{Obj: in.freshKey("arr"), Idx: idx.L, Elem: deref(x.Type())})
	}
	return next(st)
}

func (in *Interp) unop(st *State, f *Frame, x *ssa.UnOp) []*State {
	v := in.val(st, f, x.X)
	switch x.Op {
	case token.NOT:
		if b, ok := v.(VBool); ok {
			in.set(st, x, VBool{b.C.not()})
		} else {
			in.set(st, x, in.fresh("not", x.Type()))
		}
	case token.SUB:
		if a, ok := v.(VInt); ok {
			in.set(st, x, VInt{a.L.neg()})
		} else {
			in.set(st, x, in.fresh("neg", x.Type()))
		}
	case token.MUL:
		return in.doLoad(st, f, x, v)
	case token.ARROW:
		T := x.X.Type().Underlying().(*types.Chan).Elem()
		r := in.cl.Recv(st, x, v, false, T)
		if st.dead {
			return nil
		}
		if r == nil {
			r = in.fresh("recv", T)
		}
		if x.CommaOk {
			in.set(st, x, VTuple{[]Value{r, in.recvOK(st, v)}})
		} else {
			in.set(st, x, r)
		}
	default:
		in.set(st, x, in.fresh("unop", x.Type()))
	}
	return next(st)
}

// recvOK is the second result of a receive; the client may have decided it.
func (in *Interp) recvOK(st *State, ch Value) Value {
	if timerChan(ch) {
		return VBool{boolC(true)}
	}
	if v, ok := st.gv["@recvok"]; ok {
		delete(st.gv, "@recvok")
		return v
	}
	return VBool{atomC(in.freshKey("recvok"))}
}

func (in *Interp) doLoad(st *State, f *Frame, x *ssa.UnOp, v Value) []*State {
	switch p := v.(type) {
	case VRef:
		if p.Path == "" {
			if !in.nonNil(st, x, p, "nil pointer dereference") {
				return nil
			}
			in.ensureObj(st, p.K, x.Type())
		}
		in.cl.Load(st, x, p)
		in.set(st, x, st.load(p.K, p.Path, x.Type()))
		return next(st)
	case VElem:
		in.cl.SeqRead(st, x, p.Obj, p.Idx, cst(1))
		q := st.seq(p.Obj, p.Elem)
		if p.Path != "" {
			q = st.seq(p.Obj+p.Path, x.Type())
		}
		rs := st.seqRead(q, p.Idx)
		var outs []*State
		if len(in.splits) > 0 {
			rs = in.single(rs)
		}
		for _, r := range rs {
			if v, ok := r.v.(VRef); ok {
				if e, ok := in.elems[v.K]; ok {
					r.st.cleanElem(e, v)
					if in.elemFact != nil {
						in.elemFact(r.st, e, v)
					}
				}
			}
			in.set(r.st, x, r.v)
			outs = append(outs, next(r.st)...)
		}
		return outs
	case VNil:
		in.cl.Nil(st, x, v, "nil pointer dereference")
		return nil
	}
	in.set(st, x, in.fresh("load", x.Type()))
	return next(st)
}

// watch is an element of an array a check keeps track of: the one at a
// skolem index, and the object it is.
type watch struct {
	at Lin
	v  Value
}

// watchOne watches the element at index at of the array.
func (in *Interp) watchOne(arr string, at Lin, T types.Type) VRef {
	v := in.elemVal(arr, at, T).(VRef)
	in.splits[arr] = append(in.splits[arr], watch{at, v})
	return v
}

// single separates reads of the elements a check watches from reads of other
// elements.
func (in *Interp) single(rs []stVal) []stVal {
	var out []stVal
	for _, r := range rs {
		x, isRef := r.v.(VRef)
		e, isElem := in.elems[x.K]
		if !isRef || !isElem {
			out = append(out, r)
			continue
		}
		rest := []*State{r.st}
		for _, w := range in.splits[e.base] {
			var nx []*State
			for _, s := range rest {
				yes, no := s.split(eqC(e.idx.sub(w.at)))
				for _, y := range yes {
					y.disc["saw:"+w.v.key()] = "1"
					out = append(out, stVal{y, w.v})
				}
				nx = append(nx, no...)
			}
			rest = nx
		}
		for _, s := range rest {
			out = append(out, stVal{s, r.v})
		}
	}
	return out
}

func (in *Interp) doStore(st *State, f *Frame, x *ssa.Store) []*State {
	v := in.val(st, f, x.Val)
	switch p := in.val(st, f, x.Addr).(type) {
	case VRef:
		if p.Path == "" && !in.nonNil(st, x, p, "nil pointer dereference") {
			return nil
		}
		in.ensureObj(st, p.K, nil)
		in.cl.Store(st, x, p, v)
		st.store(p.K, p.Path, x.Val.Type(), v)
	case VElem:
		in.cl.SeqWrite(st, x, p.Obj, p.Idx, cst(1))
		if in.onElem != nil {
			in.onElem(st, x, p, v)
		}
		if p.Path != "" {
			q := st.seq(p.Obj+p.Path, x.Val.Type())
			st.seqs[p.Obj+p.Path] = q.with(seqEntry{off: p.Idx, n: cst(1), val: v})
		} else {
			q := st.seq(p.Obj, p.Elem)
			st.seqs[p.Obj] = q.with(seqEntry{off: p.Idx, n: cst(1), val: v})
		}
	case VNil:
		in.cl.Nil(st, x, p, "nil pointer dereference")
		return nil
	default:
		in.undecided(x, "store through an unknown address")
	}
	return next(st)
}

func (in *Interp) slice(st *State, f *Frame, x *ssa.Slice) []*State {
	v := in.val(st, f, x.X)
	get := func(s ssa.Value) (Lin, bool) {
		if s == nil {
			return Lin{}, false
		}
		i, ok := in.val(st, f, s).(VInt)
		return i.L, ok
	}
	lo, _ := get(x.Low)
	var base VSlice
	switch r := v.(type) {
	case VSlice:
		base = r
	case VNil:
		base = VSlice{Obj: "nilslice", T: x.Type()}
		if x.Low == nil && x.High == nil && x.Max == nil {
			in.set(st, x, v)
			return next(st)
		}
	case VRef:
		n := int64(0)
		if a, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
			n = a.Len()
		}
		base = VSlice{Obj: r.K + r.Path, Len: cst(n), Cap: cst(n), T: x.Type()}
	default:
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			in.set(st, x, in.fresh("substr", x.Type()))
			return next(st)
		}
		in.set(st, x, in.fresh("slice", x.Type()))
		return next(st)
	}
	hi := base.Len
	if h, ok := get(x.High); ok {
		hi = h
	}
	mx := base.Cap
	if m, ok := get(x.Max); ok {
		mx = m
	}
	ok := st.ge0(lo) && st.ge0(hi.sub(lo)) && st.ge0(mx.sub(hi)) && st.ge0(base.Cap.sub(mx))
	in.cl.Bounds(st, x, "slice bounds out of range", ok)
	if !st.addGE(lo) || !st.addGE(hi.sub(lo)) || !st.addGE(mx.sub(hi)) || !st.addGE(base.Cap.sub(mx)) {
		return nil
	}
	in.set(st, x, VSlice{Obj: base.Obj, Off: base.Off.add(lo), Len: hi.sub(lo), Cap: mx.sub(lo), T: x.Type()})
	return next(st)
}

func (in *Interp) lookup(st *State, f *Frame, x *ssa.Lookup) []*State {
	m, k := in.val(st, f, x.X), in.val(st, f, x.Index)
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		in.set(st, x, in.fresh("strindex", x.Type()))
		return next(st)
	}
	in.cl.MapRead(st, x, m, k)
	var rs []mapRes
	switch r := m.(type) {
	case VRef:
		rs = st.mapGet(st.mapOf(r.K+r.Path), k, mt.Elem())
	default:
		rs = []mapRes{{st, zeroValue(mt.Elem()), boolC(false)}}
	}
	var outs []*State
	for _, r := range rs {
		if x.CommaOk {
			in.set(r.st, x, VTuple{[]Value{r.v, VBool{r.ok}}})
		} else {
			in.set(r.st, x, r.v)
		}
		outs = append(outs, next(r.st)...)
	}
	return outs
}

func (in *Interp) next(st *State, f *Frame, x *ssa.Next) []*State {
	it, ok := in.val(st, f, x.Iter).(VIter)
	tt := x.Type().(*types.Tuple)
	if !ok || x.IsString {
		in.set(st, x, in.fresh("next", tt))
		return next(st)
	}
	mt := it.T.Underlying().(*types.Map)
	var outs []*State
	// no more
	o := st.clone()
	if r, ok := it.M.(VRef); ok {
		if key, ok := in.memberOf(it.C); ok {
			// a key known to be there must have been visited; this visits it
			if st.disc["seen:"+r.K] == "" {
				o.dead = true
				m := st.clone()
				m.disc["seen:"+r.K] = "1"
				in.cl.Next(m, x, it.M, key, true)
				in.set(m, x, VTuple{[]Value{VBool{boolC(true)}, key, in.symbolic(it.C.base+"{"+key.key()+"}", mt.Elem())}})
				if !m.dead {
					outs = append(outs, next(m)...)
				}
			}
		}
	}
	if !o.dead {
		in.cl.Next(o, x, it.M, nil, false)
	}
	in.set(o, x, VTuple{[]Value{VBool{boolC(false)}, zeroValue(mt.Key()), zeroValue(mt.Elem())}})
	if !o.dead {
		outs = append(outs, next(o)...)
	}
	if c := it.C; c != nil && c.empty && len(c.log) == 0 {
		return outs
	}
	k := in.fresh("rangekey", mt.Key())
	var v Value
	if r, ok := it.M.(VRef); ok {
		if key, ok := in.memberOf(it.C); ok {
			if c := st.eqCond(key, k); c.Kind == cAtom {
				st.facts[c.A] = false // the key watched is visited apart
			}
		}
		cur := st.mapOf(r.K)
		if len(cur.log) == 0 && !cur.empty {
			st.facts["has:"+cur.base+"|"+k.key()] = true
			v = in.symbolic(cur.base+"{"+k.key()+"}", mt.Elem())
		}
	}
	if v == nil {
		v = in.fresh("rangeval", mt.Elem())
	}
	in.cl.Next(st, x, it.M, k, true)
	if st.dead {
		return outs
	}
	if c := st.nilCond(k); c.Kind == cAtom {
		// interface keys found in the map were stored there
		st.facts["rangekey:"+k.key()] = true
	}
	in.set(st, x, VTuple{[]Value{VBool{boolC(true)}, k, v}})
	return append(outs, next(st)...)
}

// memberOf is the key of the map that is watched, if there is one.
func (in *Interp) memberOf(c *MapC) (Value, bool) {
	if c == nil || c.empty || len(c.log) > 0 {
		return nil, false
	}
	k, ok := in.members[c.base]
	return k, ok
}

func (in *Interp) typeAssert(st *State, f *Frame, x *ssa.TypeAssert) []*State {
	v := in.val(st, f, x.X)
	T := x.AssertedType
	iface := types.IsInterface(T)
	result := func(s *State, ok bool, r Value) []*State {
		if x.CommaOk {
			if !ok {
				r = zeroValue(T)
			}
			in.set(s, x, VTuple{[]Value{r, VBool{boolC(ok)}}})
			return next(s)
		}
		in.cl.Assert(s, x, v, ok)
		if !ok {
			in.cl.Panic(s, x, "type assertion without check fails")
			return nil
		}
		in.set(s, x, r)
		return next(s)
	}
	switch i := v.(type) {
	case VIface:
		if iface {
			if types.Implements(i.Dyn, T.Underlying().(*types.Interface)) {
				return result(st, true, i)
			}
			return result(st, false, nil)
		}
		if types.Identical(i.Dyn, T) {
			return result(st, true, i.V)
		}
		return result(st, false, nil)
	case VNil:
		return result(st, false, nil)
	case VRef:
		nc := st.nilCond(i)
		nils, rest := st.split(nc)
		var outs []*State
		for _, s := range nils {
			outs = append(outs, result(s, false, nil)...)
		}
		for _, s := range rest {
			atom := atomC("type:" + i.K + "|" + types.TypeString(T, nil))
			yes, no := s.split(atom)
			for _, t := range yes {
				if iface {
					outs = append(outs, result(t, true, VRef{K: i.K, T: T})...)
				} else {
					outs = append(outs, result(t, true, in.symbolic(i.K+".("+types.TypeString(T, shortQ)+")", T))...)
				}
			}
			for _, t := range no {
				outs = append(outs, result(t, false, nil)...)
			}
		}
		return outs
	}
	o := st.clone()
	return append(result(st, true, in.fresh("assert", T)), result(o, false, nil)...)
}

func shortQ(p *types.Package) string { return p.Name() }

func (in *Interp) sel(st *State, f *Frame, x *ssa.Select) []*State {
	var outs []*State
	n := len(x.States)
	total := n
	if !x.Blocking {
		total++
	}
	tt := x.Type().(*types.Tuple)
	for i := 0; i < total; i++ {
		s := st
		if i < total-1 {
			s = st.clone()
		}
		fs := s.top()
		res := make([]Value, tt.Len())
		idx := i
		if i == n {
			idx = -1
		}
		res[0] = VInt{cst(int64(idx))}
		res[1] = VBool{atomC(in.freshKey("recvok"))}
		for j := 2; j < tt.Len(); j++ {
			res[j] = zeroValue(tt.At(j).Type())
		}
		if i < n {
			c := x.States[i]
			s.note(c.Pos, "select case %d", i)
			in.cl.Select(s, x, i, c)
			if c.Dir == types.SendOnly {
				in.cl.Send(s, x, in.val(s, fs, c.Chan), in.val(s, fs, c.Send), true)
			} else {
				T := c.Chan.Type().Underlying().(*types.Chan).Elem()
				r := in.cl.Recv(s, x, in.val(s, fs, c.Chan), true, T)
				if r == nil {
					r = in.fresh("recv", T)
				}
				res[1] = in.recvOK(s, in.val(s, fs, c.Chan))
				j := 2
				for q := 0; q < i; q++ {
					if x.States[q].Dir == types.RecvOnly {
						j++
					}
				}
				if j < len(res) {
					res[j] = r
				}
			}
		} else {
			s.note(instrPos(x), "select default")
			in.cl.Select(s, x, -1, nil)
		}
		if s.dead {
			continue
		}
		in.set(s, x, VTuple{res})
		outs = append(outs, next(s)...)
	}
	return outs
}

// ---------------------------------------------------------------- arithmetic

func isUnsigned(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isInt(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// fit keeps l if it is provably within the range of T.
func (in *Interp) fit(st *State, l Lin, T types.Type, k string) Lin {
	lo, hi, hl, hh, _ := intRange(T, in.sizes)
	if (!hl || st.ge0(l.addK(-lo))) && (!hh || st.ge0(l.neg().addK(hi))) {
		return l
	}
	return symL(in.syms.mkTyped(k, T, in.sizes))
}

func (in *Interp) binop(st *State, op token.Token, a, b Value, T, opT types.Type) Value {
	switch op {
	case token.EQL:
		return VBool{st.eqCond(a, b)}
	case token.NEQ:
		return VBool{st.eqCond(a, b).not()}
	}
	if fx, ok := in.float1e9(a); ok {
		if fy, ok := in.float1e9(b); ok {
			switch op {
			case token.LSS:
				return VBool{geC(fy.sub(fx).addK(-1))}
			case token.LEQ:
				return VBool{geC(fy.sub(fx))}
			case token.GTR:
				return VBool{geC(fx.sub(fy).addK(-1))}
			case token.GEQ:
				return VBool{geC(fx.sub(fy))}
			}
		}
	}
	x, ok1 := a.(VInt)
	y, ok2 := b.(VInt)
	if !ok1 || !ok2 {
		if op == token.ADD {
			if s, ok := a.(VStr); ok {
				if t, ok := b.(VStr); ok {
					if s.Const != nil && t.Const != nil {
						c := *s.Const + *t.Const
						return VStr{Const: &c}
					}
					return VStr{K: "cat(" + s.key() + "," + t.key() + ")"}
				}
			}
		}
		return in.symbolic("op"+op.String()+"("+a.key()+","+b.key()+")", T)
	}
	opKey := func() string { return "(" + x.L.key() + op.String() + y.L.key() + ")" + types.TypeString(T, nil) }
	switch op {
	case token.LSS:
		return VBool{geC(y.L.sub(x.L).addK(-1))}
	case token.LEQ:
		return VBool{geC(y.L.sub(x.L))}
	case token.GTR:
		return VBool{geC(x.L.sub(y.L).addK(-1))}
	case token.GEQ:
		return VBool{geC(x.L.sub(y.L))}
	case token.ADD:
		if isUnsigned(T) {
			if w, ok := in.mergeWords(st, x.L, y.L, T); ok {
				return VInt{w}
			}
			return VInt{in.fit(st, x.L.add(y.L), T, opKey())}
		}
		return VInt{x.L.add(y.L)}
	case token.SUB:
		if isUnsigned(T) {
			return VInt{in.fit(st, x.L.sub(y.L), T, opKey())}
		}
		return VInt{x.L.sub(y.L)}
	case token.MUL:
		if x.L.isConst() {
			return VInt{in.fit(st, y.L.scale(x.L.K), T, opKey())}
		}
		if y.L.isConst() {
			return VInt{in.fit(st, x.L.scale(y.L.K), T, opKey())}
		}
	case token.QUO:
		if x.L.isConst() && y.L.isConst() && y.L.K != 0 {
			return VInt{cst(x.L.K / y.L.K)}
		}
		if y.L.isConst() && y.L.K > 0 && st.ge0(x.L) {
			// q: 0 <= x - q*c < c
			s := in.syms.mkTyped(opKey(), T, in.sizes)
			inf := &in.syms.infos[s]
			if inf.def == nil {
				inf.def = &symDef{op: "quo"}
				d := x.L.sub(symL(s).scale(y.L.K))
				inf.extra = append(inf.extra, d, d.neg().addK(y.L.K-1))
			}
			return VInt{symL(s)}
		}
	case token.SHL:
		if y.L.isConst() && y.L.K >= 0 && y.L.K < 64 {
			if x.L.isConst() {
				return VInt{cst(x.L.K << uint(y.L.K))}
			}
			if isUnsigned(T) && y.L.K%8 == 0 {
				_, _, _, _, bits := intRange(T, in.sizes)
				n := bits / 8
				bs := in.syms.bytesOf(x.L, n)
				out := make([]Lin, n)
				sh := int(y.L.K / 8)
				for i := 0; i+sh < n; i++ {
					out[i+sh] = bs[i]
				}
				return VInt{in.syms.word(out)}
			}
			if y.L.K < 30 {
				return VInt{in.fit(st, x.L.scale(int64(1)<<uint(y.L.K)), T, opKey())}
			}
		}
	case token.SHR:
		if y.L.isConst() && y.L.K >= 0 && y.L.K < 64 {
			if x.L.isConst() {
				return VInt{cst(x.L.K >> uint(y.L.K))}
			}
			if isUnsigned(T) && y.L.K%8 == 0 {
				_, _, _, _, bits := intRange(T, in.sizes)
				n := bits / 8
				bs := in.syms.bytesOf(x.L, n)
				out := make([]Lin, n)
				sh := int(y.L.K / 8)
				for i := sh; i < n; i++ {
					out[i-sh] = bs[i]
				}
				return VInt{in.syms.word(out)}
			}
		}
	case token.OR, token.XOR:
		if isUnsigned(T) {
			if w, ok := in.mergeWords(st, x.L, y.L, T); ok {
				return VInt{w}
			}
		}
		if x.L.isConst() && y.L.isConst() {
			if op == token.OR {
				return VInt{cst(x.L.K | y.L.K)}
			}
			return VInt{cst(x.L.K ^ y.L.K)}
		}
	case token.AND:
		if x.L.isConst() && y.L.isConst() {
			return VInt{cst(x.L.K & y.L.K)}
		}
		m, o := y.L, x.L
		if x.L.isConst() {
			m, o = x.L, y.L
		}
		if m.isConst() && isUnsigned(T) {
			_, _, _, _, bits := intRange(T, in.sizes)
			n := bits / 8
			bs := in.syms.bytesOf(o, n)
			good := true
			for i := 0; i < n; i++ {
				switch (m.K >> (8 * i)) & 0xff {
				case 0:
					bs[i] = cst(0)
				case 0xff:
				default:
					good = false
				}
			}
			if good {
				return VInt{in.syms.word(bs)}
			}
		}
	}
	return VInt{symL(in.syms.mkTyped(opKey(), T, in.sizes))}
}

// mergeWords adds two byte-wise disjoint words.
func (in *Interp) mergeWords(st *State, a, b Lin, T types.Type) (Lin, bool) {
	isW := func(l Lin) bool {
		if l.isConst() {
			return true
		}
		s, ok := single(l)
		if !ok {
			return false
		}
		i := in.syms.infos[s]
		return i.def != nil && (i.def.op == "word" || i.def.op == "byte" || i.def.op == "elem") || i.hasHi && i.hi <= 255 && i.hasLo && i.lo == 0
	}
	if a.isConst() && b.isConst() || !isW(a) || !isW(b) {
		return Lin{}, false
	}
	_, _, _, _, bits := intRange(T, in.sizes)
	n := bits / 8
	x, y := in.syms.bytesOf(a, n), in.syms.bytesOf(b, n)
	out := make([]Lin, n)
	for i := range out {
		switch {
		case x[i].isConst() && x[i].K == 0:
			out[i] = y[i]
		case y[i].isConst() && y[i].K == 0:
			out[i] = x[i]
		default:
			return Lin{}, false
		}
	}
	return in.wordIn(st, out), true
}

func (in *Interp) convert(st *State, v Value, from, to types.Type) Value {
	if isFloat(to) {
		if x, ok := v.(VInt); ok && isInt(from) {
			return in.mkFloat(x.L.scale(nano), to)
		}
		if l, ok := in.float1e9(v); ok {
			return in.mkFloat(l, to)
		}
	}
	if isFloat(from) && isInt(to) {
		if l, ok := in.float1e9(v); ok {
			if r, ok := in.trunc(st, l, to); ok {
				return r
			}
		}
	}
	if isInt(from) && isInt(to) {
		x, ok := v.(VInt)
		if !ok {
			return in.symbolic("conv("+v.key()+")"+types.TypeString(to, nil), to)
		}
		return VInt{in.convInt(st, x.L, to)}
	}
	fb, fIsB := from.Underlying().(*types.Basic)
	_, toSl := to.Underlying().(*types.Slice)
	if fIsB && fb.Info()&types.IsString != 0 && toSl {
		s, _ := v.(VStr)
		l := in.strLen(s)
		r := st.mkSlice(to, l, l)
		st.seqs[r.Obj] = &Seq{base: "content(" + s.key() + ")", elem: to.Underlying().(*types.Slice).Elem()}
		return r
	}
	tb, tIsB := to.Underlying().(*types.Basic)
	if tIsB && tb.Info()&types.IsString != 0 {
		if s, ok := v.(VSlice); ok {
			q := st.seq(s.Obj, s.T.Underlying().(*types.Slice).Elem())
			in.cl.SeqRead(st, nil, s.Obj, s.Off, s.Len)
			k := "string(" + q.key() + "@" + s.Off.key() + "," + s.Len.key() + ")"
			in.P.strSrc[k] = strSrc{q, s.Off, s.Len}
			ls := in.lenSym("len(str:" + k + ")")
			inf := &in.syms.infos[ls]
			if len(inf.extra) == 0 {
				d := symL(ls).sub(s.Len)
				inf.extra = append(inf.extra, d, d.neg())
			}
			return VStr{K: k}
		}
		if _, ok := v.(VNil); ok {
			e := ""
			return VStr{Const: &e}
		}
	}
	if _, ok := v.(VRef); ok {
		return retype(v, to)
	}
	return in.symbolic("conv("+v.key()+")"+types.TypeString(to, nil), to)
}

type strSrc struct {
	q        *Seq
	off, len Lin
}

func (in *Interp) strLen(s VStr) Lin {
	if s.Const != nil {
		return cst(int64(len(*s.Const)))
	}
	return symL(in.lenSym("len(" + s.key() + ")"))
}

func (in *Interp) convInt(st *State, l Lin, to types.Type) Lin {
	lo, hi, hl, hh, bits := intRange(to, in.sizes)
	if (!hl || st.ge0(l.addK(-lo))) && (!hh || st.ge0(l.neg().addK(hi))) {
		return l
	}
	if l.isConst() && hl && hh && lo == 0 {
		return cst(l.K & hi)
	}
	if hl && lo == 0 && bits < 64 {
		// truncation keeps the low bytes
		n := bits / 8
		return in.syms.truncWord(in.syms.bytesOf(l, n), l, n)
	}
	return symL(in.syms.mkTyped("conv("+l.key()+")"+types.TypeString(to, nil), to, in.sizes))
}

func (t *SymTab) truncWord(bs []Lin, src Lin, n int) Lin {
	return t.word(bs[:n])
}

func isFloat(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
