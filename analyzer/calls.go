package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 40

func (in *Interp) callInfo(st *State, f *Frame, at ssa.Instruction, cc *ssa.CallCommon, kind string) *CallInfo {
	c := &CallInfo{Site: at, Pos: instrPos(at), Kind: kind, Sig: cc.Signature()}
	for _, a := range cc.Args {
		c.Args = append(c.Args, in.val(st, f, a))
	}
	if cc.IsInvoke() {
		c.Method = cc.Method
		c.Recv = in.val(st, f, cc.Value)
		c.Name = cc.Method.Name()
		if r, ok := c.Recv.(VRef); ok {
			c.Role = in.roles[r.K]
		}
		in.resolveInvoke(c)
		return c
	}
	switch fv := cc.Value.(type) {
	case *ssa.Builtin:
		c.Name = "builtin " + fv.Name()
		return c
	case *ssa.Function:
		c.Fn = fv
		c.Name = fv.String()
		return c
	}
	v := in.val(st, f, cc.Value)
	in.resolveFunc(c, v)
	return c
}

func (in *Interp) resolveFunc(c *CallInfo, v Value) {
	if fn, ok := v.(VFunc); ok {
		c.Fn, c.Bind, c.Name = fn.Fn, fn.Bind, fn.Fn.String()
		return
	}
	c.FnVal = v
	c.Name = "func value"
}

func (in *Interp) resolveInvoke(c *CallInfo) {
	r, ok := c.Recv.(VIface)
	if !ok {
		return
	}
	fn := in.prog.LookupMethod(r.Dyn, c.Method.Pkg(), c.Method.Name())
	if fn == nil {
		return
	}
	c.Fn = fn
	c.Name = fn.String()
	c.Args = append([]Value{r.V}, c.Args...)
}

// finish delivers call results to the caller state(s).
func (in *Interp) finish(outs []stVal, res ssa.Value, isDefer bool) []*State {
	var r []*State
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		if !isDefer {
			if res != nil && o.v != nil {
				in.set(o.st, res, o.v)
			}
			o.st.top().idx++
		}
		r = append(r, o.st)
	}
	return r
}

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (in *Interp) inPkg(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	p := fn
	for p.Parent() != nil {
		p = p.Parent()
	}
	if p.Pkg != nil {
		return p.Pkg == in.P.Pkg
	}
	// synthetic wrappers (bound methods, promoted methods)
	if p.Object() != nil {
		return p.Object().Pkg() == in.P.Pkg.Pkg
	}
	return p.Synthetic != ""
}

func (in *Interp) doCall(st *State, c *CallInfo, res *ssa.Call, isDefer bool) []*State {
	var rv ssa.Value
	if res != nil {
		rv = res
	}
	if strings.HasPrefix(c.Name, "builtin ") {
		return in.finish(in.builtin(st, c), rv, isDefer)
	}
	if c.Fn == nil && c.Method != nil && c.Recv != nil {
		if b, known := st.eval(st.nilCond(c.Recv)); !known || b {
			in.cl.Nil(st, c.Site, c.Recv, "method "+c.Method.Name()+" called on a nil interface")
			if known {
				return nil
			}
		}
	}
	if c.Fn == nil && c.Method == nil && c.FnVal != nil {
		// the functions of a list were given by the user
		if b, known := st.eval(st.nilCond(c.FnVal)); b || !known && in.elems[refKey(c.FnVal)].base == "" {
			in.cl.Nil(st, c.Site, c.FnVal, "call of a nil function")
			if known {
				return nil
			}
		}
	}
	in.demands(st, c)
	if outs, ok := in.cl.Call(st, c); ok {
		return in.finish(outs, rv, isDefer)
	}
	if st.dead {
		return nil
	}
	if c.Fn == nil {
		if c.Method != nil {
			if !in.nonNil(st, c.Site, c.Recv, "method "+c.Method.Name()+" called on a nil interface") {
				return nil
			}
		} else if c.FnVal != nil {
			if !in.nonNil(st, c.Site, c.FnVal, "call of a nil function") {
				return nil
			}
		}
		return in.finish(in.opaque(st, c), rv, isDefer)
	}
	if outs, ok := in.model(st, c, rv, isDefer); ok {
		return outs
	}
	if in.inPkg(c.Fn) {
		depth := 0
		for _, f := range st.frames {
			if f.fn == c.Fn {
				depth++
			}
		}
		if depth >= 2 || len(st.frames) > maxDepth {
			in.undecided(c.Site, "recursion through "+c.Fn.String())
			return in.finish(in.opaque(st, c), rv, isDefer)
		}
		f := in.push(st, c.Fn, c.Args, c.Bind, rv, nil)
		f.sub = isDefer
		return []*State{st}
	}
	return in.finish(in.opaque(st, c), rv, isDefer)
}

// picky are library functions that panic when the argument is smaller.
var picky = map[string]struct{ arg, min int }{
	"time.NewTicker": {0, 1}, "(*time.Ticker).Reset": {1, 1},
	"math/rand.Intn": {0, 1}, "math/rand.Int31n": {0, 1}, "math/rand.Int63n": {0, 1},
	"(*math/rand.Rand).Intn": {1, 1}, "(*math/rand.Rand).Int31n": {1, 1}, "(*math/rand.Rand).Int63n": {1, 1},
	"math/rand/v2.IntN": {0, 1}, "math/rand/v2.Int32N": {0, 1}, "math/rand/v2.Int64N": {0, 1},
	"math/rand/v2.UintN": {0, 1}, "math/rand/v2.Uint32N": {0, 1}, "math/rand/v2.Uint64N": {0, 1},
	"strings.Repeat": {1, 0}, "bytes.Repeat": {1, 0}, "(*bytes.Buffer).Grow": {1, 0}, "(*strings.Builder).Grow": {1, 0},
}

func (in *Interp) demands(st *State, c *CallInfo) {
	d, ok := picky[c.Name]
	if !ok || d.arg >= len(c.Args) {
		return
	}
	if v, ok := c.Args[d.arg].(VInt); ok && st.ge0(v.L.addK(int64(-d.min))) {
		return
	}
	in.cl.Panic(st, c.Site, fmt.Sprintf("%s panics when its argument is less than %d", c.Name, d.min))
}

// invokeFn calls fn from a model; post computes the value of the original
// call from the result.
func (in *Interp) invokeFn(st *State, c *CallInfo, rv ssa.Value, isDefer bool, post func(*State, Value) []stVal) []*State {
	if outs, ok := in.cl.Call(st, c); ok {
		var r []*State
		for _, o := range outs {
			r = append(r, in.finish(post(o.st, o.v), rv, isDefer)...)
		}
		return r
	}
	if c.Fn == nil || !in.inPkg(c.Fn) {
		var r []*State
		for _, o := range in.opaque(st, c) {
			r = append(r, in.finish(post(o.st, o.v), rv, isDefer)...)
		}
		return r
	}
	f := in.push(st, c.Fn, c.Args, c.Bind, rv, nil)
	f.sub = isDefer
	in.posts[f.id(in)] = post
	return []*State{st}
}

func (in *Interp) ret(st *State, f *Frame, x *ssa.Return) []*State {
	var v Value
	switch len(x.Results) {
	case 0:
	case 1:
		v = in.val(st, f, x.Results[0])
	default:
		t := VTuple{}
		for _, r := range x.Results {
			t.V = append(t.V, in.val(st, f, r))
		}
		v = t
	}
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		in.paths++
		in.cl.End(st, v)
		return nil
	}
	if f.post != 0 {
		return in.finish(in.posts[f.post](st, v), f.res, f.sub)
	}
	return in.finish([]stVal{{st, v}}, f.res, f.sub)
}

func (f *Frame) id(in *Interp) int {
	in.nposts++
	f.post = in.nposts
	return f.post
}

// opaque is a call whose body is not analysed.
func (in *Interp) opaque(st *State, c *CallInfo) []stVal {
	if !pureCall(c) {
		for _, a := range c.Args {
			in.havocArg(st, c, a)
		}
	}
	T := resultType(c.Sig)
	if T == nil {
		return []stVal{{st, nil}}
	}
	name := c.Name
	if i := strings.LastIndexAny(name, "/"); i >= 0 {
		name = name[i+1:]
	}
	v := in.fresh(name, T)
	if x, ok := v.(VRef); ok && isNamed(T, "net", "Addr") {
		st.facts["nil:"+x.K] = false // of a connection or listener
	}
	if tu, ok := v.(VTuple); ok && len(tu.V) == 2 && fromLibrary(c) {
		// a result and an error: without an error there is a result
		x, ok1 := tu.V[0].(VRef)
		e, ok2 := tu.V[1].(VRef)
		if ok1 && ok2 && types.Identical(e.T, errorT) {
			bad := st.clone()
			st.facts["nil:"+x.K], st.facts["nil:"+e.K] = false, true
			bad.facts["nil:"+e.K] = false
			return []stVal{{st, v}, {bad, v}}
		}
	}
	return []stVal{{st, v}}
}

// fromLibrary: a function of the standard library.
func fromLibrary(c *CallInfo) bool {
	return c.Fn != nil && c.Fn.Pkg != nil && len(c.Fn.Blocks) == 0 && !strings.Contains(strings.SplitN(c.Fn.Pkg.Pkg.Path(), "/", 2)[0], ".")
}

var purePkgs = map[string]bool{"fmt": true, "errors": true, "time": true, "strings": true, "strconv": true,
	"log": true, "reflect": true, "math": true, "sort": true, "sync/atomic": true, "sync": true, "unicode": true, "os": true, "net": true, "runtime": true}

func pureCall(c *CallInfo) bool {
	if c.Fn != nil {
		p := c.Fn.Pkg
		if p == nil && c.Fn.Object() != nil && c.Fn.Object().Pkg() != nil {
			return purePkgs[c.Fn.Object().Pkg().Path()]
		}
		return p != nil && purePkgs[p.Pkg.Path()]
	}
	return false
}

// havocArg forgets what unknown code may change through the argument.
func (in *Interp) havocArg(st *State, c *CallInfo, a Value) {
	switch x := a.(type) {
	case VSlice:
		in.cl.SeqWrite(st, c.Site, x.Obj, x.Off, x.Len)
		q := st.seq(x.Obj, x.T.Underlying().(*types.Slice).Elem())
		src := &Seq{base: in.freshKey("ext"), elem: q.elem}
		st.seqs[x.Obj] = q.with(seqEntry{off: x.Off, n: x.Len, src: src, srcOff: cst(0)})
	case VRef:
		pre := x.K + "."
		for k := range st.heap {
			if k == x.K || strings.HasPrefix(k, pre) {
				if T, ok := in.cellType(st, k); ok {
					st.heap[k] = in.fresh("havoc", T)
				} else {
					delete(st.heap, k)
				}
			}
		}
	case VIface:
		in.havocArg(st, c, x.V)
	}
}

func (in *Interp) cellType(st *State, k string) (types.Type, bool) {
	switch v := st.heap[k].(type) {
	case VRef:
		return v.T, true
	case VNil:
		return v.T, true
	case VSlice:
		return v.T, true
	case VInt:
		return types.Typ[types.Int], true
	case VBool:
		return types.Typ[types.Bool], true
	case VStr:
		return types.Typ[types.String], true
	}
	return nil, false
}

func asSlice(v Value) (VSlice, bool) {
	switch x := v.(type) {
	case VSlice:
		return x, true
	case VNil:
		return VSlice{Obj: "nilslice", T: x.T}, true
	}
	return VSlice{}, false
}

func (in *Interp) builtin(st *State, c *CallInfo) []stVal {
	one := func(v Value) []stVal { return []stVal{{st, v}} }
	switch strings.TrimPrefix(c.Name, "builtin ") {
	case "len", "cap":
		switch x := c.Args[0].(type) {
		case VSlice:
			if c.Name == "builtin len" {
				return one(VInt{x.Len})
			}
			return one(VInt{x.Cap})
		case VNil:
			return one(VInt{cst(0)})
		case VStr:
			return one(VInt{in.strLen(x)})
		case VRef:
			if _, ok := x.T.Underlying().(*types.Map); ok {
				m := st.mapOf(x.K + x.Path)
				return one(VInt{symL(in.lenSym("len(map:" + m.key() + ")"))})
			}
		}
		return one(VInt{symL(in.lenSym(in.freshKey("len")))})
	case "copy":
		return in.copy(st, c)
	case "append":
		return in.append(st, c)
	case "delete":
		in.cl.MapWrite(st, c.Site, c.Args[0], c.Args[1], nil, true)
		if r, ok := c.Args[0].(VRef); ok {
			st.maps[r.K+r.Path] = st.mapOf(r.K + r.Path).with(mapEntry{k: c.Args[1], del: true})
		}
		return one(nil)
	case "close":
		in.cl.Close(st, c.Site, c.Args[0])
		return one(nil)
	case "panic":
		in.cl.Panic(st, c.Site, "panic")
		return nil
	case "min", "max":
		if len(c.Args) == 2 {
			a, ok1 := c.Args[0].(VInt)
			b, ok2 := c.Args[1].(VInt)
			if ok1 && ok2 {
				less, ge := st.split(geC(b.L.sub(a.L)))
				var out []stVal
				x, y := a, b
				if c.Name == "builtin max" {
					x, y = b, a
				}
				for _, s := range less {
					out = append(out, stVal{s, x})
				}
				for _, s := range ge {
					out = append(out, stVal{s, y})
				}
				return out
			}
		}
	case "print", "println":
		return one(nil)
	case "recover":
		return one(VNil{resultType(c.Sig)})
	}
	if T := resultType(c.Sig); T != nil {
		return one(in.fresh("builtin", T))
	}
	return one(nil)
}

func (in *Interp) copy(st *State, c *CallInfo) []stVal {
	d, ok := asSlice(c.Args[0])
	if !ok {
		return []stVal{{st, in.fresh("copy", types.Typ[types.Int])}}
	}
	var sLen Lin
	var s VSlice
	var srcSeq *Seq
	switch x := c.Args[1].(type) {
	case VSlice:
		s, sLen = x, x.Len
	case VNil:
		sLen = cst(0)
	case VStr:
		sLen = in.strLen(x)
		srcSeq = &Seq{base: "content(" + x.key() + ")", elem: types.Typ[types.Byte]}
	default:
		return []stVal{{st, in.fresh("copy", types.Typ[types.Int])}}
	}
	var out []stVal
	do := func(t *State, n Lin) {
		if n.isConst() && n.K == 0 {
			out = append(out, stVal{t, VInt{n}})
			return
		}
		src := srcSeq
		if src == nil {
			in.cl.SeqRead(t, c.Site, s.Obj, s.Off, n)
			src = t.seq(s.Obj, s.T.Underlying().(*types.Slice).Elem())
		}
		in.cl.SeqWrite(t, c.Site, d.Obj, d.Off, n)
		q := t.seq(d.Obj, d.T.Underlying().(*types.Slice).Elem())
		t.seqs[d.Obj] = q.with(seqEntry{off: d.Off, n: n, src: src, srcOff: s.Off})
		out = append(out, stVal{t, VInt{n}})
	}
	fits, no := st.split(geC(d.Len.sub(sLen)))
	for _, t := range fits {
		do(t, sLen)
	}
	for _, t := range no {
		do(t, d.Len)
	}
	return out
}

func (in *Interp) append(st *State, c *CallInfo) []stVal {
	a, ok := asSlice(c.Args[0])
	T := resultType(c.Sig)
	if !ok || len(c.Args) < 2 {
		return []stVal{{st, in.fresh("append", T)}}
	}
	elem := T.Underlying().(*types.Slice).Elem()
	var b VSlice
	var bSeq *Seq
	switch x := c.Args[1].(type) {
	case VSlice:
		b = x
	case VNil:
	case VStr:
		b.Len = in.strLen(x)
		bSeq = &Seq{base: "content(" + x.key() + ")", elem: elem}
	default:
		return []stVal{{st, in.fresh("append", T)}}
	}
	var out []stVal
	nl := a.Len.add(b.Len)
	zero, some := st.split(geC(b.Len.neg()))
	for _, t := range zero {
		v := Value(a)
		if a.Obj == "nilslice" {
			v = VNil{T}
		}
		out = append(out, stVal{t, v})
	}
	for _, t := range some {
		if bSeq == nil {
			in.cl.SeqRead(t, c.Site, b.Obj, b.Off, b.Len)
		}
		srcOf := func(u *State) *Seq {
			if bSeq != nil {
				return bSeq
			}
			return u.seq(b.Obj, elem)
		}
		inplace, grow := t.split(geC(a.Cap.sub(nl)))
		for _, u := range inplace {
			in.cl.SeqWrite(u, c.Site, a.Obj, a.Off.add(a.Len), b.Len)
			src := srcOf(u)
			q := u.seq(a.Obj, elem)
			u.seqs[a.Obj] = q.with(seqEntry{off: a.Off.add(a.Len), n: b.Len, src: src, srcOff: b.Off})
			out = append(out, stVal{u, VSlice{Obj: a.Obj, Off: a.Off, Len: nl, Cap: a.Cap, T: T}})
		}
		for _, u := range grow {
			cs := in.lenSym(in.freshKey("cap"))
			in.syms.infos[cs].hasHi = false
			u.addGE(symL(cs).sub(nl))
			r := u.mkSlice(T, nl, symL(cs))
			q := u.seqs[r.Obj]
			if !(a.Len.isConst() && a.Len.K == 0) {
				q = q.with(seqEntry{off: cst(0), n: a.Len, src: u.seq(a.Obj, elem), srcOff: a.Off})
			}
			q = q.with(seqEntry{off: a.Len, n: b.Len, src: srcOf(u), srcOff: b.Off})
			u.seqs[r.Obj] = q
			out = append(out, stVal{u, r})
		}
	}
	return out
}

var _ = fmt.Sprint
