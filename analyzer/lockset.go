package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockWalk follows every path of a function, and of the functions of the
// package it calls, with the set of locks held.
type lockWalk struct {
	f     *flow
	root  *ssa.Function
	memo  map[string][][]string
	stack []*ssa.Function
	fns   map[*ssa.Function]bool
	paths int

	acquire func(at ssa.Instruction, class, mode string, held []string)
	release func(at ssa.Instruction, class string, ok bool, held []string)
	foreign func(at ssa.Instruction, what string, held []string)
	blocks  func(at ssa.Instruction, what string, held []string)
	access  func(at ssa.Instruction, a fieldAccess, held []string)
}

// fieldAccess is one access to a field of a struct or a global variable.
type fieldAccess struct {
	obj    types.Object
	owner  string
	write  bool
	atomic bool
	fresh  bool
	inner  bool // the map kept there
	elem   bool // an element of the slice kept there
}

type lstate struct {
	held   []string
	defers []*ssa.Defer
	asm    map[ssa.Value]bool
	try    map[ssa.Value]string
}

func (s *lstate) clone() *lstate {
	n := &lstate{held: append([]string{}, s.held...), defers: append([]*ssa.Defer{}, s.defers...), asm: map[ssa.Value]bool{}, try: s.try}
	for k, v := range s.asm {
		n.asm[k] = v
	}
	return n
}

func (s *lstate) key() string {
	var d, a []string
	for _, x := range s.defers {
		d = append(d, fmt.Sprint(x.Pos()))
	}
	for v, b := range s.asm {
		a = append(a, fmt.Sprint(v.Name(), b))
	}
	sort.Strings(a)
	return strings.Join(s.held, ",") + "|" + strings.Join(d, ",") + "|" + strings.Join(a, ",")
}

func classOf(h string) string { return strings.TrimSuffix(h, "/r") }

func hasClass(held []string, c string) bool {
	for _, h := range held {
		if classOf(h) == c {
			return true
		}
	}
	return false
}

func without(held []string, h string) ([]string, bool) {
	for i := len(held) - 1; i >= 0; i-- {
		if held[i] == h {
			return append(append([]string{}, held[:i]...), held[i+1:]...), true
		}
	}
	return held, false
}

// mutexCall recognises operations of sync.Mutex, sync.RWMutex and sync.Locker.
func mutexCall(c *ssa.CallCommon) (op string, recv ssa.Value) {
	if c.IsInvoke() {
		if isNamed(c.Value.Type(), "sync", "Locker") {
			return c.Method.Name(), c.Value
		}
		return "", nil
	}
	g := c.StaticCallee()
	if g == nil || g.Signature.Recv() == nil || len(c.Args) == 0 {
		return "", nil
	}
	n, ok := ptrToNamed(g.Signature.Recv().Type())
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
		return "", nil
	}
	if n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex" {
		return g.Name(), c.Args[0]
	}
	return "", nil
}

// reused are the conditions a function branches on more than once.
func reused(fn *ssa.Function) map[ssa.Value]bool {
	n := map[ssa.Value]int{}
	for _, b := range fn.Blocks {
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			v, _ := stripNot(i.Cond)
			n[v]++
		}
	}
	out := map[ssa.Value]bool{}
	for v, k := range n {
		if k > 1 {
			out[v] = true
		}
	}
	return out
}

func stripNot(v ssa.Value) (ssa.Value, bool) {
	neg := false
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			return v, neg
		}
		v, neg = u.X, !neg
	}
}

// walk gives the locks that can be held when fn returns.
func (w *lockWalk) walk(fn *ssa.Function, held []string) [][]string {
	mk := fmt.Sprintf("%p|%s", fn, strings.Join(held, ","))
	if r, ok := w.memo[mk]; ok {
		return r
	}
	w.memo[mk] = [][]string{held} // for recursion
	for _, g := range w.stack {
		if g == fn && len(w.stack) > 40 {
			return [][]string{held}
		}
	}
	w.stack = append(w.stack, fn)
	w.fns[fn] = true
	defer func() { w.stack = w.stack[:len(w.stack)-1] }()
	keep := reused(fn)
	exits := map[string][]string{}
	type item struct {
		b    *ssa.BasicBlock
		from *ssa.BasicBlock
		s    *lstate
	}
	seen := map[string]bool{}
	todo := []item{{fn.Blocks[0], nil, &lstate{held: held, asm: map[ssa.Value]bool{}, try: map[ssa.Value]string{}}}}
	for len(todo) > 0 {
		it := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		k := fmt.Sprint(it.b.Index, "|", it.s.key())
		if it.from != nil {
			for _, i := range it.b.Instrs { // constants chosen by the branch taken
				phi, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				delete(it.s.asm, phi)
				if !isBool(phi.Type()) {
					continue
				}
				for n, p := range it.b.Preds {
					if p != it.from {
						continue
					}
					if c, ok := phi.Edges[n].(*ssa.Const); ok && c.Value != nil {
						it.s.asm[phi] = constant.BoolVal(c.Value)
					} else if v, known := it.s.asm[phi.Edges[n]]; known {
						it.s.asm[phi] = v
					}
				}
			}
			k = fmt.Sprint(it.b.Index, "|", it.s.key())
		}
		if seen[k] || len(seen) > 20000 {
			continue
		}
		seen[k] = true
		w.paths++
		states := []*lstate{it.s}
		for _, i := range it.b.Instrs {
			var nx []*lstate
			for _, s := range states {
				nx = append(nx, w.instr(fn, i, s)...)
			}
			states = nx
		}
		last := it.b.Instrs[len(it.b.Instrs)-1]
		for _, s := range states {
			switch x := last.(type) {
			case *ssa.Return:
				exits[strings.Join(s.held, ",")] = s.held
			case *ssa.If:
				v, neg := stripNot(x.Cond)
				for n, succ := range it.b.Succs {
					val := (n == 0) != neg
					if c, ok := v.(*ssa.Const); ok && c.Value != nil && constant.BoolVal(c.Value) != val {
						continue
					}
					if b, ok := s.asm[v]; ok && b != val {
						continue
					}
					t := s.clone()
					if keep[v] {
						t.asm[v] = val
					}
					if h, ok := s.try[v]; ok && val {
						t.held = append(t.held, h)
					}
					todo = append(todo, item{succ, it.b, t})
				}
			case *ssa.Panic:
			default:
				for _, succ := range it.b.Succs {
					todo = append(todo, item{succ, it.b, s.clone()})
				}
			}
		}
	}
	var out [][]string
	for _, k := range sortedKeys(exits) {
		out = append(out, exits[k])
	}
	w.memo[mk] = out
	return out
}

func (w *lockWalk) instr(fn *ssa.Function, i ssa.Instruction, s *lstate) []*lstate {
	w.accesses(fn, i, s)
	switch x := i.(type) {
	case *ssa.Call:
		return w.call(x, x.Common(), s, x)
	case *ssa.Defer:
		if len(s.defers) < 12 {
			s.defers = append(s.defers, x)
		}
	case *ssa.RunDefers:
		states := []*lstate{s}
		for len(states) > 0 && len(states[0].defers) > 0 {
			var nx []*lstate
			for _, t := range states {
				if len(t.defers) == 0 {
					nx = append(nx, t)
					continue
				}
				d := t.defers[len(t.defers)-1]
				t.defers = t.defers[:len(t.defers)-1]
				nx = append(nx, w.call(d, d.Common(), t, nil)...)
			}
			states = nx
		}
		return states
	case *ssa.Send:
		if !w.roomy(x.Chan) {
			w.blocking(i, "a send on a channel", s.held)
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			w.blocking(i, "a receive from a channel", s.held)
		}
	case *ssa.Select:
		if x.Blocking {
			w.blocking(i, "a select", s.held)
		}
	}
	return []*lstate{s}
}

// roomy: the channel is always made with room for what is sent, and stays
// inside the package.
func (w *lockWalk) roomy(ch ssa.Value) bool {
	n := 0
	for s := range w.f.srcs(ch) {
		m, ok := s.(*ssa.MakeChan)
		if !ok {
			if c, isC := s.(*ssa.Const); isC && c.Value == nil {
				continue
			}
			return false
		}
		c, ok := m.Size.(*ssa.Const)
		if !ok || c.Int64() < 1 {
			return false
		}
		n++
	}
	return n > 0
}

func (w *lockWalk) blocking(at ssa.Instruction, what string, held []string) {
	if w.blocks != nil && len(held) > 0 {
		w.blocks(at, what, held)
	}
}

var blockingCalls = map[string]bool{"time.Sleep": true, "net.Dial": true, "net.DialTimeout": true, "(*net.Dialer).Dial": true, "(*net.Dialer).DialContext": true,
	"net.DialTCP": true, "net.DialUnix": true, "(*sync.WaitGroup).Wait": true, "(*sync.Cond).Wait": true, "io.ReadFull": true, "io.Copy": true, "io.ReadAll": true, "io.ReadAtLeast": true}

var blockingMethods = map[string]bool{"Read": true, "Write": true, "Accept": true, "AcceptTCP": true, "AcceptUnix": true, "NextConnection": true, "GetReference": true, "SetReference": true,
	"OnUpperData": true, "OnLowerData": true, "OnEvent": true}

func (w *lockWalk) call(at ssa.Instruction, c *ssa.CallCommon, s *lstate, rv ssa.Value) []*lstate {
	if op, recv := mutexCall(c); op != "" {
		class := w.f.lockClass(recv)
		h, mode := class, "w"
		if op == "RLock" || op == "RUnlock" || op == "TryRLock" {
			h, mode = class+"/r", "r"
		}
		switch op {
		case "Lock", "RLock":
			if w.acquire != nil {
				w.acquire(at, class, mode, s.held)
			}
			s.held = append(append([]string{}, s.held...), h)
		case "TryLock", "TryRLock":
			if rv != nil {
				t := s.clone()
				t.try = map[ssa.Value]string{rv: h}
				return []*lstate{t}
			}
		case "Unlock", "RUnlock":
			rest, ok := without(s.held, h)
			if w.release != nil {
				w.release(at, class, ok, s.held)
			}
			s.held = rest
		}
		return []*lstate{s}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		_ = b
		return []*lstate{s}
	}
	held := s.held
	name := ""
	if g := c.StaticCallee(); g != nil {
		name = g.String()
	}
	if c.IsInvoke() {
		m := c.Method.Name()
		if len(held) > 0 {
			switch {
			case m == "OnUpperData" || m == "OnLowerData" || m == "OnEvent":
				w.hit(at, "the "+m+" of another component", held)
				return []*lstate{s}
			case blockingMethods[m]:
				w.blocking(at, m, held)
				return []*lstate{s}
			}
		}
	}
	if blockingCalls[name] || strings.HasPrefix(name, "(*net.") && blockingMethods[name[strings.LastIndex(name, ".")+1:]] {
		w.blocking(at, name, held)
	}
	if name == "(*sync.Once).Do" && len(c.Args) == 2 {
		var out []*lstate
		fns, _ := w.f.callees(&ssa.CallCommon{Value: c.Args[1]})
		for _, g := range fns {
			for _, h := range w.walk(g, append(append([]string{}, held...), w.f.lockClass(c.Args[0]))) {
				t := s.clone()
				t.held, _ = without(h, w.f.lockClass(c.Args[0]))
				out = append(out, t)
			}
		}
		if len(out) > 0 {
			return out
		}
		return []*lstate{s}
	}
	fns, ext := w.f.callees(c)
	if ext && !c.IsInvoke() && len(held) > 0 {
		w.hit(at, "a function given by the user", held)
	}
	if c.IsInvoke() && len(held) == 0 {
		return []*lstate{s} // the implementations are analysed on their own
	}
	outs := map[string]*lstate{}
	for _, g := range fns {
		if len(g.Blocks) == 0 || !w.own(g) {
			for _, a := range c.Args { // functions handed to other packages
				if _, ok := a.Type().Underlying().(*types.Signature); ok {
					gs, _ := w.f.callees(&ssa.CallCommon{Value: a})
					for _, h := range gs {
						if len(h.Blocks) > 0 {
							w.walk(h, held)
						}
					}
				}
			}
			continue
		}
		for _, h := range w.walk(g, held) {
			t := s.clone()
			t.held = h
			outs[strings.Join(h, ",")] = t
		}
	}
	if len(outs) == 0 {
		return []*lstate{s}
	}
	var out []*lstate
	for _, k := range sortedKeys(outs) {
		out = append(out, outs[k])
	}
	return out
}

func (w *lockWalk) own(g *ssa.Function) bool {
	for g.Parent() != nil {
		g = g.Parent()
	}
	if g.Pkg == w.f.p.Pkg {
		return true
	}
	// wrappers and bound methods of the package's types
	return g.Pkg == nil && g.Object() != nil && g.Object().Pkg() == w.f.p.Pkg.Pkg
}

func (w *lockWalk) hit(at ssa.Instruction, what string, held []string) {
	if w.foreign != nil && len(held) > 0 {
		w.foreign(at, what, held)
	}
}

// accesses reports what the instruction reads and writes.
func (w *lockWalk) accesses(fn *ssa.Function, i ssa.Instruction, s *lstate) {
	if w.access == nil {
		return
	}
	rep := func(a fieldAccess) { w.access(i, a, s.held) }
	addr := func(v ssa.Value, write, atomic bool) {
		switch a := v.(type) {
		case *ssa.IndexAddr:
			if _, ok := a.X.Type().Underlying().(*types.Slice); ok && !madeHere(a.X, 0) {
				for _, o := range w.f.homes(a.X) {
					rep(fieldAccess{obj: o, write: write, atomic: atomic, elem: true})
				}
			}
		case *ssa.FieldAddr:
			rep(fieldAccess{obj: fieldVar(a), owner: types.TypeString(deref(a.X.Type()), func(*types.Package) string { return "" }), write: write, atomic: atomic, fresh: madeHere(a.X, 0)})
		case *ssa.Global:
			if a.Object() != nil && a.Pkg == w.f.p.Pkg {
				rep(fieldAccess{obj: a.Object(), owner: "var", write: write, atomic: atomic, fresh: fn.Name() == "init"})
			}
		}
	}
	inner := func(m ssa.Value, write bool) {
		if _, ok := m.Type().Underlying().(*types.Map); !ok {
			return
		}
		if madeHere(m, 0) {
			return
		}
		for _, o := range w.f.homes(m) {
			rep(fieldAccess{obj: o, owner: "", write: write, inner: true})
		}
	}
	switch x := i.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			addr(x.X, false, false)
		}
	case *ssa.Store:
		addr(x.Addr, true, false)
	case *ssa.MapUpdate:
		inner(x.Map, true)
	case *ssa.Lookup:
		inner(x.X, false)
	case *ssa.Next:
		if r, ok := x.Iter.(*ssa.Range); ok {
			inner(r.X, false)
		}
	case *ssa.Call:
		w.callAccess(x.Common(), addr, inner)
	case *ssa.Defer:
		// when it runs
	case *ssa.Go:
	}
}

func (w *lockWalk) callAccess(c *ssa.CallCommon, addr func(ssa.Value, bool, bool), inner func(ssa.Value, bool)) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete", "clear":
			inner(c.Args[0], true)
		case "len":
			inner(c.Args[0], false)
		}
		return
	}
	g := c.StaticCallee()
	if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "sync/atomic" || len(c.Args) == 0 {
		return
	}
	if g.Signature.Recv() == nil {
		addr(c.Args[0], !strings.HasPrefix(g.Name(), "Load"), true)
	}
}

// madeHere: the object was made here and nobody else knows it yet.
func madeHere(v ssa.Value, n int) bool {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return true
	case *ssa.FieldAddr:
		return n < 5 && madeHere(x.X, n+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if n > 5 || !madeHere(e, n+1) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return n < 5 && madeHere(x.X, n+1)
	}
	return false
}
