package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// machine finds the states an object of type T can be in between the
// sections its lock protects: the values of its bools, whether its
// references are nil, whether its channels are closed and its sync.Once
// used.  Every entry is interpreted from every state; whenever the lock is
// taken, others may have brought the object to any state found so far.
type machine struct {
	*chanRun
	T     *types.Named
	r     *Report
	cells []mcell
	locks map[string]bool // "o.path" of the mutexes of T
	found map[string]aState
	order []string
	dirty bool
	memo  map[string]aState
	fixed map[string]bool // cells only constructors write
	ghost []string        // entries of State.disc that belong to the object

	prep       func(st *State)                           // a state an entry starts in
	imposed    func(st *State, site string, s aState)    // a section begins
	variants   map[string][]string                       // other ways for it to begin
	lockBefore func(st *State)                           // a lock is about to be taken
	section    func(st *State)                           // a section ends, before it is recorded
	hold       func(st *State) bool                      // the states at the end of the section are recorded later
	maps       func(st *State, key string, T types.Type) // a table at the start of a section
}

type mcell struct {
	path, kind string // bool, chan, nil, once
	T          types.Type
}

type aState map[string]string

func (s aState) key() string {
	var ks []string
	for k, v := range s {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

func newMachine(p *Program, r *Report, T *types.Named) *machine {
	m := &machine{T: T, r: r, locks: map[string]bool{}, found: map[string]aState{}}
	m.scan(p, T, "")
	m.fixed = map[string]bool{}
	for _, c := range m.cells {
		if fv := p.fieldOf(T, c.path); fv != nil {
			m.fixed[c.path] = p.onlyMade(fv)
		}
	}
	m.relevant(p)
	pr, _ := attrRun(p, r, T)
	m.chanRun = &chanRun{procRun: pr}
	return m
}

func (m *machine) scan(p *Program, T types.Type, path string) {
	s, ok := structOf(T)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		ft, fp := f.Type(), path+"."+f.Name()
		if n, ok := ft.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
			switch n.Obj().Name() {
			case "Mutex", "RWMutex":
				m.locks["o"+fp] = true
			case "Once":
				m.cells = append(m.cells, mcell{fp, "once", ft})
			}
			continue
		}
		if n, ok := ft.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic" {
			if n.Obj().Name() == "Bool" {
				m.cells = append(m.cells, mcell{fp + ".v", "bool", types.Typ[types.Bool]})
			} else if strings.Contains(n.Obj().Name(), "nt") {
				m.cells = append(m.cells, mcell{fp + ".v", "int", types.Typ[types.Int32]})
			}
			continue
		}
		switch u := ft.Underlying().(type) {
		case *types.Struct:
			if n, ok := ft.(*types.Named); !ok || n.Obj().Pkg() == p.Pkg.Pkg {
				m.scan(p, ft, fp)
			}
		case *types.Basic:
			if u.Info()&types.IsBoolean != 0 {
				m.cells = append(m.cells, mcell{fp, "bool", ft})
			}
			if u.Kind() == types.Int32 || u.Kind() == types.Uint32 {
				m.cells = append(m.cells, mcell{fp, "int", ft})
			}
		case *types.Chan:
			m.cells = append(m.cells, mcell{fp, "chan", ft})
		case *types.Interface, *types.Signature, *types.Pointer, *types.Map:
			m.cells = append(m.cells, mcell{fp, "nil", ft})
		}
	}
}

// relevant keeps the cells that belong to the state: channels, sync.Once and
// what is written by functions that take locks (by any function, if the type
// has no lock). Settings may have any value at any time.
func (m *machine) relevant(p *Program) {
	f := newFlow(p)
	inside := map[*ssa.Function]bool{}
	for _, fn := range entriesOf(f, m.T) {
		rs := f.reached(fn, map[*ssa.Function]bool{})
		locks := len(m.locks) == 0
		for h := range rs {
			for _, b := range h.Blocks {
				for _, i := range b.Instrs {
					if c, ok := i.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "sync" && strings.HasSuffix(g.Name(), "Lock") {
							locks = true
						}
					}
				}
			}
		}
		if locks {
			for h := range rs {
				inside[h] = true
			}
		}
	}
	var out []mcell
	for _, c := range m.cells {
		keep := c.kind == "chan" || c.kind == "once"
		fv := p.fieldOf(m.T, strings.TrimSuffix(c.path, ".v"))
		if fv == nil {
			fv = p.fieldOf(m.T, c.path)
		}
		for h := range inside {
			for _, b := range h.Blocks {
				for _, i := range b.Instrs {
					a, ok := i.(*ssa.FieldAddr)
					if !ok || fieldVar(a) != fv || keep {
						continue
					}
					if _, made := a.X.(*ssa.Alloc); made {
						continue
					}
					for _, u := range *a.Referrers() {
						if l, ok := u.(*ssa.UnOp); !ok || l.X != a {
							keep = true
						}
					}
				}
			}
		}
		if keep {
			out = append(out, c)
		}
	}
	m.cells = out
}

// reset gives the machine a new interpreter.
func (m *machine) reset() *State {
	pr := m.procRun
	pr.in = newInterp(pr.p, pr)
	pr.world.in = pr.in
	return pr.in.newState()
}

// abstract lists the states the object k may be in.
func (m *machine) abstract(st *State, k string) []aState {
	out := []aState{{}}
	for _, c := range m.cells {
		var vs []string
		nilness := func(v Value, set string) {
			b, known := st.eval(st.nilCond(v))
			if !known || b {
				vs = append(vs, "nil")
			}
			if !known || !b {
				vs = append(vs, set)
			}
		}
		switch c.kind {
		case "bool":
			v, ok := st.load(k, c.path, c.T).(VBool)
			b, known := false, false
			if ok {
				b, known = st.eval(v.C)
			}
			if !known || b {
				vs = append(vs, "true")
			}
			if !known || !b {
				vs = append(vs, "false")
			}
		case "int":
			vs = []string{"?"}
			v := st.load(k, c.path, c.T)
			if x, ok := v.(VInt); ok && x.L.isConst() && x.L.K >= 0 && x.L.K <= 3 {
				vs = []string{strconv.Itoa(int(x.L.K))}
			}
		case "chan":
			v := st.load(k, c.path, c.T)
			if isShut(st, refKey(v)) {
				vs = []string{"closed"}
			} else {
				nilness(v, "open")
			}
		case "nil":
			nilness(st.load(k, c.path, c.T), "set")
		case "once":
			b, known := st.facts["once:"+k+c.path]
			if isNew(k) && !known {
				b, known = false, true
			}
			if !known || b {
				vs = append(vs, "used")
			}
			if !known || !b {
				vs = append(vs, "unused")
			}
		}
		out = m.times(out, c.path, vs)
	}
	for _, g := range m.ghost {
		out = m.times(out, "@"+g, []string{st.disc[g]})
	}
	return out
}

func (m *machine) times(in []aState, k string, vs []string) (out []aState) {
	for _, s := range in {
		for _, v := range vs {
			t := aState{}
			for a, b := range s {
				t[a] = b
			}
			t[k] = v
			out = append(out, t)
		}
	}
	return out
}

func (m *machine) remember(s aState) {
	if m.memo == nil {
		m.memo = map[string]aState{}
	}
	m.memo[s.key()] = s
}

func (m *machine) record(ss []aState) {
	for _, s := range ss {
		k := s.key()
		if _, ok := m.found[k]; !ok {
			m.found[k] = s
			m.order = append(m.order, k)
			m.dirty = true
		}
	}
}

// impose brings object o to state s; site names the channels and references
// it has there. same keeps the channels it had before. False if it cannot be.
func (m *machine) impose(st *State, site string, s aState, same bool) bool {
	m.p.eachCell(m.T, "", func(path string, FT types.Type) {
		switch FT.Underlying().(type) {
		case *types.Map:
			base := "shared" + path + "@" + site
			for k := range st.facts {
				if strings.Contains(k, base) {
					delete(st.facts, k)
				}
			}
			for k := range st.disc {
				if strings.HasPrefix(k, "owned:") || strings.HasPrefix(k, "shut:shared"+path) {
					delete(st.disc, k)
				}
			}
			st.maps["o"+path] = &MapC{base: base}
			delete(st.heap, "o"+path)
			if m.maps != nil {
				m.maps(st, "o"+path, FT)
			}
		case *types.Slice:
			st.heap["o"+path] = m.in.symbolic(site+path, FT)
		case *types.Basic:
			if !isBool(FT) {
				st.heap["o"+path] = m.in.symbolic(site+path, FT)
			}
		}
	})
	for _, c := range m.cells {
		v := s[c.path]
		key := site + c.path
		if _, isMap := c.T.Underlying().(*types.Map); isMap || m.fixed[c.path] {
			key = "o" + c.path // never replaced, or its content is not known
		}
		switch c.kind {
		case "bool":
			st.heap["o"+c.path] = VBool{boolC(v == "true")}
		case "int":
			if n, err := strconv.Atoi(v); err == nil {
				st.heap["o"+c.path] = VInt{cst(int64(n))}
			} else {
				st.heap["o"+c.path] = m.in.symbolic(key, c.T)
			}
		case "chan":
			if same {
				old := st.load("o", c.path, c.T)
				k := refKey(old)
				if v == "nil" || k == "?" || v == "open" && isShut(st, k) {
					return false
				}
				if b, known := st.eval(st.nilCond(old)); known && b {
					return false
				}
				if v == "closed" {
					st.disc["shut:"+k] = "1"
				}
				continue
			}
			if m.fixed[c.path] && v == "open" && isShut(st, key) {
				return false
			}
			delete(st.disc, "shut:"+key)
			if v == "nil" {
				st.heap["o"+c.path] = VNil{c.T}
				continue
			}
			st.heap["o"+c.path] = VRef{K: key, T: c.T}
			st.facts["nil:"+key] = false
			if v == "closed" {
				st.disc["shut:"+key] = "1"
			}
		case "nil":
			if v == "nil" {
				st.heap["o"+c.path] = VNil{c.T}
				continue
			}
			st.heap["o"+c.path] = VRef{K: key, T: c.T}
			st.facts["nil:"+key] = false
		case "once":
			st.facts["once:o"+c.path] = v == "used"
		}
	}
	for _, g := range m.ghost {
		if s["@"+g] == "" {
			delete(st.disc, g)
		} else {
			st.disc[g] = s["@"+g]
		}
	}
	if st.disc["same"] = "1"; !same {
		delete(st.disc, "same")
	}
	if m.imposed != nil {
		m.imposed(st, site, s)
	}
	return true
}

func (m *machine) inSection(st *State) bool {
	for _, h := range held(st) {
		if m.locks[strings.TrimPrefix(h, "r:")] {
			return true
		}
	}
	return false
}

func (m *machine) hasChan() bool {
	for _, c := range m.cells {
		if c.kind == "chan" {
			return true
		}
	}
	return false
}

// install makes the machine see the lock operations.
func (m *machine) install() {
	m.lockFork = func(st *State, c *CallInfo, op, key string) []*State {
		if !m.locks[key] {
			return []*State{st}
		}
		n := 0
		for _, h := range held(st) {
			if m.locks[strings.TrimPrefix(h, "r:")] {
				n++
			}
		}
		if n != 1 { // not the outermost
			return []*State{st}
		}
		site := "sec:" + m.in.pos(c.Pos)
		var out []*State
		for _, k := range m.order {
			for _, same := range []bool{true, false} {
				if same && !m.hasChan() {
					continue
				}
				for _, v := range append([]string{""}, m.variants[st.disc["entry"]]...) {
					s := st.clone()
					s.disc["variant"] = v
					ok := m.impose(s, site, m.found[k], same)
					delete(s.disc, "variant")
					if ok && !s.dead {
						out = append(out, s)
					}
				}
			}
		}
		return out
	}
	m.lockHook = func(st *State, c *CallInfo, op, key string) {
		if (op == "Lock" || op == "RLock") && m.locks[key] && m.lockBefore != nil {
			m.lockBefore(st)
		}
		if (op != "Unlock" && op != "RUnlock") || !m.locks[key] || !m.inSection(st) {
			return
		}
		if m.section != nil {
			m.section(st)
		}
		if m.hold == nil || !m.hold(st) {
			m.record(m.abstract(st, "o"))
		}
	}
}

// start finds the states of new objects.
func (m *machine) start() bool {
	ms := m.p.constructorsOf(m.T)
	for _, c := range ms {
		fn := c.fn
		st := m.reset()
		m.seq(st, []callStep{{fn, func(st *State) []Value { return m.symArgs(st, fn, "arg") }}}, func(st *State) {
			v := res(st, 0)
			if t, ok := v.(VTuple); ok {
				v = t.V[0]
			}
			if o, ok := objOf(v); ok {
				m.record(m.abstract(st, o.K))
			} else if b, known := st.eval(st.nilCond(v)); !known || !b {
				m.r.Fail("analysis", short(fn), st, "the object a constructor returns was not found")
			}
		})
	}
	m.onRet = nil
	return len(ms) > 0 && len(m.order) > 0
}

// explore interprets the entries until no new state is found.
func (m *machine) explore(entries []*ssa.Function) {
	m.install()
	ret := m.onRet
	m.onRet = func(st *State, v Value) {
		if ret != nil {
			ret(st, v)
		}
		if len(m.locks) == 0 || !m.inSection(st) {
			m.record(m.abstract(st, "o"))
		}
	}
	for m.dirty = true; m.dirty; {
		m.dirty = false
		for _, fn := range entries {
			for i := 0; i < len(m.order); i++ {
				if i > 0 && m.locksFirst(fn) {
					break // the state it starts in does not matter
				}
				st := m.reset()
				o := VRef{K: "o", T: types.NewPointer(m.T)}
				st.facts["nil:o"] = false
				m.in.assumeMade(st, m.T, "o")
				if !m.impose(st, "sec:start", m.found[m.order[i]], false) {
					continue
				}
				if m.prep != nil {
					m.prep(st)
				}
				st.disc["entry"] = fn.Name()
				m.in.Enter(st, fn, append([]Value{o}, m.symArgs(st, fn, "arg")...), nil)
				t0 := time.Now()
				m.in.Run(st)
				if os.Getenv("UVDEBUG") != "" {
					fmt.Fprintln(os.Stderr, short(fn), m.order[i], time.Since(t0), "steps", m.in.steps, "paths", m.in.paths)
				}
				m.r.absorb(m.in)
				m.r.Note("entries_from_states", 1)
			}
		}
	}
	m.onRet = ret
	m.r.Note("object_states", len(m.order))
}

// locksFirst: the function takes the lock of its receiver before all else.
func (m *machine) locksFirst(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || len(m.locks) == 0 {
		return false
	}
	for _, i := range fn.Blocks[0].Instrs {
		switch x := i.(type) {
		case *ssa.FieldAddr, *ssa.DebugRef, *ssa.Alloc:
		case *ssa.Call:
			g := x.Common().StaticCallee()
			if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "sync" || !strings.HasSuffix(g.Name(), "Lock") || len(x.Common().Args) == 0 {
				return false
			}
			a, ok := x.Common().Args[0].(*ssa.FieldAddr)
			return ok && len(fn.Params) > 0 && a.X == fn.Params[0] && m.locks["o."+fieldVar(a).Name()]
		default:
			return false
		}
	}
	return false
}

// entriesOf lists the methods of T that are entered from outside.
func entriesOf(f *flow, T *types.Named) (out []*ssa.Function) {
	for _, fn := range f.entries() {
		if recv := fn.Signature.Recv(); recv != nil {
			if n, ok := ptrToNamed(recv.Type()); ok && n == T {
				out = append(out, fn)
			}
		}
	}
	return out
}

// calls lists the methods of T others call: entries that are not only
// started as goroutines.
func calledOf(f *flow, T *types.Named) (out []*ssa.Function) {
	for _, fn := range entriesOf(f, T) {
		gos := len(f.callers[fn]) > 0
		for _, c := range f.callers[fn] {
			if _, ok := c.(*ssa.Go); !ok {
				gos = false
			}
		}
		if !gos || fn.Object() != nil && fn.Object().Exported() {
			out = append(out, fn)
		}
	}
	return out
}

// onlyMade: the field is written only where its object is made.
func (p *Program) onlyMade(fv *types.Var) bool {
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				a, ok := i.(*ssa.FieldAddr)
				if !ok || fieldVar(a) != fv {
					continue
				}
				if _, made := a.X.(*ssa.Alloc); made {
					continue
				}
				for _, u := range *a.Referrers() {
					if l, ok := u.(*ssa.UnOp); ok && l.X == a {
						continue
					}
					if _, ok := u.(*ssa.DebugRef); ok {
						continue
					}
					return false
				}
			}
		}
	}
	return true
}
