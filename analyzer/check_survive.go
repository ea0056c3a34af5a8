package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", &check{title: "Running stacks do not kill their process", run: checkC26,
		tech: "abstract interpretation of the SSA form with nil, bounds, assertion and panic obligations; call-graph query for exits",
		assume: append([]string{"the neighbours, the stack, the endpoint and the transport of a processor are set before it runs",
			"functions, rules, listeners and handlers given by the user do not fail", "races and channel misuse are decided by C17 and C19"}, procAssume...),
		expl: []string{"Every analysis of data entry points, events, background goroutines, decks, stacks, endpoints, transports and connections is repeated with an obligation at every instruction that can fail: pointer and interface uses, indexing, slicing, make, type assertions without check, assignments to maps, integer divisions and panics. Whatever function of the package they do not reach is interpreted on its own, on an arbitrary object.",
			"No function of the package may call a function that ends the process; panics are only allowed where buffers are made, and only for the sizes documented as invalid."}})
}

// survivors are the analyses that between them reach the package.
var survivors = []string{"C01", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C20", "C21", "C22", "C24", "C25", "C27", "C28", "C29"}

func checkC26(p *Program, r *Report) {
	done := map[*ssa.Function]bool{}
	take := func(s *Report) {
		for _, v := range s.viol {
			ok := v.Rule == "process" || v.Rule == "analysis"
			if s.Prop == "C01" && (v.Rule == "bounds" || v.Rule == "nil" || v.Rule == "panic") {
				ok = true
			}
			if ok {
				v.Rule = "process"
				r.viol["process|"+v.Construct] = v
				r.obl["process|"+v.Construct] = false
			}
		}
		for f := range s.fns {
			done[f] = true
			r.fns[f] = true
		}
		r.evals += s.evals
		r.paths += s.paths
		r.joins += s.joins
		r.steps += s.steps
	}
	for _, id := range survivors {
		s := newReport(id)
		s.Config, s.survive = r.Config, true
		checks[id].run(p, s)
		take(s)
		r.Note("analyses", 1)
	}
	// events, also of processors that ignore them
	for _, T := range p.Implementers("DataProcessor") {
		name := T.Obj().Name()
		sc := scene{T, name, procKinds[name], false, true, "stream"}
		s := newReport("events")
		s.Config, s.survive = r.Config, true
		pr := newProcRun(p, s, sc)
		if procKinds[name] == "" {
			// what the decks keep and start is analysed with them
			pr.goHook = func(*State, *CallInfo) bool { return true }
			pr.notNil = func(v Value) bool { x, ok := v.(VRef); return ok && !strings.HasPrefix(x.K, "ev") }
		}
		pr.event()
		take(s)
	}
	for _, f := range p.Funcs {
		if done[f] || f.Parent() != nil {
			continue
		}
		s := newReport("alone")
		s.Config = r.Config
		alone(p, s, f)
		take(s)
	}
	makers := map[*ssa.Function]bool{}
	s := newReport("C01")
	checks["C01"].run(p, s)
	for f := range s.fns {
		makers[f] = true
	}
	for _, f := range p.Funcs {
		if !r.Check("analysed", short(f), done[f], nil, "the function is not reached by any analysis") {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				site(p, r, f, i, makers[f])
			}
		}
	}
}

// site raises the obligations of one instruction; failures were found before.
func site(p *Program, r *Report, f *ssa.Function, i ssa.Instruction, maker bool) {
	at := short(f) + " " + newInterp(p, NopClient{}).pos(instrPos(i))
	risky := false
	switch x := i.(type) {
	case *ssa.TypeAssert:
		risky = !x.CommaOk
	case *ssa.IndexAddr, *ssa.Index, *ssa.Slice, *ssa.FieldAddr, *ssa.MapUpdate, *ssa.MakeSlice:
		risky = true
	case *ssa.UnOp:
		risky = x.Op == token.MUL
	case *ssa.BinOp:
		b, ok := x.Type().Underlying().(*types.Basic)
		risky = (x.Op == token.QUO || x.Op == token.REM) && ok && b.Info()&types.IsInteger != 0
	case *ssa.Panic:
		if c, ok := ssaConst(x.X); ok && strings.Contains(c, "blocking select") {
			return // of the SSA form
		}
		r.Check("exit", at, maker, nil, "panics although no invalid buffer size is rejected here")
	case ssa.CallInstruction:
		c := x.Common()
		risky = c.IsInvoke()
		if g := c.StaticCallee(); g != nil && g.Pkg != nil && g.Pkg != p.Pkg {
			name := g.String()
			switch {
			case name == "os.Exit", name == "runtime.Goexit", name == "(*os.Process).Kill", name == "(*os.Process).Signal",
				strings.HasPrefix(name, "log.Fatal"), strings.HasPrefix(name, "(*log.Logger).Fatal"),
				strings.HasPrefix(name, "syscall.Exit"), strings.HasPrefix(name, "syscall.Kill"), strings.HasPrefix(name, "syscall.Exec"):
				r.Check("exit", at, false, nil, "%s ends the process", name)
			case strings.HasPrefix(name, "log.Panic"), strings.HasPrefix(name, "(*log.Logger).Panic"):
				r.Check("exit", at, maker, nil, "%s although no invalid buffer size is rejected here", name)
			}
		}
	}
	if risky {
		r.Check("process", at, true, nil, "")
	}
}

// alone interprets one function on arbitrary arguments.
func alone(p *Program, r *Report, f *ssa.Function) {
	var T *types.Named
	if rv := f.Signature.Recv(); rv != nil {
		T, _ = ptrToNamed(rv.Type())
		if T == nil {
			T, _ = rv.Type().(*types.Named)
		}
	} else if rs := f.Signature.Results(); rs.Len() > 0 {
		for _, N := range p.Implementers("DataProcessor") {
			T = N
			break
		}
	}
	if T == nil {
		return
	}
	pr, st := attrRun(p, r, T)
	pr.onBad = func(st *State, at ssa.Instruction, what string) {
		if strings.Contains(what, "called on a nil interface") {
			return // objects given by the user are not nil
		}
		r.Check("process", pr.at(at), false, st, "the process can fail: %s", what)
	}
	var args []Value
	if f.Signature.Recv() != nil {
		self := VRef{K: "p", T: f.Params[0].Type()}
		st.facts["nil:p"] = false
		pr.in.assumeMade(st, T, "p")
		pr.ctorCells(st, "p")
		args = append(args, self)
	}
	args = append(args, pr.symArgs(st, f, "arg")...)
	pr.in.Enter(st, f, args, nil)
	pr.in.Run(st)
	r.absorb(pr.in)
}

// ssaConst is the string constant v was made from.
func ssaConst(v ssa.Value) (string, bool) {
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return "", false
	}
	return c.Value.String(), true
}
