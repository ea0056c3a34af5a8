package main

import (
	"fmt"
	"go/types"
	"os"
	"time"

	"golang.org/x/tools/go/ssa"
)

// history says in which version of the list the object is a member.
type history struct {
	name   string
	member func(ver int) bool
	steady bool
}

var histories = []history{
	{"member", func(int) bool { return true }, true},
	{"not a member", func(int) bool { return false }, true},
	{"added meanwhile", func(v int) bool { return v > 0 }, false},
	{"added meanwhile", func(v int) bool { return v > 1 }, false},
	{"removed meanwhile", func(v int) bool { return v == 0 }, false},
	{"removed meanwhile", func(v int) bool { return v <= 1 }, false},
}

func checkC14(p *Program, r *Report) {
	pr, _ := stackRun(p, r)
	if pr == nil {
		return
	}
	for _, kind := range []string{"EndPoint", "Transport"} {
		grow, kept := "", ""
		for _, op := range []string{"Add", "Delete"} {
			for _, h := range histories {
				for _, party := range append([]string{""}, parties(pr)...) {
					if party != "" && !h.steady {
						continue
					}
					wits := []string{""}
					if party == kind {
						wits = []string{"before"}
					} else if party == "" {
						wits = []string{"", "before", "after"}
					}
					for _, wit := range wits {
						g, k := member(p, r, kind, op, h, party, wit)
						if g != "" {
							grow = g
						}
						if k != "" {
							kept = k
						}
					}
				}
			}
		}
		r.Check("lists-stay", kind, grow == "" || kept == "", nil, "an addition writes behind the end of a list (%s) whose array a removal leaves in use (%s): a list handed out before may change", grow, kept)
		got(p, r, kind)
	}
}

// got: the list returned is the current one.
func got(p *Program, r *Report, kind string) {
	pr, st := stackRun(p, r)
	c, ok := pr.listOf(kind)
	if !ok {
		return
	}
	pr.versions(c)
	where := "(*DefaultUStack).Get" + kind
	elem := c.T.Underlying().(*types.Slice).Elem()
	pr.onRet = func(st *State, v Value) {
		cur := pr.version(st, c)
		l, ok := asSlice(v)
		r.Check("listed", where, ok && st.eq0(l.Len.sub(cur.Len)) && pr.in.sameBytes(st, &Seq{base: cur.Obj, elem: elem}, cur.Off, st.seq(l.Obj, elem), l.Off, l.Len), st, "the list returned is not the list of every %s", kind)
	}
	pr.enterU(st, "Get"+kind)
}

// member: one operation on one object.
func member(p *Program, r *Report, kind, op string, h history, party, wit string) (grow, kept string) {
	pr, st := stackRun(p, r)
	in := pr.in
	c, ok := pr.listOf(kind)
	if !ok {
		return
	}
	elem := c.T.Underlying().(*types.Slice).Elem()
	where := "(*DefaultUStack)." + op + kind
	x := VRef{K: "x", T: elem}
	st.facts["nil:x"] = false
	other := VRef{K: "other", T: elem}
	watched := ""
	witness, after := wit != "", wit == "after"
	if party != "" && party != kind {
		if watched, ok = pr.party(st, party); !ok {
			r.Fail("party", "DefaultUStack", nil, "receivers of the kind %s were not found", party)
			return
		}
	} else if party == kind {
		watched = "other"
	}
	if witness {
		st.facts["nil:other"] = false
		st.facts[orderedAtom("eq", "r:x", "r:other").A] = false
	}
	// the list in each critical section
	at := map[string]Lin{}
	vers := map[string]int{}
	enter := func(st *State) {
		v := len(st.disc["ver"])
		l := pr.version(st, c)
		_, known := vers[l.Obj]
		vers[l.Obj] = v
		var i Lin
		if h.member(v) {
			i = pr.skolem(st, "at"+pr.verName(st), l)
			at[l.Obj] = i
			if !known {
				in.splits[l.Obj] = append(in.splits[l.Obj], watch{i, x})
			}
		}
		if witness {
			o := pr.skolem(st, "other"+pr.verName(st), l)
			if h.member(v) && after {
				st.addGE(o.sub(i).addK(-1))
			} else if h.member(v) {
				st.addGE(i.sub(o).addK(-1))
			}
			if !known {
				in.splits[l.Obj] = append(in.splits[l.Obj], watch{o, other})
			}
		}
	}
	enter(st)
	pr.versions(c)
	setV := pr.lockHook
	pr.lockHook = func(st *State, ci *CallInfo, o, key string) {
		before := st.disc["ver"]
		setV(st, ci, o, key)
		if st.disc["ver"] != before {
			for _, d := range []string{"put:x", "put:o", "put:bad"} {
				delete(st.disc, d)
			}
			st.gv["puts"] = VInt{cst(0)}
			enter(st)
		}
	}
	st.gv["puts"] = VInt{cst(0)}
	in.onElem = func(st *State, at ssa.Instruction, e VElem, v Value) {
		if !isNew(e.Obj) || !types.Identical(e.Elem, elem) {
			return
		}
		y, ok := v.(VRef)
		switch {
		case ok && y.K == "x":
			count(st, "put:x", "1", 6)
		case ok && y.K == "other":
			if len(st.disc["put:o"]) < 2 {
				count(st, "put:o", "1", 6)
			}
		case ok && in.elems[y.K].base == pr.version(st, c).Obj:
		default:
			st.disc["put:bad"] = "1"
		}
		if n, ok := st.gv["puts"].(VInt); ok {
			st.gv["puts"] = VInt{n.L.addK(1)}
		}
	}
	pr.onSeqWrite = func(st *State, at ssa.Instruction, obj string, off, n Lin) {
		if _, ok := vers[obj]; !ok {
			return
		}
		l := pr.version(st, c)
		if st.ge0(n.neg()) {
			return
		}
		if obj == l.Obj && st.ge0(off.sub(l.Off).sub(l.Len)) {
			grow = pr.at(at)
			return
		}
		r.Check("lists-stay", pr.at(at), false, st, "an element of a list that was handed out is overwritten")
	}
	pr.onNew = func(st *State, ai ssa.Instruction, pt, v Value) {
		ref, ok := pt.(VRef)
		if !ok || ref.K != "u" || ref.Path != c.path {
			return
		}
		w := pr.at(ai)
		cur := pr.version(st, c)
		l, ok := asSlice(v)
		if ok && l.Obj == cur.Obj && st.eq0(l.Off.sub(cur.Off)) && st.eq0(l.Len.sub(cur.Len)) && st.disc["changed"] == "" {
			return // as it was
		}
		locked := false
		for _, k := range held(st) {
			locked = locked || len(k) > 2 && k[:2] == "u."
		}
		r.Check("atomic", w, locked, st, "the list is replaced without holding the lock of the stack")
		r.Check("once", w, st.disc["changed"] == "", st, "the list is changed twice")
		st.disc["changed"] = "1"
		is := h.member(len(st.disc["ver"]))
		if op == "Add" {
			r.Check("adds-new", w, !is, st, "a %s is added that is a member already (%s)", kind, h.name)
			if !is {
				r.Check("adds", w, ok && pr.isPlus(st, cur, l, x, elem), st, "the list after adding is not the list before and the %s added", kind)
			}
			return
		}
		if !r.Check("removes-member", w, is, st, "the list is changed although the %s to be removed is no member of it (%s)", kind, h.name) {
			return
		}
		n, _ := st.gv["puts"].(VInt)
		byOne := ok && (pr.in.isMade(l.Obj) || st.eq0(l.Len)) && st.eq0(n.L.sub(l.Len)) && st.disc["put:x"] == "" && st.disc["put:bad"] == "" && (!witness || st.disc["put:o"] == "1")
		r.Check("removes", w, byOne || ok && pr.isMinus(st, cur, l, at[cur.Obj], elem), st, "the list after removing is not the list before without the %s removed", kind)
		if ok && l.Obj == cur.Obj && !st.eq0(l.Cap.sub(l.Len)) {
			kept = w
		}
	}
	typ, _ := p.constValue(map[string]string{"AddEndPoint": "UStackEventEndpointAdded", "DeleteEndPoint": "UStackEventEndpointDeleted", "AddTransport": "UStackEventTransportAdded", "DeleteTransport": "UStackEventTransportDeleted"}[op+kind])
	pr.handlers(func(st *State, ci *CallInfo, k string, ev Value) {
		w := pr.at(ci.Site)
		r.Check("told-after", w, st.disc["changed"] == "1", st, "%s%s announces something although nothing was changed (yet)", op, kind)
		e, ok := ev.(VStruct)
		if r.Check("told-event", w, ok, st, "the event is not known") {
			s, _ := structOf(e.T)
			for i := 0; s != nil && i < s.NumFields(); i++ {
				switch s.Field(i).Name() {
				case "Type":
					r.Check("told-type", w, st.same(e.F[i], VInt{cst(typ)}), st, "%s%s announces an event of another type", op, kind)
				case "Data":
					r.Check("told-data", w, st.same(e.F[i], x), st, "%s%s announces something else than the %s concerned", op, kind, kind)
				}
			}
		}
		r.Check("told-free", w, st.disc["held"] == "", st, "a handler is called while a lock is held")
		if k == watched && watched != "" {
			r.Check("told-once", w, st.disc["got"] == "" && ci.Kind != "go", st, "a party is told twice (or in any order)")
			st.disc["got"] = "1"
		}
		st.disc["told"] = "1"
		if party == "" {
			st.dead = true // the other scenes follow the announcement
		}
	})
	in.elemFact = func(fact func(*State, elemRef, VRef)) func(*State, elemRef, VRef) {
		return func(st *State, e elemRef, v VRef) {
			fact(st, e, v)
			if _, ok := vers[e.base]; ok && v.K != "x" {
				st.facts[orderedAtom("eq", "r:x", v.key()).A] = false
			}
		}
	}(in.elemFact)
	pr.onEnd = func(st *State) {
		if !h.steady {
			return
		}
		if h.member(0) == (op == "Add") {
			r.Check("no-change", where, st.disc["changed"] == "" && st.disc["told"] == "", st, "%s of a %s that is %s changes or announces something", op, kind, h.name)
			return
		}
		r.Check("changes", where, st.disc["changed"] == "1", st, "%s of a %s that is %s does not change the list", op, kind, h.name)
		if watched != "" {
			r.Check("told", where, st.disc["got"] == "1", st, "%s of a %s is not announced to every %s", op, kind, party)
		}
	}
	t0 := time.Now()
	pr.enterU(st, op+kind, x)
	if debugLevel != "" {
		fmt.Fprintln(os.Stderr, kind, op, h.name, party, wit, time.Since(t0), pr.in.steps, pr.in.joins)
	}
	return
}
