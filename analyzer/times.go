package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Points in time are numbers of nanoseconds, seconds as floats are kept as
// integers scaled by 1e9.

const nano = 1000000000

func isTime(T types.Type) bool { return isNamed(T, "time", "Time") }

// ns is the time value as a number of nanoseconds.
func (in *Interp) ns(v Value) Lin {
	return symL(in.syms.mk("ns(" + v.key() + ")"))
}

// float1e9 is a float value times 1e9, if it is known.
func (in *Interp) float1e9(v Value) (Lin, bool) {
	if u, ok := v.(VUnk); ok {
		l, ok := in.floats[u.K]
		return l, ok
	}
	return Lin{}, false
}

func (in *Interp) mkFloat(l Lin, T types.Type) Value {
	k := "float(" + l.key() + ")"
	in.floats[k] = l
	return VUnk{K: k, T: T}
}

// trunc is the integer part of a scaled float that is not negative.
func (in *Interp) trunc(st *State, l Lin, T types.Type) (Value, bool) {
	if !st.ge0(l) {
		return nil, false
	}
	k := "trunc(" + l.key() + ")"
	_, had := in.syms.get(k)
	s := in.syms.mk(k)
	d := l.sub(symL(s).scale(nano))
	if !st.facts[k] { // also here: a question about l alone must find them
		st.facts[k] = true
		st.cons = append(st.cons, d, d.neg().addK(nano-1))
	}
	if !had {
		in.syms.infos[s].extra = append(in.syms.infos[s].extra, d, d.neg().addK(nano-1))
	}
	return VInt{symL(s)}, true
}

// timeModel gives the meaning of functions of package time.
func (in *Interp) timeModel(st *State, c *CallInfo, rv ssa.Value, isDefer bool) ([]*State, bool) {
	fin := func(v Value) ([]*State, bool) { return in.finish([]stVal{{st, v}}, rv, isDefer), true }
	arg := func(i int) Lin {
		if v, ok := c.Args[i].(VInt); ok {
			return v.L
		}
		return symL(in.syms.mk(in.freshKey("dur")))
	}
	tick := func() Value {
		if in.clock != nil {
			return in.clock
		}
		return in.fresh("now", timeOf(c))
	}
	now := func() Lin { return in.ns(tick()) }
	switch c.Name {
	case "time.NewTicker", "time.NewTimer":
		v := VRef{K: in.freshKey(c.Name), T: resultType(c.Sig)}
		st.facts["nil:"+v.K] = false
		st.facts["nil:"+v.K+".C"] = false
		return fin(v)
	case "time.Now":
		return fin(tick())
	case "time.Since":
		d := now().sub(in.ns(c.Args[0]))
		st.addGE(d) // no point in time kept is in the future
		return fin(VInt{d})
	case "time.Until":
		return fin(VInt{in.ns(c.Args[0]).sub(now())})
	case "(time.Time).Sub":
		return fin(VInt{in.ns(c.Args[0]).sub(in.ns(c.Args[1]))})
	case "(time.Time).Add":
		v := in.fresh("time", resultType(c.Sig))
		st.addEQ(in.ns(v).sub(in.ns(c.Args[0])).sub(arg(1)))
		return fin(v)
	case "(time.Time).After":
		return fin(VBool{geC(in.ns(c.Args[0]).sub(in.ns(c.Args[1])).addK(-1))})
	case "(time.Time).Before":
		return fin(VBool{geC(in.ns(c.Args[1]).sub(in.ns(c.Args[0])).addK(-1))})
	case "(time.Time).Equal":
		return fin(VBool{eqC(in.ns(c.Args[1]).sub(in.ns(c.Args[0])))})
	case "(time.Duration).Seconds":
		return fin(in.mkFloat(arg(0), resultType(c.Sig)))
	case "(time.Duration).Nanoseconds":
		return fin(VInt{arg(0)})
	}
	return nil, false
}

func timeOf(c *CallInfo) types.Type {
	for i := 0; i < c.Sig.Params().Len(); i++ {
		if T := c.Sig.Params().At(i).Type(); isTime(T) {
			return T
		}
	}
	return resultType(c.Sig)
}
