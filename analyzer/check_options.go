package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C22", &check{title: "Options take effect with their documented default", run: checkC22,
		tech:   "abstract interpretation of the SSA form: option parsers on every kind of value; objects configured with each option given, absent, nil, of another type or with only the others given, observed through what they do",
		assume: []string{"options are set before Run"},
		expl: []string{"Every OptionParse function is interpreted on nil, on any value of its own type and on values of every other type.",
			"Each option is given (any value), left out, nil, of another type, and left out while the others of the object are given. What the object does afterwards must show the value given or the documented default: the result of GetMTU, what FrameDecoder keeps or drops, the pauses of heartbeats and of collecting, when a connection is given up and whether it is closed, the number of dials and the pause between them, the room of the queues of by-reference transports."}})
}

const nanoSec = 1000000000

func checkC22(p *Program, r *Report) {
	parsers(p, r)
	optMTU(p, r)
	optCache(p, r)
	optPause(p, r, "Heartbeat", "IntervalInSecond", []string{"TimeoutInSecond"}, 1)
	optPause(p, r, "StatCounter", "Collect.IntervalInSecond", nil, 0)
	for _, to := range []string{"option", "default", "wrong"} {
		for _, cl := range []string{"true", "false", "default", "wrong"} {
			lost(p, r, to, cl)
		}
	}
	for _, n := range []string{"TCPTransport", "UDSTransport"} {
		optDial(p, r, n)
	}
	optQueue(p, r)
}

// ---------------------------------------------------------------- parsers

func parsers(p *Program, r *Report) {
	n := 0
	kinds := []types.Type{types.Typ[types.Byte], types.Typ[types.Int], types.Typ[types.Bool], types.Typ[types.String], types.Typ[types.Int64], types.Typ[types.Int32],
		types.Typ[types.Uint], types.Typ[types.Float64], bytesT, types.NewSlice(types.Typ[types.Int]), types.NewPointer(types.Typ[types.Int])}
	for _, fn := range p.Funcs {
		if fn.Parent() != nil || fn.Signature.Recv() != nil || !strings.HasPrefix(fn.Name(), "OptionParse") || fn.Signature.Results().Len() != 2 {
			continue
		}
		n++
		own := fn.Signature.Results().At(0).Type()
		for i, K := range append([]types.Type{nil}, kinds...) {
			i, K := i, K
			pr, st := attrRun(p, r, p.Named("DefaultUStack"))
			pr.onBad = func(st *State, at ssa.Instruction, what string) {
				r.Check("survives", pr.at(at), false, st, "parsing an option can fail: %s", what)
			}
			var v Value = VNil{anyT}
			var val Value
			if K != nil {
				val = pr.in.symbolic("value", K)
				v = VIface{Dyn: K, V: val}
			}
			args := []Value{v}
			var def Value = zeroValue(own)
			if len(fn.Params) == 2 {
				def = pr.in.symbolic("default", own)
				args = append(args, def)
			}
			ends := 0
			pr.seq(st, []callStep{{fn, func(*State) []Value { return args }}}, func(st *State) {
				ends++
				t, ok := res(st, 0).(VTuple)
				if !r.Check("results", short(fn), ok && len(t.V) == 2, st, "the parser does not return two results") {
					return
				}
				flag := boolRes(st, t.V[1])
				if i > 0 && types.Identical(K, own) {
					r.Check("accepted", short(fn), flag == "true", st, "an option of the right type is not accepted")
					r.Check("value", short(fn), st.same(t.V[0], val), st, "the value of an option of the right type is not returned")
					return
				}
				r.Check("rejected", short(fn), flag == "false", st, "an option that is nil or of another type is accepted")
				r.Check("default", short(fn), st.same(t.V[0], def), st, "an option that is nil or of another type does not give the default")
			})
			r.Check("returns", short(fn), ends > 0, nil, "the parser does not return")
		}
	}
	r.Check("present", "OptionParse", n >= 4, nil, "the option parsers do not exist any more")
	r.Note("parsers", n)
}

// ---------------------------------------------------------------- variants

// variant is a way to set (or not to set) an option.
type variant struct {
	name  string
	value func(pr *procRun, st *State) (Value, Lin) // nil: left out
	given bool
	rest  bool // the other options are given
}

func variants() []variant {
	return []variant{
		{"given", func(pr *procRun, st *State) (Value, Lin) {
			l := pr.smallInt(st, "opt.given")
			return intVal(l), l
		}, true, false},
		{"given with the others", func(pr *procRun, st *State) (Value, Lin) {
			l := pr.smallInt(st, "opt.given")
			return intVal(l), l
		}, true, true},
		{"absent", func(pr *procRun, st *State) (Value, Lin) { return nil, Lin{} }, false, false},
		{"absent with the others given", func(pr *procRun, st *State) (Value, Lin) { return nil, Lin{} }, false, true},
		{"nil", func(pr *procRun, st *State) (Value, Lin) { return VNil{anyT}, Lin{} }, false, false},
		{"an int64", func(pr *procRun, st *State) (Value, Lin) {
			return VIface{Dyn: types.Typ[types.Int64], V: VInt{pr.smallInt(st, "opt.wrong")}}, Lin{}
		}, false, false},
		{"a string", func(pr *procRun, st *State) (Value, Lin) {
			s := "7"
			return VIface{Dyn: types.Typ[types.String], V: VStr{Const: &s}}, Lin{}
		}, false, false},
	}
}

func (pr *procRun) giveAll(st *State, names []string) {
	for _, o := range names {
		pr.option(st, o, intVal(pr.smallInt(st, "opt."+o)))
	}
}

// setOption is a call of SetOption on the object of result i.
func setOption(p *Program, T *types.Named, i int, name string, v Value) callStep {
	return callStep{p.Method(T, "SetOption"), func(st *State) []Value {
		o, _ := objOf(res(st, i))
		o.T = types.NewPointer(T)
		return []Value{o, VStr{Const: &name}, v}
	}}
}

func method(p *Program, T *types.Named, i int, name string, args ...Value) callStep {
	return callStep{p.Method(T, name), func(st *State) []Value {
		o, _ := objOf(res(st, i))
		o.T = types.NewPointer(T)
		return append([]Value{o}, args...)
	}}
}

func construct(p *Program, pr *procRun, T *types.Named) callStep {
	fn := p.constructorsOf(T)[0].fn
	return callStep{fn, func(st *State) []Value { return pr.symArgs(st, fn, "ctor") }}
}

// configured runs [constructor, SetOption..., calls...] for every variant.
func configured(p *Program, r *Report, T *types.Named, opt string, others []string, calls func(pr *procRun, st *State, v variant, x Lin) []callStep, done func(pr *procRun, st *State, v variant, x Lin, last Value)) {
	if T == nil || len(p.constructorsOf(T)) == 0 {
		r.Fail("analysis", opt, nil, "the type with the option %s or its constructor was not found", opt)
		return
	}
	for _, v := range variants() {
		v := v
		if v.rest && len(others) == 0 {
			continue
		}
		pr, st := attrRun(p, r, T)
		val, x := v.value(pr, st)
		ss := []callStep{construct(p, pr, T)}
		if v.rest {
			for _, o := range others {
				ss = append(ss, setOption(p, T, 0, o, intVal(pr.smallInt(st, "opt."+o))))
			}
		}
		if val != nil {
			ss = append(ss, setOption(p, T, 0, opt, val))
		}
		ss = append(ss, calls(pr, st, v, x)...)
		n := 0
		pr.seq(st, ss, func(st *State) {
			n++
			done(pr, st, v, x, res(st, len(ss)-1))
		})
		r.Check("returns", T.Obj().Name()+" "+opt, n > 0, nil, "setting up with the option %s %s never ends", opt, v.name)
		r.Note("configurations", 1)
	}
}

func optMTU(p *Program, r *Report) {
	T := p.Named("DefaultUStack")
	where := "(*DefaultUStack).GetMTU"
	configured(p, r, T, "MTU", nil, func(pr *procRun, st *State, v variant, x Lin) []callStep {
		return []callStep{method(p, T, 0, "Run"), method(p, T, 0, "GetMTU")}
	}, func(pr *procRun, st *State, v variant, x Lin, last Value) {
		if !v.given {
			x = cst(2048)
		}
		n, ok := last.(VInt)
		r.Check("MTU", where, ok && st.eq0(n.L.sub(x)), st, "the MTU is not the value of its option or the default 2048 (option %s)", v.name)
	})
}

func optQueue(p *Program, r *Report) {
	T := p.Named("ReferenceTransport")
	where := "(*ReferenceTransport).Run"
	configured(p, r, T, "MaxQueueSize", nil, func(pr *procRun, st *State, v variant, x Lin) []callStep {
		(&refScene{chanRun: &chanRun{procRun: pr}}).unused(st)
		return []callStep{method(p, T, 0, "Run")}
	}, func(pr *procRun, st *State, v variant, x Lin, last Value) {
		if !v.given {
			x = cst(512)
		}
		n := 0
		for k, c := range st.heap {
			if !strings.HasSuffix(k, ".@cap") {
				continue
			}
			if st.disc["elem:"+strings.TrimSuffix(k, ".@cap")] != "" {
				continue
			}
			l, ok := c.(VInt)
			if ok && l.L.isConst() && l.L.K <= 1 {
				continue // hands over the connection or tells about its end
			}
			n++
			r.Check("MaxQueueSize", where, ok && st.eq0(l.L.sub(x)), st, "the room of a queue is not the value of MaxQueueSize or the default 512 (option %s)", v.name)
		}
		r.Check("queues", where, n == 2, st, "a new channel does not have two queues with room")
	})
}

// ---------------------------------------------------------------- dialling

func optDial(p *Program, r *Report, name string) {
	T := p.Named(name)
	where := "(*" + name + ").Run"
	tries, pause := -1, cst(nanoSec)
	var ends int
	prep := func(pr *procRun) {
		ends = 0
		c := &chanRun{procRun: pr}
		c.rule = func(string, ssa.Instruction, bool, *State, string) {}
		c.hook()
		// C20 decides that no nil connection gets into the list
		pr.notNil = func(v Value) bool {
			x, ok := v.(VRef)
			return ok && strings.HasPrefix(x.K, "rangekey") && types.Identical(x.T, p.ifaceT("TransportConnection"))
		}
		pr.goHook = func(st *State, c *CallInfo) bool { return st.disc["go"] != "" }
		pr.other = func(st *State, c *CallInfo) ([]stVal, bool) {
			rs := c.Sig.Results()
			if rs.Len() == 2 && netType(rs.At(0).Type(), "Conn") && !(c.Fn != nil && pr.in.inPkg(c.Fn)) {
				n, _ := strconv.Atoi(st.disc["dials"])
				st.disc["dials"] = strconv.Itoa(n + 1)
				if n > 200 {
					st.dead = true
					return nil, true
				}
				e := pr.in.fresh("net.err", errorT)
				if x, ok := e.(VRef); ok {
					st.facts["nil:"+x.K] = false
				}
				return one(st, VTuple{[]Value{VNil{rs.At(0).Type()}, e}})
			}
			if d, ok := wait(c); ok && st.disc["go"] != "" {
				r.Check("RetryIntervalInSecond", pr.at(c.Site), st.eq0(d.sub(pause)), st, "the pause between two dials is not RetryIntervalInSecond (default 1)")
				st.disc["paused"] = "1"
				if c.Name == "time.Sleep" {
					return one(st, nil)
				}
			}
			return nil, false
		}
		pr.onGoEnd = func(st *State) {
			ends++
			n, _ := strconv.Atoi(st.disc["dials"])
			if tries >= 0 {
				r.Check("MaxRetryCount", where, n == tries, st, "an unreachable server is dialled %d times instead of %d", n, tries)
			}
		}
	}
	// the number of dials
	for _, n := range []int{0, 1, 2, 3, 7} {
		n := n
		tries, pause = n, cst(nanoSec)
		pr, st := attrRun(p, r, T)
		prep(pr)
		pr.seq(st, []callStep{construct(p, pr, T), method(p, T, 0, "ForServer", VBool{boolC(false)}), setOption(p, T, 0, "MaxRetryCount", intVal(cst(int64(n)))), method(p, T, 0, "Run")}, func(st *State) {})
		r.Check("dials", where, ends > 0, nil, "dialling an unreachable server never ends")
		r.Note("configurations", 1)
	}
	for _, v := range variants() {
		v := v
		if v.given {
			continue
		}
		tries, pause = 180, cst(nanoSec)
		pr, st := attrRun(p, r, T)
		prep(pr)
		ss := []callStep{construct(p, pr, T), method(p, T, 0, "ForServer", VBool{boolC(false)})}
		if v.rest {
			pause = pr.smallInt(st, "opt.pause").scale(nanoSec)
			ss = append(ss, setOption(p, T, 0, "RetryIntervalInSecond", intVal(pr.smallInt(st, "opt.pause"))))
		}
		if val, _ := v.value(pr, st); val != nil {
			ss = append(ss, setOption(p, T, 0, "MaxRetryCount", val))
		}
		pr.seq(st, append(ss, method(p, T, 0, "Run")), func(st *State) {})
		r.Check("dials", where, ends > 0, nil, "dialling an unreachable server never ends")
		r.Note("configurations", 1)
	}
	// the pause
	for _, v := range variants() {
		v := v
		tries, pause = 3, cst(nanoSec)
		pr, st := attrRun(p, r, T)
		prep(pr)
		val, x := v.value(pr, st)
		if v.given {
			pause = x.scale(nanoSec)
		}
		ss := []callStep{construct(p, pr, T), method(p, T, 0, "ForServer", VBool{boolC(false)}), setOption(p, T, 0, "MaxRetryCount", intVal(cst(3)))}
		if val != nil {
			ss = append(ss, setOption(p, T, 0, "RetryIntervalInSecond", val))
		}
		paused := 0
		end := pr.onGoEnd
		pr.onGoEnd = func(st *State) {
			if st.disc["paused"] != "" {
				paused++
			}
			end(st)
		}
		pr.seq(st, append(ss, method(p, T, 0, "Run")), func(st *State) {})
		r.Check("pauses", where, paused > 0, nil, "there is no pause between two dials")
		r.Note("configurations", 1)
	}
}

// ---------------------------------------------------------------- processors

func procOption(p *Program, r *Report, name string) (*procRun, *State) {
	T := p.Named(name)
	if T == nil {
		r.Fail("present", name, nil, "the processor does not exist any more")
		return nil, nil
	}
	pr := newProcRun(p, r, scene{T, name, "tag", false, true, "stream"})
	st := pr.begin()
	pr.ctorCells(st, "p")
	return pr, st
}

func optPause(p *Program, r *Report, name, opt string, others []string, def int64) {
	for _, v := range variants() {
		if v.rest && len(others) == 0 {
			continue
		}
		pr, st := procOption(p, r, name)
		if pr == nil {
			return
		}
		where := "(*" + name + ").OnEvent"
		pr.option(st, opt, nil)
		if v.rest {
			pr.giveAll(st, others)
		}
		val, x := v.value(pr, st)
		if val != nil {
			pr.option(st, opt, val)
		}
		if !v.given {
			x = cst(def)
		}
		waits := 0
		pr.goHook = func(st *State, c *CallInfo) bool {
			if st.disc["step"] != "1" || st.disc["go"] != "" {
				return true
			}
			r.Check(opt, pr.at(c.Site), v.given || def > 0, st, "without the option %s nothing should be done regularly", opt)
			return false
		}
		pr.other = func(st *State, c *CallInfo) ([]stVal, bool) {
			if d, ok := wait(c); ok && st.disc["go"] != "" {
				waits++
				r.Check(opt, pr.at(c.Site), st.eq0(d.sub(x.scale(nanoSec))), st, "the pause is not the value of %s or its default %d (option %s)", opt, def, v.name)
				if c.Name == "time.Sleep" {
					return one(st, nil)
				}
			}
			return nil, false
		}
		conn := VRef{K: "conn", T: pr.ctxType("Connection")}
		ev := pr.eventOf(st, "UStackEventNewConnection", conn)
		st.facts["useref:conn"] = false
		self := VRef{K: "p", T: types.NewPointer(pr.sc.T)}
		run, onev := p.Method(pr.sc.T, "Run"), p.Method(pr.sc.T, "OnEvent")
		pr.seq(st, []callStep{{run, func(*State) []Value { return []Value{self} }}, {onev, func(*State) []Value { return []Value{self, ev} }}}, func(st *State) {})
		r.Check(opt, where, waits > 0 || !v.given && def == 0, nil, "nothing is done regularly although %s asks for it (option %s)", opt, v.name)
		r.Note("configurations", 1)
	}
}

func optCache(p *Program, r *Report) {
	const opt = "CacheCapacity"
	for _, v := range variants() {
		if v.rest {
			continue
		}
		pr, st := procOption(p, r, "FrameDecoder")
		if pr == nil {
			return
		}
		where := "(*FrameDecoder).OnLowerData"
		table := pr.tableOf("TransportConnection")
		if !r.Check("table", "FrameDecoder", table != "", nil, "the table of what FrameDecoder keeps was not found") {
			return
		}
		pr.option(st, opt, nil)
		val, x := v.value(pr, st)
		if val != nil {
			pr.option(st, opt, val)
		}
		if !v.given {
			x = symL(pr.in.lenSym("mtu")).scale(2)
		}
		// an incomplete frame, nothing kept before
		n := pr.w0.sub(pr.r0)
		st.addGE(n.addK(-1))
		st.addGE(n.neg().addK(1 << 20))
		pr.onFwd = func(st *State, c *CallInfo, tok string, ctx Value) { st.dead = true }
		st.facts["nil:buf"] = false
		st.maps[table] = &MapC{base: table, empty: true}
		st.facts["nil:"+table] = false
		kept, dropped := 0, 0
		self := VRef{K: "p", T: types.NewPointer(pr.sc.T)}
		run, data := p.Method(pr.sc.T, "Run"), pr.entry(false)
		pr.seq(st, []callStep{{run, func(*State) []Value { return []Value{self} }}, {data, func(*State) []Value { return []Value{self, pr.ctxVal("ctx")} }}}, func(st *State) {
			in := false
			for _, e := range st.mapOf(table).log {
				in = !e.del
			}
			if in {
				kept++
				r.Check(opt, where, st.ge0(x.sub(n)), st, "more than %s (default twice the MTU) is kept (option %s)", opt, v.name)
			} else if st.disc["fwd"] == "" {
				dropped++
				r.Check(opt, where, st.ge0(n.sub(x).addK(-1)), st, "data that fits %s (default twice the MTU) is dropped (option %s)", opt, v.name)
			}
		})
		r.Check("keeps", where, kept > 0, nil, "nothing is kept")
		r.Note("configurations", 1)
	}
}
