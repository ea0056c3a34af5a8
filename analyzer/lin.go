package main

// Linear-inequality abstract domain: conjunctions of  e >= 0  over integer
// symbols.  Entailment and projection are decided by variable elimination on
// the constraint system itself (the classic polyhedral domain operations).

import (
	"sort"
	"strconv"
	"strings"
)

type Sym int32

type term struct {
	s Sym
	c int64
}

// Lin is  K + sum c_i * s_i, terms sorted by symbol.
type Lin struct {
	K  int64
	Ts []term
}

func cst(k int64) Lin { return Lin{K: k} }
func symL(s Sym) Lin  { return Lin{Ts: []term{{s, 1}}} }

func (a Lin) isConst() bool { return len(a.Ts) == 0 }

func (a Lin) add(b Lin) Lin { return a.addMul(b, 1) }
func (a Lin) sub(b Lin) Lin { return a.addMul(b, -1) }
func (a Lin) addK(k int64) Lin {
	return Lin{K: a.K + k, Ts: a.Ts}
}
func (a Lin) neg() Lin { return cst(0).addMul(a, -1) }
func (a Lin) scale(k int64) Lin {
	return cst(0).addMul(a, k)
}

func (a Lin) addMul(b Lin, m int64) Lin {
	if m == 0 {
		return a
	}
	r := Lin{K: a.K + m*b.K}
	if len(b.Ts) == 0 {
		r.Ts = a.Ts
		return r
	}
	ts := make([]term, 0, len(a.Ts)+len(b.Ts))
	i, j := 0, 0
	for i < len(a.Ts) || j < len(b.Ts) {
		switch {
		case j >= len(b.Ts) || (i < len(a.Ts) && a.Ts[i].s < b.Ts[j].s):
			ts = append(ts, a.Ts[i])
			i++
		case i >= len(a.Ts) || b.Ts[j].s < a.Ts[i].s:
			ts = append(ts, term{b.Ts[j].s, b.Ts[j].c * m})
			j++
		default:
			if c := a.Ts[i].c + m*b.Ts[j].c; c != 0 {
				ts = append(ts, term{a.Ts[i].s, c})
			}
			i++
			j++
		}
	}
	r.Ts = ts
	return r
}

func (a Lin) coef(s Sym) int64 {
	for _, t := range a.Ts {
		if t.s == s {
			return t.c
		}
	}
	return 0
}

func (a Lin) subst(s Sym, b Lin) Lin {
	c := a.coef(s)
	if c == 0 {
		return a
	}
	return a.addMul(symL(s), -c).addMul(b, c)
}

func (a Lin) equal(b Lin) bool {
	if a.K != b.K || len(a.Ts) != len(b.Ts) {
		return false
	}
	for i := range a.Ts {
		if a.Ts[i] != b.Ts[i] {
			return false
		}
	}
	return true
}

func (a Lin) key() string {
	if len(a.Ts) == 0 {
		return strconv.FormatInt(a.K, 10)
	}
	var sb strings.Builder
	for _, t := range a.Ts {
		if t.c >= 0 {
			sb.WriteByte('+')
		}
		if t.c == -1 {
			sb.WriteByte('-')
		} else if t.c != 1 {
			sb.WriteString(strconv.FormatInt(t.c, 10))
			sb.WriteByte('*')
		}
		sb.WriteByte('s')
		sb.WriteString(strconv.Itoa(int(t.s)))
	}
	if a.K != 0 {
		if a.K > 0 {
			sb.WriteByte('+')
		}
		sb.WriteString(strconv.FormatInt(a.K, 10))
	}
	return sb.String()
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// tighten divides e >= 0 by the gcd of its coefficients (integer rounding).
func (a Lin) tighten() Lin {
	if len(a.Ts) == 0 {
		return a
	}
	g := int64(0)
	for _, t := range a.Ts {
		g = gcd(g, t.c)
	}
	if g <= 1 {
		return a
	}
	r := Lin{K: floorDiv(a.K, g), Ts: make([]term, len(a.Ts))}
	for i, t := range a.Ts {
		r.Ts[i] = term{t.s, t.c / g}
	}
	return r
}

const linBig = int64(1) << 58

func tooBig(a Lin) bool {
	if a.K > linBig || a.K < -linBig {
		return true
	}
	for _, t := range a.Ts {
		if t.c > 1<<30 || t.c < -(1<<30) {
			return true
		}
	}
	return false
}

// dedupe keeps, per direction, the strongest constraint.  It returns
// (constraints, contradiction).
func normalize(cs []Lin) ([]Lin, bool) {
	type ent struct {
		l Lin
	}
	m := map[string]int{}
	var out []Lin
	for _, c := range cs {
		c = c.tighten()
		if len(c.Ts) == 0 {
			if c.K < 0 {
				return nil, true
			}
			continue
		}
		k := Lin{Ts: c.Ts}.key()
		if i, ok := m[k]; ok {
			if c.K < out[i].K {
				out[i] = c
			}
			continue
		}
		m[k] = len(out)
		out = append(out, c)
	}
	return out, false
}

const fmLimit = 1500

// eliminate projects the system onto the symbols in keep; returns
// (projected constraints, infeasible, gaveUp).
func eliminate(cs []Lin, keep map[Sym]bool) ([]Lin, bool, bool) {
	cs, bad := normalize(cs)
	if bad {
		return nil, true, false
	}
	for {
		// equalities: c and -c both present -> substitute when unit coefficient
		neg := map[string]int{}
		for i, c := range cs {
			neg[c.key()] = i
		}
		done := false
		for _, c := range cs {
			if _, ok := neg[c.neg().key()]; !ok {
				continue
			}
			var pick *term
			for i := range c.Ts {
				t := c.Ts[i]
				if (t.c == 1 || t.c == -1) && !keep[t.s] {
					pick = &c.Ts[i]
					break
				}
			}
			if pick == nil {
				continue
			}
			// pick.c*s + rest = 0  =>  s = -rest/pick.c
			rest := c.addMul(symL(pick.s), -pick.c)
			val := rest.scale(-pick.c) // since pick.c is +-1
			s := pick.s
			for i := range cs {
				cs[i] = cs[i].subst(s, val)
			}
			cs, bad = normalize(cs)
			if bad {
				return nil, true, false
			}
			done = true
			break
		}
		if done {
			continue
		}
		// pick variable with least product
		pos, ng := map[Sym]int{}, map[Sym]int{}
		for _, c := range cs {
			for _, t := range c.Ts {
				if keep[t.s] {
					continue
				}
				if t.c > 0 {
					pos[t.s]++
				} else {
					ng[t.s]++
				}
			}
		}
		best := Sym(-1)
		bestCost := 0
		for s := range pos {
			if _, ok := ng[s]; !ok {
				ng[s] = 0
			}
		}
		var cand []Sym
		for s := range ng {
			cand = append(cand, s)
		}
		sort.Slice(cand, func(i, j int) bool { return cand[i] < cand[j] })
		for _, s := range cand {
			cost := pos[s]*ng[s] - pos[s] - ng[s]
			if best < 0 || cost < bestCost {
				best, bestCost = s, cost
			}
		}
		if best < 0 {
			return cs, false, false
		}
		var p, n, o []Lin
		for _, c := range cs {
			switch k := c.coef(best); {
			case k > 0:
				p = append(p, c)
			case k < 0:
				n = append(n, c)
			default:
				o = append(o, c)
			}
		}
		for _, a := range p {
			for _, b := range n {
				x := cst(0).addMul(a, -b.coef(best)).addMul(b, a.coef(best)).tighten()
				if tooBig(x) {
					continue // dropping a derived constraint is sound
				}
				o = append(o, x)
			}
		}
		cs, bad = normalize(o)
		if bad {
			return nil, true, false
		}
		if len(cs) > fmLimit {
			return nil, false, true
		}
	}
}

var infeasCache = map[string]bool{}

func infeasible(cs []Lin) bool {
	ks := make([]string, 0, len(cs))
	for _, c := range cs {
		ks = append(ks, c.key())
	}
	sort.Strings(ks)
	k := strings.Join(ks, ";")
	if v, ok := infeasCache[k]; ok {
		return v
	}
	cp := make([]Lin, len(cs))
	copy(cp, cs)
	_, bad, _ := eliminate(cp, nil)
	if len(infeasCache) > 400000 {
		infeasCache = map[string]bool{}
	}
	infeasCache[k] = bad
	return bad
}

// related returns the constraints connected with the symbols of q.
func related(cs []Lin, q Lin) []Lin {
	in := map[Sym]bool{}
	for _, t := range q.Ts {
		in[t.s] = true
	}
	used := make([]bool, len(cs))
	var out []Lin
	for ch := true; ch; {
		ch = false
		for i, c := range cs {
			if used[i] {
				continue
			}
			hit := len(c.Ts) == 0
			for _, t := range c.Ts {
				if in[t.s] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				out = append(out, c)
				for _, t := range c.Ts {
					in[t.s] = true
				}
			}
		}
	}
	return out
}

// entails: cs |= q >= 0
func entails(cs []Lin, q Lin) bool {
	if q.isConst() {
		return q.K >= 0
	}
	rel := related(cs, q)
	return infeasible(append(append([]Lin{}, rel...), q.neg().addK(-1)))
}

// lowerBound of e under cs.
func lowerBound(cs []Lin, e Lin) (int64, bool) {
	if e.isConst() {
		return e.K, true
	}
	const tv = Sym(1 << 30)
	rel := append([]Lin{}, related(cs, e)...)
	d := e.addMul(symL(tv), -1)
	rel = append(rel, d, d.neg())
	out, bad, gave := eliminate(rel, map[Sym]bool{tv: true})
	if gave {
		return 0, false
	}
	if bad {
		return linBig, true
	}
	found := false
	var best int64
	for _, c := range out {
		k := c.coef(tv)
		if len(c.Ts) == 1 && k > 0 {
			// k*t + K >= 0 => t >= ceil(-K/k)
			b := -floorDiv(c.K, k)
			if !found || b > best {
				found, best = true, b
			}
		}
	}
	return best, found
}
