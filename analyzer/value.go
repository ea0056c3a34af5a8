package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- values

type Value interface{ key() string }

type VInt struct{ L Lin }
type VBool struct{ C Cond }
type VRef struct { // pointer, map, chan, opaque func or opaque interface
	K    string
	Path string
	T    types.Type
}
type VNil struct{ T types.Type }
type VIface struct {
	Dyn types.Type
	V   Value
}
type VSlice struct {
	Obj           string
	Off, Len, Cap Lin
	T             types.Type
}
type VStr struct {
	K     string
	Const *string
}
type VFunc struct {
	Fn   *ssa.Function
	Bind []Value
}
type VStruct struct {
	T types.Type
	F []Value
}
type VTuple struct{ V []Value }
type VUnk struct {
	K string
	T types.Type
}

func (v VInt) key() string  { return "i:" + v.L.key() }
func (v VBool) key() string { return "b:" + v.C.key() }
func (v VRef) key() string  { return "r:" + v.K + v.Path }
func (v VNil) key() string  { return "nil" }
func (v VIface) key() string {
	return "I:" + types.TypeString(v.Dyn, nil) + ":" + v.V.key()
}
func (v VSlice) key() string {
	return "S:" + v.Obj + "[" + v.Off.key() + "," + v.Len.key() + "," + v.Cap.key() + "]"
}
func (v VStr) key() string {
	if v.Const != nil {
		return "str:" + strconv.Quote(*v.Const)
	}
	return "str:" + v.K
}
func (v VFunc) key() string {
	var b []string
	for _, x := range v.Bind {
		b = append(b, x.key())
	}
	return "F:" + v.Fn.String() + "(" + strings.Join(b, ",") + ")"
}
func (v VStruct) key() string {
	var b []string
	for _, x := range v.F {
		b = append(b, x.key())
	}
	return "{" + strings.Join(b, ",") + "}"
}
func (v VTuple) key() string {
	var b []string
	for _, x := range v.V {
		b = append(b, x.key())
	}
	return "(" + strings.Join(b, ",") + ")"
}
func (v VUnk) key() string { return "u:" + v.K }

// ---------------------------------------------------------------- conditions

type condKind int

const (
	cConst condKind = iota
	cGE             // L >= 0
	cEQ             // L == 0
	cAtom
)

type Cond struct {
	Kind condKind
	L    Lin
	A    string
	B    bool // for cConst: value; otherwise: polarity (false = negated)
}

func boolC(b bool) Cond   { return Cond{Kind: cConst, B: b} }
func geC(l Lin) Cond      { return Cond{Kind: cGE, L: l, B: true} }
func eqC(l Lin) Cond      { return Cond{Kind: cEQ, L: l, B: true} }
func atomC(a string) Cond { return Cond{Kind: cAtom, A: a, B: true} }
func (c Cond) not() Cond  { c.B = !c.B; return c }
func (c Cond) key() string {
	switch c.Kind {
	case cConst:
		return fmt.Sprint(c.B)
	case cGE:
		return fmt.Sprintf("%v(%s>=0)", c.B, c.L.key())
	case cEQ:
		return fmt.Sprintf("%v(%s==0)", c.B, c.L.key())
	}
	return fmt.Sprintf("%v(%s)", c.B, c.A)
}

// ---------------------------------------------------------------- symbols

type symDef struct {
	op   string // "elem", "byte", "word", or an opaque operator
	base string
	idx  Lin
	src  Lin
	n    int
	wb   []Lin // bytes of a word, least significant first
}

type symInfo struct {
	name   string
	lo, hi int64
	hasLo  bool
	hasHi  bool
	extra  []Lin
	def    *symDef
	bits   int
}

type SymTab struct {
	infos []symInfo
	byKey map[string]Sym
	n     int
}

func newSymTab() *SymTab { return &SymTab{byKey: map[string]Sym{}} }

func (t *SymTab) get(key string) (Sym, bool) { s, ok := t.byKey[key]; return s, ok }

func (t *SymTab) mk(key string) Sym {
	if s, ok := t.byKey[key]; ok {
		return s
	}
	s := Sym(len(t.infos))
	t.infos = append(t.infos, symInfo{name: key})
	t.byKey[key] = s
	return s
}

func intRange(T types.Type, sizes types.Sizes) (lo, hi int64, hasLo, hasHi bool, bits int) {
	b, ok := T.Underlying().(*types.Basic)
	if !ok {
		return 0, 0, false, false, 64
	}
	sz := int64(8)
	if b.Kind() != types.UntypedInt && b.Kind() != types.UntypedRune {
		sz = sizes.Sizeof(b)
	}
	bits = int(sz) * 8
	if b.Info()&types.IsUnsigned != 0 {
		if sz < 8 {
			return 0, int64(1)<<(8*sz) - 1, true, true, bits
		}
		return 0, 0, true, false, bits
	}
	if sz < 4 {
		return -(int64(1) << (8*sz - 1)), int64(1)<<(8*sz-1) - 1, true, true, bits
	}
	if sz == 4 {
		return -(int64(1) << 31), int64(1)<<31 - 1, true, true, bits
	}
	return 0, 0, false, false, bits
}

func (t *SymTab) mkTyped(key string, T types.Type, sizes types.Sizes) Sym {
	if s, ok := t.byKey[key]; ok {
		return s
	}
	s := t.mk(key)
	lo, hi, hl, hh, bits := intRange(T, sizes)
	in := &t.infos[s]
	in.lo, in.hi, in.hasLo, in.hasHi, in.bits = lo, hi, hl, hh, bits
	return s
}

func (t *SymTab) ranges(s Sym) []Lin {
	if int(s) >= len(t.infos) {
		return nil
	}
	in := &t.infos[s]
	var out []Lin
	if in.hasLo {
		out = append(out, symL(s).addK(-in.lo))
	}
	if in.hasHi {
		out = append(out, symL(s).neg().addK(in.hi))
	}
	return append(out, in.extra...)
}

func (t *SymTab) show(l Lin) string {
	if len(l.Ts) == 0 {
		return strconv.FormatInt(l.K, 10)
	}
	var ps []string
	for _, x := range l.Ts {
		n := fmt.Sprintf("s%d", x.s)
		if int(x.s) < len(t.infos) {
			n = t.infos[x.s].name
		}
		switch x.c {
		case 1:
			ps = append(ps, "+"+n)
		case -1:
			ps = append(ps, "-"+n)
		default:
			ps = append(ps, fmt.Sprintf("%+d*%s", x.c, n))
		}
	}
	if l.K != 0 {
		ps = append(ps, fmt.Sprintf("%+d", l.K))
	}
	return strings.TrimPrefix(strings.Join(ps, ""), "+")
}

// ---------------------------------------------------------------- words of bytes

func single(l Lin) (Sym, bool) {
	if l.K == 0 && len(l.Ts) == 1 && l.Ts[0].c == 1 {
		return l.Ts[0].s, true
	}
	return 0, false
}

// bytesOf splits an unsigned value of n bytes, least significant first.
func (t *SymTab) bytesOf(l Lin, n int) []Lin {
	out := make([]Lin, n)
	if l.isConst() {
		for i := range out {
			out[i] = cst((l.K >> (8 * i)) & 0xff)
		}
		return out
	}
	if s, ok := single(l); ok {
		in := t.infos[s]
		if in.def != nil && in.def.op == "word" {
			for i := range out {
				if i < len(in.def.wb) {
					out[i] = in.def.wb[i]
				}
			}
			return out
		}
		if in.hasLo && in.lo == 0 && in.hasHi && in.hi <= 255 {
			out[0] = l
			return out
		}
		known := 8
		if in.bits > 0 && in.hasLo && in.lo == 0 {
			known = in.bits / 8
		}
		for i := range out {
			if i < known {
				out[i] = t.byteOf(l, i)
			}
		}
		return out
	}
	for i := range out {
		out[i] = t.byteOf(l, i)
	}
	return out
}

func (t *SymTab) byteOf(l Lin, i int) Lin {
	k := fmt.Sprintf("byte%d(%s)", i, l.key())
	if s, ok := t.byKey[k]; ok {
		return symL(s)
	}
	s := t.mk(k)
	in := &t.infos[s]
	in.hasLo, in.hasHi, in.hi, in.bits = true, true, 255, 8
	in.def = &symDef{op: "byte", src: l, n: i}
	return symL(s)
}

// word composes bytes (least significant first) to a value.
func (t *SymTab) word(bs []Lin) Lin {
	allc := true
	hi := 0
	for i, b := range bs {
		if !b.isConst() {
			allc = false
		}
		if !(b.isConst() && b.K == 0) {
			hi = i + 1
		}
	}
	if allc {
		var v int64
		for i, b := range bs {
			v |= b.K << (8 * i)
		}
		return cst(v)
	}
	if hi == 1 {
		return bs[0]
	}
	// all the bytes of one source value?
	if s, ok := single(bs[0]); ok {
		if d := t.infos[s].def; d != nil && d.op == "byte" && d.n == 0 {
			full := true
			for i := 0; i < hi; i++ {
				si, ok := single(bs[i])
				if !ok {
					full = false
					break
				}
				di := t.infos[si].def
				if di == nil || di.op != "byte" || di.n != i || !di.src.equal(d.src) {
					full = false
					break
				}
			}
			if full {
				if ss, ok := single(d.src); ok {
					i := t.infos[ss]
					if i.hasLo && i.lo >= 0 && (i.bits == 8*hi || i.hasHi && hi < 8 && i.hi < int64(1)<<(8*hi)) {
						return d.src
					}
				}
			}
		}
	}
	var ks []string
	for _, b := range bs[:hi] {
		ks = append(ks, b.key())
	}
	k := "word(" + strings.Join(ks, "|") + ")"
	if s, ok := t.byKey[k]; ok {
		return symL(s)
	}
	s := t.mk(k)
	in := &t.infos[s]
	in.hasLo = true
	in.bits = hi * 8
	if hi < 8 {
		in.hasHi, in.hi = true, int64(1)<<(8*hi)-1
	}
	in.def = &symDef{op: "word", wb: append([]Lin{}, bs[:hi]...)}
	return symL(s)
}

// ---------------------------------------------------------------- constants

func constValue(c *ssa.Const) Value {
	T := c.Type()
	if c.Value == nil {
		return zeroValue(T)
	}
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{boolC(constant.BoolVal(c.Value))}
		case u.Info()&types.IsInteger != 0:
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return VInt{cst(i)}
			}
			return VUnk{K: "const:" + c.Value.ExactString(), T: T}
		case u.Info()&types.IsString != 0:
			s := constant.StringVal(c.Value)
			return VStr{Const: &s}
		}
	}
	return VUnk{K: "const:" + c.Value.ExactString(), T: T}
}

func zeroValue(T types.Type) Value {
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{boolC(false)}
		case u.Info()&types.IsInteger != 0:
			return VInt{cst(0)}
		case u.Info()&types.IsString != 0:
			s := ""
			return VStr{Const: &s}
		}
		if u.Kind() == types.UntypedNil {
			return VNil{T}
		}
		return VUnk{K: "zero:" + u.Name(), T: T}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = zeroValue(u.Field(i).Type())
		}
		return VStruct{T: T, F: f}
	case *types.Array:
		return VUnk{K: "zeroarray", T: T}
	}
	return VNil{T}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
