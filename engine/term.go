package main

// Hash-consed bit-vector / boolean terms with light simplification.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract // val = hi<<8|lo
	OZExt
	OSExt
)

var opSMT = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat"}

// Term: w==0 means Bool.
type Term struct {
	op   Op
	w    uint8
	val  uint64
	name string
	args []*Term
	id   int32
	sch  bool // mentions a schedule variable
}

type termKey struct {
	op         Op
	w          uint8
	val        uint64
	name       string
	a0, a1, a2 int32
	rest       string
}

var (
	termTab   = map[termKey]*Term{}
	termCount int32
	varList   []*Term
	smallC    [65][257]*Term
	TTrue     *Term
	TFalse    *Term
)

func init() {
	TTrue = mk(OConst, 0, 1, "")
	TFalse = mk(OConst, 0, 0, "")
}

func mk(op Op, w uint8, val uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, w: w, val: val, name: name, a0: -1, a1: -1, a2: -1}
	switch len(args) {
	case 0:
	case 1:
		k.a0 = args[0].id
	case 2:
		k.a0, k.a1 = args[0].id, args[1].id
	case 3:
		k.a0, k.a1, k.a2 = args[0].id, args[1].id, args[2].id
	default:
		var sb strings.Builder
		for _, a := range args {
			fmt.Fprintf(&sb, "%x,", a.id)
		}
		k.rest = sb.String()
	}
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, name: name, id: termCount}
	termCount++
	if len(args) > 0 {
		t.args = append([]*Term(nil), args...)
		for _, a := range args {
			if a.sch {
				t.sch = true
			}
		}
	}
	termTab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func C(w uint8, v uint64) *Term {
	v &= mask(w)
	if v <= 256 {
		if t := smallC[w][v]; t != nil {
			return t
		}
		t := mk(OConst, w, v, "")
		smallC[w][v] = t
		return t
	}
	return mk(OConst, w, v, "")
}
func CI(v int) *Term { return C(64, uint64(v)) }
func CB(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

var varByName = map[string]*Term{}

func Var(name string, w uint8) *Term {
	if t, ok := varByName[name]; ok {
		if t.w != w {
			panic("variable width clash: " + name)
		}
		return t
	}
	t := mk(OVar, w, 0, name)
	varByName[name] = t
	varList = append(varList, t)
	return t
}

// SchedVar is a variable that only records scheduling choices.
func SchedVar(name string, w uint8) *Term {
	t := Var(name, w)
	t.sch = true
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t == TTrue }
func (t *Term) isFalse() bool { return t == TFalse }

func TNot(a *Term) *Term {
	if a.op == OConst {
		return CB(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return mk(ONot, 0, 0, "", a)
}

func TAnd(as ...*Term) *Term { return nary(OAnd, as) }
func TOr(as ...*Term) *Term  { return nary(OOr, as) }

func nary(op Op, as []*Term) *Term {
	unit, zero := TTrue, TFalse
	if op == OOr {
		unit, zero = TFalse, TTrue
	}
	var out []*Term
	seen := map[int32]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op && len(t.args) <= 8 {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		var neg int32 = -1
		if t.op == ONot {
			neg = t.args[0].id
		} else if n, ok := termTab[termKey{op: ONot, a0: t.id, a1: -1, a2: -1}]; ok {
			neg = n.id
		}
		if neg >= 0 && seen[neg] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	// canonical order
	sortTerms(out)
	return mk(op, 0, 0, "", out...)
}

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j-1].id > ts[j].id; j-- {
			ts[j-1], ts[j] = ts[j], ts[j-1]
		}
	}
}

func TIte(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return TNot(c)
		}
		if a.isTrue() {
			return TOr(c, b)
		}
		if a.isFalse() {
			return TAnd(TNot(c), b)
		}
		if b.isTrue() {
			return TOr(TNot(c), a)
		}
		if b.isFalse() {
			return TAnd(c, a)
		}
	}
	return mk(OIte, a.w, 0, "", c, a, b)
}

func TEq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return CB(a.val == b.val)
	}
	if a.w == 0 {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return TNot(b)
		}
		if b.isFalse() {
			return TNot(a)
		}
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		switch b.op {
		case OZExt:
			x := b.args[0]
			if a.val > mask(x.w) {
				return TFalse
			}
			return TEq(C(x.w, a.val), x)
		case OConcat:
			hi, lo := b.args[0], b.args[1]
			return TAnd(TEq(C(hi.w, a.val>>lo.w), hi), TEq(C(lo.w, a.val), lo))
		case OIte:
			if b.args[1].isConst() && b.args[2].isConst() {
				return TIte(b.args[0], TEq(a, b.args[1]), TEq(a, b.args[2]))
			}
		case OAdd:
			if b.args[1].isConst() {
				return TEq(C(a.w, a.val-b.args[1].val), b.args[0])
			}
		case OSub:
			if b.args[1].isConst() {
				return TEq(C(a.w, a.val+b.args[1].val), b.args[0])
			}
		case OBXor:
			if b.args[1].isConst() {
				return TEq(C(a.w, a.val^b.args[1].val), b.args[0])
			}
		}
		return mk(OEq, 0, 0, "", a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, 0, 0, "", a, b)
}

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	switch op {
	case OAdd:
		return x + y, true
	case OSub:
		return x - y, true
	case OMul:
		return x * y, true
	case OUDiv:
		if y == 0 {
			return mask(w), true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1, true
			}
			return mask(w), true
		}
		if sy == -1 {
			return uint64(-sx), true
		}
		return uint64(sx / sy), true
	case OSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx % sy), true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return x << y, true
	case OLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w) >> y), true
	}
	return 0, false
}

func TBin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("bin %s width %d %d", opSMT[op], a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		v, _ := foldBin(op, w, a.val, b.val)
		return C(w, v)
	}
	m := mask(w)
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		} else if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	}
	if b.isConst() {
		v := b.val
		switch op {
		case OAdd:
			if v == 0 {
				return a
			}
			if a.op == OAdd && a.args[1].isConst() {
				return TBin(OAdd, a.args[0], C(w, a.args[1].val+v))
			}
		case OSub:
			if v == 0 {
				return a
			}
			return TBin(OAdd, a, C(w, -v))
		case OMul:
			if v == 0 {
				return b
			}
			if v == 1 {
				return a
			}
		case OBAnd:
			if v == 0 {
				return b
			}
			if v == m {
				return a
			}
			if a.op == OZExt && v&mask(a.args[0].w) == mask(a.args[0].w) {
				return a
			}
			// low mask -> zext(extract)
			if v&(v+1) == 0 {
				n := uint8(bits.Len64(v))
				return TZExt(TExtract(a, n-1, 0), w)
			}
		case OBOr:
			if v == 0 {
				return a
			}
			if v == m {
				return b
			}
		case OBXor:
			if v == 0 {
				return a
			}
			if a.op == OBXor && a.args[1].isConst() {
				return TBin(OBXor, a.args[0], C(w, a.args[1].val^v))
			}
		case OShl:
			if v == 0 {
				return a
			}
			if v >= uint64(w) {
				return C(w, 0)
			}
			return TConcat(TExtract(a, w-1-uint8(v), 0), C(uint8(v), 0))
		case OLShr:
			if v == 0 {
				return a
			}
			if v >= uint64(w) {
				return C(w, 0)
			}
			return TZExt(TExtract(a, w-1, uint8(v)), w)
		case OAShr:
			if v == 0 {
				return a
			}
		case OUDiv:
			if v == 1 {
				return a
			}
			if v != 0 && v&(v-1) == 0 {
				return TBin(OLShr, a, C(w, uint64(bits.TrailingZeros64(v))))
			}
		case OURem:
			if v == 1 {
				return C(w, 0)
			}
			if v != 0 && v&(v-1) == 0 {
				return TBin(OBAnd, a, C(w, v-1))
			}
		}
	}
	if a == b {
		switch op {
		case OSub, OBXor:
			return C(w, 0)
		case OBAnd, OBOr:
			return a
		}
	}
	if op == OBOr {
		if t := orConcat(a, b); t != nil {
			return t
		}
	}
	return mk(op, w, 0, "", a, b)
}

// orConcat merges a|b when one is zext(x) with x.w <= k and the other has k low zero bits.
func orConcat(a, b *Term) *Term {
	try := func(lo, hi *Term) *Term {
		if lo.op != OZExt {
			return nil
		}
		x := lo.args[0]
		// hi must be concat(h, 0_k) (maybe under zext) with k >= x.w
		k := lowZeros(hi)
		if k >= x.w && k < hi.w {
			h := TExtract(hi, hi.w-1, x.w)
			return TConcat(h, x)
		}
		return nil
	}
	if t := try(a, b); t != nil {
		return t
	}
	return try(b, a)
}

func lowZeros(t *Term) uint8 {
	switch t.op {
	case OConst:
		if t.val == 0 {
			return t.w
		}
		return uint8(bits.TrailingZeros64(t.val))
	case OConcat:
		k := lowZeros(t.args[1])
		if k == t.args[1].w {
			return k + lowZeros(t.args[0])
		}
		return k
	case OZExt:
		k := lowZeros(t.args[0])
		if k == t.args[0].w {
			return t.w
		}
		return k
	}
	return 0
}

func TExtract(a *Term, hi, lo uint8) *Term {
	if lo == 0 && hi == a.w-1 {
		return a
	}
	w := hi - lo + 1
	switch a.op {
	case OConst:
		return C(w, a.val>>lo)
	case OExtract:
		l0 := uint8(a.val & 0xff)
		return TExtract(a.args[0], hi+l0, lo+l0)
	case OConcat:
		l := a.args[1]
		if hi < l.w {
			return TExtract(l, hi, lo)
		}
		if lo >= l.w {
			return TExtract(a.args[0], hi-l.w, lo-l.w)
		}
		return TConcat(TExtract(a.args[0], hi-l.w, 0), TExtract(l, l.w-1, lo))
	case OZExt:
		x := a.args[0]
		if lo >= x.w {
			return C(w, 0)
		}
		if hi < x.w {
			return TExtract(x, hi, lo)
		}
		return TZExt(TExtract(x, x.w-1, lo), w)
	case OSExt:
		x := a.args[0]
		if hi < x.w {
			return TExtract(x, hi, lo)
		}
	case OBAnd, OBOr, OBXor:
		return TBin(a.op, TExtract(a.args[0], hi, lo), TExtract(a.args[1], hi, lo))
	case OBNot:
		return TUn(OBNot, TExtract(a.args[0], hi, lo))
	case OIte:
		if a.args[1].isConst() || a.args[2].isConst() {
			return TIte(a.args[0], TExtract(a.args[1], hi, lo), TExtract(a.args[2], hi, lo))
		}
	case OAdd, OSub, OMul:
		if lo == 0 {
			return TBin(a.op, TExtract(a.args[0], hi, 0), TExtract(a.args[1], hi, 0))
		}
	}
	return mk(OExtract, w, uint64(hi)<<8|uint64(lo), "", a)
}

func TConcat(hi, lo *Term) *Term {
	if hi.isConst() && lo.isConst() {
		return C(hi.w+lo.w, hi.val<<lo.w|lo.val)
	}
	if hi.isConst() && hi.val == 0 {
		return TZExt(lo, hi.w+lo.w)
	}
	if hi.op == OExtract && lo.op == OExtract && hi.args[0] == lo.args[0] {
		hl := uint8(hi.val & 0xff)
		lh := uint8(lo.val >> 8)
		if hl == lh+1 {
			return TExtract(hi.args[0], uint8(hi.val>>8), uint8(lo.val&0xff))
		}
	}
	if hi.op == OZExt {
		return TZExt(TConcat(hi.args[0], lo), hi.w+lo.w)
	}
	// right-assoc: concat(concat(a,b),c) -> concat(a, concat(b,c))
	if hi.op == OConcat {
		return TConcat(hi.args[0], TConcat(hi.args[1], lo))
	}
	if lo.op == OConcat && hi.op == OExtract && lo.args[0].op == OExtract && hi.args[0] == lo.args[0].args[0] {
		hl := uint8(hi.val & 0xff)
		lh := uint8(lo.args[0].val >> 8)
		if hl == lh+1 {
			return TConcat(TExtract(hi.args[0], uint8(hi.val>>8), uint8(lo.args[0].val&0xff)), lo.args[1])
		}
	}
	return mk(OConcat, hi.w+lo.w, 0, "", hi, lo)
}

func TZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return C(w, a.val)
	}
	if a.op == OZExt {
		return TZExt(a.args[0], w)
	}
	if a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
		return TIte(a.args[0], C(w, a.args[1].val), C(w, a.args[2].val))
	}
	return mk(OZExt, w, 0, "", a)
}
func TSExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return C(w, uint64(sext(a.val, a.w)))
	}
	if a.op == OZExt {
		return TZExt(a.args[0], w)
	}
	return mk(OSExt, w, 0, "", a)
}
func TUn(op Op, a *Term) *Term {
	if a.isConst() {
		if op == OBNot {
			return C(a.w, ^a.val)
		}
		return C(a.w, -a.val)
	}
	if a.op == op {
		return a.args[0]
	}
	return mk(op, a.w, 0, "", a)
}

// unsigned upper bound, cheap
func umax(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OZExt:
		return umax(t.args[0])
	case OIte:
		a, b := umax(t.args[1]), umax(t.args[2])
		if a > b {
			return a
		}
		return b
	case OBAnd:
		a, b := umax(t.args[0]), umax(t.args[1])
		if a < b {
			return a
		}
		return b
	}
	return mask(t.w)
}

func TCmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic("cmp width")
	}
	if a.isConst() && b.isConst() {
		switch op {
		case OUlt:
			return CB(a.val < b.val)
		case OUle:
			return CB(a.val <= b.val)
		case OSlt:
			return CB(sext(a.val, a.w) < sext(b.val, b.w))
		case OSle:
			return CB(sext(a.val, a.w) <= sext(b.val, b.w))
		}
	}
	if a == b {
		return CB(op == OUle || op == OSle)
	}
	// signed comparison of non-negative operands -> unsigned
	sb := uint64(1) << (a.w - 1)
	if op == OSlt || op == OSle {
		if umax(a) < sb && umax(b) < sb {
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
		} else if umax(a) < sb && b.isConst() && b.val >= sb {
			return TFalse
		} else if umax(b) < sb && a.isConst() && a.val >= sb {
			return TTrue
		}
	}
	if op == OUlt {
		if b.isConst() && umax(a) < b.val {
			return TTrue
		}
		if b.isConst() && b.val == 0 {
			return TFalse
		}
		if a.isConst() && a.val >= umax(b) {
			return TFalse
		}
	}
	if op == OUle {
		if b.isConst() && umax(a) <= b.val {
			return TTrue
		}
		if a.isConst() && a.val == 0 {
			return TTrue
		}
		if a.isConst() && a.val > umax(b) {
			return TFalse
		}
	}
	// narrow zext comparisons
	if (op == OUlt || op == OUle) && a.op == OZExt && b.isConst() && b.val <= mask(a.args[0].w) {
		return TCmp(op, a.args[0], C(a.args[0].w, b.val))
	}
	if (op == OUlt || op == OUle) && b.op == OZExt && a.isConst() && a.val <= mask(b.args[0].w) {
		return TCmp(op, C(b.args[0].w, a.val), b.args[0])
	}
	return mk(op, 0, 0, "", a, b)
}

// ---- evaluation under a model ----

type Model map[string]uint64

func evalTerm(t *Term, m Model, memo map[int32]uint64) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.op == OVar {
		return m[t.name] & maskB(t.w)
	}
	if v, ok := memo[t.id]; ok {
		return v
	}
	var r uint64
	ev := func(i int) uint64 { return evalTerm(t.args[i], m, memo) }
	switch t.op {
	case ONot:
		r = 1 - ev(0)
	case OAnd:
		r = 1
		for i := range t.args {
			if ev(i) == 0 {
				r = 0
				break
			}
		}
	case OOr:
		for i := range t.args {
			if ev(i) == 1 {
				r = 1
				break
			}
		}
	case OIte:
		if ev(0) == 1 {
			r = ev(1)
		} else {
			r = ev(2)
		}
	case OEq:
		if ev(0) == ev(1) {
			r = 1
		}
	case OUlt:
		r = b2u(ev(0) < ev(1))
	case OUle:
		r = b2u(ev(0) <= ev(1))
	case OSlt:
		r = b2u(sext(ev(0), t.args[0].w) < sext(ev(1), t.args[0].w))
	case OSle:
		r = b2u(sext(ev(0), t.args[0].w) <= sext(ev(1), t.args[0].w))
	case OBNot:
		r = ^ev(0)
	case ONeg:
		r = -ev(0)
	case OConcat:
		r = ev(0)<<t.args[1].w | ev(1)
	case OExtract:
		r = ev(0) >> (t.val & 0xff)
	case OZExt:
		r = ev(0)
	case OSExt:
		r = uint64(sext(ev(0), t.args[0].w))
	default:
		r, _ = foldBin(t.op, t.w, ev(0), ev(1))
	}
	r &= maskB(t.w)
	memo[t.id] = r
	return r
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// ---- printing ----

func sortSMT(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) head() string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("(_ extract %d %d)", t.val>>8, t.val&0xff)
	case OZExt:
		return fmt.Sprintf("(_ zero_extend %d)", t.w-t.args[0].w)
	case OSExt:
		return fmt.Sprintf("(_ sign_extend %d)", t.w-t.args[0].w)
	}
	return opSMT[t.op]
}

func (t *Term) atom() string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return "|" + t.name + "|"
	}
	return ""
}

func (t *Term) String() string {
	if a := t.atom(); a != "" {
		return a
	}
	s := "(" + t.head()
	for _, a := range t.args {
		s += " " + a.String()
	}
	return s + ")"
}
