package main

// Runtime values of the symbolic machine. All aggregate values are immutable.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

// Ptr addresses a location: heap object o, access path p (interned). o==0 is nil.
type Ptr struct {
	o int32
	p int32
}

// Slice: backing array located at arr (a location holding an *ArrV).
type Slice struct {
	arr           Ptr
	off, len, cap int
}

// Str is a Go string: concrete s, or symbolic bytes b, or aliasing slice memory al.
type Str struct {
	s  string
	b  []*Term
	al *Slice
}

type StructV struct {
	f []Val
	h hcache
}

const chunkN = 32

type chunk struct {
	v [chunkN]Val
	h hcache
}

type ArrV struct {
	n  int
	z  Val
	ch []*chunk
	h  hcache
}

type hcache struct {
	run    int
	closed bool
	a, b   uint64
}

type MapRef struct{ o int32 }
type ChanRef struct{ o int32 }

type FuncV struct {
	fn   *ssa.Function
	bi   *ssa.Builtin
	nat  string // native intrinsic closure
	free []Val
}

type Iface struct {
	t types.Type
	v Val
}

type Tuple []Val

// Word is a uintptr-sized word that holds a pointer-ish value.
type Word struct{ v Val }

type Float struct {
	f float64
	w uint8
}

type mapEnt struct {
	k, v Val
}

type MapV struct {
	ents []mapEnt
	t    *types.Map
}

type ChanV struct {
	cap    int
	buf    []Val
	closed bool
	elem   types.Type
	timer  bool
	bvc    []VC // clocks of the buffered elements (not part of the state)
	cvc    VC   // clock of close
}

// IterV: map/string iterator
type IterV struct {
	isMap bool
	m     int32
	keys  []Val
	i     int
	s     Str
}

// PoolV holds the free list of a sync.Pool
type PoolV struct {
	items []Val
}

type Obj struct {
	v     Val
	freed bool
	typ   types.Type
	site  *ssa.Function
	acc   []accInfo // not part of the state
}

// ---- paths ----

type pathNode struct {
	parent int32
	idx    int32
}

var (
	pathNodes = []pathNode{{-1, 0}}
	pathKids  = map[uint64]int32{}
	pathLists = [][]int32{nil}
)

func pathChild(p int32, idx int) int32 {
	k := uint64(uint32(p))<<32 | uint64(uint32(idx))
	if c, ok := pathKids[k]; ok {
		return c
	}
	c := int32(len(pathNodes))
	pathNodes = append(pathNodes, pathNode{p, int32(idx)})
	l := make([]int32, len(pathLists[p])+1)
	copy(l, pathLists[p])
	l[len(l)-1] = int32(idx)
	pathLists = append(pathLists, l)
	pathKids[k] = c
	return c
}

// ---- arrays ----

func newArr(n int, z Val) *ArrV { return &ArrV{n: n, z: z, ch: make([]*chunk, (n+chunkN-1)/chunkN)} }

func (a *ArrV) get(i int) Val {
	c := a.ch[i/chunkN]
	if c == nil {
		return a.z
	}
	if v := c.v[i%chunkN]; v != nil {
		return v
	}
	return a.z
}

func (a *ArrV) set(i int, v Val) *ArrV {
	n := &ArrV{n: a.n, z: a.z, ch: make([]*chunk, len(a.ch))}
	copy(n.ch, a.ch)
	var c chunk
	if old := a.ch[i/chunkN]; old != nil {
		c.v = old.v
	}
	c.v[i%chunkN] = v
	n.ch[i/chunkN] = &c
	return n
}

// setRange writes vs at off.
func (a *ArrV) setRange(off int, vs []Val) *ArrV {
	if len(vs) == 0 {
		return a
	}
	n := &ArrV{n: a.n, z: a.z, ch: make([]*chunk, len(a.ch))}
	copy(n.ch, a.ch)
	for k := 0; k < len(vs); {
		ci := (off + k) / chunkN
		var c chunk
		if old := n.ch[ci]; old != nil {
			c.v = old.v
		}
		for ; k < len(vs) && (off+k)/chunkN == ci; k++ {
			c.v[(off+k)%chunkN] = vs[k]
		}
		n.ch[ci] = &c
	}
	return n
}

func (a *ArrV) getRange(off, n int) []Val {
	out := make([]Val, n)
	for i := range out {
		out[i] = a.get(off + i)
	}
	return out
}

// ---- zero values ----

func bitsOf(t types.Type) (uint8, bool) { // width, signed
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return 64, false
		}
		return 0, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 0, false
}

var zeroCache = map[types.Type]Val{}

func zeroVal(t types.Type) Val {
	if v, ok := zeroCache[t]; ok {
		return v
	}
	v := zeroVal0(t)
	zeroCache[t] = v
	return v
}

func zeroVal0(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return Ptr{}
		case u.Info()&types.IsBoolean != 0:
			return TFalse
		case u.Info()&types.IsInteger != 0:
			w, _ := bitsOf(u)
			return C(w, 0)
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Info()&types.IsFloat != 0:
			if u.Kind() == types.Float32 {
				return Float{0, 32}
			}
			return Float{0, 64}
		case u.Info()&types.IsComplex != 0:
			return Float{0, 128}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return MapRef{}
	case *types.Chan:
		return ChanRef{}
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = zeroVal(u.Field(i).Type())
		}
		return &StructV{f: f}
	case *types.Array:
		return newArr(int(u.Len()), zeroVal(u.Elem()))
	case *types.Tuple:
		out := make(Tuple, u.Len())
		for i := range out {
			out[i] = zeroVal(u.At(i).Type())
		}
		return out
	}
	unsupported("zero value of %v", t)
	return nil
}

func isNilVal(v Val) bool {
	switch x := v.(type) {
	case Ptr:
		return x.o == 0
	case Slice:
		return x.arr.o == 0
	case MapRef:
		return x.o == 0
	case ChanRef:
		return x.o == 0
	case *FuncV:
		return x == nil
	case Iface:
		return x.t == nil
	}
	return false
}

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...interface{}) {
	panic(unsupportedErr{fmt.Sprintf(f, a...)})
}

// ---- type identity ----

var (
	typeIDs   = map[string][]types.Type{}
	typeCanon = map[types.Type]types.Type{}
	typeNum   = map[types.Type]int{}
)

// canonType maps identical types to one representative.
func canonType(t types.Type) types.Type {
	if c, ok := typeCanon[t]; ok {
		return c
	}
	k := types.TypeString(t, nil)
	for _, c := range typeIDs[k] {
		if types.Identical(c, t) {
			typeCanon[t] = c
			return c
		}
	}
	typeIDs[k] = append(typeIDs[k], t)
	typeCanon[t] = t
	typeNum[t] = len(typeNum) + 1
	return t
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
