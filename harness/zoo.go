// Random Go types and values.
package main

import (
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"unsafe"
	atwin "verifharness/a/twin"
	btwin "verifharness/b/twin"
)

type Lim interface{ N() uint64 }
type (
	L0   struct{}
	L1   struct{}
	L2   struct{}
	L3   struct{}
	L4   struct{}
	L5   struct{}
	L7   struct{}
	L8   struct{}
	L9   struct{}
	L15  struct{}
	L16  struct{}
	L17  struct{}
	L31  struct{}
	L32  struct{}
	L33  struct{}
	L64  struct{}
	L65  struct{}
	L100 struct{}
	L255 struct{}
	L256 struct{}
	L257 struct{}
	L512 struct{}
	L515 struct{}
	L2k  struct{}
	L70k struct{}
	L20b struct{}
	L40b struct{}
	L33b struct{}
	L45b struct{}
	L57b struct{}
	L32c struct{}
	L35c struct{}
	L61b struct{}
	L62b struct{}
	L63b struct{}
	L63c struct{}
	Lmax struct{}
	Lmx3 struct{}
	Lmx7 struct{}
	Lmxf struct{}
)

func (L0) N() uint64   { return 0 }
func (L1) N() uint64   { return 1 }
func (L2) N() uint64   { return 2 }
func (L3) N() uint64   { return 3 }
func (L4) N() uint64   { return 4 }
func (L5) N() uint64   { return 5 }
func (L7) N() uint64   { return 7 }
func (L8) N() uint64   { return 8 }
func (L9) N() uint64   { return 9 }
func (L15) N() uint64  { return 15 }
func (L16) N() uint64  { return 16 }
func (L17) N() uint64  { return 17 }
func (L31) N() uint64  { return 31 }
func (L32) N() uint64  { return 32 }
func (L33) N() uint64  { return 33 }
func (L64) N() uint64  { return 64 }
func (L65) N() uint64  { return 65 }
func (L100) N() uint64 { return 100 }
func (L255) N() uint64 { return 255 }
func (L256) N() uint64 { return 256 }
func (L257) N() uint64 { return 257 }
func (L512) N() uint64 { return 512 }
func (L515) N() uint64 { return 515 }
func (L2k) N() uint64  { return 2048 }
func (L70k) N() uint64 { return 70000 }
func (L20b) N() uint64 { return 1 << 20 }
func (L40b) N() uint64 { return 1 << 40 }
func (L33b) N() uint64 { return 1<<33 + 1 }
func (L45b) N() uint64 { return 1<<45 + 5 }
func (L57b) N() uint64 { return 1 << 57 }
func (L32c) N() uint64 { return 1<<32 + 8 }
func (L35c) N() uint64 { return 1<<35 + 13 }
func (L61b) N() uint64 { return 1<<61 + 3 }
func (L62b) N() uint64 { return 1 << 62 }
func (L63b) N() uint64 { return 1 << 63 }
func (L63c) N() uint64 { return 1<<63 + 1 }
func (Lmax) N() uint64 { return 1<<64 - 1 }
func (Lmx3) N() uint64 { return 1<<64 - 4 }
func (Lmx7) N() uint64 { return 1<<64 - 8 }
func (Lmxf) N() uint64 { return 1<<64 - 32 }

type List[T any, L Lim] []T

func (*List[T, L]) Limit() uint64 { var l L; return l.N() }

type Bitl[L Lim] []byte

func (*Bitl[L]) Limit() uint64    { var l L; return l.N() }
func (b *Bitl[L]) BitLen() uint64 { return 0 }

type (
	Bv0[L Lim]  [0]byte
	Bv1[L Lim]  [1]byte
	Bv2[L Lim]  [2]byte
	Bv4[L Lim]  [4]byte
	Bv5[L Lim]  [5]byte
	Bv32[L Lim] [32]byte
	Bv33[L Lim] [33]byte
	Bv64[L Lim] [64]byte
	Bv65[L Lim] [65]byte
)

func (*Bv0[L]) BitLen() uint64  { var l L; return l.N() }
func (*Bv1[L]) BitLen() uint64  { var l L; return l.N() }
func (*Bv2[L]) BitLen() uint64  { var l L; return l.N() }
func (*Bv4[L]) BitLen() uint64  { var l L; return l.N() }
func (*Bv5[L]) BitLen() uint64  { var l L; return l.N() }
func (*Bv32[L]) BitLen() uint64 { var l L; return l.N() }
func (*Bv33[L]) BitLen() uint64 { var l L; return l.N() }
func (*Bv64[L]) BitLen() uint64 { var l L; return l.N() }
func (*Bv65[L]) BitLen() uint64 { var l L; return l.N() }

type (
	NBool bool
	NU8   uint8
	NU16  uint16
	NU32  uint32
	NU64  uint64
)

// static structs, with embedding, squashing, omission
type SFix struct {
	A uint8
	B uint64
	C uint16
}
type SFix2 struct {
	A uint32
	B [3]uint16
	C bool
	D SFix
}
type SVar struct {
	A uint16
	B List[uint16, L7]
	C uint8
	D List[uint8, L65]
}
type SLim struct {
	A uint16
	B List[uint8, L63b]
	C List[uint16, L62b]
}
type SLim2 struct {
	A List[uint8, Lmx3]
	B uint64
	C Bitl[Lmx3]
	D List[uint64, Lmax]
}
type SVar2 struct {
	A SVar
	B List[SFix, L4]
	C *SVar
	D Bitl[L9]
}
type SEmb struct {
	X uint8
	SFix
	Y uint32
	SVar
	Z uint16
}
type SSq struct {
	A uint8
	Q SVar  `ssz:"squash"`
	O int   `ssz:"omit"`
	R SFix2 `ssz:"squash"`
	B uint8
}
type SSqDeep struct {
	H uint64
	E SSq `ssz:"squash"`
	SEmb
	o  map[string]int `ssz:"omit"`
	un uint16
	T  List[SSq, L3]
}
type SOmit struct {
	O1 func() `ssz:"omit"`
	A  [5]bool
	O2 []string `ssz:"x,omit"`
	B  Bitl[L31]
	C  *[4]uint32
	O3 SVar `ssz:"omit,squash"`
}
type S3 struct {
	A uint8
	B uint16
}
type S3L struct {
	A, B List[S3, L5]
	C    uint8
	D    List[S3, L40b]
}
type SEmpty struct{}

// blank and unexported fields are fields like any other
type SBlank struct {
	A uint16
	_ uint32
	b List[uint8, L7]
	_ [3]bool
}
type SEmbBlank struct {
	X uint8
	SBlank
	_ uint16
	y struct{ Z uint64 } `ssz:"squash"`
}
type SOne struct{ A List[uint64, L9] }
type SPtr struct {
	A *uint8
	B **uint64
	C *List[uint32, L5]
	D *SFix
}
type EmbU uint32
type EmbL List[uint8, L5]

func (*EmbL) Limit() uint64 { return 5 }

type SEmbNon struct {
	EmbU
	A uint8
	EmbL
	*SFix
}
type STagOther struct {
	A uint16 `json:"a" ssz:"foo"`
	B SFix   `json:"squash"`
	C uint8  `ssz:""`
}

var statics []reflect.Type // element types of generic lists and of random composition
var listTs []reflect.Type

func tt[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

func lists[T any]() {
	statics = append(statics, tt[T]())
	listTs = append(listTs, tt[List[T, L1]](), tt[List[T, L2]](), tt[List[T, L3]](), tt[List[T, L5]](), tt[List[T, L8]](), tt[List[T, L17]](), tt[List[T, L33]](), tt[List[T, L256]](), tt[List[T, L70k]](), tt[List[T, L40b]](), tt[List[T, L0]](), tt[List[T, L20b]](), tt[List[T, L33b]](), tt[List[T, L45b]](), tt[List[T, L57b]](), tt[List[T, L61b]](), tt[List[T, L62b]](), tt[List[T, L63b]](), tt[List[T, Lmax]](), tt[List[T, Lmx7]]())
}

func init() {
	lists[uint8]()
	lists[uint16]()
	lists[uint32]()
	lists[uint64]()
	lists[bool]()
	lists[NU8]()
	lists[NU64]()
	lists[[4]byte]()
	lists[[33]byte]()
	lists[[3]uint16]()
	lists[[2]List[uint8, L5]]()
	lists[S3]()
	lists[S3L]()
	lists[List[S3, L4]]()
	lists[SFix]()
	lists[SFix2]()
	lists[SVar]()
	lists[SVar2]()
	lists[SEmb]()
	lists[SSq]()
	lists[SPtr]()
	lists[SOne]()
	lists[*uint16]()
	lists[*SVar]()
	lists[List[uint8, L3]]()
	lists[List[uint64, L40b]]()
	lists[List[uint32, L4]]()
	lists[List[List[uint16, L3], L4]]()
	lists[List[SFix, L7]]()
	lists[Bitl[L9]]()
	lists[Bitl[L2k]]()
	lists[Bv2[L9]]()
	lists[Bv2[L16]]()
	lists[Bv33[L257]]()
	listTs = append(listTs, tt[List[uint8, L31]](), tt[List[uint8, L32]](), tt[List[uint8, L64]](), tt[List[uint8, L65]](), tt[List[uint8, L2k]](),
		tt[List[uint16, L15]](), tt[List[uint16, L16]](), tt[List[uint16, L17]](), tt[List[uint32, L7]](), tt[List[uint32, L9]](), tt[List[uint64, L4]](), tt[List[uint64, L9]](), tt[List[bool, L31]](), tt[List[bool, L32]]())
	bits := []reflect.Type{tt[Bitl[L0]](), tt[Bitl[L1]](), tt[Bitl[L2]](), tt[Bitl[L7]](), tt[Bitl[L8]](), tt[Bitl[L9]](), tt[Bitl[L15]](), tt[Bitl[L16]](), tt[Bitl[L17]](), tt[Bitl[L31]](), tt[Bitl[L100]](), tt[Bitl[L255]](), tt[Bitl[L256]](), tt[Bitl[L257]](), tt[Bitl[L512]](), tt[Bitl[L515]](), tt[Bitl[L2k]](), tt[Bitl[L70k]](), tt[Bitl[L40b]](), tt[Bitl[L32c]](), tt[Bitl[L57b]](), tt[Bitl[L63c]](), tt[Bitl[Lmax]](), tt[Bitl[Lmx3]](), tt[Bitl[Lmx7]](), tt[Bitl[Lmxf]](),
		tt[Bv1[L1]](), tt[Bv1[L2]](), tt[Bv1[L5]](), tt[Bv1[L7]](), tt[Bv1[L8]](), tt[Bv2[L9]](), tt[Bv2[L15]](), tt[Bv2[L16]](), tt[Bv4[L31]](), tt[Bv4[L32]](), tt[Bv5[L33]](), tt[Bv32[L255]](), tt[Bv32[L256]](), tt[Bv33[L257]](), tt[Bv64[L512]](), tt[Bv65[L515]](), tt[Bv0[L0]]()}
	listTs = append(listTs, tt[List[uint8, Lmx3]](), tt[List[uint8, Lmxf]](), tt[List[uint8, L63c]](), tt[List[uint16, Lmx3]](), tt[List[uint16, L63c]](), tt[List[uint16, L63b]](), tt[List[uint32, L62b]](), tt[List[uint32, Lmx3]](), tt[List[uint64, L61b]](), tt[List[uint64, L62b]](), tt[List[bool, Lmx3]](),
		tt[List[[2]uint64, L61b]](), tt[List[List[uint8, Lmax], L2]](), tt[List[List[uint8, L3], Lmx3]](), tt[[2]List[uint16, Lmax]](), tt[[2]List[uint8, L63b]](), tt[[1]List[uint8, Lmx3]](), tt[*List[uint64, Lmax]](), tt[SLim](), tt[SLim2](), tt[[1]SLim]())
	bitTs = bits
	statics = append(statics, bits...)
	statics = append(statics, tt[SSqDeep](), tt[SOmit](), tt[SEmpty](), tt[SBlank](), tt[SEmbBlank](), tt[List[SEmbBlank, L5]](), tt[SEmbNon](), tt[STagOther](), tt[NBool](), tt[NU16](), tt[NU32](), tt[*SPtr](), tt[EmbL]())
}

// different types of one name
func twins1() {
	type Item struct{ A uint8 }
	type Pair struct {
		A Item
		L List[Item, L5]
	}
	twins = append(twins, tt[Item](), tt[Pair](), tt[List[Item, L3]](), tt[*Item](), tt[[2]Item]())
}
func twins2() {
	type Item struct {
		B uint16
		C List[uint8, L9]
	}
	type Pair struct {
		L List[Item, L5]
		A Item
	}
	twins = append(twins, tt[Item](), tt[Pair](), tt[List[Item, L3]](), tt[*Item](), tt[[2]Item]())
}
func twins3() {
	type Item [5]uint16
	type Pair [2]Item
	twins = append(twins, tt[Item](), tt[Pair](), tt[List[Item, L3]](), tt[*Item](), tt[[2]Item]())
}

func init() {
	twins1()
	twins2()
	twins3()
	twins = append(twins, tt[atwin.Items](), tt[btwin.Items](), tt[atwin.Bits](), tt[btwin.Bits](), tt[atwin.BitItems](), tt[btwin.BitItems](), tt[atwin.Inner](), tt[btwin.Inner](), tt[atwin.Block](), tt[btwin.Block](),
		tt[[2]atwin.Inner](), tt[[2]btwin.Inner](), tt[List[atwin.Block, L7]](), tt[List[btwin.Block, L7]](), reflect.TypeOf(atwin.Local()), reflect.TypeOf(btwin.Local()))
	statics = append(statics, twins...)
}

var twins []reflect.Type

// structs with many fields
func wide(n int, fixed bool) reflect.Type {
	e := []reflect.Type{tt[uint8](), tt[bool](), tt[List[uint8, L5]](), tt[uint16](), tt[Bitl[L9]](), tt[S3L](), tt[Bv1[L5]]()}
	if fixed {
		e = []reflect.Type{tt[uint8](), tt[bool](), tt[uint32](), tt[S3]()}
	}
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		fs = append(fs, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: e[(i+i/7)%len(e)]})
	}
	return reflect.StructOf(fs)
}

func init() {
	for _, n := range []int{127, 255, 256, 257, 300} {
		wides = append(wides, wide(n, true), wide(n, false))
	}
	manyTs = []reflect.Type{tt[List[uint8, L20b]](), tt[List[uint16, L20b]](), tt[List[uint64, L70k]](), tt[List[bool, L20b]](), tt[List[bool, L70k]](), tt[List[NU8, L20b]](),
		tt[List[S3, L20b]](), tt[List[S3L, L20b]](), tt[List[SFix, L70k]](), tt[List[SVar2, L70k]](), tt[List[List[uint8, L3], L20b]](), tt[List[List[uint8, L3], L70k]](), tt[List[Bitl[L9], L20b]](),
		tt[List[*uint16, L20b]](), tt[List[[3]uint16, L70k]](), tt[List[[4]byte, L40b]](), tt[List[Bv2[L9], L40b]](), tt[List[SOne, L20b]](), tt[Bitl[L57b]](), tt[[65540]uint8](), tt[[65540]uint16](), tt[[65538]bool](), tt[[65539]S3](), tt[[65541]List[uint8, L3]](),
		tt[[2]List[uint8, L20b]](), tt[struct {
			A uint8
			B List[bool, L20b]
			C List[S3L, L70k]
		}]()}
}

var wides, manyTs []reflect.Type

var bitTs []reflect.Type

func arrLen(r *rand.Rand) int {
	switch r.Intn(8) {
	case 0:
		return []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 96, 100}[r.Intn(11)]
	case 1:
		return 1
	}
	return 1 + r.Intn(6)
}

// a struct tag, in all the ways the flags can be written or nearly written
func randTag(r *rand.Rand, squash bool) reflect.StructTag {
	switch r.Intn(6) {
	case 0:
		return `ssz:"omit"`
	case 1:
		if squash {
			return `ssz:"squash"`
		}
	}
	words := []string{"", "foo", "omits", "Omit", " omit", "omit ", "squashed", "x=omit", "-", "omitempty"}
	n := r.Intn(4)
	var ws []string
	for i := 0; i < n; i++ {
		ws = append(ws, words[r.Intn(len(words))])
	}
	switch r.Intn(3) {
	case 0:
		ws = append(ws, "omit")
	case 1:
		if squash {
			ws = append(ws, "squash")
		}
	}
	if len(ws) > 1 {
		i, j := r.Intn(len(ws)), r.Intn(len(ws))
		ws[i], ws[j] = ws[j], ws[i]
	}
	k := []string{"ssz", "ssz", "ssz", "ssz", "json", "SSZ", "sszz"}[r.Intn(7)]
	tag := k + `:"` + strings.Join(ws, ",") + `"`
	switch r.Intn(4) {
	case 0:
		tag = `json:"squash" ` + tag
	case 1:
		tag += ` json:"omit"`
	}
	return reflect.StructTag(tag)
}

// a random type
func randType(r *rand.Rand, depth int) reflect.Type {
	x := r.Intn(100)
	switch {
	case depth <= 0 || x < 14:
		return statics[r.Intn(len(statics))]
	case x < 15:
		return wides[r.Intn(len(wides))]
	case x < 24:
		return statics[r.Intn(7)]
	case x < 34:
		return bitTs[r.Intn(len(bitTs))]
	case x < 54:
		return listTs[r.Intn(len(listTs))]
	case x < 70:
		n := arrLen(r)
		e := randType(r, depth-1)
		if e.Size() > 4096 {
			n = 1 + n%3
		}
		return reflect.ArrayOf(n, e)
	case x < 78:
		return reflect.PointerTo(randType(r, depth-1))
	}
	n := 1 + r.Intn(6)
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: "F" + string(rune('A'+i)), Type: randType(r, depth-1)}
		if r.Intn(3) == 0 {
			f.Tag = randTag(r, f.Type.Kind() == reflect.Struct)
		}
		if f.Type.Kind() == reflect.Struct && f.Type.Name() != "" && !strings.Contains(f.Type.Name(), "[") && r.Intn(3) == 0 {
			dup := false
			for _, g := range fs {
				dup = dup || g.Name == f.Type.Name()
			}
			if !dup {
				f.Name, f.Anonymous = f.Type.Name(), true
			}
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

var badTs = []reflect.Type{tt[int](), tt[int64](), tt[string](), tt[map[int]int](), tt[chan int](), tt[func()](), tt[any](), tt[float64](), tt[complex128](), tt[uintptr](), tt[uint](), tt[int8](),
	tt[[]uint8](), tt[[]uint16](), tt[[]uint64](), tt[[]bool](), tt[[]SFix](), tt[[][4]byte](), tt[*[]uint8](), tt[[3]string](), tt[[3]int](), tt[List[string, L3]](), tt[List[int, L3]](), tt[List[[]byte, L3]](),
	tt[Bv1[L9]](), tt[Bv2[L8]](), tt[Bv2[L7]](), tt[Bv1[L0]](), tt[Bv0[L1]](), tt[Bv4[L33]](), tt[Bv32[L257]](), tt[Bv1[L32c]](), tt[Bv2[L35c]](), tt[Bv0[Lmax]](), tt[Bv0[Lmx3]](), tt[Bv1[Lmax]](), tt[Bv1[Lmx7]](), tt[[2]Bv0[Lmx3]](), tt[unsafe.Pointer](), tt[*int](), tt[List[Bv1[L9], L2]](),
	tt[struct {
		A uint8
		B int
	}](), tt[struct {
		A uint8 `ssz:"squash"`
	}](), tt[struct {
		A *SFix `ssz:"squash"`
	}](), tt[struct {
		A List[uint8, L3] `ssz:"squash"`
	}](), tt[struct {
		A SFix
		B []uint8 `ssz:"omitx"`
	}](), tt[struct{ A, B [2][]uint8 }]()}

// a type that may be unsupported
func randAnyType(r *rand.Rand, depth int) reflect.Type {
	switch r.Intn(7) {
	case 0:
		return badTs[r.Intn(len(badTs))]
	case 6:
		return twins[r.Intn(len(twins))]
	case 1:
		n := 1 + r.Intn(4)
		var fs []reflect.StructField
		for i := 0; i < n; i++ {
			f := reflect.StructField{Name: "F" + string(rune('A'+i)), Type: randType(r, depth-1)}
			if r.Intn(4) == 0 {
				f.Type = badTs[r.Intn(len(badTs))]
			}
			if r.Intn(3) == 0 {
				f.Tag = randTag(r, true)
			}
			fs = append(fs, f)
		}
		return reflect.StructOf(fs)
	case 2:
		if r.Intn(2) == 0 {
			return reflect.ArrayOf(r.Intn(4), badTs[r.Intn(len(badTs))])
		}
		return reflect.PointerTo(badTs[r.Intn(len(badTs))])
	}
	return randType(r, depth)
}

// ---------------------------------------------------------------- values
type gen struct {
	r    *rand.Rand
	left int // budget of elements
	big  bool
	many int  // length of the next list
	wild bool // lengths beyond the limits
}

func (g *gen) length(limit uint64, w int) int {
	var n int
	if g.wild && g.r.Intn(2) == 0 && limit < 300 {
		limit += uint64(g.r.Intn(40))
	}
	if g.many > 0 {
		n = g.many
		g.many = 0
		if uint64(n) > limit {
			n = int(limit)
		}
		return n
	}
	switch g.r.Intn(10) {
	case 0:
		n = 0
	case 1:
		n = 1
	case 2, 3:
		if limit < 1<<31 {
			n = int(limit)
		} else {
			n = g.r.Intn(50)
		}
	case 4:
		if limit > 0 && limit < 1<<31 {
			n = int(limit) - 1
		}
	case 5:
		n = []int{31, 32, 33, 63, 64, 65, 96, 128, 255, 256, 257}[g.r.Intn(11)]
	default:
		n = g.r.Intn(10)
	}
	if g.big && g.r.Intn(3) == 0 {
		n = g.r.Intn(100000)
	}
	if uint64(n) > limit {
		n = int(limit)
	}
	if w < 1 {
		w = 1
	}
	if n*w > g.left {
		n = g.left / w
	}
	g.left -= n * w
	return n
}

func (g *gen) bytes(n int) []byte {
	b := make([]byte, n)
	switch g.r.Intn(6) {
	case 0:
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	default:
		g.r.Read(b)
	}
	return b
}

func (g *gen) val(t *Ty) *Val {
	switch t.K {
	case KBool:
		return &Val{U: uint64(g.r.Intn(2))}
	case KUint:
		u := g.r.Uint64()
		switch g.r.Intn(6) {
		case 0:
			u = 0
		case 1:
			u = ^uint64(0)
		case 2:
			u = uint64(1) << g.r.Intn(64)
		}
		return &Val{U: u & (^uint64(0) >> (64 - 8*t.W))}
	case KBytes:
		return &Val{B: g.bytes(g.length(t.N, 1))}
	case KBytesN:
		return &Val{B: g.bytes(int(t.N))}
	case KBitlist:
		n := 0
		switch g.r.Intn(5) {
		case 0:
			n = g.length(t.N, 1)
		case 1:
			n = g.length(t.N/8, 1) * 8
		case 2:
			n = g.length(t.N/256+1, 32) * 256
		default:
			n = g.length(t.N/8+1, 1)*8 + g.r.Intn(8)
		}
		if uint64(n) > t.N && !g.wild {
			n = int(t.N)
		}
		b := g.bytes(n/8 + 1)
		b[n/8] &= 1<<(n%8) - 1
		b[n/8] |= 1 << (n % 8)
		return &Val{B: b}
	case KBitvector:
		b := g.bytes(int(t.N+7) / 8)
		if t.N%8 != 0 {
			b[t.N/8] &= 1<<(t.N%8) - 1
		}
		return &Val{B: b}
	case KList:
		w := 4
		if t.Elem.fixed() {
			w = t.Elem.flen()
		}
		n := g.length(t.N, w)
		v := &Val{}
		for i := 0; i < n; i++ {
			v.Seq = append(v.Seq, g.val(t.Elem))
		}
		return v
	case KVector:
		v := &Val{}
		for i := uint64(0); i < t.N; i++ {
			v.Seq = append(v.Seq, g.val(t.Elem))
		}
		return v
	case KPtr:
		return &Val{Seq: []*Val{g.val(t.Elem)}}
	case KContainer:
		v := &Val{}
		for _, f := range t.Fields {
			v.Seq = append(v.Seq, g.val(f.Ty))
		}
		return v
	}
	panic("kind")
}

func garbage(r *rand.Rand, b []byte) { r.Read(b) }

// stores a value; slices get spare capacity with garbage behind their length; nil pointers and existing
// memory are replaced by fresh memory
func (g *gen) put(t *Ty, rv reflect.Value, v *Val) {
	switch t.K {
	case KBool:
		rv.SetBool(v.U == 1)
	case KUint:
		rv.SetUint(v.U)
	case KBytesN, KBitvector:
		for i, x := range v.B {
			rv.Index(i).SetUint(uint64(x))
		}
	case KBytes, KBitlist:
		s := g.mk(rv.Type(), len(v.B))
		for i, x := range v.B {
			s.Index(i).SetUint(uint64(x))
		}
		rv.Set(s)
	case KList:
		s := g.mk(rv.Type(), len(v.Seq))
		for i, x := range v.Seq {
			g.put(t.Elem, s.Index(i), x)
		}
		rv.Set(s)
	case KVector:
		for i, x := range v.Seq {
			g.put(t.Elem, rv.Index(i), x)
		}
	case KPtr:
		p := reflect.New(t.Elem.T)
		g.put(t.Elem, p.Elem(), v.Seq[0])
		if rv.Type() != p.Type() {
			p = p.Convert(rv.Type())
		}
		rv.Set(p)
	case KContainer:
		for i, f := range t.Fields {
			g.put(f.Ty, fieldAt(rv, f.Path), v.Seq[i])
		}
	}
}

// changes a small part of a value
func (g *gen) perturb(t *Ty, v *Val) *Val {
	n := len(v.Seq)
	if n == 0 || g.r.Intn(6) == 0 {
		if t.K == KBytes || t.K == KBitlist {
			b := append([]byte{}, v.B...)
			if len(b) > 1 {
				b[g.r.Intn(len(b)-1)] ^= 1 << g.r.Intn(8)
				return &Val{B: b}
			}
		}
		return g.val(t)
	}
	o := &Val{Seq: append([]*Val{}, v.Seq...)}
	i := g.r.Intn(n)
	e := t.Elem
	if t.K == KContainer {
		e = t.Fields[i].Ty
	}
	o.Seq[i] = g.perturb(e, v.Seq[i])
	return o
}

// stores a value into the memory that is there already where its length fits
func (g *gen) over(t *Ty, rv reflect.Value, v *Val) {
	switch t.K {
	case KBytes, KBitlist:
		if rv.Len() != len(v.B) {
			break
		}
		for i, x := range v.B {
			rv.Index(i).SetUint(uint64(x))
		}
		return
	case KList:
		if rv.Cap() < len(v.Seq) || len(v.Seq) > rv.Len() {
			break
		}
		rv.SetLen(len(v.Seq))
		for i, x := range v.Seq {
			g.over(t.Elem, rv.Index(i), x)
		}
		return
	case KVector:
		for i, x := range v.Seq {
			g.over(t.Elem, rv.Index(i), x)
		}
		return
	case KPtr:
		if rv.IsNil() {
			break
		}
		g.over(t.Elem, rv.Elem(), v.Seq[0])
		return
	case KContainer:
		for i, f := range t.Fields {
			g.over(f.Ty, fieldAt(rv, f.Path), v.Seq[i])
		}
		return
	}
	g.put(t, rv, v)
}

func (g *gen) mk(t reflect.Type, n int) reflect.Value {
	if n == 0 && g.r.Intn(2) == 0 {
		return reflect.Zero(t)
	}
	c := n
	if g.r.Intn(3) == 0 {
		c += 1 + g.r.Intn(40)
	}
	s := reflect.MakeSlice(t, c, c)
	if c > n && plain(t.Elem()) && t.Elem().Size() > 0 {
		b := unsafe.Slice((*byte)(s.UnsafePointer()), uintptr(c)*t.Elem().Size())
		garbage(g.r, b)
		if t.Elem().Kind() == reflect.Bool {
			for i := range b {
				b[i] &= 1
			}
		}
		if n > 0 {
			clear(b[:uintptr(n)*t.Elem().Size()])
		}
	}
	return s.Slice(0, n)
}

// no pointers inside
func plain(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Array:
		return plain(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !plain(t.Field(i).Type) {
				return false
			}
		}
		return true
	case reflect.Bool, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return true
	}
	return false
}

// ---------------------------------------------------------------- inputs
// positions and widths of interest in a serialization: offsets, bools, last bytes
func (g *gen) mutate(b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + g.r.Intn(2); n > 0; n-- {
		switch g.r.Intn(12) {
		case 0: // truncate
			if len(b) > 0 {
				b = b[:g.r.Intn(len(b))]
			}
		case 1: // truncate a little
			k := 1 + g.r.Intn(8)
			if len(b) >= k {
				b = b[:len(b)-k]
			}
		case 2: // extend
			x := make([]byte, 1+g.r.Intn(9))
			g.r.Read(x)
			if g.r.Intn(2) == 0 {
				clear(x)
			}
			b = append(b, x...)
		case 3, 4: // small change of a byte
			if len(b) > 0 {
				b[g.r.Intn(len(b))] += byte([]int{1, 255, 4, 252, 8, 2, 128}[g.r.Intn(7)])
			}
		case 5: // random byte
			if len(b) > 0 {
				b[g.r.Intn(len(b))] = byte(g.r.Intn(256))
			}
		case 6: // the last byte
			if len(b) > 0 {
				b[len(b)-1] = byte([]int{0, 1, 128, 255, 2}[g.r.Intn(5)])
			}
		case 7, 8: // a word that looks like an offset
			if len(b) >= 4 {
				p := g.r.Intn(len(b) - 3)
				var cand []int
				for q := 0; q+3 < len(b) && q < 4096; q++ {
					if b[q+3] == 0 && b[q+2] == 0 {
						cand = append(cand, q)
					}
				}
				if len(cand) > 0 {
					p = cand[g.r.Intn(len(cand))]
				}
				x := uint32(b[p]) | uint32(b[p+1])<<8 | uint32(b[p+2])<<16 | uint32(b[p+3])<<24
				switch g.r.Intn(8) {
				case 0:
					x = uint32(len(b))
				case 1:
					x = uint32(len(b)) + 1
				case 2:
					x = 0
				case 3:
					x = g.r.Uint32()
				case 4:
					x = 0xffffffff
				default:
					x += uint32([]int{1, -1, 4, -4, 8, 2, -2, 256}[g.r.Intn(8)])
				}
				b[p], b[p+1], b[p+2], b[p+3] = byte(x), byte(x>>8), byte(x>>16), byte(x>>24)
			}
		case 9: // duplicate or delete a chunk
			if len(b) > 1 {
				i, j := g.r.Intn(len(b)), g.r.Intn(len(b))
				if i > j {
					i, j = j, i
				}
				if j-i > 64 {
					j = i + 64
				}
				if g.r.Intn(2) == 0 {
					b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
				} else {
					b = append(append([]byte{}, b[:i]...), b[j:]...)
				}
			}
		case 10: // a bit
			if len(b) > 0 {
				b[g.r.Intn(len(b))] ^= 1 << g.r.Intn(8)
			}
		case 11: // swap two words
			if len(b) >= 8 {
				i, j := g.r.Intn(len(b)/4)*4, g.r.Intn(len(b)/4)*4
				for q := 0; q < 4; q++ {
					b[i+q], b[j+q] = b[j+q], b[i+q]
				}
			}
		}
	}
	return b
}
