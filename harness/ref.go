// Reference definition of SSZ for Go types, written from the SSZ specification and the README, sharing no
// code with the library: type descriptions, values, serialization, strict parsing, size bounds, Merkle roots.
package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"
	"unsafe"
)

type Kind int

const (
	KBool Kind = iota
	KUint
	KBytes
	KBytesN
	KBitlist
	KBitvector
	KList
	KVector
	KPtr
	KContainer
)

type Field struct {
	Name string
	Path []int
	Ty   *Ty
}

type Ty struct {
	K      Kind
	T      reflect.Type
	W      int    // width of an unsigned integer
	N      uint64 // length or limit
	Elem   *Ty
	Fields []Field
}

type limiter interface{ Limit() uint64 }
type bitlener interface{ BitLen() uint64 }

var limT = reflect.TypeOf((*limiter)(nil)).Elem()
var blT = reflect.TypeOf((*bitlener)(nil)).Elem()

func describe(t reflect.Type) (*Ty, error) {
	pt := reflect.PointerTo(t)
	switch t.Kind() {
	case reflect.Bool:
		return &Ty{K: KBool, T: t}, nil
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return &Ty{K: KUint, T: t, W: int(t.Size())}, nil
	case reflect.Ptr:
		e, err := describe(t.Elem())
		if err != nil {
			return nil, err
		}
		return &Ty{K: KPtr, T: t, Elem: e}, nil
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			if pt.Implements(blT) {
				n := reflect.Zero(pt).Interface().(bitlener).BitLen()
				if ceilDiv(n, 8) != uint64(t.Len()) {
					return nil, errors.New("bitvector length mismatch")
				}
				return &Ty{K: KBitvector, T: t, N: n}, nil
			}
			return &Ty{K: KBytesN, T: t, N: uint64(t.Len())}, nil
		}
		e, err := describe(t.Elem())
		if err != nil {
			return nil, err
		}
		return &Ty{K: KVector, T: t, N: uint64(t.Len()), Elem: e}, nil
	case reflect.Slice:
		if !pt.Implements(limT) {
			return nil, errors.New("list without limit")
		}
		n := reflect.Zero(pt).Interface().(limiter).Limit()
		if t.Elem().Kind() == reflect.Uint8 {
			if pt.Implements(blT) {
				return &Ty{K: KBitlist, T: t, N: n}, nil
			}
			return &Ty{K: KBytes, T: t, N: n}, nil
		}
		e, err := describe(t.Elem())
		if err != nil {
			return nil, err
		}
		return &Ty{K: KList, T: t, N: n, Elem: e}, nil
	case reflect.Struct:
		c := &Ty{K: KContainer, T: t}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			omit, squash := false, false
			for _, x := range strings.Split(f.Tag.Get("ssz"), ",") {
				omit = omit || x == "omit"
				squash = squash || x == "squash"
			}
			if omit {
				continue
			}
			e, err := describe(f.Type)
			if err != nil {
				return nil, err
			}
			if (f.Anonymous || squash) && e.K == KContainer {
				for _, g := range e.Fields {
					c.Fields = append(c.Fields, Field{Name: g.Name, Path: append([]int{i}, g.Path...), Ty: g.Ty})
				}
				continue
			}
			if squash {
				return nil, errors.New("cannot squash")
			}
			c.Fields = append(c.Fields, Field{Name: f.Name, Path: []int{i}, Ty: e})
		}
		return c, nil
	}
	return nil, errors.New("unsupported type")
}

func (t *Ty) fixed() bool {
	switch t.K {
	case KBytes, KBitlist, KList:
		return false
	case KVector, KPtr:
		return t.Elem.fixed()
	case KContainer:
		for _, f := range t.Fields {
			if !f.Ty.fixed() {
				return false
			}
		}
	}
	return true
}

// rounded up
func ceilDiv(x, y uint64) uint64 {
	q := x / y
	if x%y != 0 {
		q++
	}
	return q
}

func bi(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

// bounds of the serialized size over all valid values
func (t *Ty) bounds() (lo, hi *big.Int) {
	switch t.K {
	case KBool:
		return bi(1), bi(1)
	case KUint:
		return bi(uint64(t.W)), bi(uint64(t.W))
	case KBytes:
		return bi(0), bi(t.N)
	case KBytesN:
		return bi(t.N), bi(t.N)
	case KBitlist:
		return bi(1), bi(t.N/8 + 1)
	case KBitvector:
		return bi(ceilDiv(t.N, 8)), bi(ceilDiv(t.N, 8))
	case KPtr:
		return t.Elem.bounds()
	case KList, KVector:
		l, h := t.Elem.bounds()
		if !t.Elem.fixed() {
			l, h = new(big.Int).Add(l, bi(4)), new(big.Int).Add(h, bi(4))
		}
		lo, hi = new(big.Int).Mul(l, bi(t.N)), new(big.Int).Mul(h, bi(t.N))
		if t.K == KList {
			lo = bi(0)
		}
		return
	case KContainer:
		lo, hi = bi(0), bi(0)
		for _, f := range t.Fields {
			l, h := f.Ty.bounds()
			if !f.Ty.fixed() {
				lo.Add(lo, bi(4))
				hi.Add(hi, bi(4))
			}
			lo.Add(lo, l)
			hi.Add(hi, h)
		}
		return
	}
	panic("kind")
}

func (t *Ty) flen() int { l, _ := t.bounds(); return int(l.Int64()) }

// zero-size or astronomically sized element types are outside what the properties cover
func (t *Ty) sane() bool {
	lim := new(big.Int).Lsh(bi(1), 61)
	ok := true
	t.walk(func(x *Ty) {
		l, _ := x.bounds()
		if l.Cmp(lim) >= 0 || x.K == KVector && x.N >= 1<<61 {
			ok = false
		}
		if x.K == KList && x.Elem.fixed() && x.Elem.flen() == 0 {
			ok = false
		}
	})
	return ok
}

func (t *Ty) walk(f func(*Ty)) {
	f(t)
	if t.Elem != nil {
		t.Elem.walk(f)
	}
	for _, g := range t.Fields {
		g.Ty.walk(f)
	}
}

// ---------------------------------------------------------------- values
type Val struct {
	U   uint64
	B   []byte // byte strings; raw bytes of bitfields
	Seq []*Val
}

func (t *Ty) eq(a, b *Val) bool {
	switch t.K {
	case KBool, KUint:
		return a.U == b.U
	case KBytes, KBytesN, KBitlist, KBitvector:
		return bytes.Equal(a.B, b.B)
	case KPtr:
		return t.Elem.eq(a.Seq[0], b.Seq[0])
	}
	if len(a.Seq) != len(b.Seq) {
		return false
	}
	for i := range a.Seq {
		e := t.Elem
		if t.K == KContainer {
			e = t.Fields[i].Ty
		}
		if !e.eq(a.Seq[i], b.Seq[i]) {
			return false
		}
	}
	return true
}

func (t *Ty) valid(v *Val) error {
	switch t.K {
	case KBool:
		if v.U > 1 {
			return fmt.Errorf("bool %d", v.U)
		}
	case KBytes:
		if uint64(len(v.B)) > t.N {
			return fmt.Errorf("%d bytes, limit %d", len(v.B), t.N)
		}
	case KBitlist:
		if len(v.B) == 0 || v.B[len(v.B)-1] == 0 {
			return errors.New("bitlist without delimiter")
		}
		n := bitlen(v.B)
		if n > t.N {
			return fmt.Errorf("%d bits, limit %d", n, t.N)
		}
	case KBitvector:
		if uint64(len(v.B)) != ceilDiv(t.N, 8) {
			return errors.New("bitvector length")
		}
		for i := t.N; i < uint64(len(v.B))*8; i++ {
			if v.B[i/8]>>(i%8)&1 != 0 {
				return errors.New("bitvector padding")
			}
		}
	case KList, KVector:
		if t.K == KList && uint64(len(v.Seq)) > t.N {
			return fmt.Errorf("%d elements, limit %d", len(v.Seq), t.N)
		}
		for _, x := range v.Seq {
			if err := t.Elem.valid(x); err != nil {
				return err
			}
		}
	case KPtr:
		return t.Elem.valid(v.Seq[0])
	case KContainer:
		for i, f := range t.Fields {
			if err := f.Ty.valid(v.Seq[i]); err != nil {
				return fmt.Errorf("%s: %v", f.Name, err)
			}
		}
	}
	return nil
}

// number of bits before the delimiter
func bitlen(b []byte) uint64 {
	for i := uint64(len(b))*8 - 1; ; i-- {
		if b[i/8]>>(i%8)&1 != 0 {
			return i
		}
	}
}

// field of a struct, also if unexported
func fieldAt(rv reflect.Value, path []int) reflect.Value {
	for _, i := range path {
		rv = rv.Field(i)
		rv = reflect.NewAt(rv.Type(), unsafe.Pointer(rv.UnsafeAddr())).Elem()
	}
	return rv
}

func (t *Ty) get(rv reflect.Value) *Val {
	switch t.K {
	case KBool:
		return &Val{U: uint64(*(*byte)(unsafe.Pointer(rv.UnsafeAddr())))}
	case KUint:
		return &Val{U: rv.Uint()}
	case KBytes, KBitlist, KBytesN, KBitvector:
		b := make([]byte, rv.Len())
		for i := range b {
			b[i] = byte(rv.Index(i).Uint())
		}
		return &Val{B: b}
	case KList, KVector:
		v := &Val{}
		for i := 0; i < rv.Len(); i++ {
			v.Seq = append(v.Seq, t.Elem.get(rv.Index(i)))
		}
		return v
	case KPtr:
		return &Val{Seq: []*Val{t.Elem.get(rv.Elem())}}
	case KContainer:
		v := &Val{}
		for _, f := range t.Fields {
			v.Seq = append(v.Seq, f.Ty.get(fieldAt(rv, f.Path)))
		}
		return v
	}
	panic("kind")
}

// ---------------------------------------------------------------- serialization
func (t *Ty) parts(v *Val) (ts []*Ty, vs []*Val) {
	for i, x := range v.Seq {
		e := t.Elem
		if t.K == KContainer {
			e = t.Fields[i].Ty
		}
		ts, vs = append(ts, e), append(vs, x)
	}
	return
}

// when set, offsets and parts are bent: the result is nearly a serialization
var bendHook *rand.Rand

func (t *Ty) encBent(r *rand.Rand, v *Val) []byte {
	bendHook = r
	defer func() { bendHook = nil }()
	return t.enc(v)
}

func (t *Ty) enc(v *Val) []byte {
	switch t.K {
	case KBool, KUint:
		w := 1
		if t.K == KUint {
			w = t.W
		}
		b := make([]byte, 8)
		binary.LittleEndian.PutUint64(b, v.U)
		if t.K == KBool && bendHook != nil && bendHook.Intn(10) == 0 { // neither 0 nor 1
			b[0] = byte(2 + bendHook.Intn(254))
		}
		return b[:w]
	case KBytes, KBytesN, KBitlist, KBitvector:
		b := append([]byte{}, v.B...)
		if n := len(b); (t.K == KBitlist || t.K == KBitvector) && n > 0 && bendHook != nil && bendHook.Intn(4) == 0 { // bits beyond the end
			switch bendHook.Intn(4) {
			case 0:
				b[n-1] = 0
			case 1:
				b[n-1] |= 0x80
			case 2:
				b[n-1] |= 1 << uint(bendHook.Intn(8))
			case 3:
				b = append(b, 1)
			}
		}
		return b
	case KPtr:
		return t.Elem.enc(v.Seq[0])
	}
	ts, vs := t.parts(v)
	var head, tail []byte
	bend := bendHook != nil && len(ts) > 0 && bendHook.Intn(4) == 0
	bk := 0
	if bend {
		bk = 1 + bendHook.Intn(3)
	}
	n := 0
	encs := make([][]byte, len(ts))
	for i := range ts {
		encs[i] = ts[i].enc(vs[i])
		if ts[i].fixed() {
			n += len(encs[i])
		} else {
			n += 4
		}
	}
	for i := range ts {
		if ts[i].fixed() {
			head = append(head, encs[i]...)
		} else {
			o := uint32(n + len(tail))
			if bend && bendHook.Intn(2) == 0 { // an offset that is a little off
				o += uint32([]int{1, -1, bk, -bk, -bk, -bk, 4, -4}[bendHook.Intn(8)])
			}
			head = binary.LittleEndian.AppendUint32(head, o)
			tail = append(tail, encs[i]...)
			if bend { // a gap, or a part cut short
				switch bendHook.Intn(6) {
				case 0, 1:
					tail = append(tail, make([]byte, bk)...)
				case 2:
					if len(encs[i]) >= bk {
						tail = tail[:len(tail)-bk]
					}
				}
			}
		}
	}
	return append(head, tail...)
}

var errRef = errors.New("not a serialization")

// strict parsing: the exact inverse of enc on valid values
func (t *Ty) dec(b []byte) (*Val, error) {
	v, err := t.parse(b)
	if err != nil {
		return nil, err
	}
	return v, nil
}

func (t *Ty) parse(b []byte) (*Val, error) {
	switch t.K {
	case KBool:
		if len(b) != 1 || b[0] > 1 {
			return nil, errRef
		}
		return &Val{U: uint64(b[0])}, nil
	case KUint:
		if len(b) != t.W {
			return nil, errRef
		}
		x := make([]byte, 8)
		copy(x, b)
		return &Val{U: binary.LittleEndian.Uint64(x)}, nil
	case KBytes, KBitlist, KBytesN, KBitvector:
		v := &Val{B: append([]byte{}, b...)}
		if t.K == KBytesN && uint64(len(b)) != t.N || t.valid(v) != nil {
			return nil, errRef
		}
		return v, nil
	case KPtr:
		e, err := t.Elem.parse(b)
		return &Val{Seq: []*Val{e}}, err
	}
	var ts []*Ty
	switch t.K {
	case KContainer:
		for _, f := range t.Fields {
			ts = append(ts, f.Ty)
		}
	case KVector:
		for i := uint64(0); i < t.N; i++ {
			ts = append(ts, t.Elem)
		}
	case KList:
		n := 0
		if t.Elem.fixed() {
			w := t.Elem.flen()
			if w == 0 {
				return nil, errRef
			}
			if len(b)%w != 0 {
				return nil, errRef
			}
			n = len(b) / w
		} else if len(b) > 0 {
			if len(b) < 4 {
				return nil, errRef
			}
			o := binary.LittleEndian.Uint32(b)
			if o%4 != 0 || o == 0 || uint64(o) > uint64(len(b)) {
				return nil, errRef
			}
			n = int(o / 4)
		}
		if uint64(n) > t.N {
			return nil, errRef
		}
		for i := 0; i < n; i++ {
			ts = append(ts, t.Elem)
		}
	}
	head := 0
	for _, x := range ts {
		if x.fixed() {
			head += x.flen()
		} else {
			head += 4
		}
	}
	if len(b) < head {
		return nil, errRef
	}
	v := &Val{Seq: make([]*Val, len(ts))}
	p := 0
	var offs []int
	var vi []int
	for i, x := range ts {
		if x.fixed() {
			e, err := x.parse(b[p : p+x.flen()])
			if err != nil {
				return nil, err
			}
			v.Seq[i] = e
			p += x.flen()
		} else {
			offs = append(offs, int(binary.LittleEndian.Uint32(b[p:])))
			vi = append(vi, i)
			p += 4
		}
	}
	if len(offs) == 0 {
		if len(b) != head {
			return nil, errRef
		}
		return v, nil
	}
	if offs[0] != head {
		return nil, errRef
	}
	for k, i := range vi {
		end := len(b)
		if k+1 < len(offs) {
			end = offs[k+1]
		}
		if offs[k] > end || end > len(b) {
			return nil, errRef
		}
		e, err := ts[i].parse(b[offs[k]:end])
		if err != nil {
			return nil, err
		}
		v.Seq[i] = e
	}
	return v, nil
}

// ---------------------------------------------------------------- Merkle roots
type hashFn func([]byte) [32]byte

func comb(h hashFn, a, b [32]byte) [32]byte { return h(append(append([]byte{}, a[:]...), b[:]...)) }

func zeros(h hashFn) [66][32]byte { return zerosTo(h, 65) }

// the zero hashes up to height d
func zerosTo(h hashFn, d int) [66][32]byte {
	var z [66][32]byte
	for i := 0; i < d; i++ {
		z[i+1] = comb(h, z[i], z[i])
	}
	return z
}

func treeDepth(limit uint64) int {
	d := 0
	for d < 64 && uint64(1)<<d < limit {
		d++
	}
	return d
}

func subtree(h hashFn, z *[66][32]byte, leaves [][32]byte, d int) [32]byte {
	if len(leaves) == 0 {
		return z[d]
	}
	if d == 0 {
		return leaves[0]
	}
	m := uint64(len(leaves))
	if d-1 < 63 && uint64(1)<<(d-1) < m {
		m = uint64(1) << (d - 1)
	}
	return comb(h, subtree(h, z, leaves[:m], d-1), subtree(h, z, leaves[m:], d-1))
}

func refMerkle(h hashFn, leaves [][32]byte, limit uint64) [32]byte {
	if limit == 0 {
		return [32]byte{}
	}
	d := treeDepth(limit)
	var z [66][32]byte
	if d > 63 || uint64(len(leaves)) != uint64(1)<<d {
		z = zerosTo(h, d)
	}
	return subtree(h, &z, leaves, d)
}

func chunks(b []byte) (out [][32]byte) {
	for i := 0; i < len(b); i += 32 {
		var c [32]byte
		copy(c[:], b[i:])
		out = append(out, c)
	}
	return
}

func mixLen(h hashFn, r [32]byte, n uint64) [32]byte {
	var l [32]byte
	binary.LittleEndian.PutUint64(l[:], n)
	return comb(h, r, l)
}

func (t *Ty) root(h hashFn, v *Val) [32]byte {
	switch t.K {
	case KBool, KUint:
		var c [32]byte
		copy(c[:], t.enc(v))
		return c
	case KBytesN, KBitvector:
		return refMerkle(h, chunks(v.B), (uint64(len(v.B))+31)/32)
	case KBytes:
		return mixLen(h, refMerkle(h, chunks(v.B), ceilDiv(t.N, 32)), uint64(len(v.B)))
	case KBitlist:
		n := bitlen(v.B)
		b := make([]byte, (n+7)/8)
		for i := uint64(0); i < n; i++ {
			b[i/8] |= v.B[i/8] >> (i % 8) & 1 << (i % 8)
		}
		return mixLen(h, refMerkle(h, chunks(b), ceilDiv(t.N, 256)), n)
	case KPtr:
		return t.Elem.root(h, v.Seq[0])
	case KList, KVector:
		var r [32]byte
		if t.Elem.K == KBool || t.Elem.K == KUint {
			r = refMerkle(h, chunks(t.enc(v)), ceilDiv(t.N, 32/uint64(t.Elem.flen())))
		} else {
			var ls [][32]byte
			for _, x := range v.Seq {
				ls = append(ls, t.Elem.root(h, x))
			}
			r = refMerkle(h, ls, t.N)
		}
		if t.K == KList {
			return mixLen(h, r, uint64(len(v.Seq)))
		}
		return r
	case KContainer:
		return t.rootFields(h, v, len(t.Fields))
	}
	panic("kind")
}

func (t *Ty) rootFields(h hashFn, v *Val, n int) [32]byte {
	var ls [][32]byte
	for i, f := range t.Fields[:n] {
		ls = append(ls, f.Ty.root(h, v.Seq[i]))
	}
	return refMerkle(h, ls, uint64(n))
}
