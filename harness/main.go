// Bounded concrete checks of the properties against the reference definition, on random types, values,
// inputs, readers and writers. They replay what the verifier cannot: a violation found here is a concrete
// failing input on the real code.
package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/bits"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/bitfields"
	"github.com/protolambda/zssz/dec"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/merkle"
	"github.com/protolambda/zssz/types"
	"github.com/protolambda/zssz/util/endianness"
)

type Trial struct {
	r     *rand.Rand
	g     *gen
	t     *Ty
	ssz   types.SSZ
	input []byte
	note  []string
	once  bool // costly: no repetitions
}

func (tr *Trial) say(f string, a ...interface{}) { tr.note = append(tr.note, fmt.Sprintf(f, a...)) }

type bad struct{ msg string }

func (tr *Trial) fail(f string, a ...interface{}) { panic(bad{fmt.Sprintf(f, a...)}) }

// runs f; a panic becomes an error text
func try(f func()) (p string) {
	defer func() {
		if x := recover(); x != nil {
			if b, ok := x.(bad); ok {
				panic(b)
			}
			p = fmt.Sprint("panic: ", x)
			if p == "panic: " {
				p = "panic"
			}
		}
	}()
	f()
	return ""
}

func (tr *Trial) must(what string, f func()) {
	if p := try(f); p != "" {
		tr.fail("%s: %s", what, p)
	}
}

func (tr *Trial) newVal(v *Val) reflect.Value {
	p := reflect.New(tr.t.T)
	if v != nil {
		tr.g.put(tr.t, p.Elem(), v)
	}
	return p
}

// a destination with arbitrary previous contents
func (tr *Trial) dest() reflect.Value {
	if tr.r.Intn(2) == 0 {
		return tr.newVal(nil)
	}
	g2 := &gen{r: tr.r, left: 400}
	p := reflect.New(tr.t.T)
	if tr.r.Intn(3) == 0 && plain(tr.t.T) && tr.t.T.Size() > 0 {
		garbage(tr.r, unsafe.Slice((*byte)(p.UnsafePointer()), tr.t.T.Size()))
		return p
	}
	g2.put(tr.t, p.Elem(), g2.val(tr.t))
	return p
}

func short(b []byte) string {
	if len(b) > 200 {
		return hex.EncodeToString(b[:200]) + fmt.Sprintf("...(%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

// ---------------------------------------------------------------- readers and writers
var errBoom = errors.New("boom")

type rd struct {
	data []byte
	pos  int
	r    *rand.Rand
	mode int
	end  error
	over int // bytes asked for beyond what may be read
}

func (x *rd) Read(p []byte) (int, error) {
	if x.pos >= len(x.data) {
		return 0, x.end
	}
	n := len(p)
	switch x.mode {
	case 1:
		n = 1
	case 2, 4:
		n = x.r.Intn(4)
		if x.r.Intn(3) == 0 {
			n = x.r.Intn(len(p) + 1)
		}
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p[:n], x.data[x.pos:])
	if n > len(x.data)-x.pos {
		n = len(x.data) - x.pos
	}
	x.pos += n
	if x.mode >= 3 && x.pos >= len(x.data) {
		return n, x.end
	}
	return n, nil
}

type wr struct {
	buf     bytes.Buffer
	left    int // bytes accepted before failing, -1: never fails
	full    bool
	failed  bool
	after   int
	calls   int
	maxCall int
	lax     bool // accepts a part without an error
	err     error
}

func (w *wr) e() error {
	if w.err == nil {
		return errBoom
	}
	return w.err
}

func (w *wr) Write(p []byte) (int, error) {
	if w.failed {
		w.after++
		return 0, w.e()
	}
	w.calls++
	if w.left >= 0 && len(p) > w.left || w.maxCall > 0 && w.calls == w.maxCall {
		n := w.left
		if n < 0 || n > len(p) {
			n = len(p)
		}
		if w.maxCall > 0 && !w.full {
			n = n / 2
		}
		if w.full {
			n = len(p)
		}
		w.buf.Write(p[:n])
		w.failed = true
		return n, w.e()
	}
	if w.left >= 0 {
		w.left -= len(p)
	}
	if w.lax && w.calls%3 == 0 {
		p = p[:len(p)/2]
	}
	w.buf.Write(p)
	return len(p), nil
}

// ---------------------------------------------------------------- helpers on the library
func (tr *Trial) encode(p reflect.Value) ([]byte, error) {
	var buf bytes.Buffer
	var err error
	tr.must("Encode", func() { _, err = zssz.Encode(&buf, p.Interface(), tr.ssz) })
	return buf.Bytes(), err
}

func (tr *Trial) decode(b []byte, p reflect.Value) error {
	var err error
	tr.must("Decode", func() { err = zssz.Decode(bytes.NewReader(b), uint64(len(b)), p.Interface(), tr.ssz) })
	return err
}

func (tr *Trial) value() *Val {
	v := tr.g.val(tr.t)
	return v
}

// an input: valid, mutated, or random
func (tr *Trial) someInput() []byte {
	switch tr.r.Intn(12) {
	case 0, 1:
		return tr.t.enc(tr.value())
	case 2:
		n := tr.r.Intn(40)
		if lo, _ := tr.t.bounds(); tr.r.Intn(2) == 0 && lo.Int64() < 5000 {
			n = int(lo.Int64()) + tr.r.Intn(3)
		}
		return tr.g.bytes(n)
	case 3: // a value beyond the limits
		tr.g.wild = true
		v := tr.value()
		tr.g.wild = false
		return tr.t.enc(v)
	}
	if tr.r.Intn(3) == 0 {
		return tr.t.encBent(tr.r, tr.value())
	}
	return tr.g.mutate(tr.t.enc(tr.value()))
}

func (tr *Trial) disturb() {
	if tr.r.Intn(60) == 0 {
		runtime.GC()
		for i := 0; i < 2000; i++ {
			sink = make([]byte, 8+i%256)
			for j := range sink {
				sink[j] = 0xA5
			}
		}
	}
}

var sink []byte

func withLE(le bool, f func()) {
	old := endianness.IsLittleEndian
	endianness.IsLittleEndian = le
	defer func() { endianness.IsLittleEndian = old }()
	f()
}

func fnvHash(b []byte) (o [32]byte) {
	for i := 0; i < 4; i++ {
		h := fnv.New64a()
		h.Write([]byte{byte(i)})
		h.Write(b)
		s := h.Sum64()
		for j := 0; j < 8; j++ {
			o[i*8+j] = byte(s >> (8 * j))
		}
	}
	return
}

func xorHash(b []byte) (o [32]byte) { // order sensitive and not collision free, non-zero on zeros
	for i := range b {
		o[i%32] = o[i%32]*3 + b[i] + byte(i>>5) + 7
	}
	return
}

var hashes = []hashFn{sha256.Sum256, fnvHash, xorHash}

func (tr *Trial) withHash(f func(h hashFn)) {
	h := hashes[tr.r.Intn(3)]
	if tr.r.Intn(3) == 0 {
		// the zero hashes are initialised with several functions, one after the other, that agree in places
		if tr.r.Intn(4) != 0 {
			htr.InitZeroHashes(htr.HashFn(h))
		}
		for k := 1 + tr.r.Intn(3); k > 0; k-- {
			h = tr.relative(h)
			htr.InitZeroHashes(htr.HashFn(h))
		}
	} else {
		htr.InitZeroHashes(htr.HashFn(h))
	}
	defer htr.InitZeroHashes(sha256.Sum256)
	f(h)
}

// a hash function that differs from h on some inputs only
func (tr *Trial) relative(h hashFn) hashFn {
	mask := byte(1 + tr.r.Intn(255))
	switch k := tr.r.Intn(5); k {
	case 0: // other results, except for zeros
		tr.say("a hash function that agrees with the previous one on zeros only")
		return func(b []byte) [32]byte {
			o := h(b)
			if len(bytes.Trim(b, "\x00")) > 0 {
				o[31] ^= mask
			}
			return o
		}
	case 1: // another result for two equal zero subtrees of one height
		z := zeros(h)
		i := tr.r.Intn(64)
		in := append(append([]byte{}, z[i][:]...), z[i][:]...)
		tr.say("a hash function that differs from the previous one on two zero subtrees of height %d only", i)
		return func(b []byte) [32]byte {
			o := h(b)
			if bytes.Equal(b, in) {
				o[0] ^= mask
			}
			return o
		}
	case 2: // the same zero hashes
		z := zeros(h)
		tr.say("a hash function with the zero hashes of the previous one")
		return func(b []byte) [32]byte {
			o := h(b)
			for i := 0; i < 64; i++ {
				if len(b) == 64 && bytes.Equal(b[:32], z[i][:]) && bytes.Equal(b[32:], z[i][:]) {
					return o
				}
			}
			o[7] ^= mask
			return o
		}
	case 3: // a constant, possibly zero
		var c [32]byte
		if tr.r.Intn(2) == 0 {
			c[5] = mask
		}
		tr.say("a constant hash function")
		return func(b []byte) [32]byte { return c }
	}
	return hashes[tr.r.Intn(3)]
}

// memory reachable from a value, including spare capacity, padding and omitted fields
func raw(rv reflect.Value, out *bytes.Buffer) {
	t := rv.Type()
	if t.Size() > 0 {
		out.Write(unsafe.Slice((*byte)(unsafe.Pointer(rv.UnsafeAddr())), t.Size()))
	}
	rawIn(rv, out)
}

func rawIn(rv reflect.Value, out *bytes.Buffer) {
	switch rv.Kind() {
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			rawIn(fieldAt(rv, []int{i}), out)
		}
	case reflect.Array:
		if plain(rv.Type()) {
			return
		}
		for i := 0; i < rv.Len(); i++ {
			rawIn(rv.Index(i), out)
		}
	case reflect.Ptr:
		if !rv.IsNil() {
			raw(rv.Elem(), out)
		}
	case reflect.Slice:
		if rv.Cap() == 0 {
			return
		}
		e := rv.Type().Elem()
		if n := uintptr(rv.Cap()) * e.Size(); n > 0 {
			out.Write(unsafe.Slice((*byte)(rv.UnsafePointer()), n))
		}
		if !plain(e) {
			for i := 0; i < rv.Len(); i++ {
				rawIn(rv.Index(i), out)
			}
		}
	}
}

// everything reachable from a type structure
func dump(rv reflect.Value, out *strings.Builder, seen map[unsafe.Pointer]bool) {
	switch rv.Kind() {
	case reflect.Interface:
		if rv.IsNil() {
			out.WriteString("nil;")
			return
		}
		fmt.Fprintf(out, "%s:", rv.Elem().Type())
		dump(rv.Elem(), out, seen)
	case reflect.Ptr:
		if rv.IsNil() {
			out.WriteString("nil;")
			return
		}
		fmt.Fprintf(out, "%x>", rv.Pointer())
		if seen[rv.UnsafePointer()] || strings.HasPrefix(rv.Type().String(), "*reflect") || strings.HasPrefix(rv.Type().String(), "*abi") {
			return
		}
		seen[rv.UnsafePointer()] = true
		dump(rv.Elem(), out, seen)
	case reflect.Struct:
		for i := 0; i < rv.NumField(); i++ {
			fmt.Fprintf(out, "%s=", rv.Type().Field(i).Name)
			dump(rv.Field(i), out, seen)
		}
	case reflect.Slice:
		fmt.Fprintf(out, "[%x %d %d]", rv.Pointer(), rv.Len(), rv.Cap())
		for i := 0; i < rv.Len(); i++ {
			dump(rv.Index(i), out, seen)
		}
	case reflect.Array:
		for i := 0; i < rv.Len(); i++ {
			dump(rv.Index(i), out, seen)
		}
	case reflect.Func:
		// the closure object: code pointer and captured words are not modifiable through it from outside
		fmt.Fprintf(out, "f%x;", rv.Pointer())
	case reflect.String:
		fmt.Fprintf(out, "%q;", rv.String())
	case reflect.Map:
		fmt.Fprintf(out, "map%d;", rv.Len())
	default:
		switch {
		case rv.CanUint():
			fmt.Fprintf(out, "%d;", rv.Uint())
		case rv.CanInt():
			fmt.Fprintf(out, "%d;", rv.Int())
		case rv.Kind() == reflect.Bool:
			fmt.Fprintf(out, "%v;", rv.Bool())
		default:
			fmt.Fprintf(out, "?%s;", rv.Kind())
		}
	}
}

func dumpSSZ(s types.SSZ) string {
	var sb strings.Builder
	dump(reflect.ValueOf(&s).Elem(), &sb, map[unsafe.Pointer]bool{})
	return sb.String()
}

// ---------------------------------------------------------------- the checks
func c01(tr *Trial) {
	v := tr.value()
	want := tr.t.enc(v)
	tr.input = want
	p := tr.newVal(v)
	for _, le := range []bool{true, false} {
		withLE(le, func() {
			got, err := tr.encode(p)
			if err != nil {
				tr.fail("Encode of a valid value: %v", err)
			}
			if !bytes.Equal(got, want) {
				tr.fail("Encode (little-endian=%v) wrote %s, serialization is %s", le, short(got), short(want))
			}
		})
	}
	tr.disturb()
	tr.again(p, v, func(v *Val) {
		got, err := tr.encode(p)
		if want := tr.t.enc(v); err != nil || !bytes.Equal(got, want) {
			tr.fail("Encode of a value changed in place: %v, wrote %s, serialization is %s", err, short(got), short(want))
		}
	})
}

// the value in p is changed in place
func (tr *Trial) again(p reflect.Value, v *Val, f func(v *Val)) {
	for k := 0; k < 2 && tr.r.Intn(3) == 0 && !tr.once; k++ {
		v = tr.g.perturb(tr.t, v)
		tr.g.over(tr.t, p.Elem(), v)
		f(v)
	}
}

func c02(tr *Trial) {
	v := tr.value()
	b := tr.t.enc(v)
	tr.input = b
	d := tr.dest()
	le := tr.r.Intn(4) != 0
	withLE(le, func() {
		if err := tr.decode(b, d); err != nil {
			tr.fail("Decode of a valid serialization: %v", err)
		}
	})
	tr.disturb()
	if !tr.t.eq(tr.t.get(d.Elem()), v) {
		tr.fail("decoded value differs (little-endian=%v): re-encoded %s", le, short(tr.t.enc(tr.t.get(d.Elem()))))
	}
	// what lies behind the end of a slice is its own
	if tr.r.Intn(2) == 0 {
		slices(tr.t, d.Elem(), func(t *Ty, s reflect.Value) {
			if c, n := s.Cap(), s.Len(); c > n && plain(s.Type().Elem()) && s.Type().Elem().Size() > 0 && s.Type().Elem().Kind() != reflect.Bool {
				z := s.Type().Elem().Size()
				x := unsafe.Slice((*byte)(unsafe.Add(s.UnsafePointer(), uintptr(n)*z)), uintptr(c-n)*z)
				for i := range x {
					x[i] = 1
				}
			}
		})
		if !tr.t.eq(tr.t.get(d.Elem()), v) {
			tr.fail("decoded slices share memory")
		}
	}
	// used again
	v2 := tr.value()
	if tr.once {
		v2 = tr.g.perturb(tr.t, v)
	}
	if err := tr.decode(tr.t.enc(v2), d); err != nil || !tr.t.eq(tr.t.get(d.Elem()), v2) {
		tr.fail("second decode into the same destination (%s): err %v", short(tr.t.enc(v2)), err)
	}
}

func c03(tr *Trial) {
	b := tr.someInput()
	tr.input = b
	d := tr.dest()
	if tr.decode(b, d) != nil {
		return
	}
	v := tr.t.get(d.Elem())
	if err := tr.t.valid(v); err != nil {
		tr.fail("Decode accepted an input whose value is invalid: %v", err)
	}
	if e := tr.t.enc(v); !bytes.Equal(e, b) {
		tr.fail("Decode accepted an input that is not canonical: value serializes to %s", short(e))
	}
	if _, err := tr.t.dec(b); err != nil {
		tr.fail("Decode accepted an input that is not a serialization")
	}
	if e, err := tr.encode(d); err != nil || !bytes.Equal(e, b) {
		tr.fail("re-encoding gives %s, %v", short(e), err)
	}
}

func c04(tr *Trial) {
	b := tr.someInput()
	tr.input = b
	n := uint64(len(b))
	if tr.r.Intn(6) == 0 {
		n = uint64(tr.r.Intn(len(b) + 6))
	}
	d := tr.dest()
	var e1, e2 error
	tr.must("Decode", func() { e1 = zssz.Decode(bytes.NewReader(b), n, d.Interface(), tr.ssz) })
	tr.must("DryCheck", func() { e2 = zssz.DryCheck(bytes.NewReader(b), n, tr.ssz) })
	if (e1 == nil) != (e2 == nil) {
		tr.fail("declared length %d: Decode: %v, DryCheck: %v", n, e1, e2)
	}
}

func c05(tr *Trial) {
	if tr.r.Intn(6) == 0 && !tr.once {
		// SizeOf does not depend on the limits
		tr.g.wild = true
		v := tr.value()
		tr.g.wild = false
		p := tr.newVal(v)
		var n uint64
		tr.must("SizeOf", func() { n = zssz.SizeOf(p.Interface(), tr.ssz) })
		if e, err := tr.encode(p); err == nil && uint64(len(e)) != n {
			tr.fail("value beyond the limits: SizeOf is %d, Encode wrote %d bytes", n, len(e))
		}
	}
	v := tr.value()
	tr.input = tr.t.enc(v)
	p := tr.newVal(v)
	var n, lo, hi, fx uint64
	var fixed bool
	tr.must("SizeOf", func() { n = zssz.SizeOf(p.Interface(), tr.ssz) })
	tr.must("bounds", func() { lo, hi, fx, fixed = tr.ssz.MinLen(), tr.ssz.MaxLen(), tr.ssz.FixedLen(), tr.ssz.IsFixed() })
	e, err := tr.encode(p)
	if err != nil {
		return
	}
	if uint64(len(e)) != n {
		tr.fail("SizeOf is %d, Encode wrote %d bytes", n, len(e))
	}
	if n < lo || n > hi {
		tr.fail("size %d outside of [MinLen %d, MaxLen %d]", n, lo, hi)
	}
	wl, wh := tr.t.bounds()
	if bi(lo).Cmp(wl) > 0 {
		tr.fail("MinLen %d, but there is a value of size %v", lo, wl)
	}
	if bi(hi).Cmp(wh) < 0 && hi != ^uint64(0) {
		tr.fail("MaxLen %d, but there is a value of size %v", hi, wh)
	}
	if fixed && (lo != hi || lo != fx || n != fx) {
		tr.fail("fixed-size type: MinLen %d MaxLen %d FixedLen %d size %d", lo, hi, fx, n)
	}
	if fixed != tr.t.fixed() {
		tr.fail("IsFixed is %v", fixed)
	}
	tr.again(p, v, func(v *Val) {
		tr.must("SizeOf", func() { n = zssz.SizeOf(p.Interface(), tr.ssz) })
		if e := tr.t.enc(v); uint64(len(e)) != n {
			tr.fail("SizeOf is %d after a change in place, serialization has %d bytes", n, len(e))
		}
	})
}

func c06(tr *Trial) {
	v := tr.value()
	tr.input = tr.t.enc(v)
	p := tr.newVal(v)
	tr.withHash(func(h hashFn) {
		want := tr.t.root(h, v)
		var got [32]byte
		tr.must("HashTreeRoot", func() { got = zssz.HashTreeRoot(htr.HashFn(h), p.Interface(), tr.ssz) })
		if got != want {
			tr.fail("root %x, hash-tree-root is %x", got, want)
		}
		// the byte order of the machine is simulated: memory of basic series may be taken as it is on a
		// big-endian machine (swapped elements) or through typed loads
		withLE(false, func() {
			p2 := tr.newVal(swapped(tr.t, v))
			var got2 [32]byte
			tr.must("HashTreeRoot", func() { got = zssz.HashTreeRoot(htr.HashFn(h), p.Interface(), tr.ssz) })
			tr.must("HashTreeRoot", func() { got2 = zssz.HashTreeRoot(htr.HashFn(h), p2.Interface(), tr.ssz) })
			if got != want && got2 != want {
				tr.fail("root on a big-endian machine %x, hash-tree-root is %x", got2, want)
			}
		})
		tr.again(p, v, func(v *Val) {
			tr.must("HashTreeRoot", func() { got = zssz.HashTreeRoot(htr.HashFn(h), p.Interface(), tr.ssz) })
			if want := tr.t.root(h, v); got != want {
				tr.fail("root %x after a change in place, hash-tree-root is %x", got, want)
			}
		})
	})
}

// the elements of multi-byte basic series with their bytes reversed
func swapped(t *Ty, v *Val) *Val {
	o := &Val{U: v.U, B: v.B}
	for i, x := range v.Seq {
		e := t.Elem
		if t.K == KContainer {
			e = t.Fields[i].Ty
		}
		if (t.K == KList || t.K == KVector) && e.K == KUint {
			u := uint64(0)
			for q := 0; q < e.W; q++ {
				u = u<<8 | x.U>>(8*q)&255
			}
			o.Seq = append(o.Seq, &Val{U: u})
			continue
		}
		o.Seq = append(o.Seq, swapped(e, x))
	}
	return o
}

func c07(tr *Trial) {
	s, ok := tr.ssz.(types.SignedSSZ)
	if tr.t.K != KContainer || len(tr.t.Fields) == 0 {
		return
	}
	if !ok {
		tr.fail("container has no SigningRoot")
	}
	v := tr.value()
	tr.input = tr.t.enc(v)
	p := tr.newVal(v)
	n := len(tr.t.Fields) - 1
	tr.withHash(func(h hashFn) {
		want := tr.t.rootFields(h, v, n)
		var got [32]byte
		tr.must("SigningRoot", func() { got = zssz.SigningRoot(htr.HashFn(h), p.Interface(), s) })
		if got != want {
			tr.fail("signing root %x, root of the first %d fields is %x", got, n, want)
		}
		v.Seq[n] = tr.g.val(tr.t.Fields[n].Ty)
		p2 := tr.newVal(v)
		tr.must("SigningRoot", func() { got = zssz.SigningRoot(htr.HashFn(h), p2.Interface(), s) })
		if got != want {
			tr.fail("signing root depends on the last field")
		}
		tr.again(p2, v, func(v *Val) {
			tr.must("SigningRoot", func() { got = zssz.SigningRoot(htr.HashFn(h), p2.Interface(), s) })
			if want := tr.t.rootFields(h, v, n); got != want {
				tr.fail("signing root %x after a change in place, should be %x", got, want)
			}
		})
	})
}

func (tr *Trial) tree() (count, limit uint64, leaves [][32]byte) {
	r := tr.r
	count = uint64(r.Intn(20))
	switch r.Intn(8) {
	case 0:
		count = uint64(r.Intn(600))
	case 1:
		count = 1<<uint(r.Intn(9)) + uint64(r.Intn(3)) - 1
	}
	switch r.Intn(5) {
	case 0:
		limit = count
	case 1:
		limit = count + uint64(r.Intn(8))
	case 2:
		limit = count + uint64(r.Intn(300))
	case 3:
		limit = 1<<uint(r.Intn(64)) + uint64(r.Intn(3)) - 1
		if r.Intn(4) == 0 {
			limit |= 1 << uint(r.Intn(64))
		}
	case 4:
		limit = r.Uint64() >> uint(r.Intn(64))
		if r.Intn(10) == 0 {
			limit = ^uint64(0)
		}
	}
	if limit < count && r.Intn(8) != 0 {
		limit = count
	}
	for i := uint64(0); i < count; i++ {
		var l [32]byte
		if r.Intn(8) != 0 {
			r.Read(l[:])
		}
		leaves = append(leaves, l)
	}
	tr.say("count %d limit %d", count, limit)
	return
}

func leafFn(tr *Trial, leaves [][32]byte) func(uint64) []byte {
	shared := make([]byte, 32)
	mode := tr.r.Intn(3)
	return func(i uint64) []byte {
		if i >= uint64(len(leaves)) {
			tr.fail("leaf %d of %d asked for", i, len(leaves))
		}
		switch mode {
		case 0:
			copy(shared, leaves[i][:])
			return shared
		case 1:
			x := leaves[i]
			return x[:]
		}
		return leaves[i][:]
	}
}

func c08(tr *Trial) {
	count, limit, leaves := tr.tree()
	tr.withHash(func(h hashFn) {
		z := zeros(h)
		if len(htr.ZeroHashes) != 65 {
			tr.fail("%d zero hashes", len(htr.ZeroHashes))
		}
		for i, x := range htr.ZeroHashes {
			if x != z[i] {
				tr.fail("zero hash %d is %x, should be %x", i, x, z[i])
			}
		}
		orig := append([][32]byte{}, leaves...)
		var got [32]byte
		p := try(func() { got = merkle.Merkleize(htr.HashFn(h), count, limit, leafFn(tr, leaves)) })
		if count > limit {
			if p == "" {
				tr.fail("count above the limit not refused")
			}
			return
		}
		if p != "" {
			tr.fail("Merkleize: %s", p)
		}
		for i := range orig {
			if orig[i] != leaves[i] {
				tr.fail("Merkleize changed leaf %d", i)
			}
		}
		if want := refMerkle(h, leaves, limit); got != want {
			tr.fail("root %x, should be %x", got, want)
		}
		if d := int(merkle.GetDepth(limit)); limit > 1 && d != treeDepth(limit) {
			tr.fail("GetDepth(%d) = %d", limit, d)
		}
	})
}

func c09(tr *Trial) {
	count, limit, leaves := tr.tree()
	if limit < count {
		limit = count
	}
	if limit == 0 {
		return
	}
	index := tr.r.Uint64() % limit
	switch tr.r.Intn(4) {
	case 0:
		if count > 0 {
			index = tr.r.Uint64() % count
		}
	case 1:
		index = (count + uint64(tr.r.Intn(3))) % limit
	case 2:
		index = (tr.r.Uint64() >> uint(tr.r.Intn(64))) % limit
		if tr.r.Intn(2) == 0 { // few bits
			index = 0
			for k := 1 + tr.r.Intn(3); k > 0; k-- {
				index |= 1 << uint(tr.r.Intn(bits.Len64(limit)))
			}
			index %= limit
		}
	}
	tr.say("index %d", index)
	tr.withHash(func(h hashFn) {
		var br [][32]byte
		tr.must("ConstructProof", func() { br = merkle.ConstructProof(htr.HashFn(h), count, limit, leafFn(tr, leaves), index) })
		if len(br) != treeDepth(limit) {
			tr.fail("branch of %d entries, tree has %d levels", len(br), treeDepth(limit))
		}
		var x [32]byte
		if index < count {
			x = leaves[index]
		}
		for j, s := range br {
			if index>>uint(j)&1 == 1 {
				x = comb(h, s, x)
			} else {
				x = comb(h, x, s)
			}
		}
		var want [32]byte
		tr.must("Merkleize", func() { want = merkle.Merkleize(htr.HashFn(h), count, limit, leafFn(tr, leaves)) })
		if x != want {
			tr.fail("branch folds to %x, root is %x", x, want)
		}
	})
}

func (tr *Trial) fuzzable() bool { return true }

func c10(tr *Trial) {
	if tr.r.Intn(10) == 0 {
		readerOps(tr)
		return
	}
	b := tr.someInput()
	data := b
	L := len(b)
	switch tr.r.Intn(5) {
	case 0: // more data than declared
		data = append(append([]byte{}, b...), tr.g.bytes(1+tr.r.Intn(20))...)
	case 1: // less data than declared
		if len(b) > 0 {
			data = b[:tr.r.Intn(len(b))]
		}
	case 2:
		L = tr.r.Intn(len(b) + 8)
	}
	tr.input = data
	end := []error{io.EOF, errBoom, io.ErrUnexpectedEOF}[tr.r.Intn(3)]
	tr.say("declared length %d, end of input error %v", L, end)
	op := tr.r.Intn(4)
	var base error
	var baseV *Val
	var baseN uint64
	for mode := -1; mode < 5; mode++ {
		var x io.Reader
		var mine *rd
		if mode >= 0 {
			mine = &rd{data: data, r: tr.r, mode: mode, end: end}
			x = mine
		} else {
			x = bytes.NewReader(data)
		}
		var err error
		var v *Val
		var n uint64
		d := tr.newVal(nil)
		switch op {
		case 0, 1:
			tr.must("Decode", func() { err = zssz.Decode(x, uint64(L), d.Interface(), tr.ssz) })
		case 2:
			tr.must("DryCheck", func() { err = zssz.DryCheck(x, uint64(L), tr.ssz) })
		case 3:
			tr.must("DecodeFuzzBytes", func() { n, err = zssz.DecodeFuzzBytes(x, uint64(L), d.Interface(), tr.ssz) })
		}
		used := 0
		if mode >= 0 {
			used = mine.pos
		} else {
			used = len(data) - x.(*bytes.Reader).Len()
		}
		if used > L {
			tr.fail("operation %d, reader %d: %d bytes consumed, %d declared", op, mode, used, L)
		}
		if err == nil && op < 3 && used != L {
			tr.fail("operation %d, reader %d: success after %d bytes, %d declared", op, mode, used, L)
		}
		if err == nil && op == 3 && int(n) != used {
			tr.fail("fuzz decoding, reader %d: %d bytes reported, %d consumed", mode, n, used)
		}
		if err == nil && op != 2 {
			v = tr.t.get(d.Elem())
		}
		if mode < 0 {
			base, baseV, baseN = err, v, n
			continue
		}
		if (err == nil) != (base == nil) {
			tr.fail("operation %d: bytes.Reader: %v, reader %d: %v", op, base, mode, err)
		}
		if err == nil && op != 2 && (!tr.t.eq(v, baseV) || n != baseN) {
			tr.fail("operation %d: value depends on the reader (%d)", op, mode)
		}
		if err == nil && op < 3 && tr.r.Intn(3) == 0 {
			// what follows in the stream is decoded on its own
			if mine.pos != L {
				continue
			}
			rest := &rd{data: append(append([]byte{}, b...), b...), r: tr.r, mode: mode, end: end}
			d1, d2 := tr.newVal(nil), tr.newVal(nil)
			var e1, e2 error
			tr.must("Decode", func() { e1 = zssz.Decode(rest, uint64(len(b)), d1.Interface(), tr.ssz) })
			if e1 != nil {
				continue
			}
			tr.must("Decode", func() { e2 = zssz.Decode(rest, uint64(len(b)), d2.Interface(), tr.ssz) })
			if e2 != nil || rest.pos != 2*len(b) || !tr.t.eq(tr.t.get(d2.Elem()), tr.t.get(d1.Elem())) {
				tr.fail("second Decode from a reader: %v after %d bytes", e2, rest.pos)
			}
		}
	}
	if op < 3 && len(data) < L && base == nil {
		tr.fail("operation %d succeeded without the input", op)
	}
}

// random operations on a scoped DecodingReader against a model
func readerOps(tr *Trial) {
	data := tr.g.bytes(tr.r.Intn(64))
	in := &rd{data: data, r: tr.r, mode: tr.r.Intn(5), end: io.EOF}
	L := uint64(tr.r.Intn(70))
	d, err := dec.NewDecodingReader(in).Scope(L)
	if err != nil {
		tr.fail("Scope: %v", err)
	}
	pos := 0
	for k := 0; k < 8; k++ {
		n := tr.r.Intn(12)
		op := tr.r.Intn(5)
		tr.say("op %d %d", op, n)
		var err error
		idx := d.Index()
		var got []byte
		switch op {
		case 0:
			got = make([]byte, n)
			_, err = d.Read(got)
		case 1:
			_, err = d.Skip(uint64(n))
		case 2:
			n = 1
			var x byte
			x, err = d.ReadByte()
			got = []byte{x}
		case 3:
			n = 4
			var x uint32
			x, err = d.ReadUint32()
			got = []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)}
		case 4:
			s, e := d.Scope(uint64(n))
			if (e == nil) != (idx+uint64(n) <= L) {
				tr.fail("Scope(%d) at %d of %d: %v", n, idx, L, e)
			}
			if e == nil && (s.Index() != 0 || s.Max() != uint64(n)) {
				tr.fail("scope is [%d,%d)", s.Index(), s.Max())
			}
			continue
		}
		ok := idx+uint64(n) <= L && pos+n <= len(data) || n == 0
		if (err == nil) != ok {
			tr.fail("operation %d of %d bytes at %d (limit %d, %d available): %v", op, n, idx, L, len(data)-pos, err)
		}
		if err != nil {
			if in.pos > int(L) {
				tr.fail("consumed beyond the scope")
			}
			return
		}
		if d.Index() != idx+uint64(n) || in.pos != pos+n {
			tr.fail("index %d, consumed %d after %d bytes", d.Index(), in.pos, n)
		}
		if op != 1 && !bytes.Equal(got, data[pos:pos+n]) {
			tr.fail("wrong bytes read")
		}
		pos += n
	}
}

func c11(tr *Trial) {
	v := tr.value()
	want := tr.t.enc(v)
	tr.input = want
	p := tr.newVal(v)
	lax := &wr{left: -1, lax: true}
	var m int
	tr.must("Encode", func() { m, _ = zssz.Encode(lax, p.Interface(), tr.ssz) })
	if m != lax.buf.Len() {
		tr.fail("writer that accepts parts without an error: %d bytes reported, %d accepted", m, lax.buf.Len())
	}
	for k := 0; k < 6; k++ {
		w := &wr{left: -1, err: []error{errBoom, io.ErrShortWrite, io.EOF, io.ErrClosedPipe, syscall.EPIPE, syscall.EINTR, syscall.EAGAIN, os.ErrDeadlineExceeded, io.ErrNoProgress, context.Canceled}[tr.r.Intn(10)]}
		switch tr.r.Intn(4) {
		case 0:
			w.left = tr.r.Intn(len(want) + 2)
		case 1:
			w.left = tr.r.Intn(len(want) + 2)
			w.full = true
		case 2:
			w.maxCall = 1 + tr.r.Intn(10)
			w.full = tr.r.Intn(2) == 0
		}
		tr.say("writer accepts %d bytes, full %v, fails at call %d", w.left, w.full, w.maxCall)
		var n int
		var err error
		withLE(tr.r.Intn(3) != 0, func() {
			tr.must("Encode", func() { n, err = zssz.Encode(w, p.Interface(), tr.ssz) })
		})
		if (err != nil) != w.failed {
			tr.fail("writer failed: %v, Encode: %v", w.failed, err)
		}
		if w.after > 0 {
			tr.fail("%d writes after the failed one", w.after)
		}
		if n != w.buf.Len() {
			tr.fail("%d bytes reported, %d accepted", n, w.buf.Len())
		}
		if !bytes.HasPrefix(want, w.buf.Bytes()) || !w.failed && n != len(want) {
			tr.fail("written %s is no prefix of (or not) the serialization", short(w.buf.Bytes()))
		}
		if w.failed || w.left >= 0 || w.maxCall > 0 || tr.r.Intn(2) == 0 {
			continue
		}
		// a next value to the same writer
		v2 := tr.value()
		want2 := tr.t.enc(v2)
		p2 := tr.newVal(v2)
		w.buf.Reset()
		tr.must("Encode", func() { n, err = zssz.Encode(w, p2.Interface(), tr.ssz) })
		if err != nil || n != len(want2) || !bytes.Equal(w.buf.Bytes(), want2) {
			tr.fail("second Encode to a writer: %v, %d bytes reported, written %s, wanted %s", err, n, short(w.buf.Bytes()), short(want2))
		}
	}
}

func c12(tr *Trial) {
	b := tr.someInput()
	tr.input = b
	L := len(b)
	data := b
	switch tr.r.Intn(6) {
	case 0:
		L += tr.r.Intn(5000)
	case 1:
		L = tr.r.Intn(L + 1)
	case 2:
		L += tr.r.Intn(1 << 22)
	}
	tr.say("declared length %d", L)
	box := reflect.StructOf([]reflect.StructField{{Name: "Pre", Type: tt[[64]byte]()}, {Name: "V", Type: tr.t.T}, {Name: "Post", Type: tt[[64]byte]()}})
	p := reflect.New(box)
	pre, post := p.Elem().Field(0), p.Elem().Field(2)
	for i := 0; i < 64; i++ {
		pre.Index(i).SetUint(0xC7)
		post.Index(i).SetUint(0xC7)
	}
	g2 := &gen{r: tr.r, left: 300}
	if tr.r.Intn(2) == 0 {
		g2.put(tr.t, p.Elem().Field(1), g2.val(tr.t))
	}
	caps := map[unsafe.Pointer]int{}
	slices(tr.t, p.Elem().Field(1), func(t *Ty, s reflect.Value) {
		if s.Cap() > 0 {
			caps[s.UnsafePointer()] = s.Cap()
		}
	})
	dp := p.Elem().Field(1).Addr()
	var m0, m1 runtime.MemStats
	meter := tr.r.Intn(20) == 0 || L > 100000
	if meter {
		runtime.ReadMemStats(&m0)
	}
	var err error
	withLE(tr.r.Intn(5) != 0, func() {
		tr.must("Decode", func() { err = zssz.Decode(bytes.NewReader(data), uint64(L), dp.Interface(), tr.ssz) })
		tr.must("DryCheck", func() { zssz.DryCheck(bytes.NewReader(data), uint64(L), tr.ssz) })
	})
	_ = err
	if meter {
		runtime.ReadMemStats(&m1)
		mx := uint64(1)
		tr.t.walk(func(x *Ty) {
			if s := uint64(x.T.Size()); s > mx {
				mx = s
			}
		})
		// a slice may have as many elements as the declared length allows
		if n := m1.TotalAlloc - m0.TotalAlloc; n > 1<<20+64*uint64(len(data))*mx+mx*uint64(L)*2 {
			tr.fail("%d bytes allocated for %d declared bytes", n, L)
		}
	}
	tr.disturb()
	for i := 0; i < 64; i++ {
		if pre.Index(i).Uint() != 0xC7 || post.Index(i).Uint() != 0xC7 {
			tr.fail("memory beside the destination was changed")
		}
	}
	slices(tr.t, p.Elem().Field(1), func(t *Ty, s reflect.Value) {
		c := s.Cap()
		if c == 0 {
			if s.Len() != 0 {
				tr.fail("slice of length %d without memory", s.Len())
			}
			return
		}
		if old, ok := caps[s.UnsafePointer()]; ok {
			if c > old || s.Len() > c {
				tr.fail("reused slice: length %d, capacity %d, was %d", s.Len(), c, old)
			}
			return
		}
		if s.Len() > c {
			tr.fail("slice of length %d, capacity %d", s.Len(), c)
		}
		per := 1
		if t.K == KList {
			per = 4
			if t.Elem.fixed() {
				per = t.Elem.flen()
			}
		}
		lim := t.N
		if t.K == KBitlist {
			lim = t.N/8 + 1
		}
		if uint64(c) > lim || c*per > L {
			tr.fail("slice of %d elements allocated for a limit of %d and %d declared bytes", c, lim, L)
		}
	})
}

func slices(t *Ty, rv reflect.Value, f func(*Ty, reflect.Value)) {
	switch t.K {
	case KBytes, KBitlist, KList:
		f(t, rv)
		if t.K == KList {
			for i := 0; i < rv.Len(); i++ {
				slices(t.Elem, rv.Index(i), f)
			}
		}
	case KVector:
		for i := 0; i < rv.Len(); i++ {
			slices(t.Elem, rv.Index(i), f)
		}
	case KPtr:
		if !rv.IsNil() {
			slices(t.Elem, rv.Elem(), f)
		}
	case KContainer:
		for _, x := range t.Fields {
			slices(x.Ty, fieldAt(rv, x.Path), f)
		}
	}
}

func c13(tr *Trial) {
	lo, hi := tr.ssz.FuzzMinLen(), tr.ssz.FuzzMaxLen()
	if lo > 200000 {
		return
	}
	n := int(lo)
	switch tr.r.Intn(4) {
	case 0:
	case 1:
		n += tr.r.Intn(8)
	case 2:
		n += tr.r.Intn(300)
	case 3:
		n += tr.r.Intn(40)
	}
	b := make([]byte, n)
	switch tr.r.Intn(6) {
	case 0:
	case 1:
		for i := range b {
			b[i] = 255
		}
	case 2:
		for i := range b {
			b[i] = byte(tr.r.Intn(3))
		}
	default:
		tr.r.Read(b)
	}
	tr.input = b
	d := tr.dest()
	src := &rd{data: append(append([]byte{}, b...), 1, 2, 3, 4), r: tr.r, mode: tr.r.Intn(3), end: io.EOF}
	var used uint64
	var err error
	withLE(tr.r.Intn(5) != 0, func() {
		tr.must("DecodeFuzzBytes", func() { used, err = zssz.DecodeFuzzBytes(src, uint64(n), d.Interface(), tr.ssz) })
	})
	if err != nil {
		tr.fail("input of %d >= FuzzMinLen %d bytes: %v", n, lo, err)
	}
	if used < lo || used > hi || used > uint64(n) || int(used) != src.pos {
		tr.fail("%d bytes read (%d taken from the input), FuzzMinLen %d, FuzzMaxLen %d, declared %d", used, src.pos, lo, hi, n)
	}
	tr.disturb()
	v := tr.t.get(d.Elem())
	if err := tr.t.valid(v); err != nil {
		tr.fail("fuzz mode produced an invalid value: %v", err)
	}
	e, err := tr.encode(d)
	if err != nil || !bytes.Equal(e, tr.t.enc(v)) {
		tr.fail("encoding the value: %v", err)
	}
	d2 := tr.newVal(nil)
	if err := tr.decode(e, d2); err != nil || !tr.t.eq(tr.t.get(d2.Elem()), v) {
		tr.fail("decoding back: %v", err)
	}
	tr.must("HashTreeRoot", func() {
		if zssz.HashTreeRoot(htr.HashFn(sha256.Sum256), d.Interface(), tr.ssz) != tr.t.root(sha256.Sum256, v) {
			tr.fail("root of the value")
		}
	})
}

func c14(tr *Trial) {
	r := tr.r
	n := r.Intn(5)
	if r.Intn(4) == 0 {
		n = r.Intn(70)
	}
	b := tr.g.bytes(n)
	if n > 0 {
		switch r.Intn(6) {
		case 0:
			b[n-1] = 0
		case 1:
			b[n-1] = 1 << uint(r.Intn(8))
		case 2:
			clear(b)
			b[n-1] = 1 << uint(r.Intn(8))
		case 3:
			clear(b)
			b[n-1] = 1 << uint(r.Intn(8))
			b[r.Intn(n)] |= 1 << uint(r.Intn(8))
		}
	}
	tr.input = append([]byte{}, b...)
	orig := tr.input
	bit := func(x []byte, i uint64) bool { return x[i/8]&(1<<(i%8)) != 0 }
	for v := 0; v < 256; v++ {
		w := uint64(0)
		for q := 0; q < 8; q++ {
			if v>>q&1 == 1 {
				w = uint64(q)
			}
		}
		if bitfields.BitIndex(byte(v)) != w {
			tr.fail("BitIndex(%d) = %d", v, bitfields.BitIndex(byte(v)))
		}
	}
	limits := []uint64{0, 1, 7, 8, 9, uint64(r.Intn(40)), uint64(8 * n), uint64(8*n) + 1, r.Uint64(), ^uint64(0), ^uint64(0) - 7, ^uint64(0) - 6, ^uint64(0) - uint64(r.Intn(12))}
	if n > 0 {
		i := uint64(r.Intn(8 * n))
		var got bool
		tr.must("GetBit", func() { got = bitfields.GetBit(b, i) })
		if got != bit(b, i) {
			tr.fail("GetBit %d", i)
		}
		x := append([]byte{}, b...)
		val := r.Intn(2) == 0
		tr.must("SetBit", func() { bitfields.SetBit(x, i, val) })
		for k := uint64(0); k < uint64(8*n); k++ {
			want := bit(b, k)
			if k == i {
				want = val
			}
			if bit(x, k) != want {
				tr.fail("SetBit %d to %v: bit %d", i, val, k)
			}
		}
		limits = append(limits, uint64(8*n)-1, uint64(8*n)-8+uint64(r.Intn(8)))
	}
	delim := n > 0 && b[n-1] != 0
	if delim {
		l := bitlen(b)
		zero := true
		for k := uint64(0); k < l; k++ {
			zero = zero && !bit(b, k)
		}
		tr.must("bitlist", func() {
			if bitfields.BitlistLen(b) != l {
				tr.fail("BitlistLen %d, should be %d", bitfields.BitlistLen(b), l)
			}
			if bitfields.IsZeroBitlist(b) != zero {
				tr.fail("IsZeroBitlist is %v", !zero)
			}
		})
		limits = append(limits, l, l+1)
		if l > 0 {
			limits = append(limits, l-1)
		}
	}
	for _, lim := range limits {
		tr.must("checks", func() {
			ok := delim && bitlen(b) <= lim
			if err := bitfields.BitlistCheck(b, lim); (err == nil) != ok {
				tr.fail("BitlistCheck with limit %d: %v", lim, err)
			}
			{
				ok = ceilDiv(lim, 8) == uint64(n)
				for k := lim; ok && k < uint64(8*n); k++ {
					ok = !bit(b, k)
				}
				if err := bitfields.BitvectorCheck(b, lim); (err == nil) != ok {
					tr.fail("BitvectorCheck for %d bits: %v", lim, err)
				}
				if err := bitfields.BitvectorCheckByteLen(uint64(n), lim); (err == nil) != (ceilDiv(lim, 8) == uint64(n)) {
					tr.fail("BitvectorCheckByteLen of %d for %d bits: %v", n, lim, err)
				}
			}
		})
	}
	if !bytes.Equal(b, orig) {
		tr.fail("the input bytes were changed")
	}
}

var kindName = map[Kind]string{KBool: "SSZBool", KBytes: "*SSZBytes", KBytesN: "*SSZBytesN", KBitlist: "*SSZBitlist", KBitvector: "*SSZBitvector", KPtr: "*SSZPtr", KContainer: "*SSZContainer"}

func c15(tr *Trial, typ reflect.Type) {
	want, werr := describe(typ)
	var s types.SSZ
	var err error
	tr.must("SSZFactory", func() { s, err = types.SSZFactory(typ) })
	if (err == nil) != (werr == nil) {
		tr.fail("reference: %v, factory: %v", werr, err)
	}
	if err != nil || !want.sane() {
		return
	}
	tr.t, tr.ssz = want, s
	name := kindName[want.K]
	if want.K == KUint {
		name = fmt.Sprintf("SSZUint%d", 8*want.W)
	}
	if name != "" && fmt.Sprintf("%T", s) != strings.Replace(name, "SSZ", "types.SSZ", 1) {
		tr.fail("structure of kind %T", s)
	}
	if c, ok := s.(*types.SSZContainer); ok && len(c.Fields) != len(want.Fields) {
		tr.fail("%d fields, should be %d", len(c.Fields), len(want.Fields))
	}
	if p := reflect.New(typ); tr.r.Intn(4) == 0 {
		tr.must("GetSSZ", func() { zssz.GetSSZ(p.Interface()) })
	}
	c01(tr)
	c02(tr)
	c05(tr)
	c06(tr)
	// one above the limit is refused, if that is expressible
	for i := 0; i < 3; i++ {
		c03(tr)
		c04(tr)
	}
	c13(tr)
}

func c16(tr *Trial) {
	v := tr.value()
	tr.input = tr.t.enc(v)
	p := tr.newVal(v)
	var m0, m1 bytes.Buffer
	raw(p.Elem(), &m0)
	s0 := dumpSSZ(tr.ssz)
	le := tr.r.Intn(4) != 0
	h := htr.HashFn(sha256.Sum256)
	same := func(what string) {
		m1.Reset()
		raw(p.Elem(), &m1)
		if !bytes.Equal(m0.Bytes(), m1.Bytes()) {
			tr.fail("%s changed the value", what)
		}
		if dumpSSZ(tr.ssz) != s0 {
			tr.fail("%s changed the type structure", what)
		}
	}
	input := tr.someInput()
	fz := tr.g.bytes(int(min(tr.ssz.FuzzMinLen(), 100000)) + tr.r.Intn(60))
	type result struct {
		size uint64
		enc  string
		root [32]byte
		sig  [32]byte
		pr   string
		dry  bool
		dec  bool
		decV *Val
		fz   bool
		fzV  *Val
	}
	withLE(le, func() {
		run := func(s types.SSZ, check func(string)) (x result) {
			x.size = zssz.SizeOf(p.Interface(), s)
			check("SizeOf")
			var b bytes.Buffer
			zssz.Encode(&b, p.Interface(), s)
			x.enc = b.String()
			check("Encode")
			zssz.Encode(&wr{left: len(x.enc) / 2}, p.Interface(), s)
			check("failing Encode")
			x.root = zssz.HashTreeRoot(h, p.Interface(), s)
			check("HashTreeRoot")
			if c, ok := s.(types.SignedSSZ); ok && len(tr.t.Fields) > 0 {
				x.sig = zssz.SigningRoot(h, p.Interface(), c)
				check("SigningRoot")
			}
			if len(x.enc) < 3000 {
				var pb bytes.Buffer
				zssz.Pretty(&pb, " ", p.Interface(), s)
				x.pr = pb.String()
				check("Pretty")
			}
			x.dry = zssz.DryCheck(bytes.NewReader(input), uint64(len(input)), s) == nil
			check("DryCheck")
			d := reflect.New(tr.t.T)
			x.dec = zssz.Decode(bytes.NewReader(input), uint64(len(input)), d.Interface(), s) == nil
			check("Decode")
			if x.dec {
				x.decV = tr.t.get(d.Elem())
			}
			d = reflect.New(tr.t.T)
			_, err := zssz.DecodeFuzzBytes(bytes.NewReader(fz), uint64(len(fz)), d.Interface(), s)
			check("DecodeFuzzBytes")
			x.fz = err == nil
			if x.fz {
				x.fzV = tr.t.get(d.Elem())
			}
			return
		}
		eq := func(a, b result) bool {
			if a.decV != nil && b.decV != nil && !tr.t.eq(a.decV, b.decV) || a.fzV != nil && b.fzV != nil && !tr.t.eq(a.fzV, b.fzV) {
				return false
			}
			a.decV, b.decV, a.fzV, b.fzV = nil, nil, nil, nil
			return a == b
		}
		var a, b, c result
		tr.must("operations", func() { a = run(tr.ssz, same) })
		tr.must("operations", func() { b = run(tr.ssz, same) })
		if !eq(a, b) {
			tr.fail("second use of the type structure gives other results")
		}
		var fresh types.SSZ
		tr.must("SSZFactory", func() { fresh, _ = types.SSZFactory(tr.t.T) })
		tr.must("operations", func() { c = run(fresh, func(string) {}) })
		if !eq(a, c) {
			tr.fail("a fresh type structure gives other results")
		}
		if a.enc != string(tr.t.enc(v)) || le && a.root != tr.t.root(sha256.Sum256, v) {
			tr.fail("wrong result after use")
		}
		if tr.r.Intn(3) == 0 && len(a.enc) < 3000 {
			// in the middle of an operation
			left := 3
			mid := func(what string) {
				if left > 0 && tr.r.Intn(3) == 0 {
					left--
					same("during its run " + what)
				}
			}
			tr.must("operations", func() {
				zssz.Encode(hookW(func() { mid("Encode") }), p.Interface(), tr.ssz)
				left = 3
				zssz.HashTreeRoot(htr.HashFn(func(x []byte) [32]byte { mid("HashTreeRoot"); return sha256.Sum256(x) }), p.Interface(), tr.ssz)
				left = 3
				hr := &hookR{bytes.NewReader(input), func() { mid("DryCheck") }}
				zssz.DryCheck(hr, uint64(len(input)), tr.ssz)
				left = 3
				d := reflect.New(tr.t.T)
				zssz.Decode(&hookR{bytes.NewReader(input), func() { mid("Decode") }}, uint64(len(input)), d.Interface(), tr.ssz)
				zssz.DecodeFuzzBytes(&hookR{bytes.NewReader(fz), func() { mid("DecodeFuzzBytes") }}, uint64(len(fz)), d.Interface(), tr.ssz)
			})
		}
		if tr.r.Intn(12) == 0 && len(a.enc) > 0 && len(a.enc) < 300 {
			// operations inside of operations of the same kind
			tr.must("nested operations", func() { nest(tr, p, a.enc, a.root, 150) })
		}
		if tr.r.Intn(3) == 0 {
			var wg sync.WaitGroup
			res := make([]result, 4)
			pan := make([]string, 4)
			for k := range res {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					pan[k] = try(func() { res[k] = run(tr.ssz, func(string) {}) })
				}(k)
			}
			wg.Wait()
			for k := range res {
				if pan[k] != "" || !eq(res[k], a) {
					tr.fail("concurrent use gives other results %s", pan[k])
				}
			}
		}
	})
}

type hookW func()

func (f hookW) Write(b []byte) (int, error) { f(); return len(b), nil }

type hookR struct {
	r io.Reader
	f func()
}

func (x *hookR) Read(b []byte) (int, error) { x.f(); return x.r.Read(b) }

// encodes, decodes and hashes, each from within the writer, the reader or the hash function of the one before
func nest(tr *Trial, p reflect.Value, enc string, root [32]byte, depth int) {
	if depth == 0 {
		return
	}
	once := true
	inner := func() {
		if once {
			once = false
			nest(tr, p, enc, root, depth-1)
		}
	}
	switch tr.r.Intn(4) {
	case 0, 1:
		var b bytes.Buffer
		w := io.MultiWriter(&b, hookW(inner))
		if _, err := zssz.Encode(w, p.Interface(), tr.ssz); err != nil || b.String() != enc {
			tr.fail("Encode within Encode: %v", err)
		}
	case 2:
		d := reflect.New(tr.t.T)
		if err := zssz.Decode(&hookR{strings.NewReader(enc), inner}, uint64(len(enc)), d.Interface(), tr.ssz); err != nil {
			tr.fail("Decode within Decode: %v", err)
		}
		var b bytes.Buffer
		if _, err := zssz.Encode(&b, d.Interface(), tr.ssz); err != nil || b.String() != enc {
			tr.fail("Decode within Decode gives another value")
		}
	case 3:
		x := zssz.HashTreeRoot(htr.HashFn(func(x []byte) [32]byte { inner(); return sha256.Sum256(x) }), p.Interface(), tr.ssz)
		if x != root {
			tr.fail("HashTreeRoot within HashTreeRoot differs")
		}
	}
	inner()
}

var checks = map[string]func(*Trial){"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C16": c16}

// ---------------------------------------------------------------- driver
var typeCache = map[int64]*Trial{}

var allTs []reflect.Type

// the fixed types, in an order that depends on the seed
func allTypes(seed int64) []reflect.Type {
	if allTs == nil {
		allTs = append(append(append(allTs, statics...), listTs...), wides...)
		if seed > 1 {
			rand.New(rand.NewSource(seed)).Shuffle(len(allTs), func(i, j int) { allTs[i], allTs[j] = allTs[j], allTs[i] })
		}
	}
	return allTs
}

func typeFor(seed int64, slot int64, focus string) *Trial {
	if x := typeCache[slot]; x != nil {
		return x
	}
	r := rand.New(rand.NewSource(seed*1000003 + slot*7919 + 17))
	for {
		var t reflect.Type
		if p := try(func() {
			if slot >= manySlot && slot < manySlot+int64(len(manyTs)) {
				t = manyTs[slot-manySlot]
			} else if slot < int64(len(statics)+len(listTs)+len(wides)) {
				t = allTypes(seed)[slot]
			} else {
				t = randType(r, 1+r.Intn(3))
			}
		}); p != "" {
			continue
		}
		d, err := describe(t)
		if err != nil || !d.sane() || t.Size() > 60000 && !(slot >= manySlot && slot < manySlot+int64(len(manyTs))) {
			slot += 1 << 32
			continue
		}
		if focus == "container" && d.K != KContainer {
			slot += 1 << 32
			if r.Intn(30) != 0 {
				t = nil
				continue
			}
			continue
		}
		x := &Trial{t: d}
		x.ssz, err = types.SSZFactory(t)
		if err != nil {
			x.ssz = nil
		}
		if len(typeCache) > 3000 {
			typeCache = map[int64]*Trial{}
		}
		return x
	}
}

func oneTrial(prop string, seed, n int64) (msg string, tr *Trial) {
	r := rand.New(rand.NewSource(seed*1000000007 + n))
	tr = &Trial{r: r}
	tr.g = &gen{r: r, left: 60 + r.Intn(600)}
	if r.Intn(100) == 0 {
		tr.g.left, tr.g.big = 200000, true
	}
	defer func() {
		if x := recover(); x != nil {
			if b, ok := x.(bad); ok {
				msg = b.msg
				return
			}
			msg = fmt.Sprintf("panic: %v\n%s", x, debug.Stack())
		}
	}()
	if n%160 == 23 {
		switch prop {
		case "C01", "C02", "C03", "C04", "C05", "C11":
			huge(tr, prop)
			return
		case "C14":
			hugeBits(tr)
			return
		}
	}
	many := n%1200 == 131 && manyOK[prop] && (prop != "C06" || n%2400 == 131)
	switch prop {
	case "C08", "C09", "C14":
	case "C15":
		var t reflect.Type
		for t == nil {
			try(func() {
				if n < int64(len(badTs)) {
					t = badTs[n]
				} else {
					t = randAnyType(r, 2)
				}
			})
			if t != nil && t.Size() > 60000 {
				t = nil
			}
		}
		tr.say("type %s", t)
		if len(tr.note[0]) > 3000 {
			tr.note[0] = tr.note[0][:3000]
		}
		c15(tr, t)
		return
	default:
		focus := ""
		if prop == "C07" {
			focus = "container"
		}
		var ty *Trial
		slot := n / 8
		if many {
			slot = manySlot + int64(r.Intn(len(manyTs)))
			tr.g.many, tr.g.left, tr.once = 65530+r.Intn(30), 400000, true
			if r.Intn(4) == 0 {
				tr.g.many += 65536
			}
		}
		if p := try(func() { ty = typeFor(seed, slot, focus) }); p != "" {
			if prop == "C12" || prop == "C02" {
				return "constructing the type structure: " + p, tr
			}
			return "", tr
		}
		tr.t, tr.ssz = ty.t, ty.ssz
		tr.say("type %s", tr.t.T)
		if tr.ssz == nil {
			return "", tr // C15's business
		}
	}
	if many && r.Intn(4) == 0 && overMany(tr, prop) {
		return
	}
	checks[prop](tr)
	return
}

// properties that are tried on lists of more than 65536 elements too
var manyOK = map[string]bool{"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C06": true, "C10": true, "C11": true, "C12": true}

const manySlot = 1 << 40

// many empty elements where few are allowed
func overMany(tr *Trial, prop string) bool {
	if prop != "C03" && prop != "C04" && prop != "C12" {
		return false
	}
	ts := []reflect.Type{tt[List[List[uint8, L3], L33]](), tt[List[List[uint8, L3], L2]](), tt[List[List[S3, L4], L256]](), tt[[5]List[uint8, L3]](), tt[List[List[uint32, L4], L70k]](), tt[List[List[uint16, L0], L8]]()}
	tr.t, _ = describe(ts[tr.r.Intn(len(ts))])
	tr.ssz, _ = types.SSZFactory(tr.t.T)
	if tr.ssz == nil {
		return true
	}
	n := 65534 + tr.r.Intn(10000)
	if tr.r.Intn(2) == 0 {
		// one invalid byte in a long list of bools
		bs := []reflect.Type{tt[List[bool, L20b]](), tt[List[bool, L40b]](), tt[List[NBool, L20b]](), tt[[75000]bool](), tt[List[[3]bool, L20b]]()}
		tr.t, _ = describe(bs[tr.r.Intn(len(bs))])
		tr.ssz, _ = types.SSZFactory(tr.t.T)
		if tr.ssz == nil {
			return true
		}
		if tr.t.K == KVector {
			n = int(tr.t.N)
		}
		n -= n % 3
		for k := 0; k < 4; k++ {
			b := make([]byte, n)
			i := tr.r.Intn(n)
			if k == 1 {
				i = n - 1
			}
			b[i] = 2
			if k == 2 {
				b[i] = 1
			}
			tr.say("%d bytes for %s, byte %d is %d", n, tr.t.T, i, b[i])
			var e1, e2 error
			d := tr.newVal(nil)
			tr.must("Decode", func() { e1 = zssz.Decode(bytes.NewReader(b), uint64(n), d.Interface(), tr.ssz) })
			tr.must("DryCheck", func() { e2 = zssz.DryCheck(bytes.NewReader(b), uint64(n), tr.ssz) })
			if (e1 == nil) != (k == 2) || (e2 == nil) != (k == 2) {
				tr.fail("Decode: %v, DryCheck: %v", e1, e2)
			}
		}
		return true
	}
	b := make([]byte, 4*n)
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint32(b[4*i:], uint32(4*n))
	}
	tr.say("%d empty elements of %s", n, tr.t.T)
	var e1, e2 error
	d := tr.newVal(nil)
	tr.must("Decode", func() { e1 = zssz.Decode(bytes.NewReader(b), uint64(len(b)), d.Interface(), tr.ssz) })
	tr.must("DryCheck", func() { e2 = zssz.DryCheck(bytes.NewReader(b), uint64(len(b)), tr.ssz) })
	want := tr.t.K == KList && uint64(n) <= tr.t.N
	if (e1 == nil) != want || (e2 == nil) != want {
		tr.fail("Decode: %v, DryCheck: %v", e1, e2)
	}
	return true
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	from := flag.Int64("from", 0, "first trial")
	trials := flag.Int64("trials", 1000, "number of trials")
	budget := flag.Float64("budget", 10, "seconds")
	cur := flag.String("cur", "", "file that holds the number of the running trial")
	out := flag.String("out", "", "replay file")
	flag.Parse()
	if checks[*prop] == nil && *prop != "C15" {
		fmt.Println("unknown property")
		os.Exit(2)
	}
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(6 << 30)
	debug.SetPanicOnFault(true)
	var cf *os.File
	if *cur != "" {
		cf, _ = os.Create(*cur)
	}
	start := time.Now()
	n := *from
	for ; n < *from+*trials && time.Since(start).Seconds() < *budget; n++ {
		if cf != nil {
			cf.WriteAt([]byte(fmt.Sprintf("%d\n", n)), 0)
		}
		if n%400 == 399 {
			runtime.GC()
		}
		msg, tr := oneTrial(*prop, *seed, n)
		if msg != "" {
			rep := map[string]interface{}{"property": *prop, "seed": *seed, "trial": n, "what": msg, "circumstances": tr.note, "input_hex": hex.EncodeToString(tr.input)}
			if len(tr.input) > 100000 {
				rep["input_hex"] = short(tr.input)
			}
			if tr.t != nil {
				rep["go_type"] = fmt.Sprint(tr.t.T)
			}
			j, _ := json.MarshalIndent(rep, "", " ")
			if *out != "" {
				os.WriteFile(*out, append(j, '\n'), 0644)
			}
			fmt.Printf("FAIL %s\n", j)
			os.Exit(1)
		}
	}
	fmt.Printf("OK trials=%d\n", n-*from)
}
