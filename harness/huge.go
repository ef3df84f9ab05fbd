package main

// values with serializations of up to 4 GiB, whose contents are zero pages of one read-only mapping

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"reflect"
	"syscall"
	"unsafe"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/bitfields"
	"github.com/protolambda/zssz/types"
)

type hB []byte

func (*hB) Limit() uint64 { return 1 << 40 }

type hL []hB

func (*hL) Limit() uint64 { return 8 }

type hV [3]hB

type hIn struct {
	P hB
	Q uint8
}

type hS struct {
	A hB
	X uint16
	B hB
	L hL
	I hIn
	C hB
}

type hF struct {
	X uint32
	V hV
	L hL
}

const zeroLen = 1<<32 + 1<<20

var zeroMap []byte

func zeroB(n uint64) hB {
	if zeroMap == nil {
		b, err := syscall.Mmap(-1, 0, zeroLen, syscall.PROT_READ, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
		if err != nil {
			return nil
		}
		zeroMap = b
	}
	return hB(zeroMap[:n:n])
}

func isZeros(p []byte) bool {
	a, z := uintptr(unsafe.Pointer(&p[0])), uintptr(unsafe.Pointer(&zeroMap[0]))
	return a >= z && a+uintptr(len(p)) <= z+uintptr(len(zeroMap))
}

// a serialization: bytes, or (b == nil) n zeros
type seg struct {
	b []byte
	n uint64
}
type segs []seg

func (s segs) size() (n uint64) {
	for _, x := range s {
		n += x.n
	}
	return
}

func lit(b ...byte) segs { return segs{{b, uint64(len(b))}} }

// fixed parts (nil for a variable-size part), variable parts
func parts(fixed []segs, vars []segs) (out segs) {
	off := uint64(0)
	for _, f := range fixed {
		if f == nil {
			off += 4
		} else {
			off += f.size()
		}
	}
	k := 0
	for _, f := range fixed {
		if f != nil {
			out = append(out, f...)
			continue
		}
		var o [4]byte
		binary.LittleEndian.PutUint32(o[:], uint32(off))
		out = append(out, seg{o[:], 4})
		off += vars[k].size()
		k++
	}
	for _, v := range vars {
		out = append(out, v...)
	}
	return
}

func encB(b hB) segs { return segs{{nil, uint64(len(b))}} }

func encSeries(s []hB) segs {
	var v []segs
	for _, b := range s {
		v = append(v, encB(b))
	}
	return parts(make([]segs, len(s)), v)
}

type segWriter struct {
	want segs
	pos  uint64 // in want[0]
	n    uint64
	fail string
	left uint64 // bytes accepted before it fails
	dead bool
	more bool
}

func (w *segWriter) Write(p []byte) (int, error) {
	if w.dead {
		w.more = true
		return 0, errBoom
	}
	total := len(p)
	var err error
	if uint64(len(p)) > w.left {
		p, err, w.dead = p[:w.left], errBoom, true
		total = len(p)
	}
	w.left -= uint64(len(p))
	w.n += uint64(len(p))
	for len(p) > 0 && w.fail == "" {
		for len(w.want) > 0 && w.pos == w.want[0].n {
			w.want, w.pos = w.want[1:], 0
		}
		if len(w.want) == 0 {
			w.fail = "more bytes than the serialization has"
			break
		}
		s := w.want[0]
		k := s.n - w.pos
		if k > uint64(len(p)) {
			k = uint64(len(p))
		}
		if s.b != nil {
			if !bytes.Equal(s.b[w.pos:w.pos+k], p[:k]) {
				w.fail = "bytes " + short(p[:k]) + " in place of " + short(s.b[w.pos:w.pos+k])
			}
		} else if !isZeros(p[:k]) {
			for _, x := range p[:k] {
				if x != 0 {
					w.fail = "bytes " + short(p[:k]) + " in place of zeros"
					break
				}
			}
		}
		p, w.pos = p[k:], w.pos+k
	}
	return total, err
}

// reads a serialization; can seek
type segReader struct {
	s   segs
	i   int
	pos uint64
}

func (r *segReader) Read(p []byte) (int, error) {
	for r.i < len(r.s) && r.pos == r.s[r.i].n {
		r.i, r.pos = r.i+1, 0
	}
	if r.i == len(r.s) {
		return 0, io.EOF
	}
	k := r.s[r.i].n - r.pos
	if k > uint64(len(p)) {
		k = uint64(len(p))
	}
	if b := r.s[r.i].b; b != nil {
		copy(p, b[r.pos:r.pos+k])
	} else {
		for i := range p[:k] {
			p[i] = 0
		}
	}
	r.pos += k
	return int(k), nil
}

type segSeeker struct{ segReader }

func (r *segSeeker) Seek(off int64, whence int) (int64, error) {
	if whence != io.SeekCurrent || off < 0 {
		return 0, errors.New("seek")
	}
	for n := uint64(off); n > 0; {
		if r.i == len(r.s) {
			return 0, io.EOF
		}
		k := r.s[r.i].n - r.pos
		if k > n {
			k = n
		}
		n -= k
		r.pos += k
		if r.pos == r.s[r.i].n {
			r.i, r.pos = r.i+1, 0
		}
	}
	return 0, nil
}

var hugeSizes = []uint64{0, 1, 255, 256, 257, 65535, 65536, 65537, 1<<24 - 21, 1 << 24, 1<<24 + 1, 1<<31 - 17, 1 << 31, 1<<31 + 1}

func huge(tr *Trial, prop string) {
	max := uint64(1)<<32 - 100
	if prop == "C02" || prop == "C03" || prop == "C04" && tr.r.Intn(8) != 0 {
		max = 40 << 20 // read into memory
	}
	left := max
	size := func() uint64 {
		n := uint64(tr.r.Intn(6))
		if tr.r.Intn(2) == 0 {
			n = hugeSizes[tr.r.Intn(len(hugeSizes))]
		}
		if tr.r.Intn(12) == 0 {
			n = uint64(tr.r.Int63n(int64(left) + 1))
		}
		if n > left {
			n = uint64(tr.r.Intn(5))
		}
		left -= n
		return n
	}
	series := func(n int) []hB {
		var o []hB
		for i := 0; i < n; i++ {
			o = append(o, zeroB(size()))
		}
		return o
	}
	if zeroB(1) == nil {
		return
	}
	var p reflect.Value
	var want segs
	switch tr.r.Intn(4) {
	case 0:
		v := hV{zeroB(size()), zeroB(size()), zeroB(size())}
		want = encSeries(v[:])
		p = reflect.ValueOf(&v)
	case 1:
		v := hL(series(tr.r.Intn(9)))
		want = encSeries(v)
		p = reflect.ValueOf(&v)
	case 2:
		v := hS{zeroB(size()), 0x1234, zeroB(size()), series(tr.r.Intn(4)), hIn{zeroB(size()), 7}, zeroB(size())}
		in := parts([]segs{nil, lit(7)}, []segs{encB(v.I.P)})
		want = parts([]segs{nil, lit(0x34, 0x12), nil, nil, nil, nil}, []segs{encB(v.A), encB(v.B), encSeries(v.L), in, encB(v.C)})
		p = reflect.ValueOf(&v)
	default:
		v := hF{0xfffefdfc, hV{zeroB(size()), zeroB(size()), zeroB(size())}, series(tr.r.Intn(4))}
		want = parts([]segs{lit(0xfc, 0xfd, 0xfe, 0xff), nil, nil}, []segs{encSeries(v.V[:]), encSeries(v.L)})
		p = reflect.ValueOf(&v)
	}
	total := want.size()
	tr.say("large value, byte lists of zeros: type %s, serialization of %d bytes", p.Type().Elem(), total)
	for _, s := range want {
		if s.b != nil {
			tr.say("bytes %x", s.b)
		} else {
			tr.say("%d zeros", s.n)
		}
	}
	if total >= 1<<32 || total == 0 {
		return
	}
	var err error
	var s types.SSZ
	if try(func() { s = zssz.GetSSZ(p.Interface()) }) != "" {
		return // C15's business
	}
	encode := func(p reflect.Value, left uint64) (*segWriter, int, error) {
		w := &segWriter{want: want, left: left}
		var n int
		tr.must("Encode", func() { n, err = zssz.Encode(w, p.Interface(), s) })
		if w.fail != "" {
			tr.fail("Encode wrote, before byte %d, %s", w.n, w.fail)
		}
		if uint64(n) != w.n {
			tr.fail("%d bytes reported, %d accepted", n, w.n)
		}
		return w, n, err
	}
	switch prop {
	case "C01", "C11":
		left := uint64(1 << 40)
		if prop == "C11" && tr.r.Intn(2) == 0 {
			left = uint64(tr.r.Int63n(int64(total) + 1))
		}
		w, n, err := encode(p, left)
		if w.dead != (err != nil) {
			tr.fail("writer failed: %v, Encode: %v", w.dead, err)
		}
		if w.more {
			tr.fail("writes after the failed one")
		}
		if err == nil && uint64(n) != total {
			tr.fail("%d of %d bytes written", n, total)
		}
	case "C05":
		var n uint64
		tr.must("SizeOf", func() { n = zssz.SizeOf(p.Interface(), s) })
		if n != total {
			tr.fail("SizeOf is %d", n)
		}
		if n < s.MinLen() || n > s.MaxLen() {
			tr.fail("size outside of [MinLen %d, MaxLen %d]", s.MinLen(), s.MaxLen())
		}
	case "C02", "C03", "C04":
		at := tr.r.Intn(len(want))
		bad := tr.r.Intn(2) == 0 && prop != "C02" && want[at].b != nil && len(want[at].b) == 4
		if bad {
			want = append(segs(nil), want...)
			b := append([]byte(nil), want[at].b...)
			b[tr.r.Intn(4)] ^= 1 << uint(tr.r.Intn(8))
			want[at].b = b
			tr.say("part %d changed to %x", at, b)
		}
		if prop == "C04" {
			var e error
			if total > 40<<20 || tr.r.Intn(2) == 0 {
				tr.must("DryCheck", func() { e = zssz.DryCheck(&segSeeker{segReader{s: want}}, total, s) })
			} else {
				tr.must("DryCheck", func() { e = zssz.DryCheck(&segReader{s: want}, total, s) })
			}
			if e != nil && !bad {
				tr.fail("DryCheck: %v", e)
			}
			if max > 40<<20 {
				return
			}
			var e2 error
			d := reflect.New(p.Type().Elem())
			tr.must("Decode", func() { e2 = zssz.Decode(&segReader{s: want}, total, d.Interface(), s) })
			if (e == nil) != (e2 == nil) {
				tr.fail("Decode: %v, DryCheck: %v", e2, e)
			}
			return
		}
		d := reflect.New(p.Type().Elem())
		tr.must("Decode", func() { err = zssz.Decode(&segReader{s: want}, total, d.Interface(), s) })
		if err != nil {
			if !bad {
				tr.fail("Decode of a valid serialization: %v", err)
			}
			return
		}
		w, n, err := encode(d, 1<<40)
		if err != nil || w.dead || uint64(n) != total {
			tr.fail("re-encoding the decoded value: %d bytes, %v", n, err)
		}
	}
}

var bitMap []byte

// bitfields of more than 2^32 bits (and lengths above 2^31 bytes)
func hugeBits(tr *Trial) {
	if bitMap == nil {
		b, err := syscall.Mmap(-1, 0, 1<<31+64, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
		if err != nil {
			return
		}
		bitMap = b
	}
	n := []int{1<<29 + 5, 1<<29 + 77, 1 << 31, 1<<31 + 33}[tr.r.Intn(4)]
	b := bitMap[:n]
	i := uint64(n-1)*8 - uint64(tr.r.Intn(200))
	tr.say("bitfield of %d bytes, bit %d", n, i)
	set := func(k uint64, on bool) {
		if on {
			b[k/8] |= 1 << (k % 8)
		} else {
			b[k/8] &^= 1 << (k % 8)
		}
	}
	near := []uint64{i, i - 8, i + 1, i % (1 << 32), i % (1 << 31), i / 2, uint64(int32(i)) % (uint64(n) * 8)}
	tr.must("SetBit", func() { bitfields.SetBit(b, i, true) })
	for _, k := range near {
		if on := b[k/8]>>(k%8)&1 == 1; on != (k == i) {
			tr.fail("SetBit %d to true: bit %d is %v", i, k, on)
		}
		var got bool
		tr.must("GetBit", func() { got = bitfields.GetBit(b, k) })
		if got != (k == i) {
			tr.fail("GetBit %d is %v", k, got)
		}
	}
	tr.must("SetBit", func() { bitfields.SetBit(b, i, false) })
	if b[i/8] != 0 {
		tr.fail("SetBit %d to false", i)
	}
	d := uint64(tr.r.Intn(8))
	set(uint64(n-1)*8+d, true)
	l := uint64(n-1)*8 + d
	tr.must("bitlist", func() {
		if x := bitfields.BitlistLen(b); x != l {
			tr.fail("BitlistLen %d, should be %d", x, l)
		}
		for _, lim := range []uint64{l - 1, l, l + 1, l % (1 << 32), l - 1<<31, 1 << 50} {
			if err := bitfields.BitlistCheck(b, lim); (err == nil) != (l <= lim) {
				tr.fail("BitlistCheck of %d bits with limit %d: %v", l, lim, err)
			}
		}
		for _, lim := range []uint64{l, l + 1, uint64(n) * 8, (l + 1) % (1 << 32), uint64(n)*8 + 1} {
			if err := bitfields.BitvectorCheck(b, lim); (err == nil) != (lim > l && (lim+7)/8 == uint64(n)) {
				tr.fail("BitvectorCheck of %d bytes, highest bit %d, for %d bits: %v", n, l, lim, err)
			}
		}
	})
	set(l, false)
}
