// Package twin: types with the same names as in the other package twin.
package twin

type Items []uint32

func (*Items) Limit() uint64 { return 40 }

type Bits [2]byte

func (*Bits) BitLen() uint64 { return 16 }

type BitItems []byte

func (*BitItems) Limit() uint64  { return 300 }
func (*BitItems) BitLen() uint64 { return 0 }

type Inner struct {
	B uint64
	A uint16
}

type Block struct {
	X Inner
	B Bits
	I Items `ssz:"omit"`
	Y [3]Inner
}

func Local() interface{} {
	type Item struct {
		A uint32
		L Items
		Z Inner
	}
	return Item{}
}
