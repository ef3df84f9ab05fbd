// Package twin: types with the same names as in the other package twin.
package twin

type Items []uint16

func (*Items) Limit() uint64 { return 6 }

type Bits [2]byte

func (*Bits) BitLen() uint64 { return 11 }

type BitItems []byte

func (*BitItems) Limit() uint64  { return 12 }
func (*BitItems) BitLen() uint64 { return 0 }

type Inner struct {
	A uint16
	B uint64
}

type Block struct {
	X Inner
	I Items
	Y [3]Inner
	B Bits
}

func Local() interface{} {
	type Item struct {
		A uint8
		L Items
	}
	return Item{}
}
