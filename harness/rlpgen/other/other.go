// Package other holds types used from another package.
package other

type Addr [20]byte

type Rec struct {
	A uint64
	B string
}

type Opt struct {
	A uint16
	B []byte `rlp:"optional"`
}
