// Package rlp stands in for the RLP runtime that generated code uses; the repository has none. It follows the
// documented behaviour of that runtime: canonical encodings only, lists read with List, MoreDataInList and ListEnd.
package rlp

import (
	"errors"
	"io"
	"math/big"
)

type Encoder interface{ EncodeRLP(io.Writer) error }
type Decoder interface{ DecodeRLP(*Stream) error }

// RawValue is an encoded item.
type RawValue []byte

var (
	ErrNegativeBigInt = errors.New("rlp: cannot encode negative big.Int")
	EmptyString       = []byte{0x80}
	EmptyList         = []byte{0xC0}
	errInput          = errors.New("rlp: bad input")
	EOL               = errors.New("rlp: end of list")
)

type buffer struct {
	b []byte
}

// EncoderBuffer collects output.
type EncoderBuffer struct {
	buf *buffer
	dst io.Writer
}

// NewEncoderBuffer makes a buffer; on an EncoderBuffer it continues that one.
func NewEncoderBuffer(dst io.Writer) EncoderBuffer {
	if w, ok := dst.(EncoderBuffer); ok {
		return EncoderBuffer{w.buf, nil}
	}
	return EncoderBuffer{&buffer{}, dst}
}

func (w EncoderBuffer) Flush() error {
	if w.dst == nil {
		return nil
	}
	_, err := w.dst.Write(w.buf.b)
	return err
}

func (w EncoderBuffer) Write(p []byte) (int, error) {
	w.buf.b = append(w.buf.b, p...)
	return len(p), nil
}

func minimal(n uint64) (b []byte) {
	for ; n > 0; n >>= 8 {
		b = append([]byte{byte(n)}, b...)
	}
	return b
}

func header(base byte, n int) []byte {
	if n < 56 {
		return []byte{base + byte(n)}
	}
	s := minimal(uint64(n))
	return append([]byte{base + 55 + byte(len(s))}, s...)
}

func (w EncoderBuffer) WriteBytes(p []byte) {
	if len(p) == 1 && p[0] < 0x80 {
		w.buf.b = append(w.buf.b, p[0])
		return
	}
	w.buf.b = append(append(w.buf.b, header(0x80, len(p))...), p...)
}
func (w EncoderBuffer) WriteString(s string)   { w.WriteBytes([]byte(s)) }
func (w EncoderBuffer) WriteUint64(n uint64)   { w.WriteBytes(minimal(n)) }
func (w EncoderBuffer) WriteBigInt(n *big.Int) { w.WriteBytes(n.Bytes()) }
func (w EncoderBuffer) WriteBool(b bool) {
	if b {
		w.WriteUint64(1)
	} else {
		w.WriteUint64(0)
	}
}

// List opens a list; ListEnd closes it.
func (w EncoderBuffer) List() int { return len(w.buf.b) }
func (w EncoderBuffer) ListEnd(at int) {
	body := append([]byte(nil), w.buf.b[at:]...)
	w.buf.b = append(append(w.buf.b[:at], header(0xC0, len(body))...), body...)
}

type Kind int8

const (
	Byte Kind = iota
	String
	List
)

// Stream reads items.
type Stream struct {
	b    []byte
	p    int
	ends []int
}

func NewStream(b []byte) *Stream { return &Stream{b: b} }

// Rest gives the number of bytes that were not read.
func (s *Stream) Rest() int { return len(s.b) - s.p }

func (s *Stream) end() int {
	if n := len(s.ends); n > 0 {
		return s.ends[n-1]
	}
	return len(s.b)
}

// head gives kind, start and size of the content of the next item.
func (s *Stream) head() (k Kind, start, size int, err error) {
	end := s.end()
	if s.p >= end {
		if len(s.ends) > 0 {
			return 0, 0, 0, EOL
		}
		return 0, 0, 0, io.EOF
	}
	c := s.b[s.p]
	if c < 0x80 {
		return Byte, s.p, 1, nil
	}
	k = String
	if c >= 0xC0 {
		k = List
		c -= 0x40
	}
	start, size = s.p+1, int(c-0x80)
	if size > 55 {
		n := size - 55
		if s.p+1+n > end {
			return 0, 0, 0, io.ErrUnexpectedEOF
		}
		start, size = s.p+1+n, 0
		for _, x := range s.b[s.p+1 : start] {
			if size > 1<<30 {
				return 0, 0, 0, errInput
			}
			size = size<<8 + int(x)
		}
		if s.b[s.p+1] == 0 || size < 56 {
			return 0, 0, 0, errInput
		}
	}
	if start+size > end {
		return 0, 0, 0, errInput
	}
	return k, start, size, nil
}

// Kind gives the kind and size of the next item; a single byte below 128 has size zero.
func (s *Stream) Kind() (Kind, uint64, error) {
	k, _, size, err := s.head()
	if k == Byte {
		size = 0
	}
	return k, uint64(size), err
}

func (s *Stream) List() (uint64, error) {
	k, start, size, err := s.head()
	if err != nil {
		return 0, err
	}
	if k != List {
		return 0, errInput
	}
	s.p = start
	s.ends = append(s.ends, start+size)
	return uint64(size), nil
}

func (s *Stream) ListEnd() error {
	if len(s.ends) == 0 || s.p != s.end() {
		return errInput
	}
	s.ends = s.ends[:len(s.ends)-1]
	return nil
}

func (s *Stream) MoreDataInList() bool { return len(s.ends) > 0 && s.p < s.end() }

func (s *Stream) Bytes() ([]byte, error) {
	k, start, size, err := s.head()
	if err != nil {
		return nil, err
	}
	if k == List {
		return nil, errInput
	}
	b := append([]byte{}, s.b[start:start+size]...)
	if k == String && size == 1 && b[0] < 0x80 {
		return nil, errInput
	}
	s.p = start + size
	return b, nil
}

func (s *Stream) String() (string, error) {
	b, err := s.Bytes()
	return string(b), err
}

func (s *Stream) ReadBytes(dst []byte) error {
	p := s.p
	b, err := s.Bytes()
	if err != nil {
		return err
	}
	if len(b) != len(dst) {
		s.p = p
		return errInput
	}
	copy(dst, b)
	return nil
}

func (s *Stream) integer(max int) ([]byte, error) {
	p := s.p
	b, err := s.Bytes()
	if err != nil {
		return nil, err
	}
	if len(b) > max || len(b) > 0 && b[0] == 0 {
		s.p = p
		return nil, errInput
	}
	return b, nil
}

func (s *Stream) uint(max int) (n uint64, err error) {
	b, err := s.integer(max)
	for _, x := range b {
		n = n<<8 + uint64(x)
	}
	return n, err
}

func (s *Stream) Uint64() (uint64, error) { return s.uint(8) }
func (s *Stream) Uint32() (uint32, error) { n, err := s.uint(4); return uint32(n), err }
func (s *Stream) Uint16() (uint16, error) { n, err := s.uint(2); return uint16(n), err }
func (s *Stream) Uint8() (uint8, error)   { n, err := s.uint(1); return uint8(n), err }

func (s *Stream) Bool() (bool, error) {
	n, err := s.uint(1)
	if err == nil && n > 1 {
		err = errInput
	}
	return n == 1, err
}

func (s *Stream) BigInt() (*big.Int, error) {
	b, err := s.integer(1 << 30)
	if err != nil {
		return nil, err
	}
	return new(big.Int).SetBytes(b), nil
}

func (s *Stream) Raw() ([]byte, error) {
	_, start, size, err := s.head()
	if err != nil {
		return nil, err
	}
	b := append([]byte{}, s.b[s.p:start+size]...)
	s.p = start + size
	return b, nil
}
