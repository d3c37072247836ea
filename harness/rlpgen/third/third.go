// Package third has more types for generated code.
package third

// Hash is a byte array.
type Hash [32]byte

// Pair is a struct.
type Pair struct {
	A uint32
	B []string
}
