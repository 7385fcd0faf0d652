// Package uuid is a deterministic stand-in for github.com/google/uuid.
package uuid

import (
	"errors"
	"fmt"

	"verif/vrt"
)

type UUID [16]byte

var Nil UUID

func New() UUID                { return UUID(vrt.UUID()) }
func NewString() string        { return New().String() }
func NewRandom() (UUID, error) { return New(), nil }
func NewUUID() (UUID, error)   { return New(), nil }
func NewV7() (UUID, error)     { return New(), nil }
func Must(u UUID, err error) UUID {
	if err != nil {
		panic(err)
	}
	return u
}
func (u UUID) String() string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", u[0:4], u[4:6], u[6:8], u[8:10], u[10:16])
}
func Parse(s string) (UUID, error) {
	var u UUID
	h := ""
	for _, r := range s {
		if r != '-' {
			h += string(r)
		}
	}
	if len(h) != 32 {
		return u, errors.New("invalid UUID length")
	}
	for i := 0; i < 16; i++ {
		if _, err := fmt.Sscanf(h[2*i:2*i+2], "%02x", &u[i]); err != nil {
			return Nil, err
		}
	}
	return u, nil
}
func MustParse(s string) UUID { return Must(Parse(s)) }
