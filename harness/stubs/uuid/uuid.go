// Package uuid is a stand-in for github.com/satori/go.uuid: version-4 shaped
// identifiers from a process-wide counter, so runs stay deterministic.
package uuid

import (
	"crypto/md5"
	"crypto/sha1"
	"fmt"
	"sync/atomic"
)

type UUID [16]byte

var Nil = UUID{}
var ctr uint64

func next() (u UUID) {
	n := atomic.AddUint64(&ctr, 1)
	x := n * 0x9e3779b97f4a7c15
	for i := 0; i < 8; i++ {
		u[i] = byte(x >> (8 * i))
		u[8+i] = byte(n >> (8 * (7 - i)))
	}
	u[6] = u[6]&0x0f | 0x40
	u[8] = u[8]&0x3f | 0x80
	return u
}

var (
	NamespaceDNS  = UUID{0x6b, 0xa7, 0xb8, 0x10, 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0x00, 0xc0, 0x4f, 0xd4, 0x30, 0xc8}
	NamespaceURL  = UUID{0x6b, 0xa7, 0xb8, 0x11, 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0x00, 0xc0, 0x4f, 0xd4, 0x30, 0xc8}
	NamespaceOID  = UUID{0x6b, 0xa7, 0xb8, 0x12, 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0x00, 0xc0, 0x4f, 0xd4, 0x30, 0xc8}
	NamespaceX500 = UUID{0x6b, 0xa7, 0xb8, 0x14, 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0x00, 0xc0, 0x4f, 0xd4, 0x30, 0xc8}
)

func NewV1() UUID { return next() }
func NewV4() UUID { return next() }

func NewV3(ns UUID, name string) UUID {
	return named(md5.Sum(append(ns[:], name...)), 3)
}

func NewV5(ns UUID, name string) UUID {
	s := sha1.Sum(append(ns[:], name...))
	var u UUID
	copy(u[:], s[:])
	return named(u, 5)
}

func named(u UUID, version byte) UUID {
	u[6] = u[6]&0x0f | version<<4
	u[8] = u[8]&0x3f | 0x80
	return u
}

func (u UUID) String() string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", u[0:4], u[4:6], u[6:8], u[8:10], u[10:])
}
func (u UUID) Bytes() []byte { return u[:] }
func Equal(a, b UUID) bool   { return a == b }
