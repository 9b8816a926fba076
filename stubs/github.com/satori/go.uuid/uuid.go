// Package uuid is an offline stand-in for github.com/satori/go.uuid.
package uuid

import (
	"crypto/md5"
	"crypto/rand"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"strings"
)

type UUID [16]byte

var (
	Nil           = UUID{}
	NamespaceDNS  = mustParse("6ba7b810-9dad-11d1-80b4-00c04fd430c8")
	NamespaceURL  = mustParse("6ba7b811-9dad-11d1-80b4-00c04fd430c8")
	NamespaceOID  = mustParse("6ba7b812-9dad-11d1-80b4-00c04fd430c8")
	NamespaceX500 = mustParse("6ba7b814-9dad-11d1-80b4-00c04fd430c8")
)

func (u UUID) String() string {
	return fmt.Sprintf("%x-%x-%x-%x-%x", u[0:4], u[4:6], u[6:8], u[8:10], u[10:16])
}

func (u UUID) Bytes() []byte { return u[:] }

func (u UUID) MarshalText() ([]byte, error) { return []byte(u.String()), nil }

func Equal(a, b UUID) bool { return a == b }

func (u *UUID) mark(version byte) {
	u[6] = u[6]&0x0f | version<<4
	u[8] = u[8]&0x3f | 0x80
}

func NewV4() UUID {
	var u UUID
	if _, err := rand.Read(u[:]); err != nil {
		panic(err)
	}
	u.mark(4)
	return u
}

// NewV1 and NewV2 have the same uniqueness guarantee here.
func NewV1() UUID {
	u := NewV4()
	u.mark(1)
	return u
}

func NewV2(domain byte) UUID {
	u := NewV4()
	u[9] = domain
	u.mark(2)
	return u
}

// NewV3 and NewV5 are the same for the same name.
func NewV3(ns UUID, name string) UUID {
	var u UUID
	h := md5.Sum(append(ns[:], name...))
	copy(u[:], h[:])
	u.mark(3)
	return u
}

func NewV5(ns UUID, name string) UUID {
	var u UUID
	h := sha1.Sum(append(ns[:], name...))
	copy(u[:], h[:])
	u.mark(5)
	return u
}

func FromBytes(b []byte) (u UUID, err error) {
	if len(b) != 16 {
		return u, fmt.Errorf("uuid: UUID must be exactly 16 bytes long, got %d bytes", len(b))
	}
	copy(u[:], b)
	return u, nil
}

func FromString(s string) (u UUID, err error) {
	b, err := hex.DecodeString(strings.Replace(s, "-", "", -1))
	if err != nil {
		return u, err
	}
	return FromBytes(b)
}

func Must(u UUID, err error) UUID {
	if err != nil {
		panic(err)
	}
	return u
}

func mustParse(s string) UUID { return Must(FromString(s)) }
