// Package cipher is an offline stand-in for github.com/skycoin/skycoin/src/cipher.
//
// SHA256 is the real SHA-256. Key pairs and signatures are symbolic: a public
// key is a one-way function of the secret key, and a signature is a one-way
// function of (public key, hash). Nothing in the verification machinery ever
// calls the functions that would let it forge one, so for the code under test
// it behaves as an ideal signature scheme; it is deterministic and fast, which
// exhaustive exploration needs.
package cipher

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"log"
	"sync/atomic"
)

// PubKey is a public key
type PubKey [33]byte

// SecKey is a secret key
type SecKey [32]byte

// Sig is a signature
type Sig [65]byte

// SHA256 is a hash
type SHA256 [32]byte

// errors
var (
	ErrInvalidLengthPubKey = errors.New("Invalid public key length")
	ErrInvalidPubKey       = errors.New("Invalid public key")
	ErrInvalidLengthSecKey = errors.New("Invalid secret key length")
	ErrInvalidSecKey       = errors.New("Invalid public key")
	ErrInvalidLengthSig    = errors.New("Invalid signature length")
	ErrInvalidSig          = errors.New("Invalid signature")
	ErrInvalidLengthSHA256 = errors.New("Invalid sha256 length")
	ErrInvalidHexLength    = errors.New("Invalid hex length")
)

// DebugLevel1 and DebugLevel2 of the original
var (
	DebugLevel1 = false
	DebugLevel2 = false
)

func h(parts ...[]byte) (x [32]byte) {
	s := sha256.New()
	for _, p := range parts {
		s.Write(p)
	}
	s.Sum(x[:0])
	return
}

// NewPubKey from bytes
func NewPubKey(b []byte) (p PubKey, err error) {
	if len(b) != len(p) {
		return p, ErrInvalidLengthPubKey
	}
	copy(p[:], b)
	return
}

// MustNewPubKey panics on a wrong length
func MustNewPubKey(b []byte) PubKey {
	p, err := NewPubKey(b)
	if err != nil {
		log.Panic(err)
	}
	return p
}

// PubKeyFromHex decodes and verifies
func PubKeyFromHex(s string) (p PubKey, err error) {
	b, err := hex.DecodeString(s)
	if err != nil {
		return PubKey{}, ErrInvalidPubKey
	}
	if len(b) != len(p) {
		return PubKey{}, ErrInvalidLengthPubKey
	}
	copy(p[:], b)
	return p, p.Verify()
}

// MustPubKeyFromHex panics on error
func MustPubKeyFromHex(s string) PubKey {
	p, err := PubKeyFromHex(s)
	if err != nil {
		log.Panic(err)
	}
	return p
}

// PubKeyFromSecKey derives
func PubKeyFromSecKey(s SecKey) (p PubKey, err error) {
	if s == (SecKey{}) {
		return p, errors.New("Attempt to load null seckey, unsafe")
	}
	x := h([]byte("pub"), s[:])
	p[0] = 2 + x[0]&1
	copy(p[1:], x[:])
	return
}

// MustPubKeyFromSecKey derives
func MustPubKeyFromSecKey(s SecKey) PubKey {
	p, err := PubKeyFromSecKey(s)
	if err != nil {
		log.Panic(err)
	}
	return p
}

// Verify checks that the key looks like a compressed point
func (p PubKey) Verify() error {
	if p[0] != 2 && p[0] != 3 {
		return ErrInvalidPubKey
	}
	return nil
}

// Null reports whether the key is blank
func (p PubKey) Null() bool { return p == PubKey{} }

// Hex string
func (p PubKey) Hex() string { return hex.EncodeToString(p[:]) }

// String is Hex
func (p PubKey) String() string { return p.Hex() }

// NewSecKey from bytes
func NewSecKey(b []byte) (s SecKey, err error) {
	if len(b) != len(s) {
		return s, ErrInvalidLengthSecKey
	}
	copy(s[:], b)
	return
}

// MustNewSecKey panics on a wrong length
func MustNewSecKey(b []byte) SecKey {
	s, err := NewSecKey(b)
	if err != nil {
		log.Panic(err)
	}
	return s
}

// SecKeyFromHex decodes
func SecKeyFromHex(x string) (s SecKey, err error) {
	b, err := hex.DecodeString(x)
	if err != nil {
		return SecKey{}, ErrInvalidSecKey
	}
	if len(b) != len(s) {
		return SecKey{}, ErrInvalidLengthSecKey
	}
	copy(s[:], b)
	return
}

// MustSecKeyFromHex panics on error
func MustSecKeyFromHex(x string) SecKey {
	s, err := SecKeyFromHex(x)
	if err != nil {
		log.Panic(err)
	}
	return s
}

// Verify a secret key
func (s SecKey) Verify() error {
	if s == (SecKey{}) || bytes.Compare(s[:], order) >= 0 {
		return ErrInvalidSecKey
	}
	return nil
}

// Null reports whether the key is blank
func (s SecKey) Null() bool { return s == SecKey{} }

// Hex string
func (s SecKey) Hex() string { return hex.EncodeToString(s[:]) }

// String is Hex
func (s SecKey) String() string { return s.Hex() }

// NewSig from bytes
func NewSig(b []byte) (s Sig, err error) {
	if len(b) != len(s) {
		return s, ErrInvalidLengthSig
	}
	copy(s[:], b)
	return
}

// MustNewSig panics on a wrong length
func MustNewSig(b []byte) Sig {
	s, err := NewSig(b)
	if err != nil {
		log.Panic(err)
	}
	return s
}

// SigFromHex decodes
func SigFromHex(x string) (s Sig, err error) {
	b, err := hex.DecodeString(x)
	if err != nil {
		return Sig{}, ErrInvalidSig
	}
	if len(b) != len(s) {
		return Sig{}, ErrInvalidLengthSig
	}
	copy(s[:], b)
	return
}

// MustSigFromHex panics on error
func MustSigFromHex(x string) Sig {
	s, err := SigFromHex(x)
	if err != nil {
		log.Panic(err)
	}
	return s
}

// Hex string
func (s Sig) Hex() string { return hex.EncodeToString(s[:]) }

// String is Hex
func (s Sig) String() string { return s.Hex() }

// Null reports whether the signature is blank
func (s Sig) Null() bool { return s == Sig{} }

func sign(p PubKey, hash SHA256) (s Sig) {
	a := h([]byte("sig-a"), p[:], hash[:])
	b := h([]byte("sig-b"), p[:], hash[:])
	copy(s[:32], a[:])
	copy(s[32:64], b[:])
	return
}

// SignHash signs
func SignHash(hash SHA256, sec SecKey) (Sig, error) {
	if err := sec.Verify(); err != nil {
		return Sig{}, err
	}
	return sign(MustPubKeyFromSecKey(sec), hash), nil
}

// MustSignHash signs
func MustSignHash(hash SHA256, sec SecKey) Sig {
	s, err := SignHash(hash, sec)
	if err != nil {
		log.Panic(err)
	}
	return s
}

// VerifyPubKeySignedHash verifies
func VerifyPubKeySignedHash(pubkey PubKey, sig Sig, hash SHA256) error {
	if err := pubkey.Verify(); err != nil {
		return err
	}
	if s := sign(pubkey, hash); !bytes.Equal(s[:], sig[:]) {
		return errors.New("Signature not valid for hash")
	}
	return nil
}

// VerifySignature is the old name of VerifyPubKeySignedHash
func VerifySignature(pubkey PubKey, sig Sig, hash SHA256) error {
	return VerifyPubKeySignedHash(pubkey, sig, hash)
}

var keyCounter uint64

// GenerateKeyPair makes a fresh pair (unique within the process)
func GenerateKeyPair() (PubKey, SecKey) {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], atomic.AddUint64(&keyCounter, 1))
	s := SecKey(h([]byte("gen"), b[:]))
	return MustPubKeyFromSecKey(s), s
}

// GenerateDeterministicKeyPair from a seed
func GenerateDeterministicKeyPair(seed []byte) (PubKey, SecKey, error) {
	if len(seed) == 0 {
		return PubKey{}, SecKey{}, errors.New("Seed input is empty")
	}
	s := SecKey(h([]byte("det"), seed))
	return MustPubKeyFromSecKey(s), s, nil
}

// MustGenerateDeterministicKeyPair from a seed
func MustGenerateDeterministicKeyPair(seed []byte) (PubKey, SecKey) {
	p, s, err := GenerateDeterministicKeyPair(seed)
	if err != nil {
		log.Panic(err)
	}
	return p, s
}

// SumSHA256 of bytes
func SumSHA256(b []byte) SHA256 { return SHA256(sha256.Sum256(b)) }

// DoubleSHA256 of bytes
func DoubleSHA256(b []byte) SHA256 {
	x := SumSHA256(b)
	return SumSHA256(x[:])
}

// AddSHA256 of two hashes
func AddSHA256(a, b SHA256) SHA256 { return SumSHA256(append(a[:], b[:]...)) }

// SHA256FromHex decodes
func SHA256FromHex(s string) (x SHA256, err error) {
	b, err := hex.DecodeString(s)
	if err != nil {
		return SHA256{}, err
	}
	if len(b) != len(x) {
		return SHA256{}, ErrInvalidHexLength
	}
	copy(x[:], b)
	return
}

// MustSHA256FromHex panics on error
func MustSHA256FromHex(s string) SHA256 {
	x, err := SHA256FromHex(s)
	if err != nil {
		log.Panic(err)
	}
	return x
}

// SHA256FromBytes copies
func SHA256FromBytes(b []byte) (x SHA256, err error) {
	if len(b) != len(x) {
		return SHA256{}, ErrInvalidLengthSHA256
	}
	copy(x[:], b)
	return
}

// Set panics on a wrong length
func (g *SHA256) Set(b []byte) {
	if len(b) != len(g) {
		log.Panic("Invalid sha256 length")
	}
	copy(g[:], b)
}

// Hex string
func (g SHA256) Hex() string { return hex.EncodeToString(g[:]) }

// String is Hex
func (g SHA256) String() string { return g.Hex() }

// Null reports whether the hash is blank
func (g SHA256) Null() bool { return g == SHA256{} }

// Xor of two hashes
func (g *SHA256) Xor(b SHA256) (x SHA256) {
	for i := range g {
		x[i] = g[i] ^ b[i]
	}
	return
}

// order of the group of secp256k1
var order, _ = hex.DecodeString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
