// Package cipher is an offline stand-in for github.com/skycoin/skycoin/src/cipher
// with the API surface (and the observable contracts) skycoin/cxo uses.
package cipher

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"math/big"
)

type SHA256 [32]byte
type PubKey [33]byte
type SecKey [32]byte
type Sig [65]byte

func SumSHA256(b []byte) SHA256 { return SHA256(sha256.Sum256(b)) }

func (s SHA256) Hex() string { return hex.EncodeToString(s[:]) }
func (p PubKey) Hex() string { return hex.EncodeToString(p[:]) }
func (s SecKey) Hex() string { return hex.EncodeToString(s[:]) }
func (s Sig) Hex() string    { return hex.EncodeToString(s[:]) }

func (s SHA256) String() string { return s.Hex() }

var errInvalid = errors.New("cipher: invalid key or signature")

func NewPubKey(b []byte) (p PubKey, err error) {
	if len(b) != len(p) {
		return p, errInvalid
	}
	copy(p[:], b)
	return
}

func PubKeyFromHex(s string) (p PubKey, err error) {
	var b []byte
	if b, err = hex.DecodeString(s); err != nil {
		return
	}
	if len(b) != len(p) {
		return p, errInvalid
	}
	copy(p[:], b)
	return
}

func (p PubKey) Verify() error {
	if p == (PubKey{}) {
		return errInvalid
	}
	return nil
}

func (s SecKey) Verify() error {
	if s == (SecKey{}) {
		return errInvalid
	}
	return nil
}

func privOf(s SecKey) *ecdsa.PrivateKey {
	var c = elliptic.P256()
	var d = new(big.Int).SetBytes(s[:])
	d.Mod(d, new(big.Int).Sub(c.Params().N, big.NewInt(1)))
	d.Add(d, big.NewInt(1))
	var k = new(ecdsa.PrivateKey)
	k.Curve = c
	k.D = d
	k.X, k.Y = c.ScalarBaseMult(d.Bytes())
	return k
}

func PubKeyFromSecKey(s SecKey) (p PubKey) {
	var k = privOf(s)
	copy(p[:], elliptic.MarshalCompressed(k.Curve, k.X, k.Y))
	return
}

func GenerateKeyPair() (p PubKey, s SecKey) {
	if _, err := rand.Read(s[:]); err != nil {
		panic(err)
	}
	return PubKeyFromSecKey(s), s
}

func GenerateDeterministicKeyPair(seed []byte) (p PubKey, s SecKey, err error) {
	s = SecKey(sha256.Sum256(seed))
	return PubKeyFromSecKey(s), s, nil
}

func SignHash(hash SHA256, sec SecKey) (g Sig, err error) {
	if err = sec.Verify(); err != nil {
		return
	}
	var r, s *big.Int
	if r, s, err = ecdsa.Sign(rand.Reader, privOf(sec), hash[:]); err != nil {
		return
	}
	r.FillBytes(g[0:32])
	s.FillBytes(g[32:64])
	return
}

func VerifyPubKeySignedHash(pk PubKey, sig Sig, hash SHA256) error {
	var c = elliptic.P256()
	var x, y = elliptic.UnmarshalCompressed(c, pk[:])
	if x == nil {
		return errInvalid
	}
	var pub = &ecdsa.PublicKey{Curve: c, X: x, Y: y}
	if !ecdsa.Verify(pub, hash[:], new(big.Int).SetBytes(sig[0:32]), new(big.Int).SetBytes(sig[32:64])) {
		return errInvalid
	}
	return nil
}
