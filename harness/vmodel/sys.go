package vmodel

import (
	"hash"
	"math/rand"
	"runtime"

	"github.com/hound-search/hound/verifh/verifrt"
)

// ---- math/rand: distinct values ----

var randSeq uint32

//gosym:model math/rand.Seed
func randSeed(n int64) {}

//gosym:model math/rand.Uint32
func randUint32() uint32 { randSeq++; return 0xa0000000 + randSeq }

//gosym:model math/rand.Uint64
func randUint64() uint64 { randSeq++; return 0xa000000000000000 + uint64(randSeq) }

//gosym:model math/rand.Int63
func randInt63() int64 { randSeq++; return 0x1000000000000000 + int64(randSeq) }

//gosym:model math/rand.Int
func randInt() int { randSeq++; return 0x1000000000000000 + int(randSeq) }

var _ = rand.Seed

// ---- runtime ----

//gosym:model runtime.GC
func rtGC() {}

//gosym:model runtime.ReadMemStats
func rtReadMemStats(m *runtime.MemStats) {}

// ---- crypto/sha1 ----

type sha1Digest struct{ b []byte }

func (d *sha1Digest) Write(p []byte) (int, error) { d.b = append(d.b, p...); return len(p), nil }
func (d *sha1Digest) Sum(in []byte) []byte        { return append(in, Sha1Of(d.b)...) }
func (d *sha1Digest) Reset()                      { d.b = nil }
func (d *sha1Digest) Size() int                   { return 20 }
func (d *sha1Digest) BlockSize() int              { return 64 }

// Sha1Of is the hash of b; Hashed lists what was hashed.
func Sha1Of(b []byte) []byte {
	if IdealHash {
		for i, h := range Hashed {
			if verifrt.EqBytes(h, b) {
				return ideal(i)
			}
		}
		Hashed = append(Hashed, append([]byte(nil), b...))
		return ideal(len(Hashed) - 1)
	}
	Hashed = append(Hashed, append([]byte(nil), b...))
	return verifrt.Sha1(b)
}

var Hashed [][]byte

// IdealHash makes different inputs have different hashes, so that inputs may hold symbolic bytes.
var IdealHash bool

func ideal(i int) []byte {
	r := make([]byte, 20)
	r[0], r[1], r[19] = 0xa5, byte(i>>8), byte(i)
	return r
}

//gosym:model crypto/sha1.New
func sha1New() hash.Hash { return &sha1Digest{} }

//gosym:model crypto/sha1.Sum
func sha1Sum(b []byte) [20]byte {
	var r [20]byte
	copy(r[:], Sha1Of(b))
	return r
}
