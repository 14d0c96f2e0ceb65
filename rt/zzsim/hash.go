package zzsim

import "encoding/binary"

// hash/maphash and crypto/rand, with the simulator's randomness.

var initRand = NewRand(1)

// InitSeed decides the random numbers that packages draw while they are
// initialized.
func InitSeed(s uint64) { initRand = NewRand(s) }

func draw() uint64 {
	if !active {
		return initRand.Uint64()
	}
	return rrand().Uint64()
}

// HashSeed replaces maphash.Seed.
type HashSeed struct{ s uint64 }

func MakeSeed() HashSeed { return HashSeed{draw() | 1} }

// Hash replaces maphash.Hash.
type Hash struct {
	seed HashSeed
	h    uint64
	any  bool
}

func (h *Hash) start() {
	if h.seed.s == 0 {
		h.seed = MakeSeed()
	}
	if !h.any {
		h.h, h.any = h.seed.s*0x9E3779B97F4A7C15^14695981039346656037, true
	}
}
func (h *Hash) Write(b []byte) (int, error) {
	h.start()
	for _, c := range b {
		h.h = (h.h ^ uint64(c)) * 0x100000001b3
	}
	return len(b), nil
}
func (h *Hash) WriteString(s string) (int, error) { return h.Write([]byte(s)) }
func (h *Hash) WriteByte(c byte) error            { h.Write([]byte{c}); return nil }
func (h *Hash) Seed() HashSeed                    { h.start(); return h.seed }
func (h *Hash) SetSeed(s HashSeed)                { h.seed, h.any = s, false }
func (h *Hash) Reset()                            { h.any = false }
func (h *Hash) Sum64() uint64 {
	h.start()
	x := h.h
	x ^= x >> 32
	x *= 0xd6e8feb86659fd93
	return x ^ x>>29
}
func (h *Hash) Sum(b []byte) []byte { return binary.BigEndian.AppendUint64(b, h.Sum64()) }
func (h *Hash) Size() int           { return 8 }
func (h *Hash) BlockSize() int      { return 128 }

func HashBytes(s HashSeed, b []byte) uint64 {
	h := Hash{seed: s}
	h.Write(b)
	return h.Sum64()
}
func HashString(s HashSeed, b string) uint64 { return HashBytes(s, []byte(b)) }

// CryptoRead replaces crypto/rand.Read.
func CryptoRead(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(draw() >> 24)
	}
	return len(b), nil
}

func RandUint64() uint64       { return draw() }
func RandUint32() uint32       { return uint32(draw() >> 32) }
func RandInt31() int32         { return int32(draw() >> 33) }
func RandInt31n(n int32) int32 { return int32(RandIntn(int(n))) }
func RandInt63n(n int64) int64 { return int64(draw()>>1) % n }
func RandInt64() int64         { return int64(draw() >> 1) }
