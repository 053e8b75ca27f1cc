// Package drbg replaces crypto/rand.Reader by a deterministic byte stream, so
// that every randomised step of the code under test is a pure function of the
// seed and of the calls made before it, and every execution can be replayed.
package drbg

import (
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"io"
	"sync"
)

type stream struct {
	mu   sync.Mutex
	seed [32]byte
	ctr  uint64
	buf  []byte
}

// Unlocked leaves out the lock (and the happens-before edges it makes), for
// threads that take turns.
var Unlocked bool

func (s *stream) Read(p []byte) (int, error) {
	if Unlocked {
		return s.read(p)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.read(p)
}

//go:norace
func (s *stream) read(p []byte) (int, error) {
	n := len(p)
	for len(p) > 0 {
		if len(s.buf) == 0 {
			var in [40]byte
			copy(in[:], s.seed[:])
			binary.LittleEndian.PutUint64(in[32:], s.ctr)
			s.ctr++
			h := sha256.Sum256(in[:])
			s.buf = append(s.buf[:0], h[:]...)
		}
		k := copy(p, s.buf)
		p = p[k:]
		s.buf = s.buf[k:]
	}
	return n, nil
}

var (
	global           = &stream{}
	real   io.Reader = crand.Reader
)

// Seed makes crypto/rand deterministic from here on.
func Seed(label string) {
	global.mu.Lock()
	global.seed = sha256.Sum256([]byte(label))
	global.ctr = 0
	global.buf = nil
	global.mu.Unlock()
	crand.Reader = global
}

// Restore gives crypto/rand its system source back.
func Restore() { crand.Reader = real }

// Save and Load let a cached context be built without disturbing the stream of
// the execution that asked for it.
type State struct {
	seed [32]byte
	ctr  uint64
	buf  []byte
}

func Save() State {
	global.mu.Lock()
	defer global.mu.Unlock()
	return State{global.seed, global.ctr, append([]byte(nil), global.buf...)}
}

func Load(s State) {
	global.mu.Lock()
	defer global.mu.Unlock()
	global.seed, global.ctr, global.buf = s.seed, s.ctr, append([]byte(nil), s.buf...)
}
