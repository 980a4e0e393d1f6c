package main

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"io"
)

// source replaces the process's random source: a reproducible stream that can return short reads, fail after a
// number of bytes, or run dry.  It counts what was handed out.
type source struct {
	old    io.Reader
	seed   []byte
	pos    int  // bytes handed out so far
	limit  int  // fails when so many bytes were handed out; negative: never
	chunk  int  // most bytes per read; 0: no bound
	eof    bool // runs dry (io.EOF) rather than failing
	after  bool // fails together with the last bytes
	failed int  // how often it failed
	once   bool // recovers after it failed
	cut    int  // where it first failed since the last call; -1: it did not
	zero   int  // every zero-th read returns 0, nil
	reads  int
	data   []byte
}

var errSource = errors.New("random source failed")

func (s *source) err() error {
	s.failed++
	if s.cut < 0 {
		s.cut = s.pos
	}
	if s.once {
		s.limit = -1
	}
	if s.eof {
		return io.EOF
	}
	return errSource
}

func (s *source) at(n int) byte {
	for len(s.data) <= n {
		h := sha256.New()
		h.Write(s.seed)
		_ = binary.Write(h, binary.BigEndian, uint32(len(s.data)/32))
		s.data = h.Sum(s.data)
	}
	return s.data[n]
}

func (s *source) Read(p []byte) (int, error) {
	s.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if s.zero > 0 && s.reads%s.zero == 0 {
		return 0, nil
	}
	n := len(p)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	if s.limit >= 0 && s.pos+n > s.limit {
		n = s.limit - s.pos
	}
	for i := 0; i < n; i++ {
		p[i] = s.at(s.pos + i)
	}
	s.pos += n
	if s.limit >= 0 && s.pos >= s.limit && (n == 0 || s.after) {
		return n, s.err()
	}
	return n, nil
}

func (s *source) uninstall() { rand.Reader = s.old }

func (w *world) setSource(e ev) {
	if w.src != nil {
		w.src.uninstall()
	}
	s := &source{old: rand.Reader, seed: unhex(str(e, "b")), limit: num(e, "limit"), chunk: num(e, "chunk"), eof: flag(e, "eof"),
		after: flag(e, "after"), zero: num(e, "zero"), once: flag(e, "once"), cut: -1}
	w.src = s
	rand.Reader = s
}

// sourceOut records how much of the stream was used by the end of the call, and the failures so far.
func (w *world) sourceOut(out ev) {
	if w.src != nil {
		out["pos"], out["failed"] = w.src.pos, w.src.failed
		if w.src.cut >= 0 {
			out["cut"] = w.src.cut
		}
		w.src.cut = -1
	}
}
