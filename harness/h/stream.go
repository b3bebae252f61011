package h

import (
	"bytes"
	"errors"
	"io"
	"sync"
	"time"

	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/protocol"
)

// Stream is a network.Stream under the control of the harness.
type Stream struct {
	mu       sync.Mutex
	In       *bytes.Reader
	Chunks   []int // sizes of successive reads, cycled
	ReadErr  error // returned when In is exhausted (io.EOF if nil)
	ErrAfter bool  // return the error together with the last bytes
	FailRead int   // fail (with ReadErr) after that many bytes; <0 never
	Out      bytes.Buffer
	FailAt   int  // the write that would pass this offset fails; <0 never
	Short    bool // ...with io.ErrShortWrite
	DeadErr  bool // SetDeadline fails
	Resets   int
	OnReset  func()
	BadReset bool // Reset returns an error
	ci, read int
}

// NewStream returns a stream that delivers in and accepts everything.
func NewStream(in []byte) *Stream { return &Stream{In: bytes.NewReader(in), FailAt: -1, FailRead: -1} }

var errStream = errors.New("injected stream failure")

func (s *Stream) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	end := func() error {
		if s.ReadErr != nil {
			return s.ReadErr
		}
		return io.EOF
	}
	n := len(p)
	if len(s.Chunks) > 0 {
		c := s.Chunks[s.ci%len(s.Chunks)]
		s.ci++
		if c < n {
			n = c
		}
	}
	if s.FailRead >= 0 {
		if left := s.FailRead - s.read; left <= 0 {
			return 0, errStream
		} else if n > left {
			n = left
		}
	}
	if s.In.Len() == 0 {
		return 0, end()
	}
	if n > s.In.Len() {
		n = s.In.Len()
	}
	k, _ := s.In.Read(p[:n])
	s.read += k
	if s.ErrAfter && s.In.Len() == 0 {
		return k, end()
	}
	return k, nil
}

func (s *Stream) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.FailAt >= 0 && s.Out.Len()+len(p) > s.FailAt {
		k := s.FailAt - s.Out.Len()
		if k < 0 {
			k = 0
		}
		s.Out.Write(p[:k])
		if s.Short {
			return k, io.ErrShortWrite
		}
		return k, errStream
	}
	return s.Out.Write(p)
}

func (s *Stream) dl() error {
	if s.DeadErr {
		return errStream
	}
	return nil
}
func (s *Stream) CloseWrite() error { return nil }
func (s *Stream) CloseRead() error  { return nil }
func (s *Stream) Close() error      { return nil }
func (s *Stream) Reset() error {
	s.mu.Lock()
	s.Resets++
	f, bad := s.OnReset, s.BadReset
	s.mu.Unlock()
	if f != nil {
		f()
	}
	if bad {
		return errStream
	}
	return nil
}

// ResetCount returns how often the stream was reset.
func (s *Stream) ResetCount() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.Resets
}
func (s *Stream) SetDeadline(time.Time) error      { return s.dl() }
func (s *Stream) SetReadDeadline(time.Time) error  { return s.dl() }
func (s *Stream) SetWriteDeadline(time.Time) error { return s.dl() }
func (s *Stream) Protocol() protocol.ID            { return "/p2p/tss" }
func (s *Stream) SetProtocol(protocol.ID)          {}
func (s *Stream) Stat() network.Stat               { return network.Stat{} }
func (s *Stream) Conn() network.Conn               { return nil }
func (s *Stream) ID() string                       { return "verif" }
