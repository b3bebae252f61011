package c13

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"testing"
	"time"

	"gitlab.com/thorchain/tss/go-tss/p2p"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func payload(rt *rapid.T) []byte {
	sizes := []int{0, 1, 2, 3, 4, 5, 255, 256, 4087, 4088, 4091, 4092, 4093, 4095, 4096, 4097, 8187, 8192, 65531, 65535, 65536, 65537}
	var n int
	switch rapid.IntRange(0, 9).Draw(rt, "sizeKind") {
	case 0, 1, 2, 3:
		n = rapid.SampledFrom(sizes).Draw(rt, "size")
	case 9:
		n = rapid.IntRange(0, 300000).Draw(rt, "size")
	default:
		n = rapid.IntRange(0, 9000).Draw(rt, "size")
	}
	b := make([]byte, n)
	rand.New(rand.NewSource(rapid.Int64().Draw(rt, "content"))).Read(b)
	if rapid.IntRange(0, 5).Draw(rt, "zeros") == 0 {
		for i := range b {
			b[i] = 0
		}
	}
	return b
}

func chunks(rt *rapid.T) []int {
	return rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 8), rapid.IntRange(1, 5000), rapid.IntRange(5000, 200000)), 0, 8).Draw(rt, "chunks")
}

func frame(b []byte) []byte {
	out := make([]byte, 4, 4+len(b))
	binary.LittleEndian.PutUint32(out, uint32(len(b)))
	return append(out, b...)
}

func TestC13RoundTrip(t *testing.T) {
	h.Rule("C13 round trip: payload sizes at header/buffer/64K boundaries and random up to 300 KB, random or all-zero content, generated read chunking, trailing bytes (noise or another frame), EOF together with the last bytes or after them, with and without deadlines; the bytes written by the writer are fed to the reader; non-trivial: payload not empty")
	h.Check(t, 1200, 40000, 25*time.Second, 8*time.Minute, func(rt *rapid.T) {
		p2p.ApplyDeadline = rapid.Bool().Draw(rt, "deadline")
		msg := payload(rt)
		orig := append([]byte(nil), msg...)
		w := h.NewStream(nil)
		if err := p2p.WriteStreamWithBuffer(msg, w); err != nil {
			rt.Fatalf("write of %d bytes failed: %v", len(msg), err)
		}
		if !bytes.Equal(msg, orig) {
			rt.Fatalf("the writer changed the caller's payload")
		}
		in := append([]byte(nil), w.Out.Bytes()...)
		trail := rapid.SampledFrom([]string{"none", "noise", "frame"}).Draw(rt, "trail")
		switch trail {
		case "noise":
			in = append(in, rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(rt, "noise")...)
		case "frame":
			in = append(in, frame([]byte("another"))...)
		}
		r := h.NewStream(in)
		r.Chunks = chunks(rt)
		r.ErrAfter = rapid.Bool().Draw(rt, "errAfter")
		got, err := p2p.ReadStreamWithBuffer(r)
		if err != nil {
			rt.Fatalf("read back of %d bytes failed: %v", len(msg), err)
		}
		if !bytes.Equal(got, orig) {
			rt.Fatalf("payload of %d bytes changed: got %d bytes", len(orig), len(got))
		}
		key := ""
		if len(msg) > 0 {
			key = fmt.Sprint(len(msg), r.Chunks, trail, r.ErrAfter)
		}
		h.Seen("roundtrip", key, map[string]interface{}{"size": len(msg), "chunks": r.Chunks, "trail": trail})
	})
}

func TestC13BadFrames(t *testing.T) {
	h.Rule("C13 bad frames: a valid frame cut at every kind of offset, transport failure after k bytes, header announcing more than the payload present or more than the maximum (20000001 .. 2^32-1) with whatever follows, deadline failure; error and no payload; non-trivial: all")
	h.Check(t, 1500, 40000, 25*time.Second, 8*time.Minute, func(rt *rapid.T) {
		p2p.ApplyDeadline = rapid.Bool().Draw(rt, "deadline")
		msg := payload(rt)
		f := frame(msg)
		op := rapid.SampledFrom([]string{"cut", "fail", "more", "over", "dead"}).Draw(rt, "op")
		r := h.NewStream(f)
		detail := 0
		switch op {
		case "cut":
			detail = rapid.OneOf(rapid.IntRange(0, len(f)-1), rapid.IntRange(max(0, len(f)-4), len(f)-1), rapid.IntRange(0, min(len(f)-1, 5))).Draw(rt, "at")
			r = h.NewStream(f[:detail])
		case "fail":
			detail = rapid.OneOf(rapid.IntRange(0, len(f)-1), rapid.IntRange(max(0, len(f)-4), len(f)-1)).Draw(rt, "at")
			r.FailRead = detail
		case "more":
			detail = rapid.IntRange(1, 100000).Draw(rt, "extra")
			binary.LittleEndian.PutUint32(f, uint32(len(msg)+detail))
			r = h.NewStream(f)
		case "over":
			v := rapid.OneOf(rapid.Uint32Range(p2p.MaxPayload+1, p2p.MaxPayload+16), rapid.Uint32Range(p2p.MaxPayload+1, 1<<32-1)).Draw(rt, "announced")
			binary.LittleEndian.PutUint32(f, v)
			detail = int(v)
			if v < p2p.MaxPayload+20 && rapid.IntRange(0, 9).Draw(rt, "full") == 0 {
				f = append(f, make([]byte, int(v)-len(msg))...)
			}
			r = h.NewStream(f)
		case "dead":
			p2p.ApplyDeadline = true
			r.DeadErr = true
		}
		r.Chunks = chunks(rt)
		r.ErrAfter = rapid.Bool().Draw(rt, "errAfter")
		got, err := p2p.ReadStreamWithBuffer(r)
		if err == nil {
			rt.Fatalf("%s(%d) of a frame of %d bytes is not an error, payload of %d bytes", op, detail, len(msg), len(got))
		}
		if len(got) != 0 {
			rt.Fatalf("%s(%d): an error with a payload of %d bytes", op, detail, len(got))
		}
		h.Seen("bad-"+op, fmt.Sprint(op, detail, len(msg), r.Chunks), map[string]interface{}{"op": op, "detail": detail, "size": len(msg)})
	})
}

func TestC13Write(t *testing.T) {
	h.Rule("C13 write failures: the transport accepts only the first k bytes (every k below the frame length is possible) and then fails, or makes a short write; or the deadline cannot be set: the writer reports an error; with k = frame length it succeeds; non-trivial: failing ones")
	h.Check(t, 1200, 30000, 20*time.Second, 6*time.Minute, func(rt *rapid.T) {
		p2p.ApplyDeadline = rapid.Bool().Draw(rt, "deadline")
		msg := payload(rt)
		w := h.NewStream(nil)
		w.Short = rapid.Bool().Draw(rt, "short")
		total := len(msg) + 4
		w.FailAt = rapid.OneOf(rapid.IntRange(0, total), rapid.IntRange(max(0, total-3), total), rapid.IntRange(0, min(total, 5))).Draw(rt, "failAt")
		w.DeadErr = rapid.IntRange(0, 9).Draw(rt, "dead") == 0
		err := p2p.WriteStreamWithBuffer(msg, w)
		bad := w.FailAt < total || (w.DeadErr && p2p.ApplyDeadline)
		if bad && err == nil {
			rt.Fatalf("a write of %d bytes cut at %d (short=%v dead=%v) is reported as success", total, w.FailAt, w.Short, w.DeadErr)
		}
		if !bad && err != nil {
			rt.Fatalf("a complete write is reported as failed: %v", err)
		}
		key := ""
		if bad {
			key = fmt.Sprint(len(msg), w.FailAt, w.Short, w.DeadErr)
		}
		h.Seen("write", key, map[string]interface{}{"size": len(msg), "cut": w.FailAt, "short": w.Short})
	})
}

func TestC13Max(t *testing.T) {
	h.Rule("C13 maximum: payloads of exactly the maximum size and just below round-trip; one byte more is refused by the reader")
	p2p.ApplyDeadline = false
	for _, n := range []int{p2p.MaxPayload - 1, p2p.MaxPayload, p2p.MaxPayload + 1} {
		msg := make([]byte, n)
		rand.New(rand.NewSource(int64(n))).Read(msg)
		w := h.NewStream(nil)
		if err := p2p.WriteStreamWithBuffer(msg, w); err != nil {
			if n > p2p.MaxPayload {
				h.Seen("max", "w"+fmt.Sprint(n), n)
				continue // refusing to write it is fine as well
			}
			t.Fatalf("write of %d bytes: %v", n, err)
		}
		r := h.NewStream(w.Out.Bytes())
		r.Chunks = []int{70000, 3, 1 << 20}
		got, err := p2p.ReadStreamWithBuffer(r)
		if n <= p2p.MaxPayload && (err != nil || !bytes.Equal(got, msg)) {
			t.Fatalf("payload of %d bytes does not round-trip: %v", n, err)
		}
		if n > p2p.MaxPayload && (err == nil || len(got) != 0) {
			t.Fatalf("payload of %d bytes above the maximum is read", n)
		}
		h.Seen("max", fmt.Sprint(n), n)
	}
}
