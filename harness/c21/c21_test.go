package c21

import (
	"fmt"
	"math/big"
	"testing"
	"time"

	"bytes"
	"crypto/sha256"
	"github.com/binance-chain/tss-lib/crypto"
	"github.com/btcsuite/btcd/btcec"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"golang.org/x/crypto/ripemd160"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func wantThreshold(n int64) int64 {
	// largest t with 3t < 2n, in integer arithmetic
	t := new(big.Int).Mul(big.NewInt(2), big.NewInt(n))
	t.Sub(t, big.NewInt(1))
	q, _ := new(big.Int).DivMod(t, big.NewInt(3), new(big.Int))
	return q.Int64() // floor((2n-1)/3)
}

func TestC21Threshold(t *testing.T) {
	h.Rule("C21 threshold: every n in 0..20000 and random n up to 2^50, and negative n; oracle floor((2n-1)/3) in big integers; non-trivial n>=1")
	for n := 0; n <= 20000; n++ {
		got, err := conversion.GetThreshold(n)
		if err != nil || int64(got) != wantThreshold(int64(n)) {
			t.Fatalf("threshold of %d: %d (err %v), want %d", n, got, err, wantThreshold(int64(n)))
		}
		h.Seen("threshold", fmt.Sprint(n), map[string]int{"n": n, "t": got})
	}
	h.Check(t, 3000, 100000, 10*time.Second, time.Minute, func(rt *rapid.T) {
		n := rapid.Int64Range(-(1<<50), 1<<50).Draw(rt, "n")
		got, err := conversion.GetThreshold(int(n))
		if n < 0 {
			if err == nil {
				rt.Fatalf("negative count %d accepted: %d", n, got)
			}
		} else if err != nil || int64(got) != wantThreshold(n) {
			rt.Fatalf("threshold of %d: %d (err %v), want %d", n, got, err, wantThreshold(n))
		}
		h.Seen("threshold-big", fmt.Sprint(n), map[string]int64{"n": n, "t": int64(got)})
	})
}

var p = btcec.S256().P

func onCurve(x, y *big.Int) bool {
	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(p) >= 0 || y.Cmp(p) >= 0 {
		return false
	}
	l := new(big.Int).Exp(y, big.NewInt(2), p)
	r := new(big.Int).Exp(x, big.NewInt(3), p)
	r.Add(r, big.NewInt(7)).Mod(r, p)
	return l.Cmp(r) == 0
}

func field(rt *rapid.T, label string) *big.Int {
	b := rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, label)
	return new(big.Int).Mod(new(big.Int).SetBytes(b), p)
}

func curvePoint(rt *rapid.T) (*big.Int, *big.Int) {
	if rapid.Bool().Draw(rt, "smallScalar") {
		k := rapid.Int64Range(1, 2000).Draw(rt, "k")
		return btcec.S256().ScalarBaseMult(big.NewInt(k).Bytes())
	}
	b := rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, "scalar")
	k := new(big.Int).Mod(new(big.Int).SetBytes(b), new(big.Int).Sub(btcec.S256().N, big.NewInt(1)))
	k.Add(k, big.NewInt(1))
	return btcec.S256().ScalarBaseMult(k.Bytes())
}

func TestC21Point(t *testing.T) {
	h.Rule("C21 point: points k*G (k uniform or small), the same with one coordinate changed/swapped/negated, random coordinate pairs, zero/infinity and nil; oracle y^2=x^3+7 mod p computed in the harness; non-trivial: every generated point")
	h.Check(t, 3000, 60000, 25*time.Second, 8*time.Minute, func(rt *rapid.T) {
		x, y := curvePoint(rt)
		op := rapid.SampledFrom([]string{"on", "on", "y+1", "x+1", "negy", "swap", "random", "zero", "shift", "nil"}).Draw(rt, "op")
		switch op {
		case "y+1":
			y = new(big.Int).Mod(new(big.Int).Add(y, big.NewInt(1)), p)
		case "x+1":
			x = new(big.Int).Mod(new(big.Int).Add(x, big.NewInt(1)), p)
		case "negy":
			y = new(big.Int).Sub(p, y)
		case "swap":
			x, y = y, x
		case "random":
			x, y = field(rt, "rx"), field(rt, "ry")
		case "zero":
			x, y = big.NewInt(0), big.NewInt(0)
		case "shift":
			x2, _ := curvePoint(rt)
			x = x2
		}
		var pt *crypto.ECPoint
		if op != "nil" {
			pt = crypto.NewECPointNoCurveCheck(btcec.S256(), x, y)
		}
		pk, addr, err := conversion.GetTssPubKey(pt)
		if op == "nil" || !onCurve(x, y) {
			if err == nil || pk != "" || len(addr) != 0 {
				rt.Fatalf("off-curve point (%s) gives key %q addr %x err %v", op, pk, []byte(addr), err)
			}
		} else {
			if err != nil {
				rt.Fatalf("curve point (%s) refused: %v", op, err)
			}
			comp := append([]byte{2 + byte(y.Bit(0))}, pad32(x)...)
			if want := h.Bech32Pub(comp); pk != want {
				rt.Fatalf("key %q does not encode the point, want %q", pk, want)
			}
			s := sha256.Sum256(comp)
			rm := ripemd160.New()
			_, _ = rm.Write(s[:])
			if !bytes.Equal(addr, rm.Sum(nil)) {
				rt.Fatalf("address %x is not the address of the key", []byte(addr))
			}
			ok, err := conversion.CheckKeyOnCurve(pk)
			if err != nil || !ok {
				rt.Fatalf("the encoded pool key is refused: %v %v", ok, err)
			}
		}
		h.Seen("point-"+op, fmt.Sprint(op, x, y), map[string]string{"op": op, "x": x.Text(16), "y": y.Text(16), "key": pk})
	})
}

func pad32(v *big.Int) []byte {
	out := make([]byte, 32)
	b := v.Bytes()
	copy(out[32-len(b):], b)
	return out
}

func TestC21CheckKey(t *testing.T) {
	h.Rule("C21 strings: bech32 keys with x on / not on the curve (about half of all x), every leading byte, raw lengths 0..70, wrong prefix, altered characters, arbitrary strings; a key is accepted only if its 33 bytes are a compressed curve point")
	h.Check(t, 4000, 80000, 25*time.Second, 8*time.Minute, func(rt *rapid.T) {
		op := rapid.SampledFrom([]string{"x", "x", "lead", "hrp", "chars", "raw", "str", "len"}).Draw(rt, "op")
		var s string
		good := false
		var lead byte = 2
		x := field(rt, "x")
		comp := func() []byte { return append([]byte{lead}, pad32(x)...) }
		switch op {
		case "x":
			lead = byte(rapid.IntRange(2, 3).Draw(rt, "lead"))
			s = h.Bech32Pub(comp())
			y2 := new(big.Int).Exp(x, big.NewInt(3), p)
			y2.Add(y2, big.NewInt(7)).Mod(y2, p)
			good = big.Jacobi(y2, p) >= 0
		case "lead":
			lead = byte(rapid.IntRange(0, 255).Filter(func(v int) bool { return v != 2 && v != 3 }).Draw(rt, "lead"))
			s = h.Bech32Pub(comp())
		case "hrp":
			x, _ = curvePoint(rt)
			raw := append([]byte{0xeb, 0x5a, 0xe9, 0x87, 0x21}, comp()...)
			s = h.Bech32Raw(rapid.SampledFrom([]string{"cosmospub", "thor", "thorvalpub", "bnbp"}).Draw(rt, "hrp"), raw)
		case "chars":
			x, _ = curvePoint(rt)
			b := []byte(h.Bech32Pub(comp()))
			i := rapid.IntRange(0, len(b)-1).Draw(rt, "i")
			c := rapid.Byte().Filter(func(c byte) bool { return c != b[i] }).Draw(rt, "c")
			b[i] = c
			s = string(b)
		case "raw":
			s = h.Bech32Raw("thorpub", rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(rt, "raw"))
		case "len":
			x, _ = curvePoint(rt)
			c := comp()
			n := rapid.IntRange(0, 40).Filter(func(v int) bool { return v != 33 }).Draw(rt, "n")
			for len(c) < n {
				c = append(c, 0)
			}
			s = h.Bech32Raw("thorpub", append([]byte{0xeb, 0x5a, 0xe9, 0x87, byte(n)}, c[:n]...))
		case "str":
			s = rapid.String().Draw(rt, "s")
		}
		ok, err := conversion.CheckKeyOnCurve(s)
		if good && (err != nil || !ok) {
			rt.Fatalf("curve key %q refused: %v %v", s, ok, err)
		}
		if !good && ok {
			rt.Fatalf("%s: %q accepted as a curve key", op, s)
		}
		if !good && err == nil {
			rt.Fatalf("%s: %q not refused with an error", op, s)
		}
		h.Seen("string-"+op, s, s)
	})
}
