package h

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"sort"

	"github.com/binance-chain/tss-lib/crypto"
	"github.com/binance-chain/tss-lib/crypto/paillier"
	"github.com/binance-chain/tss-lib/tss"
	"gitlab.com/thorchain/tss/go-tss/storage"
	"pgregory.net/rapid"
)

// Bytes expands a seed.
func Bytes(seed uint64, n int) []byte {
	var out []byte
	for c := uint64(0); len(out) < n; c++ {
		var b [16]byte
		binary.BigEndian.PutUint64(b[:8], seed)
		binary.BigEndian.PutUint64(b[8:], c)
		s := sha256.Sum256(b[:])
		out = append(out, s[:]...)
	}
	return out[:n]
}

// State builds a share file content for a pool key: every field set to values drawn from
// seed (or absent), big numbers of up to bits bits.
func State(rt *rapid.T, pool string, parties, bytes int) storage.KeygenLocalState {
	seed := rapid.Uint64().Draw(rt, "seed")
	ctr := seed
	num := func(n int) *big.Int {
		ctr++
		v := new(big.Int).SetBytes(Bytes(ctr, n))
		return v.SetBit(v, 0, 1)
	}
	opt := func(l string, n int) *big.Int {
		if rapid.IntRange(0, 5).Draw(rt, l) == 0 {
			return nil
		}
		return num(n)
	}
	pt := func() *crypto.ECPoint { return crypto.ScalarBaseMult(tss.EC(), num(31)) }
	var s storage.KeygenLocalState
	s.PubKey = pool
	s.LocalPartyKey = NodeN(rapid.IntRange(0, 20).Draw(rt, "me")).Bech32
	d := &s.LocalData
	d.NTildei, d.H1i, d.H2i = num(bytes), num(bytes), num(bytes)
	d.Alpha, d.Beta, d.P, d.Q = opt("alpha", bytes), opt("beta", bytes), opt("p", bytes/2+1), opt("q", bytes/2+1)
	d.PaillierSK = &paillier.PrivateKey{PublicKey: paillier.PublicKey{N: num(bytes)}, LambdaN: num(bytes), PhiN: num(bytes)}
	d.Xi, d.ShareID = num(32), num(32)
	d.ECDSAPub = pt()
	for i := 0; i < parties; i++ {
		s.ParticipantKeys = append(s.ParticipantKeys, NodeN(i).Bech32)
		d.Ks = append(d.Ks, num(32))
		d.NTildej = append(d.NTildej, num(bytes))
		d.H1j = append(d.H1j, num(bytes))
		d.H2j = append(d.H2j, num(bytes))
		d.BigXj = append(d.BigXj, pt())
		d.PaillierPKs = append(d.PaillierPKs, &paillier.PublicKey{N: num(bytes)})
	}
	return s
}

// Tree lists every file below dir with its content (a digest).
func Tree(dir string) map[string]string {
	out := map[string]string{}
	Must(filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if info.IsDir() {
			out[rel] = "dir"
			return nil
		}
		buf, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		out[rel] = fmt.Sprintf("%x", sha256.Sum256(buf))
		return nil
	}))
	return out
}

// Keys lists the keys of a map, sorted.
func Keys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var tmpCount int

// TempDir makes a scratch directory below TMPDIR.
func TempDir() string {
	d, err := os.MkdirTemp("", "verif-")
	Must(err)
	return d
}

// SameState compares two share file contents: "" if equal, else the first field that differs.
func SameState(a, b storage.KeygenLocalState) string {
	return diff(reflect.ValueOf(a), reflect.ValueOf(b), "state")
}

func diff(a, b reflect.Value, path string) string {
	switch x := a.Interface().(type) {
	case *big.Int:
		y := b.Interface().(*big.Int)
		if (x == nil) != (y == nil) || (x != nil && x.Cmp(y) != 0) {
			return path
		}
		return ""
	case *crypto.ECPoint:
		y := b.Interface().(*crypto.ECPoint)
		if (x == nil) != (y == nil) || (x != nil && (x.X().Cmp(y.X()) != 0 || x.Y().Cmp(y.Y()) != 0)) {
			return path
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return path
		}
		if a.IsNil() {
			return ""
		}
		return diff(a.Elem(), b.Elem(), path)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := diff(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		if a.Len() != b.Len() {
			return path
		}
		for i := 0; i < a.Len(); i++ {
			if d := diff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	default:
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return path
		}
		return ""
	}
}
