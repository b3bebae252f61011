// Package c24 checks the recovery tool: the built program, run on share files written by the node's own store.
package c24

import (
	"bytes"
	"context"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/btcsuite/btcd/btcec"
	"gitlab.com/thorchain/tss/go-tss/storage"
	"golang.org/x/crypto/pbkdf2"
	"golang.org/x/crypto/sha3"
	"pgregory.net/rapid"

	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// pool is a pool key with the share files of its holders.
type pool struct {
	key       *big.Int
	pub       string
	threshold int
	states    []storage.KeygenLocalState
	kind      string
}

func pubOf(k *big.Int) string {
	_, pub := btcec.PrivKeyFromBytes(btcec.S256(), k.Bytes())
	return h.Bech32Pub(pub.SerializeCompressed())
}

// lagrange is the harness's own interpolation at 0.
func lagrange(st []storage.KeygenLocalState) *big.Int {
	n := btcec.S256().N
	sum := new(big.Int)
	for i, a := range st {
		num, den := big.NewInt(1), big.NewInt(1)
		for j, b := range st {
			if i == j {
				continue
			}
			num.Mod(num.Mul(num, b.LocalData.ShareID), n)
			d := new(big.Int).Sub(b.LocalData.ShareID, a.LocalData.ShareID)
			den.Mod(den.Mul(den, d), n)
		}
		t := new(big.Int).Mul(num, new(big.Int).ModInverse(den, n))
		t.Mul(t, a.LocalData.Xi)
		sum.Mod(sum.Add(sum, t), n)
	}
	return sum
}

func quorum(n int) int { return (2*n + 2) / 3 } // threshold+1

// fixture is the pool of a real key generation.
func fixture(n int) pool {
	st := h.States(n)
	p := pool{states: st, pub: st[0].PubKey, threshold: quorum(n) - 1, kind: fmt.Sprintf("real%d", n)}
	p.key = lagrange(st)
	if pubOf(p.key) != p.pub {
		h.Infra("fixture states%d does not rebuild its key", n)
	}
	return p
}

// dealt deals a drawn private key (with leading zero bytes now and then) to n holders.
func dealt(rt *rapid.T) pool {
	n := rapid.IntRange(2, 9).Draw(rt, "holders")
	seed := rapid.Uint64().Draw(rt, "seed")
	size := rapid.SampledFrom([]int{32, 32, 31, 30, 16, 1}).Draw(rt, "key bytes")
	q := btcec.S256().N
	num := func(i, size int) *big.Int {
		v := new(big.Int).SetBytes(h.Bytes(seed+uint64(i), size))
		return v.Mod(v, q)
	}
	p := pool{key: num(0, size), threshold: quorum(n) - 1, kind: "dealt"}
	if p.key.Sign() == 0 {
		p.key.SetInt64(1)
	}
	p.pub = pubOf(p.key)
	poly := []*big.Int{p.key}
	for i := 1; i <= p.threshold; i++ {
		poly = append(poly, num(i, 32))
	}
	small := rapid.Bool().Draw(rt, "small ids")
	for i := 0; i < n; i++ {
		id := big.NewInt(int64(i + 1))
		if !small {
			id = num(100+i, 32)
		}
		x := new(big.Int)
		for j := len(poly) - 1; j >= 0; j-- {
			x.Mul(x, id)
			x.Mod(x.Add(x, poly[j]), q)
		}
		var s storage.KeygenLocalState
		s.PubKey, s.LocalPartyKey = p.pub, h.NodeN(i).Bech32
		s.LocalData.ShareID, s.LocalData.Xi = id, x
		for k := 0; k < n; k++ {
			s.ParticipantKeys = append(s.ParticipantKeys, h.NodeN(k).Bech32)
			s.LocalData.Ks = append(s.LocalData.Ks, id)
		}
		p.states = append(p.states, s)
	}
	return p
}

func anyPool(rt *rapid.T) pool {
	if rapid.IntRange(0, 2).Draw(rt, "kind") == 0 {
		return fixture(rapid.IntRange(2, 7).Draw(rt, "n"))
	}
	return dealt(rt)
}

// save writes a share file as a node does and returns its path.
func save(dir string, s storage.KeygenLocalState, i int) string {
	base := filepath.Join(dir, fmt.Sprintf("node%d", i))
	m, err := storage.NewFileStateMgr(base)
	h.Must(err)
	h.Must(m.SaveLocalState(s))
	fs, err := filepath.Glob(filepath.Join(base, "*"))
	h.Must(err)
	if len(fs) != 1 {
		h.Infra("share file not found: %v", fs)
	}
	return fs[0]
}

type result struct {
	code int
	out  string
	err  string
	keys []byte // the key store, nil if there is none
}

func tool(dir string, n int, explicitN bool, password string, files []string) result {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	export := filepath.Join(dir, "keystore.json")
	args := []string{"-export", export, "-password", password}
	if explicitN {
		args = append(args, "-n", strconv.Itoa(n))
	}
	args = append(args, files...)
	cmd := exec.CommandContext(ctx, filepath.Join(os.Getenv("VERIF_BIN"), "tss-recovery"), args...)
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if ctx.Err() != nil {
		h.Infra("the tool ran for a minute")
	}
	r := result{out: so.String(), err: se.String()}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			h.Infra("the tool cannot be run: %v", err)
		}
		r.code = ee.ExitCode()
	}
	buf, err := os.ReadFile(export)
	if err == nil {
		r.keys = buf
	}
	return r
}

// open decrypts a key store the way the wallets that import it do.
func open(raw []byte, password string) ([]byte, error) {
	var k struct {
		Crypto struct {
			Cipher       string `json:"cipher"`
			CipherText   string `json:"ciphertext"`
			CipherParams struct {
				IV string `json:"iv"`
			} `json:"cipherparams"`
			KDF       string `json:"kdf"`
			KDFParams struct {
				PRF   string `json:"prf"`
				DKLen int    `json:"dklen"`
				Salt  string `json:"salt"`
				C     int    `json:"c"`
			} `json:"kdfparams"`
			MAC string `json:"mac"`
		} `json:"crypto"`
		ID      string `json:"id"`
		Version int    `json:"version"`
	}
	if err := json.Unmarshal(raw, &k); err != nil {
		return nil, err
	}
	c := k.Crypto
	if c.Cipher != "aes-256-ctr" || c.KDF != "pbkdf2" || c.KDFParams.PRF != "hmac-sha256" || c.KDFParams.DKLen < 32 {
		return nil, fmt.Errorf("unknown key store: %s", raw)
	}
	var dec [4][]byte
	for i, s := range []string{c.CipherText, c.CipherParams.IV, c.KDFParams.Salt, c.MAC} {
		b, err := hex.DecodeString(s)
		if err != nil {
			return nil, err
		}
		dec[i] = b
	}
	dk := pbkdf2.Key([]byte(password), dec[2], c.KDFParams.C, c.KDFParams.DKLen, sha256.New)
	hs := sha3.NewLegacyKeccak512()
	hs.Write(dk[16:32])
	hs.Write(dec[0])
	if !bytes.Equal(hs.Sum(nil), dec[3]) {
		return nil, fmt.Errorf("the mac does not match the password")
	}
	b, err := aes.NewCipher(dk[:32])
	if err != nil {
		return nil, err
	}
	if len(dec[1]) != b.BlockSize() {
		return nil, fmt.Errorf("iv of %d bytes", len(dec[1]))
	}
	out := make([]byte, len(dec[0]))
	cipher.NewCTR(b, dec[1]).XORKeyStream(out, dec[0])
	return out, nil
}

func password(rt *rapid.T) string {
	switch rapid.IntRange(0, 2).Draw(rt, "password kind") {
	case 0:
		return rapid.StringMatching(`[a-zA-Z0-9 !$%&/()=?]{8,40}`).Draw(rt, "password")
	case 1:
		return rapid.StringMatching(`[a-z]{8}`).Draw(rt, "password")
	default:
		return "pä$$" + rapid.StringMatching(`[^\x00]{6,20}`).Draw(rt, "password")
	}
}

// pick draws k of the pool's share files, in a drawn order.
func pick(rt *rapid.T, dir string, p pool, k int) ([]string, []int) {
	idx := make([]int, len(p.states))
	for i := range idx {
		idx[i] = i
	}
	idx = rapid.Permutation(idx).Draw(rt, "holders used")[:k]
	var files []string
	for _, i := range idx {
		files = append(files, save(dir, p.states[i], i))
	}
	return files, idx
}

func TestRecover(t *testing.T) {
	h.Rule("recover: a pool key (real key generation, or a drawn private key dealt to 2-9 holders), any quorum or more of its share files in any order, any password: the key store opens to the key of the pool; non-trivial: every case, identified by pool, files, order and count")
	h.Check(t, 140, 2500, 35*time.Second, 12*time.Minute, func(rt *rapid.T) {
		p := anyPool(rt)
		dir := h.TempDir()
		defer os.RemoveAll(dir)
		k := rapid.IntRange(p.threshold+1, len(p.states)).Draw(rt, "files")
		n := rapid.IntRange(p.threshold+1, k).Draw(rt, "-n")
		files, idx := pick(rt, dir, p, k)
		pw := password(rt)
		explicit := n != 3 || rapid.Bool().Draw(rt, "-n given")
		h.Seen("recover", fmt.Sprint(p.pub, idx, n, pw), fmt.Sprintf("%s pool of %d (threshold %d), files of holders %v, -n %d", p.kind, len(p.states), p.threshold, idx, n))
		r := tool(dir, n, explicit, pw, files)
		ctx := fmt.Sprintf("%s pool of %d holders, threshold %d, share files of %v, -n %d (given: %v)", p.kind, len(p.states), p.threshold, idx, n, explicit)
		if r.code != 0 || r.keys == nil {
			rt.Fatalf("%s: the tool refused: status %d\n%s%s", ctx, r.code, r.out, r.err)
		}
		got, err := open(r.keys, pw)
		if err != nil {
			rt.Fatalf("%s: key store: %v", ctx, err)
		}
		want := make([]byte, 32)
		p.key.FillBytes(want)
		if !bytes.Equal(got, want) {
			rt.Fatalf("%s: the key store holds %x, the key is %x", ctx, got, want)
		}
		if !strings.Contains(r.out+r.err, p.pub) {
			rt.Fatalf("%s: the pool key %s is not reported:\n%s%s", ctx, p.pub, r.out, r.err)
		}
		for _, w := range strings.FieldsFunc(r.out+r.err, func(c rune) bool { return !(c >= 'a' && c <= 'z' || c >= '0' && c <= '9') }) {
			if strings.HasPrefix(w, "thorpub1") && w != p.pub {
				rt.Fatalf("%s: another key %s is reported:\n%s%s", ctx, w, r.out, r.err)
			}
		}
		if other, err := open(r.keys, pw+"x"); err == nil {
			rt.Fatalf("%s: another password opens the key store: %x", ctx, other)
		}
	})
}

func TestRefuse(t *testing.T) {
	h.Rule("refuse: fewer files than stated, or a missing, unreadable, empty, cut, repeated or foreign share file: non-zero status and no key store; non-trivial: every case, identified by the defect and its place")
	h.Check(t, 160, 2500, 20*time.Second, 6*time.Minute, func(rt *rapid.T) {
		p := anyPool(rt)
		dir := h.TempDir()
		defer os.RemoveAll(dir)
		k := rapid.IntRange(p.threshold+1, len(p.states)).Draw(rt, "files")
		files, idx := pick(rt, dir, p, k)
		n := rapid.IntRange(p.threshold+1, k).Draw(rt, "-n")
		// the defect lies among the files used
		at := rapid.IntRange(0, n-1).Draw(rt, "at")
		kind := rapid.SampledFrom([]string{"fewer", "none", "missing", "directory", "empty", "cut", "null", "other json", "twice", "foreign", "below quorum", "no share", "no id", "n zero", "changed share"}).Draw(rt, "defect")
		rewrite := func(f func(s *storage.KeygenLocalState)) {
			s := p.states[idx[at]]
			f(&s)
			buf, err := json.Marshal(s)
			h.Must(err)
			h.Must(os.WriteFile(files[at], buf, 0o600))
		}
		switch kind {
		case "fewer":
			n = k + rapid.IntRange(1, 3).Draw(rt, "more")
		case "none":
			files = nil
		case "missing":
			h.Must(os.Remove(files[at]))
		case "directory":
			files[at] = dir
		case "empty":
			h.Must(os.WriteFile(files[at], nil, 0o600))
		case "cut":
			buf, err := os.ReadFile(files[at])
			h.Must(err)
			h.Must(os.WriteFile(files[at], buf[:rapid.IntRange(0, len(buf)-2).Draw(rt, "cut")], 0o600))
		case "null":
			h.Must(os.WriteFile(files[at], []byte("null"), 0o600))
		case "other json":
			h.Must(os.WriteFile(files[at], []byte(rapid.SampledFrom([]string{"{}", "[]", `"x"`, "17", `{"local_data":{}}`, `{"pub_key":17}`}).Draw(rt, "json")), 0o600))
		case "twice":
			if n < 2 {
				return
			}
			other := (at + rapid.IntRange(1, n-1).Draw(rt, "other")) % n
			files[at] = files[other]
		case "foreign":
			q := dealt(rt)
			if q.pub == p.pub {
				return
			}
			files[at] = save(dir, q.states[rapid.IntRange(0, len(q.states)-1).Draw(rt, "foreign share")], 100)
		case "below quorum":
			if p.threshold < 1 {
				return
			}
			n = rapid.IntRange(1, p.threshold).Draw(rt, "small n")
		case "no share":
			rewrite(func(s *storage.KeygenLocalState) { s.LocalData.Xi = nil })
		case "no id":
			rewrite(func(s *storage.KeygenLocalState) { s.LocalData.ShareID = nil })
		case "n zero":
			n = rapid.IntRange(-2, 0).Draw(rt, "n")
		case "changed share":
			rewrite(func(s *storage.KeygenLocalState) {
				s.LocalData.Xi = new(big.Int).Add(s.LocalData.Xi, big.NewInt(1))
			})
		}
		h.Seen("refuse/"+kind, fmt.Sprint(p.pub, idx, at, n), fmt.Sprintf("%s pool of %d (threshold %d), files of holders %v, -n %d, defect at %d", p.kind, len(p.states), p.threshold, idx, n, at))
		r := tool(dir, n, true, "password", files)
		ctx := fmt.Sprintf("%s pool of %d holders, threshold %d, share files of %v, -n %d, %q at file %d", p.kind, len(p.states), p.threshold, idx, n, kind, at)
		if r.keys != nil {
			rt.Fatalf("%s: a key store was written\n%s%s", ctx, r.out, r.err)
		}
		if r.code == 0 {
			rt.Fatalf("%s: the tool reports success\n%s%s", ctx, r.out, r.err)
		}
		if strings.Contains(r.err, "goroutine ") {
			rt.Fatalf("%s: the tool crashed\n%s", ctx, r.err)
		}
	})
}
