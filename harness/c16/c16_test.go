// Package c16 decides C16: key shares are stored and read back exactly, one file per pool key,
// inside the folder.
package c16

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"gitlab.com/thorchain/tss/go-tss/storage"
	"pgregory.net/rapid"

	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// files counts the share files of a folder by the content they hold.
func poolsOnDisk(rt *rapid.T, dir string) map[string]int {
	out := map[string]int{}
	ents, err := os.ReadDir(dir)
	h.Must(err)
	for _, e := range ents {
		if e.IsDir() {
			rt.Fatalf("a directory %s appeared in the storage folder", e.Name())
		}
		buf, err := os.ReadFile(filepath.Join(dir, e.Name()))
		h.Must(err)
		var s storage.KeygenLocalState
		if json.Unmarshal(buf, &s) == nil && s.PubKey != "" {
			out[s.PubKey]++
		}
	}
	return out
}

// TestHistory: save / read / reopen histories against a map.
func TestHistory(t *testing.T) {
	h.Rule("history: 3..25 operations (save a generated state, read, read of a never saved key, refused save, reopen the folder by another spelling of its path, switch between two instances over it, change what was read) over 4 pool keys, against a map; after every operation all keys are read back through both instances and the files on disk compared; non-trivial: an overwrite or two pools, and a reopen")
	h.Check(t, 120, 1500, 40*time.Second, 6*time.Minute, func(rt *rapid.T) {
		root := h.TempDir()
		defer os.RemoveAll(root)
		dir := filepath.Join(root, rapid.SampledFrom([]string{"store", "a/b/c", "with space", "dot.d"}).Draw(rt, "dir"))
		fsm, err := storage.NewFileStateMgr(dir)
		if err != nil {
			rt.Fatalf("NewFileStateMgr(%s): %v", dir, err)
		}
		other, err := storage.NewFileStateMgr(dir)
		if err != nil {
			rt.Fatalf("NewFileStateMgr(%s) once more: %v", dir, err)
		}
		model := map[string]storage.KeygenLocalState{}
		pools := []string{h.NodeN(30).Bech32, h.NodeN(31).Bech32, h.NodeN(32).Bech32, h.NodeN(33).Bech32}
		var trace []string
		overwrites, reopens := 0, 0
		n := rapid.IntRange(3, 25).Draw(rt, "ops")
		for i := 0; i < n; i++ {
			switch rapid.SampledFrom([]string{"save", "save", "save", "get", "reopen", "refuse", "switch", "use"}).Draw(rt, "op") {
			case "save":
				p := rapid.SampledFrom(pools).Draw(rt, "pool")
				s := h.State(rt, p, rapid.IntRange(0, 5).Draw(rt, "parties"), rapid.SampledFrom([]int{1, 16, 256}).Draw(rt, "size"))
				before, _ := json.Marshal(s)
				if err := fsm.SaveLocalState(s); err != nil {
					rt.Fatalf("save of %s: %v", p, err)
				}
				after, _ := json.Marshal(s)
				if string(before) != string(after) {
					rt.Fatalf("saving changed the state")
				}
				if _, ok := model[p]; ok {
					overwrites++
				}
				model[p] = s
				trace = append(trace, "save "+p[len(p)-4:])
			case "get":
				p := rapid.SampledFrom(pools).Draw(rt, "pool")
				_, _ = fsm.GetLocalState(p)
				trace = append(trace, "get "+p[len(p)-4:])
			case "reopen":
				d := dir
				switch rapid.IntRange(0, 2).Draw(rt, "spelling") {
				case 1:
					d = dir + "/"
				case 2:
					d = filepath.Dir(dir) + "/./" + filepath.Base(dir)
				}
				if fsm, err = storage.NewFileStateMgr(d); err != nil {
					rt.Fatalf("reopen %s: %v", d, err)
				}
				reopens++
				trace = append(trace, "reopen")
			case "switch":
				// another instance over the same folder
				fsm, other = other, fsm
				trace = append(trace, "switch")
			case "use":
				// the caller changes what it got
				p := rapid.SampledFrom(pools).Draw(rt, "pool")
				if got, err := fsm.GetLocalState(p); err == nil {
					got.LocalPartyKey = "used"
					for i := range got.ParticipantKeys {
						got.ParticipantKeys[i] = "used"
					}
					for i := range got.LocalData.Ks {
						got.LocalData.Ks[i].SetInt64(1)
					}
					if got.LocalData.Xi != nil {
						got.LocalData.Xi.SetInt64(1)
					}
				}
				trace = append(trace, "use "+p[len(p)-4:])
			case "refuse":
				s := h.State(rt, "no pool key", 1, 8)
				if err := fsm.SaveLocalState(s); err == nil {
					rt.Fatalf("a state without a valid pool key was saved")
				}
				trace = append(trace, "refuse")
			}
			for k, p := range append(append([]string(nil), pools...), pools...) {
				from := fsm
				if k >= len(pools) {
					from = other
				}
				got, err := from.GetLocalState(p)
				want, ok := model[p]
				if !ok {
					if err == nil {
						rt.Fatalf("%v: read of the never saved %s gives %+v", trace, p, got)
					}
					continue
				}
				if err != nil {
					rt.Fatalf("%v: read of %s: %v", trace, p, err)
				}
				if d := h.SameState(got, want); d != "" {
					rt.Fatalf("%v: read of %s differs from what was saved in %s:\n got %+v\nwant %+v", trace, p, d, got, want)
				}
			}
			disk := poolsOnDisk(rt, dir)
			for p := range model {
				if disk[p] != 1 {
					rt.Fatalf("%v: %d files hold %s, want one", trace, disk[p], p)
				}
			}
			if len(disk) != len(model) {
				rt.Fatalf("%v: files on disk %v, saved %d pools", trace, disk, len(model))
			}
		}
		for name := range h.Tree(root) {
			abs := filepath.Join(root, name)
			if abs != root && abs != dir && !strings.HasPrefix(abs, dir+"/") && !strings.HasPrefix(dir, abs+"/") {
				rt.Fatalf("%s was created outside the folder", name)
			}
		}
		key := ""
		if (overwrites > 0 || len(model) > 1) && reopens > 0 {
			key = fmt.Sprint(trace)
		}
		h.Seen("history", key, trace)
	})
}

// invalid draws a string that is no pool key.
func invalid(rt *rapid.T) string {
	valid := h.NodeN(rapid.IntRange(30, 33).Draw(rt, "k")).Bech32
	raw := append([]byte{0xEB, 0x5A, 0xE9, 0x87, 0x21}, h.NodeN(30).Pub...)
	switch rapid.SampledFrom([]string{"traverse", "traverse", "traverseValid", "checksum", "cut", "pad", "hrp", "type", "prefixbyte", "offcurve", "random", "ascii", "empty"}).Draw(rt, "invalid") {
	case "traverse":
		up := strings.Repeat("../", rapid.IntRange(1, 3).Draw(rt, "up"))
		return rapid.SampledFrom([]string{"", "/", "x/", "./", "x/../"}).Draw(rt, "lead") + up + rapid.SampledFrom([]string{"evil", "sub/evil", "outside/evil"}).Draw(rt, "leaf")
	case "traverseValid":
		return rapid.SampledFrom([]string{"../", "x/../../", "/../", "./", "sub/"}).Draw(rt, "lead") + valid
	case "checksum":
		i := rapid.IntRange(8, len(valid)-1).Draw(rt, "i")
		b := []byte(valid)
		for _, c := range []byte("qpzry9x8gf2tvdw0s3jn54khce6mua7l") {
			if c != b[i] {
				b[i] = c
				break
			}
		}
		return string(b)
	case "cut":
		return valid[:rapid.IntRange(1, len(valid)-1).Draw(rt, "len")]
	case "pad":
		return rapid.SampledFrom([]string{valid + " ", " " + valid, valid + "/", valid + "\n", valid + "\x00", valid + valid, valid + ".json", valid + "/../" + valid}).Draw(rt, "padded")
	case "hrp":
		return h.Bech32Raw(rapid.SampledFrom([]string{"thorvpub", "thorcpub", "thor", "cosmospub", "bnbp", "thorpubx"}).Draw(rt, "hrp"), raw)
	case "type":
		// an ed25519 key
		return h.Bech32Raw("thorpub", append([]byte{0x16, 0x24, 0xDE, 0x64, 0x20}, h.Bytes(rapid.Uint64().Draw(rt, "s"), 32)...))
	case "prefixbyte":
		c := append([]byte(nil), raw...)
		c[5] = rapid.SampledFrom([]byte{0, 1, 4, 5, 6, 7, 255}).Draw(rt, "b")
		return h.Bech32Raw("thorpub", c)
	case "offcurve":
		// x = 5 has no point on secp256k1
		c := append([]byte(nil), raw[:5]...)
		c = append(c, 2)
		c = append(c, make([]byte, 31)...)
		return h.Bech32Raw("thorpub", append(c, 5))
	case "random":
		return string(rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(rt, "bytes"))
	case "ascii":
		return rapid.StringMatching(`[a-z0-9./_-]{1,40}`).Draw(rt, "ascii")
	}
	return ""
}

// TestRefused: anything that is no pool key is refused and touches no file.
func TestRefused(t *testing.T) {
	h.Rule("refused: a generated string that is no pool key (traversals, altered checksum, other prefixes and key types, off-curve points, padded or cut keys, random bytes) is saved and read; a decoy share file waits wherever the unchecked name would lead; expected an error and an unchanged file tree; keyed by the string")
	h.Check(t, 1200, 15000, 30*time.Second, 6*time.Minute, func(rt *rapid.T) {
		root := h.TempDir()
		defer os.RemoveAll(root)
		dir := filepath.Join(root, "p1/p2/p3/store")
		h.Must(os.MkdirAll(filepath.Join(root, "p1/p2/p3/outside"), 0o755))
		fsm, err := storage.NewFileStateMgr(dir)
		h.Must(err)
		valid := h.State(rt, h.NodeN(30).Bech32, 2, 8)
		h.Must(fsm.SaveLocalState(valid))
		bad := invalid(rt)
		if rapid.IntRange(0, 9).Draw(rt, "abs") == 0 {
			bad = filepath.Join(root, "p1/abs")
		}
		h.Case("pub key %q", bad)
		// places where an unchecked name could lead, all below root
		if len(bad) < 200 && !strings.Contains(bad, "\x00") {
			content, _ := json.Marshal(func() storage.KeygenLocalState { s := valid; s.PubKey = bad; return s }())
			for _, p := range []string{filepath.Join(dir, "localstate-"+bad+".json"), filepath.Join(dir, bad), filepath.Join(dir, bad+".json")} {
				if rel, err := filepath.Rel(root, p); err == nil && !strings.HasPrefix(rel, "..") && p != dir {
					if st, err := os.Stat(p); err == nil && (st.IsDir() || filepath.Base(p) == "localstate-"+valid.PubKey+".json") {
						continue
					}
					if os.MkdirAll(filepath.Dir(p), 0o755) == nil {
						_ = os.WriteFile(p, content, 0o644)
					}
				}
			}
		}
		before := h.Tree(root)
		s := valid
		s.PubKey = bad
		s.LocalPartyKey = "changed"
		h.Seen("refused", bad, fmt.Sprintf("%q", bad))
		if err := fsm.SaveLocalState(s); err == nil {
			rt.Fatalf("SaveLocalState accepted %q", bad)
		}
		if got, err := fsm.GetLocalState(bad); err == nil {
			rt.Fatalf("GetLocalState(%q) returned the state of %q", bad, got.PubKey)
		}
		if after := h.Tree(root); !reflect.DeepEqual(before, after) {
			rt.Fatalf("pub key %q changed the files: before %v after %v", bad, h.Keys(before), h.Keys(after))
		}
	})
}

// TestConcurrent: keys saved and read concurrently do not affect each other.
func TestConcurrent(t *testing.T) {
	h.Rule("concurrent: one goroutine per pool key saves a generated sequence of states over 1..2 storage instances and reads each back at once; every read is the state just saved for that key")
	h.Check(t, 40, 400, 20*time.Second, 4*time.Minute, func(rt *rapid.T) {
		root := h.TempDir()
		defer os.RemoveAll(root)
		a, err := storage.NewFileStateMgr(root)
		h.Must(err)
		b, err := storage.NewFileStateMgr(root)
		h.Must(err)
		k := rapid.IntRange(2, 5).Draw(rt, "keys")
		seqs := make([][]storage.KeygenLocalState, k)
		for i := range seqs {
			for j := rapid.IntRange(2, 6).Draw(rt, "len"); j > 0; j-- {
				seqs[i] = append(seqs[i], h.State(rt, h.NodeN(30+i).Bech32, rapid.IntRange(0, 3).Draw(rt, "parties"), 32))
			}
		}
		errs := make(chan string, 100)
		var wg sync.WaitGroup
		for i := range seqs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for j, s := range seqs[i] {
					w, r := a, b
					if (i+j)%2 == 0 {
						w, r = b, a
					}
					if err := w.SaveLocalState(s); err != nil {
						errs <- fmt.Sprintf("save: %v", err)
						return
					}
					got, err := r.GetLocalState(s.PubKey)
					if err != nil || h.SameState(got, s) != "" {
						errs <- fmt.Sprintf("key %d state %d: read gives err %v, pool %s", i, j, err, got.PubKey)
						return
					}
				}
			}(i)
		}
		wg.Wait()
		close(errs)
		for e := range errs {
			rt.Fatalf("%s", e)
		}
		h.Seen("concurrent", fmt.Sprint(k, len(seqs[0]), seqs[0][0].LocalData.Xi), fmt.Sprintf("%d keys", k))
	})
}
