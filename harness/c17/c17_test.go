// Package c17 decides C17: a write that fails or is cut short never destroys stored shares or addresses.
package c17

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-peerstore/addr"
	ma "github.com/multiformats/go-multiaddr"
	"gitlab.com/thorchain/tss/go-tss/storage"
	"pgregory.net/rapid"

	"verif/h"
)

func TestMain(m *testing.M) {
	if job := os.Getenv("VERIF_C17_CHILD"); job != "" {
		child(job)
		return
	}
	h.Main(m)
}

// job is what the child process does.
type job struct {
	Folder string
	Limit  int64 // bytes a file may have; <0: none
	Kill   bool  // die at the limit instead of getting an error
	Book   map[string][]string
	State  *storage.KeygenLocalState
	Loop   []storage.KeygenLocalState // saved in turns, forever
	LoopB  []map[string][]string      // address books saved in turns, forever
}

func toBook(m map[string][]string) map[peer.ID]addr.AddrList {
	out := map[peer.ID]addr.AddrList{}
	for p, as := range m {
		id, err := peer.Decode(p)
		h.Must(err)
		for _, a := range as {
			x, err := ma.NewMultiaddr(a)
			h.Must(err)
			out[id] = append(out[id], x)
		}
	}
	return out
}

// child runs one job; it prints SAVED or FAILED.
func child(path string) {
	var j job
	buf, err := os.ReadFile(path)
	h.Must(err)
	h.Must(json.Unmarshal(buf, &j))
	fsm, err := storage.NewFileStateMgr(j.Folder)
	h.Must(err)
	if j.Loop != nil || j.LoopB != nil {
		fmt.Println("GO")
		for i := 0; ; i++ {
			if j.Loop != nil {
				h.Must(fsm.SaveLocalState(j.Loop[i%len(j.Loop)]))
			} else {
				h.Must(fsm.SaveAddressBook(toBook(j.LoopB[i%len(j.LoopB)])))
			}
		}
	}
	book := toBook(j.Book)
	if !j.Kill {
		signal.Ignore(syscall.SIGXFSZ)
	}
	if j.Limit >= 0 {
		h.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(j.Limit), Max: uint64(j.Limit)}))
	}
	if j.State != nil {
		err = fsm.SaveLocalState(*j.State)
	} else {
		err = fsm.SaveAddressBook(book)
	}
	if err != nil {
		// the limit holds for a redirected stdout too, which is a pipe here
		fmt.Println("FAILED", err)
	} else {
		fmt.Println("SAVED")
	}
	os.Exit(0)
}

func start(dir string, j job) *exec.Cmd {
	buf, err := json.Marshal(j)
	h.Must(err)
	p := filepath.Join(dir, "job.json")
	h.Must(os.WriteFile(p, buf, 0o644))
	self, err := os.Executable()
	h.Must(err)
	c := exec.Command(self)
	c.Env = append(os.Environ(), "VERIF_C17_CHILD="+p, "VERIF_STATS=", "VERIF_CASE=", "GOTRACEBACK=none", "GOMAXPROCS=2")
	return c
}

// runChild gives "saved", "failed" or "killed".
func runChild(dir string, j job) string {
	c := start(dir, j)
	out, err := c.Output()
	switch {
	case strings.HasPrefix(string(out), "SAVED"):
		return "saved"
	case strings.HasPrefix(string(out), "FAILED"):
		return "failed"
	case strings.Contains(string(out), "VERIF-INFRA"):
		h.Infra("child: %s", out)
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ee.ExitCode() == 99 {
			h.Infra("child: %s", ee.Stderr)
		}
		return "killed"
	}
	h.Infra("child ended with %v: %q", err, out)
	return ""
}

func genBook(rt *rapid.T, label string, max int) map[string][]string {
	m := map[string][]string{}
	for i := rapid.IntRange(0, max).Draw(rt, label); i > 0; i-- {
		p := h.NodeN(rapid.IntRange(0, 15).Draw(rt, "peer")).Peer.String()
		a := fmt.Sprintf("/ip4/10.%d.%d.7/tcp/%d", rapid.IntRange(0, 255).Draw(rt, "b"), rapid.IntRange(0, 255).Draw(rt, "c"), rapid.IntRange(1, 65535).Draw(rt, "port"))
		dup := false
		for _, x := range m[p] {
			dup = dup || x == a
		}
		if !dup {
			m[p] = append(m[p], a)
		}
	}
	return m
}

func bookLines(m map[string][]string) string {
	var l []string
	for p, as := range m {
		for _, a := range as {
			l = append(l, a+"/p2p/"+p)
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func readBook(fsm *storage.FileStateMgr) (string, error) {
	as, err := fsm.RetrieveP2PAddresses()
	if err != nil {
		return "", err
	}
	var l []string
	for _, a := range as {
		l = append(l, a.String())
	}
	sort.Strings(l)
	return strings.Join(l, "\n"), nil
}

func freshRead(folder, pool string) (storage.KeygenLocalState, error) {
	fsm, err := storage.NewFileStateMgr(folder)
	h.Must(err)
	return fsm.GetLocalState(pool)
}

// cut draws where a write of size bytes is cut.
func cut(rt *rapid.T, size int64) int64 {
	switch rapid.IntRange(0, 5).Draw(rt, "where") {
	case 0:
		return 0
	case 1:
		return size - 1
	case 2:
		return size
	case 3:
		return rapid.Int64Range(0, 64).Draw(rt, "early")
	default:
		return rapid.Int64Range(0, size).Draw(rt, "at")
	}
}

// TestShareCut: the save of a share is cut at a generated byte, with an error or by the death of the process.
func TestShareCut(t *testing.T) {
	h.Rule("share cut: a share (over an older one or none, other keys beside it) is saved by a child process whose writes fail, or kill it, from a generated byte on; afterwards every key reads back as before, or the new content if complete; a save reporting success left the new content; non-trivial: an older share exists and the cut falls inside the new content")
	h.Check(t, 220, 3000, 45*time.Second, 8*time.Minute, func(rt *rapid.T) {
		dir := h.TempDir()
		defer os.RemoveAll(dir)
		folder := filepath.Join(dir, "store")
		pool, other := h.NodeN(30).Bech32, h.NodeN(31).Bech32
		size := rapid.SampledFrom([]int{8, 64, 256}).Draw(rt, "size")
		oldS := h.State(rt, pool, rapid.IntRange(1, 5).Draw(rt, "parties"), size)
		newS := h.State(rt, pool, rapid.IntRange(1, 5).Draw(rt, "parties"), size)
		otherS := h.State(rt, other, 1, size)
		hasOld := rapid.IntRange(0, 3).Draw(rt, "old") > 0
		fsm, err := storage.NewFileStateMgr(folder)
		h.Must(err)
		if hasOld {
			h.Must(fsm.SaveLocalState(oldS))
		}
		h.Must(fsm.SaveLocalState(otherS))
		buf, _ := json.Marshal(newS)
		limit := cut(rt, int64(len(buf)))
		j := job{Folder: folder, Limit: limit, Kill: rapid.Bool().Draw(rt, "kill"), State: &newS}
		res := runChild(dir, j)
		h.Label("share-" + res)
		key := ""
		if hasOld && limit < int64(len(buf)) {
			key = fmt.Sprint(limit, len(buf), j.Kill, oldS.LocalData.Xi)
		}
		h.Seen("sharecut", key, map[string]interface{}{"cut_at": limit, "new_size": len(buf), "old_share": hasOld, "kill": j.Kill, "outcome": res})
		for _, f := range []*storage.FileStateMgr{fsm, nil} {
			read := func(p string) (storage.KeygenLocalState, error) {
				if f != nil {
					return f.GetLocalState(p)
				}
				return freshRead(folder, p)
			}
			got, err := read(pool)
			isNew := err == nil && h.SameState(got, newS) == ""
			isOld := hasOld && err == nil && h.SameState(got, oldS) == ""
			switch {
			case res == "saved" && !isNew:
				rt.Fatalf("cut at %d of %d: the save reported success but reading gives err=%v old=%v", limit, len(buf), err, isOld)
			case isNew || isOld:
			case hasOld:
				rt.Fatalf("cut at %d of %d (%s): the stored share is lost: %v", limit, len(buf), res, err)
			case err == nil:
				rt.Fatalf("cut at %d of %d (%s): a torn share is read: %+v", limit, len(buf), res, got)
			}
			if got, err := read(other); err != nil || h.SameState(got, otherS) != "" {
				rt.Fatalf("cut at %d (%s): the share of another pool is damaged: %v", limit, res, err)
			}
		}
		// the folder still works
		if err := fsm.SaveLocalState(newS); err != nil {
			rt.Fatalf("save after the failure: %v", err)
		}
		if got, err := freshRead(folder, pool); err != nil || h.SameState(got, newS) != "" {
			rt.Fatalf("the save after the failure cannot be read: %v", err)
		}
	})
}

// TestBookCut is the same for the address book.
func TestBookCut(t *testing.T) {
	h.Rule("book cut: as share cut, for the address book")
	h.Check(t, 220, 3000, 45*time.Second, 8*time.Minute, func(rt *rapid.T) {
		dir := h.TempDir()
		defer os.RemoveAll(dir)
		folder := filepath.Join(dir, "store")
		fsm, err := storage.NewFileStateMgr(folder)
		h.Must(err)
		oldB, newB := genBook(rt, "old", 12), genBook(rt, "new", 12)
		hasOld := rapid.IntRange(0, 3).Draw(rt, "hasOld") > 0
		if hasOld {
			h.Must(fsm.SaveAddressBook(toBook(oldB)))
		}
		size := int64(len(bookLines(newB)))
		if size > 0 {
			size++
		}
		limit := cut(rt, size)
		if limit < 0 {
			limit = 0
		}
		j := job{Folder: folder, Limit: limit, Kill: rapid.Bool().Draw(rt, "kill"), Book: newB}
		res := runChild(dir, j)
		h.Label("book-" + res)
		key := ""
		if hasOld && limit < size {
			key = fmt.Sprint(limit, bookLines(oldB), bookLines(newB), j.Kill)
		}
		h.Seen("bookcut", key, map[string]interface{}{"cut_at": limit, "new_size": size, "old_book": hasOld, "kill": j.Kill, "outcome": res})
		for i := 0; i < 2; i++ {
			f := fsm
			if i == 1 {
				f, err = storage.NewFileStateMgr(folder)
				h.Must(err)
			}
			got, err := readBook(f)
			isNew := err == nil && got == bookLines(newB)
			isOld := hasOld && err == nil && got == bookLines(oldB)
			switch {
			case res == "saved" && !isNew:
				rt.Fatalf("cut at %d of %d: the save reported success but reading gives err=%v %q", limit, size, err, got)
			case isNew || isOld:
			case hasOld:
				rt.Fatalf("cut at %d of %d (%s): the address book is lost or torn: err=%v %q", limit, size, res, err, got)
			case err == nil:
				rt.Fatalf("cut at %d of %d (%s): a torn address book is read: %q", limit, size, res, got)
			}
		}
		if err := fsm.SaveAddressBook(toBook(newB)); err != nil {
			rt.Fatalf("save after the failure: %v", err)
		}
		if got, err := readBook(fsm); err != nil || got != bookLines(newB) {
			rt.Fatalf("the save after the failure cannot be read: %v %q", err, got)
		}
	})
}

// TestKilled: a process saving in a loop is killed at a generated moment.
func TestKilled(t *testing.T) {
	h.Rule("killed: a child process saves two or three versions in turns, forever, and gets SIGKILL after a generated number of microseconds; what is left is exactly one of the versions")
	h.Check(t, 80, 1200, 25*time.Second, 6*time.Minute, func(rt *rapid.T) {
		dir := h.TempDir()
		defer os.RemoveAll(dir)
		folder := filepath.Join(dir, "store")
		fsm, err := storage.NewFileStateMgr(folder)
		h.Must(err)
		j := job{Folder: folder, Limit: -1}
		books := rapid.Bool().Draw(rt, "books")
		pool := h.NodeN(30).Bech32
		n := rapid.IntRange(2, 3).Draw(rt, "versions")
		for i := 0; i < n; i++ {
			if books {
				j.LoopB = append(j.LoopB, genBook(rt, "book", 12))
			} else {
				j.Loop = append(j.Loop, h.State(rt, pool, rapid.IntRange(0, 8).Draw(rt, "parties"), 256))
			}
		}
		if books {
			h.Must(fsm.SaveAddressBook(toBook(j.LoopB[0])))
		} else {
			h.Must(fsm.SaveLocalState(j.Loop[0]))
		}
		c := start(dir, j)
		pipe, err := c.StdoutPipe()
		h.Must(err)
		h.Must(c.Start())
		one := make([]byte, 2)
		if _, err := pipe.Read(one); err != nil || string(one) != "GO" {
			_ = c.Process.Kill()
			_ = c.Wait()
			h.Infra("the saving child did not start: %v", err)
		}
		time.Sleep(time.Duration(rapid.IntRange(0, 5000).Draw(rt, "us")) * time.Microsecond)
		h.Must(c.Process.Kill())
		_ = c.Wait()
		h.Seen("killed", fmt.Sprint(j.LoopB, len(j.Loop), j.Loop), fmt.Sprintf("books=%v versions=%d", books, n))
		if books {
			got, err := readBook(fsm)
			if err != nil {
				rt.Fatalf("after the kill the address book is unreadable: %v", err)
			}
			for _, b := range j.LoopB {
				if got == bookLines(b) {
					return
				}
			}
			rt.Fatalf("after the kill the address book is none of those saved: %q", got)
		}
		got, err := freshRead(folder, pool)
		if err != nil {
			rt.Fatalf("after the kill the share is unreadable: %v", err)
		}
		for _, s := range j.Loop {
			if h.SameState(got, s) == "" {
				return
			}
		}
		rt.Fatalf("after the kill the share is none of those saved")
	})
}

// TestReaders: readers beside writers see complete versions only.
func TestReaders(t *testing.T) {
	h.Rule("readers: 1..3 writers (same or other storage instance) save generated versions of one share and of the address book while readers, through the same and other instances, read; every read gives exactly one of the versions")
	h.Check(t, 60, 800, 25*time.Second, 6*time.Minute, func(rt *rapid.T) {
		dir := h.TempDir()
		defer os.RemoveAll(dir)
		shared, err := storage.NewFileStateMgr(dir)
		h.Must(err)
		pool := h.NodeN(30).Bech32
		nw := rapid.IntRange(1, 3).Draw(rt, "writers")
		var states []storage.KeygenLocalState
		var books []map[string][]string
		lines := map[string]bool{}
		for i := 0; i < nw*2; i++ {
			s := h.State(rt, pool, rapid.IntRange(0, 8).Draw(rt, "parties"), 256)
			s.LocalPartyKey = fmt.Sprint(i)
			states = append(states, s)
			b := genBook(rt, "book", 12)
			books = append(books, b)
			lines[bookLines(b)] = true
		}
		h.Must(shared.SaveLocalState(states[0]))
		h.Must(shared.SaveAddressBook(toBook(books[0])))
		sep := rapid.Bool().Draw(rt, "separate")
		errs := make(chan string, 64)
		say := func(f string, a ...interface{}) {
			select {
			case errs <- fmt.Sprintf(f, a...):
			default:
			}
		}
		inst := func() *storage.FileStateMgr {
			if !sep {
				return shared
			}
			f, err := storage.NewFileStateMgr(dir)
			h.Must(err)
			return f
		}
		var stop int32
		var writers, readers sync.WaitGroup
		for w := 0; w < nw; w++ {
			writers.Add(1)
			go func(w int, f *storage.FileStateMgr) {
				defer writers.Done()
				for i := 0; i < 30; i++ {
					k := w*2 + i%2
					if err := f.SaveLocalState(states[k]); err != nil {
						say("save: %v", err)
					}
					if err := f.SaveAddressBook(toBook(books[k])); err != nil {
						say("save book: %v", err)
					}
				}
			}(w, inst())
		}
		var reads int64
		for r := 0; r < 3; r++ {
			readers.Add(1)
			go func(r int, f *storage.FileStateMgr) {
				defer readers.Done()
				if r == 1 {
					f = shared
				}
				for atomic.LoadInt32(&stop) == 0 {
					atomic.AddInt64(&reads, 1)
					got, err := f.GetLocalState(pool)
					if err != nil {
						say("read beside a writer: %v", err)
						return
					}
					var i int
					if _, err := fmt.Sscan(got.LocalPartyKey, &i); err != nil || i < 0 || i >= len(states) || h.SameState(got, states[i]) != "" {
						say("a torn share was read beside a writer")
						return
					}
					l, err := readBook(f)
					if err != nil || !lines[l] {
						say("a torn address book was read beside a writer: %v %q", err, l)
						return
					}
				}
			}(r, inst())
		}
		writers.Wait()
		atomic.StoreInt32(&stop, 1)
		readers.Wait()
		close(errs)
		h.Seen("readers", fmt.Sprint(nw, sep, states[0].LocalData.Xi), map[string]interface{}{"writers": nw, "separate_instances": sep, "reads": reads})
		for e := range errs {
			rt.Fatalf("%s", e)
		}
	})
}

// TestFailureReported: a save that cannot succeed reports it.
func TestFailureReported(t *testing.T) {
	h.Rule("failure: the folder is gone, is a file, or the target is a directory; expected an error")
	h.Check(t, 60, 400, 10*time.Second, time.Minute, func(rt *rapid.T) {
		dir := h.TempDir()
		defer os.RemoveAll(dir)
		folder := filepath.Join(dir, "store")
		fsm, err := storage.NewFileStateMgr(folder)
		h.Must(err)
		pool := h.NodeN(30 + rapid.IntRange(0, 3).Draw(rt, "k")).Bech32
		kind := rapid.SampledFrom([]string{"gone", "file", "target"}).Draw(rt, "kind")
		switch kind {
		case "gone":
			h.Must(os.RemoveAll(folder))
		case "file":
			h.Must(os.RemoveAll(folder))
			h.Must(os.WriteFile(folder, []byte("x"), 0o644))
		case "target":
			h.Must(os.MkdirAll(filepath.Join(folder, "localstate-"+pool+".json", "x"), 0o755))
			h.Must(os.MkdirAll(filepath.Join(folder, "address_book.seed", "x"), 0o755))
		}
		h.Seen("failure", kind+pool, kind)
		if err := fsm.SaveLocalState(h.State(rt, pool, 1, 8)); err == nil {
			rt.Fatalf("%s: saving a share reported success", kind)
		}
		if err := fsm.SaveAddressBook(toBook(genBook(rt, "book", 4))); err == nil {
			rt.Fatalf("%s: saving the address book reported success", kind)
		}
	})
}
