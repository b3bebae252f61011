// Package c29 decides C29: nodes find one another as they start, and again after a restart.
package c29

import (
	"encoding/base64"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/network"
	ma "github.com/multiformats/go-multiaddr"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"gitlab.com/thorchain/tss/go-tss/storage"
	"gitlab.com/thorchain/tss/go-tss/tss"
	"pgregory.net/rapid"

	"verif/cluster"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// a peer a starting node is told of, or remembers
type told struct {
	kind string
	addr ma.Multiaddr
	host host.Host
}

// start is one node that starts.
type start struct {
	me         *h.Node
	told, book []told
	bookText   string
	desc       string
}

// TestStart: a node starts if and only if one of the peers it knows can be reached, or it knows none.
func TestStart(t *testing.T) {
	h.Rule("start: 24 nodes at a time start with 0-5 peers in the configuration and an address book with 0-5 more (or none, or one that cannot be read; often exactly one of all can be reached), each peer a live one, a port nobody listens on, or a live port of a node with another identity; expected: started, and connected with the live ones, exactly if one is live or none is known; non-trivial: at least one peer known, identified by kinds and order")
	h.Shrink(time.Millisecond)
	h.Check(t, 2, 20, 70*time.Second, 15*time.Minute, func(rt *rapid.T) {
		var live []host.Host
		for i := 0; i < 3; i++ {
			live = append(live, h.RawHost(h.NodeN(60+i)))
		}
		defer func() {
			for _, l := range live {
				l.Close()
			}
		}()
		draw := func(min, max int, label string, kinds ...string) []told {
			var out []told
			for n := rapid.IntRange(min, max).Draw(rt, label); len(out) < n; {
				k := rapid.IntRange(0, 2).Draw(rt, "host")
				p := told{kind: rapid.SampledFrom(kinds).Draw(rt, "kind")}
				full := h.FullAddr(live[k]).String()
				switch p.kind {
				case "live":
					p.host = live[k]
				case "dead":
					full = fmt.Sprintf("/ip4/127.0.0.1/tcp/%d/p2p/%s", cluster.FreePort(), h.NodeN(70+k).Peer)
				case "impostor":
					full = strings.Replace(full, live[k].ID().String(), h.NodeN(80+k).Peer.String(), 1)
				}
				a, err := ma.NewMultiaddr(full)
				h.Must(err)
				p.addr = a
				out = append(out, p)
			}
			return out
		}
		var starts []*start
		for i := 0; i < 24; i++ {
			s := &start{me: h.NodeN(i)}
			kind := rapid.IntRange(0, 9).Draw(rt, "book")
			if kind < 6 {
				s.told = draw(0, 3, "told", "live", "dead", "dead", "impostor")
			}
			switch kind {
			case 0, 1:
			case 6, 7, 8, 9:
				// exactly one can be reached
				s.told = draw(1, 4, "told", "dead", "dead", "dead", "impostor")
				s.book = draw(1, 4, "remembered", "dead", "dead", "dead", "impostor")
				in := &s.told
				if kind%2 == 0 {
					in = &s.book
				}
				l := draw(1, 1, "one", "live")
				at := rapid.IntRange(0, len(*in)).Draw(rt, "at")
				*in = append(append(append([]told(nil), (*in)[:at]...), l...), (*in)[at:]...)
			case 2:
				s.bookText = rapid.SampledFrom([]string{"x\n", "/ip4/1.2.3/tcp/1\n", "/ip4/127.0.0.1/tcp/1/p2p/x\n"}).Draw(rt, "unreadable")
			default:
				s.book = draw(0, 3, "remembered", "live", "dead", "dead", "impostor")
			}
			for _, p := range s.book {
				s.bookText += p.addr.String() + "\n"
			}
			var kinds []string
			for _, p := range s.told {
				kinds = append(kinds, p.kind)
			}
			s.desc = fmt.Sprintf("told %v, book %q", kinds, s.bookText)
			kinds = append(kinds, "|")
			for _, p := range s.book {
				kinds = append(kinds, p.kind)
			}
			if s.bookText != "" && len(s.book) == 0 {
				kinds = append(kinds, s.bookText)
			}
			key := strings.Join(kinds, " ")
			if key == "|" {
				key = ""
			}
			h.Seen("start", key, kinds)
			starts = append(starts, s)
		}
		dir := h.TempDir()
		defer os.RemoveAll(dir)
		failures := make([]string, len(starts))
		var wg sync.WaitGroup
		for i, s := range starts {
			base := filepath.Join(dir, fmt.Sprint(i))
			h.Must(os.MkdirAll(base, 0o755))
			if s.bookText != "" {
				h.Must(ioutil.WriteFile(filepath.Join(base, "address_book.seed"), []byte(s.bookText), 0o644))
			}
			wg.Add(1)
			go func(i int, s *start) {
				defer wg.Done()
				failures[i] = s.run(base)
			}(i, s)
		}
		wg.Wait()
		for i, f := range failures {
			if f != "" {
				rt.Fatalf("%s: %s", starts[i].desc, f)
			}
		}
	})
}

func (s *start) run(base string) string {
	reachable := map[host.Host]bool{}
	for _, p := range append(append([]told(nil), s.told...), s.book...) {
		if p.kind == "live" {
			reachable[p.host] = true
		}
	}
	want := len(reachable) > 0 || len(s.told)+len(s.book) == 0
	var boot []ma.Multiaddr
	for _, p := range s.told {
		boot = append(boot, p.addr)
	}
	begin := time.Now()
	var srv *tss.TssServer
	var err error
	for try := 0; try < 4; try++ {
		srv, err = tss.NewTss(boot, cluster.FreePort(), s.me.Priv, "verif", base, cluster.Conf(time.Second, time.Second, time.Second), h.PreParams(s.me.Idx), "")
		if err == nil || !strings.Contains(err.Error(), "address already in use") {
			break
		}
	}
	if srv != nil {
		defer srv.Stop()
	}
	if (err == nil) != want {
		return fmt.Sprintf("error %v after %v, %d peers can be reached", err, time.Since(begin), len(reachable))
	}
	if err != nil {
		if srv != nil {
			return "an error and a node"
		}
		return ""
	}
	for l := range reachable {
		if l.Network().Connectedness(s.me.Peer) != network.Connected {
			return fmt.Sprintf("started, but not connected with %s", l.ID())
		}
	}
	return ""
}

// TestLate: the only peer comes up while the node is starting.
func TestLate(t *testing.T) {
	h.Rule("late: the only live peer of a starting node, told or remembered, next to 0-2 dead ones, comes up 0.5-12 s after the node begins to start; expected: started and connected; non-trivial: every case, identified by delay and place")
	h.Shrink(time.Millisecond)
	h.Check(t, 1, 6, 60*time.Second, 10*time.Minute, func(rt *rapid.T) {
		type late struct {
			me, peer *h.Node
			port     int
			delay    time.Duration
			book     bool
			dead     int
			at       int
		}
		var ls []late
		for i := 0; i < 6; i++ {
			l := late{me: h.NodeN(i), peer: h.NodeN(60 + i), port: cluster.FreePort()}
			l.delay = time.Duration(rapid.IntRange(500, 12000).Draw(rt, "delay")) * time.Millisecond
			l.book = rapid.Bool().Draw(rt, "remembered")
			l.dead = rapid.IntRange(0, 2).Draw(rt, "dead")
			l.at = rapid.IntRange(0, l.dead).Draw(rt, "at")
			h.Seen("late", fmt.Sprint(l.delay, l.book, l.dead, l.at), fmt.Sprintf("after %v, remembered %v, %d dead ones", l.delay, l.book, l.dead))
			ls = append(ls, l)
		}
		dir := h.TempDir()
		defer os.RemoveAll(dir)
		failures := make([]string, len(ls))
		var wg sync.WaitGroup
		for i, l := range ls {
			wg.Add(1)
			go func(i int, l late) {
				defer wg.Done()
				base := filepath.Join(dir, fmt.Sprint(i))
				h.Must(os.MkdirAll(base, 0o755))
				var addrs []ma.Multiaddr
				for k := 0; k <= l.dead; k++ {
					text := fmt.Sprintf("/ip4/127.0.0.1/tcp/%d/p2p/%s", cluster.FreePort(), h.NodeN(80+k).Peer)
					if k == l.at {
						text = fmt.Sprintf("/ip4/127.0.0.1/tcp/%d/p2p/%s", l.port, l.peer.Peer)
					}
					a, err := ma.NewMultiaddr(text)
					h.Must(err)
					addrs = append(addrs, a)
				}
				if l.book {
					var text string
					for _, a := range addrs {
						text += a.String() + "\n"
					}
					h.Must(ioutil.WriteFile(filepath.Join(base, "address_book.seed"), []byte(text), 0o644))
					addrs = nil
				}
				up := make(chan *tss.TssServer, 1)
				go func() {
					time.Sleep(l.delay)
					s, err := tss.NewTss(nil, l.port, l.peer.Priv, "verif", filepath.Join(dir, fmt.Sprint("peer", i)), cluster.Conf(time.Second, time.Second, time.Second), h.PreParams(i), "")
					if err != nil {
						h.Infra("the late peer does not start: %v", err)
					}
					up <- s
				}()
				s, err := tss.NewTss(addrs, cluster.FreePort(), l.me.Priv, "verif", base, cluster.Conf(time.Second, time.Second, time.Second), h.PreParams(l.me.Idx), "")
				p := <-up
				defer p.Stop()
				if err != nil {
					failures[i] = fmt.Sprintf("peer up after %v, remembered %v, %d dead ones: %v", l.delay, l.book, l.dead, err)
					return
				}
				s.Stop()
			}(i, l)
		}
		wg.Wait()
		for _, f := range failures {
			if f != "" {
				rt.Fatal(f)
			}
		}
	})
}

// TestRejoin: nodes connected only through others serve requests, remember one another, and rejoin after a restart.
func TestRejoin(t *testing.T) {
	h.Rule("rejoin: 3-5 nodes, each told of 1 or 2 of those before it (a random tree or more), get a signing request (or a key generation); then the address book of each that took part must name every other one that did, at the address it tells; then 1 or more of them are stopped and started again, one after the other, with nothing but their folder (or with one bootstrap peer), and all of them get another signing request; expected: success everywhere, with the same signatures; non-trivial: every case, identified by tree, versions and restarts")
	h.Shrink(time.Second)
	h.Check(t, 4, 40, 60*time.Second, 20*time.Minute, func(rt *rapid.T) {
		n := rapid.IntRange(3, 5).Draw(rt, "nodes")
		var nodes []*h.Node
		boots := make([][]int, n)
		for i := 0; i < n; i++ {
			nodes = append(nodes, h.NodeN(i))
			if i > 0 {
				boots[i] = []int{rapid.IntRange(0, i-1).Draw(rt, "boot")}
				if j := rapid.IntRange(0, i-1).Draw(rt, "second boot"); rapid.IntRange(0, 2).Draw(rt, "two") == 0 && j != boots[i][0] {
					boots[i] = append(boots[i], j)
				}
			}
		}
		ip := func(i int) string { return fmt.Sprintf("127.0.1.%d", i+1) }
		generate := rapid.IntRange(0, 2).Draw(rt, "generate") == 0
		var states []storage.KeygenLocalState
		pool := ""
		if !generate {
			states = h.States(n)
			pool = states[0].PubKey
		}
		version := rapid.SampledFrom([]string{"0.13.0", "0.14.0"}).Draw(rt, "version")
		version2 := rapid.SampledFrom([]string{"0.13.0", "0.14.0"}).Draw(rt, "version afterwards")
		restart := rapid.Permutation(seq(n)).Draw(rt, "restarted")[:rapid.IntRange(1, n).Draw(rt, "restarts")]
		told := rapid.SampledFrom([]bool{false, false, true}).Draw(rt, "told again")
		what := fmt.Sprintf("%d nodes told of %v, generate %v, version %s, restart %v (told again %v), version %s", n, boots, generate, version, restart, told, version2)
		h.Seen("rejoin", what, what)
		c := cluster.With(nodes, cluster.Conf(40*time.Second, 90*time.Second, 90*time.Second), states, cluster.Options{Boot: func(i int) []int { return boots[i] }, IP: ip})
		defer c.Close()
		took := map[int]bool{}
		if generate {
			resp := make([]keygen.Response, n)
			all(rt, what, n, func(i int) error {
				var err error
				resp[i], err = c.Servers[i].Keygen(keygen.NewRequest(h.Bech32s(nodes), 3, version))
				return err
			})
			for i, r := range resp {
				if r.Status != common.Success || r.PubKey != resp[0].PubKey {
					rt.Fatalf("%s: node %d: %+v", what, i, r)
				}
				took[i] = true
			}
			pool = resp[0].PubKey
		} else {
			sign(rt, c, what, pool, "aGVsbG8=", 5, version)
			for i := range nodes {
				// with a leader only some take part
				took[i] = version == "0.13.0"
			}
		}
		for i := range nodes {
			if took[i] {
				book, err := ioutil.ReadFile(filepath.Join(c.Base(i), "address_book.seed"))
				if err != nil {
					rt.Fatalf("%s: node %d took part and has no address book: %v", what, i, err)
				}
				lines := strings.Split(string(book), "\n")
				for j, a := range c.Addrs {
					if j != i && !contains(lines, a.String()) {
						rt.Fatalf("%s: node %d does not remember node %d at %s: %q", what, i, j, a, lines)
					}
				}
			}
		}
		for _, i := range restart {
			if _, err := os.Stat(filepath.Join(c.Base(i), "address_book.seed")); err != nil && !told {
				continue // it did not take part and knows nobody
			}
			c.Stop(i)
			var boot []ma.Multiaddr
			if told {
				boot = []ma.Multiaddr{c.Addrs[(i+1)%n]}
			}
			if err := c.Start(i, boot); err != nil {
				rt.Fatalf("%s: node %d does not start again: %v", what, i, err)
			}
		}
		msg := base64.StdEncoding.EncodeToString(append([]byte{1}, h.Bytes(rapid.Uint64().Draw(rt, "message"), 31)...))
		sign(rt, c, what+", afterwards", pool, msg, 6, version2)
	})
}

// all calls f for every node at once.
func all(rt *rapid.T, what string, n int, f func(i int) error) {
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); errs[i] = f(i) }(i)
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(250 * time.Second):
		rt.Fatalf("%s: a call has not returned after 250 s", what)
	}
	for i, err := range errs {
		if err != nil {
			rt.Fatalf("%s: node %d: %v", what, i, err)
		}
	}
}

func sign(rt *rapid.T, c *cluster.Cluster, what, pool, msg string, height int64, version string) {
	resp := make([]keysign.Response, len(c.Nodes))
	all(rt, what, len(c.Nodes), func(i int) error {
		var err error
		resp[i], err = c.Servers[i].KeySign(keysign.NewRequest(pool, []string{msg}, height, h.Bech32s(c.Nodes), version))
		return err
	})
	for i, r := range resp {
		if r.Status != common.Success || len(r.Signatures) != 1 || !reflect.DeepEqual(r.Signatures, resp[0].Signatures) {
			rt.Fatalf("%s: node %d: %+v, node 0: %+v", what, i, r, resp[0])
		}
	}
}

func contains(s []string, v string) bool {
	i := sort.SearchStrings(append([]string(nil), sortedCopy(s)...), v)
	return i < len(s) && sortedCopy(s)[i] == v
}

func sortedCopy(s []string) []string { return h.Sorted(append([]string(nil), s...)) }

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}
