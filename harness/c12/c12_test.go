// Package c12 decides C12: leaderless party formation reports exactly the reachable participants.
package c12

import (
	"errors"
	"fmt"
	"sort"
	"sync"
	"testing"
	"time"

	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"pgregory.net/rapid"

	"verif/h"
	"verif/party"
)

func TestMain(m *testing.M) { h.Main(m) }

const timeout = 4 * time.Second

const (
	joins  = iota
	ghost  // only sends the request
	absent // never asks
)

type meddle struct {
	text     string
	from, to int
	leader   bool
	at       time.Duration
	bytes    []byte
}

type result struct {
	peers   []int
	err     error
	elapsed time.Duration
}

type ceremony struct {
	id      string
	members []int
	outs    []int
	again   bool
	order   map[int][]string
	role    map[int]int
	deaf    map[int]bool
	delay   map[int]time.Duration
	meddles []meddle
	res     map[int]*result
}

// draw makes a ceremony; with prev, another attempt at that one.
func draw(rt *rapid.T, nodes []*h.Node, deaf map[int]bool, k int, prev *ceremony) *ceremony {
	c := &ceremony{id: fmt.Sprintf("ceremony-%d-%d", k, rapid.IntRange(0, 1<<30).Draw(rt, "id")), order: map[int][]string{}, role: map[int]int{}, delay: map[int]time.Duration{}, deaf: deaf, res: map[int]*result{}}
	var all []int
	for i := range nodes {
		all = append(all, i)
	}
	n := rapid.IntRange(2, len(nodes)-2).Draw(rt, "n")
	perm := h.Permute(rt, all, "members")
	full := rapid.IntRange(0, 2).Draw(rt, "full") == 0
	if full { // nobody deaf in it, if there are enough others
		sort.SliceStable(perm, func(a, b int) bool { return !deaf[perm[a]] && deaf[perm[b]] })
	}
	c.members = perm[:n]
	outs := perm[n:]
	if prev != nil {
		c.id, c.members, outs, c.again = prev.id, prev.members, prev.outs, true
	}
	c.outs = outs
	var ids []string
	for _, i := range c.members {
		ids = append(ids, nodes[i].Peer.String())
	}
	for _, i := range c.members {
		c.order[i] = h.Permute(rt, ids, "order")
		c.delay[i] = time.Duration(rapid.SampledFrom([]int{0, 0, 50, 150, 300, 700}).Draw(rt, "delay")) * time.Millisecond
		switch {
		case deaf[i]:
			c.role[i] = absent
		case full:
		default:
			c.role[i] = rapid.SampledFrom([]int{joins, joins, joins, ghost, absent}).Draw(rt, "role")
		}
	}
	for k := rapid.IntRange(0, 4).Draw(rt, "meddles"); k > 0; k-- {
		kind := rapid.SampledFrom([]string{"request", "requestLeader", "requestOther", "response", "garbage", "trunc"}).Draw(rt, "meddle")
		md := meddle{from: rapid.SampledFrom(outs).Draw(rt, "mfrom"), to: rapid.SampledFrom(c.members).Draw(rt, "mto"), at: time.Duration(rapid.IntRange(0, 900).Draw(rt, "mat")) * time.Millisecond}
		switch kind {
		case "request":
			md.bytes = party.Request(c.id, false)
		case "requestLeader":
			md.bytes, md.leader = party.Request(c.id, true), true
		case "requestOther":
			md.from = rapid.SampledFrom(c.members).Draw(rt, "mmember")
			md.bytes = party.Request(c.id+"x", false)
		case "response":
			md.bytes, md.leader = party.Response(c.id, messages.JoinPartyLeaderComm_Success, ids), true
		case "garbage":
			md.bytes = party.Frame(h.Bytes(uint64(rapid.IntRange(0, 1<<20).Draw(rt, "gseed")), rapid.IntRange(0, 80).Draw(rt, "glen")))
		case "trunc":
			b := party.Request(c.id, false)
			md.bytes = b[:rapid.IntRange(0, len(b)-1).Draw(rt, "cut")]
		}
		if md.from == md.to {
			continue
		}
		md.text = fmt.Sprintf("%s(%d>%d@%v)", kind, md.from, md.to, md.at)
		c.meddles = append(c.meddles, md)
	}
	return c
}

func (c *ceremony) describe() string {
	s := fmt.Sprintf("%s again=%v members=%v roles=%v delays=%v meddles=[", c.id, c.again, c.members, c.role, c.delay)
	for _, m := range c.meddles {
		s += m.text + " "
	}
	return s + "]"
}

// TestJoin: several concurrent ceremonies among the same hosts.
func TestJoin(t *testing.T) {
	h.Rule("join: 4..8 in-memory hosts with link delays, up to two of them deaf, 2..5 concurrent leaderless ceremonies among drawn subsets (2..6), participants that join at drawn times, only ask, or stay away, half of the time a second attempt at the same ceremonies with other absences, and interference (outsiders' requests on either protocol, other ids, forged responses, garbage, truncated frames); every result is compared with who asked; non-trivial: somebody was away, late or meddled with, keyed by the ceremony")
	h.Shrink(20 * time.Second)
	h.Check(t, 9, 600, 50*time.Second, 40*time.Minute, func(rt *rapid.T) {
		hosts := rapid.IntRange(4, 8).Draw(rt, "hosts")
		nodes := h.DistinctNodes(rt, hosts, 30, "nodes")
		lat := rapid.SampledFrom([]int{0, 2, 10, 30}).Draw(rt, "latency")
		deaf := map[int]bool{}
		for k := rapid.IntRange(0, 2).Draw(rt, "ndeaf"); k > 0; k-- {
			deaf[rapid.IntRange(0, hosts-1).Draw(rt, "deaf")] = true
		}
		var cs []*ceremony
		for k := rapid.IntRange(2, 5).Draw(rt, "ceremonies"); k > 0; k-- {
			cs = append(cs, draw(rt, nodes, deaf, k, nil))
		}
		attempts := [][]*ceremony{cs}
		if rapid.Bool().Draw(rt, "again") {
			var more []*ceremony
			for _, c := range cs {
				if rapid.IntRange(0, 3).Draw(rt, "this one") > 0 {
					more = append(more, draw(rt, nodes, deaf, 0, c))
				}
			}
			attempts = append(attempts, more)
		}
		desc := ""
		for _, c := range flat(attempts) {
			desc += "\n  " + c.describe()
		}
		h.Case("hosts=%d lat=%d deaf=%v %s", hosts, lat, deaf, desc)
		m := party.New(nodes, timeout, func(i, j int) time.Duration { return time.Duration((i*7+j*3)%4*lat) * time.Millisecond / 2 })
		defer m.Close()
		for i := range deaf {
			m.Unhandle(i)
		}
		for _, cs := range attempts {
			var wg sync.WaitGroup
			for _, c := range cs {
				c := c
				for _, md := range c.meddles {
					md := md
					wg.Add(1)
					go func() {
						defer wg.Done()
						time.Sleep(md.at)
						proto := party.Leaderless
						if md.leader {
							proto = party.Leader
						}
						_ = m.Raw(md.from, md.to, proto, md.bytes)
					}()
				}
				var mu sync.Mutex
				for _, i := range c.members {
					i := i
					if c.role[i] == absent {
						continue
					}
					wg.Add(1)
					go func() {
						defer wg.Done()
						time.Sleep(c.delay[i])
						if c.role[i] == ghost {
							for k := 0; k < 3; k++ {
								for _, j := range c.members {
									if j != i {
										_ = m.Raw(i, j, party.Leaderless, party.Request(c.id, false))
									}
								}
								time.Sleep(500 * time.Millisecond)
							}
							return
						}
						start := time.Now()
						ps, err := m.PC[i].JoinPartyWithRetry(c.id, append([]string{}, c.order[i]...))
						r := &result{peers: m.Indices(ps), err: err, elapsed: time.Since(start)}
						mu.Lock()
						c.res[i] = r
						mu.Unlock()
					}()
				}
			}
			returned := make(chan struct{})
			go func() { wg.Wait(); close(returned) }()
			select {
			case <-returned:
			case <-time.After(15 * timeout):
				rt.Fatalf("a call has not returned after %v:%s", 15*timeout, desc)
			}
			for _, c := range cs {
				c.check(rt)
			}
		}
	})
}

func (c *ceremony) check(rt *rapid.T) {
	what := c.describe()
	asks := 0
	late := false
	for _, i := range c.members {
		if c.role[i] != absent {
			asks++
		}
		late = late || c.delay[i] > 100*time.Millisecond
	}
	key := ""
	if late || len(c.meddles) > 0 || len(c.res) < len(c.members) {
		key = what
	}
	str := ""
	for _, i := range c.members {
		if r := c.res[i]; r != nil {
			str += fmt.Sprintf(" %d:{%v %v %v}", i, r.peers, r.err, r.elapsed.Round(time.Millisecond))
		}
	}
	h.Seen("join", key, map[string]interface{}{"ceremony": what, "results": str})
	fail := func(f string, a ...interface{}) { rt.Fatalf("%s\n%s\nresults:%s", fmt.Sprintf(f, a...), what, str) }
	for i, r := range c.res {
		seen := map[int]bool{}
		for _, p := range r.peers {
			if p < 0 || seen[p] {
				fail("node %d reports %v", i, r.peers)
			}
			seen[p] = true
		}
		for _, p := range c.members {
			if want := p == i || c.role[p] != absent; want != seen[p] {
				fail("node %d reports %v, but who asked is different (%d)", i, r.peers, p)
			}
			delete(seen, p)
		}
		if len(seen) > 0 {
			fail("node %d reports outsiders: %v", i, r.peers)
		}
		if asks == len(c.members) {
			if r.err != nil {
				fail("everybody asked and node %d reports %v", i, r.err)
			}
			if r.elapsed > timeout-700*time.Millisecond {
				fail("everybody asked and node %d waited on: %v", i, r.elapsed)
			}
			h.Label("complete")
		} else {
			if !errors.Is(r.err, p2p.ErrJoinPartyTimeout) {
				fail("somebody is away and node %d reports %v", i, r.err)
			}
			h.Label("incomplete")
		}
	}
}

func flat(attempts [][]*ceremony) []*ceremony {
	var out []*ceremony
	for _, cs := range attempts {
		out = append(out, cs...)
	}
	return out
}

// TestTime: with somebody away, a call ends when its time is up, whenever the others turn up.
func TestTime(t *testing.T) {
	h.Rule("time: up to 6 ceremonies at once, time-out 8 s, in each at least one participant never asks and the others ask at generated moments up to 7.6 s, some several times; each call ends with the time-out error within 8-12 s of its start; non-trivial: somebody asks more than a second after somebody else, identified by all moments")
	const limit = 8 * time.Second
	h.Check(t, 1, 30, 20*time.Second, 8*time.Minute, func(rt *rapid.T) {
		hosts := rapid.IntRange(3, 5).Draw(rt, "hosts")
		var nodes []*h.Node
		for i := 0; i < hosts; i++ {
			nodes = append(nodes, h.NodeN(i))
		}
		m := party.New(nodes, limit, func(i, j int) time.Duration { return time.Millisecond })
		defer m.Close()
		type call struct {
			node    int
			at      time.Duration
			more    []time.Duration
			elapsed time.Duration
			err     error
		}
		var all [][]*call
		desc := ""
		spread := false
		for k := 0; k < 6; k++ {
			away := rapid.IntRange(0, hosts-1).Draw(rt, "away")
			var cs []*call
			for i := 0; i < hosts; i++ {
				if i == away {
					continue
				}
				c := &call{node: i, at: time.Duration(rapid.SampledFrom([]int{0, 0, 10, 1500, 4000, 7000, 7600}).Draw(rt, "at")) * time.Millisecond}
				for x := rapid.IntRange(0, 3).Draw(rt, "again"); x > 0; x-- {
					c.more = append(c.more, time.Duration(rapid.IntRange(0, 12000).Draw(rt, "again at"))*time.Millisecond)
				}
				spread = spread || c.at > time.Second
				cs = append(cs, c)
				desc += fmt.Sprintf(" [%d: node %d at %v, again %v]", k, i, c.at, c.more)
			}
			all = append(all, cs)
		}
		key := ""
		if spread {
			key = desc
		}
		h.Seen("time", key, desc)
		var wg sync.WaitGroup
		var ids []string
		for _, nd := range nodes {
			ids = append(ids, nd.Peer.String())
		}
		for k, cs := range all {
			id := fmt.Sprintf("time-%d", k)
			for _, c := range cs {
				wg.Add(1)
				go func(c *call) {
					defer wg.Done()
					for _, x := range c.more {
						x := x
						wg.Add(1)
						go func() {
							defer wg.Done()
							time.Sleep(x)
							for j := range nodes {
								if j != c.node {
									_ = m.Raw(c.node, j, party.Leaderless, party.Request(id, false))
								}
							}
						}()
					}
					time.Sleep(c.at)
					start := time.Now()
					_, c.err = m.PC[c.node].JoinPartyWithRetry(id, append([]string(nil), ids...))
					c.elapsed = time.Since(start)
				}(c)
			}
		}
		wg.Wait()
		for k, cs := range all {
			for _, c := range cs {
				if !errors.Is(c.err, p2p.ErrJoinPartyTimeout) || c.elapsed < limit-500*time.Millisecond || c.elapsed > limit+4*time.Second {
					rt.Fatalf("ceremony %d: the call of node %d ended after %v with %v\nin:%s", k, c.node, c.elapsed, c.err, desc)
				}
			}
		}
	})
}
