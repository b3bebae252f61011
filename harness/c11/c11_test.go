// Package c11 decides C11: leader-led party formation yields one agreed party of the right size.
package c11

import (
	"errors"
	"fmt"
	"sort"
	"sync"
	"testing"
	"time"

	"gitlab.com/thorchain/tss/go-tss/messages"
	"gitlab.com/thorchain/tss/go-tss/p2p"
	"pgregory.net/rapid"

	"verif/cer"
	"verif/h"
	"verif/party"
)

func TestMain(m *testing.M) { h.Main(m) }

const timeout = 3 * time.Second

// roles of a participant in a ceremony
const (
	joins  = iota // asks to join through the coordinator
	ghost         // only sends the request
	absent        // is connected but never asks
)

type meddle struct {
	kind     string
	from, to int
	at       time.Duration
	bytes    []byte
	text     string
}

type result struct {
	peers   []int
	leader  string
	err     error
	elapsed time.Duration
}

type ceremony struct {
	id        string
	height    int64
	members   []int
	outs      []int
	again     bool
	order     map[int][]string
	role      map[int]int
	delay     map[int]time.Duration
	threshold int
	signed    map[int]time.Duration // node -> when the awaited signature arrives
	meddles   []meddle
	res       map[int]*result
}

// draw makes a ceremony; with prev, another attempt at that one.
func draw(rt *rapid.T, nodes []*h.Node, k int, prev *ceremony) *ceremony {
	c := &ceremony{id: fmt.Sprintf("ceremony-%d-%d", k, rapid.IntRange(0, 1<<30).Draw(rt, "id")), height: int64(rapid.IntRange(1, 100000).Draw(rt, "height")),
		order: map[int][]string{}, role: map[int]int{}, delay: map[int]time.Duration{}, signed: map[int]time.Duration{}, res: map[int]*result{}}
	var all []int
	for i := range nodes {
		all = append(all, i)
	}
	n := rapid.IntRange(3, len(nodes)-2).Draw(rt, "n")
	perm := h.Permute(rt, all, "members")
	c.members = perm[:n]
	outs := perm[n:]
	c.threshold = n - 1
	if rapid.IntRange(0, 2).Draw(rt, "quorum") > 0 {
		c.threshold = cer.Threshold(n)
	}
	if prev != nil {
		n = len(prev.members)
		c.id, c.height, c.members, outs, c.threshold, c.again = prev.id, prev.height, prev.members, prev.outs, prev.threshold, true
	}
	c.outs = outs
	var ids []string
	for _, i := range c.members {
		ids = append(ids, nodes[i].Peer.String())
	}
	leader, err := p2p.LeaderNode(c.id, c.height, ids)
	if err != nil {
		rt.Fatalf("no leader for %v: %v", ids, err)
	}
	lead := -1
	for _, i := range c.members {
		c.order[i] = h.Permute(rt, ids, "order")
		c.delay[i] = time.Duration(rapid.SampledFrom([]int{0, 0, 50, 150, 300, 600}).Draw(rt, "delay")) * time.Millisecond
		if nodes[i].Peer.String() == leader {
			lead = i
		}
	}
	// most ceremonies have everybody there or exactly enough or one too few
	gone := rapid.SampledFrom([]int{0, 0, n - 1 - c.threshold, n - c.threshold, 1}).Draw(rt, "gone")
	var rest []int
	for _, i := range c.members {
		if i != lead {
			rest = append(rest, i)
		}
	}
	rest = h.Permute(rt, rest, "rest")
	if gone > len(rest) {
		gone = len(rest)
	}
	for k, i := range rest {
		if k < gone {
			c.role[i] = absent
		} else if rapid.IntRange(0, 7).Draw(rt, "ghost") == 0 {
			c.role[i] = ghost
		}
	}
	if rapid.IntRange(0, 6).Draw(rt, "leaderGone") == 0 {
		c.role[lead] = absent
	}
	if rapid.IntRange(0, 3).Draw(rt, "signed") == 0 {
		for _, i := range c.members {
			if rapid.Bool().Draw(rt, "gets") {
				c.signed[i] = time.Duration(rapid.IntRange(0, 500).Draw(rt, "signedAt")) * time.Millisecond
			}
		}
	}
	// interference: by outsiders, by members that are not the leader, about this or another id
	for k := rapid.IntRange(0, 4).Draw(rt, "meddles"); k > 0; k-- {
		kind := rapid.SampledFrom([]string{"request", "response", "requestOld", "requestOther", "responseOther", "responseMember", "garbage", "trunc", "unknown"}).Draw(rt, "meddle")
		md := meddle{kind: kind, from: rapid.SampledFrom(outs).Draw(rt, "mfrom"), to: rapid.SampledFrom(c.members).Draw(rt, "mto"), at: time.Duration(rapid.IntRange(0, 900).Draw(rt, "mat")) * time.Millisecond}
		forged := append([]string{}, ids[:rapid.IntRange(1, len(ids)).Draw(rt, "forged")]...)
		if rapid.Bool().Draw(rt, "withOutsider") {
			forged = append(forged, nodes[md.from].Peer.String())
		}
		kindOf := rapid.SampledFrom([]messages.JoinPartyLeaderComm_ResponseType{messages.JoinPartyLeaderComm_Success, messages.JoinPartyLeaderComm_Timeout, messages.JoinPartyLeaderComm_Unknown}).Draw(rt, "rtype")
		switch kind {
		case "request":
			md.bytes = party.Request(c.id, true)
		case "requestOld":
			md.bytes = party.Request(c.id, false)
		case "requestOther":
			md.from = rapid.SampledFrom(c.members).Draw(rt, "mmember")
			md.bytes = party.Request(c.id+"x", true)
		case "response":
			md.bytes = party.Response(c.id, kindOf, forged)
		case "responseOther":
			md.from = lead
			md.bytes = party.Response(c.id+"x", kindOf, forged)
		case "responseMember":
			md.from = rest[rapid.IntRange(0, len(rest)-1).Draw(rt, "mrest")]
			md.bytes = party.Response(c.id, kindOf, forged)
		case "garbage":
			md.bytes = party.Frame(h.Bytes(uint64(rapid.IntRange(0, 1<<20).Draw(rt, "gseed")), rapid.IntRange(0, 80).Draw(rt, "glen")))
		case "trunc":
			b := party.Request(c.id, true)
			md.bytes = b[:rapid.IntRange(0, len(b)-1).Draw(rt, "cut")]
		case "unknown":
			md.bytes = party.Response(c.id, kindOf, []string{"not a peer", ""})
		}
		if md.from == md.to {
			continue
		}
		md.text = fmt.Sprintf("%s(%d>%d@%v)", kind, md.from, md.to, md.at)
		c.meddles = append(c.meddles, md)
	}
	return c
}

func (c *ceremony) describe(nodes []*h.Node) string {
	s := fmt.Sprintf("%s again=%v height=%d members=%v threshold=%d roles=%v delays=%v signed=%v meddles=[", c.id, c.again, c.height, c.members, c.threshold, c.role, c.delay, c.signed)
	for _, m := range c.meddles {
		s += m.text + " "
	}
	return s + "]"
}

// TestJoin: several concurrent ceremonies among the same hosts.
func TestJoin(t *testing.T) {
	h.Rule("join: 5..9 in-memory hosts with link delays, 2..5 concurrent leader-led ceremonies among drawn subsets (3..7), threshold all-but-one or the signing threshold, participants that join late, only ask, or stay away, leader away, signature notifications, half of the time a second attempt at the same ceremonies with other absences, and interference (outsiders' requests and responses, forged responses of members, other ids, wrong protocol, garbage, truncated frames); every result is compared with the party formation rule; non-trivial: somebody was away, late, signed or meddled with, keyed by the ceremony")
	h.Shrink(20 * time.Second)
	h.Check(t, 12, 800, 50*time.Second, 40*time.Minute, func(rt *rapid.T) {
		hosts := rapid.IntRange(5, 9).Draw(rt, "hosts")
		nodes := h.DistinctNodes(rt, hosts, 30, "nodes")
		lat := rapid.SampledFrom([]int{0, 2, 10, 30}).Draw(rt, "latency")
		var cs []*ceremony
		for k := rapid.IntRange(2, 5).Draw(rt, "ceremonies"); k > 0; k-- {
			cs = append(cs, draw(rt, nodes, k, nil))
		}
		attempts := [][]*ceremony{cs}
		if rapid.Bool().Draw(rt, "again") {
			var more []*ceremony
			for _, c := range cs {
				if rapid.IntRange(0, 3).Draw(rt, "this one") > 0 {
					more = append(more, draw(rt, nodes, 0, c))
				}
			}
			attempts = append(attempts, more)
		}
		desc := ""
		for _, c := range flat(attempts) {
			desc += "\n  " + c.describe(nodes)
		}
		h.Case("hosts=%d lat=%d %s", hosts, lat, desc)
		m := party.New(nodes, timeout, func(i, j int) time.Duration { return time.Duration((i*7+j*3)%4*lat) * time.Millisecond / 2 })
		defer m.Close()
		for _, cs := range attempts {
			var wg sync.WaitGroup
			for _, c := range cs {
				c := c
				for _, md := range c.meddles {
					md := md
					wg.Add(1)
					go func() {
						defer wg.Done()
						time.Sleep(md.at)
						proto := party.Leader
						if md.kind == "requestOld" {
							proto = party.Leaderless
						}
						_ = m.Raw(md.from, md.to, proto, md.bytes)
					}()
				}
				var mu sync.Mutex
				for _, i := range c.members {
					i := i
					if c.role[i] == absent {
						continue
					}
					wg.Add(1)
					go func() {
						defer wg.Done()
						time.Sleep(c.delay[i])
						if c.role[i] == ghost {
							lead := c.leader(nodes)
							for k := 0; k < 4; k++ { // as a member does, in case the leader is not ready
								_ = m.Raw(i, lead, party.Leader, party.Request(c.id, true))
								time.Sleep(300 * time.Millisecond)
							}
							return
						}
						ch := make(chan string, 1)
						if at, ok := c.signed[i]; ok {
							time.AfterFunc(at, func() { ch <- "signature received" })
						}
						start := time.Now()
						ps, l, err := m.PC[i].JoinPartyWithLeader(c.id, c.height, append([]string{}, c.order[i]...), c.threshold, ch)
						r := &result{peers: m.Indices(ps), leader: l, err: err, elapsed: time.Since(start)}
						mu.Lock()
						c.res[i] = r
						mu.Unlock()
					}()
				}
			}
			returned := make(chan struct{})
			go func() { wg.Wait(); close(returned) }()
			select {
			case <-returned:
			case <-time.After(15 * timeout):
				rt.Fatalf("a call has not returned after %v:%s", 15*timeout, desc)
			}
			for _, c := range cs {
				c.check(rt, nodes)
			}
		}
	})
}

func (c *ceremony) leader(nodes []*h.Node) int {
	var ids []string
	for _, i := range c.members {
		ids = append(ids, nodes[i].Peer.String())
	}
	l, _ := p2p.LeaderNode(c.id, c.height, ids)
	for _, i := range c.members {
		if nodes[i].Peer.String() == l {
			return i
		}
	}
	return -1
}

func (c *ceremony) check(rt *rapid.T, nodes []*h.Node) {
	lead := c.leader(nodes)
	what := c.describe(nodes) + fmt.Sprintf(" leader=%d", lead)
	key := ""
	if len(c.signed) > 0 || len(c.meddles) > 0 || len(c.res) < len(c.members) {
		key = what
	}
	isMember := map[int]bool{}
	asked := map[int]bool{} // who asked (or may have)
	surely := 0
	for _, i := range c.members {
		isMember[i] = true
		if i == lead || c.role[i] == absent {
			continue
		}
		asked[i] = true
		if _, ok := c.signed[i]; !ok {
			surely++
		}
	}
	str := ""
	for _, i := range c.members {
		if r := c.res[i]; r != nil {
			str += fmt.Sprintf(" %d:{%v %v %v}", i, r.peers, r.err, r.elapsed.Round(time.Millisecond))
		}
	}
	h.Seen("join", key, map[string]interface{}{"ceremony": what, "results": str})
	fail := func(f string, a ...interface{}) { rt.Fatalf("%s\n%s\nresults:%s", fmt.Sprintf(f, a...), what, str) }
	lr := c.res[lead]
	_, leadSigned := c.signed[lead]
	label := "party formed"
	formed := lr != nil && lr.err == nil
	for i, r := range c.res {
		if r.leader != nodes[lead].Peer.String() {
			fail("node %d takes %s for the leader", i, r.leader)
		}
		if errors.Is(r.err, p2p.ErrSignReceived) {
			if _, ok := c.signed[i]; !ok {
				fail("node %d reports a signature nobody announced", i)
			}
			if r.elapsed > timeout-700*time.Millisecond {
				fail("node %d was told of the signature and waited on: %v", i, r.elapsed)
			}
			continue
		}
		if r.err != nil {
			continue
		}
		// success: threshold distinct members that asked, and the leader
		seen := map[int]bool{}
		for _, p := range r.peers {
			if p < 0 || seen[p] || !isMember[p] || (p != lead && !asked[p]) {
				fail("node %d reports the party %v", i, r.peers)
			}
			seen[p] = true
		}
		if !seen[lead] || len(r.peers) != c.threshold+1 {
			fail("node %d reports the party %v", i, r.peers)
		}
		if !formed {
			fail("node %d reports a party, the leader does not", i)
		}
		if !same(r.peers, lr.peers) {
			fail("node %d and the leader disagree", i)
		}
	}
	switch {
	case lr == nil: // the leader is away
		label = "leader away"
		for i, r := range c.res {
			if r.err == nil {
				fail("node %d succeeds without the leader", i)
			}
		}
	case leadSigned && errors.Is(lr.err, p2p.ErrSignReceived):
		label = "leader told of the signature"
	case len(asked) < c.threshold:
		label = "too few"
		if !errors.Is(lr.err, p2p.ErrJoinPartyTimeout) {
			if !(leadSigned && errors.Is(lr.err, p2p.ErrSignReceived)) {
				fail("the leader does not report the timeout")
			}
		}
		// the list it reports is who was there
		got := map[int]bool{}
		for _, p := range lr.peers {
			if p < 0 || got[p] || (p != lead && !asked[p]) {
				fail("the leader reports %v online", lr.peers)
			}
			got[p] = true
		}
		if !got[lead] || len(got) < surely+1 {
			fail("the leader reports %v online", lr.peers)
		}
	case surely >= c.threshold:
		if lr.err != nil {
			fail("enough asked to join, the leader reports %v", lr.err)
		}
		in := map[int]bool{}
		for _, p := range lr.peers {
			in[p] = true
		}
		for i, r := range c.res {
			if in[i] && r.err != nil && !errors.Is(r.err, p2p.ErrSignReceived) {
				fail("node %d is in the party and reports %v", i, r.err)
			}
		}
		if lr.elapsed > timeout-500*time.Millisecond {
			fail("the leader formed the party only after %v", lr.elapsed)
		}
	default:
		label = "depends on the signature"
	}
	// told of the signature well before anything else could end the wait
	if lr == nil || len(asked) < c.threshold {
		for i := range c.signed {
			if r := c.res[i]; r != nil && !errors.Is(r.err, p2p.ErrSignReceived) {
				fail("node %d was told of the signature and reports %v", i, r.err)
			}
		}
	}
	h.Label(label)
}

func same(a, b []int) bool {
	x, y := append([]int{}, a...), append([]int{}, b...)
	sort.Ints(x)
	sort.Ints(y)
	return fmt.Sprint(x) == fmt.Sprint(y)
}

func flat(attempts [][]*ceremony) []*ceremony {
	var out []*ceremony
	for _, cs := range attempts {
		out = append(out, cs...)
	}
	return out
}

// TestTime: without enough participants, or without the leader, a call ends when its time is up.
func TestTime(t *testing.T) {
	h.Rule("time: up to 6 ceremonies at once, time-out 8 s, in which the leader or so many others never ask that no party forms, and the rest ask at generated moments up to 7.6 s, some several times; each call fails, within 12 s of its start; non-trivial: every ceremony, identified by who asks when")
	const limit = 8 * time.Second
	h.Check(t, 1, 30, 20*time.Second, 8*time.Minute, func(rt *rapid.T) {
		hosts := rapid.IntRange(3, 5).Draw(rt, "hosts")
		var nodes []*h.Node
		var ids []string
		for i := 0; i < hosts; i++ {
			nodes = append(nodes, h.NodeN(i))
			ids = append(ids, nodes[i].Peer.String())
		}
		m := party.New(nodes, limit, func(i, j int) time.Duration { return time.Millisecond })
		defer m.Close()
		type call struct {
			node    int
			at      time.Duration
			more    []time.Duration
			elapsed time.Duration
			err     error
		}
		type joint struct {
			id        string
			height    int64
			threshold int
			calls     []*call
		}
		var all []*joint
		desc := ""
		for k := 0; k < 6; k++ {
			c := &joint{id: fmt.Sprintf("time-%d", k), height: int64(rapid.IntRange(1, 1000).Draw(rt, "height"))}
			l, err := p2p.LeaderNode(c.id, c.height, append([]string(nil), ids...))
			h.Must(err)
			var others []int
			lead := -1
			for i, s := range ids {
				if s == l {
					lead = i
				} else {
					others = append(others, i)
				}
			}
			c.threshold = rapid.IntRange(1, hosts-1).Draw(rt, "threshold")
			asking := rapid.Permutation(others).Draw(rt, "asking")
			if rapid.Bool().Draw(rt, "leader asks") {
				asking = append(asking[:rapid.IntRange(0, c.threshold-1).Draw(rt, "how many")], lead)
			}
			d := fmt.Sprintf("ceremony %d of %d nodes, leader %d, threshold %d:", k, hosts, lead, c.threshold)
			for _, i := range asking {
				x := &call{node: i, at: time.Duration(rapid.SampledFrom([]int{0, 0, 10, 1500, 4000, 7000, 7600}).Draw(rt, "at")) * time.Millisecond}
				for y := rapid.IntRange(0, 2).Draw(rt, "again"); y > 0 && i != lead; y-- {
					x.more = append(x.more, time.Duration(rapid.IntRange(0, 12000).Draw(rt, "again at"))*time.Millisecond)
				}
				c.calls = append(c.calls, x)
				d += fmt.Sprintf(" [node %d at %v, again %v]", i, x.at, x.more)
			}
			h.Seen("time", d, d)
			desc += "\n" + d
			all = append(all, c)
		}
		var wg sync.WaitGroup
		for _, c := range all {
			for _, x := range c.calls {
				wg.Add(1)
				go func(c *joint, x *call) {
					defer wg.Done()
					for _, at := range x.more {
						at := at
						wg.Add(1)
						go func() {
							defer wg.Done()
							time.Sleep(at)
							for j := range nodes {
								if j != x.node {
									_ = m.Raw(x.node, j, party.Leader, party.Request(c.id, true))
								}
							}
						}()
					}
					time.Sleep(x.at)
					start := time.Now()
					_, _, x.err = m.PC[x.node].JoinPartyWithLeader(c.id, c.height, append([]string(nil), ids...), c.threshold, make(chan string, 1))
					x.elapsed = time.Since(start)
				}(c, x)
			}
		}
		wg.Wait()
		for k, c := range all {
			for _, x := range c.calls {
				if x.err == nil || x.elapsed > limit+4*time.Second {
					rt.Fatalf("ceremony %d: the call of node %d ended after %v with error %v\nin:%s", k, x.node, x.elapsed, x.err, desc)
				}
			}
		}
	})
}
