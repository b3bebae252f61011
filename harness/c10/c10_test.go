package c10

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"gitlab.com/thorchain/tss/go-tss/p2p"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func ids(rt *rapid.T, min, max int) []string {
	n := rapid.IntRange(min, max).Draw(rt, "n")
	if rapid.Bool().Draw(rt, "realPeers") {
		var out []string
		for _, nd := range h.DistinctNodes(rt, n, 64, "peers") {
			out = append(out, nd.Peer.String())
		}
		return out
	}
	return rapid.SliceOfNDistinct(rapid.StringMatching(`[a-zA-Z0-9]{1,12}`), n, n, rapid.ID[string]).Draw(rt, "ids")
}

// TestC10Order: same leader for every order; the leader is a member; the input is not changed.
func TestC10Order(t *testing.T) {
	h.Rule("C10 order: msgID (hash-like or arbitrary, non-empty), height != 0 (also negative and extreme), 1..20 distinct participants (real peer ids or short strings, incl. digits-only so that naive concatenation could collide), 1..6 permutations; non-trivial when >=2 participants and >=1 non-identity permutation")
	h.Check(t, 6000, 200000, 30*time.Second, 10*time.Minute, func(rt *rapid.T) {
		ps := ids(rt, 1, 20)
		msgID := rapid.OneOf(rapid.StringMatching(`[0-9a-f]{64}`), rapid.StringN(1, 20, 60)).Draw(rt, "msgID")
		height := rapid.OneOf(rapid.Int64Range(1, 1<<40), rapid.Int64().Filter(func(v int64) bool { return v != 0 })).Draw(rt, "height")
		want, err := p2p.LeaderNode(msgID, height, append([]string(nil), ps...))
		if err != nil {
			rt.Fatalf("no leader for a valid input: %v", err)
		}
		found := false
		for _, p := range ps {
			found = found || p == want
		}
		if !found {
			rt.Fatalf("leader %q is not a participant of %v", want, ps)
		}
		k := rapid.IntRange(1, 6).Draw(rt, "perms")
		moved := false
		for i := 0; i < k; i++ {
			q := h.Permute(rt, ps, "perm")
			moved = moved || strings.Join(q, ",") != strings.Join(ps, ",")
			in := append([]string(nil), q...)
			got, err := p2p.LeaderNode(msgID, height, in)
			if err != nil || got != want {
				rt.Fatalf("order changes the leader: %q (err %v) for %v, %q for %v", got, err, q, want, ps)
			}
		}
		key := ""
		if len(ps) > 1 && moved {
			key = fmt.Sprint(ps, msgID, height)
		}
		h.Seen("order", key, map[string]interface{}{"participants": len(ps), "height": height, "leader": want})
	})
}

// TestC10Coverage: over many heights (and over many ids) every participant gets elected.
func TestC10Coverage(t *testing.T) {
	h.Rule("C10 coverage: one participant set of 1..8, one id (or height) fixed and 60*n consecutive heights (or ids); every member must be elected at least once (miss probability < n*e^-60 for a uniform choice); also from a random base height")
	h.Check(t, 120, 3000, 30*time.Second, 10*time.Minute, func(rt *rapid.T) {
		ps := ids(rt, 1, 8)
		msgID := rapid.StringMatching(`[0-9a-f]{64}`).Draw(rt, "msgID")
		base := rapid.Int64Range(1, 1<<40).Draw(rt, "base")
		byID := rapid.Bool().Draw(rt, "byID")
		got := map[string]int{}
		for i := 0; i < 60*len(ps); i++ {
			id, ht := msgID, base+int64(i)
			if byID {
				id, ht = fmt.Sprintf("%s%x", msgID[:60], i), base
			}
			l, err := p2p.LeaderNode(id, ht, append([]string(nil), ps...))
			if err != nil {
				rt.Fatalf("no leader: %v", err)
			}
			got[l]++
		}
		for _, p := range ps {
			if got[p] == 0 {
				rt.Fatalf("participant %q is never elected in %d elections (byID=%v): %v", p, 60*len(ps), byID, got)
			}
		}
		key := ""
		if len(ps) > 1 {
			key = fmt.Sprint(ps, msgID, base, byID)
		}
		h.Seen("coverage", key, map[string]interface{}{"counts": got, "byID": byID})
	})
}

// TestC10Invalid: invalid input is an error and no leader.
func TestC10Invalid(t *testing.T) {
	h.Rule("C10 invalid: any combination with an empty list, an empty id or a zero height is an error without a leader")
	h.Check(t, 500, 5000, 10*time.Second, time.Minute, func(rt *rapid.T) {
		ps := ids(rt, 0, 5)
		msgID := rapid.SampledFrom([]string{"", "abc"}).Draw(rt, "msgID")
		height := rapid.SampledFrom([]int64{0, 1, 77}).Draw(rt, "height")
		l, err := p2p.LeaderNode(msgID, height, ps)
		bad := len(ps) == 0 || msgID == "" || height == 0
		if bad && (err == nil || l != "") {
			rt.Fatalf("invalid input (%v,%q,%d) gives leader %q err %v", ps, msgID, height, l, err)
		}
		if !bad && err != nil {
			rt.Fatalf("valid input refused: %v", err)
		}
		key := ""
		if bad {
			key = fmt.Sprint(ps, msgID, height)
		}
		h.Seen("invalid", key, map[string]interface{}{"n": len(ps), "msgID": msgID, "height": height})
	})
}
