package c20

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/libp2p/go-libp2p-core/peer"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

type row struct {
	Id    string
	Key   string
	Index int
}

func TestC20(t *testing.T) {
	h.Rule("C20: 1..30 distinct participants, two generated orders and every participant (a sampled one per case pair) as local party; the lists must be equal element by element (id, key, index), sorted by key, index i at position i, ids unique, local party = element of its own key; peer ids/pubkeys derived from it equal the independent identity; non-trivial: >=2 participants and two different orders")
	h.Check(t, 1500, 40000, 30*time.Second, 8*time.Minute, func(rt *rapid.T) {
		n := rapid.IntRange(1, 30).Draw(rt, "n")
		ns := h.DistinctNodes(rt, n, 200, "nodes")
		byKey := map[string]*h.Node{}
		for _, nd := range ns {
			byKey[string(nd.Pub)] = nd
		}
		var first []row
		orders := map[string]bool{}
		for i := 0; i < 3; i++ {
			order := h.Permute(rt, ns, "order")
			local := order[rapid.IntRange(0, n-1).Draw(rt, "local")]
			keys := h.Bech32s(order)
			orders[strings.Join(keys, ",")] = true
			ps, lp, err := conversion.GetParties(keys, local.Bech32)
			if err != nil {
				rt.Fatalf("valid list refused: %v", err)
			}
			if len(ps) != n {
				rt.Fatalf("%d parties for %d keys", len(ps), n)
			}
			var rows []row
			ids := map[string]bool{}
			localSeen := 0
			for j, p := range ps {
				rows = append(rows, row{p.Id, new(big.Int).SetBytes(p.Key).Text(16), p.Index})
				if p.Index != j {
					rt.Fatalf("party at position %d has index %d", j, p.Index)
				}
				if ids[p.Id] {
					rt.Fatalf("party id %q used twice", p.Id)
				}
				ids[p.Id] = true
				nd := byKey[string(p.Key)]
				if nd == nil {
					rt.Fatalf("party key %x is not a participant", p.Key)
				}
				pid, err := conversion.GetPeerIDFromPartyID(p)
				if err != nil || pid != nd.Peer {
					rt.Fatalf("party %s maps to peer %s (err %v), want %s", p.Id, pid, err, nd.Peer)
				}
				pk, err := conversion.PartyIDtoPubKey(p)
				if err != nil || pk != nd.Bech32 {
					rt.Fatalf("party %s maps to key %s (err %v), want %s", p.Id, pk, err, nd.Bech32)
				}
				if bytes.Equal(p.Key, local.Pub) {
					localSeen++
					if p != lp && (lp == nil || p.Id != lp.Id || p.Index != lp.Index || !bytes.Equal(p.Key, lp.Key)) {
						rt.Fatalf("local party %v is not the list's %v", lp, p)
					}
				}
			}
			if localSeen != 1 || lp == nil || !bytes.Equal(lp.Key, local.Pub) {
				rt.Fatalf("local party %v is not the one of the local key", lp)
			}
			if !sort.SliceIsSorted(ps, func(a, b int) bool { return bytes.Compare(ps[a].Key, ps[b].Key) < 0 }) {
				rt.Fatalf("party list is not ordered by key")
			}
			if first == nil {
				first = rows
			} else if fmt.Sprint(first) != fmt.Sprint(rows) {
				rt.Fatalf("numbering depends on the order or the local node:\n%v\n%v", first, rows)
			}
			// the maps built from it
			m := conversion.SetupPartyIDMap(ps)
			p2pm := map[string]peer.ID{}
			if err := conversion.SetupIDMaps(m, p2pm); err != nil {
				rt.Fatalf("SetupIDMaps: %v", err)
			}
			if len(m) != n || len(p2pm) != n {
				rt.Fatalf("maps lose parties: %d %d of %d", len(m), len(p2pm), n)
			}
			for _, p := range ps {
				if p2pm[p.Id] != byKey[string(p.Key)].Peer || !bytes.Equal(m[p.Id].Key, p.Key) {
					rt.Fatalf("map entry of %s is wrong", p.Id)
				}
			}
			peers := conversion.GetPeersID(p2pm, local.Peer.String())
			want := map[peer.ID]bool{}
			for _, nd := range ns {
				if nd != local {
					want[nd.Peer] = true
				}
			}
			if len(peers) != len(want) {
				rt.Fatalf("%d other peers, want %d", len(peers), len(want))
			}
			for _, p := range peers {
				if !want[p] {
					rt.Fatalf("peer %s is not another participant (or repeated)", p)
				}
				delete(want, p)
			}
		}
		key := ""
		if n > 1 && len(orders) > 1 {
			key = fmt.Sprint(first)
		}
		h.Seen("orders", key, map[string]interface{}{"n": n, "orders": len(orders)})
	})
}

func TestC20Refusal(t *testing.T) {
	h.Rule("C20 refusal: the local key missing, empty or foreign, or one list entry made unusable (truncated, altered character, other prefix, off-length, empty, arbitrary string); error and no list; non-trivial: all")
	h.Check(t, 1500, 30000, 20*time.Second, 5*time.Minute, func(rt *rapid.T) {
		n := rapid.IntRange(0, 12).Draw(rt, "n")
		ns := h.DistinctNodes(rt, n, 200, "nodes")
		keys := h.Bech32s(ns)
		op := rapid.SampledFrom([]string{"foreign", "empty", "truncate", "char", "hrp", "arbitrary", "blank", "peer"}).Draw(rt, "op")
		local := ""
		if n > 0 {
			local = keys[rapid.IntRange(0, n-1).Draw(rt, "local")]
		}
		bad := ""
		switch op {
		case "foreign":
			local = h.NodeN(500 + rapid.IntRange(0, 50).Draw(rt, "f")).Bech32
		case "empty":
			local = ""
		default:
			b := h.NodeN(600).Bech32
			switch op {
			case "truncate":
				bad = b[:rapid.IntRange(1, len(b)-1).Draw(rt, "cut")]
			case "char":
				i := rapid.IntRange(0, len(b)-1).Draw(rt, "i")
				r := []byte(b)
				r[i] = rapid.Byte().Filter(func(c byte) bool { return c != r[i] }).Draw(rt, "c")
				bad = string(r)
			case "hrp":
				bad = h.Bech32Raw("cosmospub", append([]byte{0xeb, 0x5a, 0xe9, 0x87, 0x21}, h.NodeN(600).Pub...))
			case "arbitrary":
				bad = rapid.String().Draw(rt, "s")
			case "peer":
				bad = h.NodeN(600).Peer.String()
			}
			i := rapid.IntRange(0, n).Draw(rt, "at")
			keys = append(keys[:i:i], append([]string{bad}, keys[i:]...)...)
			if rapid.Bool().Draw(rt, "localBad") {
				local = bad
			}
		}
		ps, lp, err := conversion.GetParties(append([]string(nil), keys...), local)
		if err == nil || ps != nil || lp != nil {
			rt.Fatalf("%s: keys %q local %q: got parties %v local %v err %v", op, keys, local, ps, lp, err)
		}
		h.Seen("refusal-"+op, fmt.Sprint(op, keys, local), map[string]interface{}{"op": op, "bad": bad, "n": n})
	})
}
