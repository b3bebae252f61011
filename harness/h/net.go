package h

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	bkeygen "github.com/binance-chain/tss-lib/ecdsa/keygen"
	"github.com/libp2p/go-libp2p"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	ma "github.com/multiformats/go-multiaddr"
	"gitlab.com/thorchain/tss/go-tss/storage"
)

// Fixture gives the path of a committed fixture.
func Fixture(name string) string { return filepath.Join(os.Getenv("VERIF_HARNESS"), "fixtures", name) }

var fixMu sync.Mutex
var preParams []*bkeygen.LocalPreParams

// PreParams loads the i-th set of pre-parameters (a copy).
func PreParams(i int) *bkeygen.LocalPreParams {
	fixMu.Lock()
	defer fixMu.Unlock()
	if preParams == nil {
		buf, err := os.ReadFile(Fixture("preparams.jsonl"))
		Must(err)
		for _, l := range strings.Split(strings.TrimSpace(string(buf)), "\n") {
			var p bkeygen.LocalPreParams
			Must(json.Unmarshal([]byte(l), &p))
			preParams = append(preParams, &p)
		}
	}
	c := *preParams[i%len(preParams)]
	return &c
}

// RawHost starts a plain libp2p host of that identity on the loopback.
func RawHost(n *Node) host.Host {
	a, err := ma.NewMultiaddr("/ip4/127.0.0.1/tcp/0")
	Must(err)
	hst, err := libp2p.New(context.Background(), libp2p.ListenAddrs(a), libp2p.Identity(n.LPriv))
	Must(err)
	return hst
}

// FullAddr is the loopback address of a host with its peer id.
func FullAddr(hst host.Host) ma.Multiaddr {
	for _, a := range hst.Addrs() {
		if strings.Contains(a.String(), "/ip4/127.0.0.1/tcp/") {
			x, err := ma.NewMultiaddr(a.String() + "/p2p/" + hst.ID().String())
			Must(err)
			return x
		}
	}
	Infra("host without a loopback address: %v", hst.Addrs())
	return nil
}

// Connect connects two hosts over the loopback.
func Connect(a, b host.Host) {
	pi, err := peer.AddrInfoFromP2pAddr(FullAddr(b))
	Must(err)
	Must(a.Connect(context.Background(), *pi))
}

// States loads the n share files (copies) of the committed key generation among nodes 0..n-1.
func States(n int) []storage.KeygenLocalState {
	fixMu.Lock()
	defer fixMu.Unlock()
	buf, err := os.ReadFile(Fixture(fmt.Sprintf("states%d.jsonl", n)))
	Must(err)
	var out []storage.KeygenLocalState
	for _, l := range strings.Split(strings.TrimSpace(string(buf)), "\n") {
		var s storage.KeygenLocalState
		Must(json.Unmarshal([]byte(l), &s))
		out = append(out, s)
	}
	return out
}
