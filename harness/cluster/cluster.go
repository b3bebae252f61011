// Package cluster runs whole nodes (tss.TssServer) of the repository on the loopback.
package cluster

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/peerstore"
	ma "github.com/multiformats/go-multiaddr"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/storage"
	"gitlab.com/thorchain/tss/go-tss/tss"

	"verif/h"
)

// Cluster is a set of connected nodes.
type Cluster struct {
	Nodes   []*h.Node
	Servers []*tss.TssServer
	Addrs   []ma.Multiaddr
	Dir     string
	conf    common.TssConfig
	opt     Options
	ports   []int
}

// Options says how the nodes are connected.
type Options struct {
	// Boot gives the nodes that node i, as it starts, is told to connect with; all earlier ones if nil.
	Boot func(i int) []int
	// IP is the address node i tells the others, and at which they are told to reach it; 127.0.0.1, and telling
	// them what it finds itself, if nil.
	IP func(i int) string
	// Via says at which port the others are told to reach node i, which listens at the port given; that one if nil.
	Via func(i, port int) int
	// More gives further states to put into the share store of node i beforehand.
	More func(i int) []storage.KeygenLocalState
}

// Conf is a configuration with these time-outs.
func Conf(party, keygen, keysign time.Duration) common.TssConfig {
	return common.TssConfig{PartyTimeout: party, KeyGenTimeout: keygen, KeySignTimeout: keysign, PreParamTimeout: time.Second}
}

// FreePort is a port nobody listens on.
func FreePort() int {
	l, err := net.Listen("tcp4", "127.0.0.1:0")
	h.Must(err)
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// New starts one node per identity, each connected with all the others; states[i], if there is
// one, is put into the share store of node i beforehand.
func New(nodes []*h.Node, conf common.TssConfig, states []storage.KeygenLocalState) *Cluster {
	return With(nodes, conf, states, Options{})
}

// With is New with the nodes connected as opt says.
func With(nodes []*h.Node, conf common.TssConfig, states []storage.KeygenLocalState, opt Options) *Cluster {
	c := &Cluster{Nodes: nodes, Dir: h.TempDir(), conf: conf, opt: opt}
	for i := range nodes {
		var held []storage.KeygenLocalState
		if i < len(states) {
			held = append(held, states[i])
		}
		if opt.More != nil {
			held = append(held, opt.More(i)...)
		}
		for _, s := range held {
			m, err := storage.NewFileStateMgr(c.Base(i))
			h.Must(err)
			h.Must(m.SaveLocalState(s))
		}
		c.Servers = append(c.Servers, nil)
		c.ports = append(c.ports, 0)
		c.Addrs = append(c.Addrs, nil)
		var boot []ma.Multiaddr
		if opt.Boot == nil {
			boot = append(boot, c.Addrs[:i]...)
		} else {
			for _, j := range opt.Boot(i) {
				boot = append(boot, c.Addrs[j])
			}
		}
		var err error
		for try := 0; try < 6; try++ {
			c.ports[i] = FreePort()
			if err = c.Start(i, boot); err == nil {
				break
			}
		}
		if err != nil {
			h.Infra("node %d does not start: %v", i, err)
		}
	}
	return c
}

// Base is the folder of node i.
func (c *Cluster) Base(i int) string { return filepath.Join(c.Dir, fmt.Sprint(i)) }

// Start starts node i, on the port it had, with these bootstrap peers.
func (c *Cluster) Start(i int, boot []ma.Multiaddr) error {
	ext, ip := "", "127.0.0.1"
	if c.opt.IP != nil {
		ip = c.opt.IP(i)
		ext = ip
	}
	s, err := tss.NewTss(append([]ma.Multiaddr(nil), boot...), c.ports[i], c.Nodes[i].Priv, "verif", c.Base(i), c.conf, h.PreParams(c.Nodes[i].Idx), ext)
	if err != nil {
		return err
	}
	c.Servers[i] = s
	port := c.ports[i]
	if c.opt.Via != nil {
		port = c.opt.Via(i, port)
	}
	c.Addrs[i], err = ma.NewMultiaddr(fmt.Sprintf("/ip4/%s/tcp/%d/p2p/%s", ip, port, c.Nodes[i].Peer))
	h.Must(err)
	return nil
}

// Stop stops node i.
func (c *Cluster) Stop(i int) {
	if s := c.Servers[i]; s != nil {
		c.Servers[i] = nil
		s.Stop()
	}
}

// Know makes a plain host know the address of every node.
func (c *Cluster) Know(hst host.Host) {
	for _, a := range c.Addrs {
		pi, err := peer.AddrInfoFromP2pAddr(a)
		h.Must(err)
		hst.Peerstore().AddAddrs(pi.ID, pi.Addrs, peerstore.PermanentAddrTTL)
	}
}

// Close stops the nodes.
func (c *Cluster) Close() {
	var wg sync.WaitGroup
	for _, s := range c.Servers {
		if s == nil {
			continue // stopped before
		}
		wg.Add(1)
		go func(s *tss.TssServer) { defer wg.Done(); s.Stop() }(s)
	}
	wg.Wait()
	_ = os.RemoveAll(c.Dir)
}

// Port is where node i listens.
func (c *Cluster) Port(i int) int { return c.ports[i] }
