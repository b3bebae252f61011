package cluster

import (
	"fmt"
	"net"
	"sync"

	"verif/h"
)

// Proxy passes connections on to a node, except while it is frozen: then they stay up, with nothing coming through.
type Proxy struct {
	mu     sync.Mutex
	cond   *sync.Cond
	frozen bool
	closed bool
	ln     net.Listener
	conns  []net.Conn
}

// NewProxy passes connections on to a port.
func NewProxy(to int) (*Proxy, int) {
	ln, err := net.Listen("tcp4", "127.0.0.1:0")
	h.Must(err)
	p := &Proxy{ln: ln}
	p.cond = sync.NewCond(&p.mu)
	go func() {
		for {
			a, err := ln.Accept()
			if err != nil {
				return
			}
			b, err := net.Dial("tcp4", fmt.Sprintf("127.0.0.1:%d", to))
			if err != nil {
				_ = a.Close()
				continue
			}
			p.mu.Lock()
			p.conns = append(p.conns, a, b)
			p.mu.Unlock()
			go p.pass(a, b)
			go p.pass(b, a)
		}
	}()
	return p, ln.Addr().(*net.TCPAddr).Port
}

func (p *Proxy) pass(to, from net.Conn) {
	defer to.Close()
	defer from.Close()
	buf := make([]byte, 1<<15)
	for {
		k, err := from.Read(buf)
		p.mu.Lock()
		for p.frozen && !p.closed {
			p.cond.Wait()
		}
		p.mu.Unlock()
		if k > 0 {
			if _, err := to.Write(buf[:k]); err != nil {
				return
			}
		}
		if err != nil {
			return
		}
	}
}

// Freeze stops, or starts again, what comes through.
func (p *Proxy) Freeze(on bool) {
	p.mu.Lock()
	p.frozen = on
	p.cond.Broadcast()
	p.mu.Unlock()
}

// Close ends all connections.
func (p *Proxy) Close() {
	_ = p.ln.Close()
	p.mu.Lock()
	p.closed = true
	conns := p.conns
	p.cond.Broadcast()
	p.mu.Unlock()
	for _, c := range conns {
		_ = c.Close()
	}
}
