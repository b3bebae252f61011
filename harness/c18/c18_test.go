// Package c18 decides C18: the address book round-trips every peer address it should keep.
package c18

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-peerstore/addr"
	ma "github.com/multiformats/go-multiaddr"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/storage"
	"gitlab.com/thorchain/tss/go-tss/tss"
	"pgregory.net/rapid"

	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

// genAddr draws one address; loop tells that it is a loopback one.
func genAddr(rt *rapid.T) (s string, loop bool) {
	port := rapid.IntRange(1, 65535).Draw(rt, "port")
	b := func(l string) int { return rapid.IntRange(0, 255).Draw(rt, l) }
	var ip string
	switch rapid.SampledFrom([]string{"ip4", "ip4", "near", "ip6", "dns", "loop", "loop"}).Draw(rt, "kind") {
	case "ip4":
		ip = fmt.Sprintf("/ip4/%d.%d.%d.%d", rapid.SampledFrom([]int{1, 10, 100, 172, 192, 203, 255}).Draw(rt, "a"), b("b"), b("c"), b("d"))
	case "near":
		ip = rapid.SampledFrom([]string{"/ip4/227.0.0.1", "/ip4/12.7.0.1", "/ip4/1.127.0.0", "/ip4/128.0.0.1", "/ip4/126.255.0.1", "/ip4/0.0.0.0", "/ip4/10.0.0.1"}).Draw(rt, "near")
	case "ip6":
		ip = fmt.Sprintf("/ip6/2001:db8::%x:%x", b("x")+1, b("y")+1)
	case "dns":
		ip = rapid.SampledFrom([]string{"/dns4/seed.example.org", "/dns4/node-127.example.org", "/dns6/six.example.org", "/dns4/localnode"}).Draw(rt, "dns")
	case "loop":
		ip, loop = "/ip4/127.0.0.1", true
	}
	switch rapid.IntRange(0, 3).Draw(rt, "transport") {
	case 0:
		return fmt.Sprintf("%s/udp/%d/quic", ip, port), loop
	case 1:
		return fmt.Sprintf("%s/tcp/%d/ws", ip, port), loop
	default:
		return fmt.Sprintf("%s/tcp/%d", ip, port), loop
	}
}

// genBook draws an address book and the lines that reading it must give.
func genBook(rt *rapid.T, max int) (map[peer.ID]addr.AddrList, []string) {
	book := map[peer.ID]addr.AddrList{}
	want := []string{}
	seen := map[string]bool{}
	for i := rapid.IntRange(0, max).Draw(rt, "peers"); i > 0; i-- {
		p := h.NodeN(rapid.IntRange(0, 25).Draw(rt, "peer")).Peer
		if _, ok := book[p]; !ok {
			book[p] = addr.AddrList{}
		}
		for j := rapid.IntRange(0, 4).Draw(rt, "addrs"); j > 0; j-- {
			s, loop := genAddr(rt)
			if seen[s+p.String()] {
				continue
			}
			seen[s+p.String()] = true
			a, err := ma.NewMultiaddr(s)
			h.Must(err)
			book[p] = append(book[p], a)
			if !loop {
				want = append(want, s+"/p2p/"+p.String())
			}
		}
	}
	sort.Strings(want)
	return book, want
}

func read(fsm *storage.FileStateMgr) ([]string, error) {
	as, err := fsm.RetrieveP2PAddresses()
	if err != nil {
		if len(as) != 0 {
			return nil, fmt.Errorf("BOTH: %v and %d addresses", err, len(as))
		}
		return nil, err
	}
	out := []string{}
	for _, a := range as {
		out = append(out, a.String())
	}
	sort.Strings(out)
	return out, nil
}

// TestRoundTrip: histories of saves; reading gives exactly the last book.
func TestRoundTrip(t *testing.T) {
	h.Rule("round trip: 1..5 saves of generated books (ip4, ip6, dns; tcp, udp, ws; loopback ones among them; peers with no address), read back by the same and a new instance after each; non-trivial: at least two addresses kept and one dropped, or a replacement")
	h.Check(t, 800, 12000, 30*time.Second, 6*time.Minute, func(rt *rapid.T) {
		dir := h.TempDir()
		defer os.RemoveAll(dir)
		fsm, err := storage.NewFileStateMgr(dir)
		h.Must(err)
		if got, err := read(fsm); err == nil {
			rt.Fatalf("a missing book is read as %v", got)
		}
		n := rapid.IntRange(1, 5).Draw(rt, "saves")
		var all []string
		interesting := n > 1
		for i := 0; i < n; i++ {
			book, want := genBook(rt, 6)
			total := 0
			for _, as := range book {
				total += len(as)
			}
			interesting = interesting || (len(want) > 1 && total > len(want))
			if err := fsm.SaveAddressBook(book); err != nil {
				rt.Fatalf("save %d: %v", i, err)
			}
			fresh, err := storage.NewFileStateMgr(dir)
			h.Must(err)
			for _, f := range []*storage.FileStateMgr{fsm, fresh} {
				got, err := read(f)
				if err != nil {
					rt.Fatalf("save %d: read: %v; want %v", i, err, want)
				}
				if !reflect.DeepEqual(got, want) {
					rt.Fatalf("save %d: read %v\nwant %v", i, got, want)
				}
			}
			all = append(all, strings.Join(want, " "))
		}
		key := ""
		if interesting {
			key = strings.Join(all, "|")
		}
		h.Seen("roundtrip", key, all)
	})
}

// malformed draws the content of a book that is none, and tells the number of good lines.
func malformed(rt *rapid.T) string {
	var lines []string
	_, good := genBook(rt, 3)
	lines = append(lines, good...)
	p := h.NodeN(3).Peer.String()
	bad := rapid.SampledFrom([]string{
		"garbage", "/ip4/10.0.0.1", "/ip4/10.0.0.1/tcp/66", "/ip4/10.0.0.1/tcp/6668/p2p", "/ip4/10.0.0.1/tcp/6668/p2p/",
		"/ip4/10.0.0.1/tcp/6668/p2p/" + p[:len(p)-3], "/ip4/10.0.0/tcp/6668/p2p/" + p, "/ip4/10.0.0.1/tcp/99999/p2p/" + p,
		"10.0.0.1:6668", "{\"a\":1}", "/ip4/10.0.0.1/tcp/6668/p2p/" + p + "/ip4/10.0.0.2/tcp/6668/p2p/" + p[:5], " ", "\x00\x00", p,
	}).Draw(rt, "bad")
	i := rapid.IntRange(0, len(lines)).Draw(rt, "at")
	lines = append(lines[:i], append([]string{bad}, lines[i:]...)...)
	return strings.Join(lines, "\n") + rapid.SampledFrom([]string{"", "\n"}).Draw(rt, "end")
}

// TestMalformed: a book with an unusable entry gives an error and no addresses.
func TestMalformed(t *testing.T) {
	h.Rule("malformed: a book of generated good lines with one unusable entry (cut address, no peer id, garbage) at a generated place; expected an error and no addresses")
	h.Check(t, 600, 6000, 15*time.Second, 3*time.Minute, func(rt *rapid.T) {
		dir := h.TempDir()
		defer os.RemoveAll(dir)
		content := malformed(rt)
		h.Must(os.WriteFile(filepath.Join(dir, "address_book.seed"), []byte(content), 0o644))
		fsm, err := storage.NewFileStateMgr(dir)
		h.Must(err)
		h.Seen("malformed", content, fmt.Sprintf("%q", content))
		got, err := read(fsm)
		if err == nil {
			rt.Fatalf("book %q is read as %v", content, got)
		}
		if strings.HasPrefix(err.Error(), "BOTH") {
			rt.Fatalf("book %q: %v", content, err)
		}
	})
}

// TestStart: a node started over a missing, malformed or good book reaches its peers.
func TestStart(t *testing.T) {
	h.Rule("start: a node is started over a missing, malformed, empty or good book with a configured bootstrap peer; it must start and be connected to the configured peer, and to the book's peer if the book is good")
	h.Check(t, 12, 120, 40*time.Second, 5*time.Minute, func(rt *rapid.T) {
		dir := h.TempDir()
		defer os.RemoveAll(dir)
		kind := rapid.SampledFrom([]string{"missing", "malformed", "malformed", "empty", "good", "saved"}).Draw(rt, "kind")
		boot := h.RawHost(h.NodeN(60 + rapid.IntRange(0, 9).Draw(rt, "boot")))
		defer boot.Close()
		booked := h.RawHost(h.NodeN(70 + rapid.IntRange(0, 9).Draw(rt, "booked")))
		defer booked.Close()
		book := filepath.Join(dir, "address_book.seed")
		switch kind {
		case "malformed":
			h.Must(os.WriteFile(book, []byte(malformed(rt)), 0o644))
		case "empty":
			h.Must(os.WriteFile(book, nil, 0o644))
		case "good":
			h.Must(os.WriteFile(book, []byte(h.FullAddr(booked).String()+"\n"), 0o644))
		case "saved":
			fsm, err := storage.NewFileStateMgr(dir)
			h.Must(err)
			h.Must(fsm.SaveAddressBook(map[peer.ID]addr.AddrList{}))
		}
		me := h.NodeN(80 + rapid.IntRange(0, 9).Draw(rt, "me"))
		h.Seen("start", kind+fmt.Sprint(me.Idx), kind)
		srv, err := tss.NewTss([]ma.Multiaddr{h.FullAddr(boot)}, 0, me.Priv, "verif", dir, common.TssConfig{
			KeyGenTimeout: time.Second, KeySignTimeout: time.Second, PartyTimeout: time.Second, PreParamTimeout: time.Second,
		}, h.PreParams(0), "")
		if err != nil {
			rt.Fatalf("book %s: the node does not start: %v", kind, err)
		}
		defer srv.Stop()
		if boot.Network().Connectedness(me.Peer) != network.Connected {
			rt.Fatalf("book %s: the node is not connected to its configured bootstrap peer", kind)
		}
		if kind == "good" && booked.Network().Connectedness(me.Peer) != network.Connected {
			rt.Fatalf("the node is not connected to the peer of its address book")
		}
	})
}

// TestBlank: empty lines in a book do not count.
func TestBlank(t *testing.T) {
	h.Rule("blank: a book of generated good lines with empty lines among them, before and after; reading gives the good ones; non-trivial: an empty line before a good one")
	h.Check(t, 400, 4000, 10*time.Second, 2*time.Minute, func(rt *rapid.T) {
		dir := h.TempDir()
		defer os.RemoveAll(dir)
		_, want := genBook(rt, 5)
		var lines []string
		key := ""
		for _, l := range want {
			for k := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(rt, "empty lines"); k > 0; k-- {
				lines = append(lines, "")
				key = "x"
			}
			lines = append(lines, l)
		}
		content := strings.Join(lines, "\n") + strings.Repeat("\n", rapid.IntRange(0, 3).Draw(rt, "at the end"))
		if key != "" {
			key = content
		}
		h.Seen("blank", key, content)
		h.Must(os.WriteFile(filepath.Join(dir, "address_book.seed"), []byte(content), 0o644))
		fsm, err := storage.NewFileStateMgr(dir)
		h.Must(err)
		got, err := read(fsm)
		if err != nil || !reflect.DeepEqual(got, want) {
			rt.Fatalf("book %q is read as %v, error %v", content, got, err)
		}
	})
}
