package c19

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"testing"
	"time"

	btss "github.com/binance-chain/tss-lib/tss"
	lcrypto "github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/tendermint/tendermint/crypto/ed25519"
	"github.com/tendermint/tendermint/crypto/secp256k1"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"math/big"
	"pgregory.net/rapid"
	"verif/h"
)

func TestMain(m *testing.M) { h.Main(m) }

func nodes(rt *rapid.T, min, max int) []*h.Node {
	n := rapid.IntRange(min, max).Draw(rt, "n")
	var out []*h.Node
	for i := 0; i < n; i++ {
		sc := rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, "scalar")
		if rapid.IntRange(0, 3).Draw(rt, "small") == 0 { // keys with leading zero bytes
			for j := 0; j < 30; j++ {
				sc[j] = 0
			}
			sc[31] |= 1
		}
		sc[0] &= 0x7f
		sc[31] |= 1
		out = append(out, h.NodeFromPriv(secp256k1.PrivKey(sc)))
	}
	return out
}

func TestC19RoundTrip(t *testing.T) {
	h.Rule("C19 round trip: 1..10 secp256k1 keys (uniform and with many leading zero bytes), possibly repeated; pubkey->peer->pubkey, lists, party ids, peer id equal to libp2p's own derivation, different keys different peers; non-trivial: every key set")
	h.Check(t, 1500, 40000, 30*time.Second, 8*time.Minute, func(rt *rapid.T) {
		ns := nodes(rt, 1, 10)
		if rapid.Bool().Draw(rt, "dup") {
			ns = append(ns, ns[rapid.IntRange(0, len(ns)-1).Draw(rt, "di")])
		}
		pubs := h.Bech32s(ns)
		a, err := conversion.GetPeerIDsFromPubKeys(append([]string(nil), pubs...))
		if err != nil {
			rt.Fatalf("valid keys refused: %v", err)
		}
		b, err := conversion.GetPeerIDs(append([]string(nil), pubs...))
		if err != nil {
			rt.Fatalf("valid keys refused: %v", err)
		}
		if len(a) != len(ns) || len(b) != len(ns) {
			rt.Fatalf("length changes: %d %d of %d", len(a), len(b), len(ns))
		}
		var strs []string
		for i, nd := range ns {
			if a[i] != nd.Peer || b[i] != nd.Peer {
				rt.Fatalf("key %d: %s / %s, want %s", i, a[i], b[i], nd.Peer)
			}
			one, err := conversion.GetPeerIDFromPubKey(nd.Bech32)
			if err != nil || one != nd.Peer {
				rt.Fatalf("single key: %s err %v", one, err)
			}
			raw, err := conversion.GetPeerIDFromSecp256PubKey(nd.Pub)
			if err != nil || raw != nd.Peer {
				rt.Fatalf("raw key: %s err %v", raw, err)
			}
			back, err := conversion.GetPubKeyFromPeerID(nd.Peer.String())
			if err != nil || back != nd.Bech32 {
				rt.Fatalf("back: %s err %v want %s", back, err, nd.Bech32)
			}
			strs = append(strs, nd.Peer.String())
			party := btss.NewPartyID(fmt.Sprint(i), "", new(big.Int).SetBytes(nd.Pub))
			party.Index = i
			pp, err := conversion.GetPeerIDFromPartyID(party)
			if err != nil || pp != nd.Peer {
				rt.Fatalf("party: %s err %v", pp, err)
			}
			pk, err := conversion.PartyIDtoPubKey(party)
			if err != nil || pk != nd.Bech32 {
				rt.Fatalf("party: %s err %v", pk, err)
			}
			for j := 0; j < i; j++ {
				if (a[i] == a[j]) != bytes.Equal(nd.Pub, ns[j].Pub) {
					rt.Fatalf("peer ids of keys %d and %d collide or differ wrongly", i, j)
				}
			}
		}
		back, err := conversion.GetPubKeysFromPeerIDs(strs)
		if err != nil || fmt.Sprint(back) != fmt.Sprint(pubs) {
			rt.Fatalf("list back: %v err %v", back, err)
		}
		m := map[string]*btss.PartyID{}
		var want, ids []string
		for i, nd := range ns {
			p := btss.NewPartyID(fmt.Sprint(i), "", new(big.Int).SetBytes(nd.Pub))
			p.Index = i
			m[p.Id] = p
		}
		for _, i := range rapid.SliceOfN(rapid.IntRange(0, len(ns)-1), 0, 6).Draw(rt, "sel") {
			ids = append(ids, fmt.Sprint(i))
			want = append(want, pubs[i])
		}
		got, err := conversion.AccPubKeysFromPartyIDs(ids, m)
		if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
			rt.Fatalf("AccPubKeysFromPartyIDs(%v) = %v err %v", ids, got, err)
		}
		if _, err := conversion.AccPubKeysFromPartyIDs(append(ids, "nobody"), m); err == nil {
			rt.Fatalf("an unknown party id is not refused")
		}
		h.Seen("roundtrip", fmt.Sprint(pubs), pubs[0]+" <-> "+strs[0])
	})
}

func TestC19PrivKey(t *testing.T) {
	h.Rule("C19 private keys: base64(hex(32 bytes)) loads to exactly these bytes; other lengths (0..80 bytes), odd/invalid hex, invalid base64, arbitrary strings give an error, never a panic; non-trivial: all")
	h.Check(t, 3000, 60000, 20*time.Second, 5*time.Minute, func(rt *rapid.T) {
		op := rapid.SampledFrom([]string{"ok", "ok", "len", "hex", "b64", "str"}).Draw(rt, "op")
		var in string
		var key []byte
		ok := false
		switch op {
		case "ok":
			key = rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, "key")
			key[0] &= 0x7f
			key[31] |= 1
			in = base64.StdEncoding.EncodeToString([]byte(hex.EncodeToString(key)))
			ok = true
		case "len":
			k := rapid.SliceOfN(rapid.Byte(), 0, 80).Filter(func(b []byte) bool { return len(b) != 32 }).Draw(rt, "key")
			in = base64.StdEncoding.EncodeToString([]byte(hex.EncodeToString(k)))
		case "hex":
			k := []byte(hex.EncodeToString(bytes.Repeat([]byte{7}, 32)))
			i := rapid.IntRange(0, len(k)-1).Draw(rt, "i")
			k[i] = rapid.SampledFrom([]byte("gzGZ -\x00\xff")).Draw(rt, "c")
			in = base64.StdEncoding.EncodeToString(k)
		case "b64":
			k := []byte(base64.StdEncoding.EncodeToString([]byte(hex.EncodeToString(bytes.Repeat([]byte{7}, 32)))))
			i := rapid.IntRange(0, len(k)-1).Draw(rt, "i")
			k[i] = rapid.SampledFrom([]byte("*!-_ \x00\xff")).Draw(rt, "c")
			in = string(k)
		case "str":
			in = rapid.String().Filter(func(s string) bool {
				b, err := base64.StdEncoding.DecodeString(s)
				if err != nil {
					return true
				}
				r, err := hex.DecodeString(string(b))
				return err != nil || len(r) != 32
			}).Draw(rt, "s")
		}
		pk, err := conversion.GetPriKey(in)
		if ok {
			if err != nil || pk == nil {
				rt.Fatalf("valid key refused: %v", err)
			}
			if !bytes.Equal(pk.Bytes(), key) {
				rt.Fatalf("key changed: %x want %x", pk.Bytes(), key)
			}
			raw, err := conversion.GetPriKeyRawBytes(pk)
			if err != nil || !bytes.Equal(raw, key) {
				rt.Fatalf("raw bytes changed: %x err %v want %x", raw, err, key)
			}
			if !bytes.Equal(pk.PubKey().Bytes(), h.NodeFromPriv(secp256k1.PrivKey(key)).Pub) {
				rt.Fatalf("the loaded key has another public key")
			}
		} else if err == nil || pk != nil {
			rt.Fatalf("%s: %q accepted as a private key: %v err %v", op, in, pk, err)
		}
		h.Seen("priv-"+op, in, in)
	})
	if _, err := conversion.GetPriKeyRawBytes(ed25519.GenPrivKeyFromSecret([]byte("x"))); err == nil {
		t.Fatalf("an ed25519 private key is accepted as secp256k1")
	}
}

func otherPeer(rt *rapid.T) peer.ID {
	sum := sha256.Sum256(rapid.SliceOfN(rapid.Byte(), 8, 8).Draw(rt, "seed"))
	switch rapid.SampledFrom([]string{"ed25519", "ecdsa"}).Draw(rt, "type") {
	case "ecdsa":
		_, pub, err := lcrypto.GenerateECDSAKeyPair(newDet(sum[:]))
		h.Must(err)
		id, err := peer.IDFromPublicKey(pub)
		h.Must(err)
		return id
	}
	_, pub, err := lcrypto.GenerateEd25519Key(newDet(sum[:]))
	h.Must(err)
	id, err := peer.IDFromPublicKey(pub)
	h.Must(err)
	return id
}

type det struct{ s []byte }

func newDet(s []byte) *det { return &det{s} }
func (d *det) Read(p []byte) (int, error) {
	for i := range p {
		x := sha256.Sum256(append(d.s, byte(i)))
		p[i] = x[0]
		d.s = x[:]
	}
	return len(p), nil
}

func TestC19Invalid(t *testing.T) {
	h.Rule("C19 invalid: peer ids of other key types (ed25519, ecdsa), altered/truncated peer ids and keys, raw keys of length 0..70 that are no curve point, arbitrary strings, nil/invalid party ids, empty maps; always an error (never a panic, never another identity); non-trivial: all")
	h.Check(t, 3000, 60000, 25*time.Second, 6*time.Minute, func(rt *rapid.T) {
		nd := h.NodeN(rapid.IntRange(0, 100).Draw(rt, "node"))
		op := rapid.SampledFrom([]string{"otherType", "peerChar", "peerStr", "peerCut", "pubChar", "pubStr", "pubCut", "raw", "party"}).Draw(rt, "op")
		good := []string{nd.Peer.String()}
		switch op {
		case "otherType", "peerChar", "peerStr", "peerCut":
			s := nd.Peer.String()
			switch op {
			case "otherType":
				s = otherPeer(rt).String()
			case "peerChar":
				b := []byte(s)
				i := rapid.IntRange(0, len(b)-1).Draw(rt, "i")
				b[i] = rapid.Byte().Filter(func(c byte) bool { return c != b[i] }).Draw(rt, "c")
				s = string(b)
			case "peerStr":
				s = rapid.String().Draw(rt, "s")
			case "peerCut":
				s = s[:rapid.IntRange(0, len(s)-1).Draw(rt, "cut")]
			}
			// the only acceptable ids are those that libp2p decodes to a secp256k1 key
			want := ""
			if id, err := peer.Decode(s); err == nil {
				if k, err := id.ExtractPublicKey(); err == nil && k != nil {
					if sk, ok := k.(*lcrypto.Secp256k1PublicKey); ok {
						r, _ := sk.Raw()
						want = h.Bech32Pub(r)
					}
				}
			}
			got, err := conversion.GetPubKeyFromPeerID(s)
			if want == "" && (err == nil || got != "") {
				rt.Fatalf("%s: peer id %q gives key %q, err %v", op, s, got, err)
			}
			if want != "" && (err != nil || got != want) {
				rt.Fatalf("%s: peer id %q gives key %q err %v, want %q", op, s, got, err, want)
			}
			l, err := conversion.GetPubKeysFromPeerIDs(append(good, s))
			if want == "" && (err == nil || l != nil) {
				rt.Fatalf("list with a bad peer id accepted: %v", l)
			}
			h.Seen("invalid-"+op, s, s)
		case "pubChar", "pubStr", "pubCut":
			s := nd.Bech32
			switch op {
			case "pubChar":
				b := []byte(s)
				i := rapid.IntRange(0, len(b)-1).Draw(rt, "i")
				b[i] = rapid.Byte().Filter(func(c byte) bool { return c != b[i] }).Draw(rt, "c")
				s = string(b)
			case "pubStr":
				s = rapid.String().Draw(rt, "s")
			case "pubCut":
				s = s[:rapid.IntRange(0, len(s)-1).Draw(rt, "cut")]
			}
			if id, err := conversion.GetPeerIDFromPubKey(s); err == nil || id != "" {
				rt.Fatalf("%s: key %q gives peer %q err %v", op, s, id, err)
			}
			if l, err := conversion.GetPeerIDs([]string{nd.Bech32, s}); err == nil || l != nil {
				rt.Fatalf("list with a bad key accepted")
			}
			if l, err := conversion.GetPeerIDsFromPubKeys([]string{nd.Bech32, s}); err == nil || l != nil {
				rt.Fatalf("list with a bad key accepted")
			}
			h.Seen("invalid-"+op, s, s)
		case "raw":
			raw := rapid.SliceOfN(rapid.Byte(), 0, 70).Draw(rt, "raw")
			if len(raw) == 33 || len(raw) == 65 {
				raw[0] = 9
			}
			if id, err := conversion.GetPeerIDFromSecp256PubKey(raw); err == nil || id != "" {
				rt.Fatalf("raw %x gives peer %q err %v", raw, id, err)
			}
			b := h.Bech32Raw("thorpub", append([]byte{0xeb, 0x5a, 0xe9, 0x87, byte(len(raw))}, raw...))
			if id, err := conversion.GetPeerIDFromPubKey(b); err == nil || id != "" {
				rt.Fatalf("bech32 of raw %x gives peer %q err %v", raw, id, err)
			}
			h.Seen("invalid-raw", fmt.Sprintf("%x", raw), fmt.Sprintf("%x", raw))
		case "party":
			k := rapid.IntRange(0, 4).Draw(rt, "k")
			var p *btss.PartyID
			switch k {
			case 1:
				p = btss.NewPartyID("1", "", new(big.Int).SetBytes(nd.Pub))
				p.Index = -1
			case 2:
				p = &btss.PartyID{}
			case 3:
				p = &btss.PartyID{MessageWrapper_PartyID: &btss.MessageWrapper_PartyID{Id: "1", Key: nil}}
			case 4:
				p = btss.NewPartyID("1", "", big.NewInt(rapid.Int64Range(1, 1<<60).Draw(rt, "small")))
				p.Index = 0
			}
			if k != 2 { // a PartyID without its embedded message cannot be built from outside bytes
				if id, err := conversion.GetPeerIDFromPartyID(p); err == nil || id != "" {
					rt.Fatalf("party %v gives peer %q err %v", p, id, err)
				}
			}
			if k == 0 || k == 1 {
				if pk, err := conversion.PartyIDtoPubKey(p); err == nil || pk != "" {
					rt.Fatalf("party %v gives key %q err %v", p, pk, err)
				}
			}
			if got := conversion.GetPeersID(map[string]peer.ID{}, nd.Peer.String()); len(got) != 0 {
				rt.Fatalf("peers of an empty map: %v", got)
			}
			h.Seen("invalid-party", fmt.Sprint(k), fmt.Sprint(p))
		}
	})
}
