package sim

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"

	btss "github.com/binance-chain/tss-lib/tss"
	"github.com/btcsuite/btcd/btcec"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/messages"

	"verif/cer"
	"verif/h"
)

type field struct {
	name string
	get  func() []byte
	set  func([]byte)
}

func collect(v reflect.Value, path string, out *[]field) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			collect(v.Elem(), path, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			collect(v.Field(i), path+"."+v.Type().Field(i).Name, out)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			w := v
			*out = append(*out, field{path, func() []byte { return w.Bytes() }, func(b []byte) { w.SetBytes(b) }})
			return
		}
		for i := 0; i < v.Len(); i++ {
			collect(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	}
}

// alter returns other bytes in place of b.
func alter(rng *rand.Rand, b []byte, kind string) []byte {
	switch kind {
	case "flip low":
		c := append([]byte(nil), b...)
		if len(c) > 0 {
			c[len(c)-1] ^= 1
		}
		return c
	case "flip any":
		c := append([]byte(nil), b...)
		if len(c) > 0 {
			c[rng.Intn(len(c))] ^= byte(1 << uint(rng.Intn(8)))
		}
		return c
	case "random":
		c := make([]byte, len(b))
		rng.Read(c)
		return c
	case "zero":
		return []byte{0}
	case "one":
		return []byte{1}
	case "two":
		return []byte{2}
	case "order":
		return btcec.S256().N.Bytes()
	case "huge":
		c := make([]byte, 600)
		rng.Read(c)
		return c
	case "empty":
		return []byte{}
	case "negate":
		x := new(big.Int).Sub(btcec.S256().N, new(big.Int).SetBytes(b))
		return x.Mod(x, btcec.S256().N).Bytes()
	case "plus order":
		return new(big.Int).Add(btcec.S256().N, new(big.Int).SetBytes(b)).Bytes()
	case "truncate":
		return append([]byte(nil), b[:len(b)/2]...)
	}
	var bits int
	if _, err := fmt.Sscanf(kind, "modulus %d", &bits); err != nil {
		h.Infra("unknown alteration %s", kind)
	}
	if bits == 0 {
		return []byte{0}
	}
	x := new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), uint(bits-1)))
	return x.SetBit(x.SetBit(x, bits-1, 1), 0, 1).Bytes()
}

// Alterations are the general ways AlterShare can change a value.
var Alterations = []string{"flip low", "flip any", "random", "zero", "one", "two", "order", "huge", "empty", "negate", "plus order", "truncate"}

// AlterShare changes one value in the content of a share; it returns nil if nothing changes.
func AlterShare(rng *rand.Rand, wire []byte, from *btss.PartyID, isBroadcast bool, kind string) ([]byte, string) {
	pm, err := btss.ParseWireMessage(wire, from, isBroadcast)
	h.Must(err)
	content := pm.Content()
	var fs []field
	collect(reflect.ValueOf(content), "", &fs)
	if len(fs) == 0 {
		h.Infra("no fields in %T", content)
	}
	// first the kind of value, then which one of a list: long proofs would else get all the attention
	groups := map[string][]field{}
	var names []string
	for _, f := range fs {
		g := f.name
		for i, c := range g {
			if c == '[' {
				g = g[:i]
				break
			}
		}
		if groups[g] == nil {
			names = append(names, g)
		}
		groups[g] = append(groups[g], f)
	}
	if strings.HasPrefix(kind, "modulus") {
		names = []string{".PaillierN", ".NTilde"}
	}
	g := groups[names[rng.Intn(len(names))]]
	f := g[rng.Intn(len(g))]
	old := append([]byte(nil), f.get()...)
	nw := alter(rng, old, kind)
	if new(big.Int).SetBytes(old).Cmp(new(big.Int).SetBytes(nw)) == 0 {
		return nil, ""
	}
	f.set(nw)
	meta := btss.MessageRouting{From: from, IsBroadcast: isBroadcast}
	out, _, err := btss.NewMessage(meta, content, btss.NewMessageWrapper(meta, content)).WireBytes()
	h.Must(err)
	return out, fmt.Sprintf("%T%s %s", content, f.name, kind)
}

// AlterBody changes one value in one share of a wrapped wire message and signs it again as its owner.
func (n *Net) AlterBody(rng *rand.Rand, m Msg, kind string) ([]byte, string) {
	var w messages.WrappedMessage
	h.Must(json.Unmarshal(m.Body, &w))
	var wire messages.WireMessage
	h.Must(json.Unmarshal(w.Payload, &wire))
	var bulk []common.BulkWireMsg
	h.Must(json.Unmarshal(wire.Message, &bulk))
	i := rng.Intn(len(bulk))
	nb, desc := AlterShare(rng, bulk[i].WiredBulkMsgs, bulk[i].Routing.From, bulk[i].Routing.IsBroadcast, kind)
	if nb == nil {
		return nil, ""
	}
	bulk[i].WiredBulkMsgs = nb
	buf, err := json.Marshal(bulk)
	h.Must(err)
	wire.Message = buf
	wire.Sig = cer.Sign(n.Nodes[m.From].N, buf, n.MsgID)
	w.Payload, err = json.Marshal(wire)
	h.Must(err)
	out, err := json.Marshal(w)
	h.Must(err)
	return out, desc
}
