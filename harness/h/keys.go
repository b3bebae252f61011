package h

import (
	"crypto/sha256"
	"fmt"
	"sort"

	coskey "github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/bech32"
	lcrypto "github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/tendermint/tendermint/crypto/secp256k1"
	"gitlab.com/thorchain/tss/go-tss/conversion"
	"pgregory.net/rapid"
)

func init() { conversion.SetupBech32Prefix() }

// Node is a node identity, built without the repository's conversion code.
type Node struct {
	Idx    int
	Priv   secp256k1.PrivKey
	Pub    []byte // 33 bytes compressed
	Bech32 string // thorpub...
	Peer   peer.ID
	LPriv  lcrypto.PrivKey
}

var nodeCache = map[int]*Node{}

// NodeN returns the i-th deterministic identity.
func NodeN(i int) *Node {
	mu.Lock()
	if n, ok := nodeCache[i]; ok {
		mu.Unlock()
		return n
	}
	mu.Unlock()
	sum := sha256.Sum256([]byte(fmt.Sprintf("verif-node-%d", i)))
	n := NodeFromPriv(secp256k1.GenPrivKeySecp256k1(sum[:]))
	n.Idx = i
	mu.Lock()
	nodeCache[i] = n
	mu.Unlock()
	return n
}

// NodeFromPriv builds the identity of a private key.
func NodeFromPriv(priv secp256k1.PrivKey) *Node {
	pub := priv.PubKey().Bytes()
	lp, err := lcrypto.UnmarshalSecp256k1PublicKey(pub)
	Must(err)
	pid, err := peer.IDFromPublicKey(lp)
	Must(err)
	lpriv, err := lcrypto.UnmarshalSecp256k1PrivateKey(priv)
	Must(err)
	return &Node{Priv: priv, Pub: pub, Bech32: Bech32Pub(pub), Peer: pid, LPriv: lpriv}
}

// Bech32Pub encodes a compressed key, via the SDK's own encoder.
func Bech32Pub(pub []byte) string {
	s, err := sdk.Bech32ifyPubKey(sdk.Bech32PubKeyTypeAccPub, &coskey.PubKey{Key: pub})
	Must(err)
	return s
}

// Bech32Raw encodes any bytes with the given prefix.
func Bech32Raw(hrp string, raw []byte) string {
	s, err := bech32.ConvertAndEncode(hrp, raw)
	Must(err)
	return s
}

// DistinctNodes draws n distinct identities out of the first pool identities.
func DistinctNodes(rt *rapid.T, n, pool int, label string) []*Node {
	ids := rapid.SliceOfNDistinct(rapid.IntRange(0, pool-1), n, n, rapid.ID[int]).Draw(rt, label)
	out := make([]*Node, n)
	for i, v := range ids {
		out[i] = NodeN(v)
	}
	return out
}

// Bech32s lists the bech32 keys.
func Bech32s(ns []*Node) []string {
	out := make([]string, len(ns))
	for i, n := range ns {
		out[i] = n.Bech32
	}
	return out
}

// Permute returns a generated permutation of s.
func Permute[T any](rt *rapid.T, s []T, label string) []T {
	c := append([]T(nil), s...)
	return rapid.Permutation(c).Draw(rt, label)
}

// Sorted returns a sorted copy.
func Sorted(s []string) []string {
	c := append([]string(nil), s...)
	sort.Strings(c)
	return c
}
