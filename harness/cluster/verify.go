package cluster

import (
	"crypto/ecdsa"
	"encoding/base64"
	"fmt"
	"math/big"
	"reflect"

	"github.com/btcsuite/btcd/btcec"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"gitlab.com/thorchain/tss/go-tss/keysign"

	"verif/h"
)

// DecodePub is the key of its bech32 text, nil if it is none.
func DecodePub(bech string) *btcec.PublicKey {
	pk, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, bech)
	if err != nil {
		return nil
	}
	p, err := btcec.ParsePubKey(pk.Bytes()[len(pk.Bytes())-33:], btcec.S256())
	if err != nil {
		return nil
	}
	return p
}

// Bad tells what is wrong with a successful signing response, "" if nothing is.
func Bad(pool string, msgs []string, resp *keysign.Response) string {
	pub := DecodePub(pool)
	if pub == nil {
		return "the pool key is not a public key"
	}
	if len(resp.Signatures) != len(msgs) {
		return fmt.Sprintf("%d signatures for %d messages", len(resp.Signatures), len(msgs))
	}
	var got []string
	for i, s := range resp.Signatures {
		got = append(got, s.Msg)
		var part [3][]byte
		for j, v := range []string{s.Msg, s.R, s.S} {
			b, err := base64.StdEncoding.DecodeString(v)
			if err != nil {
				return fmt.Sprintf("signature %d: %q is not base64", i, v)
			}
			part[j] = b
		}
		if !ecdsa.Verify(pub.ToECDSA(), part[0], new(big.Int).SetBytes(part[1]), new(big.Int).SetBytes(part[2])) {
			return fmt.Sprintf("signature %d does not verify", i)
		}
	}
	if !reflect.DeepEqual(h.Sorted(got), h.Sorted(msgs)) {
		return fmt.Sprintf("signatures are labelled %v, requested %v", got, msgs)
	}
	return ""
}

// Address is the address of a key, as bytes.
func Address(bech string) []byte {
	pk, err := sdk.GetPubKeyFromBech32(sdk.Bech32PubKeyTypeAccPub, bech)
	if err != nil {
		return nil
	}
	return pk.Address().Bytes()
}
