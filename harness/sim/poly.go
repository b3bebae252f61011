package sim

import (
	"math/big"

	"github.com/btcsuite/btcd/btcec"
	"gitlab.com/thorchain/tss/go-tss/storage"

	"verif/h"
)

// Interpolate gives the value at zero of the polynomial through the shares (ids, values) over
// the group order.
func Interpolate(ids, xs []*big.Int) *big.Int {
	q := btcec.S256().N
	sum := new(big.Int)
	for i := range ids {
		num, den := big.NewInt(1), big.NewInt(1)
		for j := range ids {
			if i == j {
				continue
			}
			num.Mul(num, ids[j])
			num.Mod(num, q)
			d := new(big.Int).Sub(ids[j], ids[i])
			d.Mod(d, q)
			den.Mul(den, d)
			den.Mod(den, q)
		}
		if den.Sign() == 0 {
			return new(big.Int)
		}
		den.ModInverse(den, q)
		t := new(big.Int).Mul(num, den)
		t.Mul(t, xs[i])
		sum.Add(sum, t)
		sum.Mod(sum, q)
	}
	return sum
}

// PoolOf is the bech32 pool key of a secret.
func PoolOf(secret *big.Int) string {
	if secret.Sign() == 0 {
		return ""
	}
	x, y := btcec.S256().ScalarBaseMult(secret.Bytes())
	pk := btcec.PublicKey{Curve: btcec.S256(), X: x, Y: y}
	return h.Bech32Pub(pk.SerializeCompressed())
}

// SecretOf interpolates the secret from share files.
func SecretOf(states []storage.KeygenLocalState, subset []int) *big.Int {
	var ids, xs []*big.Int
	for _, i := range subset {
		ids = append(ids, states[i].LocalData.ShareID)
		xs = append(xs, states[i].LocalData.Xi)
	}
	return Interpolate(ids, xs)
}
