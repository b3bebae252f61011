// genstates runs key generations of 2..7 parties and writes the share files used as fixtures.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"time"

	bk "github.com/binance-chain/tss-lib/ecdsa/keygen"

	"verif/h"
	"verif/sim"
)

func main() {
	for n := 2; n <= 7; n++ {
		var ns []*h.Node
		for i := 0; i < n; i++ {
			ns = append(ns, h.NodeN(i))
		}
		net, run := sim.Keygen(ns, "fixture", sim.Policy{Order: "fifo", Timeout: time.Minute}, sim.DefaultConf(), func(i int) *bk.LocalPreParams { return h.PreParams(i) }, nil)
		run()
		f, err := os.Create(h.Fixture(fmt.Sprintf("states%d.jsonl", n)))
		h.Must(err)
		for _, x := range net.Nodes {
			h.Must(x.Err)
			buf, err := json.Marshal(x.Store.Saved[0])
			h.Must(err)
			_, err = f.Write(append(buf, '\n'))
			h.Must(err)
		}
		h.Must(f.Close())
	}
}
