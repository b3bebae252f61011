// genpre generates tss-lib pre-parameters once, offline; the output is committed
// as fixtures/preparams.jsonl so that no check has to search for safe primes.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"time"

	"github.com/binance-chain/tss-lib/ecdsa/keygen"
)

func main() {
	n, _ := strconv.Atoi(os.Args[1])
	for i := 0; i < n; i++ {
		p, err := keygen.GeneratePreParams(20 * time.Minute)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		b, _ := json.Marshal(p)
		fmt.Println(string(b))
	}
}
