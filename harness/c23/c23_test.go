// Package c23 decides C23: the HTTP API passes requests and results through faithfully.
package c23

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"gitlab.com/thorchain/tss/go-tss/blame"
	"gitlab.com/thorchain/tss/go-tss/common"
	"gitlab.com/thorchain/tss/go-tss/keygen"
	"gitlab.com/thorchain/tss/go-tss/keysign"
	"pgregory.net/rapid"

	"verif/c23/tsshttp"
	"verif/h"
)

// fake is the server behind the API: it records what it is asked and answers as told.
type fake struct {
	mu      sync.Mutex
	kg      []keygen.Request
	ks      []keysign.Request
	started int
	onKg    func(keygen.Request) (keygen.Response, error)
	onKs    func(keysign.Request) (keysign.Response, error)
	id      string
}

func (f *fake) Start() error { f.mu.Lock(); f.started++; f.mu.Unlock(); return nil }
func (f *fake) Stop()        {}
func (f *fake) GetLocalPeerID() string {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.id
}

func (f *fake) Keygen(r keygen.Request) (keygen.Response, error) {
	f.mu.Lock()
	f.kg = append(f.kg, r)
	fn := f.onKg
	f.mu.Unlock()
	return fn(r)
}

func (f *fake) KeySign(r keysign.Request) (keysign.Response, error) {
	f.mu.Lock()
	f.ks = append(f.ks, r)
	fn := f.onKs
	f.mu.Unlock()
	return fn(r)
}

func (f *fake) reset() {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.kg, f.ks = nil, nil
}

var (
	srv  = &fake{}
	base string
)

func TestMain(m *testing.M) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	h.Must(err)
	addr := l.Addr().String()
	h.Must(l.Close())
	s := tsshttp.NewTssHttpServer(addr, srv)
	go func() {
		if err := s.Start(); err != nil {
			h.Infra("http server: %v", err)
		}
	}()
	base = "http://" + addr
	for i := 0; ; i++ {
		c, err := net.Dial("tcp", addr)
		if err == nil {
			_ = c.Close()
			break
		}
		if i > 300 {
			h.Infra("the http server does not listen: %v", err)
		}
		time.Sleep(20 * time.Millisecond)
	}
	h.Main(m)
}

var client = &http.Client{Timeout: 20 * time.Second}

func do(rt *rapid.T, method, path string, body []byte) (int, []byte) {
	req, err := http.NewRequest(method, base+path, bytes.NewReader(body))
	h.Must(err)
	resp, err := client.Do(req)
	if err != nil {
		rt.Fatalf("%s %s: %v", method, path, err)
	}
	defer resp.Body.Close()
	out, err := io.ReadAll(resp.Body)
	if err != nil {
		rt.Fatalf("%s %s: reading the answer: %v", method, path, err)
	}
	return resp.StatusCode, out
}

func text(rt *rapid.T, l string) string {
	switch rapid.IntRange(0, 4).Draw(rt, l+"Kind") {
	case 0:
		return ""
	case 1:
		return rapid.SampledFrom([]string{"0.13.0", "0.14.0", "thorpub1abc", "<&>\"'\\", "日本\u2028", "a,b", " x "}).Draw(rt, l)
	case 2:
		return h.NodeN(rapid.IntRange(0, 10).Draw(rt, l)).Bech32
	case 3:
		return base64.StdEncoding.EncodeToString(h.Bytes(rapid.Uint64().Draw(rt, l), 32))
	}
	return rapid.StringN(0, 20, 60).Draw(rt, l)
}

func texts(rt *rapid.T, l string) []string {
	n := rapid.IntRange(0, 5).Draw(rt, l+"N")
	if n == 0 && rapid.Bool().Draw(rt, l+"Nil") {
		return nil
	}
	out := make([]string, n)
	for i := range out {
		out[i] = text(rt, l)
	}
	return out
}

func height(rt *rapid.T) int64 {
	return rapid.OneOf(rapid.SampledFrom([]int64{0, 1, -1, 1<<53 + 1, 1<<63 - 1, -1 << 63}), rapid.Int64()).Draw(rt, "height")
}

func genBlame(rt *rapid.T) blame.Blame {
	var nodes []blame.Node
	for i := rapid.IntRange(0, 3).Draw(rt, "blamed"); i > 0; i-- {
		var d, s []byte
		if rapid.Bool().Draw(rt, "evidence") {
			d, s = h.Bytes(rapid.Uint64().Draw(rt, "d"), 20), h.Bytes(rapid.Uint64().Draw(rt, "s"), 64)
		}
		nodes = append(nodes, blame.NewNode(text(rt, "pk"), d, s))
	}
	b := blame.NewBlame(text(rt, "reason"), nodes)
	b.IsUnicast = rapid.Bool().Draw(rt, "unicast")
	return b
}

// encode writes the request as a JSON object, fields in generated order, with generated spacing,
// absent fields when zero and unknown ones added.
func encode(rt *rapid.T, fields map[string]interface{}) []byte {
	names := h.Permute(rt, h.Keys(fields), "order")
	sp := rapid.SampledFrom([]string{"", " ", "\n\t"}).Draw(rt, "space")
	var parts []string
	for _, n := range names {
		v, err := json.Marshal(fields[n])
		h.Must(err)
		if reflect.ValueOf(fields[n]).IsZero() && rapid.Bool().Draw(rt, "absent") {
			continue
		}
		parts = append(parts, fmt.Sprintf("%s%q:%s%s", sp, n, sp, v))
	}
	if rapid.IntRange(0, 3).Draw(rt, "unknown") == 0 {
		parts = append(parts, `"something_else":{"keys":["x"]}`)
	}
	return []byte(sp + "{" + strings.Join(parts, ",") + sp + "}" + sp)
}

// same compares two JSON documents.
func same(a, b []byte) bool {
	var x, y interface{}
	da, db := json.NewDecoder(bytes.NewReader(a)), json.NewDecoder(bytes.NewReader(b))
	da.UseNumber()
	db.UseNumber()
	return da.Decode(&x) == nil && db.Decode(&y) == nil && reflect.DeepEqual(x, y)
}

func eqStrings(a, b []string) bool {
	return len(a) == len(b) && (len(a) == 0 || reflect.DeepEqual(a, b))
}

// TestKeygen: the request and the result pass unchanged.
func TestKeygen(t *testing.T) {
	h.Rule("keygen: generated keys, height, version (special characters, extreme numbers, absent fields, unknown fields, any field order) and generated result (key, address, status, blame with evidence), with and without an error of the server; non-trivial: at least one key")
	h.Check(t, 700, 10000, 25*time.Second, 5*time.Minute, func(rt *rapid.T) {
		srv.reset()
		want := keygen.Request{Keys: texts(rt, "keys"), BlockHeight: height(rt), Version: text(rt, "version")}
		body := encode(rt, map[string]interface{}{"keys": want.Keys, "block_height": want.BlockHeight, "tss_version": want.Version})
		resp := keygen.NewResponse(text(rt, "pub"), text(rt, "addr"), common.Status(rapid.IntRange(0, 2).Draw(rt, "status")), genBlame(rt))
		var serr error
		if rapid.IntRange(0, 3).Draw(rt, "fail") == 0 {
			serr = errors.New("keygen failed")
		}
		srv.mu.Lock()
		srv.onKg = func(keygen.Request) (keygen.Response, error) { return resp, serr }
		srv.mu.Unlock()
		code, out := do(rt, "POST", "/keygen", body)
		key := ""
		if len(want.Keys) > 0 {
			key = string(body)
		}
		h.Seen("keygen", key, map[string]interface{}{"body": string(body), "status": code})
		if len(srv.kg) != 1 || len(srv.ks) != 0 {
			rt.Fatalf("body %s: the server got %d keygen and %d keysign requests (answer %d)", body, len(srv.kg), len(srv.ks), code)
		}
		got := srv.kg[0]
		if !eqStrings(got.Keys, want.Keys) || got.BlockHeight != want.BlockHeight || got.Version != want.Version {
			rt.Fatalf("body %s: the server got %+v want %+v", body, got, want)
		}
		if code >= 500 && serr != nil {
			return
		}
		exp, err := json.Marshal(resp)
		h.Must(err)
		if code != 200 || !same(out, exp) {
			rt.Fatalf("answer %d %s, the server's result is %s", code, out, exp)
		}
	})
}

// TestKeysign: likewise; a failed signing is a server error without a result.
func TestKeysign(t *testing.T) {
	h.Rule("keysign: as keygen, with generated pool key, messages, signers and signatures; with an error of the server the answer must be 5xx without any of the result; non-trivial: at least one message")
	h.Check(t, 700, 10000, 25*time.Second, 5*time.Minute, func(rt *rapid.T) {
		srv.reset()
		want := keysign.Request{
			PoolPubKey: text(rt, "pool"), Messages: texts(rt, "messages"), SignerPubKeys: texts(rt, "signers"),
			BlockHeight: height(rt), Version: text(rt, "version"),
		}
		body := encode(rt, map[string]interface{}{
			"pool_pub_key": want.PoolPubKey, "messages": want.Messages, "signer_pub_keys": want.SignerPubKeys,
			"block_height": want.BlockHeight, "tss_version": want.Version,
		})
		var sigs []keysign.Signature
		for i := rapid.IntRange(0, 4).Draw(rt, "sigs"); i > 0; i-- {
			b := func(l string, n int) string {
				return base64.StdEncoding.EncodeToString(h.Bytes(rapid.Uint64().Draw(rt, l), n))
			}
			sigs = append(sigs, keysign.NewSignature(b("m", 32), b("r", 32), b("s", 32), b("v", 1)))
		}
		resp := keysign.NewResponse(sigs, common.Status(rapid.IntRange(0, 2).Draw(rt, "status")), genBlame(rt))
		var serr error
		if rapid.IntRange(0, 2).Draw(rt, "fail") == 0 {
			serr = errors.New("keysign failed")
		}
		srv.mu.Lock()
		srv.onKs = func(keysign.Request) (keysign.Response, error) { return resp, serr }
		srv.mu.Unlock()
		code, out := do(rt, "POST", "/keysign", body)
		key := ""
		if len(want.Messages) > 0 {
			key = string(body)
		}
		h.Seen("keysign", key, map[string]interface{}{"body": string(body), "status": code, "error": serr != nil})
		if len(srv.ks) != 1 || len(srv.kg) != 0 {
			rt.Fatalf("body %s: the server got %d keysign and %d keygen requests (answer %d)", body, len(srv.ks), len(srv.kg), code)
		}
		got := srv.ks[0]
		if got.PoolPubKey != want.PoolPubKey || !eqStrings(got.Messages, want.Messages) || !eqStrings(got.SignerPubKeys, want.SignerPubKeys) ||
			got.BlockHeight != want.BlockHeight || got.Version != want.Version {
			rt.Fatalf("body %s: the server got %+v want %+v", body, got, want)
		}
		if serr != nil {
			var r keysign.Response
			if code < 500 {
				rt.Fatalf("the signing failed, the answer is %d %s", code, out)
			}
			if json.Unmarshal(out, &r) == nil && (len(r.Signatures) > 0 || r.Status == common.Success) {
				rt.Fatalf("the signing failed, the answer %d carries a result: %s", code, out)
			}
			return
		}
		exp, err := json.Marshal(resp)
		h.Must(err)
		if code != 200 || !same(out, exp) {
			rt.Fatalf("answer %d %s, the server's result is %s", code, out, exp)
		}
	})
}

// TestRefused: malformed bodies and wrong methods do not reach the server.
func TestRefused(t *testing.T) {
	h.Rule("refused: malformed bodies (cut, wrong types, overflowing numbers, no JSON) on the POST routes get 400; other methods on every route are refused (4xx); the server is not called; keyed by method, path, body")
	h.Check(t, 900, 10000, 20*time.Second, 4*time.Minute, func(rt *rapid.T) {
		srv.reset()
		srv.mu.Lock()
		srv.id = "peer"
		srv.onKg = func(keygen.Request) (keygen.Response, error) {
			return keygen.NewResponse("pk", "a", common.Success, blame.Blame{}), nil
		}
		srv.onKs = func(keysign.Request) (keysign.Response, error) {
			return keysign.NewResponse(nil, common.Success, blame.Blame{}), nil
		}
		srv.mu.Unlock()
		path := rapid.SampledFrom([]string{"/keygen", "/keysign"}).Draw(rt, "path")
		good := `{"keys":["a","b"],"block_height":10,"tss_version":"0.14.0","pool_pub_key":"p","messages":["m"],"signer_pub_keys":["s"]}`
		if rapid.Bool().Draw(rt, "wrongMethod") {
			method := rapid.SampledFrom([]string{"GET", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS"}).Draw(rt, "method")
			if rapid.IntRange(0, 3).Draw(rt, "getRoute") == 0 {
				path = rapid.SampledFrom([]string{"/ping", "/p2pid"}).Draw(rt, "path2")
				method = rapid.SampledFrom([]string{"POST", "PUT", "DELETE", "PATCH"}).Draw(rt, "method2")
			}
			code, _ := do(rt, method, path, []byte(good))
			h.Seen("method", method+path, map[string]interface{}{"method": method, "path": path, "status": code})
			if len(srv.kg)+len(srv.ks) > 0 {
				rt.Fatalf("%s %s reached the server", method, path)
			}
			if code < 400 || code > 499 {
				rt.Fatalf("%s %s is answered %d", method, path, code)
			}
			return
		}
		var body string
		switch rapid.IntRange(0, 4).Draw(rt, "bad") {
		case 0:
			body = good[:rapid.IntRange(0, len(good)-1).Draw(rt, "cut")]
		case 1:
			f := rapid.SampledFrom([]string{`"block_height":"ten"`, `"block_height":1.5`, `"block_height":9223372036854775808`, `"block_height":[]`, `"tss_version":5`, `"tss_version":{}`}).Draw(rt, "field")
			body = "{" + f + "}"
		case 2:
			if path == "/keygen" {
				body = rapid.SampledFrom([]string{`{"keys":"a"}`, `{"keys":[1]}`, `{"keys":{"a":1}}`, `{"keys":["a",["b"]]}`}).Draw(rt, "keys")
			} else {
				body = rapid.SampledFrom([]string{`{"messages":"a"}`, `{"messages":[1]}`, `{"signer_pub_keys":7}`, `{"pool_pub_key":["p"]}`}).Draw(rt, "fields")
			}
		case 3:
			body = rapid.SampledFrom([]string{"", " ", "x", "[]", `"text"`, "12", "true", "<xml/>", "{", "}", "{]", `{"keys"}`, `{"keys":}`, `{keys:[]}`, "\xff\xfe{}"}).Draw(rt, "text")
		default:
			b := []byte(good)
			b[0] = rapid.SampledFrom([]byte("x[(,:}")).Draw(rt, "first")
			body = string(b)
		}
		code, out := do(rt, "POST", path, []byte(body))
		h.Seen("body", path+body, map[string]interface{}{"path": path, "body": body, "status": code})
		if len(srv.kg)+len(srv.ks) > 0 {
			rt.Fatalf("%s: body %q reached the server", path, body)
		}
		if code != 400 {
			rt.Fatalf("%s: body %q is answered %d %s", path, body, code, out)
		}
	})
}

// TestQueries: ping and p2pid.
func TestQueries(t *testing.T) {
	h.Rule("queries: ping answers 200, p2pid answers 200 with the server's peer id, for generated identities")
	h.Check(t, 60, 600, 10*time.Second, time.Minute, func(rt *rapid.T) {
		srv.reset()
		id := h.NodeN(rapid.IntRange(0, 60).Draw(rt, "id")).Peer.String()
		srv.mu.Lock()
		srv.id = id
		srv.mu.Unlock()
		h.Seen("queries", id, id)
		if code, _ := do(rt, "GET", "/ping", nil); code != 200 {
			rt.Fatalf("ping is answered %d", code)
		}
		code, out := do(rt, "GET", "/p2pid", nil)
		if code != 200 || string(out) != id {
			rt.Fatalf("p2pid is answered %d %q, the id is %s", code, out, id)
		}
		if len(srv.kg)+len(srv.ks) > 0 {
			rt.Fatalf("a query reached keygen or keysign")
		}
	})
}

// TestConcurrent: concurrent callers each get the result of their own request.
func TestConcurrent(t *testing.T) {
	h.Rule("concurrent: 4..16 keygen and keysign calls at once, each answered by the server after a generated delay with a result derived from its request; every caller gets its own")
	h.Check(t, 40, 400, 20*time.Second, 3*time.Minute, func(rt *rapid.T) {
		srv.reset()
		n := rapid.IntRange(4, 16).Draw(rt, "n")
		delays := rapid.SliceOfN(rapid.IntRange(0, 20), n, n).Draw(rt, "delays")
		kinds := rapid.SliceOfN(rapid.Bool(), n, n).Draw(rt, "kinds")
		srv.mu.Lock()
		srv.onKg = func(r keygen.Request) (keygen.Response, error) {
			time.Sleep(time.Duration(delays[r.BlockHeight]) * time.Millisecond)
			return keygen.NewResponse("pk"+r.Version, "", common.Success, blame.Blame{}), nil
		}
		srv.onKs = func(r keysign.Request) (keysign.Response, error) {
			time.Sleep(time.Duration(delays[r.BlockHeight]) * time.Millisecond)
			return keysign.NewResponse([]keysign.Signature{keysign.NewSignature("m"+r.Version, "", "", "")}, common.Success, blame.Blame{}), nil
		}
		srv.mu.Unlock()
		res := make([]string, n)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				path := "/keygen"
				if kinds[i] {
					path = "/keysign"
				}
				resp, err := client.Post(base+path, "application/json", strings.NewReader(fmt.Sprintf(`{"block_height":%d,"tss_version":"v%d"}`, i, i)))
				if err != nil {
					res[i] = err.Error()
					return
				}
				defer resp.Body.Close()
				out, _ := io.ReadAll(resp.Body)
				if kinds[i] {
					var r keysign.Response
					_ = json.Unmarshal(out, &r)
					if len(r.Signatures) == 1 && r.Signatures[0].Msg == fmt.Sprintf("mv%d", i) {
						res[i] = "ok"
						return
					}
				} else {
					var r keygen.Response
					_ = json.Unmarshal(out, &r)
					if r.PubKey == fmt.Sprintf("pkv%d", i) {
						res[i] = "ok"
						return
					}
				}
				res[i] = string(out)
			}(i)
		}
		wg.Wait()
		h.Seen("concurrent", fmt.Sprint(delays, kinds), fmt.Sprintf("%d calls", n))
		for i, r := range res {
			if r != "ok" {
				rt.Fatalf("call %d got %q", i, r)
			}
		}
		if len(srv.kg)+len(srv.ks) != n {
			rt.Fatalf("%d calls reached the server %d times", n, len(srv.kg)+len(srv.ks))
		}
	})
}
