package sim

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
)

// slot is a place in a JSON tree.
type slot struct {
	path string
	set  func(interface{})
	del  func()
	get  func() interface{}
}

func slots(path string, v interface{}, out *[]slot) {
	switch x := v.(type) {
	case map[string]interface{}:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sortStrings(ks)
		for _, k := range ks {
			k := k
			*out = append(*out, slot{path + "." + k, func(n interface{}) { x[k] = n }, func() { delete(x, k) }, func() interface{} { return x[k] }})
			slots(path+"."+k, x[k], out)
		}
	case []interface{}:
		for i := range x {
			i := i
			*out = append(*out, slot{fmt.Sprintf("%s[%d]", path, i), func(n interface{}) { x[i] = n }, func() { x[i] = nil }, func() interface{} { return x[i] }})
			slots(fmt.Sprintf("%s[%d]", path, i), x[i], out)
		}
	}
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

var junkValues = []interface{}{nil, "", "0", "1", "-1", "99", "x", json.Number("0"), json.Number("-1"), json.Number("1"), json.Number("2"), json.Number("7"), json.Number("255"), json.Number("256"), json.Number("99999999999"), json.Number("1e30"), true, false,
	map[string]interface{}{}, []interface{}{}, []interface{}{nil}, []interface{}{map[string]interface{}{}}, "bm90IGpzb24=", "e30=", "W10=", "W251bGxd", "W3t9XQ==", "bnVsbA==", strings.Repeat("A", 4096)}

// JunkJSON replaces or removes one value in a JSON document, descending into base64 fields that hold JSON.
// The second result says where.
func JunkJSON(rng *rand.Rand, doc []byte) ([]byte, string) {
	dec := json.NewDecoder(bytes.NewReader(doc))
	dec.UseNumber()
	var root interface{}
	if dec.Decode(&root) != nil {
		return doc, "not json"
	}
	holder := []interface{}{root}
	var sl []slot
	slots("", holder, &sl)
	s := sl[rng.Intn(len(sl))]
	where := s.path
	done := false
	if str, ok := s.get().(string); ok && rng.Intn(5) > 0 {
		if raw, err := base64.StdEncoding.DecodeString(str); err == nil && len(raw) > 0 && (raw[0] == '{' || raw[0] == '[') {
			nested, w := JunkJSON(rng, raw)
			s.set(base64.StdEncoding.EncodeToString(nested))
			where += w
			done = true
		} else if err == nil && len(raw) > 3 && rng.Intn(2) == 0 {
			switch rng.Intn(4) {
			case 0:
				raw = raw[:rng.Intn(len(raw))]
			case 1:
				raw[rng.Intn(len(raw))] ^= byte(1 + rng.Intn(255))
			case 2:
				raw = append(raw, raw...)
			case 3:
				i := rng.Intn(len(raw))
				raw = append(raw[:i:i], raw[min(len(raw), i+1+rng.Intn(8)):]...)
			}
			s.set(base64.StdEncoding.EncodeToString(raw))
			where += " bytes"
			done = true
		}
	}
	if !done {
		switch rng.Intn(6) {
		case 0:
			s.del()
			where += " removed"
		case 1:
			o := sl[rng.Intn(len(sl))]
			cp, _ := json.Marshal(o.get())
			var c interface{}
			d := json.NewDecoder(bytes.NewReader(cp))
			d.UseNumber()
			_ = d.Decode(&c)
			s.set(c)
			where += " := " + o.path
		case 2:
			if l, ok := s.get().([]interface{}); ok && len(l) > 0 {
				s.set(append(append([]interface{}{}, l...), l[rng.Intn(len(l))]))
				where += " repeated"
				break
			}
			fallthrough
		default:
			v := junkValues[rng.Intn(len(junkValues))]
			s.set(v)
			where += fmt.Sprintf(" = %.20v", v)
		}
	}
	out, err := json.Marshal(holder[0])
	if err != nil {
		return doc, "unmarshalable"
	}
	return out, where
}

// JunkBytes is raw garbage related to a document.
func JunkBytes(rng *rand.Rand, doc []byte) []byte {
	switch rng.Intn(5) {
	case 0:
		b := make([]byte, rng.Intn(200))
		rng.Read(b)
		return b
	case 1:
		return append([]byte(nil), doc[:rng.Intn(len(doc)+1)]...)
	case 2:
		b := append([]byte(nil), doc...)
		for k := 0; k <= rng.Intn(4) && len(b) > 0; k++ {
			b[rng.Intn(len(b))] = byte(rng.Intn(256))
		}
		return b
	case 3:
		return []byte([]string{"", "null", "{}", "[]", "0", "\"\"", "[[[[", "{\"payload\":null}", "{\"message_type\":4,\"payload\":\"e30=\"}", "{\"message_type\":5,\"payload\":\"bnVsbA==\"}"}[rng.Intn(10)])
	}
	i := rng.Intn(len(doc) + 1)
	return append(append(append([]byte(nil), doc[:i]...), doc[len(doc)-rng.Intn(len(doc)+1):]...), doc[i:]...)
}
