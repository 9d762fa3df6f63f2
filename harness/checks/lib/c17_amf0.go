package lib

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"time"

	"github.com/SmartBrave/Athena/easyio"
	"github.com/sbraveyoung/GGmpeg/libamf"

	"vharness/ref/amf0"
	"vharness/vh"
)

func init() {
	vh.Register(&vh.Check{
		ID: "C17", Quick: 12000, Thorough: 80000,
		Rule:      "each case: a random AMF0 value sequence decoded from an independent encoding, a random Go value encoded and read by an independent decoder, every truncation of one encoding, and byte-mutated encodings compared with the independent decoder; non-trivial when the sequence contains a compound value; distinct by encoded bytes",
		Technique: "differential trace oracle: independent AMF0 codec against the real codec over generated, truncated and mutated inputs",
		LevelNote: "held on the generated values; reference codec written from the AMF0 specification is trusted; markers movieclip, reference, recordset, XML and typed object are not modelled",
		Run:       runC17,
	})
}

func amfString(r *rand.Rand) string {
	n := 0
	switch r.Intn(10) {
	case 0:
		n = 0
	case 1:
		n = []int{255, 256, 300, 65534, 65535}[r.Intn(5)]
	default:
		n = 1 + r.Intn(20)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	if r.Intn(3) > 0 {
		for i := range b {
			b[i] = 'a' + b[i]%26
		}
	}
	return string(b)
}

func amfKey(r *rand.Rand, i int) string {
	switch r.Intn(12) {
	case 0:
		return fmt.Sprintf("k%d\x00\x09", i)
	case 1:
		return fmt.Sprintf("%d", i)
	case 2:
		return fmt.Sprintf("k%d", i) + string(bytes.Repeat([]byte("z"), 300))
	}
	return fmt.Sprintf("key%d", i)
}

var amfNums = []float64{0, 1, -1, math.Inf(1), math.Inf(-1), math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, -0.5, 4294967296}

func amfNum(r *rand.Rand) float64 {
	if r.Intn(3) == 0 {
		return amfNums[r.Intn(len(amfNums))]
	}
	return math.Float64frombits(r.Uint64()&^(1<<62)) * 1
}

// amfWire makes a value of the reference types.
func amfWire(r *rand.Rand, depth int) interface{} {
	k := r.Intn(14)
	if depth <= 0 {
		k = r.Intn(8)
	}
	switch k {
	case 0, 1:
		return amfNum(r)
	case 2:
		return r.Intn(2) == 0
	case 3:
		return amfString(r)
	case 4:
		return nil
	case 5:
		return amf0.Undefined{}
	case 6:
		return amf0.Date{Ms: float64(r.Int63n(4e12) - 1e12), TZ: int16(r.Intn(65536) - 32768)}
	case 7:
		if r.Intn(20) == 0 {
			return amf0.Long(string(bytes.Repeat([]byte{byte(r.Intn(256))}, 65536+r.Intn(70000))))
		}
		return amf0.Long(amfString(r))
	case 8, 9, 10:
		o := amf0.Obj{}
		for i, n := 0, r.Intn(6); i < n; i++ {
			o = append(o, amf0.Prop{K: amfKey(r, i), V: amfWire(r, depth-1)})
		}
		return o
	case 11, 12:
		e := amf0.ECMA{}
		n := r.Intn(6)
		for i := 0; i < n; i++ {
			e.Props = append(e.Props, amf0.Prop{K: amfKey(r, i), V: amfWire(r, depth-1)})
		}
		switch r.Intn(5) {
		case 0:
			e.Count = 0
		case 1:
			e.Count = uint32(r.Intn(10))
		case 2:
			e.Count = r.Uint32()
		default:
			e.Count = uint32(n)
		}
		return e
	default:
		s := amf0.Strict{}
		for i, n := 0, r.Intn(6); i < n; i++ {
			s = append(s, amfWire(r, depth-1))
		}
		return s
	}
}

// amfGo makes a Go value and the reference value it must be read back as.
func amfGo(r *rand.Rand, depth int) (interface{}, interface{}) {
	k := r.Intn(12)
	if depth <= 0 {
		k = r.Intn(8)
	}
	switch k {
	case 0, 1:
		f := amfNum(r)
		return f, f
	case 2:
		b := r.Intn(2) == 0
		return b, b
	case 3, 4:
		s := amfString(r)
		if r.Intn(40) == 0 {
			s = string(bytes.Repeat([]byte{'q'}, 65536+r.Intn(70000)))
		}
		return s, s
	case 5:
		return nil, nil
	case 6:
		n := r.Int31() - 1<<30
		switch r.Intn(3) {
		case 0:
			return int(n), float64(n)
		case 1:
			return int64(n), float64(n)
		}
		return n, float64(n)
	case 7:
		n := r.Uint32()
		switch r.Intn(3) {
		case 0:
			return uint8(n), float64(uint8(n))
		case 1:
			return uint16(n), float64(uint16(n))
		}
		return n, float64(n)
	case 8, 9:
		a := []interface{}{}
		s := amf0.Strict{}
		for i, n := 0, r.Intn(5); i < n; i++ {
			g, w := amfGo(r, depth-1)
			a, s = append(a, g), append(s, w)
		}
		return a, s
	default:
		m := map[string]interface{}{}
		o := amf0.Obj{}
		for i, n := 0, r.Intn(6); i < n; i++ {
			g, w := amfGo(r, depth-1)
			key := amfKey(r, i)
			m[key] = g
			o = append(o, amf0.Prop{K: key, V: w})
		}
		return m, o
	}
}

// fromLib converts what the library decoded to reference values.
func fromLib(v interface{}) interface{} {
	switch x := v.(type) {
	case time.Time:
		return amf0.Date{Ms: float64(x.Unix())*1000 + float64(x.Nanosecond()/1e6)}
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range x {
			m[k] = fromLib(e)
		}
		return m
	case []interface{}:
		s := amf0.Strict{}
		for _, e := range x {
			s = append(s, fromLib(e))
		}
		return s
	}
	return v
}

func amfList(vs []interface{}, lib bool) string {
	s := ""
	for _, v := range vs {
		if lib {
			v = fromLib(v)
		}
		s += amf0.Norm(v) + ";"
	}
	return s
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d)", len(s))
	}
	return s
}

func libDecode(c *vh.C, b []byte) (vals []interface{}, err error) {
	in := append([]byte{}, b...)
	c.Call("AMF0 decode", func() { vals, err = libamf.AMF0.Decode(easyio.NewEasyReader(bytes.NewReader(in))) })
	return
}

func runC17(c *vh.C) {
	r := c.R
	// A: wire to values
	n := 1 + r.Intn(5)
	var vals []interface{}
	depth := r.Intn(5)
	if r.Intn(50) == 0 {
		depth = 18
	}
	compound := false
	var offs []int
	var enc []byte
	for i := 0; i < n; i++ {
		v := amfWire(r, depth)
		switch v.(type) {
		case amf0.Obj, amf0.ECMA, amf0.Strict:
			compound = true
		}
		vals = append(vals, v)
		enc = append(enc, amf0.Enc(v)...)
		offs = append(offs, len(enc))
	}
	c.Trace("values %s", clip(amfList(vals, false), 300))
	c.Trace("encoded %x", clip(string(enc), 120))
	got, err := libDecode(c, enc)
	if err != nil {
		c.Fail("decode-error", "decoding a legal encoding failed: %v", err)
	}
	if g, w := amfList(got, true), amfList(vals, false); g != w {
		c.Fail("decode-differs", "decoded %d values %s, sent %d values %s", len(got), clip(g, 500), len(vals), clip(w, 500))
	}
	c.Count("values_decoded", len(vals))
	if compound {
		c.Nontrivial("%x", enc)
	}
	// B: values to wire
	gv, wv := amfGo(r, r.Intn(5))
	var buf bytes.Buffer
	c.Call("AMF0 encode", func() { err = libamf.AMF0.Encode(easyio.NewEasyWriter(&buf), gv) })
	if err != nil {
		c.Fail("encode-error", "encoding %s failed: %v", clip(amf0.Norm(wv), 300), err)
	}
	back, err := amf0.Dec(buf.Bytes())
	if err != nil || len(back) != 1 {
		c.Fail("encode-illegal", "encoding of %s is not one legal value: %v, %d values, bytes %x", clip(amf0.Norm(wv), 300), err, len(back), clip(buf.String(), 100))
	}
	if amf0.Norm(back[0]) != amf0.Norm(wv) {
		c.Fail("encode-differs", "value %s encodes as %s", clip(amf0.Norm(wv), 300), clip(amf0.Norm(back[0]), 300))
	}
	c.Count("values_encoded", 1)
	// C: truncations
	step := 1 + len(enc)/200
	for cut := 0; cut < len(enc); cut += step {
		k, whole := 0, cut == 0
		for i, o := range offs {
			if o <= cut {
				k = i + 1
			}
			if o == cut {
				whole = true
			}
		}
		got, err := libDecode(c, enc[:cut])
		if whole {
			if err != nil || amfList(got, true) != amfList(vals[:k], false) {
				c.Fail("prefix-differs", "prefix of %d whole values: %v, got %s", k, err, clip(amfList(got, true), 300))
			}
		} else if err == nil {
			c.Fail("truncated-accepted", "input cut after %d of %d bytes (inside value %d) was accepted as %d values", cut, len(enc), k, len(got))
		}
		c.Count("truncations", 1)
	}
	// D: mutations
	if len(enc) < 4000 {
		for i := 0; i < 20; i++ {
			m := append([]byte{}, enc...)
			for j := 0; j <= r.Intn(3); j++ {
				switch r.Intn(3) {
				case 0:
					m[r.Intn(len(m))] = byte(r.Intn(256))
				case 1:
					m[r.Intn(len(m))] = byte(r.Intn(13))
				case 2:
					p := r.Intn(len(m))
					m = append(m[:p:p], m[p+1:]...)
					if len(m) == 0 {
						m = []byte{9}
					}
				}
			}
			want, werr := amf0.Dec(m)
			if errors.Is(werr, amf0.ErrUnmodelled) || amf0.OddDate(want) {
				libDecode(c, m)
				continue
			}
			got, err := libDecode(c, m)
			if werr != nil && err == nil {
				c.Fail("malformed-accepted", "malformed input (%v) %x was accepted as %s", werr, clip(string(m), 150), clip(amfList(got, true), 300))
			}
			if werr == nil && (err != nil || amfList(got, true) != amfList(want, false)) {
				c.Fail("mutated-differs", "input %x: want %s, got %s (%v)", clip(string(m), 150), clip(amfList(want, false), 300), clip(amfList(got, true), 300), err)
			}
			c.Count("mutations", 1)
		}
	}
}
