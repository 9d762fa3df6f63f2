// Package amf0 is an independent AMF0 encoder and decoder (AMF0 specification).
package amf0

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
)

type Prop struct {
	K string
	V interface{}
}

// Value types: float64, bool, string, nil, Undefined, Obj, ECMA, Strict, Date, Long
type (
	Undefined struct{}
	Obj       []Prop
	ECMA      struct {
		Count uint32
		Props []Prop
	}
	Strict []interface{}
	Date   struct {
		Ms float64
		TZ int16
	}
	Long string // encoded with the long-string marker
)

func Enc(vals ...interface{}) []byte {
	var b []byte
	for _, v := range vals {
		b = enc(b, v)
	}
	return b
}

func key(b []byte, k string) []byte {
	b = append(b, byte(len(k)>>8), byte(len(k)))
	return append(b, k...)
}

func enc(b []byte, v interface{}) []byte {
	switch x := v.(type) {
	case float64:
		b = append(b, 0)
		return binary.BigEndian.AppendUint64(b, math.Float64bits(x))
	case int:
		return enc(b, float64(x))
	case bool:
		if x {
			return append(b, 1, 1)
		}
		return append(b, 1, 0)
	case string:
		if len(x) > 65535 {
			return enc(b, Long(x))
		}
		b = append(b, 2)
		return key(b, x)
	case Long:
		b = append(b, 12)
		b = binary.BigEndian.AppendUint32(b, uint32(len(x)))
		return append(b, x...)
	case nil:
		return append(b, 5)
	case Undefined:
		return append(b, 6)
	case Obj:
		b = append(b, 3)
		for _, p := range x {
			b = enc(key(b, p.K), p.V)
		}
		return append(b, 0, 0, 9)
	case ECMA:
		b = append(b, 8)
		b = binary.BigEndian.AppendUint32(b, x.Count)
		for _, p := range x.Props {
			b = enc(key(b, p.K), p.V)
		}
		return append(b, 0, 0, 9)
	case Strict:
		b = append(b, 10)
		b = binary.BigEndian.AppendUint32(b, uint32(len(x)))
		for _, e := range x {
			b = enc(b, e)
		}
		return b
	case Date:
		b = append(b, 11)
		b = binary.BigEndian.AppendUint64(b, math.Float64bits(x.Ms))
		return append(b, byte(uint16(x.TZ)>>8), byte(x.TZ))
	}
	panic(fmt.Sprintf("amf0: cannot encode %T", v))
}

var errShort = errors.New("amf0: short")

// Dec decodes all values strictly.
func Dec(b []byte) (vals []interface{}, err error) {
	for len(b) > 0 {
		var v interface{}
		v, b, err = dec(b, 0)
		if err != nil {
			return
		}
		vals = append(vals, v)
	}
	return
}

func dec(b []byte, depth int) (interface{}, []byte, error) {
	if len(b) < 1 {
		return nil, nil, errShort
	}
	if depth > 200 {
		return nil, nil, errors.New("amf0: too deep")
	}
	m := b[0]
	b = b[1:]
	switch m {
	case 0:
		if len(b) < 8 {
			return nil, nil, errShort
		}
		return math.Float64frombits(binary.BigEndian.Uint64(b)), b[8:], nil
	case 1:
		if len(b) < 1 {
			return nil, nil, errShort
		}
		return b[0] != 0, b[1:], nil
	case 2:
		if len(b) < 2 {
			return nil, nil, errShort
		}
		n := int(binary.BigEndian.Uint16(b))
		if len(b) < 2+n {
			return nil, nil, errShort
		}
		return string(b[2 : 2+n]), b[2+n:], nil
	case 12:
		if len(b) < 4 {
			return nil, nil, errShort
		}
		n := int(binary.BigEndian.Uint32(b))
		if len(b) < 4+n {
			return nil, nil, errShort
		}
		return string(b[4 : 4+n]), b[4+n:], nil
	case 3:
		p, b, err := props(b, depth)
		return Obj(p), b, err
	case 8:
		if len(b) < 4 {
			return nil, nil, errShort
		}
		n := binary.BigEndian.Uint32(b)
		p, b, err := props(b[4:], depth)
		return ECMA{n, p}, b, err
	case 5:
		return nil, b, nil
	case 6:
		return Undefined{}, b, nil
	case 10:
		if len(b) < 4 {
			return nil, nil, errShort
		}
		n := int(binary.BigEndian.Uint32(b))
		b = b[4:]
		out := Strict{}
		for i := 0; i < n; i++ {
			var v interface{}
			var err error
			v, b, err = dec(b, depth+1)
			if err != nil {
				return nil, nil, err
			}
			out = append(out, v)
		}
		return out, b, nil
	case 11:
		if len(b) < 10 {
			return nil, nil, errShort
		}
		return Date{math.Float64frombits(binary.BigEndian.Uint64(b)), int16(binary.BigEndian.Uint16(b[8:]))}, b[10:], nil
	}
	switch m {
	case 4, 7, 13, 14, 15, 16, 17:
		return nil, nil, ErrUnmodelled
	}
	return nil, nil, fmt.Errorf("amf0: marker %d", m)
}

// ErrUnmodelled is returned for markers this decoder takes no position on.
var ErrUnmodelled = errors.New("amf0: unmodelled marker")

func props(b []byte, depth int) (out []Prop, rest []byte, err error) {
	for {
		if len(b) < 2 {
			return nil, nil, errShort
		}
		n := int(binary.BigEndian.Uint16(b))
		if len(b) < 2+n+1 {
			return nil, nil, errShort
		}
		if n == 0 && b[2] == 9 {
			return out, b[3:], nil
		}
		k := string(b[2 : 2+n])
		var v interface{}
		v, b, err = dec(b[2+n:], depth+1)
		if err != nil {
			return nil, nil, err
		}
		out = append(out, Prop{k, v})
	}
}

// Norm turns a value into a canonical comparable string. Objects and ECMA
// arrays are both maps (unordered), undefined equals null when loose.
func Norm(v interface{}) string {
	var sb strings.Builder
	norm(&sb, v)
	return sb.String()
}

func norm(sb *strings.Builder, v interface{}) {
	switch x := v.(type) {
	case nil, Undefined:
		sb.WriteString("null")
	case float64:
		fmt.Fprintf(sb, "n%016x", math.Float64bits(x))
	case int:
		norm(sb, float64(x))
	case uint32:
		norm(sb, float64(x))
	case bool:
		fmt.Fprintf(sb, "%v", x)
	case string:
		fmt.Fprintf(sb, "%q", x)
	case Long:
		fmt.Fprintf(sb, "%q", string(x))
	case Date:
		fmt.Fprintf(sb, "d%d", int64(x.Ms))
	case Obj:
		nprops(sb, x)
	case ECMA:
		nprops(sb, x.Props)
	case map[string]interface{}:
		var p []Prop
		for k, e := range x {
			p = append(p, Prop{k, e})
		}
		nprops(sb, p)
	case Strict:
		sb.WriteString("[")
		for _, e := range x {
			norm(sb, e)
			sb.WriteString(",")
		}
		sb.WriteString("]")
	case []interface{}:
		norm(sb, Strict(x))
	default:
		fmt.Fprintf(sb, "?%T", v)
	}
}

func nprops(sb *strings.Builder, p []Prop) {
	m := map[string]interface{}{}
	var ks []string
	for _, e := range p {
		if _, ok := m[e.K]; !ok {
			ks = append(ks, e.K)
		}
		m[e.K] = e.V
	}
	sort.Strings(ks)
	sb.WriteString("{")
	for _, k := range ks {
		fmt.Fprintf(sb, "%q:", k)
		norm(sb, m[k])
		sb.WriteString(",")
	}
	sb.WriteString("}")
}

// OddDate reports whether v contains a date no calendar type can hold.
func OddDate(v interface{}) bool {
	switch x := v.(type) {
	case Date:
		return !(math.Abs(x.Ms) < 8e15)
	case Obj:
		for _, p := range x {
			if OddDate(p.V) {
				return true
			}
		}
	case ECMA:
		return OddDate(Obj(x.Props))
	case Strict:
		for _, e := range x {
			if OddDate(e) {
				return true
			}
		}
	case []interface{}:
		return OddDate(Strict(x))
	}
	return false
}
