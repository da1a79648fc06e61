package codecdrv

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"math"
	"math/rand"
	"reflect"
	"strings"

	"verifharness/common"

	"github.com/savaki/kafka/message"
	"github.com/savaki/kafka/message/sizeof"
)

type header struct{ K, V string }

// prim is one primitive: how to make a value, put it, get it and size it.
type prim struct {
	gen  func(rng *rand.Rand, prof int) interface{}
	put  func(e *message.Encoder, x interface{})
	get  func(d *message.Decoder) (interface{}, error)
	size func(x interface{}) int32 // nil: there is no size function
}

func fixed(n int32) func(interface{}) int32 { return func(interface{}) int32 { return n } }

func plen(rng *rand.Rand, prof int) int {
	if prof > 0 {
		return longs[rng.Intn(len(longs))]
	}
	return lens[rng.Intn(len(lens))]
}

func blobOf(rng *rand.Rand, prof int) []byte {
	if prof == 0 && rng.Intn(8) == 0 {
		return nil
	}
	return blob(plen(rng, prof), rng)
}

func counts(rng *rand.Rand, prof int) int {
	if prof > 0 {
		return []int{126, 127, 128, 129, 255, 256, 257, 300}[rng.Intn(8)]
	}
	return rng.Intn(7)
}

var primitives = map[string]prim{
	"Bool": {
		func(r *rand.Rand, _ int) interface{} { return r.Intn(2) == 0 },
		func(e *message.Encoder, x interface{}) { e.PutBool(x.(bool)) },
		func(d *message.Decoder) (interface{}, error) { return d.Bool() }, fixed(sizeof.Bool)},
	"Int8": {
		func(r *rand.Rand, _ int) interface{} { return int8(integer(8, r)) },
		func(e *message.Encoder, x interface{}) { e.PutInt8(x.(int8)) },
		func(d *message.Decoder) (interface{}, error) { return d.Int8() }, fixed(sizeof.Int8)},
	"Int16": {
		func(r *rand.Rand, _ int) interface{} { return int16(integer(16, r)) },
		func(e *message.Encoder, x interface{}) { e.PutInt16(x.(int16)) },
		func(d *message.Decoder) (interface{}, error) { return d.Int16() }, fixed(sizeof.Int16)},
	"Int32": {
		func(r *rand.Rand, _ int) interface{} { return int32(integer(32, r)) },
		func(e *message.Encoder, x interface{}) { e.PutInt32(x.(int32)) },
		func(d *message.Decoder) (interface{}, error) { return d.Int32() }, fixed(sizeof.Int32)},
	"Int64": {
		func(r *rand.Rand, _ int) interface{} { return integer(64, r) },
		func(e *message.Encoder, x interface{}) { e.PutInt64(x.(int64)) },
		func(d *message.Decoder) (interface{}, error) { return d.Int64() }, fixed(sizeof.Int64)},
	"ArrayLength": {
		func(r *rand.Rand, _ int) interface{} { return []int{0, 0, -1}[r.Intn(3)] },
		func(e *message.Encoder, x interface{}) { e.PutArrayLength(x.(int)) },
		func(d *message.Decoder) (interface{}, error) { return d.ArrayLength() }, fixed(sizeof.ArrayLength)},
	"String": {
		func(r *rand.Rand, p int) interface{} { return string(blob(plen(r, p), r)) },
		func(e *message.Encoder, x interface{}) { e.PutString(x.(string)) },
		func(d *message.Decoder) (interface{}, error) { return d.String() },
		func(x interface{}) int32 { return sizeof.String(x.(string)) }},
	"NString": {
		func(r *rand.Rand, p int) interface{} {
			if r.Intn(4) == 0 {
				return (*string)(nil)
			}
			s := string(blob(plen(r, p), r))
			return &s
		},
		func(e *message.Encoder, x interface{}) { e.PutNullableString(x.(*string)) },
		func(d *message.Decoder) (interface{}, error) { return d.NullableString() }, nil},
	"Bytes": {
		func(r *rand.Rand, p int) interface{} { return blobOf(r, p) },
		func(e *message.Encoder, x interface{}) { e.PutBytes(x.([]byte)) },
		func(d *message.Decoder) (interface{}, error) { return d.Bytes() },
		func(x interface{}) int32 { return sizeof.Bytes(x.([]byte)) }},
	"Int32Array": {
		func(r *rand.Rand, p int) interface{} {
			if p == 0 && r.Intn(6) == 0 {
				return []int32(nil)
			}
			v := make([]int32, counts(r, p))
			for i := range v {
				v[i] = int32(integer(32, r))
			}
			return v
		},
		func(e *message.Encoder, x interface{}) { e.PutInt32Array(x.([]int32)) },
		func(d *message.Decoder) (interface{}, error) { return d.Int32Array() },
		func(x interface{}) int32 { return sizeof.Int32Array(x.([]int32)) }},
	"Int64Array": {
		func(r *rand.Rand, p int) interface{} {
			if p == 0 && r.Intn(6) == 0 {
				return []int64(nil)
			}
			v := make([]int64, counts(r, p))
			for i := range v {
				v[i] = integer(64, r)
			}
			return v
		},
		func(e *message.Encoder, x interface{}) { e.PutInt64Array(x.([]int64)) },
		func(d *message.Decoder) (interface{}, error) { return d.Int64Array() },
		func(x interface{}) int32 { return sizeof.Int64Array(x.([]int64)) }},
	"StringArray": {
		func(r *rand.Rand, p int) interface{} {
			if p == 0 && r.Intn(6) == 0 {
				return []string(nil)
			}
			v := make([]string, counts(r, p))
			for i := range v {
				v[i] = string(blob(lens[r.Intn(len(lens))], r))
			}
			return v
		},
		func(e *message.Encoder, x interface{}) { e.PutStringArray(x.([]string)) },
		func(d *message.Decoder) (interface{}, error) { return d.StringArray() },
		func(x interface{}) int32 { return sizeof.StringArray(x.([]string)) }},
	"VarInt": {
		func(r *rand.Rand, _ int) interface{} {
			if r.Intn(2) == 0 { // around the length boundaries of the encoding
				x := int64(1)<<uint(7*(1+r.Intn(9))-1) + int64(r.Intn(3)-1)
				if r.Intn(2) == 0 {
					x = -x
				}
				return x
			}
			return integer(64, r)
		},
		func(e *message.Encoder, x interface{}) { e.PutVarInt(x.(int64)) },
		func(d *message.Decoder) (interface{}, error) { return d.VarInt() },
		func(x interface{}) int32 { return sizeof.VarInt(x.(int64)) }},
	"VarBytes": {
		func(r *rand.Rand, p int) interface{} { return blobOf(r, p) },
		func(e *message.Encoder, x interface{}) { e.PutVarBytes(x.([]byte)) },
		func(d *message.Decoder) (interface{}, error) { return d.VarBytes() },
		func(x interface{}) int32 { return sizeof.VarBytes(x.([]byte)) }},
	"VarString": {
		func(r *rand.Rand, p int) interface{} { return string(blob(plen(r, p), r)) },
		func(e *message.Encoder, x interface{}) { e.PutVarString(x.(string)) },
		func(d *message.Decoder) (interface{}, error) { return d.VarString() },
		func(x interface{}) int32 { return sizeof.VarString(x.(string)) }},
	"RecordHeader": {
		func(r *rand.Rand, p int) interface{} {
			return header{string(blob(plen(r, 0), r)), string(blob(plen(r, p), r))}
		},
		func(e *message.Encoder, x interface{}) { e.PutRecordHeader(x.(header).K, x.(header).V) },
		func(d *message.Decoder) (interface{}, error) {
			k, err := d.VarString()
			if err != nil {
				return header{}, err
			}
			v, err := d.VarString()
			return header{k, v}, err
		}, nil},
}

func dumpPrim(x interface{}) interface{} {
	if h, ok := x.(header); ok {
		return obj{"k": common.Ints([]byte(h.K)), "v": common.Ints([]byte(h.V))}
	}
	return dump(reflect.ValueOf(x))
}

func getPrim(p prim, b []byte, limit int) obj {
	d := message.NewDecoder(b, limit)
	x, err := p.get(d)
	o := obj{"out": outcome(err), "rest": 0, "val": 0}
	if err == nil {
		o["val"] = dumpPrim(x)
		o["rest"] = rest(d)
	}
	return o
}

// record one value x of primitive t
func primItem(t string, x interface{}) obj {
	p := primitives[t]
	var buf bytes.Buffer
	e := message.NewEncoder(&buf)
	p.put(e, x)
	err := e.Flush()
	enc := append([]byte(nil), buf.Bytes()...)
	size := int32(-1)
	if p.size != nil {
		size = p.size(x)
	}
	r := obj{"kind": "prim", "t": t, "x": dumpPrim(x), "enc": common.Ints(enc), "encok": err == nil, "size": size, "dec": getPrim(p, append([]byte(nil), enc...), len(enc))}
	// not at the start of the buffer, and with further data behind it
	pre := append([]byte{9, 9, 9}, enc...)
	d := message.NewDecoder(append(pre, bytes.Repeat([]byte{3}, 20)...), len(pre)+20)
	d.Discard(3)
	y, err := p.get(d)
	r["mid"] = err == nil && rest(d) == 20 && reflect.DeepEqual(dumpPrim(y), r["dec"].(obj)["val"])
	r["cuts"] = cuts(enc, func(b []byte, limit int) string {
		_, err := p.get(limited(b, limit))
		return outcome(err)
	})
	return r
}

func prims(s scenario) []obj {
	rng := rand.New(rand.NewSource(s.Seed))
	var out []obj
	switch {
	case s.Prof == 8: // very large
		switch s.Ty {
		case "Bytes":
			out = append(out, primItem(s.Ty, blob(s.N, rng)))
		case "VarBytes":
			out = append(out, primItem(s.Ty, blob(s.N, rng)))
		case "VarString":
			out = append(out, primItem(s.Ty, string(blob(s.N, rng))))
		case "RecordHeader":
			out = append(out, primItem(s.Ty, header{"key", string(blob(s.N, rng))}))
		case "Int32Array":
			x := make([]int32, s.N)
			for i := range x {
				x[i] = rng.Int31()
			}
			out = append(out, primItem(s.Ty, x))
		case "Int64Array":
			x := make([]int64, s.N)
			for i := range x {
				x[i] = rng.Int63()
			}
			out = append(out, primItem(s.Ty, x))
		case "StringArray":
			x := make([]string, s.N)
			for i := range x {
				x[i] = string(blob(rng.Intn(3), rng))
			}
			out = append(out, primItem(s.Ty, x))
		}
	case s.Prof == 9: // exhaustive small ranges
		switch s.Ty {
		case "Bool":
			out = append(out, primItem(s.Ty, true), primItem(s.Ty, false))
		case "Int8":
			for i := -128; i < 128; i++ {
				out = append(out, primItem(s.Ty, int8(i)))
			}
		case "VarInt":
			for i := 0; i < 64; i++ {
				for d := int64(-1); d <= 1; d++ {
					out = append(out, primItem(s.Ty, int64(1)<<uint(i)+d), primItem(s.Ty, -(int64(1)<<uint(i))+d))
				}
			}
		case "Int16", "Int32", "Int64":
			bits := map[string]int{"Int16": 16, "Int32": 32, "Int64": 64}[s.Ty]
			for i := 0; i < bits; i++ {
				for d := int64(-1); d <= 1; d++ {
					for _, x := range []int64{int64(1)<<uint(i) + d, -(int64(1) << uint(i)) + d} {
						switch bits {
						case 16:
							out = append(out, primItem(s.Ty, int16(x)))
						case 32:
							out = append(out, primItem(s.Ty, int32(x)))
						default:
							out = append(out, primItem(s.Ty, x))
						}
					}
				}
			}
		case "String", "VarString":
			for _, n := range append(append([]int{}, lens...), longs...) {
				out = append(out, primItem(s.Ty, strings.Repeat("x", n)), primItem(s.Ty, string(blob(n, rng))))
			}
		case "Bytes", "VarBytes":
			for _, n := range append(append([]int{}, lens...), longs...) {
				out = append(out, primItem(s.Ty, blob(n, rng)))
			}
			out = append(out, primItem(s.Ty, []byte(nil)))
		}
	default:
		for i := 0; i < s.N; i++ {
			out = append(out, primItem(s.Ty, primitives[s.Ty].gen(rng, s.Prof)))
		}
	}
	return out
}

func primRaw(s scenario) []obj {
	rng := rand.New(rand.NewSource(s.Seed))
	p := primitives[s.Ty]
	var out []obj
	for i := 0; i < s.N; i++ {
		var buf bytes.Buffer
		p.put(message.NewEncoder(&buf), p.gen(rng, 0))
		in := mutate(buf.Bytes(), rng)
		if rng.Intn(3) == 0 {
			in = blob(rng.Intn(14), rng)
			for j := range in {
				if rng.Intn(2) == 0 {
					in[j] = []byte{0, 1, 127, 128, 129, 254, 255}[rng.Intn(7)]
				}
			}
		}
		if rng.Intn(4) == 0 { // a length (or value) at the edge of what can be represented
			x := []int64{math.MaxInt64, math.MinInt64, math.MaxInt64 - int64(rng.Intn(40)), math.MinInt64 + int64(rng.Intn(40)), int64(1)<<uint(20+rng.Intn(43)) + int64(rng.Intn(9)-4), -int64(rng.Intn(5))}[rng.Intn(6)]
			buf.Reset()
			e := message.NewEncoder(&buf)
			switch rng.Intn(4) {
			case 0:
				e.PutInt16(int16(x))
			case 1:
				e.PutInt32(int32(x))
			default:
				e.PutVarInt(x)
			}
			in = append(append([]byte(nil), buf.Bytes()...), blob(rng.Intn(20), rng)...)
		}
		if strings.HasPrefix(s.Ty, "Var") && rng.Intn(6) == 0 || rng.Intn(30) == 0 { // a variable length number that goes on and on
			in = bytes.Repeat([]byte{[]byte{128, 129, 255}[rng.Intn(3)]}, 8+rng.Intn(8))
			in = append(in, blob(rng.Intn(6), rng)...)
		}
		var o obj
		kb := alloc(func() { o = getPrim(p, in, len(in)) })
		o["kind"], o["t"], o["in"], o["kb"] = "praw", s.Ty, common.Ints(in), kb
		out = append(out, o)
	}
	return out
}

func tooLong(s scenario) []obj {
	var out []obj
	long := strings.Repeat("y", s.N)
	try := func(t string, fn func(e *message.Encoder)) {
		var buf bytes.Buffer
		e := message.NewEncoder(&buf)
		fn(e)
		err1 := e.Flush()
		e.PutInt32(77)
		err2 := e.Flush()
		out = append(out, obj{"kind": "toolong", "t": t, "n": s.N, "err": err1 != nil, "err2": err2 != nil, "sent": buf.Len()})
	}
	try("String", func(e *message.Encoder) { e.PutString(long) })
	try("NString", func(e *message.Encoder) { e.PutNullableString(&long) })
	try("StringArray", func(e *message.Encoder) { e.PutStringArray([]string{long}) })
	try("Heartbeat", func(e *message.Encoder) { message.HeartbeatRequest{GroupId: long}.Encode(e, 0) })
	return out
}

// ------------------------------------------------------------------ fault programs

type op struct {
	O    string `json:"o"`
	Seed int64  `json:"seed"`
	Prof int    `json:"prof"`
}

var errFault = errors.New("injected")

// writer accepts bytes until its budget is used up, fails once, and then accepts
// everything again, so that an encoder that keeps on writing is found out.
type writer struct {
	ev    *[]obj
	left  int // <0: never fails
	calls int
	total int
}

func (w *writer) Write(b []byte) (int, error) {
	w.calls++
	n := len(b)
	var err error
	if w.left >= 0 {
		if n > w.left {
			n, err, w.left = w.left, errFault, -1
		} else {
			w.left -= n
		}
	}
	*w.ev = append(*w.ev, obj{"k": "w", "b": common.Ints(b[:n]), "fail": err != nil})
	w.total += n
	return n, err
}

// collector holds everything back until it is flushed and forgets its errors
type collector struct {
	w io.Writer
	b []byte
}

func (c *collector) Write(b []byte) (int, error) { c.b = append(c.b, b...); return len(b), nil }
func (c *collector) Flush() error {
	if len(c.b) == 0 {
		return nil
	}
	_, err := c.w.Write(c.b)
	c.b = nil
	return err
}

func program(s scenario) obj {
	ev := []obj{}
	w := &writer{ev: &ev, left: s.Fault}
	var target io.Writer = w
	if s.Buf > 0 {
		target = bufio.NewWriterSize(w, s.Buf)
	} else if s.Buf < 0 {
		target = &collector{w: w}
	}
	e := message.NewEncoder(target)
	var first error
	for _, o := range s.Ops {
		switch o.O {
		case "flush":
			ev = append(ev, obj{"k": "flushcall"})
			err := e.Flush()
			code := 0
			if err != nil {
				code = 2
				if first == nil {
					first = err
				}
				if err == first || err.Error() == first.Error() {
					code = 1
				}
			}
			ev = append(ev, obj{"k": "flush", "err": code, "fault": errors.Is(err, errFault)})
		case "toolong":
			ev = append(ev, obj{"k": "long"})
			e.PutString(strings.Repeat("z", 40000))
		default:
			p := primitives[o.O]
			x := p.gen(rand.New(rand.NewSource(o.Seed)), o.Prof)
			ev = append(ev, obj{"k": "put", "t": o.O, "x": dumpPrim(x)})
			p.put(e, x)
		}
	}
	return obj{"kind": "prog", "ev": ev}
}
