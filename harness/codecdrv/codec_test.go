// Package codecdrv runs the real encoders, decoders and size functions and records
// what they did, for spec/CodecTrace.tla to judge.
package codecdrv

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"testing"
	"unsafe"

	"verifharness/common"

	"github.com/savaki/kafka/message"
)

// a generated message
type msg interface {
	Size(version int16) int32
	Encode(e *message.Encoder, version int16)
	Decode(d *message.Decoder, version int16) error
}

type scenario struct {
	ID    int    `json:"id"`
	Kind  string `json:"kind"`
	Ty    string `json:"ty"`
	Ver   int    `json:"ver"`
	Seed  int64  `json:"seed"`
	Prof  int    `json:"prof"`
	Proto []int  `json:"proto"`
	N     int    `json:"n"`
	Ops   []op   `json:"ops"`
	Fault int    `json:"fault"`
	Buf   int    `json:"buf"`
	Cuts  bool   `json:"cuts"`
}

type obj = map[string]interface{}

// ------------------------------------------------------------------ values

func exported(v reflect.Value) reflect.Value {
	if v.CanSet() || !v.CanAddr() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func limbs(x int64) []int {
	u := uint64(x)
	return []int{int(u >> 48), int(u >> 32 & 0xffff), int(u >> 16 & 0xffff), int(u & 0xffff)}
}

// dump turns a value into the form the specification uses
func dump(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return obj{"z": true, "v": []int{}}
		}
		return obj{"z": false, "v": dump(v.Elem())}
	case reflect.Struct:
		out := obj{}
		for i := 0; i < v.NumField(); i++ {
			n := v.Type().Field(i).Name
			out[strings.ToUpper(n[:1])+n[1:]] = dump(exported(v.Field(i)))
		}
		return out
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return obj{"z": v.IsNil(), "v": common.Ints(v.Bytes())}
		}
		items := make([]interface{}, v.Len())
		for i := range items {
			items[i] = dump(v.Index(i))
		}
		return obj{"z": v.IsNil(), "v": items}
	case reflect.String:
		return common.Ints([]byte(v.String()))
	case reflect.Bool:
		return v.Bool()
	case reflect.Int64:
		return limbs(v.Int())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int:
		return v.Int()
	}
	panic("HARNESS-ERROR kind " + v.Kind().String())
}

var lens = []int{0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 65, 100}
var longs = []int{126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 32766, 32767}

func integer(bits uint, rng *rand.Rand) int64 {
	lo, hi := int64(math.MinInt64)>>(64-bits), int64(math.MaxInt64)>>(64-bits)
	switch rng.Intn(8) {
	case 0:
		return []int64{lo, hi, lo + 1, hi - 1}[rng.Intn(4)]
	case 1:
		return []int64{0, 1, -1, -2, 2}[rng.Intn(5)]
	case 2: // powers of two and neighbours
		x := int64(1)<<uint(rng.Intn(int(bits)-1)) + int64(rng.Intn(3)-1)
		if rng.Intn(2) == 0 {
			x = -x
		}
		return x
	default:
		return int64(rng.Uint64()) >> (64 - bits)
	}
}

func blob(n int, rng *rand.Rand) []byte {
	b := make([]byte, n)
	switch rng.Intn(3) {
	case 0:
		for i := range b {
			b[i] = byte('a' + rng.Intn(26))
		}
	case 1:
		rng.Read(b)
	default:
		copy(b, []byte("héllo\xff\x00\xc3\x28wörld"))
		for i := 12; i < n; i++ {
			b[i] = byte(i*7 + 1)
		}
	}
	return b
}

// gen fills v.  Profiles: 0 zero; 1 empty but not nil; 2 extremes; 3 small random;
// 4 one long string or byte field; 5 long arrays
func gen(v reflect.Value, prof, depth int, rng *rand.Rand, budget *int) {
	v = exported(v)
	length := func() int {
		switch prof {
		case 1:
			return 0
		case 2:
			return 1 + rng.Intn(2)
		case 4:
			if *budget > 0 && rng.Intn(3) == 0 {
				n := longs[rng.Intn(10)]
				if rng.Intn(12) == 0 {
					n = longs[rng.Intn(len(longs))]
				}
				*budget = 0
				return n
			}
			return rng.Intn(3)
		}
		if rng.Intn(10) == 0 {
			return lens[rng.Intn(len(lens))]
		}
		return rng.Intn(6)
	}
	count := func() int {
		switch prof {
		case 1:
			return 0
		case 2:
			return 1
		case 5:
			if depth == 0 {
				return 5 + rng.Intn(25)
			}
		}
		return rng.Intn(4)
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			gen(v.Field(i), prof, depth, rng, budget)
		}
	case reflect.Slice:
		nilable := prof == 3 && rng.Intn(5) == 0
		switch v.Type().Elem().Kind() {
		case reflect.Uint8:
			if nilable {
				return
			}
			v.SetBytes(blob(length(), rng))
			return
		case reflect.Struct:
			if nilable {
				return
			}
			n := count()
			if prof == 4 && n == 0 {
				n = 1
			}
			s := reflect.MakeSlice(v.Type(), n, n)
			for i := 0; i < n; i++ {
				gen(s.Index(i), prof, depth+1, rng, budget)
			}
			v.Set(s)
		default:
			if nilable {
				return
			}
			n := count()
			if prof == 5 && rng.Intn(4) == 0 {
				n = []int{31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257}[rng.Intn(11)]
			}
			s := reflect.MakeSlice(v.Type(), n, n)
			for i := 0; i < n; i++ {
				gen(s.Index(i), prof, depth+1, rng, budget)
			}
			v.Set(s)
		}
	case reflect.String:
		v.SetString(string(blob(length(), rng)))
	case reflect.Bool:
		v.SetBool(prof == 2 || prof != 1 && rng.Intn(2) == 0)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if prof == 1 {
			return
		}
		v.SetInt(integer(uint(v.Type().Bits()), rng))
	default:
		panic("HARNESS-ERROR kind " + v.Kind().String())
	}
}

// square fills v such that over eight scenarios k = 0..7 of one seed every field takes a
// value of each of eight classes, the fields of one value being of different classes.
type square struct {
	k, ix int
	rng   *rand.Rand
}

func (q *square) class() int { q.ix++; return (q.k + q.ix*3) % 8 }

func (q *square) fill(v reflect.Value, depth int) {
	v = exported(v)
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			q.fill(v.Field(i), depth)
		}
	case reflect.Slice:
		c := q.class()
		switch v.Type().Elem().Kind() {
		case reflect.Uint8:
			if c > 0 {
				v.SetBytes(blob([]int{0, 0, 1, 127, 128, 255, 256, 1000}[c], q.rng))
			}
			return
		case reflect.Struct:
			if c == 0 {
				return
			}
			n := []int{0, 0, 1, 2, 3, 1, 5, 130}[c]
			if depth > 0 && n > 3 {
				n = 1 + n%3
			}
			s := reflect.MakeSlice(v.Type(), n, n)
			ix := q.ix
			for i := 0; i < n; i++ {
				if n <= 3 || i == n-1 {
					q.ix = ix
					q.k += i
					q.fill(s.Index(i), depth+1)
					q.k -= i
				} else if q.rng.Intn(8) == 0 {
					b := 0
					gen(s.Index(i), 2, 3, q.rng, &b)
				}
			}
			q.ix = ix + 7
			v.Set(s)
		default:
			if c == 0 {
				return
			}
			n := []int{0, 0, 1, 2, 3, 16, 129, 260}[c]
			if depth > 1 && n > 16 {
				n = 1 + n%3
			}
			s := reflect.MakeSlice(v.Type(), n, n)
			for i := 0; i < n; i++ {
				b := 0
				gen(s.Index(i), 3, 3, q.rng, &b)
			}
			v.Set(s)
		}
	case reflect.String:
		n := []int{0, 1, 2, 127, 128, 255, 256, 300}[q.class()]
		if n == 300 && q.rng.Intn(40) == 0 {
			n = 32767
		}
		v.SetString(string(blob(n, q.rng)))
	case reflect.Bool:
		v.SetBool(q.class()%2 == 1)
	default:
		bits := uint(v.Type().Bits())
		lo, hi := int64(math.MinInt64)>>(64-bits), int64(math.MaxInt64)>>(64-bits)
		r := int64(q.rng.Uint64()) >> (64 - bits)
		v.SetInt([]int64{0, 1, -1, lo, hi, int64(1) << (bits / 2), r, r >> (bits / 2)}[q.class()])
	}
}

// large fills v with one element in every array but one (profile 30: of structures, 31: of
// primitives, 32: a byte array) of the message, which gets very many
func large(v reflect.Value, depth, prof int, rng *rand.Rand) {
	sizes := map[int][]int{30: {257, 513, 1001, 1030}, 31: {1025, 4097, 32769, 65537}, 32: {32769, 65537, 70000, 300000}}[prof]
	type slot struct {
		v reflect.Value
		k int
	}
	var slots []slot
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		v = exported(v)
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Slice:
			switch v.Type().Elem().Kind() {
			case reflect.Uint8:
				v.SetBytes(blob(2, rng))
				slots = append(slots, slot{v, 32})
			case reflect.Struct:
				v.Set(reflect.MakeSlice(v.Type(), 1, 1))
				walk(v.Index(0))
				slots = append(slots, slot{v, 30})
			default:
				v.Set(reflect.MakeSlice(v.Type(), 1, 1))
				b := 0
				gen(v.Index(0), 3, 3, rng, &b)
				slots = append(slots, slot{v, 31})
			}
		default:
			b := 0
			gen(v, 3, 3, rng, &b)
		}
	}
	walk(v)
	var fit []slot
	for _, s := range slots {
		if s.k == prof {
			fit = append(fit, s)
		}
	}
	if len(fit) == 0 {
		return
	}
	s := fit[rng.Intn(len(fit))]
	n := sizes[rng.Intn(len(sizes))]
	if prof == 32 {
		s.v.SetBytes(blob(n, rng))
		return
	}
	if prof == 31 && s.v.Type().Elem().Kind() == reflect.String && n > 5000 {
		n = 5000
	}
	old := s.v.Index(0)
	keep := reflect.New(old.Type()).Elem()
	keep.Set(old)
	a := reflect.MakeSlice(s.v.Type(), n, n)
	for i := 0; i < n; i++ {
		switch {
		case i == 0 || i == n-1:
			a.Index(i).Set(keep)
		case prof == 31:
			b := 0
			gen(a.Index(i), 2, 3, rng, &b)
		case i%50 == 7:
			b := 0
			gen(a.Index(i), 2, 3, rng, &b)
		}
	}
	s.v.Set(a)
}

func value(s scenario) msg {
	mk, ok := registry[s.Ty]
	if !ok {
		panic("HARNESS-ERROR no type " + s.Ty)
	}
	m := mk()
	if s.Prof >= 30 {
		large(reflect.ValueOf(m).Elem(), 0, s.Prof, rand.New(rand.NewSource(s.Seed)))
	} else if s.Prof >= 10 {
		(&square{k: s.Prof - 10, rng: rand.New(rand.NewSource(s.Seed))}).fill(reflect.ValueOf(m).Elem(), 0)
	} else if s.Prof != 0 {
		budget := 1
		gen(reflect.ValueOf(m).Elem(), s.Prof, 0, rand.New(rand.NewSource(s.Seed)), &budget)
	}
	return m
}

// ------------------------------------------------------------------ decoding

func rest(d *message.Decoder) int {
	n := 0
	for d.Discard(1) == nil {
		n++
		if n > 1<<22 {
			break
		}
	}
	return n
}

func outcome(err error) string {
	switch {
	case err == nil:
		return "ok"
	case message.IsInsufficientDataError(err):
		return "short"
	}
	return "error"
}

// decode b[:limit] as s.Ty
func decode(s scenario, b []byte, limit int) obj {
	m := registry[s.Ty]()
	d := message.NewDecoder(b, limit)
	err := m.Decode(d, int16(s.Ver))
	o := obj{"out": outcome(err), "rest": 0, "val": obj{}}
	if err == nil {
		o["val"] = dump(reflect.ValueOf(m).Elem())
		o["rest"] = rest(d)
	}
	return o
}

// limited is a decoder of b[:limit]; for a negative limit one that was used on all of b
// and then reset to -limit-1 bytes.
func limited(b []byte, limit int) *message.Decoder {
	if limit >= 0 {
		return message.NewDecoder(b, limit)
	}
	d := message.NewDecoder(b, len(b))
	d.Discard((len(b) + 1) / 2)
	d.Reset(-limit - 1)
	return d
}

// cuts decodes every strict prefix, with nothing behind the cut and with the rest of
// the data (stale bytes) behind it, and returns runs of equal outcomes.
func cuts(full []byte, fn func(b []byte, limit int) string) []obj {
	runs := []obj{}
	step := 1
	if len(full) > 3000 {
		step = len(full) / 700
	}
	for k := 0; k < len(full); k++ {
		if k > 600 && k < len(full)-600 && k%step != 0 {
			continue
		}
		exact := append(make([]byte, 0, k), full[:k]...)
		a := fn(exact, k)
		if b := fn(append([]byte(nil), full...), k); b != a {
			a += "/" + b
		}
		if k%3 == 0 {
			if b := fn(full, -k-1); b != a {
				a += "/" + b
			}
		}
		if n := len(runs); n > 0 && runs[n-1]["o"] == a {
			runs[n-1]["b"] = k
		} else {
			runs = append(runs, obj{"a": k, "b": k, "o": a})
		}
	}
	return runs
}

func message1(s scenario) obj {
	m := value(s)
	var buf bytes.Buffer
	e := message.NewEncoder(&buf)
	m.Encode(e, int16(s.Ver))
	err := e.Flush()
	enc := append([]byte(nil), buf.Bytes()...)
	r := obj{"kind": "msg", "ty": s.Ty, "ver": s.Ver, "val": dump(reflect.ValueOf(m).Elem()), "enc": common.Ints(enc), "encok": err == nil,
		"size": m.Size(int16(s.Ver)), "dec": decode(s, append([]byte(nil), enc...), len(enc))}
	// garbage beyond the limit
	tail := append(append([]byte(nil), enc...), bytes.Repeat([]byte{0, 0, 0, 1, 65}, 40)...)
	st := decode(s, tail, len(enc))
	r["stale"] = st["out"] == "ok" && st["rest"] == 0 && reflect.DeepEqual(st["val"], r["dec"].(obj)["val"])
	r["cuts"] = []obj{}
	if s.Cuts {
		r["cuts"] = cuts(enc, func(b []byte, limit int) string {
			return outcome(registry[s.Ty]().Decode(limited(b, limit), int16(s.Ver)))
		})
	}
	r["cutdone"] = s.Cuts
	return r
}

func unints(in []int) []byte {
	out := make([]byte, len(in))
	for i, x := range in {
		out[i] = byte(x)
	}
	return out
}

func mutate(b []byte, rng *rand.Rand) []byte {
	out := append([]byte(nil), b...)
	for k := 1 + rng.Intn(3); k > 0; k-- {
		if len(out) == 0 {
			out = blob(rng.Intn(40), rng)
			continue
		}
		i := rng.Intn(len(out))
		switch rng.Intn(7) {
		case 0:
			out[i] ^= 1 << uint(rng.Intn(8))
		case 1:
			out[i] = byte(rng.Intn(256))
		case 2: // a length
			pat := [][]byte{{255, 255, 255, 255}, {127, 255, 255, 255}, {128, 0, 0, 0}, {0, 255, 255, 255}, {255, 255}, {127, 255}, {128, 0}, {0, 0, 0, 200}, {255, 255, 255, 254}, {64, 0, 0, 0}}[rng.Intn(10)]
			copy(out[i:], pat)
		case 3:
			out = out[:i]
		case 4:
			out = append(out[:i], append(blob(1+rng.Intn(8), rng), out[i:]...)...)
		case 5:
			copy(out[i:], make([]byte, 4))
		default:
			out = append(out, blob(rng.Intn(12), rng)...)
		}
	}
	return out
}

func alloc(fn func()) int {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	fn()
	runtime.ReadMemStats(&b)
	return int(b.TotalAlloc-a.TotalAlloc) >> 10
}

func raw(s scenario) []obj {
	rng := rand.New(rand.NewSource(s.Seed ^ 0x5eed))
	var buf bytes.Buffer
	value(s).Encode(message.NewEncoder(&buf), int16(s.Ver))
	var out []obj
	for i := 0; i < s.N; i++ {
		in := mutate(buf.Bytes(), rng)
		m := registry[s.Ty]()
		d := message.NewDecoder(in, len(in))
		var err error
		kb := alloc(func() { err = m.Decode(d, int16(s.Ver)) })
		o := obj{"kind": "raw", "ty": s.Ty, "ver": s.Ver, "in": common.Ints(in), "out": outcome(err), "rest": 0, "val": obj{}, "kb": kb}
		if err == nil {
			o["val"] = dump(reflect.ValueOf(m).Elem())
			o["rest"] = rest(d)
		}
		out = append(out, o)
	}
	return out
}

func TestCodec(t *testing.T) {
	common.Run(func(line json.RawMessage) interface{} {
		var s scenario
		if err := json.Unmarshal(line, &s); err != nil {
			t.Fatal(err)
		}
		var items []obj
		switch s.Kind {
		case "val":
			return obj{"val": dump(reflect.ValueOf(value(s)).Elem())}
		case "msg":
			items = []obj{message1(s)}
		case "proto":
			b := unints(s.Proto)
			items = []obj{{"kind": "proto", "ty": s.Ty, "ver": s.Ver, "val": dump(reflect.ValueOf(value(s)).Elem()), "in": s.Proto, "dec": decode(s, b, len(b))}}
		case "raw":
			items = raw(s)
		case "prim":
			items = prims(s)
		case "praw":
			items = primRaw(s)
		case "toolong":
			items = tooLong(s)
		case "prog":
			items = []obj{program(s)}
		case "batch":
			items = []obj{batch(s)}
		case "types":
			n := []string{}
			for k := range registry {
				n = append(n, k)
			}
			return obj{"types": n}
		default:
			t.Fatal(fmt.Sprint("HARNESS-ERROR kind ", s.Kind))
		}
		return obj{"items": items}
	})
}
