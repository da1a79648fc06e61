package codecdrv

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha1"
	"crypto/tls"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"reflect"
	"sort"
	"sync"
	"testing"
	"time"

	"verifharness/common"
	"verifharness/memnet"
	"verifharness/wire"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

// Histories of operations on values of a caller, for spec/PureTrace.tla.

type pureOp struct {
	O string `json:"o"`
	X int    `json:"x"`
	V int    `json:"v"`
}

type pureScenario struct {
	ID   int      `json:"id"`
	Kind string   `json:"kind"` // msg batch send client conn
	Ty   string   `json:"ty"`
	Vers []int    `json:"vers"`
	Prof []int    `json:"prof"`
	Seed int64    `json:"seed"`
	Ops  []pureOp `json:"ops"`
	Par  int      `json:"par"` // so many goroutines, each doing all of Ops
	Buf  int      `json:"buf"`
	Api  string   `json:"api"`
	Key  int16    `json:"key"`
	Acks int16    `json:"acks"`
}

func hash(parts ...interface{}) string {
	h := sha1.New()
	enc := json.NewEncoder(h)
	for _, p := range parts {
		if err := enc.Encode(p); err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
	}
	return hex.EncodeToString(h.Sum(nil))[:16]
}

// roomy gives every slice in v capacity beyond its length
func roomy(v reflect.Value) {
	v = exported(v)
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			roomy(v.Field(i))
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		n := v.Len()
		s := reflect.MakeSlice(v.Type(), n+3, n+3)
		reflect.Copy(s, v)
		for i := n; i < n+3; i++ {
			switch v.Type().Elem().Kind() {
			case reflect.String:
				s.Index(i).SetString("beyond")
			case reflect.Uint8:
				s.Index(i).SetUint(0xab)
			case reflect.Int32, reflect.Int64:
				s.Index(i).SetInt(77)
			}
		}
		for i := 0; i < n; i++ {
			roomy(s.Index(i))
		}
		v.Set(s.Slice(0, n))
	}
}

// look is everything reachable from v, including what lies beyond the length of slices
func look(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return []interface{}{look(v.Elem())}
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			return []interface{}{t.UnixNano(), t.Location().String()}
		}
		out := []interface{}{}
		for i := 0; i < v.NumField(); i++ {
			out = append(out, look(exported(v.Field(i))))
		}
		return out
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		all := v.Slice(0, v.Cap())
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return []interface{}{v.Len(), hex.EncodeToString(all.Bytes())}
		}
		out := []interface{}{v.Len()}
		for i := 0; i < all.Len(); i++ {
			out = append(out, look(all.Index(i)))
		}
		return out
	case reflect.Map:
		out := []string{}
		for _, k := range v.MapKeys() {
			out = append(out, hash(look(k), look(v.MapIndex(k))))
		}
		sort.Strings(out)
		return []interface{}{v.IsNil(), out}
	case reflect.String:
		return hex.EncodeToString([]byte(v.String()))
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return v.IsNil()
	}
	return fmt.Sprint(v.Interface())
}

type pureRun struct {
	mu      sync.Mutex
	ev      []obj
	keep    []func() string
	looking func() string // the subjects
	par     bool
}

func (p *pureRun) op(o pureOp, ver int, fn func() (string, func() string)) {
	res, again := fn()
	p.mu.Lock()
	defer p.mu.Unlock()
	s := ""
	if !p.par {
		s = p.looking()
	}
	p.ev = append(p.ev, obj{"k": "op", "o": o.O, "x": o.X, "v": ver, "res": res, "subj": s})
	p.keep = append(p.keep, again)
}

func encoded(s pureScenario, fn func(e *message.Encoder)) (string, func() string) {
	var buf bytes.Buffer
	var w io.Writer = &buf
	if s.Buf > 0 {
		w = bufio.NewWriterSize(&buf, s.Buf)
	}
	e := message.NewEncoder(w)
	fn(e)
	err := e.Flush()
	again := func() string { return hash("enc", hex.EncodeToString(buf.Bytes()), err == nil) }
	return again(), again
}

func pureMessages(s pureScenario) (string, []obj) {
	var ms []msg
	ins := map[[2]int][]byte{}
	for x := 0; x < 2; x++ {
		sc := scenario{Ty: s.Ty, Prof: s.Prof[x], Seed: s.Seed + int64(x)}
		for v, ver := range s.Vers {
			var buf bytes.Buffer
			value(sc).Encode(message.NewEncoder(&buf), int16(ver))
			b := make([]byte, buf.Len(), buf.Len()+40)
			copy(b, buf.Bytes())
			copy(b[len(b):cap(b)], bytes.Repeat([]byte{0xcd}, 40))
			ins[[2]int{x, v}] = b
		}
		m := value(sc)
		roomy(reflect.ValueOf(m).Elem())
		ms = append(ms, m)
	}
	p := &pureRun{par: s.Par > 0}
	p.looking = func() string {
		return hash(look(reflect.ValueOf(ms)), look(reflect.ValueOf(ins)))
	}
	subj := p.looking()
	one := func(o pureOp) {
		m, ver := ms[o.X], s.Vers[o.V]
		p.op(o, ver, func() (string, func() string) {
			switch o.O {
			case "size":
				n := m.Size(int16(ver))
				f := func() string { return hash("size", n) }
				return f(), f
			case "encode":
				return encoded(s, func(e *message.Encoder) { m.Encode(e, int16(ver)) })
			}
			b := ins[[2]int{o.X, o.V}]
			out := registry[s.Ty]()
			err := out.Decode(message.NewDecoder(b, len(b)), int16(ver))
			f := func() string { return hash("dec", outcome(err), dump(reflect.ValueOf(out).Elem())) }
			return f(), f
		})
	}
	p.do(s, one)
	return subj, p.ev
}

func (p *pureRun) do(s pureScenario, one func(o pureOp)) {
	if s.Par > 0 {
		var wg sync.WaitGroup
		for g := 0; g < s.Par; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range s.Ops {
					one(s.Ops[(i+g)%len(s.Ops)])
				}
			}()
		}
		wg.Wait()
		p.par = false
	} else {
		for _, o := range s.Ops {
			one(o)
		}
	}
	for i, again := range p.keep {
		if again != nil {
			p.ev = append(p.ev, obj{"k": "kept", "i": i + 1, "res": again()})
		}
	}
	if s.Par > 0 { // and the subjects once more
		one(s.Ops[0])
	}
}

func pureBatch(s pureScenario) (string, []obj) {
	var bs []*kafka.RecordBatch
	for x := 0; x < 2; x++ {
		rng := rand.New(rand.NewSource(s.Seed + int64(x)))
		b := &kafka.RecordBatch{BaseOffset: near(1000, rng), BatchLength: int32(integer(32, rng)), CRC: int32(integer(32, rng)), Attributes: int16(rng.Intn(8)),
			LastOffsetDelta: int32(integer(32, rng)), FirstTimestamp: near(1600000000000, rng), MaxTimestamp: near(1600000000000, rng), ProducerId: integer(64, rng)}
		for i := rng.Intn(6); i >= 0; i-- {
			m := kafka.Message{Topic: text(rng), Partition: int32(rng.Intn(5)), Offset: near(b.BaseOffset, rng), Timestamp: time.UnixMilli(near(b.FirstTimestamp, rng)),
				Key: nullable(rng, false), Value: nullable(rng, s.Prof[x] == 1)}
			switch rng.Intn(4) {
			case 0:
				m.Header = kafka.MapHeader{text(rng): text(rng)}
			case 1:
				m.Header = pairs{{text(rng), text(rng)}, {"b", "x"}, {"a", text(rng)}}
			case 2:
				m.Timestamp = time.Time{}
			}
			b.Records = append(b.Records, m)
		}
		b.Records = append(make([]kafka.Message, 0, len(b.Records)+3), b.Records...)
		for i := range b.Records {
			roomy(reflect.ValueOf(&b.Records[i].Key).Elem())
			roomy(reflect.ValueOf(&b.Records[i].Value).Elem())
		}
		bs = append(bs, b)
	}
	p := &pureRun{par: s.Par > 0}
	p.looking = func() string { return hash(look(reflect.ValueOf(bs))) }
	subj := p.looking()
	p.do(s, func(o pureOp) {
		b, ver := bs[o.X], s.Vers[o.V]
		p.op(o, ver, func() (string, func() string) {
			if o.O == "size" {
				n := b.Size(int16(ver))
				f := func() string { return hash("size", n) }
				return f(), f
			}
			return encoded(s, func(e *message.Encoder) { b.Encode(e, int16(ver)) })
		})
	})
	return subj, p.ev
}

// sendings: the same requests are sent again and again
func pureSend(s pureScenario) (string, []obj) {
	conn := memnet.New("mem:9092")
	var parse wire.Parser
	frames := make(chan string, 100)
	conn.OnWrite = func(b []byte) {
		for _, f := range parse.Feed(b) {
			if f.Key == 18 && s.Key != 18 {
				go conn.Send(wire.Response(f.Corr, wire.ApiVersions(f.Version, 0, wire.All(0, int16(s.Vers[1])))))
				continue
			}
			if f.Key == 18 && len(f.Body) == 0 && len(frames) == 0 {
				select {
				case frames <- hash("hello"):
				default:
				}
			} else {
				select {
				case frames <- hash("frame", f.Key, f.Version, f.ClientID, hex.EncodeToString(f.Body)):
				default:
				}
			}
			body := []byte{}
			if f.Key == 18 {
				body = wire.ApiVersions(f.Version, 0, wire.All(0, int16(s.Vers[1])))
			}
			go conn.Send(wire.Response(f.Corr, body))
		}
	}
	kafka.DialHook = func(addr string) (net.Conn, error) { return conn, nil }
	defer func() { kafka.DialHook = nil }()
	broker, err := kafka.NewBroker("mem:9092")
	if err != nil {
		return "skip", nil
	}
	defer broker.Close()
	if s.Key == 18 {
		<-frames
	}
	fn := reflect.ValueOf(broker).MethodByName(s.Api)
	if !fn.IsValid() || fn.Type().NumIn() != 1 {
		return "skip", nil
	}
	var reqs []reflect.Value
	for x := 0; x < 2; x++ {
		m := reflect.New(fn.Type().In(0))
		rng, budget := rand.New(rand.NewSource(s.Seed+int64(x))), 1
		gen(m.Elem(), s.Prof[x], 0, rng, &budget)
		if f := m.Elem().FieldByName("Acks"); f.IsValid() && f.Kind() == reflect.Int16 {
			f.SetInt(int64(s.Acks))
		}
		roomy(m.Elem())
		reqs = append(reqs, m)
	}
	p := &pureRun{}
	p.looking = func() string { return hash(look(reqs[0]), look(reqs[1])) }
	subj := p.looking()
	p.do(s, func(o pureOp) {
		p.op(pureOp{O: "send", X: o.X}, 0, func() (string, func() string) {
			fn.Call([]reflect.Value{reqs[o.X].Elem()})
			select { // the peer has seen the request before the call returns
			case f := <-frames:
				return f, nil
			default:
				return "none", nil
			}
		})
	})
	return subj, p.ev
}

// pureClient: a client's bootstrap list and topics
func pureClient(s pureScenario) (string, []obj) {
	rng := rand.New(rand.NewSource(s.Seed))
	var dialled []string
	up := fmt.Sprintf("h%d:9092", 1+rng.Intn(4))
	kafka.DialHook = func(addr string) (net.Conn, error) {
		dialled = append(dialled, addr)
		if addr != up {
			return nil, fmt.Errorf("refused")
		}
		conn := memnet.New(addr)
		var parse wire.Parser
		conn.OnWrite = func(b []byte) {
			for _, f := range parse.Feed(b) {
				if f.Key == 18 {
					go conn.Send(wire.Response(f.Corr, wire.ApiVersions(f.Version, 0, wire.All(0, 0))))
					continue
				}
				dialled = append(dialled, hex.EncodeToString(f.Body))
				go conn.Send(wire.Response(f.Corr, []byte{1, 2, 3}))
			}
		}
		return conn, nil
	}
	defer func() { kafka.DialHook = nil }()
	boot := []string{"h3:9092", "h1:9092", "", "h2:9092", "h1:9092", "h4:9092", "H9:1", "z:9092"}
	rng.Shuffle(len(boot), func(i, j int) { boot[i], boot[j] = boot[j], boot[i] })
	boot = boot[:2+rng.Intn(4)]
	topics := []string{"b", "a", "", "B", "b", "zz", "zzz"}[:rng.Intn(5)]
	cl := kafka.NewClient(boot)
	p := &pureRun{}
	p.looking = func() string { return hash(look(reflect.ValueOf(boot)), look(reflect.ValueOf(topics))) }
	subj := p.looking()
	p.do(s, func(o pureOp) {
		p.op(pureOp{O: "query", X: o.X*2 + o.V}, 0, func() (string, func() string) {
			dialled = nil
			switch o.X*2 + o.V {
			case 0:
				cl.Metadata(context.Background(), topics...)
			case 1:
				cl.DialLeader(context.Background(), "b", 1)
			case 2:
				cl.DialController(context.Background())
			default:
				cl.DialGroupCoordinator(context.Background(), "g")
			}
			return hash(dialled), nil
		})
	})
	return subj, p.ev
}

// pureConn: a caller's dialer and TLS configuration
func pureConn(s pureScenario) (string, []obj) {
	kafka.DialHook = nil
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	defer ln.Close()
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go func() {
				b := make([]byte, 100)
				c.SetDeadline(time.Now().Add(5 * time.Second))
				c.Read(b)
				c.Write([]byte{21, 3, 3, 0, 2, 2, 40}) // a fatal alert, or no response frame
				c.Close()
			}()
		}
	}()
	port := ln.Addr().(*net.TCPAddr).Port
	ds := []*net.Dialer{{}, {Timeout: 3 * time.Second, KeepAlive: -1, LocalAddr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 3)}}}
	ts := []*tls.Config{{}, {ServerName: "x", NextProtos: append(make([]string, 0, 4), "a"), CipherSuites: []uint16{1, 2}, MinVersion: tls.VersionTLS11}}
	fields := func(v reflect.Value) interface{} {
		out := obj{}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				out[f.Name] = look(v.Field(i))
			}
		}
		return out
	}
	opts := []kafka.Option{kafka.WithDialer(ds[0]), kafka.WithTLS(ts[0]), kafka.WithDialer(ds[1]), kafka.WithTLS(ts[1]), kafka.WithTLS(nil)}
	p := &pureRun{}
	p.looking = func() string {
		out := []interface{}{len(opts)}
		for i := range ds {
			out = append(out, fields(reflect.ValueOf(ds[i]).Elem()), fields(reflect.ValueOf(ts[i]).Elem()))
		}
		return hash(out...)
	}
	subj := p.looking()
	for i, o := range s.Ops {
		p.op(pureOp{O: "connect", X: o.X*2 + o.V, V: 0}, 0, func() (string, func() string) {
			use := append([]kafka.Option(nil), opts[o.X*2:o.X*2+1+o.V]...)
			if i%3 == 2 {
				use = append(use, opts[4])
			}
			addr := fmt.Sprintf("%s:%d", []string{"127.0.0.1", "localhost"}[i%2], port)
			if b, err := kafka.NewBroker(addr, use...); err == nil {
				b.Close()
			}
			return "", nil
		})
	}
	return subj, p.ev
}

func TestPure(t *testing.T) {
	common.Run(func(line json.RawMessage) interface{} {
		var s pureScenario
		if err := json.Unmarshal(line, &s); err != nil {
			t.Fatal(err)
		}
		var subj string
		var ev []obj
		switch s.Kind {
		case "msg":
			subj, ev = pureMessages(s)
		case "batch":
			subj, ev = pureBatch(s)
		case "send":
			subj, ev = pureSend(s)
		case "client":
			subj, ev = pureClient(s)
		case "conn":
			subj, ev = pureConn(s)
		}
		return obj{"subj": subj, "ev": ev}
	})
}
