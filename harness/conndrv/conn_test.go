// Package conndrv runs scripted peers against real connections and records the
// events of spec/Conn.tla.
package conndrv

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"reflect"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"
	"unsafe"

	"verifharness/common"
	"verifharness/memnet"
	"verifharness/wire"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

type step struct {
	Op   string `json:"op"`
	Api  string `json:"api"`
	N    int    `json:"n"`    // size
	K    int    `json:"k"`    // repetitions
	C    int    `json:"c"`    // call number
	Frag []int  `json:"frag"` // fragment sizes, cycled
	ID   int32  `json:"id"`
	Cut  int    `json:"cut"`
	With bool   `json:"with"`
	Bad  bool   `json:"bad"`
	Hex  []int  `json:"hex"`
	X    int    `json:"x"` // which connection
}

type scenario struct {
	ID    int          `json:"id"`
	Steps []step       `json:"steps"`
	Sched common.Sched `json:"sched"`
	Start int64        `json:"start"` // first correlation id, when it can be set
	Fam   string       `json:"fam"`
	Late  int          `json:"late"` // a closed connection's reads take a while to notice

	// several connections at a time
	Conns int     `json:"conns"`
	Same  bool    `json:"same"`  // all to the same address
	Apart bool    `json:"apart"` // negotiated one after the other
	HB    []int16 `json:"hb"`    // highest version of Heartbeat each broker offers
}

type event map[string]interface{}

type result struct {
	ID int     `json:"id"`
	N  int     `json:"n"`
	Ev []event `json:"ev"`

	More [][]event `json:"more,omitempty"` // one trace per connection
}

// ------------------------------------------------------------------ content

// fill is the content of payload `tag' of length n
func fill(tag, n int) []byte {
	b := make([]byte, n)
	x := uint32(tag)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	copy(b, fmt.Sprintf("<%07d>", tag))
	return b
}

// tagOf recovers the tag of a payload, or -1 if it is not exactly what was sent
func tagOf(b []byte) int {
	var tag int
	if len(b) < 9 {
		return -1
	}
	if _, err := fmt.Sscanf(string(b[:9]), "<%07d>", &tag); err != nil {
		return -1
	}
	if !bytes.Equal(b, fill(tag, len(b))) {
		return -1
	}
	return tag
}

func str(tag, n int) string {
	b := fill(tag, n)
	for i := 9; i < n; i++ {
		b[i] = 'a' + b[i]%26
	}
	return string(b)
}

func tagOfStr(s string) int {
	var tag int
	if len(s) < 9 {
		return -1
	}
	if _, err := fmt.Sscanf(s[:9], "<%07d>", &tag); err != nil {
		return -1
	}
	if s != str(tag, len(s)) {
		return -1
	}
	return tag
}

// api describes one operation: how to call it (returning a function that extracts
// the tag of the response), how its request body looks and how the peer answers.
type api struct {
	key  int16
	call func(b *kafka.Broker, tag, n int) (func() int, error)
	req  func(tag, n int) interface {
		Encode(*message.Encoder, int16)
	}
	resp func(tag, n int) []byte
}

var apis = map[string]api{
	"sasl": {36, func(b *kafka.Broker, tag, n int) (func() int, error) {
		r, err := b.SaslAuthenticate(message.SaslAuthenticateRequest{AuthBytes: fill(tag, n)})
		return func() int { return tagOf(r.AuthBytes) }, err
	}, func(tag, n int) interface {
		Encode(*message.Encoder, int16)
	} {
		return message.SaslAuthenticateRequest{AuthBytes: fill(tag, n)}
	}, func(tag, n int) []byte {
		return (&wire.Buf{}).I16(0).Str("").Bytes(fill(tag, n)).B
	}},
	"sync": {14, func(b *kafka.Broker, tag, n int) (func() int, error) {
		r, err := b.SyncGroup(message.SyncGroupRequest{GroupId: fmt.Sprintf("<%07d>", tag), Assignments: []message.SyncGroupRequestAssignment14{{MemberId: "m", Assignment: fill(tag, n)}}})
		return func() int { return tagOf(r.Assignment) }, err
	}, func(tag, n int) interface {
		Encode(*message.Encoder, int16)
	} {
		return message.SyncGroupRequest{GroupId: fmt.Sprintf("<%07d>", tag), Assignments: []message.SyncGroupRequestAssignment14{{MemberId: "m", Assignment: fill(tag, n)}}}
	}, func(tag, n int) []byte {
		return (&wire.Buf{}).I16(0).Bytes(fill(tag, n)).B
	}},
	"join": {11, func(b *kafka.Broker, tag, n int) (func() int, error) {
		r, err := b.JoinGroup(message.JoinGroupRequest{GroupId: str(tag, 9+n%2000)})
		return func() int {
			if len(r.Members) != 2 {
				return -1
			}
			a, c := tagOf(r.Members[0].Metadata), tagOf(r.Members[1].Metadata)
			if a != c || tagOfStr(r.MemberId) != a || int(r.GenerationId) != a {
				return -1
			}
			return a
		}, err
	}, func(tag, n int) interface {
		Encode(*message.Encoder, int16)
	} {
		return message.JoinGroupRequest{GroupId: str(tag, 9+n%2000)}
	}, func(tag, n int) []byte {
		return (&wire.Buf{}).I16(0).I32(int32(tag)).Str("p").Str("l").Str(str(tag, 9+n%300)).I32(2).Str("a").Bytes(fill(tag, n)).Str("b").Bytes(fill(tag, 9+n/2)).B
	}},
	"meta": {3, func(b *kafka.Broker, tag, n int) (func() int, error) {
		r, err := b.Metadata(message.MetadataRequest{Topics: []message.MetadataRequestTopic3{{Name: str(tag, 9+n%1000)}}})
		return func() int {
			if len(r.Brokers) != 1 || len(r.Topics) != 0 || int(r.Brokers[0].NodeId) != tagOfStr(r.Brokers[0].Host) {
				return -1
			}
			return tagOfStr(r.Brokers[0].Host)
		}, err
	}, func(tag, n int) interface {
		Encode(*message.Encoder, int16)
	} {
		return message.MetadataRequest{Topics: []message.MetadataRequestTopic3{{Name: str(tag, 9+n%1000)}}}
	}, func(tag, n int) []byte {
		return (&wire.Buf{}).I32(1).I32(int32(tag)).Str(str(tag, 9+n%1000)).I32(9092).I32(0).B
	}},
	"hb": {12, func(b *kafka.Broker, tag, n int) (func() int, error) {
		r, err := b.Heartbeat(message.HeartbeatRequest{GroupId: str(tag, 9), GenerationId: int32(n)})
		return func() int { return int(r.ErrorCode) }, err
	}, func(tag, n int) interface {
		Encode(*message.Encoder, int16)
	} {
		return message.HeartbeatRequest{GroupId: str(tag, 9), GenerationId: int32(n)}
	}, func(tag, n int) []byte {
		return (&wire.Buf{}).I16(int16(tag)).B
	}},
	"ack0": {0, produce(0), produceReq(0), nil},
	"ack1": {0, produce(1), produceReq(1), produceResp},
	"acka": {0, produce(-1), produceReq(-1), produceResp},
	"ackb": {0, produce(2), produceReq(2), produceResp},
	"ackc": {0, produce(-2), produceReq(-2), produceResp},
	"ackd": {0, produce(256), produceReq(256), produceResp},
	"acke": {0, produce(-32768), produceReq(-32768), produceResp},
	"ackf": {0, produce(32767), produceReq(32767), produceResp},
}

func produceReq(acks int16) func(tag, n int) interface {
	Encode(*message.Encoder, int16)
} {
	return func(tag, n int) interface {
		Encode(*message.Encoder, int16)
	} {
		return message.ProduceRequest{Acks: acks, TimeoutMs: 7, Topics: []message.TopicProduceData0{{Name: str(tag, 9), Partitions: []message.PartitionProduceData0{{PartitionIndex: 3, Records: fill(tag, n)}}}}}
	}
}

func produce(acks int16) func(b *kafka.Broker, tag, n int) (func() int, error) {
	return func(b *kafka.Broker, tag, n int) (func() int, error) {
		r, err := b.Produce(produceReq(acks)(tag, n).(message.ProduceRequest))
		return func() int {
			if acks == 0 {
				if len(r.Responses) != 0 {
					return -1
				}
				return 0
			}
			if len(r.Responses) != 1 {
				return -1
			}
			return tagOfStr(r.Responses[0].Name)
		}, err
	}
}

func produceResp(tag, n int) []byte {
	return (&wire.Buf{}).I32(1).Str(str(tag, 9+n%500)).I32(0).B
}

// ------------------------------------------------------------------ execution

type call struct {
	n      int
	api    string
	size   int
	badReq bool
	active bool
	ok     bool
	corr   int32
	framed bool
	tag    func() int
	want   []byte // expected request body
}

type runner struct {
	s      scenario
	mu     sync.Mutex
	ev     []event
	conn   *memnet.Conn
	broker *kafka.Broker
	parse  wire.Parser
	calls  []*call
	tags   int
	closes int // closes in progress
	nclose int // closes returned
	setup  bool
	queued map[int][]byte // rest of partial responses
	rng    *rand.Rand
	auto   *step // answer every request as soon as it has been received

	base  int   // requests and responses of different connections differ
	hbv   int16 // version of Heartbeat to be used, if multi
	multi *multi

	started bool
}

type multi struct{ rs []*runner }

// library goroutines, as far as they can be told to belong to r
func (r *runner) goroutines() int {
	g, _ := common.LibGoroutines()
	if r.multi != nil {
		for _, x := range r.multi.rs {
			if x != r && x.broker != nil && (x.nclose == 0 || x.closes > 0) {
				return 0
			}
		}
	}
	return g
}

// answer is the body of a response to call c
func (r *runner) answer(c *call, tag, n int) []byte {
	b := apis[c.api].resp(tag, n)
	if r.multi != nil && c.api == "hb" && r.hbv > 0 {
		return append([]byte{0, 0, 0, 0}, b...)
	}
	return b
}

func (r *runner) offer() []wire.Range {
	rs := wire.All(0, 0)
	for i := range rs {
		if r.multi != nil && rs[i].Key == 12 {
			rs[i].Max = r.hbv
		}
	}
	return rs
}

func (r *runner) add(e event) {
	r.mu.Lock()
	r.ev = append(r.ev, e)
	r.mu.Unlock()
}

func (r *runner) onWrite(b []byte) {
	for _, f := range r.parse.Feed(b) {
		if !r.setup { // negotiation is call 1
			if f.Key != 18 {
				r.add(event{"k": "junk", "why": "first request is not ApiVersions"})
			}
			body := wire.ApiVersions(f.Version, 0, r.offer())
			r.add(event{"k": "frame", "c": 1, "id": f.Corr})
			r.add(event{"k": "resp", "id": f.Corr, "tag": 0, "ok": true})
			go r.conn.Send(wire.Response(f.Corr, body))
			r.setup = true
			r.calls[0].framed = true
			continue
		}
		// which call is it?
		var c *call
		r.mu.Lock()
		for _, x := range r.calls {
			if x.active && !x.framed && apis[x.api].key == f.Key && bytes.Equal(x.want, f.Body) && (r.multi == nil || f.Version == r.version(f.Key)) {
				c = x
				break
			}
		}
		if c == nil {
			r.ev = append(r.ev, event{"k": "junk", "why": fmt.Sprintf("frame key=%d version=%d id=%d body %d bytes matches no call", f.Key, f.Version, f.Corr, len(f.Body))})
			r.mu.Unlock()
			continue
		}
		c.framed, c.corr = true, f.Corr
		r.ev = append(r.ev, event{"k": "frame", "c": c.n, "id": f.Corr})
		if a := apis[c.api]; r.auto != nil && a.resp != nil {
			tag := r.newTag()
			b := wire.Response(f.Corr, r.answer(c, tag, r.auto.N))
			if r.conn.SendLocked(fragments(b, r.auto.Frag)...) {
				r.ev = append(r.ev, event{"k": "resp", "id": f.Corr, "tag": tag, "ok": true})
			}
		}
		r.mu.Unlock()
	}
	if r.parse.Bad != "" {
		r.add(event{"k": "junk", "why": r.parse.Bad})
		r.parse = wire.Parser{}
	}
}

func (r *runner) version(key int16) int16 {
	if key == 12 {
		return r.hbv
	}
	return 0
}

func encode(v interface {
	Encode(*message.Encoder, int16)
}) []byte {
	var buf bytes.Buffer
	v.Encode(message.NewEncoder(&buf), 0)
	return buf.Bytes()
}

func (r *runner) call(st step) {
	a := apis[st.Api]
	c := &call{n: len(r.calls) + 1, api: st.Api, size: st.N, active: true, badReq: st.Bad}
	if !st.Bad {
		c.want = encode(a.req(r.base+c.n, st.N))
	}
	kind := "resp"
	if st.Api == "ack0" {
		kind = "oneway"
	}
	r.mu.Lock()
	r.calls = append(r.calls, c)
	r.ev = append(r.ev, event{"k": "call", "c": c.n, "kind": kind, "bad": st.Bad, "prod": a.key == 0})
	r.mu.Unlock()
	go func() {
		var tag func() int
		var err error
		if st.Bad { // a string that does not fit its length field
			_, err = r.broker.FindCoordinator(message.FindCoordinatorRequest{Key: string(make([]byte, 40000))})
		} else {
			tag, err = a.call(r.broker, r.base+c.n, st.N)
		}
		e := event{"k": "ret", "c": c.n, "ok": err == nil, "tag": 0}
		if err == nil && tag != nil {
			e["tag"] = tag()
		}
		r.mu.Lock()
		c.active, c.ok, c.tag = false, err == nil, tag
		r.ev = append(r.ev, e)
		r.mu.Unlock()
	}()
}

func fragments(b []byte, frag []int) [][]byte {
	if len(frag) == 0 {
		return [][]byte{b}
	}
	var out [][]byte
	for i := 0; len(b) > 0; i++ {
		n := frag[i%len(frag)]
		if n < 1 {
			n = 1
		}
		if n > len(b) {
			n = len(b)
		}
		out = append(out, b[:n])
		b = b[n:]
	}
	return out
}

func (r *runner) newTag() int { r.tags++; return 1000 + r.base + r.tags }

// response for call c: bytes, its tag, or nil if its id is not known yet
func (r *runner) response(c, n int, bad bool) (int32, int, []byte) {
	c++ // call 1 is the negotiation
	if c < 2 || c > len(r.calls) {
		return 0, 0, nil
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	x := r.calls[c-1]
	if !x.framed || apis[x.api].resp == nil {
		return 0, 0, nil
	}
	tag := r.newTag()
	body := r.answer(x, tag, n)
	if bad {
		body = body[:len(body)-1-len(body)/3] // undecodable
	}
	return x.corr, tag, wire.Response(x.corr, body)
}

func (r *runner) quiet() {
	common.Quiesce()
	if r.multi != nil {
		for _, x := range r.multi.rs {
			if x.started {
				x.note()
			}
		}
		return
	}
	r.note()
}

func (r *runner) note() {
	g := r.goroutines()
	r.mu.Lock()
	defer r.mu.Unlock()
	b := []int{}
	for _, c := range r.calls {
		if c.active {
			b = append(b, c.n)
		}
	}
	e := event{"k": "q", "b": b, "closes": r.closes, "g": g, "sock": r.conn.Closed(), "tail": r.parse.Tail()}
	if n := len(r.ev); n > 0 && reflect.DeepEqual(r.ev[n-1], e) {
		return
	}
	r.ev = append(r.ev, e)
}

func (r *runner) kept() {
	r.mu.Lock()
	cs := append([]*call(nil), r.calls...)
	r.mu.Unlock()
	for _, c := range cs {
		if !c.active && c.ok && c.tag != nil {
			r.add(event{"k": "kept", "c": c.n, "tag": c.tag()})
		}
	}
}

func (r *runner) closeBroker(k int) {
	for i := 0; i < k; i++ {
		r.mu.Lock()
		r.closes++
		r.ev = append(r.ev, event{"k": "closecall"})
		r.mu.Unlock()
		go func() {
			r.broker.Close()
			sock := r.conn.Closed()
			for i := 0; i < 3; i++ { // a goroutine that is about to end may do so
				runtime.Gosched()
			}
			g := r.goroutines()
			r.mu.Lock()
			r.closes--
			r.nclose++
			r.ev = append(r.ev, event{"k": "closeret", "sock": sock, "g": g})
			r.mu.Unlock()
		}()
	}
}

func (r *runner) do(st step) {
	if r.queued[0] != nil {
		switch st.Op { // a half-sent response: nothing may be sent in between
		case "resp", "respall", "unk", "short", "mangle", "respeof", "flood", "auto":
			return
		}
	}
	switch st.Op {
	case "call":
		k := st.K
		if k < 1 {
			k = 1
		}
		for i := 0; i < k; i++ {
			r.call(st)
		}
	case "q":
		r.quiet()
	case "y":
		for i := 0; i < st.N; i++ {
			runtime.Gosched()
		}
	case "resp": // a complete response to call C
		if id, tag, b := r.response(st.C, st.N, st.Bad); b != nil {
			r.add(event{"k": "resp", "id": id, "tag": tag, "ok": !st.Bad})
			r.conn.Send(fragments(b, st.Frag)...)
		}
	case "respall": // responses to all framed calls, shuffled, coalesced into one stream
		var all []byte
		for _, i := range r.rng.Perm(len(r.calls)) {
			if c := r.calls[i]; c.active && c.framed {
				if id, tag, b := r.response(c.n-1, st.N, false); b != nil {
					r.add(event{"k": "resp", "id": id, "tag": tag, "ok": true})
					all = append(all, b...)
				}
			}
		}
		r.conn.Send(fragments(all, st.Frag)...)
	case "part": // the first Cut bytes of a response to call C
		if id, tag, b := r.response(st.C, st.N, false); b != nil && r.queued[0] == nil {
			cut := st.Cut
			if cut >= len(b) {
				cut = len(b) - 1
			}
			r.conn.Send(fragments(b[:cut], st.Frag)...)
			r.queued[0] = b[cut:]
			r.ev = append(r.ev, event{"k": "part"})
			_ = id
			_ = tag
			r.queued[1] = []byte(fmt.Sprintf("%d %d", id, tag))
		}
	case "rest": // the rest of it
		if b := r.queued[0]; b != nil {
			var id int32
			var tag int
			fmt.Sscanf(string(r.queued[1]), "%d %d", &id, &tag)
			r.add(event{"k": "resp", "id": id, "tag": tag, "ok": true})
			r.conn.Send(fragments(b, st.Frag)...)
			delete(r.queued, 0)
		}
	case "unk": // a response nobody waits for
		body := fill(r.newTag(), 9+st.N)
		r.add(event{"k": "noise"})
		r.conn.Send(fragments(wire.Response(st.ID, body), st.Frag)...)
	case "short": // a frame too short to carry a correlation id
		b := (&wire.Buf{}).I32(int32(st.N))
		b.B = append(b.B, make([]byte, st.N)...)
		r.add(event{"k": "noise"})
		r.conn.Send(fragments(b.B, st.Frag)...)
	case "mangle": // bytes that are not a valid frame
		b := make([]byte, len(st.Hex))
		for i, x := range st.Hex {
			b[i] = byte(x)
		}
		r.add(event{"k": "mangle"})
		r.conn.Send(fragments(b, st.Frag)...)
	case "eof":
		r.add(event{"k": "end", "how": "eof"})
		r.conn.EOF(st.With)
	case "respeof": // response and end of stream in one step
		if id, tag, b := r.response(st.C, st.N, false); b != nil {
			r.add(event{"k": "resp", "id": id, "tag": tag, "ok": true})
			r.add(event{"k": "end", "how": "eof"})
			err := io.EOF
			if st.Bad {
				err = memnet.ErrReset
			}
			r.conn.SendEOF(st.With, err, fragments(b, st.Frag)...)
		}
	case "reset":
		r.add(event{"k": "end", "how": "reset"})
		r.conn.Reset()
	case "fault":
		r.conn.Fault(st.N)
	case "stall":
		r.add(event{"k": "stall", "on": true})
		r.conn.Stall(st.N)
	case "unstall":
		r.add(event{"k": "stall", "on": false})
		r.conn.Unstall()
	case "flood": // many frames nobody waits for
		for i := 0; i < st.K; i++ {
			r.conn.Send(wire.Response(int32(500000+i), make([]byte, st.N)))
		}
		r.add(event{"k": "noise"})
	case "close":
		k := st.K
		if k < 1 {
			k = 1
		}
		r.closeBroker(k)
	case "kept":
		r.kept()
	case "jump": // as if N more calls had been made and answered
		addID(r.broker, int32(st.N))
	case "auto":
		r.mu.Lock()
		r.auto = &st
		r.mu.Unlock()
	case "noauto":
		r.mu.Lock()
		r.auto = nil
		r.mu.Unlock()
	}
}

// setID makes the connection start counting at v, if its counter can be found
func setID(b *kafka.Broker, v int32) {
	defer func() { recover() }()
	conn := reflect.ValueOf(b).Elem().FieldByName("conn").Elem()
	f := conn.FieldByName("id")
	if f.IsValid() && f.Kind() == reflect.Int32 {
		*(*int32)(unsafe.Pointer(f.UnsafeAddr())) = v
	}
}

func addID(b *kafka.Broker, v int32) {
	defer func() { recover() }()
	conn := reflect.ValueOf(b).Elem().FieldByName("conn").Elem()
	f := conn.FieldByName("id")
	if f.IsValid() && f.Kind() == reflect.Int32 {
		*(*int32)(unsafe.Pointer(f.UnsafeAddr())) += v
	}
}

// runMulti runs the steps on several connections that exist at the same time.
func runMulti(s scenario) (result, bool) {
	m := &multi{}
	next := 0
	for i := 0; i < s.Conns; i++ {
		r := &runner{s: s, queued: map[int][]byte{}, rng: rand.New(rand.NewSource(s.Sched.Seed + 7 + int64(i))), base: i * 3000, multi: m, hbv: s.HB[i%len(s.HB)]}
		r.conn = memnet.New(fmt.Sprintf("mem%d:9092", i))
		r.conn.OnWrite = r.onWrite
		r.conn.Late = s.Late
		r.conn.OnWriteErr = func() { r.add(event{"k": "wfail"}) }
		r.calls = append(r.calls, &call{n: 1, api: "hb", active: true})
		r.add(event{"k": "call", "c": 1, "kind": "resp", "bad": false, "prod": false})
		m.rs = append(m.rs, r)
	}
	kafka.DialHook = func(addr string) (net.Conn, error) {
		if s.Same {
			next++
			return m.rs[next-1].conn, nil
		}
		for i, r := range m.rs {
			if addr == fmt.Sprintf("mem%d:9092", i) {
				return r.conn, nil
			}
		}
		return nil, fmt.Errorf("no such host")
	}
	defer func() { kafka.DialHook = nil }()
	if !s.Apart && !s.Same {
		common.Install(s.Sched)
	}
	for i, r := range m.rs {
		addr := fmt.Sprintf("mem%d:9092", i)
		if s.Same {
			addr = "mem:9092"
		}
		r.started = true
		go func() {
			broker, err := kafka.NewBroker(addr)
			r.mu.Lock()
			r.broker = broker
			r.calls[0].active = false
			r.ev = append(r.ev, event{"k": "ret", "c": 1, "ok": err == nil, "tag": 0})
			r.mu.Unlock()
		}()
		if s.Apart || s.Same {
			r.quiet()
		}
	}
	m.rs[0].quiet()
	common.Install(s.Sched)
	defer common.Uninstall()
	ok := true
	for _, r := range m.rs {
		ok = ok && r.broker != nil
	}
	if ok {
		for _, st := range s.Steps {
			if st.X < len(m.rs) {
				m.rs[st.X].do(st)
			}
		}
		m.rs[0].quiet()
		for _, r := range m.rs {
			r.kept()
		}
		for _, i := range m.rs[0].rng.Perm(len(m.rs)) { // one after the other: those that remain go on working
			m.rs[i].closeBroker(1)
			if s.Sched.Seed%3 != 0 {
				m.rs[0].quiet()
			}
			for _, r := range m.rs {
				r.call(step{Api: "hb", N: i})
			}
			m.rs[0].quiet()
		}
		for _, r := range m.rs {
			r.kept()
		}
	}
	res := result{ID: s.ID, N: s.Conns}
	stuck := !ok
	for _, r := range m.rs {
		res.More = append(res.More, r.ev)
		stuck = stuck || r.closes > 0
		for _, c := range r.calls {
			stuck = stuck || c.active
		}
	}
	if g, _ := common.LibGoroutines(); g > 0 {
		stuck = true
	}
	return res, stuck
}

func run(s scenario) (result, bool) {
	if s.Conns > 1 {
		return runMulti(s)
	}
	r := &runner{s: s, queued: map[int][]byte{}, rng: rand.New(rand.NewSource(s.Sched.Seed + 7))}
	r.conn = memnet.New("mem:9092")
	r.conn.OnWrite = r.onWrite
	r.conn.Late = s.Late
	r.conn.OnWriteErr = func() { r.add(event{"k": "wfail"}) }
	kafka.DialHook = func(addr string) (net.Conn, error) { return r.conn, nil }
	defer func() { kafka.DialHook = nil }()

	var ms0, ms1 runtime.MemStats
	if s.Fam == "mangle" {
		runtime.ReadMemStats(&ms0)
	}
	c0 := &call{n: 1, api: "hb", active: true}
	r.calls = append(r.calls, c0)
	r.add(event{"k": "call", "c": 1, "kind": "resp", "bad": false, "prod": false})
	go func() {
		broker, err := kafka.NewBroker("mem:9092")
		r.mu.Lock()
		r.broker = broker
		c0.active = false
		r.ev = append(r.ev, event{"k": "ret", "c": 1, "ok": err == nil, "tag": 0})
		r.mu.Unlock()
	}()
	r.quiet()
	if r.broker == nil {
		return result{ID: s.ID, N: 1, Ev: r.ev}, true
	}
	if s.Start != 0 {
		setID(r.broker, int32(s.Start))
	}
	if r.parse.Tail() != 0 {
		r.add(event{"k": "junk", "why": "bytes after the first frame"})
	}
	common.Install(s.Sched)
	defer common.Uninstall()
	for _, st := range s.Steps {
		r.do(st)
	}
	r.quiet()
	r.kept()
	if r.closes == 0 && r.nclose == 0 {
		r.closeBroker(1)
		r.quiet()
	}
	// calls on a closed connection
	r.call(step{Api: "hb"})
	r.call(step{Api: "ack0", N: 10})
	r.quiet()
	r.closeBroker(1)
	r.quiet()
	r.kept()
	if s.Fam == "mangle" {
		runtime.ReadMemStats(&ms1)
		r.add(event{"k": "mem", "kb": int((ms1.TotalAlloc - ms0.TotalAlloc) >> 10), "got": r.conn.Sent >> 10})
	}
	res := result{ID: s.ID, N: len(r.calls), Ev: r.ev}
	stuck := r.closes > 0
	for _, c := range r.calls {
		stuck = stuck || c.active
	}
	if g, _ := common.LibGoroutines(); g > 0 {
		stuck = true
	}
	return res, stuck
}

func TestConn(t *testing.T) {
	common.Run(func(raw json.RawMessage) interface{} {
		var s scenario
		if err := json.Unmarshal(raw, &s); err != nil {
			t.Fatal(err)
		}
		var res result
		synctest.Test(t, func(t *testing.T) {
			var stuck bool
			res, stuck = run(s)
			if stuck {
				common.Emit(res)
				common.Stop()
			}
		})
		return res
	})
}
