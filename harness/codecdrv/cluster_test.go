package codecdrv

import (
	"context"
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"net"
	"reflect"
	"sync"
	"testing"
	"testing/synctest"

	"verifharness/common"
	"verifharness/memnet"
	"verifharness/wire"

	"github.com/savaki/kafka"
)

// Cluster scenarios: brokers and clients on an in-memory network of scripted servers,
// recorded for spec/ClusterTrace.tla.

type offer struct {
	K  int16 `json:"k"`
	Lo int16 `json:"lo"`
	Hi int16 `json:"hi"`
}

// reply is what a server does with one request
type reply struct {
	How   string          `json:"how"` // ok eof reset trunc part other
	Bytes []int           `json:"bytes"`
	Val   json.RawMessage `json:"val"`
	Ver   int             `json:"ver"`
	Cut   int             `json:"cut"`
}

// server is what a host does with one connection
type server struct {
	Refuse bool               `json:"refuse"`
	Hi     string             `json:"hi"` // ok eof reset trunc part other wfault
	Code   int16              `json:"code"`
	Off    []offer            `json:"off"`
	Cut    int                `json:"cut"`
	Ask    map[string][]reply `json:"ask"`    // what it answers to the client's own questions, by API key
	AskCut int                `json:"askcut"` // >= 0: writing the question fails after so many bytes
	Frag   int                `json:"frag"`
	Odd    string             `json:"odd"` // what happens to a request it does not expect
}

type host struct {
	Addr  string   `json:"addr"` // as in a bootstrap list
	Host  string   `json:"host"` // as advertised
	Port  string   `json:"port"`
	Conns []server `json:"conns"` // successive connections; the last one repeats
}

type ccall struct {
	Api  string `json:"api"`
	Key  int16  `json:"key"`
	Seed int64  `json:"seed"`
	Prof int    `json:"prof"`
	Acks *int16 `json:"acks"`
	Resp reply  `json:"resp"`
}

type cstep struct {
	Op     string   `json:"op"`
	Addr   string   `json:"addr"`
	Boot   []string `json:"boot"`
	Topics []string `json:"topics"`
	Topic  string   `json:"topic"`
	Part   int32    `json:"part"`
	Group  string   `json:"group"`
	New    bool     `json:"new"` // a new client
	B      int      `json:"b"`   // broker, counting from 1
	Calls  []ccall  `json:"calls"`
	Par    bool     `json:"par"`
	Hold   bool     `json:"hold"` // answers come in reverse order once all requests are there
}

type cscenario struct {
	ID    int     `json:"id"`
	Hosts []host  `json:"hosts"`
	Steps []cstep `json:"steps"`
}

type link struct {
	conn   *memnet.Conn
	n      int
	srv    server
	parser wire.Parser
	hello  bool // negotiation seen
	dead   bool
	queue  map[int16][]reply // answers to the calls made on this broker
	asked  map[int16]int
	held   []held
	hold   bool
	faulty string // what an injected write failure means
}

type held struct {
	id int32
	r  reply
}

type cluster struct {
	mu      sync.Mutex
	ev      []obj
	hosts   map[*host]int
	links   []*link
	s       cscenario
	brokers []*kafka.Broker
	blinks  []*link
	client  *kafka.Client
	calls   int
	rng     *rand.Rand
	hear    func(l *link, b []byte) // what the servers do with what they receive
}

func (c *cluster) log(o obj) {
	c.mu.Lock()
	c.ev = append(c.ev, o)
	c.mu.Unlock()
}

var errRefused = errors.New("memnet: connection refused")

func (c *cluster) dial(addr string) (net.Conn, error) {
	h, p, err := net.SplitHostPort(addr)
	if err != nil {
		h, p = addr, ""
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	var srv *server
	for i := range c.s.Hosts {
		t := &c.s.Hosts[i]
		if t.Addr == addr || (t.Host != "" && t.Host == h && t.Port == p) {
			k := c.hosts[t]
			c.hosts[t]++
			if k >= len(t.Conns) {
				k = len(t.Conns) - 1
			}
			srv = &t.Conns[k]
			break
		}
	}
	n := len(c.links) + 1
	ok := srv != nil && !srv.Refuse
	c.ev = append(c.ev, obj{"k": "dial", "n": n, "addr": addr, "host": common.Ints([]byte(h)), "port": common.Ints([]byte(p)), "ok": ok})
	l := &link{n: n, queue: map[int16][]reply{}, asked: map[int16]int{}}
	c.links = append(c.links, l)
	if !ok {
		l.dead = true
		return nil, errRefused
	}
	l.srv = *srv
	l.conn = memnet.New(addr)
	l.conn.OnWrite = func(b []byte) { c.hear(l, b) }
	l.conn.OnWriteErr = func() {
		if l.faulty != "" && !l.dead {
			l.dead = true
			c.log(obj{"k": l.faulty, "n": l.n, "how": "wfault", "code": 0, "off": []offer{}, "id": 0, "ver": 0, "val": obj{}})
		}
	}
	l.conn.OnClose = func() { c.log(obj{"k": "shut", "n": l.n}) }
	if srv.Hi == "wfault" {
		l.faulty = "hi"
		l.conn.Fault(srv.Cut)
	}
	return l.conn, nil
}

// chunks cuts b into pieces
func (l *link) chunks(b []byte) [][]byte {
	if l.srv.Frag <= 0 {
		return [][]byte{b}
	}
	var out [][]byte
	for len(b) > l.srv.Frag && len(out) < 200 {
		out = append(out, b[:l.srv.Frag])
		b = b[l.srv.Frag:]
	}
	return append(out, b)
}

// act answers frame id in the given way
func (l *link) act(how string, id int32, body []byte, cut int) {
	full := wire.Response(id, body)
	switch how {
	case "ok":
		l.conn.SendLocked(l.chunks(full)...)
	case "eof":
		l.conn.EndLocked(io.EOF)
	case "reset":
		l.conn.ResetLocked()
	case "trunc": // a well formed frame whose payload is too short
		if len(body) > 0 {
			body = body[:cut%len(body)]
		}
		l.conn.SendLocked(l.chunks(wire.Response(id, body))...)
	case "part": // an incomplete frame, then the end
		l.conn.SendLocked(l.chunks(full[:cut%len(full)])...)
		l.conn.EndLocked(io.EOF)
	case "other": // somebody else's answer, then the end
		l.conn.SendLocked(l.chunks(wire.Response(id+1000, body))...)
		l.conn.EndLocked(io.EOF)
	default:
		panic("HARNESS-ERROR how " + how)
	}
}

func (c *cluster) onWrite(l *link, b []byte) {
	for _, f := range l.parser.Feed(b) {
		e := obj{"k": "frame", "n": l.n, "key": f.Key, "ver": f.Version, "id": f.Corr, "cid": f.ClientID, "body": common.Ints(f.Body)}
		c.log(e)
		if l.dead {
			continue
		}
		if !l.hello {
			if f.Key != 18 {
				continue
			}
			l.hello = true
			var rs []wire.Range
			for _, o := range l.srv.Off {
				rs = append(rs, wire.Range{Key: o.K, Min: o.Lo, Max: o.Hi})
			}
			how := l.srv.Hi
			if how != "ok" {
				l.dead = true
			}
			off := l.srv.Off
			if off == nil {
				off = []offer{}
			}
			c.log(obj{"k": "hi", "n": l.n, "how": how, "code": l.srv.Code, "off": off})
			l.act(how, f.Corr, wire.ApiVersions(f.Version, l.srv.Code, rs), l.srv.Cut)
			if how == "ok" && l.srv.AskCut >= 0 {
				l.faulty = "told"
				l.conn.FaultLocked(l.srv.AskCut)
			}
			continue
		}
		if q := l.queue[f.Key]; len(q) > 0 { // a call on a broker the user holds
			l.queue[f.Key] = q[1:]
			if q[0].How == "none" {
				continue
			}
			if l.hold {
				l.held = append(l.held, held{f.Corr, q[0]})
				continue
			}
			c.log(obj{"k": "resp", "n": l.n, "id": f.Corr, "ver": q[0].Ver, "val": q[0].Val})
			l.act(q[0].How, f.Corr, unints(q[0].Bytes), q[0].Cut)
			continue
		}
		as := l.srv.Ask[map[int16]string{3: "3", 10: "10"}[f.Key]]
		if len(as) == 0 { // nobody should ask this
			switch l.srv.Odd {
			case "eof":
				l.conn.EndLocked(io.EOF)
			case "short":
				l.conn.SendLocked(wire.Response(f.Corr, nil))
			}
			continue
		}
		i := l.asked[f.Key]
		if i >= len(as) {
			i = len(as) - 1
		}
		l.asked[f.Key]++
		a := as[i]
		if a.How != "ok" {
			l.dead = true
		}
		c.log(obj{"k": "told", "n": l.n, "id": f.Corr, "how": a.How, "ver": a.Ver, "val": a.Val})
		l.act(a.How, f.Corr, unints(a.Bytes), a.Cut)
	}
	if l.parser.Bad != "" {
		c.log(obj{"k": "junk", "n": l.n, "what": l.parser.Bad})
		l.parser.Bad = ""
	}
}

func bytesOf(ss []string) [][]int {
	out := [][]int{}
	for _, s := range ss {
		out = append(out, common.Ints([]byte(s)))
	}
	return out
}

// one call on broker b
func (c *cluster) prepare(b int, k ccall) func() {
	m := value(scenario{Ty: k.Api + "Request", Seed: k.Seed, Prof: k.Prof})
	v := reflect.ValueOf(m).Elem()
	oneway := false
	if k.Api == "Produce" && k.Acks != nil {
		v.FieldByName("Acks").SetInt(int64(*k.Acks))
		oneway = *k.Acks == 0
	}
	in := dump(v)
	fn := reflect.ValueOf(c.brokers[b-1]).MethodByName(k.Api)
	if !fn.IsValid() {
		panic("HARNESS-ERROR no operation " + k.Api)
	}
	l := c.blinks[b-1]
	if l != nil {
		l.conn.Locked(func() {
			r := k.Resp
			if oneway {
				r.How = "none"
			}
			l.queue[k.Key] = append(l.queue[k.Key], r)
		})
	}
	return func() {
		c.mu.Lock()
		c.calls++
		id := c.calls
		c.ev = append(c.ev, obj{"k": "invoke", "c": id, "b": b, "api": k.Api, "key": k.Key, "val": in, "oneway": oneway})
		c.mu.Unlock()
		out := fn.Call([]reflect.Value{v})
		err, _ := out[1].Interface().(error)
		p := reflect.New(out[0].Type()).Elem()
		p.Set(out[0])
		c.log(obj{"k": "ret", "c": id, "ok": err == nil, "val": dump(p)})
	}
}

// latest is the newest link that is still open
func (c *cluster) latest() *link {
	c.mu.Lock()
	defer c.mu.Unlock()
	for i := len(c.links) - 1; i >= 0; i-- {
		if l := c.links[i]; l.conn != nil && !l.conn.Closed() {
			return l
		}
	}
	return nil
}

func (c *cluster) step(s cstep) (blocked bool) {
	done := make(chan struct{})
	start := func(o obj) {
		for _, k := range []string{"topics", "topic", "part", "group"} {
			if _, ok := o[k]; !ok {
				o[k] = 0
			}
		}
		o["k"] = "start"
		c.log(o)
	}
	finish := func(b *kafka.Broker, err error, val interface{}) {
		l, n := c.latest(), 0
		if l != nil {
			n = l.n
		}
		c.log(obj{"k": "done", "ok": err == nil, "val": val, "nil": b == nil, "conn": n})
		if b != nil && err == nil {
			c.brokers = append(c.brokers, b)
			c.blinks = append(c.blinks, l)
		}
	}
	boot := s.Boot
	if boot == nil {
		boot = []string{}
	}
	if c.client == nil || s.New {
		c.client = kafka.NewClient(s.Boot)
	}
	ctx := context.Background()
	switch s.Op {
	case "direct":
		start(obj{"op": "direct", "boot": []string{s.Addr}})
		go func() {
			b, err := kafka.NewBroker(s.Addr)
			finish(b, err, obj{})
			close(done)
		}()
	case "metadata":
		start(obj{"op": "metadata", "boot": boot, "topics": bytesOf(s.Topics)})
		go func() {
			m, err := c.client.Metadata(ctx, s.Topics...)
			finish(nil, err, dump(reflect.ValueOf(&m).Elem()))
			close(done)
		}()
	case "leader":
		start(obj{"op": "leader", "boot": boot, "topics": bytesOf([]string{s.Topic}), "topic": common.Ints([]byte(s.Topic)), "part": s.Part})
		go func() {
			b, err := c.client.DialLeader(ctx, s.Topic, s.Part)
			finish(b, err, obj{})
			close(done)
		}()
	case "controller":
		start(obj{"op": "controller", "boot": boot, "topics": []int{}})
		go func() {
			b, err := c.client.DialController(ctx)
			finish(b, err, obj{})
			close(done)
		}()
	case "coordinator":
		start(obj{"op": "coordinator", "boot": boot, "group": common.Ints([]byte(s.Group))})
		go func() {
			b, err := c.client.DialGroupCoordinator(ctx, s.Group)
			finish(b, err, obj{})
			close(done)
		}()
	case "calls":
		if s.B > len(c.brokers) {
			return false // there is no such broker: the operation failed
		}
		l := c.blinks[s.B-1]
		if l != nil {
			l.conn.Locked(func() { l.hold = s.Hold })
		}
		var fns []func()
		for _, k := range s.Calls {
			fns = append(fns, c.prepare(s.B, k))
		}
		if !s.Par {
			go func() {
				for _, fn := range fns {
					fn()
				}
				close(done)
			}()
			break
		}
		var wg sync.WaitGroup
		for _, fn := range fns {
			wg.Add(1)
			go func() { defer wg.Done(); fn() }()
		}
		go func() { wg.Wait(); close(done) }()
		if s.Hold && l != nil {
			common.Quiesce()
			l.conn.Locked(func() {
				c.rng.Shuffle(len(l.held), func(i, j int) { l.held[i], l.held[j] = l.held[j], l.held[i] })
				for _, h := range l.held {
					c.log(obj{"k": "resp", "n": l.n, "id": h.id, "ver": h.r.Ver, "val": h.r.Val})
					l.act(h.r.How, h.id, unints(h.r.Bytes), 0)
				}
				l.held = nil
			})
		}
	case "close":
		if s.B > len(c.brokers) {
			return false
		}
		c.log(obj{"k": "release", "b": s.B})
		go func() {
			c.brokers[s.B-1].Close()
			c.log(obj{"k": "released", "b": s.B})
			close(done)
		}()
	default:
		panic("HARNESS-ERROR step " + s.Op)
	}
	common.Quiesce()
	select {
	case <-done:
	default:
		blocked = true
	}
	g, st := common.LibGoroutines()
	e := obj{"k": "rest", "g": g, "stuck": blocked}
	if blocked {
		if len(st) > 3000 {
			st = st[:3000]
		}
		e["stacks"] = st
	}
	c.log(e)
	return blocked
}

func TestCluster(t *testing.T) {
	common.Run(func(line json.RawMessage) interface{} {
		var s cscenario
		if err := json.Unmarshal(line, &s); err != nil {
			t.Fatal("HARNESS-ERROR ", err)
		}
		var res obj
		synctest.Test(t, func(t *testing.T) {
			c := &cluster{s: s, hosts: map[*host]int{}, rng: rand.New(rand.NewSource(int64(s.ID)))}
			c.hear = c.onWrite
			kafka.DialHook = c.dial
			defer func() { kafka.DialHook = nil }()
			stuck := false
			for _, st := range s.Steps {
				if stuck = c.step(st); stuck {
					break
				}
			}
			c.mu.Lock()
			res = obj{"ev": c.ev}
			c.mu.Unlock()
			g, _ := common.LibGoroutines()
			if stuck || g > 0 {
				common.Emit(res)
				common.Stop()
			}
			for _, l := range c.links {
				if l.conn != nil {
					l.conn.Close()
				}
			}
		})
		return res
	})
}
