package codecdrv

import (
	"bytes"
	"context"
	"encoding/json"
	"math/rand"
	"reflect"
	"testing"
	"testing/synctest"

	"verifharness/common"
	"verifharness/wire"

	"github.com/savaki/kafka"
)

// Overlapping operations of one client, recorded for spec/ParallelTrace.tla.

type pop struct {
	Op     string   `json:"op"`
	Topics []string `json:"topics"`
	Topic  string   `json:"topic"`
	Part   int32    `json:"part"`
	Group  string   `json:"group"`
	Word   string   `json:"word"` // what tells the question from the others
	Reply  reply    `json:"reply"`
	Call   ccall    `json:"call"` // made on the broker
	Delay  int      `json:"delay"`
}

type pscenario struct {
	ID    int          `json:"id"`
	Boot  []string     `json:"boot"`
	Hosts []host       `json:"hosts"`
	Ops   []pop        `json:"ops"`
	Sched common.Sched `json:"sched"`
	Hold  bool         `json:"hold"` // questions are answered, in any order, once all there can be are there
}

type waiting struct {
	l *link
	f wire.Frame
	r reply
}

type parallel struct {
	*cluster
	ps      pscenario
	q       []waiting
	brokers []*kafka.Broker
	calling *ccall
}

func (p *parallel) onWrite(l *link, b []byte) {
	for _, f := range l.parser.Feed(b) {
		p.log(obj{"k": "frame", "n": l.n, "key": f.Key, "ver": f.Version, "id": f.Corr, "cid": f.ClientID, "body": common.Ints(f.Body)})
		if l.dead {
			continue
		}
		if !l.hello {
			if f.Key != 18 {
				continue
			}
			l.hello = true
			var rs []wire.Range
			for _, o := range l.srv.Off {
				rs = append(rs, wire.Range{Key: o.K, Min: o.Lo, Max: o.Hi})
			}
			if l.srv.Hi != "ok" {
				l.dead = true
			}
			p.log(obj{"k": "hi", "n": l.n, "how": l.srv.Hi, "code": l.srv.Code, "off": l.srv.Off})
			l.act(l.srv.Hi, f.Corr, wire.ApiVersions(f.Version, l.srv.Code, rs), l.srv.Cut)
			continue
		}
		if k := p.calling; k != nil {
			p.log(obj{"k": "resp", "n": l.n, "id": f.Corr, "ver": k.Resp.Ver, "val": k.Resp.Val})
			l.act("ok", f.Corr, unints(k.Resp.Bytes), 0)
			continue
		}
		var best *pop
		for i := range p.ps.Ops {
			o := &p.ps.Ops[i]
			if (o.Op == "coordinator") != (f.Key == 10) || !bytes.Contains(f.Body, []byte(o.Word)) {
				continue
			}
			if best == nil || len(o.Word) > len(best.Word) {
				best = o
			}
		}
		if best == nil {
			l.conn.SendLocked(wire.Response(f.Corr, nil))
			continue
		}
		w := waiting{l, f, best.Reply}
		if p.ps.Hold {
			p.mu.Lock()
			p.q = append(p.q, w)
			p.mu.Unlock()
			continue
		}
		p.answer(w)
	}
	if l.parser.Bad != "" {
		p.log(obj{"k": "junk", "n": l.n, "what": l.parser.Bad})
		l.parser.Bad = ""
	}
}

// answer runs under the connection's lock
func (p *parallel) answer(w waiting) {
	if w.r.How != "ok" {
		w.l.dead = true
	}
	p.log(obj{"k": "told", "n": w.l.n, "id": w.f.Corr, "how": w.r.How, "ver": w.r.Ver, "val": w.r.Val})
	w.l.act(w.r.How, w.f.Corr, unints(w.r.Bytes), w.r.Cut)
}

func (p *parallel) run() (stuck bool) {
	for i := range p.ps.Ops {
		if p.ps.Ops[i].Topics == nil {
			p.ps.Ops[i].Topics = []string{}
		}
	}
	if p.ps.Boot == nil {
		p.ps.Boot = []string{}
	}
	p.log(obj{"k": "client", "boot": p.ps.Boot})
	client := kafka.NewClient(p.ps.Boot)
	ctx := context.Background()
	p.brokers = make([]*kafka.Broker, len(p.ps.Ops)+1)
	alive := len(p.ps.Ops)
	for i := range p.ps.Ops {
		o, s := i+1, p.ps.Ops[i]
		topics := s.Topics
		if s.Op == "leader" {
			topics = []string{s.Topic}
		}
		p.log(obj{"k": "start", "o": o, "op": s.Op, "topics": bytesOf(topics), "topic": common.Ints([]byte(s.Topic)), "part": s.Part, "group": common.Ints([]byte(s.Group))})
		go func() {
			var (
				b   *kafka.Broker
				err error
				val interface{} = obj{}
			)
			switch s.Op {
			case "metadata":
				m, e := client.Metadata(ctx, s.Topics...)
				err, val = e, dump(reflect.ValueOf(&m).Elem())
			case "leader":
				b, err = client.DialLeader(ctx, s.Topic, s.Part)
			case "controller":
				b, err = client.DialController(ctx)
			case "coordinator":
				b, err = client.DialGroupCoordinator(ctx, s.Group)
			}
			p.mu.Lock()
			defer p.mu.Unlock()
			alive--
			if err == nil {
				p.brokers[o] = b
			}
			p.ev = append(p.ev, obj{"k": "done", "o": o, "ok": err == nil, "val": val, "nil": b == nil})
		}()
		for j := 0; j < s.Delay; j++ {
			common.Yield()
		}
	}
	for {
		common.Quiesce()
		if len(p.q) == 0 {
			break
		}
		q := p.q
		p.q = nil
		p.rng.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
		for _, w := range q {
			w.l.conn.Locked(func() { p.answer(w) })
			for j := p.rng.Intn(30); j > 0; j-- {
				common.Yield()
			}
		}
	}
	p.rest(alive > 0)
	if alive > 0 {
		return true
	}
	order := p.rng.Perm(len(p.ps.Ops))
	for _, i := range order { // every broker is the one it should be
		b := p.brokers[i+1]
		if b == nil {
			continue
		}
		k := p.ps.Ops[i].Call
		p.calling = &k
		v := reflect.ValueOf(value(scenario{Ty: k.Api + "Request", Seed: k.Seed, Prof: k.Prof})).Elem()
		if k.Api == "Produce" {
			v.FieldByName("Acks").SetInt(1)
		}
		done := make(chan struct{})
		go func() {
			p.log(obj{"k": "invoke", "c": i + 1, "o": i + 1, "api": k.Api, "key": k.Key, "val": dump(v)})
			out := reflect.ValueOf(b).MethodByName(k.Api).Call([]reflect.Value{v})
			err, _ := out[1].Interface().(error)
			x := reflect.New(out[0].Type()).Elem()
			x.Set(out[0])
			p.log(obj{"k": "ret", "c": i + 1, "ok": err == nil, "val": dump(x)})
			close(done)
		}()
		common.Quiesce()
		p.calling = nil
		select {
		case <-done:
		default:
			p.rest(true)
			return true
		}
	}
	alive = 0
	for _, i := range order { // all at once
		b := p.brokers[i+1]
		if b == nil {
			continue
		}
		alive++
		p.log(obj{"k": "release", "o": i + 1})
		go func() {
			b.Close()
			p.mu.Lock()
			defer p.mu.Unlock()
			alive--
			p.ev = append(p.ev, obj{"k": "released", "o": i + 1})
		}()
	}
	common.Quiesce()
	p.rest(alive > 0)
	return alive > 0
}

func (p *parallel) rest(stuck bool) {
	g, st := common.LibGoroutines()
	e := obj{"k": "rest", "g": g, "stuck": stuck}
	if len(st) > 3000 {
		st = st[:3000]
	}
	e["stacks"] = st
	p.log(e)
}

func TestParallel(t *testing.T) {
	common.Run(func(line json.RawMessage) interface{} {
		var s pscenario
		if err := json.Unmarshal(line, &s); err != nil {
			t.Fatal("HARNESS-ERROR ", err)
		}
		var res obj
		synctest.Test(t, func(t *testing.T) {
			c := &cluster{s: cscenario{Hosts: s.Hosts}, hosts: map[*host]int{}, rng: rand.New(rand.NewSource(int64(s.ID) + s.Sched.Seed))}
			p := &parallel{cluster: c, ps: s}
			c.hear = p.onWrite
			kafka.DialHook = c.dial
			defer func() { kafka.DialHook = nil }()
			common.Install(s.Sched)
			stuck := p.run()
			common.Uninstall()
			c.mu.Lock()
			res = obj{"ev": c.ev}
			c.mu.Unlock()
			if g, _ := common.LibGoroutines(); stuck || g > 0 {
				common.Emit(res)
				common.Stop()
			}
			for _, l := range c.links {
				if l.conn != nil {
					l.conn.Close()
				}
			}
		})
		return res
	})
}
