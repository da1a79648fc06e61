import sys; sys.path.insert(0,'/verif/tools'); import seed
C='gen.conn.go'; B='ring/buffer.go'
seed.make('conn-dup-response','C03',[(C,"		delete(c.requests, resp.CorrelationId)\n",""),(C,"	return <-req.reply\n","	err = <-req.reply\n	c.readLock.Lock()\n	delete(c.requests, correlationID)\n	c.readLock.Unlock()\n	return err\n")],
{'demo.go':'''package kafka

import (
	"net"
	"testing"

	"github.com/savaki/kafka/message"
)

// A broker (or a proxy) that repeats a response must not disturb other calls.
func TestDemo(t *testing.T) {
	f := newFake(t, func(c net.Conn, fr frame) {
		n := 1
		if fr.key == 17 {
			n = 400
		}
		body := []byte{0, 0, 0, 0, 0, 0}
		one := append([]byte{0, 0, 0, byte(4 + len(body)), byte(fr.corr >> 24), byte(fr.corr >> 16), byte(fr.corr >> 8), byte(fr.corr)}, body...)
		var all []byte
		for i := 0; i < n; i++ {
			all = append(all, one...)
		}
		c.Write(all)
	})
	for round := 0; round < 60; round++ {
		b, err := NewBroker(f.addr())
		if err != nil {
			t.Fatal(err)
		}
		within(t, "demo calls", func() {
			for i := 0; i < 5; i++ {
				if _, err := b.SaslHandshake(message.SaslHandshakeRequest{}); err != nil {
					t.Errorf("demo: %v", err)
				}
				if _, err := b.Heartbeat(message.HeartbeatRequest{}); err != nil {
					t.Errorf("demo: %v", err)
				}
			}
			b.Close()
		})
	}
}
'''},'.','a response frame that is duplicated at least twice before the caller has taken its reply','the dispatcher blocks on a call that was already answered: later calls never get their response, Close hangs')
seed.make('conn-id-mask','C04',[(C,"	correlationID := atomic.AddInt32(&c.id, 1)\n","	correlationID := atomic.AddInt32(&c.id, 1) & 0xff // keep ids small\n")],
{'demo.go':'''package kafka

import (
	"net"
	"sync"
	"testing"

	"github.com/savaki/kafka/message"
)

// One slow call stays outstanding while hundreds of quick ones complete: its
// correlation id must not be used by another request.
func TestDemo(t *testing.T) {
	var mu sync.Mutex
	slow := int32(-1)
	clash := false
	release := make(chan struct{})
	f := newFake(t, func(c net.Conn, fr frame) {
		mu.Lock()
		defer mu.Unlock()
		if fr.key == 11 {
			slow = fr.corr
			go func() {
				<-release
				respond(c, fr.corr, make([]byte, 16))
			}()
			return
		}
		if fr.corr == slow {
			clash = true
		}
		respond(c, fr.corr, []byte{0, 0})
	})
	b, err := NewBroker(f.addr())
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan struct{})
	go func() { b.JoinGroup(message.JoinGroupRequest{}); close(done) }()
	for {
		mu.Lock()
		ok := slow != -1
		mu.Unlock()
		if ok {
			break
		}
	}
	within(t, "demo calls", func() {
		for i := 0; i < 600; i++ {
			b.Heartbeat(message.HeartbeatRequest{})
		}
	})
	if clash {
		t.Error("demo: two outstanding requests carried the same correlation id")
	}
	close(release)
	b.Close()
}
'''},'.','one call outstanding while 255 further calls are made','two outstanding requests share a correlation id')
seed.make('ring-full-nowake','C02',[(B,"			r.readLock.Release()\n			wrote = i\n","			if start != pos {\n				wrote = i\n			}\n")],
{'demo.go':'''package ring

import (
	"testing"
	"time"
)

// A write larger than the free space, met by a reader that is already waiting.
func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		r := New(16)
		done := make(chan bool)
		go func() {
			buf := make([]byte, 64)
			done <- r.ReadN(buf, 40)
		}()
		if i%2 == 0 {
			time.Sleep(time.Millisecond)
		}
		go r.WriteN(make([]byte, 64), 40)
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			t.Fatal("demo: reader and writer are both stuck")
		}
		r.Close()
	}
}
'''},'ring','a write larger than the free space while the reader already waits','reader and writer wait for each other forever')
