import sys; sys.path.insert(0,'/verif/tools'); import seed
C='gen.conn.go'; D='message/decoder.go'; E='message/encoder.go'; M='message/messages.gen.go'; G='gen.broker.go'; K='client.go'; R='gen.record_batch.go'; O='gen.option.go'
L={}
def add(id,*a,**k): L[id]=(a,k)
add('shared-readbuf','C23',[(C,'func (c *Conn) readLoop(','var readBuffer = make([]byte, 2e6) // 2MB\n\nfunc (c *Conn) readLoop('),(C,'	buffer := make([]byte, 2e6) // 2MB\n	for','	buffer := readBuffer // copied into the ring before the next read\n	for')],
{'demo.go':'''package kafka

import (
	"net"
	"sync"
	"testing"

	"github.com/savaki/kafka/message"
)

// Two connections receive large responses at the same time.
func TestDemo(t *testing.T) {
	f := newFake(t, func(c net.Conn, fr frame) {
		b := make([]byte, 0, len(fr.body)+4)
		b = append(b, 0, 0, 0, 0)
		b = append(b, fr.body...)
		respond(c, fr.corr, b)
	})
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		b, err := NewBroker(f.addr())
		if err != nil {
			t.Fatal(err)
		}
		defer b.Close()
		wg.Add(1)
		go func(x byte) {
			defer wg.Done()
			data := make([]byte, 300000)
			for i := range data {
				data[i] = x
			}
			for k := 0; k < 30; k++ {
				r, err := b.SaslAuthenticate(message.SaslAuthenticateRequest{AuthBytes: data})
				if err != nil || len(r.AuthBytes) != len(data) {
					t.Errorf("demo: %v, %d bytes", err, len(r.AuthBytes))
					return
				}
				for _, c := range r.AuthBytes {
					if c != x {
						t.Errorf("demo: connection %d received what was sent to %d", x, c)
						return
					}
				}
			}
		}(byte(i + 1))
	}
	wg.Wait()
}
'''},'.','two connections that receive at the same time, one reading between the other\'s read and copy','bytes of one connection end up on another',flags='-race')
add('global-writelock','C23',[(C,'type request struct','// sendLock keeps requests in the order in which they were issued\nvar sendLock sync.Mutex\n\ntype request struct'),(C,'	c.writeLock.Lock()\n','	sendLock.Lock()\n'),(C,'	c.writeLock.Unlock()\n','	sendLock.Unlock()\n'),(C,'	writeLock sync.Mutex\n	readLock  sync.Mutex\n	requests  map[int32]request\n	closed    bool ','	readLock sync.Mutex\n	requests map[int32]request\n	closed   bool ')],
{'demo.go':'''package kafka

import (
	"net"
	"testing"
	"time"

	"github.com/savaki/kafka/message"
)

// A broker that stops reading does not hold up calls to another one.
func TestDemo(t *testing.T) {
	stop := make(chan struct{})
	defer close(stop)
	slow := newFake(t, func(c net.Conn, fr frame) { <-stop })
	fast := newFake(t, func(c net.Conn, fr frame) { respond(c, fr.corr, []byte{0, 0}) })
	a, err := NewBroker(slow.addr())
	if err != nil {
		t.Fatal(err)
	}
	b, err := NewBroker(fast.addr())
	if err != nil {
		t.Fatal(err)
	}
	defer a.conn.raw.Close()
	go a.SaslAuthenticate(message.SaslAuthenticateRequest{AuthBytes: make([]byte, 10)})
	time.Sleep(100 * time.Millisecond)
	go a.SaslAuthenticate(message.SaslAuthenticateRequest{AuthBytes: make([]byte, 64<<20)})
	time.Sleep(500 * time.Millisecond)
	within(t, "a call to the other broker", func() {
		if _, err := b.Heartbeat(message.HeartbeatRequest{GroupId: "g"}); err != nil {
			t.Errorf("demo: %v", err)
		}
	})
}
'''},'.','a peer that stops reading while a request is being written, and a call on another connection','calls on every connection wait for one slow broker')
add('bootstrap-promote','C24',[(K,'	for _, addr := range c.bootstrap {','	for i, addr := range c.bootstrap {'),(K,'		return callback(broker)\n','		// begin with the one that works next time\n		copy(c.bootstrap[1:i+1], c.bootstrap[:i])\n		c.bootstrap[0] = addr\n		return callback(broker)\n')],
{'demo.go':'''package kafka

import (
	"context"
	"net"
	"testing"
)

// The list of servers belongs to the caller.
func TestDemo(t *testing.T) {
	f := newFake(t, func(c net.Conn, fr frame) { respond(c, fr.corr, make([]byte, 12)) })
	boot := []string{"127.0.0.1:1", "127.0.0.1:2", f.addr()}
	NewClient(boot).Metadata(context.Background())
	if boot[0] != "127.0.0.1:1" || boot[1] != "127.0.0.1:2" || boot[2] != f.addr() {
		t.Fatalf("demo: the list is now %v", boot)
	}
}
'''},'.','a bootstrap server other than the first is the one that works','the caller\'s list of bootstrap servers is reordered')
add('tls-min-version','C24',[(O,'		c.tlsConfig = tlsConfig\n','		if tlsConfig != nil && tlsConfig.MinVersion < tls.VersionTLS12 {\n			tlsConfig.MinVersion = tls.VersionTLS12\n		}\n		c.tlsConfig = tlsConfig\n')],
{'demo.go':'''package kafka

import (
	"crypto/tls"
	"net"
	"testing"
)

// The configuration belongs to the caller.
func TestDemo(t *testing.T) {
	f := newFake(t, func(c net.Conn, fr frame) {})
	cfg := &tls.Config{}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			c.Close()
		}
	}()
	_ = f
	if c, err := Connect(l.Addr().String(), WithTLS(cfg)); err == nil {
		c.Close()
	}
	if cfg.MinVersion != 0 {
		t.Fatalf("demo: MinVersion is now %x", cfg.MinVersion)
	}
}
'''},'.','a TLS configuration that leaves the minimum version to the library','the caller\'s TLS configuration is changed')
add('records-not-nil','C24',[(M,'	// Partitions\n	len1 := len(t.Partitions)\n','	// Partitions; brokers reject null records\n	for i := range t.Partitions {\n		if p := &t.Partitions[i]; p.Records == nil && version > 2 {\n			p.Records = []byte{}\n		}\n	}\n	len1 := len(t.Partitions)\n')],
{'demo.go':'''package message

import (
	"bytes"
	"testing"
)

// Encoding a request leaves it alone: the same request encodes to the same bytes.
func TestDemo(t *testing.T) {
	req := ProduceRequest{Topics: []TopicProduceData0{{Name: "a", Partitions: []PartitionProduceData0{{PartitionIndex: 1}}}}}
	enc := func(v int16) []byte {
		var b bytes.Buffer
		e := NewEncoder(&b)
		req.Encode(e, v)
		e.Flush()
		return b.Bytes()
	}
	a := enc(1)
	enc(7)
	if b := enc(1); !bytes.Equal(a, b) || req.Topics[0].Partitions[0].Records != nil {
		t.Fatalf("demo: %x, later %x", a, b)
	}
}
'''},'message','a request without records that is encoded at version 3 or later, and looked at or encoded at another version afterwards','encoding modifies the caller\'s request')
if __name__=='__main__':
    for i in sys.argv[1:] or L: seed.make(i,*L[i][0],**L[i][1])
