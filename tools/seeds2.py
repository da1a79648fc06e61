import sys; sys.path.insert(0,'/verif/tools'); import seed
C='gen.conn.go'; B='ring/buffer.go'; D='message/decoder.go'; E='message/encoder.go'; S='message/sizeof/sizeof.go'; M='message/messages.gen.go'; G='gen.broker.go'; K='client.go'; R='gen.record_batch.go'
L={}
def add(id,*a,**k): L[id]=(a,k)
add('ring-fast-read','C01',[(B,"		read = 0\n	)\n","		read int\n	)\n\n	// everything is there and does not wrap: hand it out in one piece\n	if last := pos + int32(n); n > 0 && last < next {\n		atomic.StoreInt32(&r.start, last)\n		r.writeLock.Release()\n		copy(data, r.data[pos:last])\n		return true\n	}\n")],
{'demo.go':'''package ring

import "testing"

// A writer that keeps the ring full must not overwrite what is being read.
func TestDemo(t *testing.T) {
	r := New(256)
	const rounds = 20000
	go func() {
		b := make([]byte, 255)
		x := byte(0)
		for i := 0; i < rounds; i++ {
			for j := range b {
				b[j] = x
				x++
			}
			r.WriteN(b, len(b))
		}
	}()
	buf := make([]byte, 100)
	x := byte(0)
	for got := 0; got+100 < rounds*255; got += 100 {
		r.ReadN(buf, 100)
		for _, c := range buf {
			if c != x {
				t.Fatalf("demo: got %d, want %d", c, x)
			}
			x++
		}
	}
}
'''},'ring','a writer that is waiting for space (or about to) while the reader takes a contiguous chunk','bytes are overwritten before the reader has copied them',flags='-race')
add('do-select','C05',[(C,"	return <-req.reply\n","	select {\n	case err := <-req.reply:\n		return err\n	case <-c.doneMessage: // nobody is going to reply\n		return c.err\n	}\n")],
{'demo.go':'''package kafka

import (
	"net"
	"testing"
	"time"

	"github.com/savaki/kafka/message"
)

// A call whose connection ends before it is answered reports an error.
func TestDemo(t *testing.T) {
	f := newFake(t, func(c net.Conn, fr frame) { c.Close() })
	for i := 0; i < 40; i++ {
		c, err := Connect(f.addr())
		if err != nil {
			t.Fatal(err)
		}
		within(t, "demo call", func() {
			err := c.Do(func(e *message.Encoder, id int32) {
				e.PutInt32(10)
				e.PutInt16(12)
				e.PutInt16(0)
				e.PutInt32(id)
				e.PutInt16(0)
				e.Flush()
				time.Sleep(20 * time.Millisecond) // the connection ends meanwhile
			}, func(d *message.Decoder) error { return nil })
			if err == nil {
				t.Fatal("demo: success without an answer")
			}
		})
		c.Close()
	}
}
'''},'.','the connection ends while a call waits, and the call notices the end of the dispatcher before its own error','a call that was never answered reports success')
add('reply-unbuffered','C06',[(C,"		reply:  make(chan error, 1),\n","		reply:  make(chan error),\n")],
{'demo.go':'''package kafka

import (
	"net"
	"strings"
	"testing"
	"time"

	"github.com/savaki/kafka/message"
)

// The peer stops reading and then resets while a large request is being written.
func TestDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Skip(err)
		}
		peer := make(chan net.Conn, 1)
		go func() { c, _ := l.Accept(); peer <- c }()
		c, err := Connect(l.Addr().String())
		if err != nil {
			t.Fatal(err)
		}
		p := <-peer
		done := make(chan error, 1)
		go func() {
			done <- c.Do(func(e *message.Encoder, id int32) { e.PutBytes([]byte(strings.Repeat("x", 30<<20))) }, func(*message.Decoder) error { return nil })
		}()
		time.Sleep(30 * time.Millisecond)
		p.(*net.TCPConn).SetLinger(0)
		p.Close()
		within(t, "demo: the call", func() { <-done })
		within(t, "demo: Close", func() { c.Close() })
		l.Close()
	}
}
'''},'.','the connection is reset while a call is still writing its request','the call and Close wait for each other forever')
add('close-nowait','C06',[(C,"	<-c.doneMessage\n	<-c.doneRead\n","	<-c.doneMessage\n")],
{'demo.go':'''package kafka

import (
	"net"
	"runtime"
	"strings"
	"testing"
)

// When Close has returned, nothing of the connection is left running.
func TestDemo(t *testing.T) {
	f := newFake(t, func(c net.Conn, fr frame) {})
	buf := make([]byte, 1<<20)
	for i := 0; i < 3000; i++ {
		c, err := Connect(f.addr())
		if err != nil {
			t.Fatal(err)
		}
		c.Close()
		s := string(buf[:runtime.Stack(buf, true)])
		if strings.Contains(s, "(*Conn).readLoop") {
			t.Fatalf("demo: still running after %d closes", i)
		}
	}
}
'''},'.','the reading goroutine is scheduled later than the one that closes','Close returns while the connection is still being read')
add('remains-overflow','C07',[(D,"	if remain := d.length - d.offset; remain < n {\n","	if d.offset+n > d.length {\n")],
{'demo.go':'''package message

import (
	"encoding/binary"
	"math"
	"testing"
)

// No length a peer may send makes the decoder panic.
func TestDemo(t *testing.T) {
	for _, n := range []int64{1, 1 << 20, math.MaxInt32, math.MaxInt64 - 20, math.MaxInt64} {
		buf := make([]byte, 32)
		k := binary.PutVarint(buf, n)
		for i := k; i < len(buf); i++ {
			buf[i] = 'x'
		}
		for _, f := range []func(*Decoder) error{
			func(d *Decoder) error { _, err := d.VarBytes(); return err },
			func(d *Decoder) error { _, err := d.VarString(); return err },
		} {
			func() {
				defer func() {
					if x := recover(); x != nil {
						t.Errorf("demo: length %d: panic: %v", n, x)
					}
				}()
				if err := f(NewDecoder(buf, len(buf))); err == nil && n > 40 {
					t.Errorf("demo: length %d: no error", n)
				}
			}()
		}
	}
}
'''},'message','a varint length close to the largest 64-bit integer','the decoder panics')
add('list-groups-max','C09',[(G,"av.ListGroups, err = matchVersion(apiKey, 0, 3)","av.ListGroups, err = matchVersion(apiKey, 0, 2)")],
{'demo.go':'''package kafka

import (
	"net"
	"testing"

	"github.com/savaki/kafka/message"
)

// The highest common version is used.
func TestDemo(t *testing.T) {
	got := make(chan int16, 1)
	f := newFake(t, func(c net.Conn, fr frame) {
		got <- fr.version
		respond(c, fr.corr, make([]byte, 64))
	})
	f.versions[16] = [2]int16{1, 3}
	b, err := NewBroker(f.addr())
	if err != nil {
		t.Fatal("demo:", err)
	}
	defer b.Close()
	within(t, "demo", func() { b.ListGroups(message.ListGroupsRequest{}) })
	if v := <-got; v != 3 {
		t.Fatalf("demo: version %d", v)
	}
}
'''},'.','a broker that offers ListGroups up to version 3','a version lower than the highest common one is used')
add('expire-token-key','C10',[(G,"RequestApiKey:     message.KeyExpireDelegationToken,","RequestApiKey:     message.KeyRenewDelegationToken,")],
{'demo.go':'''package kafka

import (
	"net"
	"testing"

	"github.com/savaki/kafka/message"
)

func TestDemo(t *testing.T) {
	got := make(chan int16, 1)
	f := newFake(t, func(c net.Conn, fr frame) {
		got <- fr.key
		respond(c, fr.corr, make([]byte, 64))
	})
	b, err := NewBroker(f.addr())
	if err != nil {
		t.Fatal("demo:", err)
	}
	defer b.Close()
	within(t, "demo", func() { b.ExpireDelegationToken(message.ExpireDelegationTokenRequest{}) })
	if k := <-got; k != 40 {
		t.Fatalf("demo: key %d", k)
	}
}
'''},'.','a call of ExpireDelegationToken (its two lookalike APIs have the same layout)','the operation asks for something else')
add('varint-size-loop','C14',[(S,"	var buf [16]byte\n	length := binary.PutVarint(buf[:], i)\n	return int32(length)\n","	if i < 0 {\n		i = -i\n	}\n	var n int32 = 1\n	for u := uint64(i) << 1; u >= 0x80; u >>= 7 {\n		n++\n	}\n	return n\n"),(S,'import "encoding/binary"\n\n','')],
{'demo.go':'''package sizeof

import (
	"encoding/binary"
	"testing"
)

func TestDemo(t *testing.T) {
	var buf [16]byte
	for k := uint(0); k < 63; k++ {
		for d := int64(-2); d <= 2; d++ {
			for _, v := range []int64{1<<k + d, -(1 << k) + d} {
				if got, want := VarInt(v), int32(binary.PutVarint(buf[:], v)); got != want {
					t.Errorf("demo: VarInt(%d)=%d, want %d", v, got, want)
				}
			}
		}
	}
}
'''},'message/sizeof','a negative value -64, -8192, ... whose magnitude is a power of two at a varint boundary','the size function and the encoder disagree')
add('fetch-size-v4','C11',[(M,"	if version >= 7 {\n		sz += sizeof.Int32 // SessionId\n	}\n	sz += sizeof.ArrayLength // Topics\n","	if version > 7 {\n		sz += sizeof.Int32 // SessionId\n	}\n	sz += sizeof.ArrayLength // Topics\n")],
{'demo.go':'''package message

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	for v := int16(0); v <= 11; v++ {
		var b bytes.Buffer
		m := FetchResponse{ThrottleTimeMs: 1, SessionId: 9}
		m.Encode(NewEncoder(&b), v)
		if int(m.Size(v)) != b.Len() {
			t.Errorf("demo: version %d: size %d, encoded %d", v, m.Size(v), b.Len())
		}
	}
}
'''},'message','version 7 of a fetch response','declared size differs from the encoded size at one version')
add('member-instance-v','C12',[(M,"	if version >= 3 {\n		t.GroupInstanceId, err = d.String()\n","	if version > 3 {\n		t.GroupInstanceId, err = d.String()\n")],
{'demo.go':'''package message

import (
	"bytes"
	"reflect"
	"testing"
)

func TestDemo(t *testing.T) {
	for v := int16(0); v <= 4; v++ {
		for _, m := range []interface {
			Encode(*Encoder, int16)
		}{
			HeartbeatRequest{GroupId: "g", GenerationId: 1, MemberId: "m", GroupInstanceId: "i"},
			SyncGroupRequest{GroupId: "g", GenerationId: 1, MemberId: "m", GroupInstanceId: "i", Assignments: []SyncGroupRequestAssignment14{{MemberId: "a", Assignment: []byte("x")}}},
			LeaveGroupRequest{GroupId: "g", MemberId: "m", Members: []MemberIdentity13{{MemberId: "x", GroupInstanceId: "y"}}},
		} {
			var b bytes.Buffer
			m.Encode(NewEncoder(&b), v)
			p := reflect.New(reflect.TypeOf(m))
			d := NewDecoder(b.Bytes(), b.Len())
			if err := p.Interface().(interface {
				Decode(*Decoder, int16) error
			}).Decode(d, v); err != nil {
				t.Errorf("demo: %T version %d: %v", m, v, err)
				continue
			}
			var again bytes.Buffer
			p.Elem().Interface().(interface{ Encode(*Encoder, int16) }).Encode(NewEncoder(&again), v)
			if !bytes.Equal(b.Bytes(), again.Bytes()) {
				t.Errorf("demo: %T version %d: not the same again", m, v)
			}
		}
	}
}
'''},'message','version 3 of the message, with a group instance id','a field is not decoded at one version; what follows is garbage')
add('join-instance-v4','C13',[(M,"	sz += sizeof.String(t.MemberId) // MemberId\n	if version >= 5 {\n		sz += sizeof.String(t.GroupInstanceId) // GroupInstanceId\n	}\n	sz += sizeof.String(t.ProtocolType) // ProtocolType\n","	sz += sizeof.String(t.MemberId) // MemberId\n	if version >= 4 {\n		sz += sizeof.String(t.GroupInstanceId) // GroupInstanceId\n	}\n	sz += sizeof.String(t.ProtocolType) // ProtocolType\n"),
 (M,"	e.PutString(t.MemberId) // MemberId\n	if version >= 5 {\n		e.PutString(t.GroupInstanceId) // GroupInstanceId\n	}\n	e.PutString(t.ProtocolType) // ProtocolType\n","	e.PutString(t.MemberId) // MemberId\n	if version >= 4 {\n		e.PutString(t.GroupInstanceId) // GroupInstanceId\n	}\n	e.PutString(t.ProtocolType) // ProtocolType\n"),
 (M,"	if version >= 5 {\n		t.GroupInstanceId, err = d.String()\n		if err != nil {\n			return err\n		}\n	}\n	t.ProtocolType, err = d.String()\n","	if version >= 4 {\n		t.GroupInstanceId, err = d.String()\n		if err != nil {\n			return err\n		}\n	}\n	t.ProtocolType, err = d.String()\n")],
{'demo.go':'''package message

import (
	"bytes"
	"testing"
)

// JoinGroup v4: group_id session_timeout rebalance_timeout member_id protocol_type [protocols]
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	JoinGroupRequest{GroupId: "g", SessionTimeoutMs: 1, RebalanceTimeoutMs: 2, MemberId: "m", ProtocolType: "p"}.Encode(NewEncoder(&b), 4)
	want := []byte{0, 1, 'g', 0, 0, 0, 1, 0, 0, 0, 2, 0, 1, 'm', 0, 1, 'p', 0, 0, 0, 0}
	if !bytes.Equal(b.Bytes(), want) {
		t.Errorf("demo: %v", b.Bytes())
	}
}
'''},'message','version 4 of JoinGroup; the library agrees with itself','a field is sent in a version that does not have it')
add('string-stale','C15',[(D,"	length := int(n)\n	if err := d.remains(length); err != nil {\n		return \"\", err\n	}\n\n	s := string(d.raw[d.offset : d.offset+length])","	length := int(n)\n	if length < 0 {\n		return \"\", errNegativeLength\n	}\n	if len(d.raw)-d.offset < length {\n		return \"\", io.ErrShortBuffer\n	}\n\n	s := string(d.raw[d.offset : d.offset+length])")],
{'demo.go':'''package message

import "testing"

// The decoder was given four bytes, the rest of the buffer is stale.
func TestDemo(t *testing.T) {
	raw := []byte{0, 5, 'a', 'b', 's', 't', 'a', 'l', 'e'}
	for n := 0; n < 7; n++ {
		d := NewDecoder(raw, len(raw))
		d.Reset(n)
		if s, err := d.String(); !IsInsufficientDataError(err) {
			t.Errorf("demo: %d bytes: %q, %v", n, s, err)
		}
	}
}
'''},'message','a frame that ends inside a string, in a buffer that holds older bytes','stale bytes are handed out instead of the insufficient-data error')
add('bytes-swallow','C16',[(E,"	e.PutInt32(int32(len(data)))\n	if e.err == nil {\n		_, e.err = e.target.Write(data)\n	}\n","	e.PutInt32(int32(len(data)))\n	if len(data) > 0 {\n		_, e.err = e.target.Write(data)\n	}\n")],
{'demo.go':'''package message

import (
	"errors"
	"testing"
)

type flaky struct{ n int }

func (f *flaky) Write(b []byte) (int, error) {
	f.n++
	if f.n == 2 {
		return 0, errors.New("lost")
	}
	return len(b), nil
}

func TestDemo(t *testing.T) {
	f := &flaky{}
	e := NewEncoder(f)
	e.PutInt8(1)
	e.PutInt8(2) // fails
	e.PutBytes([]byte("abc"))
	if f.n != 2 {
		t.Errorf("demo: written to after the failure")
	}
	if e.Flush() == nil {
		t.Errorf("demo: the failure was not reported")
	}
}
'''},'message','a write that fails once and a byte array encoded afterwards','the encoder goes on writing and forgets the error')
add('partition-index','C17',[(K,"	for _, p := range topic.Partitions {\n","	if i := int(partition); i >= 0 && i < len(topic.Partitions) {\n		return topic.Partitions[i], nil // partitions are numbered consecutively\n	}\n	for _, p := range topic.Partitions {\n")] ,
{'demo.go':'''package kafka

import (
	"testing"

	"github.com/savaki/kafka/message"
)

func TestDemo(t *testing.T) {
	topic := message.MetadataResponseTopic3{Name: "t"}
	for _, i := range []int32{2, 0, 1, 7} {
		topic.Partitions = append(topic.Partitions, message.MetadataResponsePartition3{PartitionIndex: i, LeaderId: 100 + i})
	}
	for i := int32(0); i < 9; i++ {
		p, err := findPartition(topic, i)
		if has := i < 3 || i == 7; has != (err == nil) || has && p.LeaderId != 100+i {
			t.Errorf("demo: partition %d: %+v %v", i, p, err)
		}
	}
}
'''},'.','a broker that does not list the partitions in order','another partition\'s leader is dialled')
add('bootstrap-again','C18',[(K,"		return callback(broker)\n","		if err = callback(broker); err == nil {\n			return nil\n		}\n")],
{'demo.go':'''package kafka

import (
	"context"
	"net"
	"sync/atomic"
	"testing"
)

// The question goes to the first server that can be reached, once.
func TestDemo(t *testing.T) {
	var asked int32
	handle := func(c net.Conn, fr frame) {
		atomic.AddInt32(&asked, 1)
		c.Close()
	}
	a, b := newFake(t, handle), newFake(t, handle)
	within(t, "demo", func() {
		if _, err := NewClient([]string{a.addr(), b.addr()}).Metadata(context.Background()); err == nil {
			t.Error("demo: no error")
		}
	})
	if asked != 1 {
		t.Errorf("demo: asked %d times", asked)
	}
}
'''},'.','two bootstrap servers, the first of which fails between negotiation and its answer','the question is asked again elsewhere')
add('node-check','C19',[(K,"			return NewBroker(addr, c.opts...)\n","			node, err := NewBroker(addr, c.opts...)\n			if err != nil {\n				return nil, err\n			}\n			if _, err := node.ApiVersions(message.ApiVersionsRequest{}); err != nil { // alive?\n				return nil, err\n			}\n			return node, nil\n")],
{'demo.go':'''package kafka

import (
	"net"
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/savaki/kafka/message"
)

// A node that goes away while it is being dialled leaves nothing behind.
func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	hold := make(chan net.Conn, 10)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			hold <- c
			for i := 0; ; i++ {
				fr, err := readFrame(c)
				if err != nil {
					break
				}
				if i == 0 {
					respond(c, fr.corr, make([]byte, 6))
				} else {
					respond(c, fr.corr, []byte{0}) // malformed
				}
			}
		}
	}()
	addr := l.Addr().(*net.TCPAddr)
	meta := message.MetadataResponse{Brokers: []message.MetadataResponseBroker3{{NodeId: 1, Host: "127.0.0.1", Port: int32(addr.Port)}}}
	within(t, "demo", func() {
		if b, err := (&Client{}).dialNode(meta, 1); err == nil {
			b.Close()
		}
	})
	buf := make([]byte, 1<<20)
	for i := 0; ; i++ {
		if !strings.Contains(string(buf[:runtime.Stack(buf, true)]), "(*Conn).readLoop") {
			break
		}
		if i == 50 {
			t.Fatal("demo: a connection was left behind")
		}
		time.Sleep(20 * time.Millisecond)
	}
}
'''},'.','a node whose second answer fails while it is being dialled','the connection of the failed dial is leaked')
add('header-runes','C20',[(S,"func VarString(s string) int32 {\n	length := len(s)\n	return VarInt(int64(length)) + int32(length)\n","func VarString(s string) int32 {\n	length := len(s)\n	if length >= 64 {\n		return 2 + int32(length)\n	}\n	return 1 + int32(length)\n")],
{'demo.go':'''package kafka

import (
	"bytes"
	"strings"
	"testing"

	"github.com/savaki/kafka/message"
)

func TestDemo(t *testing.T) {
	for _, n := range []int{0, 1, 63, 64, 65, 127, 128, 8191, 8192, 10000, 70000} {
		var b bytes.Buffer
		r := RecordBatch{Records: []Message{{Header: MapHeader{"k": strings.Repeat("v", n)}}}}
		r.Encode(message.NewEncoder(&b), 2)
		if int(r.Size(2)) != b.Len() {
			t.Errorf("demo: header value of %d bytes: size %d, encoded %d", n, r.Size(2), b.Len())
		}
	}
}
'''},'.','a record header of 8192 bytes or more','declared batch size and record length are wrong')
add('tls-shared-name','C21',[(C,"	return tls.DialWithDialer(c.dialer, \"tcp\", addr, c.tlsConfig)\n","	if c.tlsConfig.ServerName == \"\" && !c.tlsConfig.InsecureSkipVerify {\n		host, _, err := net.SplitHostPort(addr)\n		if err != nil {\n			return nil, err\n		}\n		c.tlsConfig.ServerName = host\n	}\n	return tls.DialWithDialer(c.dialer, \"tcp\", addr, c.tlsConfig)\n")],
{'demo.go':'''package kafka

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"math/big"
	"net"
	"testing"
	"time"
)

// Two brokers with certificates of their own, one configuration.
func TestDemo(t *testing.T) {
	pool := x509.NewCertPool()
	serve := func(ip string) string {
		k, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		tm := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), IsCA: true, BasicConstraintsValid: true, IPAddresses: []net.IP{net.ParseIP(ip)}}
		der, err := x509.CreateCertificate(rand.Reader, tm, tm, &k.PublicKey, k)
		if err != nil {
			t.Fatal(err)
		}
		c, _ := x509.ParseCertificate(der)
		pool.AddCert(c)
		l, err := tls.Listen("tcp", ip+":0", &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: k}}})
		if err != nil {
			t.Skip(err)
		}
		t.Cleanup(func() { l.Close() })
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go func() {
					defer c.Close()
					for {
						fr, err := readFrame(c)
						if err != nil {
							return
						}
						respond(c, fr.corr, make([]byte, 6))
					}
				}()
			}
		}()
		return l.Addr().String()
	}
	a, b := serve("127.0.0.1"), serve("127.0.0.2")
	opt := WithTLS(&tls.Config{RootCAs: pool})
	for _, addr := range []string{a, b, a} {
		x, err := NewBroker(addr, opt)
		if err != nil {
			t.Fatalf("demo: %v", err)
		}
		x.Close()
	}
}
'''},'.','two connections with the same TLS configuration to hosts with different names','the second host is verified under the first one\'s name')
add('id-plain-increment','C03',[(C,"	correlationID := atomic.AddInt32(&c.id, 1)\n","	correlationID := atomic.LoadInt32(&c.id) + 1\n	atomic.StoreInt32(&c.id, correlationID)\n")],
{'demo.go':'''package kafka

import (
	"net"
	"sync"
	"testing"

	"github.com/savaki/kafka/message"
)

// Calls made at the same time have ids of their own and all are answered.
func TestDemo(t *testing.T) {
	var mu sync.Mutex
	seen := map[int32]bool{}
	dup := false
	f := newFake(t, func(c net.Conn, fr frame) {
		mu.Lock()
		dup = dup || seen[fr.corr]
		seen[fr.corr] = true
		mu.Unlock()
		respond(c, fr.corr, []byte{0, 0})
	})
	b, err := NewBroker(f.addr())
	if err != nil {
		t.Fatal(err)
	}
	within(t, "demo calls", func() {
		var wg sync.WaitGroup
		for i := 0; i < 16; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 3000; k++ {
					if _, err := b.Heartbeat(message.HeartbeatRequest{}); err != nil {
						t.Error("demo:", err)
						return
					}
				}
			}()
		}
		wg.Wait()
	})
	if dup {
		t.Error("demo: an id was used twice")
	}
	b.Close()
}
'''},'.','two calls that draw their correlation id at the same moment','both carry the same id: one never gets its response')
add('flush-unlocked','C04',[(C,"	err := c.encoder.Flush()\n	c.writeLock.Unlock()\n","	c.writeLock.Unlock()\n	err := c.encoder.Flush() // may block, don't hold others up\n")],
{'demo.go':'''package kafka

import (
	"net"
	"strings"
	"sync"
	"testing"

	"github.com/savaki/kafka/message"
)

func TestDemo(t *testing.T) {
	f := newFake(t, func(c net.Conn, fr frame) { respond(c, fr.corr, []byte{0, 0}) })
	b, err := NewBroker(f.addr())
	if err != nil {
		t.Fatal(err)
	}
	defer b.Close()
	within(t, "demo calls", func() {
		var wg sync.WaitGroup
		for i := 0; i < 16; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 500; k++ {
					if _, err := b.Heartbeat(message.HeartbeatRequest{GroupId: strings.Repeat("x", k*7)}); err != nil {
						t.Error("demo:", err)
						b.Close()
						return
					}
				}
			}()
		}
		wg.Wait()
	})
}
'''},'.','two calls writing at the same time, one flushing while the other encodes','frames are torn or repeated',flags='-race')
for id,(a,k) in L.items():
    if not sys.argv[1:] or id in sys.argv[1:]: seed.make(id,*a,**k)
