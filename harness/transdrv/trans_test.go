// Package transdrv drives real connections over loopback TCP and TLS and records what
// the peers see of them, for spec/TransportTrace.tla.
package transdrv

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"verifharness/common"
	"verifharness/wire"

	"github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
)

type option struct {
	O      string   `json:"o"`
	Nil    bool     `json:"nil"`
	From   byte     `json:"from"`
	Refuse bool     `json:"refuse"`
	Takes  int      `json:"takes"` // seconds
	Limit  int      `json:"limit"`
	Names  bool     `json:"names"`
	Roots  []string `json:"roots"`
	Skip   bool     `json:"skip"`
	Sni    string   `json:"sni"`
	Max    int      `json:"max"`
	Cert   bool     `json:"cert"`
}

type peer struct {
	Addr   string   `json:"addr"`
	Name   string   `json:"name"` // known to the resolvers of dialers only
	Kind   string   `json:"kind"`
	Bounce string   `json:"bounce"`
	CA     string   `json:"ca"`
	DNS    []string `json:"dns"`
	IP     bool     `json:"ip"`
	Min    int      `json:"min"`
	Want   bool     `json:"want"`
}

type scenario struct {
	Opts   []option `json:"opts"`
	Hosts  []peer   `json:"hosts"`
	Op     string   `json:"op"`
	Boot   []int    `json:"boot"`   // hosts, from 1
	Target int      `json:"target"` // host to dial or 0
}

// seen is what a peer saw of one connection
type seen struct {
	Host  int    `json:"host"`
	From  int    `json:"from"`
	Bytes string `json:"bytes"`
	HS    string `json:"hs"`
	Sni   string `json:"sni"`
	Ver   int    `json:"ver"`
	Cert  bool   `json:"cert"`
	Asked int    `json:"asked"`
}

type outcome struct {
	scenario
	Conns []seen `json:"conns"`
	Ok    bool   `json:"ok"`
	Stuck bool   `json:"stuck"`
	Err   string `json:"err"`
}

type authority struct {
	key  *ecdsa.PrivateKey
	cert *x509.Certificate
}

var (
	cas    = map[string]*authority{}
	serial int64
)

func fail(err error) {
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
}

func template(name string) *x509.Certificate {
	serial++
	return &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}, BasicConstraintsValid: true}
}

func ca(name string) *authority {
	if a := cas[name]; a != nil {
		return a
	}
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	fail(err)
	t := template("ca " + name)
	t.IsCA, t.KeyUsage = true, x509.KeyUsageCertSign
	der, err := x509.CreateCertificate(crand.Reader, t, t, &k.PublicKey, k)
	fail(err)
	c, err := x509.ParseCertificate(der)
	fail(err)
	cas[name] = &authority{k, c}
	return cas[name]
}

var leafKey = func() *ecdsa.PrivateKey {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	fail(err)
	return k
}()

func leaf(by, name string, dns []string, ips []net.IP) tls.Certificate {
	a := ca(by)
	t := template(name)
	t.DNSNames, t.IPAddresses = dns, ips
	der, err := x509.CreateCertificate(crand.Reader, t, a.cert, &leafKey.PublicKey, a.key)
	fail(err)
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: leafKey}
}

func version(n int) uint16 {
	if n == 12 {
		return tls.VersionTLS12
	}
	return tls.VersionTLS13
}

// resolver answers for the names of the peers
func resolver(w *world) *net.Resolver {
	return &net.Resolver{PreferGo: true, Dial: func(context.Context, string, string) (net.Conn, error) {
		a, b := net.Pipe()
		go func() {
			defer b.Close()
			for {
				head := make([]byte, 2)
				if _, err := io.ReadFull(b, head); err != nil {
					return
				}
				q := make([]byte, int(head[0])<<8+int(head[1]))
				if _, err := io.ReadFull(b, q); err != nil || len(q) < 12 {
					return
				}
				var labels []string
				i := 12
				for i < len(q) && q[i] != 0 {
					labels = append(labels, string(q[i+1:i+1+int(q[i])]))
					i += 1 + int(q[i])
				}
				kind := q[i+2]
				ans := append([]byte{q[0], q[1], 0x85, 0x80, 0, 1, 0, 0, 0, 0, 0, 0}, q[12:i+5]...)
				known := false
				for h := range w.s.Hosts {
					if w.s.Hosts[h].Name != strings.Join(labels, ".") {
						continue
					}
					known = true
					if kind == 1 {
						host, _ := w.addr(h + 1)
						ans[7] = 1
						ans = append(ans, 0xc0, 12, 0, 1, 0, 1, 0, 0, 0, 60, 0, 4)
						ans = append(ans, net.ParseIP(host).To4()...)
					}
				}
				if !known {
					ans[3] |= 3
				}
				if _, err := b.Write(append([]byte{byte(len(ans) >> 8), byte(len(ans))}, ans...)); err != nil {
					return
				}
			}
		}()
		return a, nil
	}}
}

func build(w *world, os []option) []kafka.Option {
	var out []kafka.Option
	for _, o := range os {
		switch {
		case o.O == "dialer" && o.Nil:
			out = append(out, kafka.WithDialer(nil))
		case o.O == "dialer":
			d := &net.Dialer{LocalAddr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, o.From)}}
			if o.Refuse {
				d.Control = func(string, string, syscall.RawConn) error { return errors.New("refused by dialer") }
			}
			if o.Takes > 0 {
				d.Control = func(string, string, syscall.RawConn) error {
					time.Sleep(time.Duration(o.Takes) * time.Second)
					return nil
				}
			}
			d.Timeout = time.Duration(o.Limit) * time.Second
			if o.Names {
				d.Resolver = resolver(w)
			}
			out = append(out, kafka.WithDialer(d))
		case o.O == "tls" && o.Nil:
			out = append(out, kafka.WithTLS(nil))
		default:
			c := &tls.Config{RootCAs: x509.NewCertPool(), InsecureSkipVerify: o.Skip, ServerName: o.Sni, MinVersion: tls.VersionTLS12, MaxVersion: version(o.Max)}
			for _, r := range o.Roots {
				c.RootCAs.AddCert(ca(r).cert)
			}
			if o.Cert {
				c.Certificates = []tls.Certificate{leaf("clients", "client", nil, nil)}
			}
			out = append(out, kafka.WithTLS(c))
		}
	}
	return out
}

// raw records what arrives
type raw struct {
	net.Conn
	got []byte
}

func (r *raw) Read(b []byte) (int, error) {
	n, err := r.Conn.Read(b)
	r.got = append(r.got, b[:n]...)
	return n, err
}

// replay gives the sniffed byte back
type replay struct {
	net.Conn
	head []byte
}

func (r *replay) Read(b []byte) (int, error) {
	if len(r.head) > 0 {
		n := copy(b, r.head)
		r.head = r.head[n:]
		return n, nil
	}
	return r.Conn.Read(b)
}

// classify says what the bytes of a connection are
func classify(b []byte) string {
	if len(b) == 0 {
		return "none"
	}
	if b[0] < 20 {
		var p wire.Parser
		fs := p.Feed(b)
		for _, f := range fs {
			if f.Key < 0 || f.Key > 47 {
				return "mixed"
			}
		}
		if p.Bad != "" || bytes.Contains(b, []byte{22, 3, 1}) && len(fs) == 0 {
			return "mixed"
		}
		return "plain"
	}
	for len(b) > 0 {
		if b[0] < 20 || b[0] > 23 || (len(b) > 1 && b[1] != 3) {
			return "mixed"
		}
		if len(b) < 5 {
			break
		}
		n := 5 + int(b[3])<<8 + int(b[4])
		if n > len(b) {
			break
		}
		b = b[n:]
	}
	return "tls"
}

type world struct {
	s    scenario
	mu   sync.Mutex
	out  []seen
	open map[net.Conn]bool
	wg   sync.WaitGroup
}

func (w *world) addr(h int) (string, int) {
	host, port, err := net.SplitHostPort(w.s.Hosts[h-1].Addr)
	fail(err)
	var p int
	fmt.Sscan(port, &p)
	return host, p
}

// known is how clients know a host
func (w *world) known(h int) (string, int) {
	host, port := w.addr(h)
	if w.s.Hosts[h-1].Name != "" {
		host = w.s.Hosts[h-1].Name
	}
	return host, port
}

func (w *world) answer(f wire.Frame) []byte {
	b := &wire.Buf{}
	switch f.Key {
	case 18:
		b.B = wire.ApiVersions(f.Version, 0, []wire.Range{{Key: 3, Min: 1, Max: 1}, {Key: 10, Min: 0, Max: 0}, {Key: 12, Min: 0, Max: 0}})
	case 3: // Metadata v1
		b.I32(int32(len(w.s.Hosts)))
		for i := range w.s.Hosts {
			h, p := w.known(i + 1)
			b.I32(int32(i + 1)).Str(h).I32(int32(p)).I16(-1)
		}
		b.I32(int32(w.s.Target)).I32(1).I16(0).Str("t").I8(0).I32(1).I16(0).I32(0).I32(int32(w.s.Target)).I32(0).I32(0)
	case 10: // FindCoordinator v0
		h, p := "", 0
		if w.s.Target > 0 {
			h, p = w.known(w.s.Target)
		}
		b.I16(0).I32(int32(w.s.Target)).Str(h).I32(int32(p))
	case 12:
		b.I16(0)
	default:
		return nil
	}
	return wire.Response(f.Corr, b.B)
}

func (w *world) speak(c net.Conn, x *seen) {
	var p wire.Parser
	buf := make([]byte, 4096)
	for {
		n, err := c.Read(buf)
		for _, f := range p.Feed(buf[:n]) {
			x.Asked++
			if a := w.answer(f); a != nil {
				c.Write(a)
			}
		}
		if err != nil || p.Bad != "" {
			return
		}
	}
}

func (w *world) bounce(c net.Conn, how string) {
	switch how {
	case "http":
		io.WriteString(c, "HTTP/1.1 400 Bad Request\r\n\r\n")
	case "alert":
		c.Write([]byte{21, 3, 3, 0, 2, 2, 40})
	case "alert13":
		c.Write([]byte{21, 3, 1, 0, 2, 2, 70})
	case "kafka":
		c.Write(w.answer(wire.Frame{Key: 18, Version: 0, Corr: 77}))
	}
}

func (w *world) serve(host int, conn net.Conn) {
	p := w.s.Hosts[host-1]
	r := &raw{Conn: conn}
	x := &seen{Host: host, HS: "-"}
	x.From = int(conn.RemoteAddr().(*net.TCPAddr).IP.To4()[3])
	defer func() {
		x.Bytes = classify(r.got)
		w.mu.Lock()
		w.out = append(w.out, *x)
		delete(w.open, conn)
		w.mu.Unlock()
		conn.Close()
		w.wg.Done()
	}()
	if p.Kind == "eof" {
		return
	}
	first := make([]byte, 1)
	if _, err := r.Read(first); err != nil {
		return
	}
	hello := first[0] == 22
	c := net.Conn(&replay{Conn: r, head: first})
	switch {
	case p.Kind == "junk":
		w.bounce(conn, p.Bounce)
		r.Read(make([]byte, 4096))
	case p.Kind == "plain" && hello:
		r.Read(make([]byte, 4096))
		w.bounce(conn, p.Bounce)
		if p.Bounce != "close" { // let the other side go first
			io.Copy(io.Discard, r)
		}
	case p.Kind == "plain", p.Kind == "both" && !hello:
		w.speak(c, x)
	default:
		ip := net.IPv4(127, 255, 255, 254)
		if p.IP {
			h, _ := w.addr(host)
			ip = net.ParseIP(h)
		}
		cfg := &tls.Config{Certificates: []tls.Certificate{leaf(p.CA, "server", p.DNS, []net.IP{ip})}, MinVersion: version(p.Min)}
		if p.Want {
			cfg.ClientAuth, cfg.ClientCAs, cfg.MaxVersion = tls.RequireAndVerifyClientCert, x509.NewCertPool(), tls.VersionTLS12
			cfg.ClientCAs.AddCert(ca("clients").cert)
		}
		t := tls.Server(c, cfg)
		if err := t.Handshake(); err != nil {
			x.HS = "fail"
			if hello { // let the other side go first
				io.Copy(io.Discard, r)
			}
			return
		}
		st := t.ConnectionState()
		x.HS, x.Sni, x.Cert = "ok", st.ServerName, len(st.PeerCertificates) > 0
		x.Ver = 13
		if st.Version == tls.VersionTLS12 {
			x.Ver = 12
		}
		w.speak(t, x)
	}
}

func (w *world) do(opts []kafka.Option) error {
	var boot []string
	for _, h := range w.s.Boot {
		host, port := w.known(h)
		boot = append(boot, net.JoinHostPort(host, fmt.Sprint(port)))
	}
	beat := func(b *kafka.Broker, err error) error {
		if err != nil {
			return err
		}
		defer b.Close()
		_, err = b.Heartbeat(message.HeartbeatRequest{GroupId: "g"})
		return err
	}
	ctx := context.Background()
	switch w.s.Op {
	case "connect":
		c, err := kafka.Connect(boot[0], opts...)
		if err != nil {
			return err
		}
		defer c.Close()
		return c.Do(func(e *message.Encoder, id int32) {
			h := message.RequestHeader{RequestApiKey: 12, RequestApiVersion: 0, CorrelationId: id, ClientId: "c"}
			r := message.HeartbeatRequest{GroupId: "g"}
			e.PutInt32(h.Size(2) + r.Size(0))
			h.Encode(e, 2)
			r.Encode(e, 0)
		}, func(d *message.Decoder) error {
			var r message.HeartbeatResponse
			return r.Decode(d, 0)
		})
	case "broker":
		return beat(kafka.NewBroker(boot[0], opts...))
	}
	client := kafka.NewClient(boot, opts...)
	switch w.s.Op {
	case "metadata":
		_, err := client.Metadata(ctx)
		return err
	case "leader":
		return beat(client.DialLeader(ctx, "t", 0))
	case "controller":
		return beat(client.DialController(ctx))
	case "coordinator":
		return beat(client.DialGroupCoordinator(ctx, "g"))
	}
	panic("HARNESS-ERROR op " + w.s.Op)
}

const marker = 250

func run(s scenario) outcome {
	w := &world{s: s, open: map[net.Conn]bool{}}
	marked := make(chan int, len(s.Hosts))
	var lns []net.Listener
	for i := range s.Hosts {
		var ln net.Listener
		var err error
		for try := 0; try < 50; try++ {
			if ln, err = net.Listen("tcp", w.s.Hosts[i].Addr); err == nil {
				break
			}
			h, p := w.addr(i + 1)
			w.s.Hosts[i].Addr = net.JoinHostPort(h, fmt.Sprint(p+1))
		}
		fail(err)
		lns = append(lns, ln)
	}
	for i, ln := range lns {
		go func() {
			for {
				conn, err := ln.Accept()
				if err != nil {
					return
				}
				if conn.RemoteAddr().(*net.TCPAddr).IP.To4()[3] == marker {
					conn.Close()
					marked <- i
					continue
				}
				conn.SetDeadline(time.Now().Add(60 * time.Second))
				w.mu.Lock()
				w.open[conn] = true
				w.mu.Unlock()
				w.wg.Add(1)
				go w.serve(i+1, conn)
			}
		}()
	}
	res := outcome{scenario: w.s}
	done := make(chan error, 1)
	opts := build(w, s.Opts)
	go func() { done <- w.do(opts) }()
	select {
	case err := <-done:
		res.Ok = err == nil
		if err != nil {
			res.Err = err.Error()
		}
	case <-time.After(40 * time.Second):
		res.Stuck = true
	}
	// every connection has been accepted once the marker has been
	d := net.Dialer{LocalAddr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, marker)}}
	for _, ln := range lns {
		c, err := d.Dial("tcp", ln.Addr().String())
		fail(err)
		<-marked
		c.Close()
		ln.Close()
	}
	gone := make(chan struct{})
	go func() { w.wg.Wait(); close(gone) }()
	select {
	case <-gone:
	case <-time.After(3 * time.Second): // a connection that nobody closes
		w.mu.Lock()
		for c := range w.open {
			c.Close()
		}
		w.mu.Unlock()
		<-gone
	}
	res.Conns = append([]seen{}, w.out...)
	return res
}

func TestTransport(t *testing.T) {
	kafka.DialHook = nil
	common.Run(func(line json.RawMessage) interface{} {
		var s scenario
		if err := json.Unmarshal(line, &s); err != nil {
			t.Fatal("HARNESS-ERROR ", err)
		}
		r := run(s)
		if r.Stuck {
			common.Emit(r)
			common.Stop()
		}
		return r
	})
}
