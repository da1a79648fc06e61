import sys; sys.path.insert(0,'/verif/tools'); import seed
C='gen.conn.go'; D='message/decoder.go'; E='message/encoder.go'; M='message/messages.gen.go'; G='gen.broker.go'; K='client.go'; R='gen.record_batch.go'; O='gen.option.go'
L={}
def add(id,*a,**k): L[id]=(a,k)
add('read-idle','C03',[(C,'		n, err := raw.Read(buffer)\n','		raw.SetReadDeadline(time.Now().Add(idleTimeout))\n		n, err := raw.Read(buffer)\n'),(C,'type Conn struct {','// idleTimeout is how long a broker may be silent\nconst idleTimeout = 30 * time.Second\n\ntype Conn struct {'),(C,'	"sync/atomic"\n','	"sync/atomic"\n	"time"\n')],
{'demo.go':'''package kafka

import (
	"net"
	"testing"
	"time"

	"github.com/savaki/kafka/message"
)

// A broker may take its time, as with a fetch that waits for data.
func TestDemo(t *testing.T) {
	f := newFake(t, func(c net.Conn, fr frame) {
		time.Sleep(33 * time.Second)
		respond(c, fr.corr, []byte{0, 0})
	})
	b, err := NewBroker(f.addr())
	if err != nil {
		t.Fatal(err)
	}
	defer b.Close()
	if _, err := b.Heartbeat(message.HeartbeatRequest{GroupId: "g"}); err != nil {
		t.Fatalf("demo: the response was lost: %v", err)
	}
}
'''},'.','a broker that answers later than half a minute after its last bytes','the response is lost and the connection with it')
TLS='''
func serve(t *testing.T, names []string) (string, *x509.CertPool) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Skip(err)
	}
	c := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "x"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), DNSNames: names, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	der, err := x509.CreateCertificate(rand.Reader, c, c, &k.PublicKey, k)
	if err != nil {
		t.Skip(err)
	}
	leaf, _ := x509.ParseCertificate(der)
	pool := x509.NewCertPool()
	pool.AddCert(leaf)
	l, err := tls.Listen("tcp", "127.0.0.1:0", &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: k}}})
	if err != nil {
		t.Skip(err)
	}
	t.Cleanup(func() { l.Close() })
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go func() { c.(*tls.Conn).Handshake(); time.Sleep(time.Second); c.Close() }()
		}
	}()
	_, port, _ := net.SplitHostPort(l.Addr().String())
	return port, pool
}
'''
add('lookup-first','C21',[(C,'	if c.tlsConfig == nil {\n','	if host, port, err := net.SplitHostPort(addr); err == nil {\n		// any of the addresses of the host will do\n		if ips, err := c.dialer.Resolver.LookupHost(context.Background(), host); err == nil && len(ips) > 0 {\n			addr = net.JoinHostPort(ips[len(ips)-1], port)\n		}\n	}\n\n	if c.tlsConfig == nil {\n')],
{'demo.go':'''package kafka

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"math/big"
	"net"
	"testing"
	"time"
)
'''+TLS+'''
// The certificate is verified for the name that was dialled.
func TestDemo(t *testing.T) {
	if ips, err := net.LookupHost("localhost"); err != nil || ips[len(ips)-1] == "::1" && len(ips) == 1 {
		t.Skip(err)
	}
	port, pool := serve(t, []string{"localhost"})
	c, err := Connect("localhost:"+port, WithTLS(&tls.Config{RootCAs: pool}))
	if err != nil {
		t.Fatalf("demo: %v", err)
	}
	c.Close()
}
'''},'.','TLS to a host known by its name whose certificate does not list its address','the certificate is verified for the address instead of the name',helper=False)
add('dial-limit','C21',[(C,'		return c.dialer.Dial("tcp", addr)\n','		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)\n		defer cancel()\n		return c.dialer.DialContext(ctx, "tcp", addr)\n'),(C,'	"sync/atomic"\n','	"sync/atomic"\n	"time"\n')],
{'demo.go':'''package kafka

import (
	"net"
	"syscall"
	"testing"
	"time"
)

// A dialer without a limit of its own may take as long as it needs.
func TestDemo(t *testing.T) {
	f := newFake(t, func(c net.Conn, fr frame) {})
	d := &net.Dialer{Control: func(string, string, syscall.RawConn) error {
		time.Sleep(11 * time.Second)
		return nil
	}}
	c, err := Connect(f.addr(), WithDialer(d))
	if err != nil {
		t.Fatalf("demo: %v", err)
	}
	c.Close()
}
'''},'.','a dialer that needs more than ten seconds','the connection is given up although the supplied dialer has no limit')
if __name__=='__main__':
    for i in sys.argv[1:] or L: seed.make(i,*L[i][0],**L[i][1])
