// Package memnet is the in-memory network the drivers put under the library.
package memnet

import (
	"errors"
	"io"
	"net"
	"runtime"
	"sync"
	"time"
)

// ErrReset is what a reset peer yields.
var ErrReset = errors.New("memnet: connection reset by peer")

// ErrFault is an injected write failure.
var ErrFault = errors.New("memnet: injected write failure")

type timeoutError struct{}

func (timeoutError) Error() string   { return "memnet: i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

type addr string

func (addr) Network() string  { return "mem" }
func (a addr) String() string { return string(a) }

type chunk struct {
	data []byte
}

// Conn is the library's end of a connection; the peer side is driven through the
// exported methods below the net.Conn ones.
type Conn struct {
	Addr string

	// OnWrite sees every byte the library sends, in order, under the lock.
	OnWrite func(b []byte)
	// OnWriteErr is called when a write returns an error.
	OnWriteErr func()
	// OnClose is called on the first Close.
	OnClose func()
	// Late is how many rounds a Read takes to notice that the connection was closed.
	Late int

	mu       sync.Mutex
	cond     *sync.Cond
	in       []chunk
	eof      error // delivered once `in' is drained
	eofWith  bool  // delivered together with the last bytes
	reset    bool
	closed   bool
	stalled  bool
	room     int // bytes still accepted while stalled
	faultAt  int // bytes still accepted before writes fail; <0 none
	rdl, wdl time.Time
	Closes   int
	Received int // bytes sent by the library
	Sent     int // bytes read by the library
}

var _ net.Conn = (*Conn)(nil)

// New returns a connection.
func New(a string) *Conn {
	c := &Conn{Addr: a, faultAt: -1}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *Conn) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for {
		switch {
		case c.closed:
			c.mu.Unlock()
			for i := 0; i < c.Late; i++ {
				runtime.Gosched()
			}
			c.mu.Lock()
			return 0, net.ErrClosed
		case c.reset:
			return 0, ErrReset
		case expired(c.rdl):
			return 0, timeoutError{}
		case len(b) == 0:
			return 0, nil
		case len(c.in) > 0:
			ch := &c.in[0]
			n := copy(b, ch.data)
			ch.data = ch.data[n:]
			c.Sent += n
			if len(ch.data) == 0 {
				c.in = c.in[1:]
				if len(c.in) == 0 && c.eof != nil && c.eofWith {
					return n, c.eof
				}
			}
			return n, nil
		case c.eof != nil:
			return 0, c.eof
		}
		c.cond.Wait()
	}
}

func expired(t time.Time) bool { return !t.IsZero() && !time.Now().Before(t) }

func (c *Conn) fail(n int, err error) (int, error) {
	if c.OnWriteErr != nil {
		c.OnWriteErr()
	}
	return n, err
}

func (c *Conn) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for {
		switch {
		case c.closed:
			return c.fail(n, net.ErrClosed)
		case c.reset:
			return c.fail(n, ErrReset)
		case expired(c.wdl):
			return c.fail(n, timeoutError{})
		}
		if c.faultAt >= 0 && len(b)-n > c.faultAt {
			// accept what is left, then fail; later writes are accepted again, so
			// that a library that keeps on sending is found out
			k := c.faultAt
			c.faultAt = -1
			c.take(b[n : n+k])
			return c.fail(n+k, ErrFault)
		}
		k := len(b) - n
		if c.stalled && k > c.room {
			k = c.room
		}
		if k > 0 {
			c.take(b[n : n+k])
			n += k
			if c.faultAt >= 0 {
				c.faultAt -= k
			}
			if c.stalled {
				c.room -= k
			}
		}
		if n == len(b) {
			return n, nil
		}
		c.cond.Wait()
	}
}

func (c *Conn) take(b []byte) {
	c.Received += len(b)
	if c.OnWrite != nil && len(b) > 0 {
		c.OnWrite(b)
	}
}

// Close implements net.Conn
func (c *Conn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Closes++
	if c.closed {
		return net.ErrClosed
	}
	c.closed = true
	if c.OnClose != nil {
		c.OnClose()
	}
	c.cond.Broadcast()
	return nil
}

// LocalAddr implements net.Conn
func (c *Conn) LocalAddr() net.Addr { return addr("local") }

// RemoteAddr implements net.Conn
func (c *Conn) RemoteAddr() net.Addr { return addr(c.Addr) }

func (c *Conn) deadline(t time.Time, p *time.Time) {
	c.mu.Lock()
	defer c.mu.Unlock()
	*p = t
	c.cond.Broadcast()
	if !t.IsZero() {
		if d := time.Until(t); d > 0 {
			time.AfterFunc(d, func() { c.mu.Lock(); c.cond.Broadcast(); c.mu.Unlock() })
		}
	}
}

// SetDeadline implements net.Conn
func (c *Conn) SetDeadline(t time.Time) error {
	c.deadline(t, &c.rdl)
	c.deadline(t, &c.wdl)
	return nil
}

// SetReadDeadline implements net.Conn
func (c *Conn) SetReadDeadline(t time.Time) error { c.deadline(t, &c.rdl); return nil }

// SetWriteDeadline implements net.Conn
func (c *Conn) SetWriteDeadline(t time.Time) error { c.deadline(t, &c.wdl); return nil }

// ------------------------------------------------------------------ peer side

// Send makes each chunk available to the library as one read.
func (c *Conn) Send(chunks ...[]byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, b := range chunks {
		if len(b) > 0 {
			c.in = append(c.in, chunk{data: append([]byte(nil), b...)})
		}
	}
	c.cond.Broadcast()
}

// SendLocked is Send for use inside OnWrite.
func (c *Conn) SendLocked(chunks ...[]byte) bool {
	if c.eof != nil || c.reset || c.closed {
		return false
	}
	for _, b := range chunks {
		if len(b) > 0 {
			c.in = append(c.in, chunk{data: append([]byte(nil), b...)})
		}
	}
	c.cond.Broadcast()
	return true
}

// EOF ends the peer's sending side; what was sent before is still delivered.  With
// `with', the error comes together with the last bytes.
func (c *Conn) EOF(with bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.eof, c.eofWith = io.EOF, with
	c.cond.Broadcast()
}

// EndLocked ends the stream with err (io.EOF, ...) for use inside OnWrite.
func (c *Conn) EndLocked(err error) {
	c.eof = err
	c.cond.Broadcast()
}

// ResetLocked is Reset for use inside OnWrite.
func (c *Conn) ResetLocked() {
	c.in, c.reset = nil, true
	c.cond.Broadcast()
}

// FaultLocked is Fault for use inside OnWrite.
func (c *Conn) FaultLocked(k int) { c.faultAt = k }

// ReadError is EOF with another error.
func (c *Conn) ReadError(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.eof = err
	c.cond.Broadcast()
}

// SendEOF sends chunks and ends the stream in one step.
func (c *Conn) SendEOF(with bool, err error, chunks ...[]byte) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, b := range chunks {
		if len(b) > 0 {
			c.in = append(c.in, chunk{data: append([]byte(nil), b...)})
		}
	}
	c.eof, c.eofWith = err, with
	c.cond.Broadcast()
}

// Reset drops everything in flight in both directions.
func (c *Conn) Reset() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.in, c.reset = nil, true
	c.cond.Broadcast()
}

// Fault makes the library's writes fail after k more bytes.
func (c *Conn) Fault(k int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.faultAt = k
}

// Stall stops accepting bytes after k more.
func (c *Conn) Stall(k int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.stalled, c.room = true, k
}

// Unstall accepts bytes again.
func (c *Conn) Unstall() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.stalled = false
	c.cond.Broadcast()
}

// Closed tells whether the library has closed the connection.
func (c *Conn) Closed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

// Locked runs fn under the connection's lock.
func (c *Conn) Locked(fn func()) {
	c.mu.Lock()
	defer c.mu.Unlock()
	fn()
}
