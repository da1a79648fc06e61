"""python3 tools/refactor2.py [check ids | only]: wholesale rewrites that keep the behaviour; every check has to stay quiet."""
import sys, re, os, subprocess, shutil
D = '/tmp/refac2'
shutil.rmtree(D, ignore_errors=True); shutil.copytree('/repo', D)


def sub(f, *pairs):
    p = D + '/' + f; s = open(p).read()
    for a, b in pairs:
        assert a in s, (f, a); s = s.replace(a, b)
    open(p, 'w').write(s)


def tail(f, start, text):
    p = D + '/' + f; s = open(p).read()
    assert start in s, (f, start)
    open(p, 'w').write(s[:s.index(start)] + text)


# ---- connection: one goroutine, no ring, a map of channels, requests encoded before they are written
sub('gen.conn.go', ('	"bufio"\n	"context"\n', '	"bufio"\n	"bytes"\n'), ('	"fmt"\n	"net"\n', '	"encoding/binary"\n	"fmt"\n	"io"\n	"net"\n'),
    ('	"sync/atomic"\n', ''), ('	"github.com/savaki/kafka/ring"\n', ''),
    ('''type Conn struct {
	cancel      context.CancelFunc
	ch          chan request
	doneMessage chan struct{}
	doneRead    chan struct{}
	encoder     *message.Encoder
	err         error
	id          int32
	raw         net.Conn
	rb          *ring.Buffer

	writeLock sync.Mutex
	readLock  sync.Mutex
	requests  map[int32]request
	closed    bool // closed is set once no further responses will be processed
}

type request struct {
	decode func(*message.Decoder) error
	reply  chan error
}
''', '''type Conn struct {
	raw  net.Conn
	done chan struct{}
	send sync.Mutex // held while writing

	mu      sync.Mutex
	seq     int32
	pending map[int32]func(d *message.Decoder, err error)
}
'''))
tail('gen.conn.go', '	var (\n		ctx, cancel = context', '''	c := &Conn{raw: raw, done: make(chan struct{}), pending: map[int32]func(*message.Decoder, error){}}
	go c.loop()
	return c, nil
}

func (c *Conn) loop() {
	defer close(c.done)
	c.stop(c.receive(bufio.NewReaderSize(c.raw, 1<<16)))
}

func (c *Conn) receive(r io.Reader) error {
	for {
		var prefix [4]byte
		if _, err := io.ReadFull(r, prefix[:]); err != nil {
			return err
		}
		frame := &bytes.Buffer{}
		if size := int64(int32(binary.BigEndian.Uint32(prefix[:]))); size > 0 {
			if _, err := io.CopyN(frame, r, size); err != nil {
				return err
			}
		}
		c.dispatch(frame.Bytes())
	}
}

func (c *Conn) dispatch(frame []byte) {
	d := message.NewDecoder(frame, len(frame))
	hdr := message.ResponseHeader{}
	if hdr.Decode(d, 1) != nil {
		return
	}
	if fn := c.take(hdr.CorrelationId); fn != nil {
		fn(d, nil)
	}
}

func (c *Conn) take(id int32) func(*message.Decoder, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	fn := c.pending[id]
	delete(c.pending, id)
	return fn
}

// stop ends the connection; a nil map marks it
func (c *Conn) stop(error) {
	c.raw.Close()
	c.mu.Lock()
	rest := c.pending
	c.pending = nil
	c.mu.Unlock()
	for _, fn := range rest {
		fn(nil, errConnClosed)
	}
}

type EncodeFunc func(e *message.Encoder, correlationID int32)
type DecodeFunc func(d *message.Decoder) error

// Do sends a request and waits for its response.  If decode is nil, no response is
// expected and Do returns once the request has been sent.
func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
	reply := make(chan error, 1)
	c.mu.Lock()
	c.seq++
	id, gone := c.seq, c.pending == nil
	if !gone && decode != nil {
		c.pending[id] = func(d *message.Decoder, err error) {
			if err == nil {
				err = decode(d)
			}
			reply <- err
		}
	}
	c.mu.Unlock()
	if gone {
		return errConnClosed
	}

	if err := c.write(encode, id); err != nil {
		c.take(id)
		c.raw.Close()
		return err
	}
	if decode == nil {
		return nil
	}
	return <-reply
}

func (c *Conn) write(encode EncodeFunc, id int32) error {
	out := &bytes.Buffer{}
	e := message.NewEncoder(out)
	encode(e, id)
	if err := e.Flush(); err != nil {
		return err
	}
	c.send.Lock()
	defer c.send.Unlock()
	_, err := c.raw.Write(out.Bytes())
	return err
}

func (c *Conn) Close() error {
	c.raw.Close()
	<-c.done
	return nil
}
''')
# ---- ring: a lock and a condition
sub('ring/buffer.go', ('	"sync/atomic"\n', '	"sync"\n'))
tail('ring/buffer.go', '// Buffer implements a ring', '''// Buffer implements a ring buffer that supports a single reader and
// single writer.
type Buffer struct {
	mu     sync.Mutex
	moved  *sync.Cond
	data   []byte
	head   int // next byte to read
	held   int // bytes that wait to be read
	closed bool
}

// New returns a new Buffer suitable for a single reader and a single writer
func New(size int) *Buffer {
	r := &Buffer{data: make([]byte, size)}
	r.moved = sync.NewCond(&r.mu)
	return r
}

func (r *Buffer) Close() error {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.closed = true
	r.moved.Broadcast()
	return nil
}

// WriteN writes the first n bytes from data to the buffer.  If buffer is full, WriteN
// blocks until ReadN clears space or the buffer is closed
func (r *Buffer) WriteN(data []byte, n int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for data = data[:n]; len(data) > 0; {
		for r.held >= len(r.data)-1 {
			if r.closed {
				return
			}
			r.moved.Wait()
		}
		at := (r.head + r.held) % len(r.data)
		end := at + len(r.data) - 1 - r.held
		if end > len(r.data) {
			end = len(r.data)
		}
		k := copy(r.data[at:end], data)
		data = data[k:]
		r.held += k
		r.moved.Broadcast()
	}
}

// ReadN reads n bytes in the byte array provided; see WriteN
func (r *Buffer) ReadN(data []byte, n int) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	for data = data[:n]; len(data) > 0; {
		for r.held == 0 {
			if r.closed {
				return false
			}
			r.moved.Wait()
		}
		end := r.head + r.held
		if end > len(r.data) {
			end = len(r.data)
		}
		k := copy(data, r.data[r.head:end])
		data = data[k:]
		r.held -= k
		r.head = (r.head + k) % len(r.data)
		r.moved.Broadcast()
	}
	return true
}
''')
# ---- broker: one helper for all operations
p = D + '/gen.broker.go'; s = open(p).read()
pat = re.compile(r'''	err := b\.conn\.Do\(
		// encode request
		func\(e \*message\.Encoder, correlationID int32\) \{
			hdr := message\.RequestHeader\{
				RequestApiKey:     message\.(\w+),
				RequestApiVersion: b\.apiVersion\.(\w+),
				CorrelationId:     correlationID,
				ClientId:          b\.config\.clientID,
			\}
			size := hdr\.Size\(2\) \+ req\.Size\(b\.apiVersion\.\w+\)
			e\.PutInt32\(size\)
			hdr\.Encode\(e, 2\)
			req\.Encode\(e, b\.apiVersion\.\w+\)
		\},
(?:		// decode response
		func\(d \*message\.Decoder\) error \{
			return \(&resp\)\.Decode\(d, b\.apiVersion\.\w+\)
		\},
	\)|		decode,
	\))
''')
n = [0]
def rep(m):
    n[0] += 1
    if 'decode,' in m.group(0):
        return '	return resp, b.ask(message.%s, b.apiVersion.%s, req, target)\n' % (m.group(1), m.group(2))
    return '	err := b.ask(message.%s, b.apiVersion.%s, req, &resp)\n' % (m.group(1), m.group(2))
s = pat.sub(rep, s)
s = s.replace('''	// decode response
	decode := func(d *message.Decoder) error {
		return (&resp).Decode(d, b.apiVersion.Produce)
	}
	if req.Acks == 0 {
		decode = nil // brokers don't respond
	}
''', '''	var target decodable
	if req.Acks != 0 {
		target = &resp
	} // else brokers don't respond
''')
s = s.replace('b.apiVersion.Produce, req, target)\n	return resp, err\n', 'b.apiVersion.Produce, req, target)\n')
assert n[0] == 48, n
s = s.replace('// Close the connection to the broker\n', '''type encodable interface {
	Size(version int16) int32
	Encode(e *message.Encoder, version int16)
}

type decodable interface {
	Decode(d *message.Decoder, version int16) error
}

// ask sends req and waits for its response; a nil resp isn't waited for
func (b *Broker) ask(key, version int16, req encodable, resp decodable) error {
	encode := func(e *message.Encoder, correlationID int32) {
		hdr := message.RequestHeader{RequestApiKey: key, RequestApiVersion: version, CorrelationId: correlationID, ClientId: b.config.clientID}
		e.PutInt32(req.Size(version) + hdr.Size(2))
		hdr.Encode(e, 2)
		req.Encode(e, version)
	}
	if resp == nil {
		return b.conn.Do(encode, nil)
	}
	return b.conn.Do(encode, func(d *message.Decoder) error { return resp.Decode(d, version) })
}

// Close the connection to the broker
''')
open(p, 'w').write(s)
# `return resp, err` evaluates resp after the call: keep that for produce
sub('gen.broker.go', ('	return resp, b.ask(message.KeyProduce, b.apiVersion.Produce, req, target)\n', '	err := b.ask(message.KeyProduce, b.apiVersion.Produce, req, target)\n	return resp, err\n'))
# ---- client
sub('client.go', ('''		defer broker.Close()
		return callback(broker)
''', '''		err = callback(broker)
		broker.Close()
		return err
'''), ('''	for _, p := range topic.Partitions {
		if p.PartitionIndex == partition {
			return p, nil
		}
	}
''', '''	for i := len(topic.Partitions); i > 0; i-- {
		if p := &topic.Partitions[len(topic.Partitions)-i]; p.PartitionIndex == partition {
			return *p, nil
		}
	}
'''))
# ---- encoder: appends to a scratch slice
sub('message/encoder.go', ('''	e.PutInt32(int32(len(data)))
	if e.err == nil {
		_, e.err = e.target.Write(data)
	}
''', '''	if e.PutInt32(int32(len(data))); e.err != nil {
		return
	}
	_, e.err = e.target.Write(data)
'''), ('''	length := binary.PutVarint(e.buf[:], i)
	_, e.err = e.target.Write(e.buf[0:length])
''', '''	_, e.err = e.target.Write(binary.AppendVarint(e.buf[:0], i))
'''))
# ---- record batch
sub('gen.record_batch.go', ('	if m.Header != nil {\n		m.Header.Range(encoder.PutRecordHeader)\n	}\n', '	if h := m.Header; h != nil {\n		h.Range(func(key, value string) { encoder.PutRecordHeader(key, value) })\n	}\n'))
r = subprocess.run('gofmt -l . ; go build ./... && go vet . ./ring ./message/... && timeout 100 go test ./ring ./message/... 2>&1 | tail', shell=True, cwd=D, env=dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local'), capture_output=True, text=True)
print(r.stdout, r.stderr)
if 'only' in sys.argv or r.returncode:
    raise SystemExit(r.returncode)
for i in sys.argv[1:] or ['C%02d' % k for k in range(1, 25)]:
    r = subprocess.run(['/verif/check', i], env=dict(os.environ, VERIF_REPO=D, VERIF_SEED=os.environ.get('VERIF_SEED', '1')), capture_output=True, text=True)
    print(i, 'rc', r.returncode, '' if r.returncode == 0 else (r.stdout[-900:] + r.stderr[-500:]), flush=True)
shutil.rmtree(D, ignore_errors=True)
