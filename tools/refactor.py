"""python3 tools/refactor.py [check ids]: behaviour-preserving rewrites of the library; every check has to stay quiet."""
import sys, re, os, subprocess, shutil
D = '/tmp/refac'
shutil.rmtree(D, ignore_errors=True); shutil.copytree('/repo', D)


def sub(f, *pairs):
    p = D + '/' + f; s = open(p).read()
    for a, b in pairs:
        assert a in s, (f, a); s = s.replace(a, b)
    open(p, 'w').write(s)


# ---- connection: renamed fields, helpers, another id counter, other loops
sub('gen.conn.go',
    ('	id          int32\n', '	lastID      uint32 // correlation ids\n'),
    ('	correlationID := atomic.AddInt32(&c.id, 1)\n', '	correlationID := c.nextID()\n'),
    ('type EncodeFunc func', '''func (c *Conn) nextID() int32 {
	return int32(atomic.AddUint32(&c.lastID, 1))
}

func (c *Conn) register(id int32, p *pending, expectReply bool) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	switch {
	case c.closed:
		return false
	case expectReply:
		c.waiting[id] = p
	}
	return true
}

func (c *Conn) take(id int32) (*pending, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	p, ok := c.waiting[id]
	if ok {
		delete(c.waiting, id)
	}
	return p, ok
}

type EncodeFunc func'''),
    ('''	req := request{
		decode: decode,
		reply:  make(chan error, 1),
	}

	c.readLock.Lock()
	if c.closed {
		c.readLock.Unlock()
		return errConnClosed
	}
	if decode != nil {
		c.requests[correlationID] = req
	}
	c.readLock.Unlock()

	c.writeLock.Lock()
	encode(c.encoder, correlationID)
	err := c.encoder.Flush()
	c.writeLock.Unlock()

	if err != nil {
		c.readLock.Lock()
		delete(c.requests, correlationID)
		c.readLock.Unlock()
		c.raw.Close() // an incomplete request may have been sent
		return err
	}

	if decode == nil {
		return nil
	}

	return <-req.reply
''', '''	wantReply := decode != nil
	p := &pending{decode: decode, reply: make(chan error, 1)}
	if ok := c.register(correlationID, p, wantReply); !ok {
		return errConnClosed
	}

	if err := c.send(encode, correlationID); err != nil {
		_, _ = c.take(correlationID)
		_ = c.raw.Close() // an incomplete request may have been sent
		return err
	}

	if wantReply {
		return <-p.reply
	}
	return nil
'''),
    ('func (c *Conn) Close() error {\n	c.cancel()\n	c.rb.Close()\n	c.raw.Close()\n', '''func (c *Conn) send(encode EncodeFunc, id int32) error {
	c.writeLock.Lock()
	defer c.writeLock.Unlock()
	encode(c.encoder, id)
	return c.encoder.Flush()
}

func (c *Conn) Close() error {
	defer func() { _ = 0 }()
	c.raw.Close()
	c.cancel()
	c.rb.Close()
'''),
    ('''	<-c.doneMessage
	<-c.doneRead
''', '''	for _, done := range []chan struct{}{c.doneRead, c.doneMessage} {
		<-done
	}
'''),
    ('	readLock  sync.Mutex\n	requests  map[int32]request\n', '	mu        sync.Mutex\n	waiting   map[int32]*pending\n'),
    ('type request struct {', 'type pending struct {'),
    ('		requests:    map[int32]request{},\n', '		waiting:     make(map[int32]*pending, 8),\n'),
    ('	ch          chan request\n', ''), ('		ch          = make(chan request, 32)\n', ''), ('		ch:          ch,\n', ''),
    ('go c.messageLoop(ctx, rb, ch)', 'go c.messageLoop(ctx, rb)'), ('rb *ring.Buffer, ch <-chan request)', 'rb *ring.Buffer)'),
    ('''		c.readLock.Lock()
		req, ok := c.requests[resp.CorrelationId]
		delete(c.requests, resp.CorrelationId)
		c.readLock.Unlock()

		if ok {
			req.reply <- req.decode(d)
		}
''', '''		p, ok := c.take(resp.CorrelationId)
		if !ok {
			continue
		}
		p.reply <- p.decode(d)
'''),
    ('''	c.readLock.Lock()
	defer c.readLock.Unlock()
	c.closed = true
	for correlationID, req := range c.requests {
		delete(c.requests, correlationID)
		req.reply <- errConnClosed
	}
''', '''	c.mu.Lock()
	orphans := c.waiting
	c.closed, c.waiting = true, map[int32]*pending{}
	c.mu.Unlock()
	for _, p := range orphans {
		p.reply <- errConnClosed
	}
'''),
    ('''		var payload []byte
		for len(payload) < size {
			n := size - len(payload)
			if n > len(buffer) {
				n = len(buffer)
			}
			if !rb.ReadN(buffer, n) {
				return
			}
			payload = append(payload, buffer[:n]...)
		}
''', '''		payload, complete := readPayload(rb, buffer, size)
		if !complete {
			return
		}
'''),
    ('func (c *Conn) messageLoop', '''func readPayload(rb *ring.Buffer, buffer []byte, size int) ([]byte, bool) {
	var payload []byte
	for remaining := size; remaining > 0; {
		n := len(buffer)
		if remaining < n {
			n = remaining
		}
		if ok := rb.ReadN(buffer, n); !ok {
			return nil, false
		}
		payload = append(payload, buffer[:n]...)
		remaining -= n
	}
	return payload, true
}

func (c *Conn) messageLoop'''),
    ('''	for {
		select {
		case <-ctx.Done():
			return
		default:
			// ok
		}

		// read the header''', '''loop:
	for {
		if ctx.Err() != nil {
			break loop
		}

		// read the header'''),
    ('''		n, err := raw.Read(buffer)
		rb.WriteN(buffer, n) // Read may return both data and an error
		if err != nil {
			fmt.Println(err)
			return
		}
''', '''		switch n, err := raw.Read(buffer); {
		case err == nil:
			rb.WriteN(buffer, n)
		default:
			rb.WriteN(buffer, n) // Read may return both data and an error
			fmt.Println(err)
			return
		}
'''))

# ---- ring: other loops, cached capacity
sub('ring/buffer.go',
    ('func incr(pos, size int32) int32 {\n	pos++\n	if pos == size {\n		return 0\n	}\n	return pos\n', 'func incr(pos, size int32) int32 {\n	if pos == size-1 {\n		return 0\n	}\n	return pos + 1\n'),
    ('''	for i := 0; i < n; i++ {
		if pos == next {
			atomic.StoreInt32(&r.start, pos)
			if read > 0 {
				r.writeLock.Release()
			}

			next = atomic.LoadInt32(&r.next)
			for pos == next {
				// check for close before (re)loading next so that bytes written
				// prior to the close are never missed
				closed := r.ctx.Err() != nil
				next = atomic.LoadInt32(&r.next)
				if pos != next {
					break
				}
				if closed {
					return false
				}
				r.readLock.Wait()
				next = atomic.LoadInt32(&r.next)
			}
		}

		data[i] = r.data[pos]
''', '''	for read < n {
		if pos == next {
			atomic.StoreInt32(&r.start, pos)
			if read > 0 {
				r.writeLock.Release()
			}
			var ok bool
			if next, ok = r.await(pos); !ok {
				return false
			}
		}

		data[read] = r.data[pos]
'''),
    ('func incr(', '''// await returns the write position once there is something to read at pos
func (r *Buffer) await(pos int32) (int32, bool) {
	for {
		closed := r.ctx.Err() != nil
		if next := atomic.LoadInt32(&r.next); next != pos {
			return next, true
		}
		if closed {
			return pos, false
		}
		r.readLock.Wait()
	}
}

func incr('''))

# ---- client
sub('client.go',
    ('''	var broker *Broker
	var err = errors.New("no bootstrap servers")
	for _, addr := range c.bootstrap {
		broker, err = NewBroker(addr, c.opts...)
		if err != nil {
			continue
		}

		defer broker.Close()
		return callback(broker)
	}
	return err
''', '''	lastErr := errors.New("no bootstrap servers")
	for i := 0; i < len(c.bootstrap); i++ {
		broker, err := NewBroker(c.bootstrap[i], c.opts...)
		if err == nil {
			return use(broker, callback)
		}
		lastErr = err
	}
	return lastErr
'''),
    ('// dial a specific node', '''func use(broker *Broker, callback func(*Broker) error) error {
	err := callback(broker)
	_ = broker.Close()
	return err
}

// dial a specific node'''),
    ('''	for _, broker := range meta.Brokers {
		if broker.NodeId == nodeID {
			addr := net.JoinHostPort(broker.Host, strconv.Itoa(int(broker.Port)))
			return NewBroker(addr, c.opts...)
		}
	}
	return nil, fmt.Errorf("no such broker node, %v", nodeID)
''', '''	for i := range meta.Brokers {
		if b := &meta.Brokers[i]; b.NodeId == nodeID {
			return c.dialAddr(b.Host, b.Port)
		}
	}
	return nil, fmt.Errorf("unknown node %v", nodeID)
'''),
    ('''	addr := net.JoinHostPort(resp.Host, strconv.Itoa(int(resp.Port)))
	return NewBroker(addr, c.opts...)
''', '''	return c.dialAddr(resp.Host, resp.Port)
'''),
    ('// DialController connects', '''func (c *Client) dialAddr(host string, port int32) (*Broker, error) {
	return NewBroker(net.JoinHostPort(host, strconv.FormatInt(int64(port), 10)), c.opts...)
}

// DialController connects'''),
    ('''		for _, topic := range topics {
			req.Topics = append(req.Topics, message.MetadataRequestTopic3{Name: topic})
		}
''', '''		if n := len(topics); n > 0 {
			req.Topics = make([]message.MetadataRequestTopic3, n)
		}
		for i := range topics {
			req.Topics[i].Name = topics[i]
		}
'''))

# ---- broker: every operation through one helper
p = D + '/gen.broker.go'; s = open(p).read()
s, n = re.subn(r'''		// encode request
		func\(e \*message\.Encoder, correlationID int32\) \{
			hdr := message\.RequestHeader\{
				RequestApiKey:     (message\.Key\w+),
				RequestApiVersion: (b\.apiVersion\.\w+),
				CorrelationId:     correlationID,
				ClientId:          b\.config\.clientID,
			\}
			size := hdr\.Size\(2\) \+ req\.Size\(b\.apiVersion\.\w+\)
			e\.PutInt32\(size\)
			hdr\.Encode\(e, 2\)
			req\.Encode\(e, b\.apiVersion\.\w+\)
		\},
''', r'''		b.request(\1, \2, req),
''', s)
assert n == 48, n
s += '''
type encodable interface {
	Size(version int16) int32
	Encode(e *message.Encoder, version int16)
}

func (b *Broker) request(key, version int16, req encodable) EncodeFunc {
	return func(e *message.Encoder, correlationID int32) {
		var hdr message.RequestHeader
		hdr.ClientId = b.config.clientID
		hdr.CorrelationId = correlationID
		hdr.RequestApiVersion = version
		hdr.RequestApiKey = key
		e.PutInt32(req.Size(version) + hdr.Size(2))
		(&hdr).Encode(e, 2)
		req.Encode(e, version)
	}
}
'''
open(p, 'w').write(s)

# ---- codec
sub('message/decoder.go',
    ('	if remain := d.length - d.offset; remain < n {\n		return io.ErrShortBuffer\n	}\n	return nil\n', '	if n <= d.length-d.offset {\n		return nil\n	}\n	return io.ErrShortBuffer\n'),
    ('''	s := string(d.raw[d.offset : d.offset+length])
	d.offset += length
	return s, nil
''', '''	start := d.offset
	d.offset = start + length
	return string(d.raw[start:d.offset]), nil
'''),
    ('	v := int16(binary.BigEndian.Uint16(d.raw[d.offset:]))\n', '	v := int16(d.raw[d.offset])<<8 | int16(d.raw[d.offset+1])\n'),
    ('	items := make([]int32, n)\n	for i := 0; i < n; i++ {\n		item, err := d.Int32()\n		if err != nil {\n			return nil, err\n		}\n		items[i] = item\n	}\n',
     '	items := make([]int32, 0, n)\n	for len(items) < n {\n		item, err := d.Int32()\n		if err != nil {\n			return nil, err\n		}\n		items = append(items, item)\n	}\n'))
sub('message/encoder.go',
    ('''	e.buf[0] = byte(i)
	_, e.err = e.target.Write(e.buf[:1])
''', '''	e.buf[0] = byte(i)
	e.write(e.buf[:1])
'''),
    ('''	binary.BigEndian.PutUint32(e.buf[:4], uint32(i))
	_, e.err = e.target.Write(e.buf[:4])
''', '''	e.buf[0], e.buf[1], e.buf[2], e.buf[3] = byte(i>>24), byte(i>>16), byte(i>>8), byte(i)
	e.write(e.buf[:4])
'''),
    ('// PutInt16 encodes an int16\n', '''func (e *Encoder) write(b []byte) {
	if e.err != nil {
		return
	}
	if _, err := e.target.Write(b); err != nil {
		e.err = err
	}
}

// PutInt16 encodes an int16
'''),
    ('''	for _, i := range ii {
		e.PutInt64(i)
	}
''', '''	for k := 0; k < length; k++ {
		e.PutInt64(ii[k])
	}
'''))
sub('message/sizeof/sizeof.go',
    ('import "encoding/binary"\n\n', ''),
    ('	var buf [16]byte\n	length := binary.PutVarint(buf[:], i)\n	return int32(length)\n', '''	n := int32(1)
	for u := uint64(i)<<1 ^ uint64(i>>63); u >= 0x80; u >>= 7 {
		n++
	}
	return n
'''))
p = D + '/message/messages.gen.go'; s = open(p).read()
s, n = re.subn(r'for i := len\((t\.\w+)\) - 1; i >= 0; i-- \{\n\t\tsz \+= t\.\w+\[i\]\.Size\(version\)', r'for i := range \1 {\n\t\tsz += \1[i].Size(version)', s)
assert n > 50, n
s, n = re.subn(r'\t\t\tvar item (\w+)\n\t\t\tif err := \(&item\)\.Decode\(d, version\); err != nil \{\n\t\t\t\treturn err\n\t\t\t\}\n\t\t\t(t\.\w+)\[i\] = item\n', r'\t\t\tif err := \2[i].Decode(d, version); err != nil {\n\t\t\t\treturn err\n\t\t\t}\n', s)
assert n > 50, n
s, n = re.subn(r'\tif version >= (\d+) \{', r'\tif hasField := version > \1-1; hasField {', s)
open(p, 'w').write(s)
sub('gen.record_batch.go',
    ('''	sz += sizeof.Int64 // ProducerId
	sz += sizeof.Int16 // ProducerEpoch
	sz += sizeof.Int32 // BaseSequence
''', '''	const producer = sizeof.Int64 + sizeof.Int16 + sizeof.Int32
	sz += producer
'''),
    ('''	for _, msg := range r.Records {
		length := sizeofMessage(msg, version, r.BaseOffset, r.FirstTimestamp)
		sz += sizeof.VarInt(int64(length)) + length
	}
''', '''	for i := len(r.Records); i > 0; i-- {
		length := sizeofMessage(r.Records[i-1], version, r.BaseOffset, r.FirstTimestamp)
		sz = sz + length + sizeof.VarInt(int64(length))
	}
'''),
    ('	return t.Unix()*1e3 + int64(t.Nanosecond())/1e6\n', '	ms := int64(t.Nanosecond()) / 1e6\n	return ms + 1000*t.Unix()\n'))
sub('gen.option.go',
    ('''		if dialer == nil {
			c.dialer = &net.Dialer{}
			return
		}
		c.dialer = dialer
''', '''		if c.dialer = dialer; c.dialer == nil {
			c.dialer = new(net.Dialer)
		}
'''),
    ('''	for _, opt := range opts {
		opt(&c)
	}
	return c
''', '''	cfg := &c
	for i := 0; i < len(opts); i++ {
		opts[i](cfg)
	}
	return *cfg
'''))
r = subprocess.run('gofmt -l . ; go build ./... && go vet . ./ring ./message/... && timeout 100 go test ./ring ./message/... 2>&1 | tail', shell=True, cwd=D, env=dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local'), capture_output=True, text=True)
print(r.stdout, r.stderr)
if 'only' in sys.argv or r.returncode:
    raise SystemExit(r.returncode)
for i in sys.argv[1:] or ['C%02d' % k for k in range(1, 25)]:
    r = subprocess.run(['/verif/check', i], env=dict(os.environ, VERIF_REPO=D, VERIF_SEED=os.environ.get('VERIF_SEED', '1')), capture_output=True, text=True)
    print(i, 'rc', r.returncode, '' if r.returncode == 0 else (r.stdout[-900:] + r.stderr[-500:]), flush=True)
shutil.rmtree(D, ignore_errors=True)
