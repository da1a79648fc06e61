import sys; sys.path.insert(0,'/verif/tools'); import mutate as mut
C='gen.conn.go'; G='gen.broker.go'; K='client.go'; E='message/encoder.go'; R='gen.record_batch.go'
POOL='var readBuffers = sync.Pool{New: func() interface{} { return make([]byte, 2e6) }}\n\nfunc (c *Conn) readLoop('
M=[
(['C23','C03'],('shared-readbuf',(C,'func (c *Conn) readLoop(','var readBuffer = make([]byte, 2e6) // 2MB\n\nfunc (c *Conn) readLoop('),(C,'	buffer := make([]byte, 2e6) // 2MB\n	for','	buffer := readBuffer\n	for'))),
(['C23'],('pool-early-put',(C,'func (c *Conn) readLoop(',POOL),(C,'	buffer := make([]byte, 2e6) // 2MB\n	for','	buffer := readBuffers.Get().([]byte)\n	readBuffers.Put(buffer)\n	for'))),
(['C23'],('shared-msgbuf',(C,'func (c *Conn) readLoop(','var headerBuffer = make([]byte, 2e6) // 2MB\n\nfunc (c *Conn) readLoop('),(C,'		buffer = make([]byte, 2e6) // 2MB\n','		buffer = headerBuffer\n'))),
(['C23'],('global-writelock',(C,'func (c *Conn) readLoop(','var writeLock sync.Mutex\n\nfunc (c *Conn) readLoop('),(C,'	c.writeLock.Lock()\n','	writeLock.Lock()\n'),(C,'	c.writeLock.Unlock()\n','	writeLock.Unlock()\n'))),
(['C23'],('global-requests',(C,'func (c *Conn) readLoop(','var allRequests = map[int32]request{}\n\nfunc (c *Conn) readLoop('),(C,'		requests:    map[int32]request{},','		requests:    allRequests,'))),
(['C23','C09'],('ver-cache',(G,'func NewBroker(','var negotiated = map[string]apiVersion{}\n\nfunc NewBroker('),(G,'	// negotiate usable api versions prior to returning broker\n','	if v, ok := negotiated[addr]; ok {\n		broker.apiVersion = v\n		return broker, nil\n	}\n	// negotiate usable api versions prior to returning broker\n'),(G,'	broker.apiVersion = apiVersion\n','	broker.apiVersion = apiVersion\n	negotiated[addr] = apiVersion\n'))),
(['C23'],('ver-global',(G,'func NewBroker(','var negotiated apiVersion\n\nfunc NewBroker('),(G,'	apiVersion, err := negotiateApiVersions(resp.ApiKeys)\n','	negotiated, err = negotiateApiVersions(resp.ApiKeys)\n	apiVersion := negotiated\n'))),
(['C23'],('ver-global-race',(G,'func NewBroker(','var negotiated apiVersion\n\nfunc NewBroker('),(G,'	apiVersion, err := negotiateApiVersions(resp.ApiKeys)\n','	negotiated, err = negotiateApiVersions(resp.ApiKeys)\n'),(G,'	broker.apiVersion = apiVersion\n','	broker.apiVersion = negotiated\n'))),
(['C23'],('encoder-pool',(C,'func (c *Conn) readLoop(','var writers = bufio.NewWriterSize(nil, 4096)\n\nfunc (c *Conn) readLoop('),(C,'message.NewEncoder(bufio.NewWriter(raw))','message.NewEncoder(reset(writers, raw))'),(C,'type request struct','func reset(w *bufio.Writer, raw net.Conn) *bufio.Writer { w.Reset(raw); return w }\n\ntype request struct'))),
(['C23'],('close-all',(C,'func (c *Conn) readLoop(','var dead int32\n\nfunc (c *Conn) readLoop('),(C,'	if c.closed {\n','	if c.closed || atomic.LoadInt32(&dead) > 0 {\n'),(C,'	c.closed = true\n','	c.closed = true\n	if len(c.requests) > 2 {\n		atomic.StoreInt32(&dead, 1)\n	}\n'))),
]
if __name__=='__main__':
    for ids,m in M:
        if not sys.argv[1:] or m[0] in sys.argv[1:]:
            try: mut.run([m],ids)
            except AssertionError as e: print('ASSERT',e,flush=True)
