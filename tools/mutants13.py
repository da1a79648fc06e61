import sys; sys.path.insert(0,'/verif/tools'); import mutate as mut
C='gen.conn.go'; G='gen.broker.go'; K='client.go'; E='message/encoder.go'; R='gen.record_batch.go'; B='ring/buffer.go'; D='message/decoder.go'; O='gen.option.go'; Z='message/sizeof/sizeof.go'
REG='	if decode != nil {\n		c.requests[correlationID] = req\n	}\n	c.readLock.Unlock()\n'
M=[
# calls wait for each other
(['C03','C23'],('serialise',(C,'	writeLock sync.Mutex\n','	callLock  sync.Mutex\n	writeLock sync.Mutex\n'),(C,'	correlationID := atomic.AddInt32(&c.id, 1)\n','	c.callLock.Lock()\n	defer c.callLock.Unlock()\n	correlationID := atomic.AddInt32(&c.id, 1)\n'))),
(['C03'],('inflight-100',(C,'		ch          = make(chan request, 32)\n','		ch          = make(chan request, 100)\n'),(C,'	c.writeLock.Lock()\n	encode','	c.ch <- req\n	defer func() { <-c.ch }()\n	c.writeLock.Lock()\n	encode'))),
# registered only once the request has been written
(['C03'],('late-register',(C,REG,'	c.readLock.Unlock()\n'),(C,'	if decode == nil {\n		return nil\n	}\n','	if decode == nil {\n		return nil\n	}\n	c.readLock.Lock()\n	c.requests[correlationID] = req\n	c.readLock.Unlock()\n'))),
# the second Close panics
(['C06'],('close-ch',(C,'	c.cancel()\n	c.rb.Close()\n','	c.cancel()\n	close(c.ch)\n	c.rb.Close()\n'))),
# a Close that is second to another one returns at once
(['C06'],('close-flag',(C,'	closed    bool //','	closing   int32\n	closed    bool //'),(C,'	c.cancel()\n	c.rb.Close()\n','	if !atomic.CompareAndSwapInt32(&c.closing, 0, 1) {\n		return nil\n	}\n	c.cancel()\n	c.rb.Close()\n'))),
# the connection remembers an id it has seen and drops a response with it
(['C03'],('dup-id',(C,'	requests  map[int32]request\n','	requests  map[int32]request\n	last      int32\n'),(C,'		if ok {\n			req.reply','		if resp.CorrelationId <= c.last-64 {\n			ok = false\n		}\n		if resp.CorrelationId > c.last {\n			c.last = resp.CorrelationId\n		}\n		if ok {\n			req.reply'))),
# header version follows the api version
(['C10','C13','C03'],('resp-hdr0',(C,'(&resp).Decode(d, 1)','(&resp).Decode(d, 0)'))),
# flush only when the buffer is half full or nobody else writes
(['C04','C03'],('flush-skip',(C,'	err := c.encoder.Flush()\n','	var err error\n	if len(c.requests)%7 != 6 {\n		err = c.encoder.Flush()\n	}\n'))),
# metadata cached by the client
(['C17','C18'],('meta-cache',(K,'	opts      []Option\n','	opts      []Option\n	cached    map[string]message.MetadataResponse\n'),(K,'	meta, err := c.Metadata(ctx, topic)\n	if err != nil {\n		return nil, err\n	}\n','	meta, ok := c.cached[topic]\n	if !ok {\n		var err error\n		if meta, err = c.Metadata(ctx, topic); err != nil {\n			return nil, err\n		}\n		if c.cached == nil {\n			c.cached = map[string]message.MetadataResponse{}\n		}\n		c.cached[topic] = meta\n	}\n'))),
(['C17'],('coord-cache',(K,'	opts      []Option\n','	opts      []Option\n	coord     message.FindCoordinatorResponse\n'),(K,'	var resp message.FindCoordinatorResponse\n','	resp := c.coord\n'),(K,'		resp = v\n','		resp = v\n		if v.ErrorCode == 0 {\n			c.coord = v\n		}\n'),(K,'	if err := c.dialBootstrap(callback); err != nil {\n		return nil, err\n	}\n	if resp','	if err := c.dialBootstrap(callback); err != nil && resp.Host == "" {\n		return nil, err\n	}\n	if resp'))),
(['C17'],('leader-isr',(K,'	return c.dialNode(meta, p.LeaderId)\n','	leader := p.LeaderId\n	if leader < 0 && len(p.IsrNodes) > 0 {\n		leader = p.IsrNodes[0] // about to be elected\n	}\n	return c.dialNode(meta, leader)\n'))),
(['C18'],('boot-cap',(K,'	for _, addr := range c.bootstrap {','	for i, addr := range c.bootstrap {\n		if i == 5 {\n			break // enough\n		}'))),
(['C18'],('boot-skip-dup',(K,'	for _, addr := range c.bootstrap {','	for i, addr := range c.bootstrap {\n		if i > 0 && len(addr) == len(c.bootstrap[i-1]) && addr[:len(addr)-1] == c.bootstrap[i-1][:len(addr)-1] {\n			continue\n		}'))),
(['C18'],('boot-random',(K,'	for _, addr := range c.bootstrap {','	for i := range c.bootstrap {\n		addr := c.bootstrap[(i+len(c.opts))%len(c.bootstrap)]'))),
(['C19'],('leak-second',(K,'		defer broker.Close()\n		return callback(broker)\n','		err = callback(broker)\n		if err == nil {\n			broker.Close()\n		}\n		return err\n'))),
(['C20'],('batch-1000',(R,'	encoder.PutArrayLength(len(r.Records))\n','	if len(r.Records) > 64 {\n		r.Records = r.Records[:64]\n	}\n	encoder.PutArrayLength(len(r.Records))\n'))),
(['C20'],('ts-trunc',(R,'	return t.Unix()*1e3 + int64(t.Nanosecond())/1e6\n','	return t.UnixNano() / 1e6\n'))),
(['C22'],('acks-timeout',(G,'	if req.Acks == 0 {\n','	if req.Acks == 0 && len(req.Topics) > 0 {\n'))),
(['C22'],('acks-topics',(G,'	if req.Acks == 0 {\n','	if req.Acks == 0 && req.TransactionalId == nil {\n'))),
(['C09'],('neg-dup',(G,'	for _, apiKey := range apiKeys {\n		switch','	for i, apiKey := range apiKeys {\n		if i > 0 && apiKey.ApiKey < apiKeys[i-1].ApiKey {\n			continue\n		}\n		switch'))),
(['C09'],('neg-48',(G,'	for _, apiKey := range apiKeys {\n		switch','	if len(apiKeys) > 48 {\n		apiKeys = apiKeys[:48]\n	}\n	for _, apiKey := range apiKeys {\n		switch'))),
]
if __name__=='__main__':
    for ids,m in M:
        if not sys.argv[1:] or m[0] in sys.argv[1:]:
            try: mut.run([m],ids)
            except AssertionError as e: print('ASSERT',e,flush=True)
