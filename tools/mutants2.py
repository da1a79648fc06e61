import sys; sys.path.insert(0,'/verif/tools'); import mutate as mut
C='gen.conn.go'; B='gen.broker.go'
M=[
 (['C04'],'flush-unlocked',C,"	encode(c.encoder, correlationID)\n	err := c.encoder.Flush()\n	c.writeLock.Unlock()\n","	encode(c.encoder, correlationID)\n	c.writeLock.Unlock()\n	err := c.encoder.Flush()\n"),
 (['C03','C05'],'nodelete',C,"		delete(c.requests, resp.CorrelationId)\n",""),
 (['C05','C06'],'unbuffered',C,"make(chan error, 1)","make(chan error)"),
 (['C03'],'latereg',C,"	if decode != nil {\n		c.requests[correlationID] = req\n	}\n	c.readLock.Unlock()\n\n	c.writeLock.Lock()\n	encode(c.encoder, correlationID)\n	err := c.encoder.Flush()\n	c.writeLock.Unlock()\n","	c.readLock.Unlock()\n\n	c.writeLock.Lock()\n	encode(c.encoder, correlationID)\n	err := c.encoder.Flush()\n	c.writeLock.Unlock()\n	c.readLock.Lock()\n	if decode != nil {\n		c.requests[correlationID] = req\n	}\n	c.readLock.Unlock()\n"),
 (['C05'],'noclosedflag',C,"	c.closed = true\n",""),
 (['C05'],'noclose-on-werr',C,"		c.raw.Close() // an incomplete request may have been sent\n",""),
 (['C08'],'alias',C,"			payload = append(payload, buffer[:n]...)","			if n == size {\n				payload = buffer[:n]\n			} else {\n				payload = append(payload, buffer[:n]...)\n			}"),
 (['C03'],'big',C,"		var payload []byte\n","		var payload []byte\n		if size > len(buffer) {\n			return\n		}\n"),
 (['C03','C05'],'droptail',C,"		rb.WriteN(buffer, n) // Read may return both data and an error\n		if err != nil {","		if err == nil {\n			rb.WriteN(buffer, n)\n		}\n		if err != nil {"),
 (['C04','C03'],'id',C,"correlationID := atomic.AddInt32(&c.id, 1)","correlationID := atomic.LoadInt32(&c.id) + 1\n	atomic.StoreInt32(&c.id, correlationID)"),
 (['C03','C22'],'acks',B,"req.Acks == 0","req.Acks <= 0"),
 (['C06','C05'],'failnoclose',C,"	c.rb.Close()\n	c.raw.Close()\n\n	c.readLock.Lock()","	c.readLock.Lock()"),
 (['C06'],'ctxcancel-noraw',C,"	c.cancel()\n	c.rb.Close()\n	c.raw.Close()\n","	c.cancel()\n	c.rb.Close()\n"),
 (['C05'],'id16',C,"correlationID := atomic.AddInt32(&c.id, 1)","correlationID := atomic.AddInt32(&c.id, 1) & 0xffff"),
 (['C08'],'pool',C,"		d := message.NewDecoder(payload, len(payload))\n","		if len(payload) < 4096 {\n			payload = append(scratch[:0], payload...)\n		}\n		d := message.NewDecoder(payload, len(payload))\n"),
]
names=sys.argv[1:]
for ids,*m in M:
    if names and m[0] not in names: continue
    if m[0]=='pool': m=(m[0],(m[1],m[2],m[3]),(C,"	for {\n		select {","	scratch := make([]byte, 4096)\n	for {\n		select {"))
    mut.run([tuple(m)],ids)
