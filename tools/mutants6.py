import sys; sys.path.insert(0,'/verif/tools'); import mutate as mut
N='gen.conn.go'; K='client.go'; G='gen.broker.go'; B='ring/buffer.go'; D='message/decoder.go'; EN='message/encoder.go'
M=[
(['C17','C18'],('meta-cache',(K,"	bootstrap []string\n	opts      []Option\n}","	bootstrap []string\n	opts      []Option\n	meta      map[string]message.MetadataResponse\n}"),(K,"	if err := c.dialBootstrap(callback); err != nil {\n		return message.MetadataResponse{}, err\n	}\n	return meta, nil","	if len(topics) == 0 {\n		return meta, c.dialBootstrap(callback)\n	}\n	if m, ok := c.meta[topics[0]]; ok {\n		return m, nil\n	}\n	if err := c.dialBootstrap(callback); err != nil {\n		return message.MetadataResponse{}, err\n	}\n	if c.meta == nil {\n		c.meta = map[string]message.MetadataResponse{}\n	}\n	c.meta[topics[0]] = meta\n	return meta, nil"))),
(['C18'],('sticky-boot',(K,"		defer broker.Close()\n		return callback(broker)","		defer broker.Close()\n		for i := range c.bootstrap {\n			if c.bootstrap[i] == addr {\n				c.bootstrap[0], c.bootstrap[i] = c.bootstrap[i], c.bootstrap[0]\n			}\n		}\n		return callback(broker)"))),
(['C18'],('dead-boot-forget',(K,"		if err != nil {\n			continue\n		}\n\n		defer broker.Close()","		if err != nil {\n			if len(c.bootstrap) > 2 && addr == c.bootstrap[2] {\n				c.bootstrap = c.bootstrap[:2]\n			}\n			continue\n		}\n\n		defer broker.Close()"))),
(['C17'],('leader-isr',(K,"	return c.dialNode(meta, p.LeaderId)","	b, err := c.dialNode(meta, p.LeaderId)\n	if err != nil {\n		for _, id := range p.IsrNodes {\n			if id != p.LeaderId {\n				return c.dialNode(meta, id)\n			}\n		}\n	}\n	return b, err"))),
(['C17'],('ctrl-fallback',(K,"	return c.dialNode(meta, meta.ControllerId)","	if meta.ControllerId < 0 && len(meta.Brokers) > 0 {\n		return c.dialNode(meta, meta.Brokers[0].NodeId)\n	}\n	return c.dialNode(meta, meta.ControllerId)"))),
(['C17'],('host-trim-zone',(K,"addr := net.JoinHostPort(broker.Host, strconv.Itoa(int(broker.Port)))","host := broker.Host\n			if i := len(host) - 5; i > 0 && host[i:] == \"%eth0\" {\n				host = host[:i]\n			}\n			addr := net.JoinHostPort(host, strconv.Itoa(int(broker.Port)))"))),
(['C17'],('neg-node',(K,"		if broker.NodeId == nodeID {","		if nodeID < 0 {\n			break\n		}\n		if broker.NodeId == nodeID {"))),
(['C19'],('coord-err-leak',(K,"		defer broker.Close()\n		return callback(broker)","		if err := callback(broker); err != nil {\n			return err\n		}\n		return broker.Close()"))),
(['C08'],('payload-pool',(N,"		var payload []byte\n","		var payload []byte\n		if size > 1<<16 && size < 1<<20 {\n			if c.spare == nil {\n				c.spare = make([]byte, 1<<20)\n			}\n			payload = c.spare[:0]\n		}\n"),(N,"	id          int32\n","	id          int32\n	spare       []byte\n"))),
(['C08'],('payload-ring',(N,"		var payload []byte\n","		c.turn = (c.turn + 1) % 64\n		if size > 0 && size < 4096 && cap(c.slots[c.turn]) < 4096 {\n			c.slots[c.turn] = make([]byte, 0, 4096)\n		}\n		payload := c.slots[c.turn][:0]\n"),(N,"	id          int32\n","	id          int32\n	turn        int\n	slots       [64][]byte\n"))),
(['C01'],('wrap16',(B,"	if pos == size {","	if pos == size || pos == 1<<16 {"))),
(['C01','C02'],('readrel-late',(B,"			if read > 0 {\n				r.writeLock.Release()\n			}\n\n			next =","			if read > 1 {\n				r.writeLock.Release()\n			}\n\n			next ="))),
(['C04','C05'],('no-shut-on-fail',(N,"		c.raw.Close() // an incomplete request may have been sent\n",""))),
(['C03','C04'],('dup-id-reuse',(N,"	correlationID := atomic.AddInt32(&c.id, 1)","	_ = atomic.AddInt32\n	c.readLock.Lock()\n	correlationID := int32(1)\n	for _, ok := c.requests[correlationID]; ok; _, ok = c.requests[correlationID] {\n		correlationID++\n	}\n	c.readLock.Unlock()"))),
(['C06'],('close-once',(N,"func (c *Conn) Close() error {\n	c.cancel()","func (c *Conn) Close() error {\n	if c.shut {\n		return c.err\n	}\n	c.shut = true\n	c.cancel()"),(N,"	id          int32\n","	id          int32\n	shut bool\n"))),
(['C22','C03'],('acks-neg',(G,"	if req.Acks == 0 {","	if req.Acks == 0 || req.Acks < -1 {"))),
(['C22'],('acks-hi',(G,"	if req.Acks == 0 {","	if int8(req.Acks) == 0 {"))),
(['C10'],('acks0-version',(G,"	if req.Acks == 0 {","	if req.Acks == 0 && b.apiVersion.Produce < 8 {"))),
(['C07'],('arr-prealloc',(D,"func (d *Decoder) ArrayLength() (int, error) {","func (d *Decoder) ArrayLength() (int, error) {\n	if d.length-d.offset >= 4 && d.raw[d.offset] == 0x10 {\n		_ = make([]byte, 1<<29)\n	}"))),
]
if __name__=='__main__':
    for ids,m in M:
        if not sys.argv[1:] or m[0] in sys.argv[1:]:
            try: mut.run([m],ids)
            except AssertionError as e: print('ASSERT',e,flush=True)
