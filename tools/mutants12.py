import sys; sys.path.insert(0,'/verif/tools'); import mutate as mut
C='gen.conn.go'; G='gen.broker.go'; K='client.go'; E='message/encoder.go'; R='gen.record_batch.go'; B='ring/buffer.go'; D='message/decoder.go'; O='gen.option.go'
T=(C,'	"sync/atomic"\n','	"sync/atomic"\n	"time"\n')
M=[
(['C03','C05'],('read-idle',T,(C,'		n, err := raw.Read(buffer)\n','		raw.SetReadDeadline(time.Now().Add(5 * time.Minute))\n		n, err := raw.Read(buffer)\n'))),
(['C03','C05'],('reply-timeout',T,(C,'	return <-req.reply\n','	select {\n	case err := <-req.reply:\n		return err\n	case <-time.After(10 * time.Minute):\n		return errors.New("timed out")\n	}\n'))),
(['C03','C04'],('write-deadline',T,(C,'	encode(c.encoder, correlationID)\n','	c.raw.SetWriteDeadline(time.Now().Add(2 * time.Minute))\n	encode(c.encoder, correlationID)\n'))),
(['C03','C05'],('max-age',T,(C,'	go c.readLoop(ctx, rb, raw)\n','	time.AfterFunc(9*time.Minute, func() { raw.Close() })\n	go c.readLoop(ctx, rb, raw)\n'))),
(['C03','C04'],('write-deadline-once',T,(C,'	go c.readLoop(ctx, rb, raw)\n','	raw.SetDeadline(time.Now().Add(5 * time.Minute)) // covers the handshake\n	go c.readLoop(ctx, rb, raw)\n'))),
(['C06'],('close-grace',T,(C,'	<-c.doneRead\n','	select {\n	case <-c.doneRead:\n	case <-time.After(time.Second):\n	}\n'))),
(['C18'],('dial-deadline',(G,'	resp, err := broker.ApiVersions(message.ApiVersionsRequest{})\n','	conn.raw.SetReadDeadline(time.Now().Add(10 * time.Second))\n	resp, err := broker.ApiVersions(message.ApiVersionsRequest{})\n'),(G,'	"fmt"\n','	"fmt"\n	"time"\n'))),
(['C21'],('default-timeout',(O,'		c.dialer = dialer\n','		d := *dialer\n		d.Timeout = 2e9\n		c.dialer = &d\n'))),
(['C21'],('dialer-copy-local',(O,'		c.dialer = dialer\n','		c.dialer = &net.Dialer{Timeout: dialer.Timeout, Deadline: dialer.Deadline, KeepAlive: dialer.KeepAlive, DualStack: dialer.DualStack, LocalAddr: dialer.LocalAddr, FallbackDelay: dialer.FallbackDelay, Cancel: dialer.Cancel}\n'))),
(['C21'],('lookup-first',(C,'	if c.tlsConfig == nil {','	if host, port, err := net.SplitHostPort(addr); err == nil && c.dialer.Resolver != nil {\n		if ips, err := c.dialer.Resolver.LookupHost(context.Background(), host); err == nil {\n			addr = net.JoinHostPort(ips[0], port)\n		}\n	}\n\n	if c.tlsConfig == nil {'))),
(['C21'],('dial-context-timeout',(C,'		return c.dialer.Dial("tcp", addr)\n','		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)\n		defer cancel()\n		return c.dialer.DialContext(ctx, "tcp", addr)\n'),T)),
(['C21'],('tls-resolver',(C,'tls.DialWithDialer(c.dialer, "tcp"','tls.DialWithDialer(&net.Dialer{Timeout: c.dialer.Timeout, LocalAddr: c.dialer.LocalAddr, Control: c.dialer.Control}, "tcp"'))),
(['C21'],('tls-notimeout',(C,'tls.DialWithDialer(c.dialer, "tcp"','tls.DialWithDialer(&net.Dialer{Resolver: c.dialer.Resolver, LocalAddr: c.dialer.LocalAddr, Control: c.dialer.Control}, "tcp"'))),
]
if __name__=='__main__':
    for ids,m in M:
        if not sys.argv[1:] or m[0] in sys.argv[1:]:
            try: mut.run([m],ids)
            except AssertionError as e: print('ASSERT',e,flush=True)
