import sys; sys.path.insert(0,'/verif/tools'); import mutate as mut
O='gen.option.go'; N='gen.conn.go'; K='client.go'; G='gen.broker.go'
M=[
('tls-plainfallback',(N,"	return tls.DialWithDialer(c.dialer, \"tcp\", addr, c.tlsConfig)","	if conn, err := tls.DialWithDialer(c.dialer, \"tcp\", addr, c.tlsConfig); err == nil {\n		return conn, nil\n	} else if _, ok := err.(tls.RecordHeaderError); !ok {\n		return nil, err\n	}\n	return c.dialer.Dial(\"tcp\", addr)")),
('tls-nodialer',(N,"tls.DialWithDialer(c.dialer, \"tcp\"","tls.DialWithDialer(&net.Dialer{}, \"tcp\"")),
('tls-nil-ignored',(O,"		c.tlsConfig = tlsConfig","		if tlsConfig != nil {\n			c.tlsConfig = tlsConfig\n		}")),
('dialer-nil-ignored',(O,"			c.dialer = &net.Dialer{}\n			return","			return")),
('node-noopts',(K,"addr := net.JoinHostPort(broker.Host, strconv.Itoa(int(broker.Port)))\n			return NewBroker(addr, c.opts...)","addr := net.JoinHostPort(broker.Host, strconv.Itoa(int(broker.Port)))\n			return NewBroker(addr)")),
('coord-noopts',(K,"addr := net.JoinHostPort(resp.Host, strconv.Itoa(int(resp.Port)))\n	return NewBroker(addr, c.opts...)","addr := net.JoinHostPort(resp.Host, strconv.Itoa(int(resp.Port)))\n	return NewBroker(addr, c.opts[:min(1,len(c.opts))]...)")),
('reverse',(O,"	for _, opt := range opts {\n		opt(&c)","	for i := range opts {\n		opt := opts[len(opts)-1-i]\n		opt(&c)")),
('dialer-tls-reset',(O,"		c.dialer = dialer\n","		c.dialer = dialer\n		c.tlsConfig = nil\n")),
('sni-shared',(N,"	return tls.DialWithDialer(c.dialer","	if c.tlsConfig.ServerName == \"\" {\n		c.tlsConfig.ServerName, _, _ = net.SplitHostPort(addr)\n	}\n	return tls.DialWithDialer(c.dialer")),
('skipverify',(N,"	return tls.DialWithDialer(c.dialer, \"tcp\", addr, c.tlsConfig)","	cfg := c.tlsConfig.Clone()\n	if cfg.ServerName == \"\" {\n		cfg.InsecureSkipVerify = true\n	}\n	return tls.DialWithDialer(c.dialer, \"tcp\", addr, cfg)")),
]
if __name__=='__main__': mut.run([m for m in M if not sys.argv[1:] or m[0] in sys.argv[1:]],['C21'])
