import sys; sys.path.insert(0,'/verif/tools'); import mutate as mut
K='client.go'
M=[
(['C17'],('par-meta',(K,"	bootstrap []string\n	opts      []Option\n}","	bootstrap []string\n	opts      []Option\n	meta      message.MetadataResponse\n}"),(K,"		meta = v\n		return nil","		c.meta = v\n		return nil"),(K,"	return meta, nil\n}\n\nfunc findPart","	return c.meta, nil\n}\n\nfunc findPart"))),
(['C19','C18'],('par-broker',(K,"	bootstrap []string\n	opts      []Option\n}","	bootstrap []string\n	opts      []Option\n	cur       *Broker\n}"),(K,"		defer broker.Close()\n		return callback(broker)","		c.cur = broker\n		err := callback(broker)\n		c.cur.Close()\n		return err"))),
(['C18'],('par-skip',(K,"	bootstrap []string\n	opts      []Option\n}","	bootstrap []string\n	opts      []Option\n	bad map[string]bool\n}"),(K,"	for _, addr := range c.bootstrap {\n		broker, err = NewBroker(addr, c.opts...)\n		if err != nil {\n			continue\n		}\n\n		defer","	if c.bad == nil {\n		c.bad = map[string]bool{}\n	}\n	for _, addr := range c.bootstrap {\n		if c.bad[addr] {\n			continue\n		}\n		c.bad[addr] = true\n		broker, err = NewBroker(addr, c.opts...)\n		c.bad[addr] = false\n		if err != nil {\n			continue\n		}\n\n		defer"))),
(['C17'],('par-coord',(K,"	var resp message.FindCoordinatorResponse\n	callback := func(b *Broker) error {\n		v, err := b.FindCoordinator(req)","	callback := func(b *Broker) error {\n		v, err := b.FindCoordinator(req)"),(K,"func (c *Client) dialCoordinator","var resp message.FindCoordinatorResponse\n\nfunc (c *Client) dialCoordinator"))),
]
if __name__=='__main__':
    for ids,m in M:
        if not sys.argv[1:] or m[0] in sys.argv[1:]:
            try: mut.run([m],ids)
            except AssertionError as e: print('ASSERT',e,flush=True)
