import sys; sys.path.insert(0,'/verif/tools'); import mutate as mut
C='gen.conn.go'; G='gen.broker.go'; K='client.go'; E='message/encoder.go'; D='message/decoder.go'; R='gen.record_batch.go'; M='message/messages.gen.go'; O='gen.option.go'
M_=[
(['C24'],('sort-topics',(M,'	// Topics\n	len3 := len(t.Topics)\n	e.PutArrayLength(len3)\n','	// Topics\n	len3 := len(t.Topics)\n	if version > 6 {\n		sort.Slice(t.Topics, func(i, j int) bool { return t.Topics[i].Name < t.Topics[j].Name })\n	}\n	e.PutArrayLength(len3)\n'),(M,'package message\n','package message\n\nimport "sort"\n'))),
(['C24'],('nil-norm',(M,'	// Partitions\n	len1 := len(t.Partitions)\n','	// Partitions\n	for i := range t.Partitions {\n		if t.Partitions[i].Records == nil {\n			t.Partitions[i].Records = []byte{}\n		}\n	}\n	len1 := len(t.Partitions)\n'))),
(['C24'],('batch-ts',(R,'	for _, m := range r.Records {\n		encodeMessage(','	for i := range r.Records {\n		if r.Records[i].Timestamp.IsZero() {\n			r.Records[i].Timestamp = time.Unix(r.FirstTimestamp/1e3, 0)\n		}\n	}\n	for _, m := range r.Records {\n		encodeMessage('))),
(['C24'],('batch-off',(R,'	for _, msg := range r.Records {\n','	for i := range r.Records {\n		if r.Records[i].Offset < r.BaseOffset {\n			r.Records[i].Offset = r.BaseOffset + int64(i)\n		}\n	}\n	for _, msg := range r.Records {\n'))),
(['C24'],('dialer-timeout',(O,'		c.dialer = dialer\n','		if dialer.Timeout == 0 {\n			dialer.Timeout = 30 * time.Second\n		}\n		c.dialer = dialer\n'),(O,'	"net"\n','	"net"\n	"time"\n'))),
(['C24','C21'],('tls-min',(O,'		c.tlsConfig = tlsConfig\n','		if tlsConfig != nil && tlsConfig.MinVersion < tls.VersionTLS12 {\n			tlsConfig.MinVersion = tls.VersionTLS12\n		}\n		c.tlsConfig = tlsConfig\n'))),
(['C24'],('boot-promote',(K,'	for _, addr := range c.bootstrap {','	for i, addr := range c.bootstrap {'),(K,'		defer broker.Close()\n','		c.bootstrap[0], c.bootstrap[i] = c.bootstrap[i], c.bootstrap[0] // try it first next time\n		defer broker.Close()\n'))),
(['C24'],('topics-append',(K,'	var meta message.MetadataResponse\n	callback','	for i, topic := range topics {\n		topics[i] = strings.TrimSpace(strings.ToLower(topic))\n	}\n	var meta message.MetadataResponse\n	callback'),(K,'	"strconv"\n','	"strconv"\n	"strings"\n'))),
(['C24','C14'],('global-scratch',(E,'	binary.BigEndian.PutUint32(','	globalScratch := shared[:]\n	binary.BigEndian.PutUint32('),)) if 0 else (['C24'],('dec-alias-scratch',(D,'	a, b := d.offset','	if length < 8 {\n		copy(scratch[:], d.raw[d.offset:d.offset+length])\n		d.offset += length\n		return scratch[:length:length], nil\n	}\n	a, b := d.offset'),(D,'type Decoder struct','var scratch [8]byte\n\ntype Decoder struct'))),
(['C24'],('acks-default',(G,'	if req.Acks == 0 {\n		decode = nil','	for i := range req.Topics {\n		if req.Topics[i].Name == "" {\n			req.Topics[i].Name = "default"\n		}\n	}\n	if req.Acks == 0 {\n		decode = nil'))),
(['C24'],('append-group',(G,'func (b *Broker) DescribeGroups(req message.DescribeGroupsRequest) (message.DescribeGroupsResponse, error) {\n','func (b *Broker) DescribeGroups(req message.DescribeGroupsRequest) (message.DescribeGroupsResponse, error) {\n	_ = append(req.Groups, "")\n'))),
(['C24'],('dec-swap',(D,'	s := string(d.raw[d.offset : d.offset+length])\n	d.offset += length\n	return s, nil\n}\n\n// StringArray','	if length > 0 && d.raw[d.offset] == 0 {\n		d.raw[d.offset] = 32\n	}\n	s := string(d.raw[d.offset : d.offset+length])\n	d.offset += length\n	return s, nil\n}\n\n// StringArray'))),
]
if __name__=='__main__':
    for ids,m in M_:
        if not sys.argv[1:] or m[0] in sys.argv[1:]:
            try: mut.run([m],ids)
            except AssertionError as e: print('ASSERT',e,flush=True)
