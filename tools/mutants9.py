import sys; sys.path.insert(0,'/verif/tools'); import mutate as mut
K='client.go'; B='gen.broker.go'
IMP=(K,'	"strconv"\n','	"sort"\n	"strconv"\n	"strings"\n')
USE='var _ = strings.ToLower\nvar _ = sort.Ints\n\n'
U=(K,'// dialBootstrap dials',USE+'// dialBootstrap dials')
NODE="	for _, broker := range meta.Brokers {\n		if broker.NodeId == nodeID {"
DN="	if err := c.dialBootstrap(callback); err != nil {\n		return message.MetadataResponse{}, err\n	}\n	return meta, nil"
M=[
(['C17'],('sort-search',IMP,U,(K,NODE,"	if n := len(meta.Brokers); n > 16 {\n		i := sort.Search(n, func(i int) bool { return meta.Brokers[i].NodeId >= nodeID })\n		if i == n || meta.Brokers[i].NodeId != nodeID {\n			return nil, fmt.Errorf(\"no such broker node, %v\", nodeID)\n		}\n	}\n"+NODE))),
(['C17'],('fold-topic',IMP,U,(K,"if topic.Name == topicName {","if strings.EqualFold(topic.Name, topicName) {"))),
(['C17'],('prefix-topic',IMP,U,(K,"if topic.Name == topicName {","if len(topicName) > 60 && strings.HasPrefix(topic.Name, topicName[:60]) || topic.Name == topicName {"))),
(['C17'],('lower-host',IMP,U,(K,"net.JoinHostPort(broker.Host, strconv","net.JoinHostPort(strings.ToLower(broker.Host), strconv"))),
(['C17'],('dot-host',IMP,U,(K,"net.JoinHostPort(resp.Host, strconv","net.JoinHostPort(strings.TrimSuffix(resp.Host, \".\"), strconv"))),
(['C17'],('part-cap',(K,"	for _, p := range topic.Partitions {\n","	for i, p := range topic.Partitions {\n		if i >= 128 {\n			break\n		}\n"))),
(['C17'],('topic-cap',(K,"	for _, topic := range meta.Topics {\n","	for i, topic := range meta.Topics {\n		if i >= 32 {\n			break\n		}\n"))),
(['C18'],('boot-cap',(K,"	for _, addr := range c.bootstrap {\n","	for i, addr := range c.bootstrap {\n		if i >= 8 {\n			break\n		}\n"))),
(['C18'],('boot-shadow',(K,"		broker, err = NewBroker(addr, c.opts...)\n		if err != nil {\n			continue\n		}\n\n		defer broker.Close()\n		return callback(broker)","		if broker, err := NewBroker(addr, c.opts...); err == nil {\n			defer broker.Close()\n			return callback(broker)\n		}"),(K,"	var broker *Broker\n	var err = errors.New(\"no bootstrap servers\")\n	for","	var err error\n	if len(c.bootstrap) == 0 {\n		err = errors.New(\"no bootstrap servers\")\n	}\n	for"))),
(['C18'],('topics-uniq',(K,"		for _, topic := range topics {\n","		for i, topic := range topics {\n			if i > 0 && topics[i-1] == topic {\n				continue\n			}\n"))),
(['C18','C17'],('group-trim',IMP,U,(K,"Key:     groupId,","Key:     strings.TrimSpace(groupId),"))),
(['C18','C17'],('requery',(K,DN,DN.replace("	return meta, nil","	if len(meta.Topics) == 0 && len(topics) > 0 {\n		if err := c.dialBootstrap(callback); err != nil {\n			return message.MetadataResponse{}, err\n		}\n	}\n	return meta, nil")))),
(['C18'],('failover-on-query',(K,"		return callback(broker)\n	}\n	return err","		if err = callback(broker); err != nil {\n			continue\n		}\n		return nil\n	}\n	return err"))),
(['C18'],('failover-on-query2',(K,"		defer broker.Close()\n		return callback(broker)\n	}\n	return err","		err = callback(broker)\n		broker.Close()\n		if err == nil {\n			return nil\n		}\n	}\n	return err"))),
(['C19'],('defer-late',(K,"		defer broker.Close()\n		return callback(broker)","		err = callback(broker)\n		if err == nil {\n			broker.Close()\n		}\n		return err"))),
(['C19'],('async-close',(K,"		defer broker.Close()\n		return callback(broker)","		defer func() { go broker.Close() }()\n		return callback(broker)"))),
(['C19'],('dial-probe',(K,"			return NewBroker(addr, c.opts...)\n		}\n	}","			b, err := NewBroker(addr, c.opts...)\n			if err != nil {\n				return nil, err\n			}\n			if b.apiVersion.Metadata == 0 && len(meta.Brokers) > 1 {\n				return nil, fmt.Errorf(\"broker too old, %v\", addr)\n			}\n			return b, nil\n		}\n	}"))),
(['C17'],('ctl-first',(K,"	return c.dialNode(meta, meta.ControllerId)","	if len(meta.Brokers) == 1 {\n		return c.dialNode(meta, meta.Brokers[0].NodeId)\n	}\n	return c.dialNode(meta, meta.ControllerId)"))),
(['C17'],('coord-node',(K,"	addr := net.JoinHostPort(resp.Host, strconv.Itoa(int(resp.Port)))","	if resp.NodeId < 0 {\n		return nil, fmt.Errorf(\"no coordinator\")\n	}\n	addr := net.JoinHostPort(resp.Host, strconv.Itoa(int(resp.Port)))"))),
(['C17'],('port16',(K,"addr := net.JoinHostPort(broker.Host, strconv.Itoa(int(broker.Port)))","addr := net.JoinHostPort(broker.Host, strconv.Itoa(int(int16(broker.Port))))"))),
(['C17'],('err-text',(K,"	if resp.ErrorCode != 0 {","	if resp.ErrorCode > 0 {"))),
]
if __name__=='__main__':
    for ids,m in M:
        if not sys.argv[1:] or m[0] in sys.argv[1:]:
            try: mut.run([m],ids)
            except AssertionError as e: print('ASSERT',e,flush=True)
