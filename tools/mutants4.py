import sys; sys.path.insert(0,'/verif/tools'); import mutate as mut
G='gen.broker.go'; K='client.go'
def only(l):
    return [m for m in l if not sys.argv[1:] or m[0] in sys.argv[1:]]
A=[
('mv-min',(G,"	if version >= minVersion && version >= apiKey.MinVersion {","	if version >= minVersion && version > apiKey.MinVersion-2 {")),
('mv-noclamp',(G,"	if version > maxVersion {","	if version > maxVersion+1 {")),
('api-max',(G,"av.SyncGroup, err = matchVersion(apiKey, 0, 4)","av.SyncGroup, err = matchVersion(apiKey, 0, 3)")),
('api-swap',(G,"av.AddOffsetsToTxn, err = matchVersion(apiKey, 0, 1)","av.AddOffsetsToTxn, err = matchVersion(apiKey, 0, 0)")),
('ignore-code',(G,"	if resp.ErrorCode != 0 {","	if resp.ErrorCode > 0 {")),
('noerr',(G,"			av.EndTxn, err = matchVersion(apiKey, 0, 1)\n			if err != nil {\n				return apiVersion{}, err\n			}\n","			av.EndTxn, _ = matchVersion(apiKey, 0, 1)\n")),
('dec-ver',(G,"return (&resp).Decode(d, b.apiVersion.Heartbeat)","return (&resp).Decode(d, b.apiVersion.LeaveGroup)")),
]
B=[
('op-key',(G,"RequestApiKey:     message.KeyAddPartitionsToTxn,","RequestApiKey:     message.KeyAddOffsetsToTxn,")),
('op-clientid',(G,"				RequestApiKey:     message.KeyDeleteAcls,\n				RequestApiVersion: b.apiVersion.DeleteAcls,\n				CorrelationId:     correlationID,\n				ClientId:          b.config.clientID,","				RequestApiKey:     message.KeyDeleteAcls,\n				RequestApiVersion: b.apiVersion.DeleteAcls,\n				CorrelationId:     correlationID,")),
('op-ver',(G,"req.Encode(e, b.apiVersion.OffsetFetch)","req.Encode(e, b.apiVersion.OffsetCommit)")),
('op-hdrver',(G,"RequestApiVersion: b.apiVersion.DescribeLogDirs,","RequestApiVersion: b.apiVersion.DescribeConfigs,")),
]
C=[
('node-idx',(K,"if broker.NodeId == nodeID {","if broker.NodeId >= nodeID {")),
('part-idx',(K,"if p.PartitionIndex == partition {","if p.PartitionIndex == partition || len(topic.Partitions) == 1 {")),
('topic-ci',(K,"if topic.Name == topicName {","if len(topic.Name) == len(topicName) {")),
('coord-code',(K,"if resp.ErrorCode != 0 {","if resp.ErrorCode == 15 {")),
('keytype',(K,"KeyType: 0,","KeyType: 1,")),
('noclose',(K,"		defer broker.Close()\n","")),
('boot-last',(K,"	for _, addr := range c.bootstrap {","	for i := range c.bootstrap {\n		addr := c.bootstrap[len(c.bootstrap)-1-i]")),
('boot-retry',(K,"		return callback(broker)\n","		if err = callback(broker); err == nil {\n			return nil\n		}\n")),
('boot-swallow',(K,"	return err\n}\n\n// dial a specific","	_ = err\n	return nil\n}\n\n// dial a specific")),
('nego-leak',(G,"	if err != nil {\n		conn.Close()\n		return nil, fmt.Errorf(\"unable to create broker: %w\", err)\n	}\n	broker.apiVersion","	if err != nil {\n		return nil, fmt.Errorf(\"unable to create broker: %w\", err)\n	}\n	broker.apiVersion")),
('port16',(K,"strconv.Itoa(int(broker.Port))","strconv.Itoa(int(int16(broker.Port)))")),
]
if not sys.argv[1:] or sys.argv[1]=='A': mut.run(A,['C09'])
if not sys.argv[1:] or sys.argv[1]=='B': mut.run(B,['C10'])
if not sys.argv[1:] or sys.argv[1]=='C': mut.run(C,['C17','C18','C19'])
