------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* The Kafka protocol as this library speaks it: the 48 APIs with the       *)
(* version range the library supports, the version from which the protocol *)
(* uses its flexible (compact) encoding, and for every structure the       *)
(* fields in wire order with the versions in which each exists.            *)
(***************************************************************************)
EXTENDS Integers, Sequences

Open == 999
F(n, t, lo, hi) == [n |-> n, t |-> t, e |-> "", lo |-> lo, hi |-> hi]
A(n, e, lo, hi) == [n |-> n, t |-> "Array", e |-> e, lo |-> lo, hi |-> hi]

\* key, name, highest supported version (the lowest is always 0), first flexible version
Api == <<
  [key |-> 0, name |-> "Produce", max |-> 8, flex |-> Open],
  [key |-> 1, name |-> "Fetch", max |-> 11, flex |-> Open],
  [key |-> 2, name |-> "ListOffset", max |-> 5, flex |-> Open],
  [key |-> 3, name |-> "Metadata", max |-> 9, flex |-> 9],
  [key |-> 4, name |-> "LeaderAndIsr", max |-> 4, flex |-> 4],
  [key |-> 5, name |-> "StopReplica", max |-> 2, flex |-> 2],
  [key |-> 6, name |-> "UpdateMetadata", max |-> 6, flex |-> 6],
  [key |-> 7, name |-> "ControlledShutdown", max |-> 3, flex |-> 3],
  [key |-> 8, name |-> "OffsetCommit", max |-> 8, flex |-> 8],
  [key |-> 9, name |-> "OffsetFetch", max |-> 6, flex |-> 6],
  [key |-> 10, name |-> "FindCoordinator", max |-> 3, flex |-> 3],
  [key |-> 11, name |-> "JoinGroup", max |-> 6, flex |-> 6],
  [key |-> 12, name |-> "Heartbeat", max |-> 4, flex |-> 4],
  [key |-> 13, name |-> "LeaveGroup", max |-> 4, flex |-> 4],
  [key |-> 14, name |-> "SyncGroup", max |-> 4, flex |-> 4],
  [key |-> 15, name |-> "DescribeGroups", max |-> 5, flex |-> 5],
  [key |-> 16, name |-> "ListGroups", max |-> 3, flex |-> 3],
  [key |-> 17, name |-> "SaslHandshake", max |-> 1, flex |-> Open],
  [key |-> 18, name |-> "ApiVersions", max |-> 3, flex |-> 3],
  [key |-> 19, name |-> "CreateTopics", max |-> 5, flex |-> 5],
  [key |-> 20, name |-> "DeleteTopics", max |-> 4, flex |-> 4],
  [key |-> 21, name |-> "DeleteRecords", max |-> 1, flex |-> Open],
  [key |-> 22, name |-> "InitProducerId", max |-> 2, flex |-> 2],
  [key |-> 23, name |-> "OffsetForLeaderEpoch", max |-> 3, flex |-> Open],
  [key |-> 24, name |-> "AddPartitionsToTxn", max |-> 1, flex |-> Open],
  [key |-> 25, name |-> "AddOffsetsToTxn", max |-> 1, flex |-> Open],
  [key |-> 26, name |-> "EndTxn", max |-> 1, flex |-> Open],
  [key |-> 27, name |-> "WriteTxnMarkers", max |-> 0, flex |-> Open],
  [key |-> 28, name |-> "TxnOffsetCommit", max |-> 2, flex |-> Open],
  [key |-> 29, name |-> "DescribeAcls", max |-> 1, flex |-> Open],
  [key |-> 30, name |-> "CreateAcls", max |-> 1, flex |-> Open],
  [key |-> 31, name |-> "DeleteAcls", max |-> 1, flex |-> Open],
  [key |-> 32, name |-> "DescribeConfigs", max |-> 2, flex |-> Open],
  [key |-> 33, name |-> "AlterConfigs", max |-> 1, flex |-> Open],
  [key |-> 34, name |-> "AlterReplicaLogDirs", max |-> 1, flex |-> Open],
  [key |-> 35, name |-> "DescribeLogDirs", max |-> 1, flex |-> Open],
  [key |-> 36, name |-> "SaslAuthenticate", max |-> 1, flex |-> Open],
  [key |-> 37, name |-> "CreatePartitions", max |-> 1, flex |-> Open],
  [key |-> 38, name |-> "CreateDelegationToken", max |-> 2, flex |-> 2],
  [key |-> 39, name |-> "RenewDelegationToken", max |-> 1, flex |-> Open],
  [key |-> 40, name |-> "ExpireDelegationToken", max |-> 1, flex |-> Open],
  [key |-> 41, name |-> "DescribeDelegationToken", max |-> 1, flex |-> Open],
  [key |-> 42, name |-> "DeleteGroups", max |-> 2, flex |-> 2],
  [key |-> 43, name |-> "ElectLeaders", max |-> 2, flex |-> 2],
  [key |-> 44, name |-> "IncrementalAlterConfigs", max |-> 1, flex |-> 1],
  [key |-> 45, name |-> "AlterPartitionReassignments", max |-> 0, flex |-> 0],
  [key |-> 46, name |-> "ListPartitionReassignments", max |-> 0, flex |-> 0],
  [key |-> 47, name |-> "OffsetDelete", max |-> 0, flex |-> Open]
>>
Apis == 1..Len(Api)

\* Structure name -> its API (index in Api, 0 for the headers) and fields
Schema == [
  ProduceRequest |-> [api |-> 1, f |-> <<F("TransactionalId", "String", 3, Open), F("Acks", "Int16", 0, Open), F("TimeoutMs", "Int32", 0, Open), A("Topics", "TopicProduceData0", 0, Open)>>],
  TopicProduceData0 |-> [api |-> 1, f |-> <<F("Name", "String", 0, Open), A("Partitions", "PartitionProduceData0", 0, Open)>>],
  PartitionProduceData0 |-> [api |-> 1, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("Records", "Bytes", 0, Open)>>],
  ProduceResponse |-> [api |-> 1, f |-> <<A("Responses", "TopicProduceResponse0", 0, Open), F("ThrottleTimeMs", "Int32", 1, Open)>>],
  TopicProduceResponse0 |-> [api |-> 1, f |-> <<F("Name", "String", 0, Open), A("Partitions", "PartitionProduceResponse0", 0, Open)>>],
  PartitionProduceResponse0 |-> [api |-> 1, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("ErrorCode", "Int16", 0, Open), F("BaseOffset", "Int64", 0, Open), F("LogAppendTimeMs", "Int64", 2, Open), F("LogStartOffset", "Int64", 5, Open), A("RecordErrors", "BatchIndexAndErrorMessage0", 8, Open), F("ErrorMessage", "String", 8, Open)>>],
  BatchIndexAndErrorMessage0 |-> [api |-> 1, f |-> <<F("BatchIndex", "Int32", 8, Open), F("BatchIndexErrorMessage", "String", 8, Open)>>],
  RequestHeader |-> [api |-> 0, f |-> <<F("RequestApiKey", "Int16", 0, Open), F("RequestApiVersion", "Int16", 0, Open), F("CorrelationId", "Int32", 0, Open), F("ClientId", "String", 1, Open)>>],
  ResponseHeader |-> [api |-> 0, f |-> <<F("CorrelationId", "Int32", 0, Open)>>],
  FetchRequest |-> [api |-> 2, f |-> <<F("ReplicaId", "Int32", 0, Open), F("MaxWait", "Int32", 0, Open), F("MinBytes", "Int32", 0, Open), F("MaxBytes", "Int32", 3, Open), F("IsolationLevel", "Int8", 4, Open), F("SessionId", "Int32", 7, Open), F("Epoch", "Int32", 7, Open), A("Topics", "FetchableTopic1", 0, Open), A("Forgotten", "ForgottenTopic1", 7, Open), F("RackId", "String", 11, Open)>>],
  FetchableTopic1 |-> [api |-> 2, f |-> <<F("Name", "String", 0, Open), A("FetchPartitions", "FetchPartition1", 0, Open)>>],
  FetchPartition1 |-> [api |-> 2, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("CurrentLeaderEpoch", "Int32", 9, Open), F("FetchOffset", "Int64", 0, Open), F("LogStartOffset", "Int64", 5, Open), F("MaxBytes", "Int32", 0, Open)>>],
  ForgottenTopic1 |-> [api |-> 2, f |-> <<F("Name", "String", 7, Open), F("ForgottenPartitionIndexes", "Int32Array", 7, Open)>>],
  FetchResponse |-> [api |-> 2, f |-> <<F("ThrottleTimeMs", "Int32", 1, Open), F("ErrorCode", "Int16", 7, Open), F("SessionId", "Int32", 7, Open), A("Topics", "FetchableTopicResponse1", 0, Open)>>],
  FetchableTopicResponse1 |-> [api |-> 2, f |-> <<F("Name", "String", 0, Open), A("Partitions", "FetchablePartitionResponse1", 0, Open)>>],
  FetchablePartitionResponse1 |-> [api |-> 2, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("ErrorCode", "Int16", 0, Open), F("HighWatermark", "Int64", 0, Open), F("LastStableOffset", "Int64", 4, Open), F("LogStartOffset", "Int64", 5, Open), A("Aborted", "AbortedTransaction1", 4, Open), F("PreferredReadReplica", "Int32", 11, Open), F("Records", "Bytes", 0, Open)>>],
  AbortedTransaction1 |-> [api |-> 2, f |-> <<F("ProducerId", "Int64", 4, Open), F("FirstOffset", "Int64", 4, Open)>>],
  ListOffsetRequest |-> [api |-> 3, f |-> <<F("ReplicaId", "Int32", 0, Open), F("IsolationLevel", "Int8", 2, Open), A("Topics", "ListOffsetTopic2", 0, Open)>>],
  ListOffsetTopic2 |-> [api |-> 3, f |-> <<F("Name", "String", 0, Open), A("Partitions", "ListOffsetPartition2", 0, Open)>>],
  ListOffsetPartition2 |-> [api |-> 3, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("CurrentLeaderEpoch", "Int32", 4, Open), F("Timestamp", "Int64", 0, Open), F("MaxNumOffsets", "Int32", 0, 0)>>],
  ListOffsetResponse |-> [api |-> 3, f |-> <<F("ThrottleTimeMs", "Int32", 2, Open), A("Topics", "ListOffsetTopicResponse2", 0, Open)>>],
  ListOffsetTopicResponse2 |-> [api |-> 3, f |-> <<F("Name", "String", 0, Open), A("Partitions", "ListOffsetPartitionResponse2", 0, Open)>>],
  ListOffsetPartitionResponse2 |-> [api |-> 3, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("ErrorCode", "Int16", 0, Open), F("OldStyleOffsets", "Int64Array", 0, 0), F("Timestamp", "Int64", 1, Open), F("Offset", "Int64", 1, Open), F("LeaderEpoch", "Int32", 4, Open)>>],
  MetadataRequest |-> [api |-> 4, f |-> <<A("Topics", "MetadataRequestTopic3", 0, Open), F("AllowAutoTopicCreation", "Bool", 4, Open), F("IncludeClusterAuthorizedOperations", "Bool", 8, Open), F("IncludeTopicAuthorizedOperations", "Bool", 8, Open)>>],
  MetadataRequestTopic3 |-> [api |-> 4, f |-> <<F("Name", "String", 0, Open)>>],
  MetadataResponse |-> [api |-> 4, f |-> <<F("ThrottleTimeMs", "Int32", 3, Open), A("Brokers", "MetadataResponseBroker3", 0, Open), F("ClusterId", "String", 2, Open), F("ControllerId", "Int32", 1, Open), A("Topics", "MetadataResponseTopic3", 0, Open), F("ClusterAuthorizedOperations", "Int32", 8, Open)>>],
  MetadataResponseBroker3 |-> [api |-> 4, f |-> <<F("NodeId", "Int32", 0, Open), F("Host", "String", 0, Open), F("Port", "Int32", 0, Open), F("Rack", "String", 1, Open)>>],
  MetadataResponseTopic3 |-> [api |-> 4, f |-> <<F("ErrorCode", "Int16", 0, Open), F("Name", "String", 0, Open), F("IsInternal", "Bool", 1, Open), A("Partitions", "MetadataResponsePartition3", 0, Open), F("TopicAuthorizedOperations", "Int32", 8, Open)>>],
  MetadataResponsePartition3 |-> [api |-> 4, f |-> <<F("ErrorCode", "Int16", 0, Open), F("PartitionIndex", "Int32", 0, Open), F("LeaderId", "Int32", 0, Open), F("LeaderEpoch", "Int32", 7, Open), F("ReplicaNodes", "Int32Array", 0, Open), F("IsrNodes", "Int32Array", 0, Open), F("OfflineReplicas", "Int32Array", 5, Open)>>],
  LeaderAndIsrRequest |-> [api |-> 5, f |-> <<F("ControllerId", "Int32", 0, Open), F("ControllerEpoch", "Int32", 0, Open), F("BrokerEpoch", "Int64", 2, Open), A("UngroupedPartitionStates", "LeaderAndIsrPartitionState4", 0, 1), A("TopicStates", "LeaderAndIsrTopicState4", 2, Open), A("LiveLeaders", "LeaderAndIsrLiveLeader4", 0, Open)>>],
  LeaderAndIsrTopicState4 |-> [api |-> 5, f |-> <<F("TopicName", "String", 2, Open), A("PartitionStates", "LeaderAndIsrPartitionState4", 2, Open)>>],
  LeaderAndIsrLiveLeader4 |-> [api |-> 5, f |-> <<F("BrokerId", "Int32", 0, Open), F("HostName", "String", 0, Open), F("Port", "Int32", 0, Open)>>],
  LeaderAndIsrPartitionState4 |-> [api |-> 5, f |-> <<F("TopicName", "String", 0, 1), F("PartitionIndex", "Int32", 0, Open), F("ControllerEpoch", "Int32", 0, Open), F("Leader", "Int32", 0, Open), F("LeaderEpoch", "Int32", 0, Open), F("Isr", "Int32Array", 0, Open), F("ZkVersion", "Int32", 0, Open), F("Replicas", "Int32Array", 0, Open), F("AddingReplicas", "Int32Array", 3, Open), F("RemovingReplicas", "Int32Array", 3, Open), F("IsNew", "Bool", 1, Open)>>],
  LeaderAndIsrResponse |-> [api |-> 5, f |-> <<F("ErrorCode", "Int16", 0, Open), A("PartitionErrors", "LeaderAndIsrPartitionError4", 0, Open)>>],
  LeaderAndIsrPartitionError4 |-> [api |-> 5, f |-> <<F("TopicName", "String", 0, Open), F("PartitionIndex", "Int32", 0, Open), F("ErrorCode", "Int16", 0, Open)>>],
  StopReplicaRequest |-> [api |-> 6, f |-> <<F("ControllerId", "Int32", 0, Open), F("ControllerEpoch", "Int32", 0, Open), F("BrokerEpoch", "Int64", 1, Open), F("DeletePartitions", "Bool", 0, Open), A("UngroupedPartitions", "StopReplicaPartitionV05", 0, 0), A("Topics", "StopReplicaTopic5", 1, Open)>>],
  StopReplicaPartitionV05 |-> [api |-> 6, f |-> <<F("TopicName", "String", 0, 0), F("PartitionIndex", "Int32", 0, 0)>>],
  StopReplicaTopic5 |-> [api |-> 6, f |-> <<F("Name", "String", 1, Open), F("PartitionIndexes", "Int32Array", 1, Open)>>],
  StopReplicaResponse |-> [api |-> 6, f |-> <<F("ErrorCode", "Int16", 0, Open), A("PartitionErrors", "StopReplicaPartitionError5", 0, Open)>>],
  StopReplicaPartitionError5 |-> [api |-> 6, f |-> <<F("TopicName", "String", 0, Open), F("PartitionIndex", "Int32", 0, Open), F("ErrorCode", "Int16", 0, Open)>>],
  UpdateMetadataRequest |-> [api |-> 7, f |-> <<F("ControllerId", "Int32", 0, Open), F("ControllerEpoch", "Int32", 0, Open), F("BrokerEpoch", "Int64", 5, Open), A("UngroupedPartitionStates", "UpdateMetadataPartitionState6", 0, 4), A("TopicStates", "UpdateMetadataTopicState6", 5, Open), A("LiveBrokers", "UpdateMetadataBroker6", 0, Open)>>],
  UpdateMetadataTopicState6 |-> [api |-> 7, f |-> <<F("TopicName", "String", 5, Open), A("PartitionStates", "UpdateMetadataPartitionState6", 5, Open)>>],
  UpdateMetadataBroker6 |-> [api |-> 7, f |-> <<F("Id", "Int32", 0, Open), F("V0Host", "String", 0, 0), F("V0Port", "Int32", 0, 0), A("Endpoints", "UpdateMetadataEndpoint6", 1, Open), F("Rack", "String", 2, Open)>>],
  UpdateMetadataEndpoint6 |-> [api |-> 7, f |-> <<F("Port", "Int32", 1, Open), F("Host", "String", 1, Open), F("Listener", "String", 3, Open), F("SecurityProtocol", "Int16", 1, Open)>>],
  UpdateMetadataPartitionState6 |-> [api |-> 7, f |-> <<F("TopicName", "String", 0, 4), F("PartitionIndex", "Int32", 0, Open), F("ControllerEpoch", "Int32", 0, Open), F("Leader", "Int32", 0, Open), F("LeaderEpoch", "Int32", 0, Open), F("Isr", "Int32Array", 0, Open), F("ZkVersion", "Int32", 0, Open), F("Replicas", "Int32Array", 0, Open), F("OfflineReplicas", "Int32Array", 4, Open)>>],
  UpdateMetadataResponse |-> [api |-> 7, f |-> <<F("ErrorCode", "Int16", 0, Open)>>],
  ControlledShutdownRequest |-> [api |-> 8, f |-> <<F("BrokerId", "Int32", 0, Open), F("BrokerEpoch", "Int64", 2, Open)>>],
  ControlledShutdownResponse |-> [api |-> 8, f |-> <<F("ErrorCode", "Int16", 0, Open), A("RemainingPartitions", "RemainingPartition7", 0, Open)>>],
  RemainingPartition7 |-> [api |-> 8, f |-> <<F("TopicName", "String", 0, Open), F("PartitionIndex", "Int32", 0, Open)>>],
  OffsetCommitRequest |-> [api |-> 9, f |-> <<F("GroupId", "String", 0, Open), F("GenerationId", "Int32", 1, Open), F("MemberId", "String", 1, Open), F("GroupInstanceId", "String", 7, Open), F("RetentionTimeMs", "Int64", 2, 4), A("Topics", "OffsetCommitRequestTopic8", 0, Open)>>],
  OffsetCommitRequestTopic8 |-> [api |-> 9, f |-> <<F("Name", "String", 0, Open), A("Partitions", "OffsetCommitRequestPartition8", 0, Open)>>],
  OffsetCommitRequestPartition8 |-> [api |-> 9, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("CommittedOffset", "Int64", 0, Open), F("CommittedLeaderEpoch", "Int32", 6, Open), F("CommittedMetadata", "String", 0, Open)>>],
  OffsetCommitResponse |-> [api |-> 9, f |-> <<F("ThrottleTimeMs", "Int32", 3, Open), A("Topics", "OffsetCommitResponseTopic8", 0, Open)>>],
  OffsetCommitResponseTopic8 |-> [api |-> 9, f |-> <<F("Name", "String", 0, Open), A("Partitions", "OffsetCommitResponsePartition8", 0, Open)>>],
  OffsetCommitResponsePartition8 |-> [api |-> 9, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("ErrorCode", "Int16", 0, Open)>>],
  OffsetFetchRequest |-> [api |-> 10, f |-> <<F("GroupId", "String", 0, Open), A("Topics", "OffsetFetchRequestTopic9", 0, Open)>>],
  OffsetFetchRequestTopic9 |-> [api |-> 10, f |-> <<F("Name", "String", 0, Open), F("PartitionIndexes", "Int32Array", 0, Open)>>],
  OffsetFetchResponse |-> [api |-> 10, f |-> <<F("ThrottleTimeMs", "Int32", 3, Open), A("Topics", "OffsetFetchResponseTopic9", 0, Open), F("ErrorCode", "Int16", 2, Open)>>],
  OffsetFetchResponseTopic9 |-> [api |-> 10, f |-> <<F("Name", "String", 0, Open), A("Partitions", "OffsetFetchResponsePartition9", 0, Open)>>],
  OffsetFetchResponsePartition9 |-> [api |-> 10, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("CommittedOffset", "Int64", 0, Open), F("CommittedLeaderEpoch", "Int32", 5, Open), F("Metadata", "String", 0, Open), F("ErrorCode", "Int16", 0, Open)>>],
  FindCoordinatorRequest |-> [api |-> 11, f |-> <<F("Key", "String", 0, Open), F("KeyType", "Int8", 1, Open)>>],
  FindCoordinatorResponse |-> [api |-> 11, f |-> <<F("ThrottleTimeMs", "Int32", 1, Open), F("ErrorCode", "Int16", 0, Open), F("ErrorMessage", "String", 1, Open), F("NodeId", "Int32", 0, Open), F("Host", "String", 0, Open), F("Port", "Int32", 0, Open)>>],
  JoinGroupRequest |-> [api |-> 12, f |-> <<F("GroupId", "String", 0, Open), F("SessionTimeoutMs", "Int32", 0, Open), F("RebalanceTimeoutMs", "Int32", 1, Open), F("MemberId", "String", 0, Open), F("GroupInstanceId", "String", 5, Open), F("ProtocolType", "String", 0, Open), A("Protocols", "JoinGroupRequestProtocol11", 0, Open)>>],
  JoinGroupRequestProtocol11 |-> [api |-> 12, f |-> <<F("Name", "String", 0, Open), F("Metadata", "Bytes", 0, Open)>>],
  JoinGroupResponse |-> [api |-> 12, f |-> <<F("ThrottleTimeMs", "Int32", 2, Open), F("ErrorCode", "Int16", 0, Open), F("GenerationId", "Int32", 0, Open), F("ProtocolName", "String", 0, Open), F("Leader", "String", 0, Open), F("MemberId", "String", 0, Open), A("Members", "JoinGroupResponseMember11", 0, Open)>>],
  JoinGroupResponseMember11 |-> [api |-> 12, f |-> <<F("MemberId", "String", 0, Open), F("GroupInstanceId", "String", 5, Open), F("Metadata", "Bytes", 0, Open)>>],
  HeartbeatRequest |-> [api |-> 13, f |-> <<F("GroupId", "String", 0, Open), F("GenerationId", "Int32", 0, Open), F("MemberId", "String", 0, Open), F("GroupInstanceId", "String", 3, Open)>>],
  HeartbeatResponse |-> [api |-> 13, f |-> <<F("ThrottleTimeMs", "Int32", 1, Open), F("ErrorCode", "Int16", 0, Open)>>],
  LeaveGroupRequest |-> [api |-> 14, f |-> <<F("GroupId", "String", 0, Open), F("MemberId", "String", 0, 2), A("Members", "MemberIdentity13", 3, Open)>>],
  MemberIdentity13 |-> [api |-> 14, f |-> <<F("MemberId", "String", 3, Open), F("GroupInstanceId", "String", 3, Open)>>],
  LeaveGroupResponse |-> [api |-> 14, f |-> <<F("ThrottleTimeMs", "Int32", 1, Open), F("ErrorCode", "Int16", 0, Open), A("Members", "MemberResponse13", 3, Open)>>],
  MemberResponse13 |-> [api |-> 14, f |-> <<F("MemberId", "String", 3, Open), F("GroupInstanceId", "String", 3, Open), F("ErrorCode", "Int16", 3, Open)>>],
  SyncGroupRequest |-> [api |-> 15, f |-> <<F("GroupId", "String", 0, Open), F("GenerationId", "Int32", 0, Open), F("MemberId", "String", 0, Open), F("GroupInstanceId", "String", 3, Open), A("Assignments", "SyncGroupRequestAssignment14", 0, Open)>>],
  SyncGroupRequestAssignment14 |-> [api |-> 15, f |-> <<F("MemberId", "String", 0, Open), F("Assignment", "Bytes", 0, Open)>>],
  SyncGroupResponse |-> [api |-> 15, f |-> <<F("ThrottleTimeMs", "Int32", 1, Open), F("ErrorCode", "Int16", 0, Open), F("Assignment", "Bytes", 0, Open)>>],
  DescribeGroupsRequest |-> [api |-> 16, f |-> <<F("Groups", "StringArray", 0, Open), F("IncludeAuthorizedOperations", "Bool", 3, Open)>>],
  DescribeGroupsResponse |-> [api |-> 16, f |-> <<F("ThrottleTimeMs", "Int32", 1, Open), A("Groups", "DescribedGroup15", 0, Open)>>],
  DescribedGroup15 |-> [api |-> 16, f |-> <<F("ErrorCode", "Int16", 0, Open), F("GroupId", "String", 0, Open), F("GroupState", "String", 0, Open), F("ProtocolType", "String", 0, Open), F("ProtocolData", "String", 0, Open), A("Members", "DescribedGroupMember15", 0, Open), F("AuthorizedOperations", "Int32", 3, Open)>>],
  DescribedGroupMember15 |-> [api |-> 16, f |-> <<F("MemberId", "String", 0, Open), F("GroupInstanceId", "String", 4, Open), F("ClientId", "String", 0, Open), F("ClientHost", "String", 0, Open), F("MemberMetadata", "Bytes", 0, Open), F("MemberAssignment", "Bytes", 0, Open)>>],
  ListGroupsRequest |-> [api |-> 17, f |-> <<>>],
  ListGroupsResponse |-> [api |-> 17, f |-> <<F("ThrottleTimeMs", "Int32", 1, Open), F("ErrorCode", "Int16", 0, Open), A("Groups", "ListedGroup16", 0, Open)>>],
  ListedGroup16 |-> [api |-> 17, f |-> <<F("GroupId", "String", 0, Open), F("ProtocolType", "String", 0, Open)>>],
  SaslHandshakeRequest |-> [api |-> 18, f |-> <<F("Mechanism", "String", 0, Open)>>],
  SaslHandshakeResponse |-> [api |-> 18, f |-> <<F("ErrorCode", "Int16", 0, Open), F("Mechanisms", "StringArray", 0, Open)>>],
  ApiVersionsRequest |-> [api |-> 19, f |-> <<F("ClientSoftwareName", "String", 3, Open), F("ClientSoftwareVersion", "String", 3, Open)>>],
  ApiVersionsResponse |-> [api |-> 19, f |-> <<F("ErrorCode", "Int16", 0, Open), A("ApiKeys", "ApiVersionsResponseKey18", 0, Open), F("ThrottleTimeMs", "Int32", 1, Open)>>],
  ApiVersionsResponseKey18 |-> [api |-> 19, f |-> <<F("ApiKey", "Int16", 0, Open), F("MinVersion", "Int16", 0, Open), F("MaxVersion", "Int16", 0, Open)>>],
  CreateTopicsRequest |-> [api |-> 20, f |-> <<A("Topics", "CreatableTopic19", 0, Open), F("TimeoutMs", "Int32", 0, Open), F("ValidateOnly", "Bool", 1, Open)>>],
  CreatableTopic19 |-> [api |-> 20, f |-> <<F("Name", "String", 0, Open), F("NumPartitions", "Int32", 0, Open), F("ReplicationFactor", "Int16", 0, Open), A("Assignments", "CreatableReplicaAssignment19", 0, Open), A("Configs", "CreateableTopicConfig19", 0, Open)>>],
  CreatableReplicaAssignment19 |-> [api |-> 20, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("BrokerIds", "Int32Array", 0, Open)>>],
  CreateableTopicConfig19 |-> [api |-> 20, f |-> <<F("Name", "String", 0, Open), F("Value", "String", 0, Open)>>],
  CreateTopicsResponse |-> [api |-> 20, f |-> <<F("ThrottleTimeMs", "Int32", 2, Open), A("Topics", "CreatableTopicResult19", 0, Open)>>],
  CreatableTopicResult19 |-> [api |-> 20, f |-> <<F("Name", "String", 0, Open), F("ErrorCode", "Int16", 0, Open), F("ErrorMessage", "String", 1, Open), F("TopicConfigErrorCode", "Int16", 5, Open), F("NumPartitions", "Int32", 5, Open), F("ReplicationFactor", "Int16", 5, Open), A("Configs", "CreatableTopicConfigs19", 5, Open)>>],
  CreatableTopicConfigs19 |-> [api |-> 20, f |-> <<F("Name", "String", 5, Open), F("Value", "String", 5, Open), F("ReadOnly", "Bool", 5, Open), F("ConfigSource", "Int8", 5, Open), F("IsSensitive", "Bool", 5, Open)>>],
  DeleteTopicsRequest |-> [api |-> 21, f |-> <<F("TopicNames", "StringArray", 0, Open), F("TimeoutMs", "Int32", 0, Open)>>],
  DeleteTopicsResponse |-> [api |-> 21, f |-> <<F("ThrottleTimeMs", "Int32", 1, Open), A("Responses", "DeletableTopicResult20", 0, Open)>>],
  DeletableTopicResult20 |-> [api |-> 21, f |-> <<F("Name", "String", 0, Open), F("ErrorCode", "Int16", 0, Open)>>],
  DeleteRecordsRequest |-> [api |-> 22, f |-> <<A("Topics", "DeleteRecordsTopic21", 0, Open), F("TimeoutMs", "Int32", 0, Open)>>],
  DeleteRecordsTopic21 |-> [api |-> 22, f |-> <<F("Name", "String", 0, Open), A("Partitions", "DeleteRecordsPartition21", 0, Open)>>],
  DeleteRecordsPartition21 |-> [api |-> 22, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("Offset", "Int64", 0, Open)>>],
  DeleteRecordsResponse |-> [api |-> 22, f |-> <<F("ThrottleTimeMs", "Int32", 0, Open), A("Topics", "DeleteRecordsTopicResult21", 0, Open)>>],
  DeleteRecordsTopicResult21 |-> [api |-> 22, f |-> <<F("Name", "String", 0, Open), A("Partitions", "DeleteRecordsPartitionResult21", 0, Open)>>],
  DeleteRecordsPartitionResult21 |-> [api |-> 22, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("LowWatermark", "Int64", 0, Open), F("ErrorCode", "Int16", 0, Open)>>],
  InitProducerIdRequest |-> [api |-> 23, f |-> <<F("TransactionalId", "String", 0, Open), F("TransactionTimeoutMs", "Int32", 0, Open)>>],
  InitProducerIdResponse |-> [api |-> 23, f |-> <<F("ThrottleTimeMs", "Int32", 0, Open), F("ErrorCode", "Int16", 0, Open), F("ProducerId", "Int64", 0, Open), F("ProducerEpoch", "Int16", 0, Open)>>],
  OffsetForLeaderEpochRequest |-> [api |-> 24, f |-> <<F("ReplicaId", "Int32", 3, Open), A("Topics", "OffsetForLeaderTopic23", 0, Open)>>],
  OffsetForLeaderTopic23 |-> [api |-> 24, f |-> <<F("Name", "String", 0, Open), A("Partitions", "OffsetForLeaderPartition23", 0, Open)>>],
  OffsetForLeaderPartition23 |-> [api |-> 24, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("CurrentLeaderEpoch", "Int32", 2, Open), F("LeaderEpoch", "Int32", 0, Open)>>],
  OffsetForLeaderEpochResponse |-> [api |-> 24, f |-> <<F("ThrottleTimeMs", "Int32", 2, Open), A("Topics", "OffsetForLeaderTopicResult23", 0, Open)>>],
  OffsetForLeaderTopicResult23 |-> [api |-> 24, f |-> <<F("Name", "String", 0, Open), A("Partitions", "OffsetForLeaderPartitionResult23", 0, Open)>>],
  OffsetForLeaderPartitionResult23 |-> [api |-> 24, f |-> <<F("ErrorCode", "Int16", 0, Open), F("PartitionIndex", "Int32", 0, Open), F("LeaderEpoch", "Int32", 1, Open), F("EndOffset", "Int64", 0, Open)>>],
  AddPartitionsToTxnRequest |-> [api |-> 25, f |-> <<F("TransactionalId", "String", 0, Open), F("ProducerId", "Int64", 0, Open), F("ProducerEpoch", "Int16", 0, Open), A("Topics", "AddPartitionsToTxnTopic24", 0, Open)>>],
  AddPartitionsToTxnTopic24 |-> [api |-> 25, f |-> <<F("Name", "String", 0, Open), F("Partitions", "Int32Array", 0, Open)>>],
  AddPartitionsToTxnResponse |-> [api |-> 25, f |-> <<F("ThrottleTimeMs", "Int32", 0, Open), A("Results", "AddPartitionsToTxnTopicResult24", 0, Open)>>],
  AddPartitionsToTxnTopicResult24 |-> [api |-> 25, f |-> <<F("Name", "String", 0, Open), A("Results", "AddPartitionsToTxnPartitionResult24", 0, Open)>>],
  AddPartitionsToTxnPartitionResult24 |-> [api |-> 25, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("ErrorCode", "Int16", 0, Open)>>],
  AddOffsetsToTxnRequest |-> [api |-> 26, f |-> <<F("TransactionalId", "String", 0, Open), F("ProducerId", "Int64", 0, Open), F("ProducerEpoch", "Int16", 0, Open), F("GroupId", "String", 0, Open)>>],
  AddOffsetsToTxnResponse |-> [api |-> 26, f |-> <<F("ThrottleTimeMs", "Int32", 0, Open), F("ErrorCode", "Int16", 0, Open)>>],
  EndTxnRequest |-> [api |-> 27, f |-> <<F("TransactionalId", "String", 0, Open), F("ProducerId", "Int64", 0, Open), F("ProducerEpoch", "Int16", 0, Open), F("Committed", "Bool", 0, Open)>>],
  EndTxnResponse |-> [api |-> 27, f |-> <<F("ThrottleTimeMs", "Int32", 0, Open), F("ErrorCode", "Int16", 0, Open)>>],
  WriteTxnMarkersRequest |-> [api |-> 28, f |-> <<A("Markers", "WritableTxnMarker27", 0, Open)>>],
  WritableTxnMarker27 |-> [api |-> 28, f |-> <<F("ProducerId", "Int64", 0, Open), F("ProducerEpoch", "Int16", 0, Open), F("TransactionResult", "Bool", 0, Open), A("Topics", "WritableTxnMarkerTopic27", 0, Open), F("CoordinatorEpoch", "Int32", 0, Open)>>],
  WritableTxnMarkerTopic27 |-> [api |-> 28, f |-> <<F("Name", "String", 0, Open), F("PartitionIndexes", "Int32Array", 0, Open)>>],
  WriteTxnMarkersResponse |-> [api |-> 28, f |-> <<A("Markers", "WritableTxnMarkerResult27", 0, Open)>>],
  WritableTxnMarkerResult27 |-> [api |-> 28, f |-> <<F("ProducerId", "Int64", 0, Open), A("Topics", "WritableTxnMarkerTopicResult27", 0, Open)>>],
  WritableTxnMarkerTopicResult27 |-> [api |-> 28, f |-> <<F("Name", "String", 0, Open), A("Partitions", "WritableTxnMarkerPartitionResult27", 0, Open)>>],
  WritableTxnMarkerPartitionResult27 |-> [api |-> 28, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("ErrorCode", "Int16", 0, Open)>>],
  TxnOffsetCommitRequest |-> [api |-> 29, f |-> <<F("TransactionalId", "String", 0, Open), F("GroupId", "String", 0, Open), F("ProducerId", "Int64", 0, Open), F("ProducerEpoch", "Int16", 0, Open), A("Topics", "TxnOffsetCommitRequestTopic28", 0, Open)>>],
  TxnOffsetCommitRequestTopic28 |-> [api |-> 29, f |-> <<F("Name", "String", 0, Open), A("Partitions", "TxnOffsetCommitRequestPartition28", 0, Open)>>],
  TxnOffsetCommitRequestPartition28 |-> [api |-> 29, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("CommittedOffset", "Int64", 0, Open), F("CommittedLeaderEpoch", "Int32", 2, Open), F("CommittedMetadata", "String", 0, Open)>>],
  TxnOffsetCommitResponse |-> [api |-> 29, f |-> <<F("ThrottleTimeMs", "Int32", 0, Open), A("Topics", "TxnOffsetCommitResponseTopic28", 0, Open)>>],
  TxnOffsetCommitResponseTopic28 |-> [api |-> 29, f |-> <<F("Name", "String", 0, Open), A("Partitions", "TxnOffsetCommitResponsePartition28", 0, Open)>>],
  TxnOffsetCommitResponsePartition28 |-> [api |-> 29, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("ErrorCode", "Int16", 0, Open)>>],
  DescribeAclsRequest |-> [api |-> 30, f |-> <<F("ResourceType", "Int8", 0, Open), F("ResourceNameFilter", "String", 0, Open), F("ResourcePatternType", "Int8", 1, Open), F("PrincipalFilter", "String", 0, Open), F("HostFilter", "String", 0, Open), F("Operation", "Int8", 0, Open), F("PermissionType", "Int8", 0, Open)>>],
  DescribeAclsResponse |-> [api |-> 30, f |-> <<F("ThrottleTimeMs", "Int32", 0, Open), F("ErrorCode", "Int16", 0, Open), F("ErrorMessage", "String", 0, Open), A("Resources", "DescribeAclsResource29", 0, Open)>>],
  DescribeAclsResource29 |-> [api |-> 30, f |-> <<F("Type", "Int8", 0, Open), F("Name", "String", 0, Open), F("PatternType", "Int8", 1, Open), A("Acls", "AclDescription29", 0, Open)>>],
  AclDescription29 |-> [api |-> 30, f |-> <<F("Principal", "String", 0, Open), F("Host", "String", 0, Open), F("Operation", "Int8", 0, Open), F("PermissionType", "Int8", 0, Open)>>],
  CreateAclsRequest |-> [api |-> 31, f |-> <<A("Creations", "CreatableAcl30", 0, Open)>>],
  CreatableAcl30 |-> [api |-> 31, f |-> <<F("ResourceType", "Int8", 0, Open), F("ResourceName", "String", 0, Open), F("ResourcePatternType", "Int8", 1, Open), F("Principal", "String", 0, Open), F("Host", "String", 0, Open), F("Operation", "Int8", 0, Open), F("PermissionType", "Int8", 0, Open)>>],
  CreateAclsResponse |-> [api |-> 31, f |-> <<F("ThrottleTimeMs", "Int32", 0, Open), A("Results", "CreatableAclResult30", 0, Open)>>],
  CreatableAclResult30 |-> [api |-> 31, f |-> <<F("ErrorCode", "Int16", 0, Open), F("ErrorMessage", "String", 0, Open)>>],
  DeleteAclsRequest |-> [api |-> 32, f |-> <<A("Filters", "DeleteAclsFilter31", 0, Open)>>],
  DeleteAclsFilter31 |-> [api |-> 32, f |-> <<F("ResourceTypeFilter", "Int8", 0, Open), F("ResourceNameFilter", "String", 0, Open), F("PatternTypeFilter", "Int8", 1, Open), F("PrincipalFilter", "String", 0, Open), F("HostFilter", "String", 0, Open), F("Operation", "Int8", 0, Open), F("PermissionType", "Int8", 0, Open)>>],
  DeleteAclsResponse |-> [api |-> 32, f |-> <<F("ThrottleTimeMs", "Int32", 0, Open), A("FilterResults", "DeleteAclsFilterResult31", 0, Open)>>],
  DeleteAclsFilterResult31 |-> [api |-> 32, f |-> <<F("ErrorCode", "Int16", 0, Open), F("ErrorMessage", "String", 0, Open), A("MatchingAcls", "DeleteAclsMatchingAcl31", 0, Open)>>],
  DeleteAclsMatchingAcl31 |-> [api |-> 32, f |-> <<F("ErrorCode", "Int16", 0, Open), F("ErrorMessage", "String", 0, Open), F("ResourceType", "Int8", 0, Open), F("ResourceName", "String", 0, Open), F("PatternType", "Int8", 1, Open), F("Principal", "String", 0, Open), F("Host", "String", 0, Open), F("Operation", "Int8", 0, Open), F("PermissionType", "Int8", 0, Open)>>],
  DescribeConfigsRequest |-> [api |-> 33, f |-> <<A("Resources", "DescribeConfigsResource32", 0, Open), F("IncludeSynoyms", "Bool", 1, Open)>>],
  DescribeConfigsResource32 |-> [api |-> 33, f |-> <<F("ResourceType", "Int8", 0, Open), F("ResourceName", "String", 0, Open), F("ConfigurationKeys", "StringArray", 0, Open)>>],
  DescribeConfigsResponse |-> [api |-> 33, f |-> <<F("ThrottleTimeMs", "Int32", 0, Open), A("Results", "DescribeConfigsResult32", 0, Open)>>],
  DescribeConfigsResult32 |-> [api |-> 33, f |-> <<F("ErrorCode", "Int16", 0, Open), F("ErrorMessage", "String", 0, Open), F("ResourceType", "Int8", 0, Open), F("ResourceName", "String", 0, Open), A("Configs", "DescribeConfigsResourceResult32", 0, Open)>>],
  DescribeConfigsResourceResult32 |-> [api |-> 33, f |-> <<F("Name", "String", 0, Open), F("Value", "String", 0, Open), F("ReadOnly", "Bool", 0, Open), F("IsDefault", "Bool", 0, 0), F("ConfigSource", "Int8", 1, Open), F("IsSensitive", "Bool", 0, Open), A("Synonyms", "DescribeConfigsSynonym32", 1, Open)>>],
  DescribeConfigsSynonym32 |-> [api |-> 33, f |-> <<F("Name", "String", 1, Open), F("Value", "String", 1, Open), F("Source", "Int8", 1, Open)>>],
  AlterConfigsRequest |-> [api |-> 34, f |-> <<A("Resources", "AlterConfigsResource33", 0, Open), F("ValidateOnly", "Bool", 0, Open)>>],
  AlterConfigsResource33 |-> [api |-> 34, f |-> <<F("ResourceType", "Int8", 0, Open), F("ResourceName", "String", 0, Open), A("Configs", "AlterableConfig33", 0, Open)>>],
  AlterableConfig33 |-> [api |-> 34, f |-> <<F("Name", "String", 0, Open), F("Value", "String", 0, Open)>>],
  AlterConfigsResponse |-> [api |-> 34, f |-> <<F("ThrottleTimeMs", "Int32", 0, Open), A("Responses", "AlterConfigsResourceResponse33", 0, Open)>>],
  AlterConfigsResourceResponse33 |-> [api |-> 34, f |-> <<F("ErrorCode", "Int16", 0, Open), F("ErrorMessage", "String", 0, Open), F("ResourceType", "Int8", 0, Open), F("ResourceName", "String", 0, Open)>>],
  AlterReplicaLogDirsRequest |-> [api |-> 35, f |-> <<A("Dirs", "AlterReplicaLogDir34", 0, Open)>>],
  AlterReplicaLogDir34 |-> [api |-> 35, f |-> <<F("Path", "String", 0, Open), A("Topics", "AlterReplicaLogDirTopic34", 0, Open)>>],
  AlterReplicaLogDirTopic34 |-> [api |-> 35, f |-> <<F("Name", "String", 0, Open), F("Partitions", "Int32Array", 0, Open)>>],
  AlterReplicaLogDirsResponse |-> [api |-> 35, f |-> <<F("ThrottleTimeMs", "Int32", 0, Open), A("Results", "AlterReplicaLogDirTopicResult34", 0, Open)>>],
  AlterReplicaLogDirTopicResult34 |-> [api |-> 35, f |-> <<F("TopicName", "String", 0, Open), A("Partitions", "AlterReplicaLogDirPartitionResult34", 0, Open)>>],
  AlterReplicaLogDirPartitionResult34 |-> [api |-> 35, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("ErrorCode", "Int16", 0, Open)>>],
  DescribeLogDirsRequest |-> [api |-> 36, f |-> <<A("Topics", "DescribableLogDirTopic35", 0, Open)>>],
  DescribableLogDirTopic35 |-> [api |-> 36, f |-> <<F("Topic", "String", 0, Open), F("PartitionIndex", "Int32Array", 0, Open)>>],
  DescribeLogDirsResponse |-> [api |-> 36, f |-> <<F("ThrottleTimeMs", "Int32", 0, Open), A("Results", "DescribeLogDirsResult35", 0, Open)>>],
  DescribeLogDirsResult35 |-> [api |-> 36, f |-> <<F("ErrorCode", "Int16", 0, Open), F("LogDir", "String", 0, Open), A("Topics", "DescribeLogDirsTopic35", 0, Open)>>],
  DescribeLogDirsTopic35 |-> [api |-> 36, f |-> <<F("Name", "String", 0, Open), A("Partitions", "DescribeLogDirsPartition35", 0, Open)>>],
  DescribeLogDirsPartition35 |-> [api |-> 36, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("PartitionSize", "Int64", 0, Open), F("OffsetLag", "Int64", 0, Open), F("IsFutureKey", "Bool", 0, Open)>>],
  SaslAuthenticateRequest |-> [api |-> 37, f |-> <<F("AuthBytes", "Bytes", 0, Open)>>],
  SaslAuthenticateResponse |-> [api |-> 37, f |-> <<F("ErrorCode", "Int16", 0, Open), F("ErrorMessage", "String", 0, Open), F("AuthBytes", "Bytes", 0, Open), F("SessionLifetimeMs", "Int64", 1, Open)>>],
  CreatePartitionsRequest |-> [api |-> 38, f |-> <<A("Topics", "CreatePartitionsTopic37", 0, Open), F("TimeoutMs", "Int32", 0, Open), F("ValidateOnly", "Bool", 0, Open)>>],
  CreatePartitionsTopic37 |-> [api |-> 38, f |-> <<F("Name", "String", 0, Open), F("Count", "Int32", 0, Open), A("Assignments", "CreatePartitionsAssignment37", 0, Open)>>],
  CreatePartitionsAssignment37 |-> [api |-> 38, f |-> <<F("BrokerIds", "Int32Array", 0, Open)>>],
  CreatePartitionsResponse |-> [api |-> 38, f |-> <<F("ThrottleTimeMs", "Int32", 0, Open), A("Results", "CreatePartitionsTopicResult37", 0, Open)>>],
  CreatePartitionsTopicResult37 |-> [api |-> 38, f |-> <<F("Name", "String", 0, Open), F("ErrorCode", "Int16", 0, Open), F("ErrorMessage", "String", 0, Open)>>],
  CreateDelegationTokenRequest |-> [api |-> 39, f |-> <<A("Renewers", "CreatableRenewers38", 0, Open), F("MaxLifetimeMs", "Int64", 0, Open)>>],
  CreatableRenewers38 |-> [api |-> 39, f |-> <<F("PrincipalType", "String", 0, Open), F("PrincipalName", "String", 0, Open)>>],
  CreateDelegationTokenResponse |-> [api |-> 39, f |-> <<F("ErrorCode", "Int16", 0, Open), F("PrincipalType", "String", 0, Open), F("PrincipalName", "String", 0, Open), F("IssueTimestampMs", "Int64", 0, Open), F("ExpiryTimestampMs", "Int64", 0, Open), F("MaxTimestampMs", "Int64", 0, Open), F("TokenId", "String", 0, Open), F("Hmac", "Bytes", 0, Open), F("ThrottleTimeMs", "Int32", 0, Open)>>],
  RenewDelegationTokenRequest |-> [api |-> 40, f |-> <<F("Hmac", "Bytes", 0, Open), F("RenewPeriodMs", "Int64", 0, Open)>>],
  RenewDelegationTokenResponse |-> [api |-> 40, f |-> <<F("ErrorCode", "Int16", 0, Open), F("ExpiryTimestampMs", "Int64", 0, Open), F("ThrottleTimeMs", "Int32", 0, Open)>>],
  ExpireDelegationTokenRequest |-> [api |-> 41, f |-> <<F("Hmac", "Bytes", 0, Open), F("ExpiryTimePeriodMs", "Int64", 0, Open)>>],
  ExpireDelegationTokenResponse |-> [api |-> 41, f |-> <<F("ErrorCode", "Int16", 0, Open), F("ExpiryTimestampMs", "Int64", 0, Open), F("ThrottleTimeMs", "Int32", 0, Open)>>],
  DescribeDelegationTokenRequest |-> [api |-> 42, f |-> <<A("Owners", "DescribeDelegationTokenOwner41", 0, Open)>>],
  DescribeDelegationTokenOwner41 |-> [api |-> 42, f |-> <<F("PrincipalType", "String", 0, Open), F("PrincipalName", "String", 0, Open)>>],
  DescribeDelegationTokenResponse |-> [api |-> 42, f |-> <<F("ErrorCode", "Int16", 0, Open), A("Tokens", "DescribedDelegationToken41", 0, Open), F("ThrottleTimeMs", "Int32", 0, Open)>>],
  DescribedDelegationToken41 |-> [api |-> 42, f |-> <<F("PrincipalType", "String", 0, Open), F("PrincipalName", "String", 0, Open), F("IssueTimestamp", "Int64", 0, Open), F("ExpiryTimestamp", "Int64", 0, Open), F("MaxTimestamp", "Int64", 0, Open), F("TokenId", "String", 0, Open), F("Hmac", "Bytes", 0, Open), A("Renewers", "DescribedDelegationTokenRenewer41", 0, Open)>>],
  DescribedDelegationTokenRenewer41 |-> [api |-> 42, f |-> <<F("PrincipalType", "String", 0, Open), F("PrincipalName", "String", 0, Open)>>],
  DeleteGroupsRequest |-> [api |-> 43, f |-> <<F("GroupsNames", "StringArray", 0, Open)>>],
  DeleteGroupsResponse |-> [api |-> 43, f |-> <<F("ThrottleTimeMs", "Int32", 0, Open), A("Results", "DeletableGroupResult42", 0, Open)>>],
  DeletableGroupResult42 |-> [api |-> 43, f |-> <<F("GroupId", "String", 0, Open), F("ErrorCode", "Int16", 0, Open)>>],
  ElectLeadersRequest |-> [api |-> 44, f |-> <<F("ElectionType", "Int8", 1, Open), A("TopicPartitions", "TopicPartitions43", 0, Open), F("TimeoutMs", "Int32", 0, Open)>>],
  TopicPartitions43 |-> [api |-> 44, f |-> <<F("Topic", "String", 0, Open), F("PartitionId", "Int32Array", 0, Open)>>],
  ElectLeadersResponse |-> [api |-> 44, f |-> <<F("ThrottleTimeMs", "Int32", 0, Open), F("ErrorCode", "Int16", 1, Open), A("ReplicaElectionResults", "ReplicaElectionResult43", 0, Open)>>],
  ReplicaElectionResult43 |-> [api |-> 44, f |-> <<F("Topic", "String", 0, Open), A("PartitionResult", "PartitionResult43", 0, Open)>>],
  PartitionResult43 |-> [api |-> 44, f |-> <<F("PartitionId", "Int32", 0, Open), F("ErrorCode", "Int16", 0, Open), F("ErrorMessage", "String", 0, Open)>>],
  IncrementalAlterConfigsRequest |-> [api |-> 45, f |-> <<A("Resources", "AlterConfigsResource44", 0, Open), F("ValidateOnly", "Bool", 0, Open)>>],
  AlterConfigsResource44 |-> [api |-> 45, f |-> <<F("ResourceType", "Int8", 0, Open), F("ResourceName", "String", 0, Open), A("Configs", "AlterableConfig44", 0, Open)>>],
  AlterableConfig44 |-> [api |-> 45, f |-> <<F("Name", "String", 0, Open), F("ConfigOperation", "Int8", 0, Open), F("Value", "String", 0, Open)>>],
  IncrementalAlterConfigsResponse |-> [api |-> 45, f |-> <<F("ThrottleTimeMs", "Int32", 0, Open), A("Responses", "AlterConfigsResourceResponse44", 0, Open)>>],
  AlterConfigsResourceResponse44 |-> [api |-> 45, f |-> <<F("ErrorCode", "Int16", 0, Open), F("ErrorMessage", "String", 0, Open), F("ResourceType", "Int8", 0, Open), F("ResourceName", "String", 0, Open)>>],
  AlterPartitionReassignmentsRequest |-> [api |-> 46, f |-> <<F("TimeoutMs", "Int32", 0, Open), A("Topics", "ReassignableTopic45", 0, Open)>>],
  ReassignableTopic45 |-> [api |-> 46, f |-> <<F("Name", "String", 0, Open), A("Partitions", "ReassignablePartition45", 0, Open)>>],
  ReassignablePartition45 |-> [api |-> 46, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("Replicas", "Int32Array", 0, Open)>>],
  AlterPartitionReassignmentsResponse |-> [api |-> 46, f |-> <<F("ThrottleTimeMs", "Int32", 0, Open), F("ErrorCode", "Int16", 0, Open), F("ErrorMessage", "String", 0, Open), A("Responses", "ReassignableTopicResponse45", 0, Open)>>],
  ReassignableTopicResponse45 |-> [api |-> 46, f |-> <<F("Name", "String", 0, Open), A("Partitions", "ReassignablePartitionResponse45", 0, Open)>>],
  ReassignablePartitionResponse45 |-> [api |-> 46, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("ErrorCode", "Int16", 0, Open), F("ErrorMessage", "String", 0, Open)>>],
  ListPartitionReassignmentsRequest |-> [api |-> 47, f |-> <<F("TimeoutMs", "Int32", 0, Open), A("Topics", "ListPartitionReassignmentsTopics46", 0, Open)>>],
  ListPartitionReassignmentsTopics46 |-> [api |-> 47, f |-> <<F("Name", "String", 0, Open), F("PartitionIndexes", "Int32Array", 0, Open)>>],
  ListPartitionReassignmentsResponse |-> [api |-> 47, f |-> <<F("ThrottleTimeMs", "Int32", 0, Open), F("ErrorCode", "Int16", 0, Open), F("ErrorMessage", "String", 0, Open), A("Topics", "OngoingTopicReassignment46", 0, Open)>>],
  OngoingTopicReassignment46 |-> [api |-> 47, f |-> <<F("Name", "String", 0, Open), A("Partitions", "OngoingPartitionReassignment46", 0, Open)>>],
  OngoingPartitionReassignment46 |-> [api |-> 47, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("Replicas", "Int32Array", 0, Open), F("AddingReplicas", "Int32Array", 0, Open), F("RemovingReplicas", "Int32Array", 0, Open)>>],
  OffsetDeleteRequest |-> [api |-> 48, f |-> <<F("GroupId", "String", 0, Open), A("Topics", "OffsetDeleteRequestTopic47", 0, Open)>>],
  OffsetDeleteRequestTopic47 |-> [api |-> 48, f |-> <<F("Name", "String", 0, Open), A("Partitions", "OffsetDeleteRequestPartition47", 0, Open)>>],
  OffsetDeleteRequestPartition47 |-> [api |-> 48, f |-> <<F("PartitionIndex", "Int32", 0, Open)>>],
  OffsetDeleteResponse |-> [api |-> 48, f |-> <<F("ErrorCode", "Int16", 0, Open), F("ThrottleTimeMs", "Int32", 0, Open), A("Topics", "OffsetDeleteResponseTopic47", 0, Open)>>],
  OffsetDeleteResponseTopic47 |-> [api |-> 48, f |-> <<F("Name", "String", 0, Open), A("Partitions", "OffsetDeleteResponsePartition47", 0, Open)>>],
  OffsetDeleteResponsePartition47 |-> [api |-> 48, f |-> <<F("PartitionIndex", "Int32", 0, Open), F("ErrorCode", "Int16", 0, Open)>>]
]
Types == DOMAIN Schema
\* The headers: request header versions 0..2, response header versions 0..1
MaxVersion(ty) == IF ty = "RequestHeader" THEN 2 ELSE IF ty = "ResponseHeader" THEN 1 ELSE Api[Schema[ty].api].max
FirstFlexible(ty) == IF ty = "RequestHeader" THEN 2 ELSE IF ty = "ResponseHeader" THEN 1 ELSE Api[Schema[ty].api].flex
Flexible(ty, ver) == ver >= FirstFlexible(ty)
\* Fields the protocol has and the library does not: OffsetCommit v1 partitions carry a
\* commit timestamp (int64) before the metadata.
Missing(ty, ver) == ty = "OffsetCommitRequestPartition8" /\ ver = 1
=============================================================================
