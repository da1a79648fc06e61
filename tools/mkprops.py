import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe or [],hook_needed=hook)))
RB="ring/buffer.go"; CN="gen.conn.go"; BR="gen.broker.go"; CL="client.go"; MG="message/messages.gen.go"; EN="message/encoder.go"; DE="message/decoder.go"; SZ="message/sizeof/sizeof.go"; OP="gen.option.go"; RC="gen.record_batch.go"
p("C01","Ring buffer delivers exactly the written byte stream",
 "With one writer and one reader, the concatenation of everything the reader has received is always a prefix of the concatenation of everything the writer has submitted: no byte is lost, duplicated, reordered, overwritten before it is read, or handed out before it was written. This holds for every capacity of at least two and every mix of write and read sizes, including sizes larger than the capacity.",
 ["schedules","inputs","histories"],"every interleaving of one writer and one reader, every capacity >= 2, every sequence of write/read sizes",
 "TestStress/Test_newRingBuffer read whatever schedule the runtime picks, with one size mix; they never see a partially filled wait, a wrapped full buffer or a one-byte write.",
 [RB],[("WriteN/ReadN with atomic start/next indices","ring/buffer.go WriteN, ReadN")],
 [("start,next","reader and writer positions in the ring","ring/buffer.go Buffer"),("data","the ring","ring/buffer.go Buffer")],["WriteN/ReadN call and return"])
p("C02","Ring buffer never loses a wake-up and never strands a waiter",
 "A blocked read completes as soon as enough bytes have been submitted, and a blocked write completes as soon as the reader's demand leaves room for it; reader and writer are never both stuck. Closing the buffer makes every blocked or later read and write return promptly, a read that cannot be satisfied reports that it was not, and bytes whose write had returned before the close can still be read.",
 ["schedules","histories"],"every interleaving of write, read and close, every capacity >= 2",
 "Lost wake-ups need a notification to fall between the emptiness check and the wait; the tests sample a handful of schedules and would only time out.",
 [RB],[("wait/release hand-off around index publication","ring/buffer.go mutex, WriteN, ReadN, Close")],
 [("readLock,writeLock","wake-up tokens","ring/buffer.go mutex")],["WriteN/ReadN/Close return at quiescence"])
p("C03","Each call receives its own response, exactly once",
 "For any number of concurrent calls on one connection, a call that succeeds returns the decoded content of the first response frame that carries its own correlation id, and nothing else. Responses may arrive in any order, be fragmented or coalesced arbitrarily, be duplicated, or carry unknown ids, without any call receiving another call's data, losing its response, or being answered twice.",
 ["schedules","inputs","histories"],"all interleavings of callers, writer, reader and dispatcher; all response orders, fragmentations, duplicates and unknown ids; any number of earlier requests on the connection",
 "No unit test opens a connection at all; the only integration test needs a live broker and issues one call at a time.",
 [CN,RB],[("correlation id allocation, pending-request map, dispatch loop","gen.conn.go Do, messageLoop")],
 [("requests","calls awaiting a response, by correlation id","gen.conn.go Conn"),("id","last correlation id","gen.conn.go Conn")],["call return","frames seen by the peer"])
p("C04","Request frames are well formed, contiguous and uniquely numbered",
 "The byte stream a connection sends is always a concatenation of whole request frames, each with a length prefix equal to the number of bytes that follow it; frames of concurrent calls never interleave. No two outstanding requests share a correlation id, and after a failed write nothing more is sent and the failed call reports an error.",
 ["schedules","inputs","fault_sequences"],"all interleavings of concurrent calls, all request sizes (below, at and above internal buffer sizes), a write fault after any byte",
 "Needs concurrent callers, frames larger than the write buffer and injected write faults; no test touches the connection.",
 [CN,BR,EN],[("write lock around encode+flush, atomic id","gen.conn.go Do"),("size prefix","gen.broker.go every operation")],
 [("encoder","shared buffered writer","gen.conn.go Conn")],["bytes received by the peer"])
p("C05","Calls end with an error when the connection ends",
 "Once a connection has ended - the peer closed or reset it, a read or write failed, or it was closed locally - every outstanding and every later call returns an error in bounded time. No call ever stays blocked on an ended connection, and no call reports success unless its complete response frame had been received.",
 ["schedules","crash_points","fault_sequences"],"connection end at every point of a call and at every byte of a response, under every interleaving",
 "No test closes a connection, and a hang or a fabricated success only shows for an end in mid-frame or with calls in flight.",
 [CN,RB],[("failing pending requests when the loops stop","gen.conn.go readLoop, messageLoop, Do, Close")],
 [("requests","calls awaiting a response","gen.conn.go Conn")],["call return at quiescence"])
p("C06","Closing a connection always completes and releases everything",
 "Closing a connection returns from every state of the connection - idle, calls in flight, a partial response received, peer already gone, peer flooding or not reading - and may be repeated or raced from several goroutines. When it has returned, the underlying socket is closed and no background activity of that connection remains.",
 ["schedules","histories"],"all connection states and interleavings at the moment of (possibly repeated, concurrent) close",
 "No unit test closes a connection.",
 [CN,RB,BR],[("cancel, ring close, socket close, wait for both loops","gen.conn.go Close")],
 [("doneMessage,doneRead","loop termination","gen.conn.go Conn")],["Close return, live goroutines, socket state"])
p("C07","No input from a peer can crash the process",
 "Whatever bytes a peer sends, at the framing level or inside a response payload, the library never panics, never loops forever and never allocates memory out of proportion to the bytes received; decoding any byte string as any message at any version, or as any primitive, yields either a value or an error. Frames that no outstanding call is waiting for have no effect on other calls.",
 ["inputs","fault_sequences"],"all byte strings as payloads for all message types and versions, all frame sizes including negative, tiny, and multi-megabyte",
 "Tests decode only well-formed values they have just encoded.",
 [DE,MG,CN],[("length checks before slicing or allocating","message/decoder.go"),("frame size handling","gen.conn.go messageLoop")],
 [],["process liveness, call results, allocation"])
p("C08","A returned response never changes afterwards",
 "A response that has been returned to its caller keeps its content for as long as the caller keeps it: no later traffic, call or close on the same connection alters any part of it, including byte-array fields.",
 ["histories","schedules"],"all sequences of later responses of all sizes on the same connection",
 "No test keeps a response across a second response.",
 [CN,DE],[("ownership of the payload buffer handed to the decoder","gen.conn.go messageLoop, message/decoder.go Bytes")],
 [],["re-inspection of retained responses"])
p("C09","Version negotiation picks the highest common version, or fails",
 "For every API a broker advertises, the version used afterwards - in the request header, the request encoding and the response decoding - is the highest one inside both the broker's advertised range and the range this library supports. If some advertised API has no common version, or the broker answers the negotiation with an error, connecting to the broker fails with an error instead of using any version.",
 ["inputs","configurations"],"all advertised (min,max) ranges for all 48 APIs, including newer-than-library, empty and extreme ranges, any order, unknown keys",
 "No unit test negotiates; the integration test sees the one range its broker advertises.",
 [BR],[("range intersection per api key","gen.broker.go negotiateApiVersions, matchVersion, NewBroker")],
 [("apiVersion","negotiated version per API","gen.broker.go Broker")],["version field of every request frame, NewBroker result"])
p("C10","Every broker operation speaks its own API",
 "Each of the 48 broker operations sends exactly one frame whose header carries that operation's protocol key, the negotiated version, a fresh correlation id and the client id, whose body is the caller's request encoded at that version; it returns the response the broker sent, decoded at the same version.",
 ["inputs","configurations"],"all 48 operations, all versions the library supports for each, all request and response values",
 "Operations are never invoked by unit tests; each is a separately generated method that can be wrong on its own.",
 [BR,"message/keys.go",MG],[("per-operation encode/decode closures","gen.broker.go Broker methods")],
 [],["frames seen by the peer, returned responses"])
p("C11","Declared message size equals encoded size",
 "For every message type, every version and every value, the size a message declares equals the number of bytes its encoding produces; the same holds for record batches and for the primitive size functions they are built from.",
 ["inputs"],"all 218 message types, all versions, all field values including empty, nil, boundary and long ones",
 "sizeof tests check a few primitives; no generated message's size is ever compared with its encoding.",
 [MG,SZ,EN],[("Size methods mirrored to Encode methods","message/messages.gen.go, message/sizeof/sizeof.go")],
 [],["Size result vs bytes written"])
p("C12","Message encode/decode round trip preserves every field",
 "For every message type, version and value, decoding an encoding at the same version succeeds, consumes exactly the encoded bytes and yields every field that exists in that version unchanged, with absent-in-version fields left zero and nil and empty arrays interchangeable.",
 ["inputs"],"all 218 message types, all versions, all field values",
 "Only primitives are round-tripped by tests, each with two or three values.",
 [MG,EN,DE],[("Encode/Decode pairs with matching version gates","message/messages.gen.go")],
 [],["decoded value vs encoded value"])
p("C13","Message bytes follow the Kafka wire layout",
 "For every message type and version, the encoded bytes are exactly the protocol's layout: the fields of that version in protocol order, big-endian fixed-width integers, 16-bit-length strings, 32-bit-length byte arrays and arrays. Conversely, decoding such protocol bytes yields the value they denote.",
 ["inputs","configurations"],"all 218 message types, all versions, all field values",
 "A round-trip test cannot see a layout error made consistently in both directions, and no generated message is tested at all.",
 [MG,EN,DE],[("generated field order and version gates","message/messages.gen.go"),("primitive encoders/decoders","message/encoder.go, message/decoder.go")],
 [],["encoded bytes; decoded values of independently produced bytes"])
p("C14","Primitive encoders, decoders and size functions agree for all values",
 "Every primitive - booleans, 8/16/32/64-bit integers, strings, nullable strings, byte arrays, integer and string arrays, zig-zag varints, varint-length bytes and strings, record headers - encodes to its protocol bytes, has exactly the size the size functions report, and decodes back to the same value, including null, empty, extreme, long and non-UTF-8 values. A string too long for its length field is reported as an encoding error rather than sent with a wrong length.",
 ["inputs"],"all values of each primitive, sequences of primitives in one buffer",
 "Tests use two or three values per primitive, all short, non-null and valid UTF-8.",
 [EN,DE,SZ],[("Put*/decoder method pairs","message/encoder.go, message/decoder.go"),("size functions","message/sizeof/sizeof.go")],
 [],["bytes produced, values decoded, sizes reported"])
p("C15","Truncated input is always reported as insufficient data",
 "Decoding any strict prefix of a valid encoding, for every message type, version and primitive, fails with the insufficient-data error and never yields a value. A decoder limited to a given length never reads beyond that length, even when its backing buffer holds further (stale) bytes.",
 ["inputs","crash_points"],"every cut position of every encoding, with and without stale bytes behind the limit",
 "Tests only try completely empty input.",
 [DE,MG],[("remaining-length check before every read","message/decoder.go")],
 [],["decode result for each prefix"])
p("C16","Encoder errors are sticky and reported",
 "Once a write to the underlying stream has failed, an encoder writes nothing more and every later flush reports that first error, whatever was encoded before or after it. If no write failed, flush reports success and the stream has received exactly the encoded bytes in order.",
 ["fault_sequences","programs"],"every sequence of encode operations, with a fault at any underlying write, including short writes",
 "The one test starts from an already failed encoder; no test makes a write fail part-way.",
 [EN],[("err field checked before every write","message/encoder.go")],[("err","first write error","message/encoder.go Encoder")],["bytes reaching the stream, Flush result"])
p("C17","Client dials exactly the node the cluster metadata names",
 "Dialling a partition leader, the controller or a group coordinator connects to the advertised host and port of exactly the node the cluster's answer names for it - for any host form, including IPv6 literals - and returns a usable broker for that node. If the topic, the partition, or the node named as leader or controller is not in the answer, or the coordinator lookup reports an error, it returns an error; it never connects to another node. This holds for operations of one client that overlap in time, too.",
 ["inputs","configurations","schedules"],"all cluster layouts: node ids, hosts, ports, leaders, controllers, coordinators, missing entries and error codes",
 "The only test is an integration test with one node on which every answer is the same node.",
 [CL],[("metadata lookup then dial","client.go DialLeader, DialController, DialGroupCoordinator, dialNode, findTopic, findPartition")],
 [],["addresses dialled, requests each node receives, returned errors"])
p("C18","Bootstrap fails over to the next server and never invents an answer",
 "A cluster query tries the bootstrap servers in the configured order and uses the first one to which a broker connection can be established, asking it exactly the caller's question once and returning its answer. If none can be reached, or none is configured, the query returns an error; it never returns an empty success. Queries of one client that overlap in time do not disturb each other.",
 ["fault_sequences","configurations","schedules"],"all bootstrap lists and all combinations of unreachable, refusing or incompatible servers",
 "No unit test builds a client.",
 [CL,BR],[("bootstrap loop","client.go dialBootstrap, Metadata, dialCoordinator")],
 [],["dial attempts, requests received, results"])
p("C19","No connection is leaked",
 "Every connection the library opens on its own behalf is closed again by the time the operation that opened it returns, whether it succeeds or fails: after a metadata or coordinator query, after a failed connect or failed negotiation, and after closing what was returned, no socket and no background activity remains.",
 ["histories","fault_sequences"],"all client operations under all broker failures, repeated any number of times",
 "Leaks are invisible to functional assertions; no test counts connections.",
 [CL,BR,CN],[("closing of bootstrap and failed connections","client.go dialBootstrap, gen.broker.go NewBroker")],
 [],["open sockets and live goroutines after each operation"])
p("C20","Record batches encode to the Kafka v2 record format",
 "For any batch and any records - null or empty keys and values, no or many headers, any timestamps and offsets - the encoded bytes are the Kafka magic-2 record batch layout: header fields in order, record count, and each record prefixed with its exact length and carrying timestamp and offset deltas relative to the batch. The size the batch declares equals the number of bytes produced.",
 ["inputs"],"all batches of records",
 "The record batch code has no tests.",
 [RC,EN,SZ],[("RecordBatch.Encode/Size","gen.record_batch.go")],[],["bytes produced and declared size"])
p("C21","Transport options are honoured",
 "A connection uses TLS if and only if a TLS configuration was supplied, never falling back to plaintext when the handshake fails, and is always opened through the supplied dialer - its source address, control function, time limit and name resolution included - or a default one when none or nil is supplied. The peer's certificate is verified for the name that was dialled unless the configuration names another. Options apply in order with the last one winning, for direct connections and for every connection a client opens.",
 ["configurations","fault_sequences"],"all option combinations and orders against plaintext, TLS and failing peers",
 "No unit test connects.",
 [OP,CN],[("option application and dial","gen.option.go buildConfig, gen.conn.go dial")],[],["first bytes on the wire, dialer callbacks, results"])
p("C22","A produce that requests no acknowledgement does not wait for one",
 "A produce request with acks=0, which brokers never answer, is sent as a normal frame and returns success as soon as it has been sent; it leaves nothing outstanding and does not disturb other calls. With any other acks value the operation waits for and returns the broker's response.",
 ["histories","schedules"],"all acks values, mixed with other calls in any order",
 "No unit test produces.",
 [BR,CN],[("fire-and-forget send","gen.broker.go Produce, gen.conn.go Do")],[],["call return, frames seen by the peer"])
p("C23","Connections do not influence one another",
 "With any number of connections open in one process at the same time - to one broker or to several, negotiated together or one after the other - each behaves as if it were alone: it receives only its own responses, sends only its own frames under its own numbering, uses the versions its own broker negotiated, keeps responses unchanged, and ends, fails, blocks or closes only for reasons of its own. What happens on one (traffic, a peer that stops reading, a failure, an end, a close) never delays, corrupts, fails or completes a call on another.",
 ["schedules","histories","fault_sequences"],"every interleaving of what happens on two or more connections, every fault of any of them",
 "No unit test opens a connection, let alone two; shared state shows only when two connections are used at the same time in particular orders.",
 [CN,BR,RB],[("per-connection state: buffers, encoder, locks, outstanding requests, id, negotiated versions","gen.conn.go Conn, readLoop, messageLoop; gen.broker.go Broker, NewBroker")],
 [("requests, encoder, rb, id, closed","state of one connection","gen.conn.go Conn"),("apiVersion","negotiated versions of one broker","gen.broker.go Broker")],["call return, frames seen by each peer, quiescence"])
p("C24","What a caller hands over is never modified; encoding is repeatable",
 "Sizing, encoding, decoding and sending only look at what the caller supplied: requests and messages with everything they refer to (including memory beyond the length of a slice), record batches, encoded input, bootstrap and topic lists, dialers and TLS configurations are the same afterwards. Repeating an operation on the same value and version gives the same bytes, size or value whatever was done before or is done meanwhile by other goroutines using the same value (up to the order in which a MapHeader visits its entries), and a result already returned does not change because of later operations.",
 ["inputs","histories","schedules"],"every message type, version and value; every history of size, encode, decode, send and query operations on shared values, sequential or parallel",
 "The tests encode each value once, at one version, and never look at the value again.",
 [MG,EN,DE,"gen.record_batch.go",BR,CL,OP],[("value receivers over shared slices, encoder scratch buffer, decoder over the caller's bytes","message/messages.gen.go, message/encoder.go, message/decoder.go"),("bootstrap list and options kept by reference","client.go NewClient, gen.option.go")],
 [],["value, input and configuration after each operation"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
