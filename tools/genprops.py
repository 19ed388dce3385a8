import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe or [],hook_needed=None)))
CL="mqtt/client.go"; PK="mqtt/packets/"; PR="mqtt/packets/primitives/"
NT="The only existing test checks 19 topic/filter pairs; "
p("C01","Encoded control packets are exact, well-formed MQTT 5",
 "For every packet value whose fields are representable (CONNECT incl. will and properties, PUBLISH, PUBACK/PUBREC/PUBREL/PUBCOMP, SUBSCRIBE, UNSUBSCRIBE, DISCONNECT, AUTH, PINGREQ), the bytes produced by its encoder, and the bytes the client writes for it, are exactly one well-formed MQTT 5 control packet: right type and reserved flags, exact Remaining Length and property lengths at every size, right property identifiers. Decoding those bytes by the specification gives back exactly the caller's field values, and the byte count the encoder reports equals the bytes it wrote. A failure of the writer is always returned as an error.",
 ["inputs"],"all field combinations and sizes, in particular around the 1/2/3/4-byte length boundaries",
 NT+"no encoder is executed by any test, and the length arithmetic only breaks for particular field/size combinations.",
 [PK+f for f in "connect.go publish.go puback.go subscribe.go unsubscribe.go disconnect.go auth.go packet.go".split()]+[PR+"string.go",PR+"varint.go",CL],
 [("WriteTo of each packet type",PK),("length calculation before the header is written",PK),("Client.send buffers one whole packet per write",CL)],
 observe=["bytes written to the net.Conn / io.Writer","returned counts"])
p("C02","Unrepresentable values are refused and never reach the wire",
 "A value that MQTT 5 cannot represent (a string or binary field longer than 65535 bytes anywhere in a packet, a variable byte integer above 268435455, a PUBLISH with neither topic nor topic alias, a QoS or retain handling above 2, a SUBSCRIBE or UNSUBSCRIBE without topics) makes the encoder or API call return an error and no byte of that packet is written to the connection. Such a refused call leaves the client as it was: following valid calls work, no send quota, packet identifier or storage entry is consumed by it.",
 ["inputs","histories"],"every field position and over-limit length, interleaved with valid calls",
 NT+"over-limit inputs and their after-effects are never tried.",
 [PR+"string.go",PR+"varint.go",PK+"publish.go",PK+"subscribe.go",PK+"unsubscribe.go",CL],
 [("length-prefix encoding",PR+"string.go"),("fail-early checks",PK+"publish.go"),("buffered send",CL)],
 observe=["returned error","bytes on the connection","storage content","later calls"])
p("C03","Incoming packets decode exactly under any fragmentation",
 "Every well-formed packet a server may send (CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT, AUTH, PINGRESP), including the short forms without reason code or properties, is decoded to exactly the values it carries and consumes exactly its own bytes, however the byte stream is split across reads. Each decoder's reported byte count equals the bytes it consumed.",
 ["inputs","schedules"],"all well-formed packets of every size and all ways the transport fragments the stream",
 NT+"decoders and stream fragmentation are never exercised.",
 [PK+f for f in "connack.go publish.go puback.go suback.go unsuback.go disconnect.go auth.go packet.go".split()]+[PR+"io.go",PR+"string.go",PR+"varint.go",CL],
 [("ReadFrom of each packet type",PK),("full reads of strings, integers and payload",PR),("Client.Poll / Client.Connect dispatch",CL)],
 observe=["events","reader position","returned counts"])
p("C04","Arbitrary bytes from the server never panic, hang or pass as packets",
 "Whatever bytes the server sends, before or after the handshake, and wherever the stream ends, Connect and Poll return without panicking or looping. A packet whose internal structure is inconsistent with its Remaining Length, or that carries an over-long variable byte integer, an unknown property, a property that its packet type does not have, a packet type a server may not send, or that is a PUBLISH with QoS 3 or one with QoS 1 or 2 and packet identifier 0, makes the call return an error and is never delivered as an event; the connection is then closed, the client reports not connected, and later bytes are never interpreted as packets.",
 ["inputs","histories"],"all byte streams: random, truncated, and mutated or spliced valid packets",
 NT+"no malformed input is ever decoded.",
 [CL]+[PK+f for f in "connack.go publish.go puback.go suback.go unsuback.go disconnect.go auth.go packet.go".split()]+[PR+"varint.go"],
 [("length bookkeeping in the decoders",PK),("error handling in Poll and Connect",CL)],
 observe=["returned errors","events","conn.Close","IsConnected"])
p("C05","Primitive encodings round-trip with true lengths and counts",
 "For every value, each primitive (byte, 16/32-bit integer, string, variable byte integer) written plainly or as a property is read back unchanged, its predicted length equals the bytes written, and every returned count equals the bytes actually written or read. Variable byte integers use the minimal 1-4 byte form; values above 268435455 are refused when writing and encodings longer than 4 bytes are refused when reading, without consuming further input. A failing writer or an input that ends early always yields an error.",
 ["inputs"],"all values of each primitive and any reader chunking or early end of input",
 NT+"primitives are only compiled, never run.",
 [PR+f for f in "byte.go uint16.go uint32.go string.go varint.go io.go".split()],
 [("WriteTo/WriteToAsProperty/ReadFrom/Length",PR)],observe=["bytes written","returned counts and errors"])
p("C06","Poll deadlines never lose, corrupt or half-process incoming packets",
 "Wherever the deadline of a Poll call falls relative to the arriving bytes (before a packet, between any two of its bytes, or before its acknowledgement is written), nothing is lost: the Poll either returns nil having consumed nothing, or completes the packet as long as its remaining bytes arrive within the 30 second allowance. If they do not, a Poll that has a deadline still returns, and a packet it gave up leaves the connection closed, is not signalled, and nothing that follows is taken for a packet. All packets are delivered and acknowledged exactly as if each had arrived in one piece.",
 ["schedules","inputs"],"every arrival timing of every byte relative to the Poll deadlines",
 NT+"no test involves a connection, let alone timing.",
 [CL,PK+"packet.go"],[("deadline handling in Poll",CL),("acknowledgement senders",CL)],
 observe=["Poll results","events","acknowledgements on the wire, in virtual time"])
p("C07","Topic filters match exactly as MQTT 5 section 4.7 defines",
 "For every topic name and topic filter, a PUBLISH is routed to a channel bound to the filter if and only if the filter matches by the MQTT 5 rules: '+' matches exactly one (possibly empty) level, a trailing '#' matches the parent and any number of levels below it, wildcards not occupying a whole level never match, and a filter starting with a wildcard does not match topics starting with '$'. Matching never panics. (Shared-subscription filters are not covered.)",
 ["inputs"],"all pairs of topic names and filters",
 "19 sample pairs cannot cover level-boundary, empty-level and length-skew cases.",
 [CL],[("matchTopic",CL)],observe=["which bound channels receive the PUBLISH"])
p("C08","Each received packet is signalled exactly once, in order, to the right channels",
 "Every PUBLISH received is offered exactly once to every open general event channel and exactly once to every channel bound (by Subscribe) to at least one matching filter, and to no other channel; every other received packet except PINGRESP, and the client's own DISCONNECT, is offered exactly once to every general channel and to no bound channel. Each channel sees events in arrival order with the packet's type and content, and an event is missed only by a channel whose own buffer is full at that moment.",
 ["histories","schedules"],"all sequences of packets, bindings, channel capacities and consumer speeds, including binding concurrent with traffic",
 NT+"event delivery is never exercised.",
 [CL,"mqtt/events.go"],[("signal fan-out",CL),("topic routing in Poll",CL),("binding in Subscribe",CL)],
 state=[("eventChans","general channels",CL),("topicChans","filter to channel bindings",CL)],observe=["event channels"])
p("C09","Event channel closing is final, isolated and idempotent",
 "Once CloseEventChannel has returned, or Unsubscribe has succeeded for the last filter bound to a channel, no further event is delivered on it, its C is closed and its Done has fired, while every other channel and every other filter binding keeps working. Closing a channel twice, closing or unsubscribing while packets arrive, and unsubscribing several filters that share a channel or have none never panics.",
 ["histories","schedules"],"all orders and interleavings of create, bind, traffic, unsubscribe and close",
 NT+"channel life cycle is never exercised.",
 [CL,"mqtt/events.go"],[("CloseEventChannel",CL),("Unsubscribe",CL),("eventMutex",CL)],observe=["event channels","panics"])
p("C10","Connect succeeds exactly on an accepting CONNACK and applies it",
 "Connect returns nil, and IsConnected becomes true, if and only if the first packet the server sends is a well-formed CONNACK with reason code below 0x80; a refusing CONNACK makes it return exactly that reason code with the connection closed, and any other packet, malformed data or connection failure makes it return an error with the client not connected. While not connected every other operation returns ErrClientNotConnected and writes nothing. On success the CONNACK event is signalled once and KeepAliveInterval is the server's value when the server gave one, otherwise the CONNECT's.",
 ["inputs","fault_sequences"],"all server answers and connection faults during the handshake",
 NT+"no handshake is run.",
 [CL,PK+"connack.go","mqtt/errors.go"],[("Client.Connect",CL)],observe=["return values","IsConnected","KeepAliveInterval","wire","events"])
p("C11","Incoming QoS handshakes are complete and QoS 2 is delivered once",
 "For every PUBLISH received, QoS 0 gets no acknowledgement, QoS 1 exactly one PUBACK and QoS 2 exactly one PUBREC with the same packet identifier, and every PUBREL (known or not) exactly one PUBCOMP, all in the order of the packets they answer. A QoS 2 PUBLISH repeated before its PUBREL is acknowledged again but signalled only once, on the same connection and, when the same storage is set on a new client after a lost connection, across connections too; after PUBREL, and in a session that the server reports as new, the identifier denotes a new message.",
 ["histories","crash_points"],"all server packet sequences, with and without storage, and connection loss at any point",
 NT+"Poll is never run.",
 [CL],[("sendPuback/sendPubrec and PUBREL handling in Poll",CL),("PUBREC record in storage",CL)],observe=["wire trace","events"])
p("C12","Outgoing QoS handshakes follow the protocol for every broker reaction",
 "Each successful Publish writes exactly one PUBLISH with the caller's content and, for QoS above 0, a packet identifier. Exactly one PUBREL is written for each PUBREC with reason code below 0x80 received for an outgoing QoS 2 PUBLISH, and none for a PUBREC reporting failure, after which the exchange is over; no other packet is ever written in reaction to PUBACK, PUBREC or PUBCOMP, and each of them is signalled once.",
 ["histories"],"all orders and reason codes of broker acknowledgements over many concurrent exchanges",
 NT+"no exchange is run.",
 [CL,PK+"puback.go"],[("Publish",CL),("PUBACK/PUBREC/PUBCOMP handling in Poll",CL)],observe=["wire trace","events"])
p("C13","Send quota is never exceeded and never leaks",
 "At no moment are more QoS>0 PUBLISH packets unacknowledged than the Receive Maximum of the CONNACK (65535 if absent), for any number of concurrent Publish calls. A Publish that has to wait is sent as soon as a PUBACK, PUBCOMP or failing PUBREC frees quota: no quota is lost and no waiter stays blocked while quota is available, even after failed or cancelled Publish calls. QoS 0 publishes and all other packets are never held back by an exhausted quota.",
 ["schedules","histories"],"all interleavings of publishers with acknowledgements, all Receive Maximum values",
 NT+"no concurrent publish is run.",
 [CL],[("quota accounting in Publish and Poll",CL),("pendingSendSemaphore",CL)],state=[("sendQuota","free send slots",CL)],observe=["wire trace at the broker","blocked goroutines"])
p("C14","Receive Maximum is enforced exactly on incoming publishes",
 "A server that keeps within the Receive Maximum announced in CONNECT (65535 if none, whatever the server announces for itself) is never disconnected for it, for any mix of QoS 0, 1 and 2 traffic of any length. The first QoS>0 PUBLISH beyond it makes the client send DISCONNECT with reason 0x93 and close the connection, Poll returns reason code 0x93, that PUBLISH is neither acknowledged nor signalled, and the client is not connected.",
 ["histories"],"all server traffic mixes and Receive Maximum values",
 NT+"receive quota code is never run.",
 [CL],[("receiveQuota accounting",CL),("disconnectWithReason",CL)],state=[("receiveQuota","free receive slots",CL)],observe=["wire trace","Poll result","events"])
p("C15","Storage always holds exactly the unfinished exchanges",
 "With a storage set, an outgoing QoS>0 message is stored under its packet identifier before any of its bytes are written and stays there until its PUBACK, failing PUBREC or (as a PUBREC record, from PUBREC on) PUBCOMP is received, also when writing fails or the connection is cut at any point; it is then removed, and an incoming QoS 2 message has a record from its acknowledgement until its PUBREL. Nothing else is stored or removed: incoming traffic whose identifiers coincide with outgoing ones never disturbs outgoing entries, and when no exchange is unfinished the storage is empty. A storage that fails while a packet from the server is handled makes that Poll return an error, and no acknowledgement is written that the storage does not bear out.",
 ["crash_points","histories","fault_sequences"],"every cut point of every exchange history, with identifier collisions between the two directions",
 NT+"persistence is never exercised.",
 [CL,"mqtt/storage/storage.go","mqtt/storage/memory/memory.go"],[("Store/Drop calls in Publish and Poll",CL)],observe=["storage call log","storage content at every cut point"])
p("C16","Memory storage is a linearizable map from identifier to packet",
 "Under any concurrent use, Store, Get and Drop of the memory storage behave as atomic operations on one map: Store of a present identifier fails with ErrDuplicateEntry and changes nothing, Get returns the stored packet or ErrNoEntry, and Drop removes exactly that identifier or fails with ErrNoEntry.",
 ["schedules","histories"],"all operation histories and interleavings over any identifiers",
 NT+"the storage package has no tests.",
 ["mqtt/storage/memory/memory.go"],[("mutex-protected slice",'mqtt/storage/memory/memory.go')],observe=["recorded call/return histories"])
p("C17","Assigned packet identifiers are non-zero and unique while in use",
 "Every packet identifier the client chooses for a PUBLISH with QoS above 0, a SUBSCRIBE or an UNSUBSCRIBE is non-zero and differs from the identifier of every other exchange of the client still in progress, including unacknowledged messages in storage left by an earlier connection, whatever values the configured random generator returns. An identifier becomes usable again once its exchange is finished.",
 ["histories","inputs","schedules"],"all generator outputs (zero, constant, colliding) and all sets of exchanges in flight",
 NT+"identifier assignment is never exercised; collisions are rare with the default generator.",
 [CL],[("identifier choice in Publish/Subscribe/Unsubscribe",CL),("SetRngFn",CL)],observe=["identifiers on the wire versus open exchanges"])
p("C18","Subscribe and Unsubscribe report and apply their own acknowledgement",
 "With any number of calls in flight and acknowledgements arriving in any order, each Subscribe or Unsubscribe returns according to the SUBACK or UNSUBACK carrying its own packet identifier: nil if every reason code is below 0x80, otherwise the first failing reason code as a ReasonCode; an acknowledgement of the wrong kind or for another identifier never completes it, and one with the wrong number of reason codes yields an error. Exactly the filters that were granted are bound to their channels, and exactly the filters whose removal was accepted are unbound.",
 ["schedules","histories","inputs"],"all numbers of concurrent calls, acknowledgement orders and reason code vectors",
 NT+"no subscription is made.",
 [CL,PK+"suback.go",PK+"unsuback.go"],[("responseChan map",CL),("Subscribe/Unsubscribe",CL)],observe=["return values","subsequent routing"])
p("C19","Disconnection is clean, final and truthfully reported",
 "Disconnect on a connected client writes exactly one DISCONNECT (reason 0x04 if the will is to be published, else 0x00; the requested session expiry only if CONNECT announced a non-zero one) as the last packet ever written, closes the connection and signals the event; a DISCONNECT, end of stream or read failure from the server also closes the connection. From then on IsConnected is false and every operation, including those racing with the disconnection, returns an error and writes nothing; IsConnected is true at any time between a successful Connect and that point.",
 ["histories","schedules","fault_sequences"],"all points in a session, both initiators, racing calls and connection faults",
 NT+"no connection is made.",
 [CL,PK+"disconnect.go"],[("Disconnect/DisconnectWithSessionExpiry",CL),("DISCONNECT and error handling in Poll",CL)],observe=["wire trace","conn.Close","IsConnected","return values"])
p("C20","Keep-alive timeout fires exactly when due and pings are exact",
 "With a negotiated keep-alive K>0, a Poll call fails with reason code 0x8D, closes the connection and leaves the client not connected if it starts more than 2K after the later of Connect and the last PINGRESP, and never fails so when it starts within 2K; with K=0 it never does. Each KeepAlive call on a connected client writes exactly one PINGREQ and nothing else, for every K including 0, and with K>0 returns within 2K even on a connection that takes no more bytes.",
 ["histories","schedules"],"all timings of KeepAlive, Poll and PINGRESP, all intervals including server overrides",
 NT+"keep-alive needs time to pass, which no test models.",
 [CL],[("pingRespDeadline",CL),("KeepAlive",CL)],observe=["Poll results over virtual time","wire trace"])
p("C21","No failure or interleaving leaves the client wedged",
 "Under every interleaving of the client's operations (Poll on one goroutine, the others on any) and after any connection, storage, codec or protocol error in any of them, every operation returns as long as Poll keeps being called and the server answers: no deadlock, no lock kept after an error return. In particular the client can still be queried, disconnected or closed afterwards.",
 ["schedules","fault_sequences"],"pairwise interleavings at every connection, storage and generator callback; a fault at each callback of each operation",
 NT+"nothing is run concurrently and no error path is taken.",
 [CL],[("lock order of the connection and state locks",CL),("error returns under lock",CL)],observe=["stop-the-world goroutine snapshots","operation returns"])
p("C22","The client and storage are free of data races",
 "When Poll runs on one goroutine and any other exported operations (Connect, Publish, Subscribe, Unsubscribe, KeepAlive, Disconnect, IsConnected, KeepAliveInterval, event channel creation and closing, SetStorage, SetRngFn) run on others, no two of them access shared memory without synchronisation, and the runtime never aborts on a concurrent map access.",
 ["schedules"],"all concurrent combinations of operations",
 "Tests are single-threaded and run without the race detector.",
 [CL,"mqtt/storage/memory/memory.go"],[("mutex, connMutex, eventMutex",CL)],observe=["race detector reports"])
p("C23","Concurrent callers never interleave or reorder packets on the wire",
 "For any number of goroutines calling the client, the bytes it writes are always a sequence of whole well-formed packets, even over a connection whose Write is not atomic. The PUBLISH packets of one goroutine with the same QoS appear in the order of its calls, and acknowledgements appear in the order the packets they answer were received.",
 ["schedules"],"all interleavings of concurrent writers, including writes split by the transport",
 NT+"nothing is written concurrently.",
 [CL],[("connMutex",CL),("single buffered write in send",CL)],observe=["byte stream at the broker"])
p("C24","Subscription options compose in any order and respect shared filters",
 "Whatever order and number of times SetFilter, SetQoS, SetNoLocal, SetRetainAsPublished and SetRetainHandling are called on a topic, the option byte sent in SUBSCRIBE carries exactly the last value given for each option and zero reserved bits, except that No Local is always 0 for a filter that is a shared subscription ($share/...) when encoded. No call order or filter length panics.",
 ["inputs","histories"],"all setter call sequences and filters of all lengths",
 NT+"topic options are never set.",
 [PK+"topic.go",PK+"subscribe.go"],[("option bit setters",PK+"topic.go")],observe=["option byte on the wire"])
p("C25","A PUBLISH payload behaves as one reader/writer cursor",
 "Read, Write and Reset of a PUBLISH act on its payload like a fixed-size buffer with one cursor: Read returns the next bytes and io.EOF only when none remain, Write overwrites from the cursor and reports the bytes actually stored (an error if fewer than given), the payload length never changes, and Reset returns the cursor to the start. The bytes read between two Resets are exactly the payload, for every mix of call sizes.",
 ["histories","inputs"],"all call sequences and buffer sizes",
 NT+"the payload cursor is never used.",
 [PK+"publish.go"],[("Publish.Read/Write/Reset",PK+"publish.go")],observe=["returned counts, errors and bytes"])
p("C26","Calls run under their own deadline and stop when their context ends",
 "Each Connect, Publish, Subscribe, Unsubscribe and Disconnect writes its packet while the connection's I/O deadline is exactly its own context's deadline (none if it has none), also after having waited for quota; if the connection refuses the deadline, the call returns an error and writes nothing. A Publish waiting for quota and a Subscribe or Unsubscribe waiting for its acknowledgement return an error once their context is done, without writing anything further, and the client stays fully usable: an acknowledgement arriving late is harmless and never completes or disturbs another call.",
 ["schedules","histories"],"every point at which a context ends, with late answers and concurrent Polls",
 NT+"contexts are never passed to the client.",
 [CL],[("SetDeadline in each operation",CL),("waits in Publish/Subscribe/Unsubscribe",CL)],observe=["SetDeadline log versus writes","return values","later calls"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), max(len(x['title']) for x in P))
