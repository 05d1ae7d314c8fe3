"""The properties."""
def A(files, mech, obs=None):
    d = {"files": ["src/app/" + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if obs: d["observe_at"] = obs
    return d
def Q(over, text): return {"over": over, "text": text}
SPEC = [
 dict(id="P01", title="Every OPC UA value survives encoding and decoding",
  statement="Any OPC UA value - each built-in type except XML elements, arrays and variants of them, and every transport, security and service message - that is encoded and decoded again into a fresh object gives back the same content (an empty optional text or body may come back as absent). Decoding consumes exactly the bytes encoding produced, whatever else was written to the buffer before or is written after it, and bytes already in the buffer are not changed.",
  quantifier=Q(["inputs"], "all values of all encodable types within the size bounds, at any place in the buffer"),
  why_tests_cant="The tests encode one or two constants per type, each into an empty buffer; contents, combinations of optional fields and positions are unbounded.",
  anchors=A(["common/ua/common/OpcUaBinaryCodec.cpp", "common/ua/common/OpcUaBinaryCodec.hpp", "common/ua/common/OpcUaSduBuffer.cpp", "common/ua/common/types/Variant.hpp", "common/ua/common/types/StructType.hpp"], [("encoders and decoders", "operator<< / operator>> of OpcUaBinaryCodec"), ("optional fields", "encodingMask()")])),
 dict(id="P02", title="OPC UA values have the standard binary layout",
  statement="Encoded OPC UA values have the layout of the OPC UA binary encoding: little-endian numbers, strings and lists with a 32-bit length in front (an empty string has length -1), the shortest form of numeric node ids, the standard mask bits for optional parts (the mask bits of locale and localized text in diagnostics, and XML elements, are not covered), the fields of each structure in standard order, and each service message after the standard numeric id of its type. Data in that layout, including the equivalent forms the encoder itself does not choose (wider node ids, null or empty strings and lists), decodes to the value it stands for.",
  quantifier=Q(["inputs"], "all values of all encodable types within the size bounds"),
  why_tests_cant="All tests are round trips through the same code, so a layout error made on both sides passes them.",
  anchors=A(["common/ua/common/OpcUaBinaryCodec.cpp", "common/ua/common/OpcUaBinaryCodec.hpp", "common/ua/common/types/DataType.hpp", "common/ua/common/types/DataValue.hpp", "common/ua/common/msg/UaMsgCont.hpp"], [("encoders and decoders", "operator<< / operator>> of OpcUaBinaryCodec"), ("type ids", "DataTypeId, UaMsgCont")])),
 dict(id="P03", title="Malformed or oversized OPC UA data is refused safely",
  statement="For every sequence of received bytes, decoding any OPC UA type either yields a value that lies completely within the received bytes or is refused with a standard exception; in particular every truncation of a valid message is refused. It never accesses memory outside the buffer or the decoded object, never ends the process, and never allocates memory out of proportion to the received bytes; encoding succeeds exactly when the value fits into the rest of the buffer and is otherwise refused the same way.",
  quantifier=Q(["inputs"], "all received byte sequences within the bounds; all fill levels of the buffer"),
  why_tests_cant="No test decodes malformed data; lengths, masks and truncation points form an unbounded input space.",
  anchors=A(["common/ua/common/OpcUaBinaryCodec.cpp", "common/ua/common/OpcUaBinaryCodec.hpp", "common/ua/common/OpcUaSduBuffer.cpp"], [("length checks", "OpcUaBinaryCodec::readLength"), ("buffer limits", "OpcUaSduBuffer::read/write")])),
 dict(id="P04", title="Modbus requests and responses keep their content over the wire",
  statement="For every supported Modbus request and response, encoding produces exactly the Modbus/TCP frame (big-endian header, unit address, function code, values; a coil as FF00 or 0000; an exception as function code plus 0x80 and error code), and decoding that frame gives back the same content. Content the protocol can not carry (unit address above 247, unsupported function, counts that do not fit a frame or do not match) is refused.",
  quantifier=Q(["inputs"], "all field values, item counts and register contents of all supported functions"),
  why_tests_cant="There is no Modbus test at all; the value space of ids, addresses and register contents can not be sampled.",
  anchors=A(["modbus/ModbusCodec.cpp", "modbus/ModbusCodec.hpp", "modbus/PduBuffer.hpp", "modbus/client/AduRequest.hpp", "modbus/client/AduRespond.hpp"], [("encoders and decoders", "ModbusCodec::encode/decode"), ("byte order", "PduBuffer")])),
 dict(id="P05", title="Malformed Modbus frames are refused and never read or written out of bounds",
  statement="For every sequence of received bytes, a frame is taken as complete exactly when all bytes its header announces, and no more, have arrived; decoding it depends only on the received bytes, accepts only well-formed requests and responses with consistent length, count and address fields, and writes no more data than was received.",
  quantifier=Q(["inputs"], "all byte sequences up to the frame limit, all previous buffer contents"),
  why_tests_cant="Malformed frames form a space of 2^2000 inputs; no test sends one.",
  anchors=A(["modbus/ModbusCodec.cpp", "modbus/PduBuffer.hpp"], [("completeness checks", "ModbusCodec::isAdu*"), ("decoders", "ModbusCodec::decode")])),
 dict(id="P06", title="Every Modbus client request is answered exactly once, truthfully",
  statement="In every history of connection events, received data, failures and timeouts, each request given to a Modbus client is answered exactly once with its own ids - at the latest when its timers have run out - and is sent at most once, in order, with its own content. It is reported successful only if a well-formed response with its transaction id, address and function arrived while it was awaited, with exactly the values or the exception code of that response, and such a response is never reported as an error. After any of these events the client connects again by itself and serves further requests.",
  quantifier=Q(["histories", "fault_sequences", "inputs"], "all histories of requests, link events, received frames, send/connect failures and timer expiries"),
  why_tests_cant="No test runs the client; late responses, timeouts and failures have to coincide in particular orders.",
  anchors=A(["modbus/Modbus.cpp", "modbus/client/ModbusClient.cpp", "modbus/client/ModbusClientConnect.cpp", "modbus/client/ModbusClientConnected.cpp", "modbus/client/ModbusClientSend.cpp", "modbus/client/ModbusClientReceive.cpp", "modbus/client/ModbusClientBackoff.cpp", "modbus/client/ModbusAduStorage.cpp"], [("state machine", "ModbusClientFsm and its states"), ("matching of responses", "ModbusClient::receive")])),
 dict(id="P07", title="The Modbus server forwards each request once and answers on its connection",
  statement="In every history of connections, requests, application responses, timeouts and failures, a well-formed request is forwarded to the application exactly once with its content and a session id unique among live connections, and the application's response to it is sent exactly once, on that connection only, with the transaction id, address and function of the request. Responses nobody waits for and malformed requests cause no traffic, and a connection that ends or can not be accepted releases its session, link and timer for re-use.",
  quantifier=Q(["histories", "fault_sequences", "inputs"], "all histories of two connections; all application responses; failures of accept, link, timer and send"),
  why_tests_cant="No test runs the server; late or wrong responses and failing accepts need specific histories.",
  anchors=A(["modbus/Modbus.cpp", "modbus/server/ModbusServer.cpp", "modbus/server/ModbusSessionPool.cpp", "modbus/server/session/ModbusSession.cpp", "modbus/server/session/ModbusSessionConnected.cpp", "modbus/server/session/ModbusSessionWaitModbusAduRsp.cpp", "modbus/server/session/ModbusSessionInit.cpp"], [("session state machine", "ModbusSessionFsm and its states"), ("forwarding and response", "ModbusSession::receive/send")])),
 dict(id="P08", title="Modbus messages do not depend on how TCP cuts the stream",
  statement="However the bytes of a Modbus request or response are split over reads, with spurious wake-ups in between, client and server act on it exactly once, when its last byte has arrived, with the same result as if it had arrived at once; a frame cut off by a timeout or a lost connection does not affect the next one.",
  quantifier=Q(["inputs", "schedules"], "all cut positions, all contents"),
  why_tests_cant="Loop-back tests deliver whole frames; there are exponentially many ways to cut them.",
  anchors=A(["modbus/client/ModbusClient.cpp", "modbus/server/session/ModbusSession.cpp", "modbus/ModbusCodec.cpp"], [("accumulation of received bytes", "ModbusClient::receive, ModbusSession::receive, receivePreaction")])),
 dict(id="P09", title="The inter-component message queue is a bounded FIFO that never corrupts messages",
  statement="For every sequence and every interleaving of concurrent sends and receives, a message accepted by the queue is delivered exactly once, unmodified, in the order of acceptance, and delivery writes no byte beyond the message. A message is refused, without side effect, exactly when it is larger than a slot or all slots are taken.",
  quantifier=Q(["inputs", "histories", "schedules"], "all message sizes and contents, all operation histories, all thread interleavings"),
  why_tests_cant="No test touches the queue; sizes at the slot boundary, wrap-around and preemption between any two memory accesses can not be sampled.",
  anchors=A(["common/reactor/MsgMemStorage.cpp", "common/utils/Queue.hpp"], [("slot storage with free/busy rings under a mutex", "MsgMemStorage::push/pop"), ("ring buffer", "Queue<T>")])),
 dict(id="P10", title="Resource pools never hand out an entry twice and never lose one",
  statement="Every pool of the system (links, acceptors, timers, OPC UA connections, channels and sessions, Modbus sessions and stored Modbus requests) hands out only entries that are not in use, refuses exactly when its fixed capacity is in use, and makes a released entry - or one whose creation failed - available again. A stored Modbus request comes back in order with its content and data intact.",
  quantifier=Q(["histories", "fault_sequences"], "all allocation/release histories near exhaustion, with system-call failures at any point"),
  why_tests_cant="Tests allocate once; exhaustion, re-use order and failure during creation are histories they never reach.",
  anchors=A(["common/reactor/EntityPool.hpp", "common/reactor/Reactor.cpp", "common/ua/common/UaEntityPool.hpp", "modbus/server/ModbusSessionPool.cpp", "modbus/client/ModbusAduStorage.cpp"], [("free-id rings", "EntityPool, UaEntityPool, ModbusSessionPool, ModbusAduStorage"), ("deleters that release", "Reactor::createLink/createTimer/createAcceptor")])),
 dict(id="P11", title="Links connect to and listen on exactly the configured address",
  statement="For every configured IPv4 address and port, an outgoing connection is opened to exactly that address and port and a server socket is bound to exactly that address and port. A server that was stopped can listen on its address again at once, also when connections to it were open until then.",
  quantifier=Q(["configurations"], "all 2^48 address/port combinations"),
  why_tests_cant="Tests use one loop-back address; bytes with the high bit set are never tried.",
  anchors=A(["common/reactor/types/LinkAddr.hpp", "common/reactor/Link.cpp", "common/reactor/Acceptor.cpp"], [("address decoding", "ipv4addr, ipv4port"), ("socket calls", "Link::connect, Acceptor::listen")])),
 dict(id="P12", title="Timers fire once, exactly when asked; time stamps count from 1601",
  statement="A timer started with an interval expires that many microseconds later, for every current time and interval, and invokes its handler exactly once per expiry, never after having been stopped or without an expiry, in any order of starts, stops, expiries and spurious wake-ups. The wall-clock time put into OPC UA messages is the number of 100 ns ticks since 1601-01-01 UTC for every time of day.",
  quantifier=Q(["inputs", "histories"], "all clock readings and intervals; all histories of timer operations"),
  why_tests_cant="Tests mock the timer; carries of the nanosecond part and re-arming orders are never executed.",
  anchors=A(["common/reactor/Timer.cpp", "common/utils/TimeUtils.hpp"], [("absolute expiry computation", "Timer::start"), ("expiry handling", "Timer::onFileDescriptorEvent"), ("epoch conversion", "getCurrentDateTime")])),
 dict(id="P13", title="Descriptors are owned, watched and released exactly once",
  statement="Links, acceptors and timers hold an open, watched descriptor exactly while they are connected, listening or existing, whatever system call fails; afterwards nothing leaks, nothing is closed twice and no call is made on a closed descriptor. Operations fail exactly when the system refuses them, leaving the object reusable, and connections never block the event loop.",
  quantifier=Q(["histories", "fault_sequences"], "all short histories of connect/close/listen/accept/create/release with system-call failures at any point"),
  why_tests_cant="The descriptor layer is only mocked in tests; failures of individual system calls are never injected.",
  anchors=A(["common/reactor/Link.cpp", "common/reactor/Acceptor.cpp", "common/reactor/Timer.cpp", "common/reactor/Epoll.cpp"], [("descriptor life cycle", "Link::connect/close, Acceptor::listen/accept/close, Timer::create/close")])),
 dict(id="P14", title="The reactor delivers every accepted message and event to its addressee",
  statement="A message sent to a component reaches the reactor of that component and there the handler registered for it, exactly once, unmodified and in order of sending, also when handlers throw, send further messages, or other messages have no handler; it is refused only when 64 messages are waiting. Every event of a connection, listening socket or timer is reported exactly once to its own handler with the right meaning (connected, data, error), whatever other handlers do, a broken connection is closed, and reads and writes report exactly what the system did - also when the peer is gone, which does not end the process.",
  quantifier=Q(["schedules", "histories", "fault_sequences"], "all sequences of sends, wake-ups, throwing and re-sending handlers; all event masks and system-call results"),
  why_tests_cant="No test runs the reactor; wake-up coalescing, throwing handlers and full queues need specific schedules.",
  anchors=A(["common/reactor/Reactor.cpp", "common/reactor/Epoll.cpp", "common/reactor/Event.cpp", "common/reactor/Link.cpp", "common/reactor/ReactorManager.cpp"], [("event loop and dispatch", "Reactor::run/onFdEvent, Epoll::wait, Event"), ("routing", "ReactorManager::send"), ("link events", "Link::onFileDescriptorEvent/send/receive")])),
 dict(id="P15", title="Variable-size messages keep all their parts between components",
  statement="For every length of content up to the maximum message size, a message announces a size that covers all of its data and items and no more, and its fields, data and items - found again by index, without overlap - arrive unmodified at the receiving component.",
  quantifier=Q(["inputs"], "all content lengths, all contents, all combinations of item sizes"),
  why_tests_cant="Only fixed small messages occur in tests; size and alignment errors show at particular lengths.",
  anchors=A(["common/msg/MsgModbusClientAduReq.hpp", "common/msg/MsgModbusAduReq.hpp", "common/msg/MsgModbusAduRsp.hpp", "common/msg/MsgModbusClientAduRsp.hpp", "common/msg/MsgModbusConfigReq.hpp", "common/msg/MsgUaSecuredMessageSendReq.hpp", "common/msg/MsgUaEncodedMessageSendReq.hpp", "common/utils/MemUtils.hpp", "common/reactor/MsgMemStorage.cpp"], [("size of a message", "size() of the messages in common/msg"), ("item layout", "MsgModbusClientAduReq::item, utils::memAlign")])),
 dict(id="P16", title="OPC UA transport carries messages intact between a connection and its channel",
  statement="In every history of connections, received data, answers, timeouts and failures, a connection is opened by a well-formed Hello (answered with one Acknowledge) and by nothing else, each complete message that belongs to its secure channel is forwarded exactly once and unmodified however TCP cuts it, and each answer is sent exactly once, framed correctly, on the connection and channel it is meant for only. A connection that is silent, malformed, refused or lost is closed without affecting any other, its link, timer and number are released, and its secure channel is told exactly once.",
  quantifier=Q(["histories", "fault_sequences", "inputs"], "all histories of two connections; all messages, cut positions and answers; failures of accept, link, timer and send"),
  why_tests_cant="No test runs the server transport; malformed, cut and late messages form a space that can not be sampled.",
  anchors=A(["ua/transport/UaTransport.cpp", "ua/transport/UaTransportComponent.cpp", "ua/transport/server/UaTcpConnection.cpp", "ua/transport/server/UaTcpConnectionConnected.cpp", "ua/transport/server/UaTcpConnectionReceiveHello.cpp", "ua/transport/server/UaTcpServer.cpp", "common/ua/common/OpcUaSduBuffer.cpp", "common/ua/common/UaEntityPool.hpp"], [("connection state machine", "UaTcpConnection and its states"), ("framing", "UaTcpConnection::receive*"), ("routing of answers", "UaTransport::receive, UaTcpServer")])),
 dict(id="P17", title="OPC UA secure channels accept and send only what belongs to them",
  statement="In every history, each well-formed request to open a channel is answered once, on its connection, with a channel number unique among open channels, its token, the current time, and the request's id, handle and lifetime. A received message is forwarded - once, unmodified, with its request id and the session of its channel - exactly if it came from the channel's connection with its token and the next sequence number; messages to send leave once, unmodified, with the channel's token and consecutive sequence numbers, and only for the channel's own connection and session. Any other or malformed message closes at most the channel and connection it came from, and a channel that ended is available again with nothing left of its former use.",
  quantifier=Q(["histories", "inputs"], "all histories of opened, used and closed channels; all connection, channel, token, sequence, request and session numbers; all messages"),
  why_tests_cant="No test runs the secure channel component; wrong numbers and malformed requests can not be sampled.",
  anchors=A(["ua/securechannel/UaSecureChannel.cpp", "ua/securechannel/UaSecureChannelComponent.cpp", "ua/securechannel/channel/UaServerSecureChannel.cpp", "ua/securechannel/channel/UaServerSecureChannelEstablished.cpp", "ua/securechannel/channel/UaServerSecureChannelInit.cpp", "common/ua/common/UaEntityPool.hpp", "common/ua/common/OpcUaSduBuffer.cpp"], [("checks of connection, token and sequence number", "UaServerSecureChannel::receive"), ("life of a channel", "UaServerSecureChannelInit, UaServerSecureChannelEstablished")])),
 dict(id="P18", title="OPC UA services answer each request once and only within its session",
  statement="In every history of requests, a well-formed endpoint, session or read request is answered exactly once, on the connection, channel and request it came from, with the right kind of response, the handle of the request and the current time: created sessions get ids and tokens unique among open sessions with the requested timeout and size, activation and closing work exactly for the tokens of open sessions, and reads are served exactly for a session activated on the channel they came over. Malformed requests, requests for unknown services and with unknown tokens change nothing and take up no memory, and a closed session is available again.",
  quantifier=Q(["histories", "inputs"], "all histories of requests; all connection, channel, request, session and token numbers; all request contents"),
  why_tests_cant="No test runs the service component; tokens and numbers that do not belong to a session can not be sampled.",
  anchors=A(["ua/service/UaService.cpp", "ua/service/UaServiceComponent.cpp", "ua/service/session/UaSessionService.cpp", "ua/service/session/UaSession.cpp", "ua/service/session/UaSessionActivated.cpp", "ua/service/session/UaSessionCreated.cpp", "ua/service/session/UaSessionInit.cpp", "ua/service/attribute/UaAttributeService.cpp", "ua/service/attribute/UaRead.cpp", "ua/service/discovery/UaGetEndpoints.cpp"], [("dispatch of requests", "UaService::receive"), ("session state machine", "UaSession and its states"), ("responses", "UaSession::receive, UaGetEndpoints::receive, UaAttributeService::receive")])),
 dict(id="P19", title="OPC UA client and server connections open, deliver and end correctly",
  statement="In every history of the connection library, a connecting side sends exactly one well-formed first message (Hello, or ReverseHello for a server) when the link is up, a server answers a well-formed Hello with exactly one Acknowledge, and the connection is reported established exactly once, only after a complete well-formed handshake. Each complete later message is reported once and unchanged however TCP cuts it. A refused, malformed, lost or silent connection is reported exactly once - at the latest by its timer - and gives back its link and timer, after which it can be used again.",
  quantifier=Q(["histories", "fault_sequences", "inputs"], "all histories of one client, accepting or reverse-connecting connection; all received bytes and cut positions; failures of link, timer, connect and send"),
  why_tests_cant="The unit tests play a few fixed sequences against mocks; malformed, cut and late data and failing set-up are not among them.",
  anchors=A(["common/ua/protocols/connection/OpcUaConnection.cpp", "common/ua/protocols/connection/ClientConnection.cpp", "common/ua/protocols/connection/ServerConnection.cpp", "common/ua/protocols/connection/ClientConnectionConnecting.cpp", "common/ua/protocols/connection/ClientConnectionReceiveAck.cpp", "common/ua/protocols/connection/ClientConnectionConnected.cpp", "common/ua/protocols/connection/ServerConnectionConnecting.cpp", "common/ua/protocols/connection/ServerConnectionReceiveHello.cpp", "common/ua/protocols/connection/ServerConnectionConnected.cpp"], [("framing", "OpcUaConnection::receive"), ("state machines", "ClientConnection, ServerConnection and their states")])),
 dict(id="P20", title="The OPC UA server serves independent clients end to end",
  statement="Over the network, each request of a client that follows the protocol - from Hello and opening a channel through endpoints, session creation, activation, reading and closing - is answered exactly once, on its own connection, with its own request id, handle, channel and token and consecutive sequence numbers, however its bytes are cut and whatever other clients do, send, or lose at the same time. Messages with forged channel, token, sequence or session numbers are not served and close only the connection they came from. When a conversation ends in any way, everything it used is available again (sessions when they are closed).",
  quantifier=Q(["histories", "schedules", "inputs"], "all interleavings of two clients' requests, losses and timeouts with the messages between the components; all ids, handles, tokens and cut positions"),
  why_tests_cant="No test runs the OPC UA server; losses while messages are under way between the components need specific schedules.",
  anchors=A(["ua/transport/UaTransport.cpp", "ua/transport/server/UaTcpConnection.cpp", "ua/securechannel/UaSecureChannel.cpp", "ua/securechannel/channel/UaServerSecureChannel.cpp", "ua/service/UaService.cpp", "ua/service/session/UaSession.cpp", "common/ua/common/UaEntityPool.hpp"], [("interplay of transport, channels and services", "messages MsgUa* between the components")])),
 dict(id="P21", title="The application starts, serves and stops in every order of events",
  statement="After a start, in whatever order the components handle their messages, Modbus and OPC UA servers listen on their addresses and the built-in test of the Modbus client against the Modbus server passes, again and again; after a stop at any moment - also before the start is complete, twice, or without a start - every connection, timer, listener and all memory is given back and a new start works. While the application serves, each well-formed Modbus request with whatever transaction number, address and values is answered at most once with its own identification, never touches memory outside the application's registers (an address outside gives an exception response), and registers that were written read back as written.",
  quantifier=Q(["schedules", "histories", "inputs"], "all orders in which the reactors handle messages (up to a number of deviations), all points at which a start or stop arrives, all requests"),
  why_tests_cant="No test runs the components together; a stop during start-up needs a specific schedule, and an out-of-range request a specific combination of fields.",
  anchors=A(["controller/ControllerComponent.cpp", "controller/modbus/ModbusTestController.cpp", "controller/modbus/ModbusTestConfigure.cpp", "controller/modbus/ModbusTestRun.cpp", "controller/ua/UaController.cpp", "common/reactor/ReactorManager.cpp", "modbus/ModbusComponent.cpp", "ua/transport/UaTransportComponent.cpp"], [("start and stop", "ControllerComponent::receive, ModbusTestController, UaController"), ("routing", "ReactorManager::send, CompIds in the message types")])),
 dict(id="P22", title="The process starts, fails to start, and shuts down cleanly in every timing",
  statement="Whenever the reactors are stopped or destroyed - while their threads wait, have just received events, are in the middle of handling one, or were never started, and also when the system refuses one of the threads at start - no component handles anything after or during its destruction, every thread that was started has ended and was joined, every descriptor is closed, and the process ends instead of hanging or crashing. The application as deployed never lets a component handle two events at once, starts, listens and ends normally whenever start, stop and shut-down arrive. Each thread runs on exactly the processors configured for its reactor, or the start fails.",
  quantifier=Q(["schedules", "fault_sequences", "histories"], "all interleavings of the main thread and the reactor threads up to a number of preemptions; all failing thread creations"),
  why_tests_cant="Tests run single components on mocked reactors without threads; the windows between an event being reported and handled are microseconds wide.",
  anchors=A(["common/reactor/Reactor.cpp", "common/reactor/ReactorManager.cpp", "common/reactor/Thread.cpp", "common/reactor/Epoll.cpp", "common/reactor/Event.cpp", "Deployer.cpp", "main.cpp"], [("stop and destruction", "Reactor::stop, ReactorManager::~ReactorManager"), ("joining", "Thread::~Thread"), ("the process", "main")])),
 dict(id="P23", title="Channels of the secure channel library serve, refuse and end cleanly",
  statement="A server channel of the library answers each well-formed request to open or renew it with exactly one open response that carries the request's id and handle, reports a message exactly once and unchanged when - and only when - the channel is open and the message has the channel's token and the next sequence number, and sends each response whole with the channel's numbers, the request's id and a sequence number one higher than before, or not at all if it does not fit. Anything else - a wrong token or number, a malformed or cut message, a lost connection, a timeout, a failing set-up - ends server and client channels with exactly one report, their connection and timer are given back, and the channel can be opened again any number of times. A client channel asks once to be opened and is open after a well-formed open response.",
  quantifier=Q(["histories", "inputs", "fault_sequences"], "all histories of connection events and messages up to a length; all token, sequence and request numbers; all cut positions"),
  why_tests_cant="There are no tests of this library; wrong numbers, cut messages and losses in each state need many combinations.",
  anchors=A(["common/ua/protocols/secure/OpcUaServerSecureChannel.cpp", "common/ua/protocols/secure/OpcUaClientSecureChannel.cpp", "common/ua/protocols/secure/OpcUaServerSecureChannelEstablished.cpp", "common/ua/protocols/secure/OpcUaServerSecureChannelReceiveOpenReq.cpp", "common/ua/protocols/secure/OpcUaClientSecureChannelReceiveOpenRsp.cpp"], [("server", "OpcUaServerSecureChannel and its states"), ("client", "OpcUaClientSecureChannel and its states")])),
 dict(id="P24", title="OPC UA values compare equal exactly when they are the same value",
  statement="Two OPC UA values of any built-in structured type compare equal if and only if all their parts - presence, kind, type, shape and content - are the same, whatever the values are and in whichever order they are compared. A value always equals itself, and comparing never fails. (An absent optional text may or may not equal an empty one.)",
  quantifier=Q(["inputs"], "all pairs of values with symbolic content, all presence flags, kinds, types and shapes"),
  why_tests_cant="Tests compare a few equal values after a round trip; almost none that differ in one part only.",
  anchors=A(["common/ua/common/types/StructType.hpp", "common/ua/common/types/NodeId.hpp", "common/ua/common/types/ExpandedNodeId.hpp", "common/ua/common/types/LocalizedText.hpp", "common/ua/common/types/ExtensionObject.hpp", "common/ua/common/types/DiagnosticInfo.hpp", "common/ua/common/types/DataValue.hpp", "common/ua/common/types/Variant.hpp"], [("comparison", "operator== of the types, compare()")])),
]
