"""What decides each property: harness entries, sources, bounds."""
REACTOR = ["common/reactor", "common/utils", "common/logger"]
COV = ["-fsanitize-coverage=edge,trace-pc,trace-loads,trace-stores"]
def J(h, entry, dirs, reach=(), **kw):
    return dict(h=h, entry=entry, dirs=dirs, reach=list(reach), **kw)
MODBUS = ["modbus", "common/utils", "common/logger"]
UACODEC = ["common/ua/common", "common/utils", "common/logger"]
UATYPES = ["numbers", "string", "nodeid", "expnodeid", "qname", "ltext", "extobj", "datavalue", "diag", "diag_deep", "variant", "arrays"]
UAMSGS = ["hdr", "uahdr", "hello", "ack", "err", "rhello", "sechdr", "tokhdr", "seqhdr", "reqhdr", "rsphdr", "openreq", "openrsp", "closereq", "closersp", "getreq", "getrsp",
          "createreq", "creatersp", "closesreq", "closesrsp", "actreq", "actrsp", "readreq", "readrsp", "token"]
UAANY = ["numbers", "string", "bytes", "strings", "nodeid", "expnodeid", "qname", "ltext", "extobj", "variant", "datavalue", "diag", "hello"]
UAMAL = ["hello", "err", "sechdr", "openreq", "openrsp", "closereq", "getreq", "getrsp", "createreq", "creatersp", "closesreq", "actreq", "actrsp", "readreq", "readrsp"]
def uacodec(wire):
    return [J("uacodec.cpp", ("h_uaw_" if wire else "h_ua_") + t, UACODEC, ["done"]) for t in UATYPES + ["m_" + m for m in UAMSGS]]
UABOUNDS = 'symbolic content of all fields; strings of 0-3 bytes and 17 lengths up to 4088, lists of 0-2 elements and 10 lengths up to 1022, diagnostics nested up to 10 (40) levels; simple types: all combinations of presence flags, kinds and lengths; messages: all fields minimal or maximal except one (two) that take(s) every choice; 0-3 bytes in the buffer before the value'
UAOUT = 'XmlElement (a placeholder in the code), the position of locale and localized text in diagnostics, non-empty software certificate lists, decoding into a used object'
UATL = ["ua/transport", "common/ua/common", "common/utils", "common/logger"]
UASC = ["ua/securechannel", "common/ua/common", "common/utils", "common/logger"]
UASV = ["ua/service", "common/ua/common", "common/utils", "common/logger"]
UACN = ["common/ua/protocols/connection", "common/ua/common", "common/utils", "common/logger"]
UAST = ["ua", "common/ua/common", "common/utils", "common/logger"]
APP = ["controller", "modbus", "ua", "common/ua/common", "common/reactor", "common/utils", "common/logger"]
PROC = ["."] + APP + ["connector"]
UACS = ["common/ua/protocols/connection", "common/ua/protocols/secure", "common/ua/common", "common/utils", "common/logger"]
PROPS = {
 "P23": dict(bounds='6 (7) events on a server channel and 8 (9) on a client channel (set-up with failure at any point, hello, open, renewal, request, close, other or cut messages, loss, timeout) with symbolic numbers and send failures; open requests and responses with any one optional part varied and 0-23 (59) bytes cut; requests of 0-4072 bytes with responses of 0-4096; any message type; 8-37 (47) arbitrary bytes; any one text of 127-3500 bytes; 66000 requests on one channel; 300 consecutive channels for each of 6 / 7 ways to end', outside='close() and send() of the client side and close() of the server side (empty in the code), the unused "established" event, the channel number in received messages (not checked by the code), errors reported by the link while a message is awaited (the channel ends with its timer)', jobs=[J("uachan.cpp", "h_sc_history", UACS, ["start-failed", "ack-failed", "no-hello", "lost", "timeout", "opened", "renewed", "open-failed", "open-malformed", "request", "response", "response-failed", "refused", "closed"]), J("uachan.cpp", "h_sc_open", UACS, ["opened", "renewed", "open-malformed"]), J("uachan.cpp", "h_sc_long", UACS, ["long"]), J("uachan.cpp", "h_sc_message", UACS, ["request", "response", "too-long", "refused", "closed"]), J("uachan.cpp", "h_sc_junk", UACS, ["request", "junk-ended"]), J("uachan.cpp", "h_sc_reuse", UACS, ["reused"]), J("uachan.cpp", "h_sc_many", UACS, ["many"], instr=4000000000), J("uachan.cpp", "h_scc_history", UACS, ["start-failed", "hello-failed", "no-connection", "asked", "request-failed", "open", "bad-response", "lost", "timeout"]), J("uachan.cpp", "h_scc_response", UACS, ["open", "bad-response"]), J("uachan.cpp", "h_scc_reuse", UACS, ["reused"])]),
 "P22": dict(bounds='two reactors with one thread each and a component each that uses a timer, a connection and a listener, 2 (3) preemptions or non-default choices of the next thread, 1 (2) network or timer events, stop after 0-4 rounds, destruction with and without stop or start, each thread creation refused; processor sets with and without processors the machine lacks; the deployed application (3 reactors, all components) with 1 (2) preemptions, 1 (2) timer or network events, and start, stop and end after 6 x 4 different delays', outside='several threads per reactor, more preemptions, data races on the stop flag itself (it is examined as if accesses were sequentially consistent), preemptions inside straight-line code between system calls', jobs=[J("process.cpp", "h_proc_life", PROC, ["stopped", "started", "never-started", "start-failed", "event", "timer-handled"]), J("process.cpp", "h_proc_cpu", PROC, ["missing", "pinned", "free"]), J("process.cpp", "h_proc_main", PROC, ["listening", "ended"], shards=8, depth=4)]),
 "P21": dict(bounds='2-3 (2-4) starts and stops, each at any point of what the previous one set going, on three reactors with up to 1 (2) deviations from a fixed order of handling; an OPC UA client connecting in between; the built-in test of Modbus client against server over a loop-back network with 2 (3) deviations, stopped at any point; any well-formed Modbus request of 7 functions with any transaction number, unit, address (near the ends of the data and outside; thorough: all) and values, 2 or 125 registers read and 1-3 written; every write read back' , outside='a start while started, failing listen() at configuration, requests while the application pauses between two test runs (not answered)', jobs=[J("controller.cpp", "h_ctl_startstop", APP, ["started", "stopped", "not-started", "client"], shards=8, depth=12), J("controller.cpp", "h_ctl_request", APP, ["read", "written", "exception", "refused"], shards=8, depth=1), J("controller.cpp", "h_ctl_readback", APP, ["readback"]), J("controller.cpp", "h_ctl_selftest", APP, ["passed", "interrupted"])]),
 "P20": dict(bounds='conversations of up to 9 requests with symbolic ids, handles, times and tokens; one request cut anywhere; two clients with 5 (7) requests each interleaved in every way; 4 (5) actions of two clients (request, loss, timeout) with any number of messages between the components still on their way; every request with forged channel, token, sequence and session numbers; 300 consecutive conversations for each way to end', outside='sessions a client does not close, pipelined requests, stale messages after a connection number was used again', jobs=[J("uastack.cpp", "h_ue_conversation", UAST, ["hello", "channel", "endpoints", "session", "activated", "read", "session-closed", "closed"]), J("uastack.cpp", "h_ue_two", UAST, ["both"]), J("uastack.cpp", "h_ue_race", UAST, ["lost", "timeout", "finished"], shards=8), J("uastack.cpp", "h_ue_intruder", UAST, ["served", "closed-out"]), J("uastack.cpp", "h_ue_cycles", UAST, ["reused"])]),
 "P19": dict(bounds='7 (8) events on one client, accepting or reverse-connecting connection (start with failure at any point, established, well-formed or 5/12 arbitrary bytes, loss, timeout, link error, close, send) with send failures; 0-36 (44) arbitrary first bytes, 0-16 (24) and 1-4 more on an open connection; handshake and messages in up to 3 (4) pieces at all cut positions; messages of 10 sizes up to 4096 bytes in up to 3 pieces; Hello with an address of 0-3960 bytes; 300 consecutive connections for each of 6 ways to end', outside='several messages in one read (pipelining), close() while connecting, connecting again from inside an error report, the life time limit of an established connection', jobs=[J("uaconn.cpp", "h_uac_history", UACN, ["hello", "hello-failed", "start-failed", "incomplete", "malformed", "ack-failed", "open", "closed-at-once", "message", "lost", "timeout", "refused", "broken", "sent", "not-connected", "closed"], shards=8), J("uaconn.cpp", "h_uac_junk", UACN, ["incomplete", "malformed", "open", "message"]), J("uaconn.cpp", "h_uac_segments", UACN, ["all"]), J("uaconn.cpp", "h_uac_hello", UACN, ["long"]), J("uaconn.cpp", "h_uac_sizes", UACN, ["all"]), J("uaconn.cpp", "h_uac_reuse", UACN, ["reused", "closed-in-data"])]),
 "P18": dict(bounds='1-2 sessions, then 4 (5) requests (create, activate, close, read) with any connection, channel, request, session and token numbers and symbolic content, 3 sessions at most; all five requests in every structure (one or two varied parts) with every form of token; every truncation of up to 256 bytes; every service number in any form; any one text of 127-3500 bytes; 300 consecutive sessions; all 32 sessions in use; 2 (3) requests after a session whose number was used before', outside='the content of read results (not implemented: always empty), session timeouts, closing a session from another channel, the token in read requests (the channel decides)', jobs=[J("uaservice.cpp", "h_uav_history", UASV, ["created", "activated", "closed", "read", "refused"], shards=8), J("uaservice.cpp", "h_uav_requests", UASV, ["endpoints", "created", "activated", "closed", "read", "refused"]), J("uaservice.cpp", "h_uav_long", UASV, ["long"]), J("uaservice.cpp", "h_uav_truncated", UASV, ["truncated"]), J("uaservice.cpp", "h_uav_unknown", UASV, ["unknown"]), J("uaservice.cpp", "h_uav_second", UASV, ["second"], shards=4), J("uaservice.cpp", "h_uav_reuse", UASV, ["reused"]), J("uaservice.cpp", "h_uav_full", UASV, ["full", "created", "activated"])]),
 "P17": dict(bounds='1-2 open channels with or without session, then 3 (4) events (open, message, close, session assignment, message to send, end of connection) with any connection, channel, token, sequence, request and session numbers and symbolic content; requests of every structure (one or two varied parts); every truncation of up to 256 bytes; payloads of 39 (60) lengths up to the largest message; any one text of 127-3500 bytes; 66000 messages on one channel; 300 consecutive channels for each of 7 ways to end; all 32 channels in use; 1 (2) events and a message in each direction on a channel whose number was used before', outside='renewal of a channel token and token lifetimes (not implemented), signed or encrypted channels (not implemented), sequence number wrap rule', jobs=[J("uasecure.cpp", "h_uas_history", UASC, ["opened", "forwarded", "refused", "foreign", "no-channel", "closed", "associated", "sent", "not-sent", "released"], shards=8), J("uasecure.cpp", "h_uas_second", UASC, ["second"], shards=4), J("uasecure.cpp", "h_uas_open", UASC, ["opened", "forwarded", "refused"]), J("uasecure.cpp", "h_uas_close", UASC, ["closed", "refused", "no-channel"]), J("uasecure.cpp", "h_uas_long", UASC, ["long"]), J("uasecure.cpp", "h_uas_truncated", UASC, ["malformed", "refused"]), J("uasecure.cpp", "h_uas_sizes", UASC, ["forwarded", "sent", "not-sent"]), J("uasecure.cpp", "h_uas_many", UASC, ["many"], instr=4000000000), J("uasecure.cpp", "h_uas_reuse", UASC, ["reused", "forwarded"]), J("uasecure.cpp", "h_uas_full", UASC, ["full", "released", "opened", "forwarded"])]),
 "P16": dict(bounds='2 connections, 4 (5) events from a new, open or associated connection (accept with failure at any of 3 points, Hello, message of any of 4 kinds, any answer with any channel number, also to connections that do not exist, release, timeout, end of connection) with send failures and symbolic content; messages of 25 sizes (and 12-267) up to 4096 bytes in either direction; 0-36 (44) arbitrary first bytes, 0-16 (24) on an open connection; messages in up to 4 (5) pieces at all cut positions, up to 4000 bytes in 3 pieces; Hello with an address of 0-3960 bytes; 300 consecutive connections for each of 9 ways to end; 2 (3) events on a connection whose number was used before by one in any of 5 states, ended in any of 3 ways', outside='several messages in one read (pipelining), multi-chunk assembly, answers to a connection whose number was re-used, the advertised buffer sizes', jobs=[J("uatransport.cpp", "h_uat_history", UATL, ["acknowledged", "not-hello", "forwarded", "refused", "sent", "send-failed", "foreign", "orphan", "replaced", "released", "timeout", "ended", "accept-failed", "reported"], shards=8), J("uatransport.cpp", "h_uat_second", UATL, ["second", "forwarded", "refused", "sent"], shards=4), J("uatransport.cpp", "h_uat_hello", UATL, ["long", "acknowledged"]), J("uatransport.cpp", "h_uat_sizes", UATL, ["forwarded", "second", "refused"]), J("uatransport.cpp", "h_uat_send", UATL, ["sent"]), J("uatransport.cpp", "h_uat_junk", UATL, ["incomplete", "wrong-size", "forwarded", "refused"]), J("uatransport.cpp", "h_uat_reuse", UATL, ["reused"]), J("uatransport.cpp", "h_uat_segments", UATL, ["all"]), J("uatransport.cpp", "h_uat_segments_long", UATL, ["long"]), J("uatransport.cpp", "h_uat_segments_lost", UATL, ["reused"])]),
 "P24": dict(bounds='symbolic content of all fields, texts of 0-3 bytes, lists of 0-2 elements, diagnostics nested twice; simple types: one value of every structure, the other of the same structure except one (two) part(s) that take(s) every choice; Variants: any two of the same type (all 21) and shape, and every pair of different types and shapes', outside='XmlElement (a placeholder in the code), NaN and zero of either sign, an absent optional text compared with an empty one (may be the same or not)', jobs=[J("uaequal.cpp", "h_ueq_" + t, UACODEC, ["equal", "different"]) for t in ["text", "qname", "nodeid", "expnodeid", "extobj", "diag", "nested", "datavalue", "guid", "variant", "types"]]),
 "P01": dict(bounds=UABOUNDS, outside=UAOUT, jobs=uacodec(0)),
 "P02": dict(bounds=UABOUNDS + '; alternative forms: wider numeric NodeIds, empty/null strings, arrays and texts, any non-zero Boolean', outside=UAOUT, jobs=uacodec(1) + [J("uacodec.cpp", "h_uaw_alternatives", UACODEC, ["done"])]),
 "P03": dict(bounds='decoding of 0-10..30 arbitrary bytes for each of 13 types; every truncation of 15 messages; 4 (6) arbitrary bytes at every position of 15 messages with one element per list; diagnostics nested up to 4095 levels; every type into the last 40 bytes of a buffer; strings and arrays of up to 70000 elements', outside='more than 4 (6) damaged bytes in a message; messages with longer lists', jobs=[J("uacodec.cpp", "h_uad_" + t, UACODEC, ["accepted", "refused"]) for t in UAANY + ["deep"]]
   + [J("uacodec.cpp", "h_uad_t_" + t, UACODEC, ["refused"]) for t in UAMAL] + [J("uacodec.cpp", "h_uad_d_" + t, UACODEC, ["accepted", "refused"]) for t in UAMAL]
   + [J("uacodec.cpp", "h_uad_" + t, UACODEC, ["fits", "too-long"]) for t in ["full", "toolong"]]),
 "P15": dict(bounds='all announced lengths within the maximum message size (symbolic); content of up to 19 (39) bytes, 2 (3) items of 0-34/246/250/260 data bytes each, 5 configured items', outside='longer content (only its announced size is checked)', jobs=[J("msgs.cpp", "h_msg_sized", REACTOR, ["sized", "carried"]), J("msgs.cpp", "h_msg_items", REACTOR, ["items"]), J("msgs.cpp", "h_msg_config", REACTOR, ["config"])]),
 "P07": dict(bounds='2 connections, 5 (7) events (accept with failure at any of 3 points, well-formed request, malformed frame, any application response, timeout, end of connection) with send failures, symbolic content; every function with responses of any size 0-24 (600) bytes and around the frame limit; 300 consecutive connections for each of 8 ways to end; 3 (4) events on a connection whose session was used before by one in any of 5 states', outside='pipelined requests, re-use of a transaction id on one connection, late responses to a session whose number was re-used, coil and discrete-input responses (not implemented)', jobs=[J("mbserver.cpp", "h_mbs_history", MODBUS, ["forwarded", "responded", "unmatched", "failed", "send-failed", "accept-failed", "junk", "inactive", "late", "ended"], shards=8), J("mbserver.cpp", "h_mbs_exchange", MODBUS, ["responded", "failed"]), J("mbserver.cpp", "h_mbs_second", MODBUS, ["second"], shards=4), J("mbserver.cpp", "h_mbs_reuse", MODBUS, ["reused"])]),
 "P08": dict(bounds='requests of 12 bytes in up to 6 (12) pieces and of 17 bytes in up to 3 (5) pieces, responses of 9/11 bytes in up to 6 (12) pieces, a second frame in up to 2 (4) pieces, frames of 33 to 259 bytes in 2 or 3 pieces, spurious wake-ups, all cut positions, symbolic content', outside='several frames in one read (pipelining), long frames in many pieces', jobs=[J("mbclient.cpp", "h_mbc_segments", MODBUS, ["both", "many-pieces", "lost"]), J("mbserver.cpp", "h_mbs_segments", MODBUS, ["both", "many-pieces"]), J("mbserver.cpp", "h_mbs_segments_lost", MODBUS, ["reused"]), J("mbclient.cpp", "h_mbc_segments_long", MODBUS, ["long"]), J("mbserver.cpp", "h_mbs_segments_long", MODBUS, ["long"])]),
 "P06": dict(bounds='7 (8) events on one client with 2 requests and 3 received frames of 5/9/11/12 symbolic bytes, connect and send failures; every function with one received frame of 0-33 symbolic bytes; 66 requests queued; 300 consecutive requests for each of 6 ways to end; then only timers until everything is answered, and one more request that is served after the client reconnected', outside='longer histories; responses above 33 bytes (their decoding is P05)', jobs=[J("mbclient.cpp", "h_mbc_history", MODBUS, ["sent", "success", "exception", "error", "drained", "recovered"], shards=8), J("mbclient.cpp", "h_mbc_exchange", MODBUS, ["sent", "success", "exception", "error", "drained"]), J("mbclient.cpp", "h_mbc_invalid", MODBUS, ["drained"]), J("mbclient.cpp", "h_mbc_full", MODBUS, ["full"]), J("mbclient.cpp", "h_mbc_many", MODBUS, ["many"])]),
 "P04": dict(bounds='all field values; 0-127 registers per write, 0-253 bytes per read response', outside='multi-coil functions and coil/discrete-input responses (not implemented)', jobs=[J("mbcodec.cpp", e, MODBUS, r) for e, r in [
   ("h_mb_req_read", ["read-ok", "refused"]), ("h_mb_req_single", ["coil-ok", "reg-ok", "refused"]), ("h_mb_req_multi", ["multi-ok", "refused"]), ("h_mb_req_func", ["unsupported"]),
   ("h_mb_rsp_read", ["rsp-read-ok", "refused"]), ("h_mb_rsp_write", ["coil-ok", "reg-ok", "multi-ok", "refused"]), ("h_mb_rsp_exc", ["exc-ok"])]]),
 "P05": dict(bounds='all received lengths 0-263 (279) with arbitrary bytes, all old buffer contents', outside='-', jobs=[J("mbcodec.cpp", "h_mb_dec_req", MODBUS, ["incomplete", "malformed", "read", "multi", "single"]), J("mbcodec.cpp", "h_mb_dec_rsp", MODBUS, ["incomplete", "malformed", "read", "exception", "write"])]),
 "P11": dict(
  bounds="all 2^48 address/port combinations; a second listen() after 0-1 accepted connections", outside="IPv6; name resolution",
  jobs=[J("addr.cpp", "h_addr_connect", REACTOR, ["connected"]), J("addr.cpp", "h_addr_listen", REACTOR, ["listening", "again"])]),
 "P09": dict(
  bounds='slots 2-3, message sizes 0..slot+2 bytes (slot 8; 12 thorough) with symbolic content and any 64-bit oversize, histories of 4 mixed / 11 (14) fixed-size operations, 3 threads with 2 (3) preemptions at any memory access or lock operation', outside='longer histories, more threads or preemptions, weak memory effects',
  jobs=[J("queue.cpp", "h_queue_sizes", REACTOR, ["pushed", "refused", "popped", "pop-empty"]), J("queue.cpp", "h_queue_order", REACTOR, ["popped", "pop-empty"]),
        J("queue.cpp", "h_queue_hugelen", REACTOR, ["refused-huge"]), J("queue.cpp", "h_ring", REACTOR, ["push", "pop"]),
        J("queue.cpp", "h_queue_mt_push", REACTOR, ["all-done"], srcflags=COV), J("queue.cpp", "h_queue_mt_pop", REACTOR, ["all-done"], srcflags=COV), J("queue.cpp", "h_queue_mt_pops", REACTOR, ["all-done"], srcflags=COV)]),
 "P12": dict(bounds='all 32-bit seconds, all nanoseconds, all 32-bit microsecond intervals; histories of 5 (7) timer operations; wall-clock times until the year 2242', outside='intervals above 2^32 us, clock failure', jobs=[J("reactor.cpp", "h_timer_start", REACTOR, ["armed"]), J("reactor.cpp", "h_timer_life", REACTOR, ["expired", "released"]), J("reactor.cpp", "h_datetime", REACTOR, ["converted"])]),
 "P13": dict(bounds='histories of 5 (6) operations on one link, or one acceptor with two links, 4 (5) on three timers; 1 (2), 2 (3) system-call failures at any call', outside='longer histories, more failures, failure of epoll_create1/eventfd at start-up', jobs=[J("reactor.cpp", "h_fd_links", REACTOR, ["connect-failed", "connect-ok"]), J("reactor.cpp", "h_fd_acceptor", REACTOR, ["listen-failed", "listen-ok", "accept-failed", "accept-ok"]), J("reactor.cpp", "h_fd_timer", REACTOR, ["create-failed", "create-ok", "timer-released"])]),
 "P14": dict(bounds='3 (4) loop iterations with 0-2 sends each of throwing, re-sending, plain or unhandled messages and optional wake-ups; bursts of 61-66 messages; 3 components with arbitrary 64-bit ids; 3 (4) link events with arbitrary masks of IN/OUT/ERR/HUP/RDHUP/PRI; any read/write result up to 40 bytes and any errno; 2 (3) batches of 1-2 events of a listening socket, two connections and a timer, any handler throwing', outside='reactors with more than one thread, stale events of a descriptor closed and re-used within one batch', jobs=[J("reactor.cpp", "h_dispatch", REACTOR, ["threw", "resent", "drained"]), J("reactor.cpp", "h_dispatch_full", REACTOR, ["refused", "second-burst", "drained"]), J("reactor.cpp", "h_routing", REACTOR, ["routed", "dropped"]), J("reactor.cpp", "h_link_events", REACTOR, ["established", "unwatchable", "broken"]), J("reactor.cpp", "h_sources", REACTOR, ["threw", "data-of-accepted"]), J("reactor.cpp", "h_link_io", REACTOR, ["sent", "not-sent", "peer-gone", "received", "closed", "again", "read-error"])]),
 "P10": dict(bounds='capacity 32 pools from 31 entries in use, 5 (6) symbolic allocate/release operations (OPC UA: 4 (5)), up to 2 system-call failures (connections: failure at any of 3 points, channels and sessions: malformed requests)', outside='histories far from exhaustion longer than that', jobs=[J("reactor.cpp", "h_pool_link", REACTOR, ["allocated", "exhausted", "released"]), J("reactor.cpp", "h_pool_acceptor", REACTOR, ["allocated", "exhausted", "released"]), J("mbserver.cpp", "h_pool_mbsession", MODBUS, ["allocated", "exhausted", "released"]), J("mbserver.cpp", "h_pool_mbadu", MODBUS, ["stored", "refused", "popped"]), J("reactor.cpp", "h_pool_timer", REACTOR, ["allocated", "exhausted", "released"]), J("mbserver.cpp", "h_mbs_reuse", MODBUS, ["reused"]), *[J("uapool.cpp", "h_pool_" + t, UAST, ["allocated", "exhausted", "released", "failed"]) for t in ("uaconn", "uachan", "uases")]]),
}
